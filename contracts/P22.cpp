// Iterator adaptors: after any steps and jumps the element is the one at the
// position, distances and comparisons agree with positions, and output
// iterators hand on exactly what is written.
#include "vc.h"
#include <daw/iterator/daw_back_inserter.h>
#include <daw/iterator/daw_checked_iterator_proxy.h>
#include <daw/iterator/daw_chunk_iterator.h>
#include <daw/iterator/daw_circular_iterator.h>
#include <daw/iterator/daw_counting_iterators.h>
#include <daw/iterator/daw_end_inserter.h>
#include <daw/iterator/daw_find_iterator.h>
#include <daw/iterator/daw_find_one_iterator.h>
#include <daw/iterator/daw_function_iterator.h>
#include <daw/iterator/daw_indexed_iterator.h>
#include <daw/iterator/daw_inserter.h>
#include <daw/iterator/daw_integer_iterator.h>
#include <daw/iterator/daw_iota_iterator.h>
#include <cassert>
#include <cstddef>
#include <daw/iterator/daw_pointer_iterator.h>
#include <daw/iterator/daw_repeat_n_char_iterator.h>
#include <daw/iterator/daw_reverse_iterator.h>
#include <daw/iterator/daw_zipiter.h>

using diff = std::ptrdiff_t;

// a container over a buffer of any size, that knows the end of what was written
struct view_of {
	using value_type = int;
	using reference = int &;
	using const_reference = int const &;
	using size_type = std::size_t;
	using difference_type = diff;
	using iterator = int *;
	using const_iterator = int const *;
	int *p;
	std::size_t n;
	int *begin( ) const { return p; }
	int *end( ) const { return p + n; }
	std::size_t size( ) const { return n; }
	int &operator[]( std::size_t i ) const { return p[i]; }
};
#define SOURCE                                             \
	auto const n = vc::size( "n" );                           \
	int *const a = vc::array<int>( n, "a" );                  \
	auto const i = static_cast<diff>( vc::range( "i", 0, n ) ); \
	auto const j = static_cast<diff>( vc::range( "j", 0, n ) ); \
	(void)i;                                                  \
	(void)j

// position p of an iterator made by at( p ), for random access iterators whose
// position is told by where( it )
template<typename At, typename Where>
static void walks( At at, Where where, diff i, diff j, diff size ) {
	auto it = at( i );
	VC_ENSURE( where( it ) == i, "made at a position" );
	if( i < size ) {
		auto k = it;
		auto &r = ++k;
		VC_ENSURE( where( k ) == i + 1 and &r == &k, "++it" );
		auto m = it;
		auto old = m++;
		VC_ENSURE( where( m ) == i + 1 and where( old ) == i, "it++" );
	}
	if( i > 0 ) {
		auto k = it;
		auto &r = --k;
		VC_ENSURE( where( k ) == i - 1 and &r == &k, "--it" );
		auto m = it;
		auto old = m--;
		VC_ENSURE( where( m ) == i - 1 and where( old ) == i, "it--" );
	}
	auto k = it;
	k += j - i;
	VC_ENSURE( where( k ) == j, "it += n" );
	k -= j - i;
	VC_ENSURE( where( k ) == i, "it -= n" );
	VC_ENSURE( where( it + ( j - i ) ) == j and where( it - ( i - j ) ) == j, "it + n and it - n" );
	VC_ENSURE( where( it ) == i, "the iterator itself does not move" );
	auto const o = at( j );
	VC_ENSURE( o - it == j - i, "distance" );
}
template<typename At>
static void compares( At at, diff i, diff j ) {
	auto const l = at( i );
	auto const r = at( j );
	VC_ENSURE( ( l == r ) == ( i == j ) and ( l != r ) == ( i != j ), "equal at the same position" );
	VC_ENSURE( ( l < r ) == ( i < j ) and ( l > r ) == ( i > j ), "before and after" );
	VC_ENSURE( ( l <= r ) == ( i <= j ) and ( l >= r ) == ( i >= j ), "not after and not before" );
}
// ---- reverse
CONTRACT( reverse_walks ) {
	SOURCE;
	walks( [=]( diff p ) { return daw::make_reverse_iterator( a + n - p ); }, [=]( auto const &it ) { return ( a + n ) - it.base( ); }, i, j,
	       static_cast<diff>( n ) );
}
CONTRACT( reverse_compares ) {
	SOURCE;
	compares( [=]( diff p ) { return daw::reverse_iterator<int *>( a + n - p ); }, i, j );
}
CONTRACT( reverse_element ) {
	SOURCE;
	vc::assume( i < static_cast<diff>( n ) and j < static_cast<diff>( n ) );
	auto it = daw::make_reverse_iterator( a + n - i );
	VC_ENSURE( &*it == a + ( n - 1 - i ) and it.operator->( ) == a + ( n - 1 - i ), "the element before the base" );
	VC_ENSURE( &it[j - i] == a + ( n - 1 - j ), "it[n]" );
	auto const c = it;
	VC_ENSURE( &*c == a + ( n - 1 - i ) and &c[j - i] == a + ( n - 1 - j ), "when const" );
	VC_ENSURE( ( j - i ) + it == daw::make_reverse_iterator( a + n - j ), "n + it" );
}
CONTRACT( reverse_visits_all ) {
	auto const n = vc::size( "n" );
	int *const a = vc::array<int>( n, "a" );
	auto const g = vc::any<std::size_t>( "g" );
	auto const v = vc::any<int>( "v" );
	vc::assume( g < n );
	std::size_t k = 0;
	auto const last = daw::make_reverse_iterator( a );
	for( auto it = daw::make_reverse_iterator( a + n ); it != last; ++it ) {
		if( k == g ) {
			VC_ENSURE( &*it == a + ( n - 1 - g ), "the element seen at step g" );
			*it = v;
		}
		++k;
	}
	VC_ENSURE( k == n, "as many as there are" );
}
// ---- pointer
CONTRACT( pointer_walks ) {
	SOURCE;
	walks( [=]( diff p ) { return daw::pointer_iterator<int>( a + p ); }, [=]( auto const &it ) { return it.get( ) - a; }, i, j,
	       static_cast<diff>( n ) );
	compares( [=]( diff p ) { return daw::pointer_iterator<int>( a + p ); }, i, j );
}
CONTRACT( pointer_element ) {
	SOURCE;
	vc::assume( i < static_cast<diff>( n ) and j < static_cast<diff>( n ) );
	daw::pointer_iterator<int> const it( a + i );
	VC_ENSURE( &*it == a + i and it.operator->( ) == a + i and &it[j - i] == a + j, "the element" );
	daw::pointer_iterator<int const> const c( it );
	VC_ENSURE( &*c == a + i, "converted to const" );
}
// ---- indexed
CONTRACT( indexed_walks ) {
	SOURCE;
	view_of v{ a, n };
	walks( [&]( diff p ) { return daw::indexed_iterator<view_of>( &v, static_cast<std::size_t>( p ) ); },
	       [&]( auto const &it ) { return it - daw::ibegin( v ); }, i, j, static_cast<diff>( n ) );
}
CONTRACT( indexed_compares ) {
	SOURCE;
	view_of v{ a, n };
	compares( [&]( diff p ) { return daw::indexed_iterator<view_of>( &v, static_cast<std::size_t>( p ) ); }, i, j );
	VC_ENSURE( daw::iend( v ) - daw::ibegin( v ) == static_cast<diff>( n ), "from the first to the last" );
}
CONTRACT( indexed_element ) {
	SOURCE;
	view_of v{ a, n };
	vc::assume( i < static_cast<diff>( n ) and j < static_cast<diff>( n ) );
	auto it = daw::ibegin( v ) + i;
	VC_ENSURE( &*it == a + i and it.operator->( ) == a + i, "the element" );
	auto const c = daw::cibegin( v ) + i;
	VC_ENSURE( &*c == a + i and c.operator->( ) == a + i, "when const" );
	VC_ENSURE( &*it.next( j - i ) == a + j and &*it.prev( i - j ) == a + j, "next and prev" );
	it.advance( j - i );
	VC_ENSURE( &*it == a + j, "advance" );
	VC_ENSURE( &*( daw::iend( v ) - 1 ) == a + n - 1, "the last element" );
}
// ---- counting
template<typename Counting>
static void counted( ) {
	SOURCE;
	vc::assume( i < static_cast<diff>( n ) );
	Counting it( a );
	diff k = 0;
	while( k != i ) {
		++it;
		++k;
	}
	VC_ENSURE( it.distance( ) == i and it.m_iter == a + i and &*it == a + i, "as many steps as were made" );
	auto const old = it++;
	VC_ENSURE( old.distance( ) == i and &*old == a + i and it.distance( ) == i + 1 and it.m_iter == a + i + 1, "it++" );
	VC_ENSURE( it != old and it == a + i + 1 and a + i == old and not( it == a + i ) and old != a + i + 1, "comparison" );
}

CONTRACT( counting_forward ) {
	counted<daw::forward_counting_iterator<int *>>( );
}
CONTRACT( counting_bidirectional ) {
	counted<daw::bidirectional_counting_iterator<int *>>( );
	SOURCE;
	vc::assume( i > 0 );
	daw::bidirectional_counting_iterator<int *> it( a + i );
	auto const old = it--;
	VC_ENSURE( old.distance( ) == 0 and it.distance( ) == -1 and it == a + i - 1 and old == a + i, "it--" );
	++it;
	--it;
	VC_ENSURE( it.distance( ) == -1 and &*it == a + i - 1, "there and back" );
}
// ---- circular
template<typename T, std::size_t N>
struct ring {
	T a[N];
	T *begin( ) { return a; }
	T *end( ) { return a + N; }
	std::size_t size( ) const { return N; }
};
static diff turn( diff p, diff n ) {
	return p % n < 0 ? p % n + n : p % n;
}
template<typename C>
static void goes_round( C &c, diff n ) {
	auto const first = std::begin( c );
	auto const i = static_cast<diff>( vc::range( "i", 0, static_cast<std::size_t>( n - 1 ) ) );
	auto const d = vc::srange( "d", -4096, 4096 );
	auto it = daw::make_circular_iterator( c ) + i;
	VC_ENSURE( &*it == first + i, "made at a position" );
	auto k = it;
	++k;
	VC_ENSURE( &*k == first + turn( i + 1, n ), "++it" );
	k = it;
	auto o = k++;
	VC_ENSURE( &*k == first + turn( i + 1, n ) and &*o == first + i, "it++" );
	k = it;
	--k;
	VC_ENSURE( &*k == first + turn( i - 1, n ), "--it" );
	k = it;
	o = k--;
	VC_ENSURE( &*k == first + turn( i - 1, n ) and &*o == first + i, "it--" );
	k = it;
	k += d;
	VC_ENSURE( &*k == first + turn( i + d, n ), "it += n" );
	VC_ENSURE( &*( it + d ) == first + turn( i + d, n ), "it + n" );
	VC_ENSURE( &*( it - d ) == first + turn( i - d, n ), "it - n" );
	k -= d;
	VC_ENSURE( k == it and not( k != it ), "there and back" );
	auto const j = static_cast<diff>( vc::range( "j", 0, static_cast<std::size_t>( n - 1 ) ) );
	auto const l = daw::make_circular_iterator( c, first + j );
	VC_ENSURE( l - it == j - i and ( l == it ) == ( i == j ) and ( it < l ) == ( i < j ) and ( it <= l ) == ( i <= j ) and ( it > l ) == ( i > j ) and
	             ( it >= l ) == ( i >= j ),
	           "distance and order inside a turn" );
	VC_ENSURE( it.end( ) - it == n - i, "to the end" );
}
CONTRACT( circular_1 ) {
	ring<int, 1> c{ };
	goes_round( c, 1 );
}
CONTRACT( circular_2 ) {
	ring<int, 2> c{ };
	goes_round( c, 2 );
}
CONTRACT( circular_3 ) {
	ring<int, 3> c{ };
	goes_round( c, 3 );
}
CONTRACT( circular_array ) {
	int c[5]{ };
	goes_round( c, 5 );
}
// ---- chunk
template<diff K>
static void chunks( ) {
	auto const n = vc::size( "n" );
	vc::assume( n % K == 0 );
	int *const a = vc::array<int>( n, "a" );
	auto const size = static_cast<diff>( n ) / K;
	auto const i = static_cast<diff>( vc::range( "i", 0, n ) );
	auto const j = static_cast<diff>( vc::range( "j", 0, n ) );
	vc::assume( i <= size and j <= size );
	walks( [=]( diff p ) { return daw::chunk_iterator<int *>( a + p * K, K ); }, [=]( auto const &it ) { return it - daw::chunk_iterator<int *>( a, K ); }, i,
	       j, size );
	compares( [=]( diff p ) { return daw::chunk_iterator<int *>( a + p * K, K ); }, i, j );
	vc::assume( j < size );
	auto const it = daw::chunk_iterator<int *>( a + i * K, K ) + ( j - i );
	VC_ENSURE( &*it == a + j * K and &it[K - 1] == a + j * K + K - 1, "the first and the last element of the chunk" );
	VC_ENSURE( ( ( j - i ) + daw::chunk_iterator<int *>( a + i * K, K ) ) == it, "n + it" );
}
CONTRACT( chunk_of_1 ) {
	chunks<1>( );
}
CONTRACT( chunk_of_4 ) {
	chunks<4>( );
}
CONTRACT( chunk_of_3 ) {
	chunks<3>( );
}
// ---- integers
CONTRACT( integer_range_visits_all ) {
	auto const f = vc::any<int>( "f" );
	auto const l = vc::any<int>( "l" );
	vc::assume( f <= l );
	daw::integer_range<int> r( f, l );
	int k = f;
	for( auto v : r ) {
		VC_ENSURE( v == k, "the next number" );
		++k;
	}
	VC_ENSURE( k == l, "up to the last" );
}
CONTRACT( integer_range_steps ) {
	auto const f = vc::any<unsigned>( "f" );
	auto const h = vc::any<unsigned>( "h" );
	daw::integer_range_iterator<unsigned> it( f );
	auto const old = it++;
	VC_ENSURE( *old == f and *it == f + 1U and old != it and not( old == it ), "it++" );
	daw::integer_range_iterator<unsigned> const o( h );
	VC_ENSURE( ( it == o ) == ( *it == h ) and ( it != o ) == ( *it != h ), "comparison" );
}
template<typename T, int Step>
static void iota_steps( ) {
	auto const v = static_cast<T>( vc::srange( "v", 0, 1000000 ) );
	constexpr auto step = static_cast<std::make_signed_t<T>>( Step );
	auto const i = static_cast<std::make_signed_t<T>>( vc::srange( "i", 0, 1000 ) );
	auto const j = static_cast<std::make_signed_t<T>>( vc::srange( "j", 0, 1000 ) );
	daw::iota_iterator<T> it( v, step );
	auto const at = [=]( std::make_signed_t<T> p ) { return static_cast<T>( v + static_cast<T>( step ) * static_cast<T>( p ) ); };
	VC_ENSURE( *it == v, "the first value" );
	auto k = it;
	k += i;
	VC_ENSURE( *k == at( i ) and *( it + i ) == at( i ) and it[i] == at( i ), "a jump" );
	auto m = k;
	++m;
	VC_ENSURE( *m == at( i + 1 ), "++it" );
	auto old = m++;
	VC_ENSURE( *m == at( i + 2 ) and *old == at( i + 1 ), "it++" );
	--m;
	VC_ENSURE( *m == at( i + 1 ), "--it" );
	auto old2 = m--;
	VC_ENSURE( *m == at( i ) and *old2 == at( i + 1 ), "it--" );
	k -= i;
	VC_ENSURE( *k == v and *( m - i ) == v, "a jump back" );
	VC_ENSURE( m.operator->( ).operator->( ) != nullptr, "access" );
	vc::assume( i <= j );
	auto const l = it + i;
	auto const r = it + j;
	VC_ENSURE( ( l == r ) == ( i == j ) and ( l != r ) == ( i != j ) and ( l < r ) == ( i < j ), "comparison with what comes later" );
}
CONTRACT( iota_int ) {
	iota_steps<int, 1>( );
}
CONTRACT( iota_int_by_7 ) {
	iota_steps<int, 7>( );
}
CONTRACT( iota_unsigned_by_10 ) {
	iota_steps<unsigned, 10>( );
}
CONTRACT( iota_long_by_3 ) {
	iota_steps<long, 3>( );
}
CONTRACT( iota_distance ) {
	auto const v = vc::srange( "v", -1000000, 1000000 );
	auto const w = vc::srange( "w", -1000000, 1000000 );
	daw::iota_iterator<long> const l( v );
	daw::iota_iterator<long> const r( w );
	VC_ENSURE( l - r == v - w, "distance" );
	VC_ENSURE( ( l < r ) == ( v < w ), "order" );
}
CONTRACT( iota_after ) {
	auto const v = vc::srange( "v", -1000000, 1000000 );
	auto const w = vc::srange( "w", -1000000, 1000000 );
	vc::assume( v > w );
	daw::iota_iterator<long> const l( v );
	daw::iota_iterator<long> const r( w );
	VC_ENSURE( l > r and l != r and not( l <= r ), "an iterator after another" );
}
CONTRACT( iota_range_visits_all ) {
	auto const f = vc::any<unsigned>( "f" );
	auto const l = vc::any<unsigned>( "l" );
	vc::assume( f <= l and l - f <= 100000U );
	unsigned k = f;
	for( auto v : daw::iota_range<unsigned>( f, l ) ) {
		VC_ENSURE( v == k, "the next number" );
		++k;
	}
	VC_ENSURE( k == l, "up to the last" );
}
CONTRACT( iota_range_of_ints ) {
	auto const l = vc::any<int>( "l" );
	vc::assume( l >= 0 );
	int k = 0;
	daw::iota_range<int> const r( l );
	for( auto v : r ) {
		VC_ENSURE( v == k, "the next number" );
		++k;
	}
	VC_ENSURE( k == l, "up to the last" );
}
// ---- one value n times
CONTRACT( repeat_walks ) {
	auto const n = vc::size( "n" );
	auto const i = static_cast<diff>( vc::range( "i", 0, n ) );
	auto const j = static_cast<diff>( vc::range( "j", 0, n ) );
	auto const c = vc::any<char>( "c" );
	daw::repeat_n_char_iterator<char> const first( n, c );
	walks( [=]( diff p ) { return first + p; }, [=]( auto const &it ) { return it - first; }, i, j, static_cast<diff>( n ) );
	auto const it = first + i;
	VC_ENSURE( *it == c and *it.operator->( ) == c and it[3] == c, "the value" );
	VC_ENSURE( ( it == first + j ) == ( i == j ) and ( it != first + j ) == ( i != j ), "comparison" );
	VC_ENSURE( ( it == daw::repeat_n_char_end( ) ) == ( i == static_cast<diff>( n ) ), "the end after n" );
}
CONTRACT( repeat_visits_all ) {
	auto const n = vc::size( "n" );
	auto const c = vc::any<char>( "c" );
	std::size_t k = 0;
	daw::repeat_n_char_iterator<char> it( n, c );
	auto const last = daw::repeat_n_char_end( );
	while( it != last ) {
		VC_ENSURE( *it == c, "the value" );
		++it;
		++k;
	}
	VC_ENSURE( k == n, "n times" );
}
// ---- zip
CONTRACT( zip_steps ) {
	SOURCE;
	vc::assume( i < static_cast<diff>( n ) );
	long *const b = vc::array<long>( n, "b" );
	daw::zip_iterator it( a + i, static_cast<long const *>( b ) + i );
	VC_ENSURE( it.template get<0>( ) == a + i and it.template get<1>( ) == b + i and it.size( ) == 2, "the iterators" );
	VC_ENSURE( &std::get<0>( *it ) == a + i and &std::get<1>( *it ) == b + i, "the elements at the position" );
	auto k = it;
	++k;
	VC_ENSURE( daw::get<0>( k ) == a + i + 1 and daw::get<1>( k ) == b + i + 1, "++it" );
	auto old = k--;
	VC_ENSURE( k == it and old != it and daw::get<0>( old ) == a + i + 1, "it--" );
	auto o2 = k++;
	VC_ENSURE( o2 == it and daw::get<1>( k ) == b + i + 1, "it++" );
	--k;
	VC_ENSURE( k == it and not( k != it ), "--it" );
	k.advance( j - i );
	VC_ENSURE( daw::get<0>( k ) == a + j and daw::get<1>( k ) == b + j, "advance" );
	auto const &c = it;
	VC_ENSURE( &std::get<0>( *c ) == a + i and &std::get<1>( *c ) == b + i and std::get<0>( c.as_tuple( ) ) == a + i, "when const" );
}
CONTRACT( zip_visits_all ) {
	auto const n = vc::size( "n" );
	int *const a = vc::array<int>( n, "a" );
	int *const b = vc::array<int>( n, "b" );
	std::size_t k = 0;
	daw::zip_iterator it( a, b );
	daw::zip_iterator const last( a + n, b + n );
	while( it != last ) {
		VC_ENSURE( &std::get<0>( *it ) == a + k and &std::get<1>( *it ) == b + k, "the elements at the same place" );
		++it;
		++k;
	}
	VC_ENSURE( k == n, "as many as there are" );
}
// ---- checked
CONTRACT( checked_steps ) {
	SOURCE;
	bool const inc = vc::any<bool>( "inc" );
	bool const dec = vc::any<bool>( "dec" );
	bool const der = vc::any<bool>( "der" );
	auto it = daw::make_checked_iterator_proxy( a + i, a + n, inc, dec, der );
	bool const at_end = i == static_cast<diff>( n );
	bool threw = false;
	if( not at_end or der ) {
		try {
			VC_ENSURE( &*it == a + i, "the element" );
		} catch( std::out_of_range const & ) { threw = true; }
		VC_ENSURE( threw == at_end, "reading at the end is reported" );
	}
	threw = false;
	if( not at_end or inc ) {
		try {
			++it;
			VC_ENSURE( it == a + i + 1, "++it" );
		} catch( std::out_of_range const & ) { threw = true; }
		VC_ENSURE( threw == at_end, "a step past the end is reported" );
	}
	if( not at_end ) {
		--it;
		VC_ENSURE( it == a + i and not( it != a + i ), "--it" );
		auto const old = it++;
		VC_ENSURE( old == a + i and it == a + i + 1, "it++" );
		auto const old2 = it--;
		VC_ENSURE( old2 == a + i + 1 and it == a + i, "it--" );
	}
	threw = false;
	if( dec ) {
		try {
			--it;
		} catch( std::out_of_range const & ) { threw = true; }
		VC_ENSURE( threw, "a step before the first is reported" );
		VC_ENSURE( it == a + i, "nothing moves" );
	}
}
// ---- filters
struct positive {
	bool operator( )( int x ) const { return x > 0; }
};
// the first match at or after from
static std::size_t first_match( int *a, std::size_t from, std::size_t n ) {
	auto d = vc::size( "d" );
#ifdef VC_NATIVE
	d = from;
	while( d < n and not( a[d] > 0 ) ) {
		++d;
	}
#endif
	vc::assume( d >= from and d <= n and ( d == n or a[d] > 0 ) );
	auto f = [&]( std::uint64_t k ) { return k < from or k >= d or not( a[k] > 0 ); };
	vc::forall( a, f );
	return d;
}
CONTRACT( find_iterator_steps ) {
	auto const n = vc::size( "n" );
	int *const a = vc::array<int>( n, "a" );
	auto const d = first_match( a, 0, n );
	daw::find_iterator it( a, a + n, positive{ } );
	VC_ENSURE( it.raw_begin( ) == a + d and it.raw_end( ) == a + n, "at the first match" );
	if( d < n ) {
		VC_ENSURE( *it == a[d] and it.operator->( ) == a + d, "the element" );
	}
	VC_ENSURE( ( it == it.end( ) ) == ( d == n ) and ( it != it.end( ) ) == ( d != n ) and it == it.begin( ), "the end" );
}
CONTRACT( find_iterator_next ) {
	auto const n = vc::size( "n" );
	int *const a = vc::array<int>( n, "a" );
	vc::assume( n > 0 );
#ifdef VC_NATIVE
	a[0] = 5;
#endif
	vc::assume( a[0] > 0 );
	auto const d = first_match( a, 1, n );
	daw::find_iterator it( a, a + n, positive{ } );
	VC_ENSURE( it.raw_begin( ) == a, "the first is a match" );
	auto const old = it++;
	VC_ENSURE( old.raw_begin( ) == a, "the old position" );
	VC_ENSURE( it.raw_begin( ) == a + d, "the next match" );
}
struct negative {
	bool operator( )( int x ) const { return x < 0; }
};
CONTRACT( find_one_iterator_steps ) {
	auto const n = vc::size( "n" );
	int *const a = vc::array<int>( n, "a" );
	auto const d = first_match( a, 0, n );
	daw::find_one_iterator it( a, a + n, positive{ } );
	VC_ENSURE( it.raw_begin( ) == a + d and it.raw_end( ) == a + n, "at the first match" );
	if( d < n ) {
		auto const e = *it;
		VC_ENSURE( e.value == a[d] and e.index == 0, "the element and the filter" );
	}
	VC_ENSURE( ( it == it.end( ) ) == ( d == n ), "the end" );
}
CONTRACT( find_one_iterator_filter ) {
	auto const n = vc::size( "n" );
	int *const a = vc::array<int>( n, "a" );
	vc::assume( n > 0 and a[0] != 0 );
	daw::find_one_iterator it( a, a + n, positive{ }, negative{ } );
	VC_ENSURE( it.raw_begin( ) == a, "the first is a match" );
	auto const e = *it;
	VC_ENSURE( e.value == a[0] and e.index == ( a[0] > 0 ? 0U : 1U ), "the element and which filter it matches" );
}
// ---- output
struct sink {
	using value_type = int;
	int *p;
	std::size_t n;
	std::size_t at; // where the last one went
	int *end( ) { return p + n; }
	void push_back( int v ) {
		p[n++] = v;
	}
	void insert( int *where, int v ) {
		at = static_cast<std::size_t>( where - p );
		p[n++] = v;
	}
	void insert( int v ) {
		p[n++] = v;
	}
};
template<typename Out>
static void writes( sink &s, Out out, bool at_end ) {
	auto const n = s.n;
	auto const v = vc::any<int>( "v" );
	auto const w = vc::any<int>( "w" );
	*out = v;
	VC_ENSURE( s.n == n + 1 and s.p[n] == v and ( not at_end or s.at == n ), "the value written" );
	++out;
	out++;
	*++out;
	VC_ENSURE( s.n == n + 1, "a step writes nothing" );
	*out++ = w;
	VC_ENSURE( s.n == n + 2 and s.p[n + 1] == w and s.p[n] == v and ( not at_end or s.at == n + 1 ), "and the next" );
}
#define SINK                                                  \
	auto const n = vc::size( "n" );                              \
	auto const m = vc::size( "m" );                              \
	vc::assume( m < n and n - m > 4 );                            \
	sink s{ vc::array<int>( n, "a" ), m, 0 }
CONTRACT( back_inserter_writes ) {
	SINK;
	writes( s, daw::back_inserter<sink>( s ), false );
}
CONTRACT( end_inserter_writes ) {
	SINK;
	writes( s, daw::end_inserter( s ), true );
}
CONTRACT( inserter_writes ) {
	SINK;
	writes( s, daw::inserter( s ), false );
}
CONTRACT( function_iterator_writes ) {
	SINK;
	auto const f = [&]( int x ) { s.push_back( x ); };
	writes( s, daw::make_function_iterator( f ), false );
}
CONTRACT( back_inserter_copies ) {
	auto const n = vc::size( "n" );
	int *const a = vc::array<int>( n, "a" );
	sink s{ vc::array<int>( n, "b" ), 0, 0 };
	auto const g = vc::any<std::size_t>( "g" );
	vc::assume( g < n );
	auto const was = a[g];
	daw::back_inserter<sink> out( s );
	for( std::size_t i = 0; i < n; ++i ) {
		*out = a[i];
		++out;
	}
	VC_ENSURE( s.n == n and s.p[g] == was, "all, in order" );
}
