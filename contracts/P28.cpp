// Restricted values: natural_t is at least one, not_null is not null, validated
// satisfies its validator, keep_n holds the best N in order, read_only keeps its
// value; a violating value is reported and never stored.
#include "vc.h"
#include <cassert>
#include <daw/daw_keep_n.h>
#include <daw/daw_natural.h>
#include <daw/daw_not_null.h>
#include <daw/daw_read_only.h>
#include <daw/daw_size_literals.h>
#include <daw/daw_validated.h>
#include <memory>

template<typename T>
using nat = daw::natural_t<T>;
using i64 = std::int64_t;

// ---------------------------------------------------------------- natural_t
template<typename T, typename V>
static void nat_from( ) {
	V v = vc::any<V>( "v" );
	bool const ok = v >= 1 and static_cast<T>( v ) >= 1;
	bool threw = false;
	try {
		nat<T> n{ v };
		VC_ENSURE( n.value( ) >= 1, "positive" );
		VC_ENSURE( n.value( ) == static_cast<T>( v ), "the value" );
		VC_ENSURE( static_cast<T>( n ) == n.value( ), "conversion" );
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == not ok, "reported exactly when it is not positive" );
	threw = false;
	nat<T> m{ };
	VC_ENSURE( m.value( ) == 1, "the default is one" );
	try {
		m = v;
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == not ok, "assignment reports" );
	VC_ENSURE( m.value( ) == ( ok ? static_cast<T>( v ) : T{ 1 } ), "a rejected value is not stored" );
}
CONTRACT( nat_int_from_int ) { nat_from<int, int>( ); }
CONTRACT( nat_int_from_i64 ) { nat_from<int, i64>( ); }
CONTRACT( nat_u8_from_int ) { nat_from<unsigned char, int>( ); }
CONTRACT( nat_u32_from_i64 ) { nat_from<unsigned, i64>( ); }
CONTRACT( nat_u64_from_int ) { nat_from<std::uint64_t, int>( ); }
CONTRACT( nat_i64_from_u64 ) { nat_from<i64, std::uint64_t>( ); }
CONTRACT( nat_i16_from_u32 ) { nat_from<short, unsigned>( ); }

template<typename T>
static T pos( char const *name ) {
	T v = vc::any<T>( name );
	vc::assume( v >= 1 );
	return v;
}
template<typename T>
static void nat_minus( ) {
	T a = pos<T>( "a" );
	T b = pos<T>( "b" );
	nat<T> x{ a };
	nat<T> const y{ b };
	bool threw = false;
	try {
		auto r = x - y;
		VC_ENSURE( r.value( ) >= 1 and static_cast<T>( r.value( ) ) == static_cast<T>( a - b ), "the difference" );
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == not( a > b ), "a difference below one is reported" );
	threw = false;
	try {
		x -= y;
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == not( a > b ), "-= reports" );
	VC_ENSURE( x.value( ) == ( threw ? a : static_cast<T>( a - b ) ), "-= stores only the difference" );
	VC_ENSURE( y.value( ) == b, "the right side is kept" );
}
CONTRACT( nat_minus_int ) { nat_minus<int>( ); }
CONTRACT( nat_minus_i64 ) { nat_minus<i64>( ); }
CONTRACT( nat_minus_u32 ) { nat_minus<unsigned>( ); }
CONTRACT( nat_minus_u64 ) { nat_minus<std::uint64_t>( ); }

template<typename T>
static void nat_dec( ) {
	T a = pos<T>( "a" );
	nat<T> x{ a };
	bool threw = false;
	try {
		nat<T> &r = --x;
		VC_ENSURE( &r == &x, "refers to itself" );
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == ( a == 1 ), "-- reports at one" );
	VC_ENSURE( x.value( ) == ( a == 1 ? a : static_cast<T>( a - 1 ) ), "--" );
	nat<T> y{ a };
	threw = false;
	try {
		nat<T> o = y--;
		VC_ENSURE( o.value( ) == a, "y-- returns the old value" );
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == ( a == 1 ) and y.value( ) == ( a == 1 ? a : static_cast<T>( a - 1 ) ), "y--" );
	vc::assume( a != std::numeric_limits<T>::max( ) );
	nat<T> z{ a };
	VC_ENSURE( ( ++z ).value( ) == static_cast<T>( a + 1 ) and z.value( ) == static_cast<T>( a + 1 ), "++" );
	nat<T> w{ a };
	VC_ENSURE( ( w++ ).value( ) == a and w.value( ) == static_cast<T>( a + 1 ) and w.value( ) >= 1, "w++" );
}
CONTRACT( nat_dec_int ) { nat_dec<int>( ); }
CONTRACT( nat_dec_u8 ) { nat_dec<unsigned char>( ); }
CONTRACT( nat_dec_u64 ) { nat_dec<std::uint64_t>( ); }

template<typename T>
static void nat_plus( ) {
	T a = pos<T>( "a" );
	T b = pos<T>( "b" );
	// an operation that overflows is undefined
	vc::assume( a <= std::numeric_limits<T>::max( ) - b );
	nat<T> x{ a };
	nat<T> const y{ b };
	VC_ENSURE( ( x + y ).value( ) == a + b and ( x + y ).value( ) >= 1, "sum" );
	x += y;
	VC_ENSURE( x.value( ) == a + b and x.value( ) >= 1 and y.value( ) == b, "+=" );
}
CONTRACT( nat_plus_int ) { nat_plus<int>( ); }
CONTRACT( nat_plus_u64 ) { nat_plus<std::uint64_t>( ); }
template<int B>
static void nat_times( ) {
	int a = pos<int>( "a" );
	vc::assume( a <= std::numeric_limits<int>::max( ) / B );
	nat<int> x{ a };
	nat<int> const y{ B };
	VC_ENSURE( ( x * y ).value( ) == a * B and ( x * y ).value( ) >= 1, "product" );
	x *= y;
	VC_ENSURE( x.value( ) == a * B and x.value( ) >= 1, "*=" );
}
CONTRACT( nat_times_3 ) { nat_times<3>( ); }
CONTRACT( nat_times_max ) { nat_times<std::numeric_limits<int>::max( )>( ); }

template<typename T>
static void nat_div( T b ) {
	T a = pos<T>( "a" );
	nat<T> x{ a };
	nat<T> const y{ b };
	bool threw = false;
	try {
		auto r = x / y;
		VC_ENSURE( r.value( ) == a / b and r.value( ) >= 1, "quotient" );
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == ( a < b ), "a quotient of zero is reported" );
	threw = false;
	try {
		x /= y;
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == ( a < b ), "/= reports" );
	VC_ENSURE( x.value( ) == ( threw ? a : a / b ) and x.value( ) >= 1, "/=" );
	nat<T> z{ a };
	threw = false;
	try {
		auto r = z % y;
		VC_ENSURE( r.value( ) == a % b and r.value( ) >= 1, "remainder" );
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == ( a % b == 0 ), "a remainder of zero is reported" );
	threw = false;
	try {
		z %= y;
	} catch( daw::invalid_natural_number const & ) { threw = true; }
	VC_ENSURE( threw == ( a % b == 0 ), "%= reports" );
	VC_ENSURE( z.value( ) == ( threw ? a : a % b ) and z.value( ) >= 1, "%=" );
}
CONTRACT( nat_div_7 ) { nat_div<int>( 7 ); }
CONTRACT( nat_div_u64_10 ) { nat_div<std::uint64_t>( 10 ); }
CONTRACT( nat_div_any_u8 ) { nat_div<unsigned char>( pos<unsigned char>( "b" ) ); }
CONTRACT( nat_compare ) {
	int a = pos<int>( "a" );
	i64 b = pos<i64>( "b" );
	nat<int> const x{ a };
	nat<i64> const y{ b };
	VC_ENSURE( ( x == y ) == ( a == b ) and ( x != y ) == ( a != b ), "equality" );
	VC_ENSURE( ( x < y ) == ( a < b ) and ( x <= y ) == ( a <= b ), "less" );
	VC_ENSURE( ( x > y ) == ( a > b ) and ( x >= y ) == ( a >= b ), "greater" );
}
CONTRACT( nat_copy ) {
	int a = pos<int>( "a" );
	nat<int> x{ a };
	nat<int> y{ x };
	nat<int> z{ };
	z = x;
	nat<i64> w{ x };
	VC_ENSURE( y.value( ) == a and z.value( ) == a and w.value( ) == a and x.value( ) == a, "copies" );
}
CONTRACT( nat_literal ) {
	unsigned long long v = vc::any<unsigned long long>( "v" );
	vc_opt( "terminate", 1 ); // the literal is noexcept: a zero terminates
	VC_ENSURE( daw::literals::operator""_N( v ) == v, "the value" );
	VC_ENSURE( v >= 1, "zero is not returned" );
}

// ---------------------------------------------------------------- not_null
CONTRACT( nn_construct ) {
	std::size_t n = vc::size( "n" );
	std::size_t i = vc::range( "i", 0, n );
	vc::assume( i < n );
	int *a = vc::array<int>( n, "a" );
	daw::not_null<int *> p( a + i );
	VC_ENSURE( p.get( ) == a + i and static_cast<int *>( p ) == a + i and &*p == a + i and p.operator->( ) == a + i, "the pointer" );
	auto const &c = p;
	VC_ENSURE( c.get( ) == a + i and &*c == a + i and c.operator->( ) == a + i and &c[0] == a + i, "the pointer of a const one" );
	std::size_t j = vc::range( "j", 0, n );
	vc::assume( j < n );
	p = a + j;
	VC_ENSURE( p.get( ) == a + j, "assigned" );
	daw::not_null<int *> q( daw::never_null, a + i );
	VC_ENSURE( q.get( ) == a + i, "never_null" );
	auto s = p;
	p = q;
	VC_ENSURE( p.get( ) == a + i and s.get( ) == a + j, "copy" );
}
CONTRACT( nn_null_is_not_stored ) {
	int x = 0;
	bool null = vc::any<bool>( "null" );
	int *p = null ? nullptr : &x;
	vc_opt( "terminate", 1 ); // the program ends when given a null pointer
	daw::not_null<int *> v( p );
	VC_ENSURE( not null, "a null pointer is reported" );
	VC_ENSURE( v.get( ) == &x, "stored" );
}
CONTRACT( nn_null_is_not_assigned ) {
	int x = 0;
	int y = 0;
	bool null = vc::any<bool>( "null" );
	int *p = null ? nullptr : &x;
	daw::not_null<int *> v( &y );
	vc_opt( "terminate", 1 );
	v = p;
	VC_ENSURE( not null, "a null pointer is reported" );
	VC_ENSURE( v.get( ) == &x, "stored" );
}
CONTRACT( nn_not_null_does_not_end ) {
	int x = 0;
	int y = 0;
	daw::not_null<int *> v( vc::any<bool>( "b" ) ? &x : &y );
	v = vc::any<bool>( "c" ) ? &x : &y;
	VC_ENSURE( v.get( ) == &x or v.get( ) == &y, "stored" );
}
CONTRACT( nn_moves ) {
	std::size_t n = vc::size( "n" );
	int *a = vc::array<int>( n, "a" );
	std::size_t i = vc::range( "i", 0, n );
	std::size_t j = vc::range( "j", 0, n );
	std::ptrdiff_t const d = static_cast<std::ptrdiff_t>( j ) - static_cast<std::ptrdiff_t>( i );
	using nn = daw::not_null<int *>;
	nn p( a + i );
	nn q( a + j );
	VC_ENSURE( q - p == d, "difference" );
	VC_ENSURE( ( p + d ).get( ) == a + j and ( d + p ).get( ) == a + j and ( q - d ).get( ) == a + i, "+ and -" );
	VC_ENSURE( p.get( ) == a + i and q.get( ) == a + j, "kept" );
	nn r = p;
	r += d;
	VC_ENSURE( r == q and r.get( ) == a + j, "+=" );
	r -= d;
	VC_ENSURE( r == p and r.get( ) == a + i, "-=" );
	VC_ENSURE( ( p == q ) == ( i == j ) and ( p != q ) == ( i != j ), "equality" );
	VC_ENSURE( ( p < q ) == ( i < j ) and ( p <= q ) == ( i <= j ) and ( p > q ) == ( i > j ) and ( p >= q ) == ( i >= j ), "order" );
	VC_ENSURE( ( p == ( a + j ) ) == ( i == j ) and ( ( a + j ) == p ) == ( i == j ), "against a pointer" );
	if( i < n ) {
		nn s = p;
		VC_ENSURE( ( ++s ).get( ) == a + i + 1 and s.get( ) == a + i + 1, "++" );
		VC_ENSURE( ( s-- ).get( ) == a + i + 1 and s.get( ) == a + i, "s--" );
		VC_ENSURE( ( s++ ).get( ) == a + i and s.get( ) == a + i + 1, "s++" );
		VC_ENSURE( ( --s ).get( ) == a + i, "--" );
		if( j < n ) {
			VC_ENSURE( &p[d] == a + j, "[]" );
		}
	}
}
CONTRACT( nn_never_compares_to_null ) {
	int x = 0;
	daw::not_null<int *> p( &x );
	int *null = vc::any<bool>( "b" ) ? nullptr : &x;
	VC_ENSURE( ( p == null ) == ( null != nullptr ), "equal" );
	VC_ENSURE( ( p != null ) == ( null == nullptr ), "not equal" );
}

// ---------------------------------------------------------------- validated
struct even {
	bool operator( )( int v ) const { return ( v & 1 ) == 0; }
};
struct in_table { // any predicate: the answers are arbitrary but fixed
	static inline std::uint64_t mask = 0;
	bool operator( )( unsigned v ) const { return ( mask >> ( v & 63U ) & 1U ) != 0; }
};
CONTRACT( validated_construct ) {
	int v = vc::any<int>( "v" );
	bool const ok = ( v & 1 ) == 0;
	bool threw = false;
	try {
		daw::validated<int, even> x( v );
		VC_ENSURE( x.get( ) == v and *x == v and static_cast<int const &>( x ) == v and *x.operator->( ) == v, "the value" );
		VC_ENSURE( ( daw::validated<int, even>( x ).get( ) == v ), "a copy" );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == not ok, "reported exactly when the validator rejects it" );
	threw = false;
	try {
		daw::validated<int, even> x( std::in_place, v );
		VC_ENSURE( x.get( ) == v, "in place" );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == not ok, "in place: reported" );
}
CONTRACT( validated_assign ) {
	in_table::mask = vc::any<std::uint64_t>( "mask" );
	unsigned a = vc::any<unsigned>( "a" );
	unsigned b = vc::any<unsigned>( "b" );
	in_table const ok{ };
	vc::assume( ok( a ) );
	daw::validated<unsigned, in_table> x( a );
	bool threw = false;
	try {
		auto &r = ( x = b );
		VC_ENSURE( &r == &x, "refers to itself" );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == not ok( b ), "reported" );
	VC_ENSURE( x.get( ) == ( threw ? a : b ) and ok( x.get( ) ), "a rejected value is not stored" );
	daw::validated<unsigned, in_table> y( a );
	threw = false;
	try {
		y = static_cast<unsigned &&>( b );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == not ok( b ) and y.get( ) == ( threw ? a : b ), "moved in" );
	VC_ENSURE( ( daw::validated<unsigned, in_table>( a ).get( ) == a ), "taken out" );
	auto z = x;
	x = y;
	VC_ENSURE( ok( z.get( ) ) and ok( x.get( ) ), "copies are valid" );
}
enum class colour : int { red, green };
struct is_colour {
	bool operator( )( int v ) const { return v == 0 or v == 1; }
};
CONTRACT( validated_enum ) {
	int v = vc::any<int>( "v" );
	bool threw = false;
	try {
		daw::validated<colour, is_colour> x( v );
		VC_ENSURE( static_cast<int>( x.get( ) ) == v and ( v == 0 or v == 1 ), "the value" );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == not( v == 0 or v == 1 ), "reported" );
}

// ---------------------------------------------------------------- read_only
CONTRACT( read_only_keeps ) {
	int v = vc::any<int>( "v" );
	daw::read_only<int> x( v );
	VC_ENSURE( x.get( ) == v and static_cast<int const &>( x ) == v, "the value" );
	daw::read_only<int> y( x );
	VC_ENSURE( y.get( ) == v and std::move( y ).get( ) == v, "copies" );
	VC_ENSURE( daw::read_only<int>{ }.get( ) == 0, "default" );
	static_assert( not std::is_assignable_v<daw::read_only<int> &, int> );
	static_assert( not std::is_assignable_v<daw::read_only<int> &, daw::read_only<int>> );
	static_assert( std::is_same_v<decltype( x.get( ) ), int const &> );
}

// ---------------------------------------------------------------- size literals
CONTRACT( size_literals ) {
	using namespace daw::size_literals;
	using ull = unsigned long long;
	ull v = vc::any<ull>( "v" );
	VC_ENSURE( operator""_KB( v ) == v << 10 and operator""_MB( v ) == v << 20, "KB MB" );
	VC_ENSURE( operator""_GB( v ) == v << 30 and operator""_TB( v ) == v << 40 and operator""_PB( v ) == v << 50, "GB TB PB" );
	VC_ENSURE( operator""_KiB( v ) == v * 1000ULL and operator""_MiB( v ) == v * 1000000ULL, "KiB MiB" );
	VC_ENSURE( operator""_GiB( v ) == v * 1000000000ULL and operator""_TiB( v ) == v * 1000000000000ULL and
	             operator""_PiB( v ) == v * 1000000000000000ULL,
	           "GiB TiB PiB" );
}

// ---------------------------------------------------------------- keep_n
// after any sequence of insertions the container holds, in order, the best N of
// the values seen and the initial default: shown as an inductive step over an
// arbitrary ordered state, which every sequence of insertions starts in and
// stays in
template<std::size_t N, daw::keep_n_order O, typename Less>
static void keep_step( ) {
	using K = daw::keep_n<int, N, O>;
	vc_unroll( N + 1 ); // every loop is over the N (fixed) items
	int init = vc::any<int>( "init" );
	K k( init );
	VC_ENSURE( k.size( ) == N and k.capacity( ) == N, "size" );
	for( std::size_t i = 0; i < N; ++i ) {
		VC_ENSURE( k[i] == init, "all default" );
	}
	// any state: N insertions into a fresh one reach every ordered state
	int old[N];
	for( std::size_t i = 0; i < N; ++i ) {
		old[i] = vc::any<int>( "old" );
		vc::assume( i == 0 or not Less{ }( old[i], old[i - 1] ) );
		const_cast<int &>( k[i] ) = old[i];
	}
	int v = vc::any<int>( "v" );
	if( vc::any<bool>( "lvalue" ) ) {
		k.insert( v );
	} else {
		k.insert( int{ v } );
	}
	// the position of v among the old values
	std::size_t at = 0;
	for( std::size_t i = 0; i < N; ++i ) {
		if( not Less{ }( v, old[i] ) ) {
			at = i + 1;
		}
	}
	for( std::size_t i = 0; i < N; ++i ) {
		VC_ENSURE( k[i] == ( i < at ? old[i] : i == at ? v : old[i == 0 ? 0 : i - 1] ), "the best of the old values and the new one, in order" );
		VC_ENSURE( i == 0 or not Less{ }( k[i], k[i - 1] ), "ordered" );
		VC_ENSURE( &k[i] == k.begin( ) + i, "iterators" );
	}
	VC_ENSURE( k.begin( ) + N == k.end( ) and k.cbegin( ) == k.begin( ) and k.cend( ) == k.end( ), "range" );
	VC_ENSURE( &k.front( ) == &k[0] and &k.back( ) == &k[N - 1], "front and back" );
}
constexpr auto up = daw::keep_n_order::ascending;
constexpr auto down = daw::keep_n_order::descending;
CONTRACT( keep_1_up ) { keep_step<1, up, std::less<>>( ); }
CONTRACT( keep_2_up ) { keep_step<2, up, std::less<>>( ); }
CONTRACT( keep_4_up ) { keep_step<4, up, std::less<>>( ); }
CONTRACT( keep_7_up ) { keep_step<7, up, std::less<>>( ); }
CONTRACT( keep_1_down ) { keep_step<1, down, std::greater<>>( ); }
CONTRACT( keep_2_down ) { keep_step<2, down, std::greater<>>( ); }
CONTRACT( keep_4_down ) { keep_step<4, down, std::greater<>>( ); }
CONTRACT( keep_7_down ) { keep_step<7, down, std::greater<>>( ); }

