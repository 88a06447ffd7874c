// Searching and querying algorithms: daw_algorithm.h, algorithms/*.h, daw_container_algorithm.h
#include "vc.h"

#include <daw/algorithms/daw_algorithm_find_transform.h>
#include <daw/algorithms/daw_array_compare.h>
#include <daw/daw_algorithm.h>
#include <daw/daw_container_algorithm.h>
#include <daw/daw_span.h>

namespace al = daw::algorithm;

struct range_t {
	std::size_t n;
	int *p;
	int const *begin( ) const { return p; }
	int const *end( ) const { return p + n; }
};
static range_t any_range( char const *name = "elements", char const *len = "n" ) {
	auto const n = vc::size( len );
	return { n, vc::array<int>( n, name ) };
}
static std::size_t pos( range_t const &a, int const *q ) {
	return static_cast<std::size_t>( q - a.p );
}

// q is the first element of a that satisfies f, or the end; i is any position
template<typename F>
static void check_first( range_t const &a, int const *q, F f, std::size_t i ) {
	VC_ENSURE( q >= a.begin( ) and q <= a.end( ), "a position of the range" );
	VC_ENSURE( q == a.end( ) or f( *q ), "the element found satisfies the condition" );
	VC_ENSURE( i >= pos( a, q ) or not f( a.p[i] ), "nothing before satisfies it" );
}
#define FIRST( F )                                                       \
	auto const a = any_range( );                                           \
	auto const x = vc::any<int>( "x" );                                    \
	auto const i = vc::size( "i" );                                        \
	auto f = [x]( int y ) { (void)x; return F; };                          \
	auto none = [=]( std::uint64_t w ) { return i >= a.n or i >= w or not f( a.p[i] ); }; \
	vc::hint( none )

CONTRACT( find ) {
	FIRST( y == x );
	check_first( a, al::find( a.begin( ), a.end( ), x ), f, i );
}
CONTRACT( find_if ) {
	FIRST( y < x );
	check_first( a, al::find_if( a.begin( ), a.end( ), f ), f, i );
}
CONTRACT( find_if_not ) {
	FIRST( y < x );
	check_first( a, al::find_if_not( a.begin( ), a.end( ), [x]( int y ) { return y >= x; } ), f, i );
}
CONTRACT( find_first_of_pred ) {
	FIRST( y > x );
	check_first( a, al::find_first_of( a.begin( ), a.end( ), f ), f, i );
}
CONTRACT( find_index_of ) {
	FIRST( y == x );
	auto const r = al::find_index_of( a.begin( ), a.end( ), x );
	VC_ENSURE( r <= a.n and ( r == a.n or a.p[r] == x ), "the value is there" );
	VC_ENSURE( i >= r or a.p[i] != x, "and nowhere before" );
}
CONTRACT( find_index_of_if ) {
	FIRST( y < x );
	auto const r = al::find_index_of_if( a.begin( ), a.end( ), f );
	VC_ENSURE( r <= a.n and ( r == a.n or f( a.p[r] ) ), "the element is there" );
	VC_ENSURE( i >= r or not f( a.p[i] ), "and nowhere before" );
}
CONTRACT( find_index ) {
	FIRST( y == x );
	auto const r = al::find_index( a.begin( ), a.end( ), x );
	VC_ENSURE( not r or ( *r < a.n and a.p[*r] == x ), "the value is there" );
	VC_ENSURE( i >= ( r ? *r : a.n ) or a.p[i] != x, "and nowhere before" );
}
CONTRACT( find_index_if ) {
	FIRST( y < x );
	auto const r = al::find_index_if( a.begin( ), a.end( ), f );
	VC_ENSURE( not r or ( *r < a.n and f( a.p[*r] ) ), "the element is there" );
	VC_ENSURE( i >= ( r ? *r : a.n ) or not f( a.p[i] ), "and nowhere before" );
}
CONTRACT( all_of ) {
	FIRST( y >= x );
	bool const r = al::all_of( a.begin( ), a.end( ), [x]( int y ) { return y < x; } );
	VC_ENSURE( not r or i >= a.n or a.p[i] < x, "true only when all do" );
}
CONTRACT( all_of_true ) {
	auto const a = any_range( );
	auto const x = vc::any<int>( "x" );
	vc::assume( x > 0 );
	vc::each( a.p, a.n, [x]( int y ) { return y < x; }, 0 );
	VC_ENSURE( al::all_of( a.begin( ), a.end( ), [x]( int y ) { return y < x; } ), "all_of" );
	VC_ENSURE( al::none_of( a.begin( ), a.end( ), [x]( int y ) { return y >= x; } ), "none_of" );
	VC_ENSURE( not al::any_of( a.begin( ), a.end( ), [x]( int y ) { return y >= x; } ), "any_of" );
	VC_ENSURE( al::satisfies_all( a.begin( ), a.end( ), [x]( int y ) { return y < x; }, [x]( int y ) { return y <= x; } ), "satisfies_all" );
	VC_ENSURE( not al::satisfies_one( a.begin( ), a.end( ), [x]( int y ) { return y > x; }, [x]( int y ) { return y == x; } ), "satisfies_one" );
	VC_ENSURE( al::count_if( a.begin( ), a.end( ), [x]( int y ) { return y >= x; } ) == 0, "count_if" );
}
CONTRACT( any_none_of ) {
	FIRST( y < x );
	bool const r = al::any_of( a.begin( ), a.end( ), f );
	VC_ENSURE( r or i >= a.n or not f( a.p[i] ), "any_of is false only when none does" );
}
CONTRACT( none_of ) {
	FIRST( y < x );
	bool const r = al::none_of( a.begin( ), a.end( ), f );
	VC_ENSURE( not r or i >= a.n or not f( a.p[i] ), "true only when none does" );
}
CONTRACT( contains ) {
	FIRST( y == x );
	bool const r = al::contains( a.begin( ), a.end( ), x );
	VC_ENSURE( r or i >= a.n or a.p[i] != x, "false only when absent" );
}
CONTRACT( contains_if ) {
	FIRST( y < x );
	bool const r = al::contains_if( a.begin( ), a.end( ), f );
	VC_ENSURE( r or i >= a.n or not f( a.p[i] ), "false only when absent" );
}
CONTRACT( contains_compare ) {
	FIRST( y / 2 == x );
	bool const r = al::contains( a.begin( ), a.end( ), x, []( int y, int z ) { return y / 2 == z; } );
	VC_ENSURE( r or i >= a.n or not f( a.p[i] ), "false only when absent" );
}
CONTRACT( contains_absent ) {
	auto const a = any_range( );
	auto const x = vc::any<int>( "x" );
	vc::assume( x < 100 );
	vc::each( a.p, a.n, [x]( int y ) { return y != x; }, x + 1 );
	VC_ENSURE( not al::contains( a.begin( ), a.end( ), x ), "contains" );
	VC_ENSURE( not al::contains_if( a.begin( ), a.end( ), [x]( int y ) { return y == x; } ), "contains_if" );
	VC_ENSURE( not daw::container::contains( daw::span<int const>( a.p, a.n ), x ), "container::contains" );
	VC_ENSURE( not daw::container::contains( daw::span<int const>( a.p, a.n ), [x]( int y ) { return y == x; } ), "container::contains of a predicate" );
}
CONTRACT( satisfies_one ) {
	FIRST( y == x or y == 5 );
	bool const r = al::satisfies_one( a.begin( ), a.end( ), [x]( int y ) { return y == x; }, []( int y ) { return y == 5; } );
	VC_ENSURE( r or i >= a.n or not f( a.p[i] ), "false only when no element does" );
}
CONTRACT( satisfies_all ) {
	FIRST( not( y < x and y != 5 ) );
	bool const r = al::satisfies_all( a.begin( ), a.end( ), [x]( int y ) { return y < x; }, []( int y ) { return y != 5; } );
	VC_ENSURE( not r or i >= a.n or not f( a.p[i] ), "true only when every element does" );
}
CONTRACT( satisfies_value ) {
	auto const v = vc::any<int>( "v" );
	auto const x = vc::any<int>( "x" );
	auto const lt = [x]( int y ) { return y < x; };
	auto const odd = []( int y ) { return y % 2 != 0; };
	auto const big = []( int y ) { return y > 1000; };
	VC_ENSURE( al::satisfies_one( v, lt ) == ( v < x ) and al::satisfies_all( v, lt ) == ( v < x ), "one predicate" );
	VC_ENSURE( al::satisfies_one( v, lt, odd, big ) == ( v < x or v % 2 != 0 or v > 1000 ), "satisfies_one" );
	VC_ENSURE( al::satisfies_all( v, lt, odd, big ) == ( v < x and v % 2 != 0 and v > 1000 ), "satisfies_all" );
}
// any element that satisfies is found (the other direction of any_of, contains, ...)
CONTRACT( present ) {
	auto const a = any_range( );
	auto const k = vc::index( "k", a.n );
	auto const x = a.p[k];
	auto lt = [=]( std::uint64_t w ) { return w <= k; };
	vc::hint( lt );
	auto left = [=]( std::uint64_t w ) { return w >= a.n - k; };
	vc::hint( left );
	auto const eq = [x]( int y ) { return y == x; };
	VC_ENSURE( al::contains( a.begin( ), a.end( ), x ), "contains" );
	VC_ENSURE( al::contains_if( a.begin( ), a.end( ), eq ), "contains_if" );
	VC_ENSURE( al::any_of( a.begin( ), a.end( ), eq ) and not al::none_of( a.begin( ), a.end( ), eq ), "any_of, none_of" );
	VC_ENSURE( not al::all_of( a.begin( ), a.end( ), [x]( int y ) { return y != x; } ), "all_of" );
	VC_ENSURE( al::find_index( a.begin( ), a.end( ), x ).has_value( ), "find_index" );
	VC_ENSURE( al::satisfies_one( a.begin( ), a.end( ), eq ), "satisfies_one" );
	VC_ENSURE( not al::satisfies_all( a.begin( ), a.end( ), [x]( int y ) { return y != x; } ), "satisfies_all" );
	VC_ENSURE( al::find( a.begin( ), a.end( ), x ) != a.end( ), "find" );
}
CONTRACT( container_present ) {
	auto const a = any_range( );
	auto const k = vc::index( "k", a.n );
	auto const x = a.p[k];
	auto lt = [=]( std::uint64_t w ) { return w <= k; };
	vc::hint( lt );
	auto const s = daw::span<int const>( a.p, a.n );
	VC_ENSURE( daw::container::contains( s, x ), "container::contains" );
	VC_ENSURE( daw::container::contains( s, [x]( int y ) { return y == x; } ), "container::contains of a predicate" );
	VC_ENSURE( daw::container::container_size( s ) == a.n, "container_size" );
	int const three[3] = { };
	VC_ENSURE( daw::container::container_size( three ) == 3, "container_size of an array" );
}
#define FOUR( n )                                                                                                       \
	auto four = [&]( std::uint64_t trips, std::uint64_t w ) { return trips <= ( n ) / 4 and w == ( ( n ) / 4 - trips ) * 4; }; \
	vc::hint( four )
CONTRACT( container_find ) {
	FIRST( y == x );
	FOUR( a.n );
	auto const s = daw::span<int const>( a.p, a.n );
	check_first( a, daw::container::find( s, x ), f, i );
}
CONTRACT( container_find_if ) {
	FIRST( y < x );
	FOUR( a.n );
	auto s = daw::span<int const>( a.p, a.n );
	check_first( a, daw::container::find_if( s, f ), f, i );
}

// ---- the last of a leading run
CONTRACT( find_last_of ) {
	FIRST( y >= x );
	auto run = [=]( std::uint64_t w ) { return i >= w or i >= a.n or a.p[i] < x; };
	vc::hint( run );
	auto behind = [=]( std::uint64_t q, std::uint64_t w ) { return w == 0 ? q == a.n : q + 1 == w; };
	vc::hint( behind );
	auto const *const q = al::find_last_of( a.begin( ), a.end( ), [x]( int y ) { return y < x; } );
	VC_ENSURE( q >= a.begin( ) and q <= a.end( ), "a position of the range" );
	VC_ENSURE( q == a.end( ) or i > pos( a, q ) or a.p[i] < x, "every element up to it satisfies" );
	VC_ENSURE( q == a.end( ) or pos( a, q ) + 1 == a.n or q[1] >= x, "the next does not" );
	VC_ENSURE( q != a.end( ) or a.n == 0 or a.p[0] >= x, "the end only when the first does not" );
}
CONTRACT( find_first_range_of ) {
	FIRST( y == x );
	auto behind = [=]( std::uint64_t q, std::uint64_t w ) { return q == a.n or q + 1 == w; };
	vc::hint( behind );
	auto const r = al::find_first_range_of( a.begin( ), a.end( ), f );
	check_first( a, r.first, f, i );
	VC_ENSURE( r.second >= r.first and r.second <= a.end( ), "the end of the run" );
	VC_ENSURE( r.first == a.end( ) or r.second > r.first, "a run that was found is not empty" );
	VC_ENSURE( r.second == a.end( ) or *r.second != x, "the run stops at an element that does not satisfy" );
}
CONTRACT( find_first_range_of_run ) {
	auto const a = any_range( );
	auto const x = vc::any<int>( "x" );
	vc::assume( x < 100 );
	auto const i = vc::size( "i" );
	auto const k = vc::index( "k", a.n );
	// the first one is at k
	auto absent = [=]( std::uint64_t j ) { return j > k or j >= a.n or ( a.p[j] == x ) == ( j == k ); };
#ifdef VC_NATIVE
	for( std::size_t j = 0; j <= k; ++j ) {
		a.p[j] = j == k ? x : a.p[j] == x ? x + 1 : a.p[j];
	}
#endif
	vc::forall( a.p, absent );
	auto le = [=]( std::uint64_t w ) { return w <= k; };
	vc::hint( le );
	auto run = [=]( std::uint64_t w ) { return i < k or i >= w or a.p[i] == x; };
	vc::hint( run );
	auto behind = [=]( std::uint64_t q, std::uint64_t w ) { return q == a.n ? w == k : q + 1 == w; };
	vc::hint( behind );
	auto const r = al::find_first_range_of( a.begin( ), a.end( ), [x]( int y ) { return y == x; } );
	VC_ENSURE( pos( a, r.first ) == k, "starts at the first" );
	VC_ENSURE( i < k or i >= pos( a, r.second ) or a.p[i] == x, "every element of the run satisfies" );
}

// ---- one of several
CONTRACT( find_first_of_list ) {
	auto const a = any_range( );
	int const list[3] = { vc::any<int>( "l0" ), vc::any<int>( "l1" ), vc::any<int>( "l2" ) };
	auto const i = vc::size( "i" );
	auto f = [=]( int y ) { return y == list[0] or y == list[1] or y == list[2]; };
	auto none = [=]( std::uint64_t w ) { return i >= a.n or i >= w or not f( a.p[i] ); };
	vc::hint( none );
	check_first( a, al::find_first_of( a.begin( ), a.end( ), list + 0, list + 3 ), f, i );
}
CONTRACT( find_first_of_list_found ) {
	auto const a = any_range( );
	auto const b = any_range( "list", "m" );
	auto const *const q = al::find_first_of( a.begin( ), a.end( ), b.begin( ), b.end( ) );
	VC_ENSURE( q >= a.begin( ) and q <= a.end( ), "a position of the range" );
	VC_ENSURE( q == a.end( ) or b.n > 0, "nothing is found in an empty list" );
}
CONTRACT( find_first_of_list_none_before ) {
	auto const a = any_range( );
	auto const b = any_range( "list", "m" );
	auto const i = vc::size( "i" );
	auto const j = vc::size( "j" );
	auto outer = [=]( std::uint64_t w ) { return i >= a.n or j >= b.n or i >= w or a.p[i] != b.p[j]; };
	vc::hint( outer );
	auto inner = [=]( std::uint64_t w, std::uint64_t u ) { return w >= a.n or j >= b.n or j >= u or a.p[w] != b.p[j]; };
	vc::hint( inner );
	auto const *const q = al::find_first_of( a.begin( ), a.end( ), b.begin( ), b.end( ) );
	VC_ENSURE( i >= pos( a, q ) or j >= b.n or a.p[i] != b.p[j], "no element before is in the list" );
}
CONTRACT( find_some ) {
	auto const a = any_range( );
	auto const x = vc::any<int>( "x" );
	auto const i = vc::size( "i" );
	auto none = [=]( std::uint64_t w ) { return i >= a.n or i >= w or ( a.p[i] != x and a.p[i] != 7 ); };
	vc::hint( none );
	auto const r = al::find_some( a.begin( ), a.end( ), [x]( int y ) { return y == x; }, []( int y ) { return y == 7; } );
	check_first( a, r.position, [x]( int y ) { return y == x or y == 7; }, i );
	VC_ENSURE( r.position == a.end( ) or ( r.results[0] == ( *r.position == x ) and r.results[1] == ( *r.position == 7 ) ), "which predicates hold there" );
}
CONTRACT( find_one_of ) {
	auto const a = any_range( );
	auto const x = vc::any<int>( "x" );
	auto const i = vc::size( "i" );
	auto none = [=]( std::uint64_t w ) { return i >= a.n or i >= w or ( a.p[i] != x and a.p[i] != 7 ); };
	vc::hint( none );
	auto const r = al::find_one_of( a.begin( ), a.end( ), [x]( int y ) { return y == x; }, []( int y ) { return y == 7; } );
	check_first( a, r.position, [x]( int y ) { return y == x or y == 7; }, i );
	VC_ENSURE( r.position == a.end( ) ? r.index == static_cast<std::size_t>( -1 ) : r.index == ( *r.position == x ? 0 : 1 ), "the first predicate that holds" );
}
CONTRACT( find_transform ) {
	auto const a = any_range( );
	auto const x = vc::any<int>( "x" );
	auto const i = vc::size( "i" );
	auto f = [x]( int y ) { return ( y ^ 5 ) < x; };
	auto none = [=]( std::uint64_t w ) { return i >= a.n or i >= w or not f( a.p[i] ); };
	vc::hint( none );
	auto const r = al::find_transform( a.begin( ), a.end( ), []( int y ) { return y ^ 5; }, [x]( int y ) { return y < x; } );
	check_first( a, r.iterator, f, i );
	VC_ENSURE( static_cast<bool>( r ) == ( r.iterator != a.end( ) ), "reports whether one was found" );
	VC_ENSURE( not r or *r.value == ( *r.iterator ^ 5 ), "the transformed value" );
}
CONTRACT( adjacent_find ) {
	auto const a = any_range( );
	auto const i = vc::size( "i" );
	auto none = [=]( std::uint64_t w ) { return i + 1 >= a.n or i >= w or a.p[i] <= a.p[i + 1]; };
	vc::hint( none );
	auto none1 = [=]( std::uint64_t w ) { return i + 1 >= a.n or i + 1 >= w or a.p[i] <= a.p[i + 1]; };
	vc::hint( none1 );
	auto const *const q = al::adjacent_find( a.begin( ), a.end( ), []( int y, int z ) { return y > z; } );
	VC_ENSURE( q == a.end( ) or ( q >= a.begin( ) and q + 1 < a.end( ) and q[0] > q[1] ), "a pair of the range" );
	VC_ENSURE( i + 1 >= a.n or i >= pos( a, q ) or a.p[i] <= a.p[i + 1], "and no earlier pair" );
}
CONTRACT( find_unsorted ) {
	auto const a = any_range( );
	vc::assume( a.n > 0 );
	auto const i = vc::size( "i" );
	auto none = [=]( std::uint64_t w ) { return i + 1 >= a.n or i >= w or a.p[i] <= a.p[i + 1]; };
	vc::hint( none );
	auto const *const q = al::find_unsorted( a.begin( ), a.end( ) );
	VC_ENSURE( q == a.end( ) or ( q >= a.begin( ) and q + 1 < a.end( ) and q[0] > q[1] ), "a pair out of order" );
	VC_ENSURE( i + 1 >= a.n or i >= pos( a, q ) or a.p[i] <= a.p[i + 1], "and no earlier pair" );
}

// ---- sorted ranges
CONTRACT( is_sorted ) {
	auto const a = any_range( );
	auto const i = vc::size( "i" );
	auto none = [=]( std::uint64_t w ) { return i + 1 >= a.n or i + 1 >= w or a.p[i] <= a.p[i + 1]; };
	vc::hint( none );
	auto none1 = [=]( std::uint64_t w ) { return i + 1 >= a.n or i + 1 > w or a.p[i] <= a.p[i + 1]; };
	vc::hint( none1 );
	auto const *const q = al::is_sorted_until( a.begin( ), a.end( ) );
	VC_ENSURE( q >= a.begin( ) and q <= a.end( ), "a position of the range" );
	VC_ENSURE( q == a.end( ) or ( q > a.begin( ) and q[0] < q[-1] ), "an element that is less than the one before" );
	VC_ENSURE( i + 1 >= a.n or i + 1 >= pos( a, q ) or a.p[i] <= a.p[i + 1], "sorted before it" );
}
CONTRACT( is_sorted_true ) {
	auto const a = any_range( );
	auto const i = vc::size( "i" );
	auto none = [=]( std::uint64_t w ) { return i + 1 >= a.n or i + 1 >= w or a.p[i] <= a.p[i + 1]; };
	vc::hint( none );
	auto none1 = [=]( std::uint64_t w ) { return i + 1 >= a.n or i + 1 > w or a.p[i] <= a.p[i + 1]; };
	vc::hint( none1 );
	VC_ENSURE( not al::is_sorted( a.begin( ), a.end( ) ) or i + 1 >= a.n or a.p[i] <= a.p[i + 1], "true only when sorted" );
}
CONTRACT( is_sorted_false ) {
	auto const a = any_range( );
	auto const k = vc::index( "k", a.n );
	vc::assume( k + 1 < a.n and a.p[k] > a.p[k + 1] );
	auto le = [=]( std::uint64_t w ) { return w <= k; };
	vc::hint( le );
	auto le1 = [=]( std::uint64_t w ) { return w <= k + 1; };
	vc::hint( le1 );
	VC_ENSURE( not al::is_sorted( a.begin( ), a.end( ) ), "a pair out of order is noticed" );
	VC_ENSURE( al::is_sorted( a.begin( ), a.end( ), []( int, int ) { return false; } ), "the comparison decides" );
}
CONTRACT( is_sorted_sentinel ) {
	auto const a = any_range( );
	auto const i = vc::size( "i" );
	struct sentinel {
		int const *e;
		bool operator==( int const *p ) const { return p == e; }
		operator int const *( ) const { return e; }
	};
	auto none = [=]( std::uint64_t w ) { return i + 1 >= a.n or i + 1 > w or a.p[i] <= a.p[i + 1]; };
	vc::hint( none );
	auto const *const q = al::is_sorted_until( a.begin( ), sentinel{ a.end( ) } );
	VC_ENSURE( q >= a.begin( ) and q <= a.end( ), "a position of the range" );
	VC_ENSURE( q == a.end( ) or ( q > a.begin( ) and q[0] < q[-1] ), "an element that is less than the one before" );
	VC_ENSURE( i + 1 >= a.n or i + 1 >= pos( a, q ) or a.p[i] <= a.p[i + 1], "sorted before it" );
}
// the elements before k satisfy "less than x", the others do not (a range partitioned by the value)
#define PARTITIONED( F )                                                            \
	auto const a = any_range( );                                                      \
	auto const x = vc::any<int>( "x" );                                               \
	vc::assume( x > -100 and x < 100 );                                               \
	auto const k = vc::range( "k", 0, a.n );                                          \
	auto before = [x]( int y ) { return F; };                                         \
	auto parted = [=]( std::uint64_t j ) { return j >= a.n or before( a.p[j] ) == ( j < k ); }; \
	fix( a.p, a.n, k, x, before );                                                    \
	vc::forall( a.p, parted );                                                        \
	auto inside = [=]( std::uint64_t w, std::uint64_t u ) { return w <= k and k <= u and u <= a.n; }; \
	vc::hint( inside );                                                               \
	auto count = [=]( std::uint64_t w, std::uint64_t c ) { return w <= k and k - w <= c and c <= a.n - w; }; \
	vc::hint( count );                                                                \
	vc::manual( )
template<typename F>
static void fix( int *p, std::size_t n, std::size_t k, int x, F before ) {
#ifdef VC_NATIVE
	for( std::size_t i = 0; i < n; ++i ) {
		if( before( p[i] ) != ( i < k ) ) {
			p[i] = i < k ? x - 1 : x + 1;
		}
	}
#endif
	(void)p, (void)n, (void)k, (void)x, (void)before;
}
CONTRACT( lower_bound ) {
	PARTITIONED( y < x );
	VC_ENSURE( pos( a, al::lower_bound( a.begin( ), a.end( ), x ) ) == k, "the first element that is not less" );
}
CONTRACT( lower_bound_compare ) {
	PARTITIONED( y < x );
	VC_ENSURE( pos( a, al::lower_bound( a.begin( ), a.end( ), -x, []( int y, int z ) { return y < -z; } ) ) == k, "by the comparison" );
}
CONTRACT( upper_bound ) {
	PARTITIONED( y <= x );
	VC_ENSURE( pos( a, al::upper_bound( a.begin( ), a.end( ), x ) ) == k, "the first element that is greater" );
}
CONTRACT( upper_bound_compare ) {
	PARTITIONED( y <= x );
	VC_ENSURE( pos( a, al::upper_bound( a.begin( ), a.end( ), -x, []( int z, int y ) { return -z < y; } ) ) == k, "by the comparison" );
}
CONTRACT( binary_search ) {
	auto const a = any_range( );
	vc::assume( a.n > 0 );
	auto const x = vc::any<int>( "x" );
	auto const *const q = al::binary_search( a.begin( ), a.end( ), x );
	VC_ENSURE( q == a.end( ) or ( q >= a.begin( ) and q < a.end( ) and *q == x ), "an equal element, or the end" );
}
CONTRACT( binary_search_present ) {
	PARTITIONED( y < x );
	vc::assume( k < a.n and a.p[k] == x );
	auto within = [=]( std::uint64_t w, std::uint64_t u ) { return w <= k and k < u and u <= a.n; };
	vc::hint( within );
	VC_ENSURE( al::binary_search( a.begin( ), a.end( ), x ) != a.end( ), "an element that is present is found" );
}
// ---- comparison of two ranges
#define TWO_RANGES( F )                                                                      \
	auto const a = any_range( );                                                              \
	auto const b = any_range( "elements2", "m" );                                             \
	auto const both = a.n < b.n ? a.n : b.n;                                                  \
	auto const k = vc::range( "k", 0, both );                                                 \
	auto same = []( int y, int z ) { return F; };                                             \
	agree( a.p, b.p, k );                                                                     \
	vc::assume( k == both or not same( a.p[k], b.p[k] ) );                                    \
	auto prefix = [=]( std::uint64_t j ) { return j >= k or same( a.p[j], b.p[j] ); };        \
	vc::forall( a.p, prefix );                                                                \
	auto le = [=]( std::uint64_t w ) { return w <= k; };                                      \
	vc::hint( le )
static void agree( int *p, int const *q, std::size_t k ) {
#ifdef VC_NATIVE
	for( std::size_t i = 0; i < k; ++i ) {
		p[i] = q[i];
	}
#endif
	(void)p, (void)q, (void)k;
}
CONTRACT( equal ) {
	TWO_RANGES( y == z );
	VC_ENSURE( al::equal( a.begin( ), a.end( ), b.begin( ), b.end( ) ) == ( k == a.n and a.n == b.n ), "equal exactly when the same elements in the same order" );
}
CONTRACT( equal_compare ) {
	TWO_RANGES( y / 2 == z / 2 );
	VC_ENSURE( al::equal( a.begin( ), a.end( ), b.begin( ), b.end( ), same ) == ( k == a.n and a.n == b.n ), "by the comparison" );
}
CONTRACT( equal_three ) {
	TWO_RANGES( y == z );
	vc::assume( a.n <= b.n );
	VC_ENSURE( al::equal( a.begin( ), a.end( ), b.begin( ) ) == ( k == a.n ), "equal exactly when every element of the first is" );
}
CONTRACT( lexicographical_compare ) {
	TWO_RANGES( y == z );
	VC_ENSURE( al::lexicographical_compare( a.begin( ), a.end( ), b.begin( ), b.end( ) ) == ( k == both ? a.n < b.n : a.p[k] < b.p[k] ), "decided by the first difference" );
}
CONTRACT( lexicographical_compare_by ) {
	TWO_RANGES( y == z );
	VC_ENSURE( al::lexicographical_compare( a.begin( ), a.end( ), b.begin( ), b.end( ), []( int y, int z ) { return y > z; } ) == ( k == both ? a.n < b.n : a.p[k] > b.p[k] ), "by the comparison" );
}
CONTRACT( compare_range ) {
	TWO_RANGES( y == z );
	auto const r = al::compare_range( a.begin( ), a.end( ), b.begin( ), b.end( ) );
	VC_ENSURE( r == ( k == both ? ( a.n == b.n ? 0 : a.n < b.n ? -1 : 1 ) : a.p[k] < b.p[k] ? -1 : 1 ), "three way" );
}
CONTRACT( array_cmp ) {
	int a[3] = { vc::any<int>( "a0" ), vc::any<int>( "a1" ), vc::any<int>( "a2" ) };
	int b[3] = { vc::any<int>( "b0" ), vc::any<int>( "b1" ), vc::any<int>( "b2" ) };
	vc_unroll( 4 );
	VC_ENSURE( daw::array_cmp( a, b ) == ( a[0] == b[0] and a[1] == b[1] and a[2] == b[2] ), "arrays are equal when all elements are" );
	auto const o = daw::array_cmp( a, b, []( int x, int y ) { return x < y ? std::strong_ordering::less : x > y ? std::strong_ordering::greater : std::strong_ordering::equal; } );
	auto const d = a[0] != b[0] ? 0 : a[1] != b[1] ? 1 : 2;
	VC_ENSURE( ( o < 0 ) == ( a[d] < b[d] ) and ( o > 0 ) == ( a[d] > b[d] ), "decided by the first difference" );
}
CONTRACT( array_cmp_nested ) {
	int a[2][2] = { { vc::any<int>( "a0" ), vc::any<int>( "a1" ) }, { vc::any<int>( "a2" ), vc::any<int>( "a3" ) } };
	int b[2][2] = { { vc::any<int>( "b0" ), vc::any<int>( "b1" ) }, { vc::any<int>( "b2" ), vc::any<int>( "b3" ) } };
	vc_unroll( 4 );
	VC_ENSURE( daw::array_cmp( a, b ) == ( a[0][0] == b[0][0] and a[0][1] == b[0][1] and a[1][0] == b[1][0] and a[1][1] == b[1][1] ), "nested arrays" );
}
CONTRACT( search_found ) {
	auto const a = any_range( );
	auto const b = any_range( "pattern", "m" );
	auto const j = vc::size( "j" );
	auto empty = [=]( std::uint64_t w ) { return w == 0 or b.n > 0; };
	vc::hint( empty );
	auto match = [=]( std::uint64_t w, std::uint64_t s ) { return j >= b.n or j >= s or w + j >= a.n or a.p[w + j] == b.p[j]; };
	vc::hint( match );
	auto const *const q = al::search( a.begin( ), a.end( ), b.begin( ), b.end( ) );
	VC_ENSURE( q >= a.begin( ) and q <= a.end( ), "a position of the range" );
	VC_ENSURE( q == a.end( ) or pos( a, q ) + b.n <= a.n, "the pattern fits" );
	VC_ENSURE( q == a.end( ) or j >= b.n or q[j] == b.p[j], "and is there" );
	VC_ENSURE( b.n > 0 or q == a.begin( ), "an empty pattern is found at the start" );
}
CONTRACT( search_first ) {
	auto const a = any_range( );
	auto const b = any_range( "pattern", "m" );
	auto const k = vc::size( "k" );
	vc::assume( k <= a.n and b.n <= a.n - k );
	// the pattern occurs at k
	agree( a.p + k, b.p, b.n );
	auto occurs = [=]( std::uint64_t j ) { return j < k or j - k >= b.n or a.p[j] == b.p[j - k]; };
	vc::forall( a.p, occurs );
	auto le = [=]( std::uint64_t w ) { return w <= k; };
	vc::hint( le );
	auto const *const q = al::search( a.begin( ), a.end( ), b.begin( ), b.end( ) );
	VC_ENSURE( q >= a.begin( ) and pos( a, q ) <= k, "an occurrence is not passed over" );
}

// ---- extremes
CONTRACT( max_element ) {
	auto const a = any_range( );
	auto const i = vc::size( "i" );
	auto le = [=]( std::uint64_t best, std::uint64_t w ) { return i >= w or i >= a.n or best >= a.n or ( a.p[i] <= a.p[best] and ( i >= best or a.p[i] < a.p[best] ) ); };
	vc::hint( le );
	auto const *const q = al::max_element( a.begin( ), a.end( ) );
	VC_ENSURE( a.n == 0 ? q == a.end( ) : q >= a.begin( ) and q < a.end( ), "a position of the range" );
	VC_ENSURE( i >= a.n or a.p[i] <= *q, "no element is greater" );
	VC_ENSURE( i >= pos( a, q ) or a.p[i] < *q, "and it is the first of them" );
}
CONTRACT( max_element_compare ) {
	auto const a = any_range( );
	auto const i = vc::size( "i" );
	auto le = [=]( std::uint64_t best, std::uint64_t w ) { return i >= w or i >= a.n or best >= a.n or a.p[i] >= a.p[best]; };
	vc::hint( le );
	auto s = daw::span<int const>( a.p, a.n );
	auto const *const q = vc::any<bool>( "container" ) ? daw::container::max_element( s, []( int y, int z ) { return y > z; } )
	                                                   : al::max_element( a.begin( ), a.end( ), []( int y, int z ) { return y > z; } );
	VC_ENSURE( a.n == 0 ? q == a.end( ) : q >= a.begin( ) and q < a.end( ), "a position of the range" );
	VC_ENSURE( i >= a.n or a.p[i] >= *q, "by the comparison" );
}
CONTRACT( container_max_element ) {
	auto const a = any_range( );
	auto const i = vc::size( "i" );
	auto le = [=]( std::uint64_t best, std::uint64_t w ) { return i >= w or i >= a.n or best >= a.n or a.p[i] <= a.p[best]; };
	vc::hint( le );
	auto const s = daw::span<int const>( a.p, a.n );
	auto const *const q = daw::container::max_element( s );
	VC_ENSURE( a.n == 0 ? q == a.end( ) : q >= a.begin( ) and q < a.end( ), "a position of the range" );
	VC_ENSURE( i >= a.n or a.p[i] <= *q, "no element is greater" );
}
CONTRACT( minmax_element ) {
	auto const a = any_range( );
	auto const i = vc::size( "i" );
	auto lo = [=]( std::uint64_t q, std::uint64_t w ) { return q < w and w <= a.n and ( i >= w or a.p[q] <= a.p[i] ); };
	vc::hint( lo );
	auto hi = [=]( std::uint64_t q, std::uint64_t w ) { return q < w and w <= a.n and ( i >= w or a.p[i] <= a.p[q] ); };
	vc::hint( hi );
	auto ordered = [=]( std::uint64_t q, std::uint64_t r ) { return q < a.n and r < a.n and a.p[q] <= a.p[r]; };
	vc::hint( ordered );
	auto const r = al::minmax_element( a.begin( ), a.end( ) );
	VC_ENSURE( a.n > 0 or ( r.min_element == a.end( ) and r.max_element == a.end( ) ), "the end for an empty range" );
	VC_ENSURE( a.n == 0 or ( pos( a, r.min_element ) < a.n and pos( a, r.max_element ) < a.n ), "positions of the range" );
	VC_ENSURE( i >= a.n or ( a.p[i] >= *r.min_element and a.p[i] <= *r.max_element ), "no element is smaller or greater" );
}
CONTRACT( minmax_item ) {
	auto const a = vc::any<int>( "a" );
	auto const b = vc::any<int>( "b" );
	auto const c = vc::any<int>( "c" );
	auto const r = al::minmax_item( a, b );
	VC_ENSURE( r.first == ( a < b ? a : b ) and r.second == ( a < b ? b : a ), "minmax_item" );
	auto const s = al::minmax_item( a, b, []( int y, int z ) { return y > z; } );
	VC_ENSURE( s.first == r.second and s.second == r.first, "by the comparison" );
	auto const lo = r.first < c ? r.first : c;
	auto const hi = r.second > c ? r.second : c;
	VC_ENSURE( al::min_item( a ) == a and al::max_item( a ) == a, "one value" );
	VC_ENSURE( al::min_item( a, b, c ) == lo and al::max_item( a, b, c ) == hi, "min_item, max_item" );
}
CONTRACT( clamp ) {
	auto const v = vc::any<int>( "v" );
	auto const m = vc::any<int>( "m" );
	VC_ENSURE( al::clamp( int{ v }, int{ m } ) == ( v > m ? m : v ), "not above the maximum" );
}

// ---- counting, all equal
extern "C" __attribute__( ( noinline ) ) std::uint64_t vcspec_count( int const *p, std::size_t n, int x ) {
	return n == 0 ? 0 : vcspec_count( p, n - 1, x ) + ( p[n - 1] < x ? 1 : 0 );
}
CONTRACT( count_if ) {
	auto const a = any_range( );
	auto const x = vc::any<int>( "x" );
	auto h = [=]( std::uint64_t c, std::uint64_t w ) { return c == vcspec_count( a.p, w, x ); };
	vc::hint( h );
	auto const r = al::count_if( a.begin( ), a.end( ), [x]( int y ) { return y < x; } );
	VC_ENSURE( r == vcspec_count( a.p, a.n, x ), "the number of elements that satisfy" );
}
CONTRACT( all_equal ) {
	auto const a = any_range( );
	auto const i = vc::size( "i" );
	auto h = [=]( std::uint64_t w ) { return i >= a.n or i >= w or a.p[i] == a.p[0]; };
	vc::hint( h );
	bool const r = al::all_equal<>{ }( a.begin( ), a.end( ) );
	VC_ENSURE( not r or i >= a.n or a.p[i] == a.p[0], "true only when all are equal" );
}
CONTRACT( all_equal_true ) {
	auto const a = any_range( );
	auto const x = vc::any<int>( "x" );
	vc::each( a.p, a.n, [x]( int y ) { return y == x; }, x );
	VC_ENSURE( al::all_equal<>{ }( a.begin( ), a.end( ) ), "true when all are equal" );
}
CONTRACT( are_equal ) {
	auto const a = vc::any<int>( "a" );
	auto const b = vc::any<int>( "b" );
	auto const c = vc::any<int>( "c" );
	auto const d = vc::any<int>( "d" );
	VC_ENSURE( al::are_equal( a ) and al::are_equal( a, b ) == ( a == b ), "one, two" );
	VC_ENSURE( al::are_equal( a, b, c ) == ( a == b and b == c ), "three" );
	VC_ENSURE( al::are_equal( a, b, c, d ) == ( a == b and b == c and c == d ), "four" );
}
CONTRACT( comparisons ) {
	auto const v = vc::any<int>( "v" );
	auto const x = vc::any<int>( "x" );
	auto const y = vc::any<int>( "y" );
	VC_ENSURE( al::equal_to( int{ x } )( v ) == ( v == x ) and al::less_than( int{ x } )( v ) == ( v < x ) and al::greater_than( int{ x } )( v ) == ( v > x ), "equal_to, less_than, greater_than" );
	VC_ENSURE( al::less_than_or_equal_to( int{ x } )( v ) == ( v <= x ) and al::greater_than_or_equal_to( int{ x } )( v ) == ( v >= x ), "less_than_or_equal_to, greater_than_or_equal_to" );
	bool thrown = false;
	bool in = false;
	try {
		in = al::in_range( x, y )( v );
	} catch( std::out_of_range const & ) {
		thrown = true;
	}
	VC_ENSURE( thrown == ( x > y ) and ( thrown or in == ( x <= v and v <= y ) ), "in_range" );
}

// ---- positions that stay inside
CONTRACT( safe_next ) {
	auto const a = any_range( );
	auto const k = vc::range( "k", 0, a.n );
	auto const d = vc::size( "d" );
	auto const *const q = daw::safe_next( a.begin( ) + k, a.end( ), d );
	VC_ENSURE( pos( a, q ) == ( d < a.n - k ? k + d : a.n ), "stops at the end" );
}
CONTRACT( safe_prev ) {
	auto const a = any_range( );
	auto const k = vc::range( "k", 0, a.n );
	auto const d = vc::size( "d" );
	auto const *const q = daw::safe_prev( a.begin( ) + k, a.begin( ), static_cast<std::ptrdiff_t>( d ) );
	VC_ENSURE( pos( a, q ) == ( d < k ? k - d : 0 ), "stops at the start" );
}
CONTRACT( safe_advance ) {
	auto const a = any_range( );
	auto const k = vc::range( "k", 0, a.n );
	auto const d = vc::srange( "d", -( std::int64_t{ 1 } << 40 ), std::int64_t{ 1 } << 40 );
	auto const s = daw::span<int const>( a.p, a.n );
	auto it = s.begin( ) + k;
	daw::safe_advance( s, it, d );
	auto const want = static_cast<std::int64_t>( k ) + d;
	VC_ENSURE( it - s.begin( ) == ( want < 0 ? 0 : want > static_cast<std::int64_t>( a.n ) ? static_cast<std::int64_t>( a.n ) : want ), "stays inside" );
	auto const m = vc::size( "m" );
	VC_ENSURE( pos( a, daw::begin_at( s, m ) ) == ( m < a.n ? m : a.n ), "begin_at" );
}
CONTRACT( advance_many ) {
	auto const a = any_range( );
	auto const b = any_range( "elements2", "m" );
	auto const d = vc::range( "d", 0, a.n < b.n ? a.n : b.n );
	auto const *p = a.begin( );
	auto const *q = b.begin( );
	daw::advance_many( static_cast<std::ptrdiff_t>( d ), p, q );
	VC_ENSURE( p == a.begin( ) + d and q == b.begin( ) + d, "every iterator is advanced" );
}

// ---- maps
struct fake_map {
	int const *p;
	std::size_t n;
	int const *begin( ) const { return p; }
	int const *end( ) const { return p + n; }
	int const *find( std::size_t k ) const { return k < n ? p + k : p + n; }
};
CONTRACT( try_get ) {
	auto const a = any_range( );
	fake_map m{ a.p, a.n };
	auto const k = vc::size( "k" );
	auto const r = daw::try_get( m, k );
	VC_ENSURE( r.has_value( ) == ( k < a.n ) and ( not r or *r == a.p[k] ), "the value of the key" );
	auto const c = daw::try_get( static_cast<fake_map const &>( m ), k );
	VC_ENSURE( c.has_value( ) == ( k < a.n ) and ( not c or *c == a.p[k] ), "of a const map" );
}
CONTRACT( tuple_functor ) {
	auto const t = std::tuple<int, int, int>( vc::any<int>( "a" ), vc::any<int>( "b" ), vc::any<int>( "c" ) );
	auto const i = vc::range( "i", 0, 4 );
	int calls = 0;
	int got = 0;
	al::tuple_functor<3>::run( i, t, [&]( int v ) {
		++calls;
		got = v;
	} );
	VC_ENSURE( i < 3 ? calls == 1 and got == ( i == 0 ? std::get<0>( t ) : i == 1 ? std::get<1>( t ) : std::get<2>( t ) ) : calls == 0, "the element of that position" );
}
