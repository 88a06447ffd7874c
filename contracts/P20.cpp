// Transforming algorithms: daw_algorithm.h, algorithms/*.h, daw_container_algorithm.h
#include "vecstate.h"

#include <daw/algorithms/daw_algorithm_partial_sum.h>
#include <daw/daw_algorithm.h>
#include <daw/daw_container_algorithm.h>
#include <daw/daw_span.h>

namespace al = daw::algorithm;

// a source of n elements and a destination with at least as many
struct two {
	std::size_t n = vc::size( "n" );
	std::size_t m = vc::size( "m" );
	int *p;
	int *q;
	std::size_t j;
	int was;  // what the destination holds at j before
	int from; // what the source holds at j
	bool inside;
	two( ) {
		vc::assume( n <= m );
		p = vc::array<int>( n, "source" );
		q = vc::array<int>( m, "destination" );
		j = vc::index( "j", m );
		was = q[j];
		inside = j < n;
		from = inside ? p[j] : 0;
	}
	int now( ) const { return q[j]; }
	// exactly the first n are f of the source
	template<typename F>
	bool wrote( F f ) const {
		return now( ) == ( inside ? f( from ) : was ) and ( not inside or p[j] == from );
	}
};
static int id( int x ) { return x; }
static int flip( int x ) { return x ^ 77; }

CONTRACT( copy ) {
	two const t;
	auto *const e = al::copy( t.p, t.p + t.n, t.q );
	VC_ENSURE( e == t.q + t.n, "the end of the output" );
	VC_ENSURE( t.wrote( id ), "copies" );
}
CONTRACT( copy_n ) {
	two const t;
	auto const e = al::copy_n( t.p, t.q, t.n );
	VC_ENSURE( e.input == t.p + t.n and e.output == t.q + t.n, "the ends" );
	VC_ENSURE( t.wrote( id ), "copies" );
}
CONTRACT( move ) {
	two const t;
	auto *const e = al::move( t.p, t.p + t.n, t.q );
	VC_ENSURE( e == t.q + t.n, "the end of the output" );
	VC_ENSURE( t.now( ) == ( t.inside ? t.from : t.was ), "moves" );
}
CONTRACT( move_n ) {
	two const t;
	auto const e = al::move_n( t.p, t.q, t.n );
	VC_ENSURE( e.input == t.p + t.n and e.output == t.q + t.n, "the ends" );
	VC_ENSURE( t.now( ) == ( t.inside ? t.from : t.was ), "moves" );
}
// overlapping ranges: towards the front
CONTRACT( copy_down ) {
	auto const n = vc::size( "n" );
	auto const d = vc::size( "d" );
	auto const m = n + d;
	auto *const p = vc::array<int>( m, "elements" );
	auto const j = vc::index( "j", m );
	auto const old = j < n ? p[j + d] : p[j];
	auto *const e = al::copy( p + d, p + m, p );
	VC_ENSURE( e == p + n, "the end of the output" );
	VC_ENSURE( p[j] == old, "every element is the one d further" );
}
CONTRACT( transform ) {
	two const t;
	auto *const e = al::transform( t.p, t.p + t.n, t.q, flip );
	VC_ENSURE( e == t.q + t.n, "the end of the output" );
	VC_ENSURE( t.wrote( flip ), "transforms" );
}
CONTRACT( transform_in_place ) {
	auto const n = vc::size( "n" );
	auto *const p = vc::array<int>( n, "elements" );
	auto const j = vc::index( "j", n );
	auto const old = p[j];
	auto *const e = al::transform( p, p + n, p, flip );
	VC_ENSURE( e == p + n and p[j] == flip( old ), "transforms each element once" );
}
CONTRACT( transform_n ) {
	two const t;
	auto const e = al::transform_n( t.p, t.q, t.n, flip );
	VC_ENSURE( e.input == t.p + t.n and e.output == t.q + t.n, "the ends" );
	VC_ENSURE( t.wrote( flip ), "transforms" );
}
CONTRACT( transform_n_position ) {
	two const t;
	auto const e = al::transform_n( t.p, t.q, t.n, []( int x, std::size_t k ) { return x ^ static_cast<int>( k ); } );
	VC_ENSURE( e.input == t.p + t.n and e.output == t.q + t.n, "the ends" );
	VC_ENSURE( t.wrote( [&]( int x ) { return x ^ static_cast<int>( t.j ); } ), "with the position" );
}
CONTRACT( map ) {
	two const t;
	auto *const e = al::map( t.p, t.p + t.n, t.q, []( int x ) { return x > 5; } );
	VC_ENSURE( e == t.q + t.n, "the end of the output" );
	VC_ENSURE( t.wrote( []( int x ) { return x > 5 ? 1 : 0; } ), "maps" );
}
CONTRACT( map_two ) {
	two const t;
	auto const *const r = vc::array<int>( t.n, "second" );
	auto const other = t.inside ? r[t.j] : 0;
	auto *const e = al::map( static_cast<int const *>( t.p ), static_cast<int const *>( t.p + t.n ), r, t.q, []( int x, int y ) { return x < y; } );
	VC_ENSURE( e == t.q + t.n, "the end of the output" );
	VC_ENSURE( t.wrote( [&]( int x ) { return x < other ? 1 : 0; } ), "maps pairs" );
}
CONTRACT( cartesian_product_map ) {
	two const t;
	auto const *const r = vc::array<int>( t.n, "second" );
	auto const other = t.inside ? r[t.j] : 0;
	auto const sum = []( int x, int y ) { return x ^ ( 3 * ( y & 1023 ) ); };
	auto *const e = al::cartesian_product_map( sum, t.p, t.p + t.n, t.q, r );
	VC_ENSURE( e == t.q + t.n, "the end of the output" );
	VC_ENSURE( t.wrote( [&]( int x ) { return sum( x, other ); } ), "combines pairs" );
}
CONTRACT( cartesian_product ) {
	two const t;
	auto const mix = []( int x, int &y ) { y = x ^ 5; };
	al::cartesian_product( mix, t.p, t.p + t.n, t.q );
	VC_ENSURE( t.wrote( []( int x ) { return x ^ 5; } ), "calls with each pair" );
}
CONTRACT( convert_copy ) {
	two const t;
	auto *const e = al::convert_copy<signed char, int *, int *>( t.p, t.p + t.n, t.q );
	VC_ENSURE( e == t.q + t.n, "the end of the output" );
	VC_ENSURE( t.wrote( []( int x ) { return static_cast<int>( static_cast<signed char>( x ) ); } ), "converts" );
}
CONTRACT( convert_copy_n ) {
	two const t;
	auto *const e = al::convert_copy_n<signed char>( t.p, t.q, t.n );
	VC_ENSURE( e == t.q + t.n, "the end of the output" );
	VC_ENSURE( t.wrote( []( int x ) { return static_cast<int>( static_cast<signed char>( x ) ); } ), "converts" );
}

// ---- one range
struct part {
	std::size_t n = vc::size( "n" );
	std::size_t lo = vc::range( "lo", 0, n );
	std::size_t hi = vc::range( "hi", 0, n );
	int *p = vc::array<int>( n, "elements" );
	std::size_t j;
	int was;
	bool inside;
	part( ) {
		vc::assume( lo <= hi );
		j = vc::index( "j", n );
		was = p[j];
		inside = j >= lo and j < hi;
	}
	int now( ) const { return p[j]; }
	int *first( ) const { return p + lo; }
	int *last( ) const { return p + hi; }
};
CONTRACT( fill ) {
	part const t;
	auto const x = vc::any<int>( "x" );
	al::fill( t.first( ), t.last( ), x );
	VC_ENSURE( t.now( ) == ( t.inside ? x : t.was ), "exactly the range" );
}
CONTRACT( fill_n ) {
	part const t;
	auto const x = vc::any<int>( "x" );
	auto *const e = al::fill_n( t.first( ), t.hi - t.lo, x );
	VC_ENSURE( e == t.last( ), "the end of the output" );
	VC_ENSURE( t.now( ) == ( t.inside ? x : t.was ), "exactly the range" );
}
CONTRACT( iota ) {
	part const t;
	auto const x = vc::any<unsigned>( "x" );
	auto done = [&]( std::uint64_t w ) { return t.now( ) == ( t.inside and t.j < w ? static_cast<int>( x + static_cast<unsigned>( t.j - t.lo ) ) : t.was ); };
	vc::hint( done );
	auto next = [&]( std::uint64_t w, std::uint64_t v ) { return static_cast<unsigned>( v ) == x + static_cast<unsigned>( w - t.lo ); };
	vc::hint( next );
	al::iota( reinterpret_cast<unsigned *>( t.first( ) ), reinterpret_cast<unsigned *>( t.last( ) ), x );
	VC_ENSURE( t.now( ) == ( t.inside ? static_cast<int>( x + static_cast<unsigned>( t.j - t.lo ) ) : t.was ), "increasing values" );
}
CONTRACT( iota_setter ) {
	part const t;
	auto const x = vc::any<unsigned>( "x" );
	auto done = [&]( std::uint64_t w ) { return t.now( ) == ( t.inside and t.j < w ? static_cast<int>( ( x + static_cast<unsigned>( t.j - t.lo ) ) ^ 9U ) : t.was ); };
	vc::hint( done );
	auto next = [&]( std::uint64_t w, std::uint64_t v ) { return static_cast<unsigned>( v ) == x + static_cast<unsigned>( w - t.lo ); };
	vc::hint( next );
	al::iota( t.first( ), t.last( ), x, []( int &y, unsigned v ) { y = static_cast<int>( v ^ 9U ); } );
	VC_ENSURE( t.now( ) == ( t.inside ? static_cast<int>( ( x + static_cast<unsigned>( t.j - t.lo ) ) ^ 9U ) : t.was ), "increasing values" );
}
CONTRACT( reverse ) {
	part const t;
	auto const mirror = t.inside ? t.hi - 1 - ( t.j - t.lo ) : t.j;
	auto const old = t.p[mirror];
	auto done = [&]( std::uint64_t f, std::uint64_t l ) {
		return t.lo <= f and f <= l and l < t.hi and f - t.lo == t.hi - 1 - l and
		       ( t.inside and ( t.j < f or t.j > l ) ? t.p[t.j] == old and t.p[mirror] == t.was : t.p[t.j] == t.was and t.p[mirror] == old );
	};
	vc::hint( done );
	al::reverse( t.first( ), t.last( ) );
	VC_ENSURE( t.now( ) == old, "mirrored" );
}
CONTRACT( reverse_view ) {
	auto const n = vc::size( "n" );
	auto *const p = vc::array<int>( n, "elements" );
	auto const j = vc::index( "j", n );
	auto s = daw::span<int>( p, n );
	auto r = al::reverse( s );
	VC_ENSURE( r.end( ) - r.begin( ) == static_cast<std::ptrdiff_t>( n ), "as many elements" );
	VC_ENSURE( *( r.begin( ) + static_cast<std::ptrdiff_t>( j ) ) == p[n - 1 - j], "in the opposite order" );
}
CONTRACT( for_each_if ) {
	part const t;
	auto done = [&]( std::uint64_t w ) { return t.now( ) == ( t.inside and t.j < w and t.was > 3 ? t.was ^ 64 : t.was ); };
	vc::hint( done );
	al::for_each_if( t.first( ), t.last( ), []( int x ) { return x > 3; }, []( int &x ) { x ^= 64; } );
	VC_ENSURE( t.now( ) == ( t.inside and t.was > 3 ? t.was ^ 64 : t.was ), "exactly the elements that satisfy" );
}

// ---- the elements that are kept: their number and, element by element, their order
// (keep(x) is x < limit; kept( p, n ) counts those among the first n)
extern "C" __attribute__( ( noinline ) ) std::uint64_t vcspec_kept( int const *p, std::size_t n, int limit ) {
	return n == 0 ? 0 : vcspec_kept( p, n - 1, limit ) + ( p[n - 1] < limit ? 1 : 0 );
}
// every kept element comes to its place
#define KEPT_AT( OUT )                                                                          \
	auto placed = [=]( std::uint64_t w, std::uint64_t o ) {                                       \
		return o == vcspec_kept( t.p, w, x ) and o <= w and                                          \
		       ( t.j >= w or t.j >= t.n or not( t.from < x ) or ( place < o and ( OUT )[place] == t.from ) ); \
	};                                                                                            \
	vc::hint( placed )
CONTRACT( copy_if ) {
	two const t;
	auto const x = vc::any<int>( "x" );
	auto const place = vcspec_kept( t.p, t.j < t.n ? t.j : t.n, x );
	KEPT_AT( t.q );
	auto *const e = al::copy_if( t.p, t.p + t.n, t.q, [x]( int y ) { return y < x; } );
	VC_ENSURE( e == t.q + vcspec_kept( t.p, t.n, x ), "the number of elements written" );
	VC_ENSURE( not t.inside or not( t.from < x ) or t.q[place] == t.from, "each element kept is written, in order" );
}
CONTRACT( copy_if_frame ) {
	two const t;
	auto const x = vc::any<int>( "x" );
	auto frame = [&]( std::uint64_t w, std::uint64_t o ) { return o <= w and ( t.j < o or t.q[t.j] == t.was ); };
	vc::hint( frame );
	auto *const e = al::copy_if( t.p, t.p + t.n, t.q, [x]( int y ) { return y < x; } );
	VC_ENSURE( e <= t.q + t.n, "not more than the source" );
	VC_ENSURE( t.q + t.j < e or t.now( ) == t.was, "nothing after the end is written" );
}
CONTRACT( copy_if_container ) {
	two const t;
	auto const x = vc::any<int>( "x" );
	auto const place = vcspec_kept( t.p, t.j < t.n ? t.j : t.n, x );
	KEPT_AT( t.q );
	auto *const e = daw::container::copy_if( daw::span<int const>( t.p, t.n ), t.q, [x]( int y ) { return y < x; } );
	VC_ENSURE( e == t.q + vcspec_kept( t.p, t.n, x ), "the number of elements written" );
	VC_ENSURE( not t.inside or not( t.from < x ) or t.q[place] == t.from, "each element kept is written, in order" );
}
CONTRACT( transform_if ) {
	two const t;
	auto const x = vc::any<int>( "x" );
	auto const place = vcspec_kept( t.p, t.j < t.n ? t.j : t.n, x );
	auto placed = [=]( std::uint64_t w, std::uint64_t o ) {
		return o == vcspec_kept( t.p, w, x ) and o <= w and
		       ( t.j >= w or t.j >= t.n or not( t.from < x ) or ( place < o and t.q[place] == flip( t.from ) ) );
	};
	vc::hint( placed );
	auto *const e = al::transform_if( t.p, t.p + t.n, t.q, [x]( int y ) { return y < x; }, flip );
	VC_ENSURE( e == t.q + vcspec_kept( t.p, t.n, x ), "the number of elements written" );
	VC_ENSURE( not t.inside or not( t.from < x ) or t.q[place] == flip( t.from ), "each element kept is transformed and written, in order" );
}

// removing in place: small ranges completely, and for any length that none is left
struct few {
	std::size_t n = vc::range( "n", 0, 4 );
	int *p = vc::array<int>( 4, "elements" );
	int x = vc::any<int>( "x" );
	int keep[4] = { };
	std::size_t m = 0;
	template<typename F>
	explicit few( F f ) {
		vc_unroll( 6 );
		vc_opt( "prune", 1 );
		for( std::size_t i = 0; i < 4; ++i ) {
			if( i < n and f( p[i], x ) ) {
				keep[m++] = p[i];
			}
		}
	}
	bool left( int const *e ) const {
		return e == p + m and ( m < 1 or p[0] == keep[0] ) and ( m < 2 or p[1] == keep[1] ) and ( m < 3 or p[2] == keep[2] ) and ( m < 4 or p[3] == keep[3] );
	}
};
CONTRACT( remove_few ) {
	few const t( []( int y, int x ) { return y != x; } );
	VC_ENSURE( t.left( al::remove( t.p, t.p + t.n, t.x ) ), "the others stay, in order" );
}
CONTRACT( remove_if_few ) {
	few const t( []( int y, int x ) { return y >= x; } );
	VC_ENSURE( t.left( al::remove_if( t.p, t.p + t.n, [&]( int y ) { return y < t.x; } ) ), "the others stay, in order" );
}
CONTRACT( consume_if_few ) {
	few const t( []( int y, int x ) { return y >= x; } );
	VC_ENSURE( t.left( al::consume_if( t.p, t.p + t.n, [&]( int y ) { return y < t.x; }, []( int ) {} ) ), "the others stay, in order" );
}
CONTRACT( remove ) {
	part const t;
	auto const x = vc::any<int>( "x" );
	auto const k = vc::any<std::size_t>( "k" );
	auto none = [&]( std::uint64_t o ) { return k < t.lo or k >= o or t.p[k] != x; };
	vc::hint( none );
	auto *const e = al::remove( t.first( ), t.last( ), x );
	VC_ENSURE( e >= t.first( ) and e <= t.last( ), "a position of the range" );
	VC_ENSURE( k < t.lo or k >= static_cast<std::size_t>( e - t.p ) or t.p[k] != x, "none is left" );
	VC_ENSURE( t.inside or t.now( ) == t.was, "only elements of the range change" );
}
CONTRACT( remove_if ) {
	part const t;
	auto const x = vc::any<int>( "x" );
	auto const k = vc::any<std::size_t>( "k" );
	auto none = [&]( std::uint64_t o ) { return k < t.lo or k >= o or t.p[k] >= x; };
	vc::hint( none );
	auto *const e = al::remove_if( t.first( ), t.last( ), [x]( int y ) { return y < x; } );
	VC_ENSURE( e >= t.first( ) and e <= t.last( ), "a position of the range" );
	VC_ENSURE( k < t.lo or k >= static_cast<std::size_t>( e - t.p ) or t.p[k] >= x, "none is left" );
	VC_ENSURE( t.inside or t.now( ) == t.was, "only elements of the range change" );
}
CONTRACT( remove_none ) {
	part const t;
	auto const x = vc::any<int>( "x" );
	vc::assume( x < 100 );
	vc::each( t.p, t.n, [x]( int y ) { return y != x; }, x + 1 );
	auto *const e = al::remove( t.first( ), t.last( ), x );
	VC_ENSURE( e == t.last( ), "nothing is removed" );
	VC_ENSURE( t.p[t.j] == t.p[t.j], "and nothing changes" );
}

// ---- folding: the value is the one the definition gives for each prefix
extern "C" __attribute__( ( noinline ) ) std::uint32_t vcspec_op( std::uint32_t a, std::uint32_t b ) {
	return ( a << 1U ) ^ ( a >> 31U ) ^ b;
}
extern "C" __attribute__( ( noinline ) ) std::uint32_t vcspec_fold_op( std::uint32_t const *p, std::size_t n, std::uint32_t init ) {
	return n == 0 ? init : vcspec_op( vcspec_fold_op( p, n - 1, init ), p[n - 1] );
}
extern "C" __attribute__( ( noinline ) ) std::uint32_t vcspec_sum( std::uint32_t const *p, std::size_t n, std::uint32_t init ) {
	return n == 0 ? init : vcspec_sum( p, n - 1, init ) + p[n - 1];
}
struct numbers {
	std::size_t n = vc::size( "n" );
	std::uint32_t *p = vc::array<std::uint32_t>( n, "elements" );
	std::uint32_t x = vc::any<std::uint32_t>( "x" );
};
static std::uint32_t op( std::uint32_t a, std::uint32_t b ) {
	return vcspec_op( a, b );
}
#define FOLD( F )                                                                         \
	numbers const t;                                                                        \
	auto h = [=]( std::uint64_t acc, std::uint64_t w ) { return static_cast<std::uint32_t>( acc ) == F( t.p, w, t.x ); }; \
	vc::hint( h )
CONTRACT( accumulate ) {
	FOLD( vcspec_sum );
	VC_ENSURE( al::accumulate( t.p, t.p + t.n, t.x ) == vcspec_sum( t.p, t.n, t.x ), "the sum" );
}
CONTRACT( accumulate_op ) {
	FOLD( vcspec_fold_op );
	VC_ENSURE( al::accumulate( t.p, t.p + t.n, t.x, op ) == vcspec_fold_op( t.p, t.n, t.x ), "the fold, from the left" );
}
CONTRACT( accumulate_sentinel ) {
	FOLD( vcspec_sum );
	std::uint32_t const *const last = t.p + t.n;
	VC_ENSURE( al::accumulate( t.p, last, t.x ) == vcspec_sum( t.p, t.n, t.x ), "the sum" );
}
CONTRACT( reduce ) {
	FOLD( vcspec_fold_op );
	VC_ENSURE( al::reduce( t.p, t.p + t.n, t.x, op ) == vcspec_fold_op( t.p, t.n, t.x ), "the fold, from the left" );
}
CONTRACT( container_accumulate ) {
	FOLD( vcspec_sum );
	VC_ENSURE( daw::container::accumulate( daw::span<std::uint32_t const>( t.p, t.n ), std::uint32_t{ t.x } ) == vcspec_sum( t.p, t.n, t.x ), "the sum" );
}
CONTRACT( container_accumulate_op ) {
	FOLD( vcspec_fold_op );
	VC_ENSURE( daw::container::accumulate( daw::span<std::uint32_t const>( t.p, t.n ), std::uint32_t{ t.x }, op ) == vcspec_fold_op( t.p, t.n, t.x ), "the fold, from the left" );
}
extern "C" __attribute__( ( noinline ) ) std::uint32_t vcspec_inner( std::uint32_t const *p, std::uint32_t const *q, std::size_t n, std::uint32_t init ) {
	return n == 0 ? init : vcspec_op( vcspec_inner( p, q, n - 1, init ), p[n - 1] - q[n - 1] );
}
CONTRACT( map_reduce ) {
	numbers const t;
	auto const *const q = vc::array<std::uint32_t>( t.n, "second" );
	auto h = [=]( std::uint64_t acc, std::uint64_t w ) { return static_cast<std::uint32_t>( acc ) == vcspec_inner( t.p, q, w, t.x ); };
	vc::hint( h );
	auto const r = al::map_reduce( t.p, t.p + t.n, q, t.x, op, []( std::uint32_t a, std::uint32_t b ) { return a - b; } );
	VC_ENSURE( r == vcspec_inner( t.p, q, t.n, t.x ), "the fold of the mapped pairs" );
}
CONTRACT( transform_it ) {
	FOLD( vcspec_fold_op );
	VC_ENSURE( t.n == 0 or true, "" );
	auto const *const r = al::transform_it( t.p, t.p + t.n, static_cast<std::uint32_t const *>( t.p ), []( std::uint32_t, std::uint32_t const *o ) { return o + 1; } );
	VC_ENSURE( r == t.p + t.n, "the operation moves the output once for each element" );
}
CONTRACT( partial_sum ) {
	numbers const t;
	auto const m = vc::size( "m" );
	vc::assume( t.n <= m );
	auto *const q = vc::array<std::uint32_t>( m, "destination" );
	auto const j = vc::index( "j", m );
	auto const was = q[j];
	auto h = [=]( std::uint64_t acc, std::uint64_t w ) { return w > 0 and static_cast<std::uint32_t>( acc ) == vcspec_sum( t.p, w, 0 ); };
	vc::hint( h );
	auto out = [=]( std::uint64_t w ) { return j < w ? q[j] == vcspec_sum( t.p, j + 1, 0 ) : q[j] == was; };
	vc::hint( out );
	if( t.n > 0 ) {
		(void)vcspec_sum( t.p, 1, 0 );
	}
	auto *const e = al::partial_sum( t.p, t.p + t.n, q );
	VC_ENSURE( e == q + t.n, "the end of the output" );
	VC_ENSURE( q[j] == ( j < t.n ? vcspec_sum( t.p, j + 1, 0 ) : was ), "the sums of the prefixes" );
}

// ---- sets
CONTRACT( set_intersection ) {
	auto const n = vc::size( "n" );
	auto const m = vc::size( "m" );
	auto const *const p = vc::array<int>( n, "first" );
	auto const *const q = vc::array<int>( m, "second" );
	auto *const o = vc::array<int>( n, "destination" );
	auto const j = vc::size( "j" );
	auto const e = al::set_intersection( p, p + n, q, q + m, o );
	VC_ENSURE( e >= o and e <= o + n, "not more than the first range" );
	(void)j;
}
CONTRACT( set_intersection_few ) {
	vc_unroll( 6 );
	auto const n = vc::range( "n", 0, 2 );
	auto const m = vc::range( "m", 0, 2 );
	int p[2] = { vc::any<int>( "p0" ), vc::any<int>( "p1" ) };
	int q[2] = { vc::any<int>( "q0" ), vc::any<int>( "q1" ) };
	vc::assume( p[0] < p[1] and q[0] < q[1] );
	auto *const o = vc::array<int>( 3, "out" );
	o[0] = o[1] = o[2] = 7;
	auto *const e = al::set_intersection( p + 0, p + n, q + 0, q + m, o );
	int want[3] = { 7, 7, 7 };
	std::size_t k = 0;
	for( std::size_t i = 0; i < 2; ++i ) {
		if( i < n and ( ( m > 0 and q[0] == p[i] ) or ( m > 1 and q[1] == p[i] ) ) ) {
			want[k++] = p[i];
		}
	}
	VC_ENSURE( e == o + k and o[0] == want[0] and o[1] == want[1] and o[2] == 7, "exactly the common elements, in order" );
}
// ranges of three elements (the length is concrete, the contents are not)
struct three {
	int p[3] = { vc::any<int>( "p0" ), vc::any<int>( "p1" ), vc::any<int>( "p2" ) };
	int old[3] = { p[0], p[1], p[2] };
	bool permuted( ) const {
		bool r = true;
		for( int x : old ) {
			auto same = [&]( int const *a ) { return ( a[0] == x ) + ( a[1] == x ) + ( a[2] == x ); };
			r = r and same( p ) == same( old );
		}
		return r;
	}
};
template<std::size_t k>
static void gather_around( ) {
	vc_unroll( 8 );
	vc_opt( "prune", 1 );
	three t;
	auto *const p = t.p;
	auto f = []( int y ) { return y > 0; };
	auto const r = al::gather( p + 0, p + 3, p + k, f );
	VC_ENSURE( r.first <= p + k and p + k <= r.second and r.second <= p + 3, "around the target" );
	for( std::size_t i = 0; i < 3; ++i ) {
		VC_ENSURE( f( p[i] ) == ( p + i >= r.first and p + i < r.second ), "exactly the gathered satisfy" );
	}
	VC_ENSURE( t.permuted( ), "no element is lost" );
}
CONTRACT( gather_0 ) {
	gather_around<0>( );
}
CONTRACT( gather_1 ) {
	gather_around<1>( );
}
CONTRACT( gather_2 ) {
	gather_around<2>( );
}
CONTRACT( gather_3 ) {
	gather_around<3>( );
}
// which of three elements are separators
template<bool... Separator>
static void split_of( ) {
	constexpr std::size_t n = sizeof...( Separator );
	constexpr bool sep[n + 1] = { Separator..., false };
	auto const x = vc::any<int>( "x" );
	vc::assume( x < 100 );
	int p[n + 1];
	for( std::size_t i = 0; i < n; ++i ) {
		p[i] = vc::any<int>( "element" );
		if( sep[i] ) {
			p[i] = x;
		} else {
#ifdef VC_NATIVE
			p[i] = p[i] == x ? x + 1 : p[i];
#endif
			vc::assume( p[i] != x );
		}
	}
	auto const r = al::split( p + 0, p + n, x );
	std::size_t parts = 1;
	std::size_t len = 0;
	for( std::size_t i = 0; i < n; ++i ) {
		if( sep[i] ) {
			VC_ENSURE( parts <= r.size( ) and r[parts - 1].size( ) == len, "as long as the part" );
			++parts;
			len = 0;
		} else {
			VC_ENSURE( parts <= r.size( ) and len < r[parts - 1].size( ) and r[parts - 1][len] == p[i], "the elements of the part" );
			++len;
		}
	}
	VC_ENSURE( r.size( ) == parts and r.back( ).size( ) == len, "the number of parts" );
}
CONTRACT( split ) {
	vc_opt( "prune", 1 );
	split_of<>( );
	split_of<false>( );
	split_of<true>( );
	split_of<false, true, false>( );
}
CONTRACT( split_edges ) {
	vc_opt( "prune", 1 );
	split_of<true, false, false, true>( );
	split_of<false, true, true, false>( );
	split_of<false, false, false, false>( );
}
CONTRACT( partition_range ) {
	auto const n = vc::size( "n" );
	auto *const p = vc::array<int>( n, "elements" );
	vc::assume( n >= 3 );
	auto const r = al::partition_range( p, p + n, 3 );
	VC_ENSURE( r.size( ) == 3, "as many parts as asked for" );
	VC_ENSURE( r[0].begin( ) == p and r[0].end( ) == p + n / 3 and r[1].begin( ) == r[0].end( ) and r[1].end( ) == p + n / 3 * 2 and r[2].begin( ) == r[1].end( ) and r[2].end( ) == p + n, "adjacent parts that make up the range" );
}

// ---- containers
CONTRACT( container_copy ) {
	two const t;
	daw::container::copy( daw::span<int const>( t.p, t.n ), t.q );
	VC_ENSURE( t.wrote( id ), "copies" );
}
CONTRACT( container_copy_n ) {
	two t;
	auto const c = vc::size( "c" );
	auto const k = c < t.n ? c : t.n;
	daw::container::copy_n( daw::span<int const>( t.p, t.n ), c, t.q );
	VC_ENSURE( t.now( ) == ( t.j < k ? t.from : t.was ), "copies at most the elements there are" );
}
CONTRACT( container_transform ) {
	two const t;
	auto *e = t.q;
	if( vc::any<bool>( "lvalue" ) ) {
		auto *out = t.q;
		e = daw::container::transform( daw::span<int const>( t.p, t.n ), out, flip );
	} else {
		e = daw::container::transform( daw::span<int const>( t.p, t.n ), t.q + 0, flip );
	}
	VC_ENSURE( e == t.q + t.n, "the end of the output" );
	VC_ENSURE( t.wrote( flip ), "transforms" );
}
CONTRACT( container_transform_self ) {
	part const t;
	auto s = daw::span<int>( t.first( ), t.hi - t.lo );
	daw::container::transform( s, flip );
	VC_ENSURE( t.now( ) == ( t.inside ? flip( t.was ) : t.was ), "transforms in place" );
}
CONTRACT( for_each_with_pos ) {
	two const t;
	auto const lo = vc::range( "lo", 0, t.n );
	auto const hi = vc::range( "hi", 0, t.n );
	auto const s = daw::span<int const>( t.p, t.n );
	vc::assume( lo <= hi );
	bool const visited = t.j >= lo and t.j < hi;
	daw::container::for_each_with_pos( s, lo, hi, [q = t.q]( int x, std::size_t k ) { q[k] = x ^ 5; } );
	VC_ENSURE( t.now( ) == ( visited ? t.from ^ 5 : t.was ), "each element of the positions with its position" );
}
CONTRACT( for_each_with_pos_all ) {
	two const t;
	auto const s = daw::span<int const>( t.p, t.n );
	daw::container::for_each_with_pos( s, [q = t.q]( int x, std::size_t k ) { q[k] = x ^ 5; } );
	VC_ENSURE( t.wrote( []( int x ) { return x ^ 5; } ), "each element with its position" );
}
CONTRACT( for_each_subset ) {
	two const t;
	auto const lo = vc::range( "lo", 0, t.n );
	auto const hi = vc::range( "hi", 0, t.n );
	auto const s = daw::span<int const>( t.p, t.n );
	vc::assume( lo <= hi );
	bool const visited = t.j >= lo and t.j < hi;
	daw::container::for_each_subset( s, lo, hi, [q = t.q]( daw::span<int const> const &c, std::size_t k ) { q[k] = c[k] ^ 5; } );
	VC_ENSURE( t.now( ) == ( visited ? t.from ^ 5 : t.was ), "each position once" );
}
CONTRACT( container_sort ) {
	vc_unroll( 6 );
	auto const n = vc::range( "n", 0, 3 );
	auto *const p = vc::array<int>( 3, "p" );
	int const old[3] = { p[0], p[1], p[2] };
	auto s = daw::span<int>( p, n );
	bool const down = vc::any<bool>( "down" );
	if( down ) {
		daw::container::sort( s, []( int a, int b ) { return a > b; } );
	} else {
		daw::container::sort( s );
	}
	for( std::size_t i = 0; i < 3; ++i ) {
		VC_ENSURE( i + 1 >= n or ( down ? p[i] >= p[i + 1] : p[i] <= p[i + 1] ), "ordered" );
		auto same = [&]( int const *a ) { return ( a[0] == old[i] ) + ( a[1] == old[i] ) + ( a[2] == old[i] ); };
		VC_ENSURE( same( p ) == same( old ), "the same elements" );
	}
	VC_ENSURE( n > 2 or p[2] == old[2], "only the range" );
}
CONTRACT( container_erase_remove ) {
	auto const cap = vc::range( "cap", 1, std::size_t{ 1 } << 32U );
	auto const n = vc::range( "n", 0, cap );
	auto const x = vc::any<int>( "x" );
	auto const k = vc::any<std::size_t>( "k" );
	vc_opt( "prune", 1 );
	box b;
	auto &v = make( b, n, cap );
	auto const *const p = v.data( );
	auto four = [&]( std::uint64_t trips, std::uint64_t i ) { return trips <= n / 4 and i == ( n / 4 - trips ) * 4; };
	vc::hint( four );
	auto none = [&]( std::uint64_t o ) { return k >= o or p[k] != x; };
	vc::hint( none );
	daw::container::erase_remove( v, x );
	VC_ENSURE( v.size( ) <= n and v.capacity( ) == cap, "not larger" );
	VC_ENSURE( k >= v.size( ) or v[k] != x, "none is left" );
}
CONTRACT( container_erase_remove_few ) {
	vc_unroll( 6 );
	auto const n = vc::range( "n", 0, 3 );
	auto const x = vc::any<int>( "x" );
	vc_opt( "prune", 1 );
	box b;
	auto &v = make_few<3>( b, n );
	int keep[3] = { };
	std::size_t m = 0;
	for( std::size_t i = 0; i < 3; ++i ) {
		if( i < n and v[i] != x ) {
			keep[m++] = v[i];
		}
	}
	if( vc::any<bool>( "pred" ) ) {
		daw::container::erase_remove_if( v, [x]( int y ) { return y == x; } );
	} else {
		daw::container::erase_remove( v, x );
	}
	VC_ENSURE( v.size( ) == m and ( m < 1 or v[0] == keep[0] ) and ( m < 2 or v[1] == keep[1] ) and ( m < 3 or v[2] == keep[2] ), "the others stay, in order" );
}
template<bool Stable>
static void partition_of( ) {
	vc_unroll( 8 );
	vc_opt( "prune", 1 );
	three t;
	auto *const p = t.p;
	auto s = daw::span<int>( p, 3 );
	auto f = []( int y ) { return y > 0; };
	auto *const e = [&] {
		if constexpr( Stable ) {
			return daw::container::stable_partition( s, f );
		} else {
			return daw::container::partition( s, f );
		}
	}( );
	VC_ENSURE( e >= p and e <= p + 3, "a position of the range" );
	for( std::size_t i = 0; i < 3; ++i ) {
		VC_ENSURE( f( p[i] ) == ( p + i < e ), "the ones that satisfy come first" );
	}
	VC_ENSURE( t.permuted( ), "the same elements" );
}
CONTRACT( container_partition ) {
	partition_of<false>( );
}
CONTRACT( container_stable_partition ) {
	partition_of<true>( );
}
CONTRACT( container_append ) {
	auto const cap = vc::range( "cap", 1, std::size_t{ 1 } << 32U );
	auto const n = vc::range( "n", 0, cap );
	auto const m = vc::range( "m", 0, cap );
	vc::assume( n + m <= cap );
	vc_opt( "prune", 1 );
	auto const j = vc::index( "j", n + m );
	auto const *const src = vc::array<int>( m, "source" );
	box b;
	auto &v = make( b, n, cap );
	auto const old = j < n ? v[j] : src[j - n];
	daw::container::append( daw::span<int const>( src, m ), v );
	VC_ENSURE( v.size( ) == n + m and v[j] == old, "appended" );
}
