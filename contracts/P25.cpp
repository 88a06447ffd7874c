// Lazy pipelines: composing stages yields, element by element, the sequence the
// composition defines, over a source of any length and contents.
#include "vc.h"
#include <cassert>
#include <daw/pipelines/chunk.h>
#include <daw/pipelines/drop.h>
#include <daw/pipelines/enumerate.h>
#include <daw/pipelines/filter.h>
#include <daw/pipelines/iota.h>
#include <daw/pipelines/map.h>
#include <daw/pipelines/pipeline.h>
#include <daw/pipelines/reverse.h>
#include <daw/pipelines/skip.h>
#include <daw/pipelines/slide.h>
#include <daw/pipelines/take.h>
#include <daw/pipelines/unique.h>
#include <daw/pipelines/zip.h>
#include <vector>

namespace dp = daw::pipelines;
using sz = std::size_t;
using diff = std::ptrdiff_t;
using src_t = dp::range_t<int const *>;

// a source of any length
struct source {
	sz n;
	int *a;
	source( char const *name = "a" )
	  : n( vc::size( "n" ) )
	  , a( vc::array<int>( n, name ) ) {}
	src_t r( ) const { return src_t{ a, a + n }; }
};
static unsigned f( int x ) { return static_cast<unsigned>( x ) * 3U + 1U; }

// ---------------------------------------------------------------- random access
// a view holds exactly `want` at every position of [0, count)
template<typename View, typename Want>
static void is( View const &v, sz count, Want want ) {
	auto const first = v.begin( );
	auto const last = v.end( );
	VC_ENSURE( static_cast<sz>( last - first ) == count, "length" );
	VC_ENSURE( ( first == last ) == ( count == 0 ), "empty" );
	sz const k = vc::any<sz>( "k" );
	vc::assume( k < count );
	auto it = first + static_cast<diff>( k );
	VC_ENSURE( want( k, *it ), "the element at a position" );
	VC_ENSURE( it != last, "not the end" );
	VC_ENSURE( static_cast<sz>( it - first ) == k, "distance" );
	auto x = it;
	++x;
	VC_ENSURE( ( x == last ) == ( k + 1 == count ), "the end is after the last element" );
	VC_ENSURE( static_cast<sz>( x - first ) == k + 1, "one step" );
	if( k + 1 < count ) {
		VC_ENSURE( want( k + 1, *x ), "the next element" );
	}
	--x;
	VC_ENSURE( x == it and want( k, *x ), "back" );
	auto y = last;
	--y;
	VC_ENSURE( want( count - 1, *y ), "the last element" );
	auto w = first;
	w += static_cast<diff>( k );
	VC_ENSURE( want( k, *w ), "+=" );
	w -= static_cast<diff>( k );
	VC_ENSURE( w == first, "-=" );
	auto z = it++;
	VC_ENSURE( want( k, *z ) and static_cast<sz>( it - first ) == k + 1, "it++" );
}
CONTRACT( map_is ) {
	source s;
	is( dp::pipeline( s.r( ), dp::Map( f ) ), s.n, [&]( sz k, unsigned v ) { return v == f( s.a[k] ); } );
}
struct twice {
	unsigned operator( )( int v ) const { return static_cast<unsigned>( v ) * 2U; }
};
struct plus1 {
	unsigned operator( )( unsigned v ) const { return v + 1U; }
};
CONTRACT( map_projection ) {
	source s;
	is( dp::pipeline( s.r( ), dp::Map( plus1{ }, twice{ } ) ), s.n, [&]( sz k, unsigned v ) { return v == static_cast<unsigned>( s.a[k] ) * 2U + 1U; } );
}
CONTRACT( map_of_map ) {
	source s;
	is( dp::pipeline( s.r( ), dp::Map( twice{ } ), dp::Map( plus1{ } ) ), s.n, [&]( sz k, unsigned v ) { return v == static_cast<unsigned>( s.a[k] ) * 2U + 1U; } );
}
CONTRACT( map_index ) {
	source s;
	auto v = dp::pipeline( s.r( ), dp::Map( f ) );
	sz const i = vc::range( "i", 0, s.n );
	sz const k = vc::range( "k", 0, s.n );
	vc::assume( i + k < s.n );
	VC_ENSURE( ( v.begin( ) + static_cast<diff>( i ) )[k] == f( s.a[i + k] ), "[]" );
	VC_ENSURE( ( v.begin( ) < v.begin( ) + static_cast<diff>( k ) ) == ( k > 0 ), "order" );
	VC_ENSURE( ( v.end( ) - static_cast<diff>( k + 1 ) )[0] == f( s.a[s.n - 1 - k] ), "- n" );
}
CONTRACT( take_is ) {
	source s;
	sz const n = vc::any<sz>( "count" );
	is( dp::pipeline( s.r( ), dp::Take( n ) ), n < s.n ? n : s.n, [&]( sz k, int const &v ) { return &v == s.a + k; } );
}
CONTRACT( skip_is ) {
	source s;
	sz const n = vc::any<sz>( "count" );
	sz const m = n < s.n ? n : s.n;
	is( dp::pipeline( s.r( ), dp::Skip( n ) ), s.n - m, [&]( sz k, int const &v ) { return &v == s.a + m + k; } );
}
CONTRACT( reverse_is ) {
	source s;
	is( dp::pipeline( s.r( ), dp::Reverse ), s.n, [&]( sz k, int const &v ) { return &v == s.a + ( s.n - 1 - k ); } );
}
CONTRACT( reverse_reverse_is ) {
	source s;
	is( dp::pipeline( s.r( ), dp::Reverse, dp::Reverse ), s.n, [&]( sz k, int const &v ) { return &v == s.a + k; } );
}
CONTRACT( skip_take ) {
	source s;
	sz const a = vc::any<sz>( "skipped" );
	sz const b = vc::any<sz>( "taken" );
	sz const m = a < s.n ? a : s.n;
	sz const c = b < s.n - m ? b : s.n - m;
	is( dp::pipeline( s.r( ), dp::Skip( a ), dp::Take( b ) ), c, [&]( sz k, int const &v ) { return &v == s.a + m + k; } );
}
CONTRACT( take_skip ) {
	source s;
	sz const a = vc::any<sz>( "skipped" );
	sz const b = vc::any<sz>( "taken" );
	sz const c = b < s.n ? b : s.n;
	sz const m = a < c ? a : c;
	is( dp::pipeline( s.r( ), dp::Take( b ), dp::Skip( a ) ), c - m, [&]( sz k, int const &v ) { return &v == s.a + m + k; } );
}
CONTRACT( take_reverse ) {
	source s;
	sz const n = vc::any<sz>( "count" );
	sz const c = n < s.n ? n : s.n;
	is( dp::pipeline( s.r( ), dp::Take( n ), dp::Reverse ), c, [&]( sz k, int const &v ) { return &v == s.a + ( c - 1 - k ); } );
}
CONTRACT( reverse_take_map ) {
	source s;
	sz const n = vc::any<sz>( "count" );
	sz const c = n < s.n ? n : s.n;
	is( dp::pipeline( s.r( ), dp::Reverse, dp::Take( n ), dp::Map( f ) ), c, [&]( sz k, unsigned v ) { return v == f( s.a[s.n - 1 - k] ); } );
}
CONTRACT( iota_is ) {
	int const a = static_cast<int>( vc::srange( "first", -1000000000, 1000000000 ) );
	int const b = static_cast<int>( vc::srange( "last", -1000000000, 1000000000 ) );
	vc::assume( a <= b );
	is( dp::iota_view<int>{ a, b }, static_cast<sz>( b - a ), [&]( sz k, int v ) { return v == a + static_cast<int>( k ); } );
	dp::iota_iterator<int> it( a );
	VC_ENSURE( it[7] == a + 7, "[]" );
	VC_ENSURE( ( it < dp::iota_iterator<int>( b ) ) == ( a < b ) and ( it >= dp::iota_iterator<int>( b ) ) == ( a >= b ), "order" );
	VC_ENSURE( ( it <= dp::iota_iterator<int>( b ) ) == ( a <= b ) and ( it > dp::iota_iterator<int>( b ) ) == ( a > b ), "order" );
}
CONTRACT( iota_take_map ) {
	sz const n = vc::size( "n" );
	sz const c = vc::any<sz>( "count" );
	is( dp::pipeline( dp::iota_view<int>{ 0, static_cast<int>( n & 0xFFFFF ) }, dp::Take( c ), dp::Map( f ) ), c < ( n & 0xFFFFF ) ? c : ( n & 0xFFFFF ), [&]( sz k, unsigned v ) { return v == f( static_cast<int>( k ) ); } );
}
CONTRACT( enumerate_is ) {
	source s;
	is( dp::pipeline( s.r( ), dp::Enumerate ), s.n, [&]( sz k, auto const &p ) { return std::get<0>( p ) == k and &std::get<1>( p ) == s.a + k; } );
}
CONTRACT( enumerate_from_is ) {
	source s;
	sz const o = vc::range( "offset", 0, 1000000000 );
	is( dp::pipeline( s.r( ), dp::EnumerateFrom( o ) ), s.n, [&]( sz k, auto const &p ) { return std::get<0>( p ) == o + k and &std::get<1>( p ) == s.a + k; } );
}
CONTRACT( enumerate_take ) {
	source s;
	sz const c = vc::any<sz>( "count" );
	is( dp::pipeline( s.r( ), dp::Enumerate, dp::Take( c ) ), c < s.n ? c : s.n, [&]( sz k, auto const &p ) { return std::get<0>( p ) == k and &std::get<1>( p ) == s.a + k; } );
}
// zip of two ranges of any lengths: as long as the shorter one
CONTRACT( zip_is ) {
	source s;
	sz const m = vc::size( "m" );
	short *b = vc::array<short>( m, "b" );
	dp::range_t<short const *> r2{ b, b + m };
	auto v = dp::Zip( s.r( ), r2 );
	sz const c = s.n < m ? s.n : m;
	auto it = v.begin( );
	VC_ENSURE( ( it != v.end( ) ) == ( c > 0 ), "empty" );
	VC_ENSURE( v.end( ) - it == static_cast<diff>( c ), "distance" );
	sz const k = vc::any<sz>( "k" );
	vc::assume( k < c );
	it += static_cast<diff>( k );
	VC_ENSURE( it != v.end( ), "not the end" );
	VC_ENSURE( &std::get<0>( *it ) == s.a + k and &std::get<1>( *it ) == b + k, "both elements" );
	VC_ENSURE( &std::get<0>( v.begin( )[static_cast<diff>( k )] ) == s.a + k and &std::get<1>( v.begin( )[static_cast<diff>( k )] ) == b + k, "[]" );
	VC_ENSURE( it - v.begin( ) == static_cast<diff>( k ), "position" );
	auto old = it++;
	VC_ENSURE( &std::get<0>( *old ) == s.a + k and &std::get<1>( *old ) == b + k, "it++" );
	VC_ENSURE( ( it != v.end( ) ) == ( k + 1 < c ), "ends with the shorter" );
	--it;
	VC_ENSURE( &std::get<0>( *it ) == s.a + k and &std::get<1>( *it ) == b + k, "--" );
	VC_ENSURE( &std::get<1>( *( it - static_cast<diff>( k ) ) ) == b, "-" );
}
CONTRACT( zip_apply ) {
	source s;
	short *b = vc::array<short>( s.n, "b" );
	dp::range_t<short const *> r2{ b, b + s.n };
	is( dp::pipeline( dp::Zip( s.r( ), r2 ), dp::MapApply( []( int x, short y ) { return static_cast<unsigned>( x ) - static_cast<unsigned>( y ); } ) ), s.n,
	    [&]( sz k, unsigned v ) { return v == static_cast<unsigned>( s.a[k] ) - static_cast<unsigned>( b[k] ); } );
}
CONTRACT( clamp_is ) {
	source s;
	int const lo = vc::any<int>( "lo" );
	int const hi = vc::any<int>( "hi" );
	vc::assume( lo <= hi );
	is( dp::pipeline( s.r( ), dp::Clamp( int{ lo }, hi ) ), s.n, [&]( sz k, int v ) { return v == ( s.a[k] < lo ? lo : s.a[k] > hi ? hi : s.a[k] ); } );
}

// ---------------------------------------------------------------- selections
// a predicate that may answer anything for each element
static bool odd( int x ) { return ( x & 1 ) != 0; }

// the first position at or after `from` that is selected, n if none is
template<typename Sel>
static sz first_sel( source const &s, sz from, Sel sel ) {
	auto d = vc::size( "d" );
#ifdef VC_NATIVE
	d = from;
	while( d < s.n and not sel( d ) ) {
		++d;
	}
#endif
	vc::assume( d >= from and d <= s.n );
	vc::assume( d == s.n or sel( d ) );
	auto f = [&]( std::uint64_t k ) { return k < from or k >= d or not sel( k ); };
	vc::forall( s.a, f );
	return d;
}
static void at_selected( source const &s, dp::filter_view<int const *, bool ( * )( int )> const &v, sz d ) {
	VC_ENSURE( v.base( ) == s.a + d, "the next selected element" );
	VC_ENSURE( ( v == v.end( ) ) == ( d == s.n ) and ( v != v.end( ) ) == ( d != s.n ), "the end" );
	VC_ENSURE( v.good( ) == ( d != s.n ) and static_cast<bool>( v ) == ( d != s.n ), "good" );
	if( d < s.n ) {
		VC_ENSURE( &*v == s.a + d, "it is the element of the source" );
	}
}
CONTRACT( filter_first ) {
	source s;
	sz const d = first_sel( s, 0, [&]( sz i ) { return odd( s.a[i] ); } );
	dp::filter_view<int const *, bool ( * )( int )> v( s.a, s.a + s.n, odd );
	at_selected( s, v, d );
	VC_ENSURE( v.begin( ) == v, "begins there" );
}
CONTRACT( filter_pipeline ) {
	source s;
	sz const d = first_sel( s, 0, [&]( sz i ) { return odd( s.a[i] ); } );
	auto v = dp::pipeline( s.r( ), dp::Filter( odd ) );
	VC_ENSURE( v.begin( ).base( ) == s.a + d and v.end( ).base( ) == s.a + s.n, "from the first selected to the end" );
}
// from any element, a step goes to the next selected one
template<bool Post>
static void filter_next( ) {
	source s;
	vc::assume( s.n > 0 );
#ifdef VC_NATIVE
	s.a[0] |= 1;
#endif
	vc::assume( odd( s.a[0] ) );
	sz const d = first_sel( s, 1, [&]( sz j ) { return odd( s.a[j] ); } );
	dp::filter_view<int const *, bool ( * )( int )> v( s.a, s.a + s.n, odd );
	VC_ENSURE( v.base( ) == s.a, "starts at the first selected" );
	if constexpr( Post ) {
		auto old = v++;
		VC_ENSURE( old.base( ) == s.a, "the old position" );
	} else {
		++v;
	}
	at_selected( s, v, d );
}
CONTRACT( filter_step ) { filter_next<false>( ); }
CONTRACT( filter_step_post ) { filter_next<true>( ); }
CONTRACT( filter_of_map ) {
	source s;
	sz const d = first_sel( s, 0, [&]( sz i ) { return f( s.a[i] ) > 100; } );
	auto v = dp::pipeline( s.r( ), dp::Map( f ), dp::Filter( []( unsigned x ) { return x > 100; } ) );
	auto it = v.begin( );
	VC_ENSURE( it.base( ).base( ) == s.a + d, "the first whose mapped value is selected" );
	if( d < s.n ) {
		VC_ENSURE( *it == f( s.a[d] ), "the mapped element" );
	}
}
CONTRACT( drop_while ) {
	source s;
	sz const d = first_sel( s, 0, [&]( sz i ) { return not odd( s.a[i] ); } );
	auto v = dp::pipeline( s.r( ), dp::DropWhile( odd ) );
	VC_ENSURE( v.begin( ) == s.a + d and v.end( ) == s.a + s.n, "the suffix from the first that does not match" );
}
CONTRACT( drop_until ) {
	source s;
	sz const d = first_sel( s, 0, [&]( sz i ) { return odd( s.a[i] ); } );
	auto v = dp::pipeline( s.r( ), dp::DropUntil( odd ) );
	VC_ENSURE( v.begin( ) == s.a + d and v.end( ) == s.a + s.n, "the suffix from the first that matches" );
}
// stepping through TakeWhile and TakeUntil: element i follows element i - 1 as
// long as every one so far is taken, and then the end follows
template<bool Until>
static void take_some( ) {
	source s;
	auto const take = [&]( sz i ) { return odd( s.a[i] ) != Until; };
	vc_unroll( 5 );
	vc::assume( s.n <= 4 );
	auto go = [&]( auto v ) {
		sz i = 0;
		bool stopped = false;
		auto it = v.begin( );
		auto const last = v.end( );
		for( sz j = 0; j < s.n; ++j ) {
			stopped = stopped or not take( j );
			if( not stopped ) {
				VC_ENSURE( it != last and &*it == s.a + j, "the element is taken" );
				++it;
				++i;
			}
		}
		VC_ENSURE( not( it != last ), "nothing is taken after the first that is not" );
	};
	if constexpr( Until ) {
		go( dp::pipeline( s.r( ), dp::TakeUntil( odd ) ) );
	} else {
		go( dp::pipeline( s.r( ), dp::TakeWhile( odd ) ) );
	}
}
// bounded: sources of at most 4 elements
CONTRACT( take_while_4 ) { take_some<false>( ); }
// bounded: sources of at most 4 elements
CONTRACT( take_until_4 ) { take_some<true>( ); }
// the predicate itself: takes exactly until the first that does not match
CONTRACT( take_while_step ) {
	dp::pimpl::TakeWhile_t<bool ( * )( int )> t{ odd };
	t.m_trigger = vc::any<bool>( "stopped" );
	bool const before = t.m_trigger;
	int x = vc::any<int>( "x" );
	bool const r = t( x );
	VC_ENSURE( r == ( not before and odd( x ) ), "taken while every element so far matched" );
	VC_ENSURE( t.m_trigger == ( before or not odd( x ) ), "stops at the first that does not match" );
}
CONTRACT( take_until_step ) {
	dp::pimpl::TakeUntil_t<bool ( * )( int )> t{ odd };
	t.m_trigger = vc::any<bool>( "stopped" );
	bool const before = t.m_trigger;
	int x = vc::any<int>( "x" );
	bool const r = t( x );
	VC_ENSURE( r == ( not before and not odd( x ) ), "taken while no element so far matched" );
	VC_ENSURE( t.m_trigger == ( before or odd( x ) ), "stops at the first that matches" );
}
template<bool Post>
static void unique_next( ) {
	source s;
	vc::assume( s.n > 0 );
	sz const d = first_sel( s, 1, [&]( sz j ) { return s.a[j] != s.a[0]; } );
	dp::unique_view<int const *> v( s.a, s.a + s.n );
	VC_ENSURE( &*v.begin( ) == s.a and v != v.end( ) and v.good( ), "starts at the first" );
	if constexpr( Post ) {
		auto old = v++;
		VC_ENSURE( &*old == s.a, "the old position" );
	} else {
		++v;
	}
	VC_ENSURE( v == dp::unique_view<int const *>( s.a + d, s.a + s.n ), "the next that differs" );
	VC_ENSURE( ( v == v.end( ) ) == ( d == s.n ) and v.good( ) == ( d != s.n ), "the end" );
	if( d < s.n ) {
		VC_ENSURE( &*v == s.a + d, "the element" );
	}
}
CONTRACT( unique_step ) { unique_next<false>( ); }
CONTRACT( unique_step_post ) { unique_next<true>( ); }
CONTRACT( unique_pipeline ) {
	source s;
	auto r = s.r( );
	auto v = dp::pipeline( r, dp::Unique );
	VC_ENSURE( ( v.begin( ) != v.end( ) ) == ( s.n > 0 ), "empty" );
	if( s.n > 0 ) {
		VC_ENSURE( &*v.begin( ) == s.a, "starts at the first" );
	}
}

// ---------------------------------------------------------------- chunk, slide
template<sz C>
static void chunk_is( ) {
	source s;
	vc_unroll( C + 1 ); // a step is over at most C elements
	sz const i = vc::any<sz>( "i" );
	vc::assume( i <= s.n );
	src_t r{ s.a + i, s.a + s.n }; // what is left of the source after some chunks
	auto v = dp::pipeline( r, dp::Chunk( C ) );
	auto it = v.begin( );
	VC_ENSURE( ( it != v.end( ) ) == ( i < s.n ), "ends with the source" );
	vc::assume( i < s.n );
	auto c = *it;
	sz const k = s.n - i < C ? s.n - i : C;
	VC_ENSURE( c.begin( ) == s.a + i, "starts where the chunk before ended" );
	VC_ENSURE( c.end( ) == s.a + i + k, "C elements, or what is left" );
	++it;
	VC_ENSURE( ( it != v.end( ) ) == ( i + k < s.n ), "one more chunk exactly when elements are left" );
	if( i + k < s.n ) {
		VC_ENSURE( ( *it ).begin( ) == s.a + i + k, "continues where the chunk ended" );
		sz const k2 = s.n - i - k < C ? s.n - i - k : C;
		VC_ENSURE( ( *it ).end( ) == s.a + i + k + k2, "the next chunk" );
	}
}
CONTRACT( chunk_1 ) { chunk_is<1>( ); }
CONTRACT( chunk_2 ) { chunk_is<2>( ); }
CONTRACT( chunk_3 ) { chunk_is<3>( ); }
CONTRACT( chunk_5 ) { chunk_is<5>( ); }
template<sz C>
static void slide_is( ) {
	source s;
	vc_unroll( C + 1 );
	sz const i = vc::any<sz>( "i" );
	vc::assume( i <= s.n );
	src_t r{ s.a + i, s.a + s.n };
	auto v = dp::pipeline( r, dp::Slide( C ) );
	auto it = v.begin( );
	VC_ENSURE( ( it != v.end( ) ) == ( s.n - i >= C ), "only full windows" );
	vc::assume( s.n - i >= C );
	auto c = *it;
	VC_ENSURE( c.begin( ) == s.a + i and c.end( ) == s.a + i + C, "the window" );
	++it;
	VC_ENSURE( ( it != v.end( ) ) == ( s.n - i > C ), "the last window ends with the source" );
	if( s.n - i > C ) {
		VC_ENSURE( ( *it ).begin( ) == s.a + i + 1 and ( *it ).end( ) == s.a + i + 1 + C, "one further" );
	}
}
CONTRACT( slide_1 ) { slide_is<1>( ); }
CONTRACT( slide_2 ) { slide_is<2>( ); }
CONTRACT( slide_3 ) { slide_is<3>( ); }
CONTRACT( slide_5 ) { slide_is<5>( ); }
