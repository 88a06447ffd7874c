// Spans and contiguous views.
#include "vc.h"
#include <daw/daw_contiguous_view.h>
#include <daw/daw_span.h>
#include <stdexcept>

using E = int;
template<typename V, typename P>
bool is_window( V const &v, P p, std::size_t n ) {
	return v.data( ) == p and v.size( ) == n and v.size_bytes( ) == n * sizeof( E );
}
template<typename V, typename P>
bool is_view( V const &v, P p, std::size_t n ) {
	return v.data( ) == p and v.data_end( ) == p + n and v.size( ) == n;
}
template<typename F>
bool throws_range( F f ) {
	try {
		f( );
	} catch( std::out_of_range const & ) { return true; }
	return false;
}
template<typename T>
struct buf {
	E *p;
	std::size_t n;
	daw::span<T> s;
};
template<typename T>
buf<T> any_span( ) {
	auto const n = vc::size( "n" );
	auto p = vc::array<E>( n, "elements" );
	return { p, n, daw::span<T>( p, n ) };
}
template<typename T>
void construction( ) {
	auto b = any_span<T>( );
	VC_ENSURE( is_window( b.s, b.p, b.n ), "pointer and count" );
	T *first = b.p;
	T *last = b.p + b.n;
	VC_ENSURE( is_window( daw::span<T>( first, last ), b.p, b.n ), "two pointers" );
	VC_ENSURE( daw::span<T>( last, first ).size( ) == 0, "reversed pointers give an empty span" );
	VC_ENSURE( is_window( b.s.copy( ), b.p, b.n ), "copy" );
	VC_ENSURE( b.s.empty( ) == ( b.n == 0 ), "empty" );
	daw::span<T> e{ };
	VC_ENSURE( e.empty( ) and e.size( ) == 0 and e.data( ) == nullptr and e.begin( ) == e.end( ), "default" );
	VC_ENSURE( daw::span<T>( nullptr, b.n ).size( ) == 0, "null pointer" );
	E arr[5] = { };
	VC_ENSURE( is_window( daw::span<T>( arr ), arr, 5 ), "array" );
	daw::span<T> c = b.s;
	VC_ENSURE( is_window( c, b.p, b.n ), "copy construction" );
	e = b.s;
	VC_ENSURE( is_window( e, b.p, b.n ), "assignment" );
}
CONTRACT( span_construction ) {
	construction<E>( );
}
CONTRACT( const_span_construction ) {
	construction<E const>( );
}
CONTRACT( span_to_const ) {
	auto b = any_span<E>( );
	daw::span<E const> c = b.s;
	VC_ENSURE( is_window( c, b.p, b.n ), "conversion to a span of constants" );
	VC_ENSURE( is_window( daw::span<E const>( static_cast<daw::span<E> const &>( b.s ).data( ), b.n ), b.p, b.n ), "const data" );
}
template<typename T, typename S>
void access( buf<T> &b, S &s ) {
	auto i = vc::index( "i", b.n );
	VC_ENSURE( &s[i] == b.p + i, "operator[]" );
	VC_ENSURE( &s.at( i ) == b.p + i, "at" );
	VC_ENSURE( &s.front( ) == b.p, "front" );
	VC_ENSURE( &s.back( ) == b.p + ( b.n - 1 ), "back" );
	VC_ENSURE( &*( s.begin( ) + static_cast<std::ptrdiff_t>( i ) ) == b.p + i, "begin" );
	VC_ENSURE( &*( s.cbegin( ) + static_cast<std::ptrdiff_t>( i ) ) == b.p + i, "cbegin" );
	VC_ENSURE( s.end( ) == b.p + b.n and s.cend( ) == b.p + b.n, "end" );
	VC_ENSURE( &*( s.rbegin( ) + static_cast<std::ptrdiff_t>( i ) ) == b.p + ( b.n - 1 - i ), "rbegin" );
	VC_ENSURE( &*( s.crbegin( ) + static_cast<std::ptrdiff_t>( i ) ) == b.p + ( b.n - 1 - i ), "crbegin" );
	VC_ENSURE( s.rend( ) - s.rbegin( ) == static_cast<std::ptrdiff_t>( b.n ), "reverse range covers n elements" );
	VC_ENSURE( s.crend( ) - s.crbegin( ) == static_cast<std::ptrdiff_t>( b.n ), "constant reverse range covers n elements" );
	VC_ENSURE( s.rend( ).base( ) == b.p and s.crend( ).base( ) == b.p, "rend" );
}
CONTRACT( span_access ) {
	auto b = any_span<E>( );
	access( b, b.s );
}
CONTRACT( span_access_const ) {
	auto b = any_span<E>( );
	access( b, static_cast<daw::span<E> const &>( b.s ) );
}
CONTRACT( const_span_access ) {
	auto b = any_span<E const>( );
	access( b, b.s );
}
template<typename T, typename S>
void checked( buf<T> &b, S &s ) {
	auto i = vc::any<std::size_t>( "i" );
	bool thrown = throws_range( [&] { (void)s.at( i ); } );
	VC_ENSURE( thrown == ( i >= b.n ), "at throws exactly for an index out of range" );
}
CONTRACT( span_checked ) {
	auto b = any_span<E>( );
	checked( b, b.s );
	checked( b, static_cast<daw::span<E> const &>( b.s ) );
}
CONTRACT( const_span_checked ) {
	auto b = any_span<E const>( );
	checked( b, b.s );
}
template<typename T>
void removal( ) {
	auto b = any_span<T>( );
	auto k = vc::size( "k" );
	vc::assume( k <= b.n );
	daw::span<T> a = b.s, c = b.s;
	a.remove_prefix( k );
	VC_ENSURE( is_window( a, b.p + k, b.n - k ), "remove_prefix( n )" );
	c.remove_suffix( k );
	VC_ENSURE( is_window( c, b.p, b.n - k ), "remove_suffix( n )" );
	if( b.n > 0 ) {
		daw::span<T> d = b.s, e = b.s;
		d.remove_prefix( );
		VC_ENSURE( is_window( d, b.p + 1, b.n - 1 ), "remove_prefix( )" );
		e.remove_suffix( );
		VC_ENSURE( is_window( e, b.p, b.n - 1 ), "remove_suffix( )" );
	}
}
CONTRACT( span_removal ) {
	removal<E>( );
}
CONTRACT( const_span_removal ) {
	removal<E const>( );
}
template<typename T>
void popping_n( ) {
	auto b = any_span<T>( );
	auto k = vc::size( "k" );
	vc::assume( k <= b.n );
	daw::span<T> a = b.s, c = b.s;
	auto r = a.pop_front( k );
	VC_ENSURE( is_window( r, b.p, k ) and is_window( a, b.p + k, b.n - k ), "pop_front( n )" );
	auto q = c.pop_back( k );
	VC_ENSURE( is_window( q, b.p + ( b.n - k ), k ) and is_window( c, b.p, b.n - k ), "pop_back( n )" );
}
CONTRACT( span_popping_n ) {
	popping_n<E>( );
}
CONTRACT( const_span_popping_n ) {
	popping_n<E const>( );
}
template<typename T>
void popping( ) {
	auto b = any_span<T>( );
	vc::assume( b.n > 0 );
	daw::span<T> a = b.s, c = b.s;
	auto const f = b.p[0];
	auto const l = b.p[b.n - 1];
	VC_ENSURE( a.pop_front( ) == f, "pop_front returns the first element" );
	VC_ENSURE( is_window( a, b.p + 1, b.n - 1 ), "pop_front" );
	VC_ENSURE( c.pop_back( ) == l, "pop_back returns the last element" );
	VC_ENSURE( is_window( c, b.p, b.n - 1 ), "pop_back" );
}
CONTRACT( span_popping ) {
	popping<E>( );
}
CONTRACT( const_span_popping ) {
	popping<E const>( );
}
CONTRACT( span_pop_into ) {
	auto b = any_span<E>( );
	auto x = vc::any<E>( "x" );
	auto y = x;
	bool r = b.s.pop( y );
	VC_ENSURE( r == ( b.n > 0 ), "pop succeeds exactly on a non-empty span" );
	if( b.n > 0 ) {
		VC_ENSURE( y == b.p[b.n - 1] and is_window( b.s, b.p, b.n - 1 ), "pop takes the last element" );
	} else {
		VC_ENSURE( y == x and b.s.empty( ), "pop of an empty span changes nothing" );
	}
}
template<typename T>
void sub( ) {
	auto b = any_span<T>( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto count = vc::any<std::size_t>( "count" );
	if( pos > b.n ) {
		VC_ENSURE( throws_range( [&] { (void)b.s.subspan( pos, count ); } ), "subspan rejects a position behind the end" );
		VC_ENSURE( throws_range( [&] { (void)b.s.subspan( pos ); } ), "subspan rejects a position behind the end" );
		return;
	}
	auto const len = count < b.n - pos ? count : b.n - pos;
	VC_ENSURE( is_window( b.s.subspan( pos, count ), b.p + pos, len ), "subspan( pos, count )" );
	VC_ENSURE( is_window( b.s.subspan( pos ), b.p + pos, b.n - pos ), "subspan( pos )" );
	VC_ENSURE( is_window( b.s.subspan( ), b.p, b.n ), "subspan( )" );
}
CONTRACT( span_sub ) {
	sub<E>( );
}
CONTRACT( const_span_sub ) {
	sub<E const>( );
}
// writing through the span changes exactly that element
CONTRACT( span_write ) {
	auto b = any_span<E>( );
	auto i = vc::index( "i", b.n );
	auto j = vc::index( "j", b.n );
	auto how = vc::any<unsigned char>( "how" );
	auto x = vc::any<E>( "x" );
	auto const old = b.p[j];
	switch( how % 5 ) {
	case 0: b.s[i] = x; break;
	case 1: b.s.at( i ) = x; break;
	case 2: b.s.begin( )[i] = x; break;
	case 3: b.s.rbegin( )[static_cast<std::ptrdiff_t>( b.n - 1 - i )] = x; break;
	default:
		if( i == 0 ) b.s.front( ) = x;
		else b.s.subspan( i ).front( ) = x;
	}
	VC_ENSURE( b.p[j] == ( j == i ? x : old ), "writing changes exactly the addressed element" );
	VC_ENSURE( is_window( b.s, b.p, b.n ), "writing does not move the span" );
}
// visiting a span in order
CONTRACT( span_iterate ) {
	auto b = any_span<E>( );
	std::size_t k = 0;
	for( E &e : b.s ) {
		VC_ENSURE( &e == b.p + k, "iteration visits the elements in order" );
		++k;
	}
	VC_ENSURE( k == b.n, "iteration visits every element" );
}
CONTRACT( const_span_iterate_reverse ) {
	auto b = any_span<E const>( );
	std::size_t k = b.n;
	for( auto it = b.s.rbegin( ); it != b.s.rend( ); ++it ) {
		--k;
		VC_ENSURE( &*it == b.p + k, "reverse iteration visits the elements in reverse order" );
	}
	VC_ENSURE( k == 0, "reverse iteration visits every element" );
}

// ---------------------------------------------------------------- contiguous_view
template<typename T>
struct vbuf {
	E *p;
	std::size_t n;
	daw::contiguous_view<T> s;
};
template<typename T>
vbuf<T> any_cview( ) {
	auto const n = vc::size( "n" );
	auto p = vc::array<E>( n, "elements" );
	return { p, n, daw::contiguous_view<T>( p, n ) };
}
template<typename T>
void view_basics( ) {
	auto b = any_cview<T>( );
	auto &s = b.s;
	VC_ENSURE( is_view( s, b.p, b.n ) and s.empty( ) == ( b.n == 0 ), "pointer and count" );
	VC_ENSURE( is_view( daw::contiguous_view<T>( static_cast<T *>( b.p ), static_cast<T *>( b.p + b.n ) ), b.p, b.n ), "two pointers" );
	VC_ENSURE( s.end( ) - s.begin( ) == static_cast<std::ptrdiff_t>( b.n ) and s.cend( ) - s.cbegin( ) == static_cast<std::ptrdiff_t>( b.n ), "range" );
	VC_ENSURE( s.rend( ) - s.rbegin( ) == static_cast<std::ptrdiff_t>( b.n ) and s.crend( ) - s.crbegin( ) == static_cast<std::ptrdiff_t>( b.n ), "reverse range" );
	auto i = vc::any<std::size_t>( "i" );
	bool thrown = throws_range( [&] { (void)s.at( i ); } );
	VC_ENSURE( thrown == ( i >= b.n ), "at throws exactly for an index out of range" );
	if( i < b.n ) {
		VC_ENSURE( &s[i] == b.p + i and &s.at( i ) == b.p + i, "element access" );
		if constexpr( not std::is_const_v<T> ) {
			VC_ENSURE( &s.front( ) == b.p and &s.back( ) == b.p + ( b.n - 1 ), "front and back" );
		}
		VC_ENSURE( &s.begin( )[static_cast<std::ptrdiff_t>( i )] == b.p + i, "iteration" );
		VC_ENSURE( &s.rbegin( )[static_cast<std::ptrdiff_t>( i )] == b.p + ( b.n - 1 - i ), "reverse iteration" );
	}
}
CONTRACT( view_basic ) {
	view_basics<E>( );
}
CONTRACT( const_view_basic ) {
	view_basics<E const>( );
}
template<typename T>
void view_removal( ) {
	auto b = any_cview<T>( );
	auto k = vc::any<std::size_t>( "k" );
	auto const d = k < b.n ? k : b.n;
	auto const one = b.n > 0 ? 1U : 0U;
	daw::contiguous_view<T> a = b.s, c = b.s, e = b.s, f = b.s;
	a.remove_prefix( k );
	VC_ENSURE( is_view( a, b.p + d, b.n - d ), "remove_prefix( n ) drops min(n, size)" );
	c.remove_suffix( k );
	VC_ENSURE( is_view( c, b.p, b.n - d ), "remove_suffix( n ) drops min(n, size)" );
	e.remove_prefix( );
	VC_ENSURE( is_view( e, b.p + one, b.n - one ), "remove_prefix( )" );
	f.remove_suffix( );
	VC_ENSURE( is_view( f, b.p, b.n - one ), "remove_suffix( )" );
	if( k <= b.n ) {
		daw::contiguous_view<T> g = b.s, h = b.s;
		g.remove_prefix( k, daw::dont_clip_to_bounds );
		VC_ENSURE( is_view( g, b.p + k, b.n - k ), "remove_prefix( n, dont_clip_to_bounds )" );
		h.remove_suffix( k, daw::dont_clip_to_bounds );
		VC_ENSURE( is_view( h, b.p, b.n - k ), "remove_suffix( n, dont_clip_to_bounds )" );
	}
}
CONTRACT( view_removes ) {
	view_removal<E>( );
}
CONTRACT( const_view_removes ) {
	view_removal<E const>( );
}
template<typename T>
void view_pops( ) {
	auto b = any_cview<T>( );
	vc::assume( b.n > 0 );
	daw::contiguous_view<T> a = b.s, c = b.s;
	VC_ENSURE( a.pop_front( ) == b.p[0] and is_view( a, b.p + 1, b.n - 1 ), "pop_front" );
	VC_ENSURE( c.pop_back( ) == b.p[b.n - 1] and is_view( c, b.p, b.n - 1 ), "pop_back" );
}
CONTRACT( view_popping ) {
	view_pops<E>( );
}
CONTRACT( const_view_popping ) {
	view_pops<E const>( );
}
CONTRACT( const_view_sub ) {
	auto b = any_cview<E const>( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto count = vc::any<std::size_t>( "count" );
	auto const o = pos < b.n ? pos : b.n;
	auto const len = count < b.n - o ? count : b.n - o;
	VC_ENSURE( is_view( b.s.subspan( pos, count ), b.p + o, len ), "subspan( offset, count ) is clipped to the view" );
	VC_ENSURE( is_view( b.s.subspan( pos ), b.p + o, b.n - o ), "subspan( offset )" );
}
// q: first position with (or without) the needle
std::size_t first_pos( E const *p, std::size_t n, E x, bool eq ) {
	auto q = vc::size( "q" );
#ifdef VC_NATIVE
	q = 0;
	while( q < n and ( p[q] == x ) != eq ) ++q;
#endif
	vc::assume( q <= n and ( q == n or ( p[q] == x ) == eq ) );
	auto f = [&]( std::uint64_t j ) { return j >= q or ( p[j] == x ) != eq; };
	vc::forall( p, f );
	return q;
}
#define VIEW_FRONT( T, eq )                       \
	auto b = any_cview<T>( );                       \
	auto x = vc::any<E>( "needle" );                \
	auto const q = first_pos( b.p, b.n, x, eq );    \
	auto const q1 = q < b.n ? q + 1 : b.n;          \
	auto v = b.s;                                   \
	(void)q1;
template<typename T>
void view_find( ) {
	VIEW_FRONT( T, true )
	VC_ENSURE( v.find( x ) - v.begin( ) == static_cast<std::ptrdiff_t>( q ), "find" );
}
template<typename T>
void view_find_not( ) {
	VIEW_FRONT( T, false )
	VC_ENSURE( v.find_first_not_of( x ) - v.begin( ) == static_cast<std::ptrdiff_t>( q ), "find_first_not_of" );
}
CONTRACT( view_finds ) {
	view_find<E>( );
}
CONTRACT( const_view_finds ) {
	view_find<E const>( );
}
CONTRACT( view_finds_not ) {
	view_find_not<E>( );
}
CONTRACT( const_view_finds_not ) {
	view_find_not<E const>( );
}
CONTRACT( const_view_pop_until_discard ) {
	VIEW_FRONT( E const, true )
	auto r = v.pop_front_until( x, daw::discard );
	VC_ENSURE( is_view( r, b.p, q ), "pop_front_until( discard ) returns the front" );
	VC_ENSURE( is_view( v, b.p + q1, b.n - q1 ), "pop_front_until( discard )" );
}
#define VIEW_OP( name, eq, expr, a, what )               \
	template<typename T>                                   \
	void name( ) {                                         \
		VIEW_FRONT( T, eq )                                  \
		expr;                                                \
		VC_ENSURE( is_view( v, b.p + ( a ), b.n - ( a ) ), what ); \
	}                                                      \
	CONTRACT( view_##name ) {                              \
		name<E>( );                                          \
	}                                                      \
	CONTRACT( const_view_##name ) {                        \
		name<E const>( );                                    \
	}
VIEW_OP( remove_until, true, v.remove_prefix_until( x ), q, "remove_prefix_until" )
VIEW_OP( remove_until_discard, true, v.remove_prefix_until( x, daw::discard ), q1, "remove_prefix_until( discard )" )
VIEW_OP( remove_while, false, v.remove_prefix_while( x ), q, "remove_prefix_while" )
VIEW_OP( pop_until, true, auto r = v.pop_front_until( x ); VC_ENSURE( is_view( r, b.p, q ), "pop_front_until returns the front" ), q, "pop_front_until" )

VIEW_OP( pop_while, false, auto r = v.pop_front_while( x ); VC_ENSURE( is_view( r, b.p, q ), "pop_front_while returns the front" ), q, "pop_front_while" )
