#pragma once
#include "vc.h"
#include <daw/daw_string_view.h>
#include <stdexcept>
#include <string_view>
using sv = daw::string_view;
constexpr std::size_t npos = sv::npos;
constexpr auto zterm = daw::sv2::zero_terminated;

// an arbitrary text: n characters starting at p, with or without a terminator
template<typename C = char>
struct text_t {
	C *p;
	std::size_t n;
	daw::sv2::basic_string_view<C> v;
};
// no terminator: any read at p[n] leaves the object
template<typename C = char>
inline text_t<C> any_text( char const *len = "n", char const *nm = "text" ) {
	auto const n = vc::size( len );
	auto p = vc::array<C>( n, nm );
	return { p, n, daw::sv2::basic_string_view<C>( p, n ) };
}
// marked as zero terminated
template<typename C = char>
inline text_t<C> any_ztext( char const *len = "n", char const *nm = "text" ) {
	auto const n = vc::size( len );
	auto p = vc::zarray<C>( n, nm );
	return { p, n, daw::sv2::basic_string_view<C>( p, n, zterm ) };
}
// either kind: the terminator is part of the object only when marked so
template<typename C = char>
inline text_t<C> any_view( ) {
	auto const n = vc::size( "n" );
	auto const z = vc::any<bool>( "zterm" );
	auto p = vc::array<C>( n + static_cast<std::size_t>( z ), "text" );
#ifdef VC_NATIVE
	if( z ) p[n] = 0;
#endif
	if( z ) vc::assume( p[n] == 0 );
	text_t<C> r{ p, n, daw::sv2::basic_string_view<C>( p, n ) };
	if( z ) r.v = daw::sv2::basic_string_view<C>( p, n, zterm );
	return r;
}
template<typename V, typename P>
inline bool is_window( V const &v, P const *p, std::size_t n ) {
	return v.data( ) == p and v.size( ) == n;
}
// the flag never claims a terminator that is not there: the end of the window
// must be the end of a text that was marked as terminated
template<typename T, typename V>
inline bool zt_ok( T const &t, V const &v ) {
	return not v.is_zero_terminated( ) or ( t.v.is_zero_terminated( ) and v.data( ) + v.size( ) == t.p + t.n );
}
#define ENSURE_WINDOW( t, v, off, len, what )               \
	VC_ENSURE( is_window( v, ( t ).p + ( off ), len ), what ); \
	VC_ENSURE( zt_ok( t, v ), what " (zero-termination mark)" )
template<typename F>
inline bool throws_range( F f ) {
	try {
		f( );
	} catch( std::out_of_range const & ) { return true; }
	return false;
}
