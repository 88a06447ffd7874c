// String-view windows
#include "svh.h"
#include <string>

CONTRACT( ctor_ptr_count ) {
	auto n = vc::size( "n" );
	auto p = vc::array<char>( n, "text" );
	sv v( p, n );
	VC_ENSURE( is_window( v, p, n ), "view of pointer and count" );
	VC_ENSURE( not v.is_zero_terminated( ), "not marked terminated" );
	VC_ENSURE( v.length( ) == n and v.empty( ) == ( n == 0 ), "length and empty" );
	VC_ENSURE( v.begin( ) == p and v.end( ) == p + n and v.cbegin( ) == p and v.cend( ) == p + n and v.data_end( ) == p + n, "begin and end" );
	VC_ENSURE( v.rbegin( ).base( ) == p + n and v.rend( ).base( ) == p and v.crbegin( ).base( ) == p + n and v.crend( ).base( ) == p, "reverse begin and end" );
}
CONTRACT( ctor_terminated ) {
	auto n = vc::size( "n" );
	auto p = vc::zarray<char>( n, "text" );
	sv v( p, n, zterm );
	VC_ENSURE( is_window( v, p, n ), "view of pointer and count" );
	VC_ENSURE( static_cast<bool>( v.is_zero_terminated( ) ), "marked terminated" );
	VC_ENSURE( v.empty( ) == ( n == 0 ) and v.end( ) == p + n and v.length( ) == n, "size ignores the mark" );
	sv w( p, p + n, zterm );
	VC_ENSURE( is_window( w, p, n ) and static_cast<bool>( w.is_zero_terminated( ) ), "view of two pointers" );
	sv x( p, n );
	x.set_zero_terminated( );
	VC_ENSURE( is_window( x, p, n ) and static_cast<bool>( x.is_zero_terminated( ) ), "set_zero_terminated" );
	x.set_zero_terminated( );
	VC_ENSURE( is_window( x, p, n ) and static_cast<bool>( x.is_zero_terminated( ) ), "set_zero_terminated twice" );
}
CONTRACT( ctor_two_pointers ) {
	auto n = vc::size( "n" );
	auto p = vc::array<char>( n, "text" );
	sv v( p, p + n );
	VC_ENSURE( is_window( v, p, n ) and not v.is_zero_terminated( ), "view of two pointers" );
}
CONTRACT( ctor_empty ) {
	sv a;
	sv b( nullptr );
	sv c( nullptr, 0 );
	VC_ENSURE( a.data( ) == nullptr and a.size( ) == 0 and a.empty( ), "default view is empty" );
	VC_ENSURE( b.data( ) == nullptr and b.size( ) == 0 and b.empty( ), "null view is empty" );
	VC_ENSURE( c.data( ) == nullptr and c.size( ) == 0 and c.empty( ), "null view with count is empty" );
	VC_ENSURE( not a.is_zero_terminated( ) and not b.is_zero_terminated( ) and not c.is_zero_terminated( ), "no terminator" );
	VC_ENSURE( a.begin( ) == a.end( ) and a.remove_prefix( 3 ).data( ) == nullptr and a.remove_suffix( 3 ).size( ) == 0, "removing from an empty view" );
}
CONTRACT( ctor_c_string ) {
	// the terminator is the first zero
	auto n = vc::size( "n" );
	auto p = vc::zarray<char>( n, "text" );
	vc::each( p, n, []( char c ) { return c != 0; }, 'z' );
	sv v( static_cast<char const *>( p ) );
	VC_ENSURE( is_window( v, p, n ), "c string view" );
	VC_ENSURE( static_cast<bool>( v.is_zero_terminated( ) ), "c string is terminated" );
	sv w( static_cast<char const *>( nullptr ) );
	VC_ENSURE( w.data( ) == nullptr and w.size( ) == 0, "null c string" );
}
struct Range {
	char *p;
	std::size_t n;
	char const *data( ) const { return p; }
	std::size_t size( ) const { return n; }
};
struct ZRange {
	char *p;
	std::size_t n;
	char const *data( ) const { return p; }
	std::size_t size( ) const { return n; }
	char const *c_str( ) const { return p; }
};
CONTRACT( ctor_from_range ) {
	auto n = vc::size( "n" );
	auto p = vc::array<char>( n, "text" );
	auto k = vc::size( "k" );
	Range r{ p, n };
	sv v( r );
	VC_ENSURE( is_window( v, p, n ) and not v.is_zero_terminated( ), "view of a range" );
	sv w( r, k );
	VC_ENSURE( is_window( w, p, k < n ? k : n ) and not w.is_zero_terminated( ), "count is clipped to the range" );
	if( k <= n ) {
		sv x( r, k, daw::dont_clip_to_bounds );
		VC_ENSURE( is_window( x, p, k ) and not x.is_zero_terminated( ), "unclipped view" );
	}
}
CONTRACT( ctor_from_terminated_range ) {
	auto n = vc::size( "n" );
	auto p = vc::zarray<char>( n, "text" );
	auto k = vc::size( "k" );
	ZRange r{ p, n };
	sv v( r );
	VC_ENSURE( is_window( v, p, n ) and static_cast<bool>( v.is_zero_terminated( ) ), "view of a terminated range" );
	sv w( r, k );
	VC_ENSURE( is_window( w, p, k < n ? k : n ), "count is clipped to the range" );
	VC_ENSURE( not w.is_zero_terminated( ) or w.size( ) == n, "clipped view is not marked terminated" );
	if( k <= n ) {
		sv x( r, k, daw::dont_clip_to_bounds );
		VC_ENSURE( is_window( x, p, k ), "unclipped view" );
		VC_ENSURE( not x.is_zero_terminated( ) or x.size( ) == n, "shorter view is not marked terminated" );
	}
}
CONTRACT( ctor_literal ) {
	char a[6];
	vc_any_bytes( a, 6, "a" );
	sv v( static_cast<char const( & )[6]>( a ) );
	VC_ENSURE( is_window( v, a, a[5] == 0 ? 5 : 6 ), "view of a character array" );
	VC_ENSURE( static_cast<bool>( v.is_zero_terminated( ) ) == ( a[5] == 0 ), "terminated exactly when the array is" );
	sv w( static_cast<char const( & )[6]>( a ), daw::sv2::not_zero_terminated );
	VC_ENSURE( is_window( w, a, 6 ) and not w.is_zero_terminated( ), "whole array" );
}
CONTRACT( element_access ) {
	auto t = any_view( );
	auto i = vc::any<std::size_t>( "i" );
	bool thrown = throws_range( [&] { (void)t.v.at( i ); } );
	VC_ENSURE( thrown == ( i >= t.n ), "at throws exactly out of range" );
	if( i < t.n ) {
		VC_ENSURE( &t.v[i] == t.p + i, "operator[]" );
		VC_ENSURE( &t.v.at( i ) == t.p + i, "at" );
	}
	if( t.n > 0 ) {
		VC_ENSURE( &t.v.front( ) == t.p, "front" );
		VC_ENSURE( &t.v.back( ) == t.p + ( t.n - 1 ), "back" );
	}
}
CONTRACT( iterate ) {
	auto t = any_view( );
	std::size_t i = 0;
	for( auto it = t.v.begin( ); it != t.v.end( ); ++it ) {
		VC_ENSURE( it == t.p + i and *it == t.p[i], "forward order" );
		++i;
	}
	VC_ENSURE( i == t.n, "visits every character" );
}
CONTRACT( iterate_reverse ) {
	auto t = any_view( );
	std::size_t i = t.n;
	for( auto it = t.v.rbegin( ); it != t.v.rend( ); ++it ) {
		VC_ENSURE( i > 0, "within the view" );
		--i;
		VC_ENSURE( *it == t.p[i], "reverse order" );
	}
	VC_ENSURE( i == 0, "visits every character" );
}
CONTRACT( clear_reset ) {
	auto t = any_view( );
	auto a = t.v;
	auto b = t.v;
	a.clear( );
	b.reset( );
	VC_ENSURE( a.empty( ) and a.size( ) == 0 and zt_ok( t, a ), "clear" );
	VC_ENSURE( b.data( ) == nullptr and b.size( ) == 0 and not b.is_zero_terminated( ), "reset" );
}
CONTRACT( remove_prefix_n ) {
	auto t = any_view( );
	auto k = vc::any<std::size_t>( "k" );
	auto d = k < t.n ? k : t.n;
	auto v = t.v;
	VC_ENSURE( &v.remove_prefix( k ) == &v, "returns itself" );
	ENSURE_WINDOW( t, v, d, t.n - d, "remove_prefix drops min(n, size)" );
	VC_ENSURE( v.is_zero_terminated( ) == t.v.is_zero_terminated( ), "terminator is kept" );
}
CONTRACT( remove_prefix_1 ) {
	auto t = any_view( );
	auto d = t.n < 1 ? 0 : std::size_t{ 1 };
	auto v = t.v;
	v.remove_prefix( );
	ENSURE_WINDOW( t, v, d, t.n - d, "remove_prefix drops one" );
	if( t.n > 0 ) {
		auto w = t.v;
		w.remove_prefix_unsafe( );
		ENSURE_WINDOW( t, w, 1, t.n - 1, "remove_prefix_unsafe drops one" );
	}
}
CONTRACT( remove_prefix_unsafe_n ) {
	auto t = any_view( );
	auto k = vc::any<std::size_t>( "k" );
	auto v = t.v;
	bool thrown = throws_range( [&] { v.remove_prefix_unsafe( k ); } );
	VC_ENSURE( thrown == ( k > t.n ), "checked in debug builds" );
	if( thrown ) {
		ENSURE_WINDOW( t, v, 0, t.n, "unchanged" );
	} else {
		ENSURE_WINDOW( t, v, k, t.n - k, "remove_prefix_unsafe drops n" );
	}
}
CONTRACT( remove_suffix_n ) {
	auto t = any_view( );
	auto k = vc::any<std::size_t>( "k" );
	auto d = k < t.n ? k : t.n;
	auto v = t.v;
	VC_ENSURE( &v.remove_suffix( k ) == &v, "returns itself" );
	ENSURE_WINDOW( t, v, 0, t.n - d, "remove_suffix drops min(n, size)" );
}
CONTRACT( remove_suffix_1 ) {
	auto t = any_view( );
	auto d = t.n < 1 ? 0 : std::size_t{ 1 };
	auto v = t.v;
	v.remove_suffix( );
	ENSURE_WINDOW( t, v, 0, t.n - d, "remove_suffix drops one" );
	if( t.n > 0 ) {
		auto w = t.v;
		w.remove_suffix_unsafe( );
		ENSURE_WINDOW( t, w, 0, t.n - 1, "remove_suffix_unsafe drops one" );
	}
}
CONTRACT( remove_suffix_unsafe_n ) {
	auto t = any_view( );
	auto k = vc::any<std::size_t>( "k" );
	auto v = t.v;
	bool thrown = throws_range( [&] { v.remove_suffix_unsafe( k ); } );
	VC_ENSURE( thrown == ( k > t.n ), "checked in debug builds" );
	if( thrown ) {
		ENSURE_WINDOW( t, v, 0, t.n, "unchanged" );
	} else {
		ENSURE_WINDOW( t, v, 0, t.n - k, "remove_suffix_unsafe drops n" );
	}
}
CONTRACT( resize_view ) {
	auto t = any_view( );
	auto k = vc::any<std::size_t>( "k" );
	auto v = t.v;
	bool thrown = throws_range( [&] { v.resize( k ); } );
	VC_ENSURE( thrown == ( k > t.n ), "resize only shrinks" );
	ENSURE_WINDOW( t, v, 0, thrown ? t.n : k, "resize keeps the first characters" );
}
CONTRACT( pop_front_char ) {
	auto t = any_view( );
	auto v = t.v;
	char c = 0;
	bool thrown = throws_range( [&] { c = v.pop_front( ); } );
	VC_ENSURE( thrown == ( t.n == 0 ), "empty view is reported" );
	if( not thrown ) {
		VC_ENSURE( c == t.p[0], "first character" );
		ENSURE_WINDOW( t, v, 1, t.n - 1, "pop_front drops one" );
		auto w = t.v;
		VC_ENSURE( w.pop_front_unsafe( ) == t.p[0], "first character" );
		ENSURE_WINDOW( t, w, 1, t.n - 1, "pop_front_unsafe drops one" );
	}
}
CONTRACT( pop_back_char ) {
	auto t = any_view( );
	auto v = t.v;
	char c = 0;
	bool thrown = throws_range( [&] { c = v.pop_back( ); } );
	VC_ENSURE( thrown == ( t.n == 0 ), "empty view is reported" );
	if( not thrown ) {
		VC_ENSURE( c == t.p[t.n - 1], "last character" );
		ENSURE_WINDOW( t, v, 0, t.n - 1, "pop_back drops one" );
		auto w = t.v;
		VC_ENSURE( w.pop_back_unsafe( ) == t.p[t.n - 1], "last character" );
		ENSURE_WINDOW( t, w, 0, t.n - 1, "pop_back_unsafe drops one" );
	}
}
CONTRACT( pop_front_n ) {
	auto t = any_view( );
	auto k = vc::any<std::size_t>( "k" );
	auto d = k < t.n ? k : t.n;
	auto v = t.v;
	auto r = v.pop_front( k );
	ENSURE_WINDOW( t, r, 0, d, "popped prefix" );
	ENSURE_WINDOW( t, v, d, t.n - d, "rest" );
}
CONTRACT( pop_front_unsafe_n ) {
	auto t = any_view( );
	auto k = vc::any<std::size_t>( "k" );
	auto v = t.v;
	sv r;
	bool thrown = throws_range( [&] { r = v.pop_front_unsafe( k ); } );
	VC_ENSURE( thrown == ( k > t.n ), "checked in debug builds" );
	if( not thrown ) {
		ENSURE_WINDOW( t, r, 0, k, "popped prefix" );
		ENSURE_WINDOW( t, v, k, t.n - k, "rest" );
	}
}
CONTRACT( pop_back_n ) {
	auto t = any_view( );
	auto k = vc::any<std::size_t>( "k" );
	auto d = k < t.n ? k : t.n;
	auto v = t.v;
	auto r = v.pop_back( k );
	ENSURE_WINDOW( t, r, t.n - d, d, "popped suffix" );
	ENSURE_WINDOW( t, v, 0, t.n - d, "rest" );
}
CONTRACT( pop_back_unsafe_n ) {
	auto t = any_view( );
	auto k = vc::any<std::size_t>( "k" );
	auto v = t.v;
	sv r;
	bool thrown = throws_range( [&] { r = v.pop_back_unsafe( k ); } );
	VC_ENSURE( thrown == ( k > t.n ), "checked in debug builds" );
	if( not thrown ) {
		ENSURE_WINDOW( t, r, t.n - k, k, "popped suffix" );
		ENSURE_WINDOW( t, v, 0, t.n - k, "rest" );
	}
}
CONTRACT( substr_pos_count ) {
	auto t = any_view( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto k = vc::any<std::size_t>( "k" );
	sv r;
	bool thrown = throws_range( [&] { r = t.v.substr( pos, k ); } );
	VC_ENSURE( thrown == ( pos > t.n ), "position past the end is reported" );
	if( not thrown ) {
		auto rest = t.n - pos;
		ENSURE_WINDOW( t, r, pos, k < rest ? k : rest, "substr( pos, count )" );
	}
}
CONTRACT( substr_pos ) {
	auto t = any_view( );
	auto pos = vc::any<std::size_t>( "pos" );
	sv r;
	bool thrown = throws_range( [&] { r = t.v.substr( pos ); } );
	VC_ENSURE( thrown == ( pos > t.n ), "position past the end is reported" );
	if( not thrown ) {
		ENSURE_WINDOW( t, r, pos, t.n - pos, "substr( pos )" );
	}
}
CONTRACT( substr_all ) {
	auto t = any_view( );
	auto r = t.v.substr( );
	ENSURE_WINDOW( t, r, 0, t.n, "substr( )" );
}
CONTRACT( substr_unsafe_pos_count ) {
	auto t = any_view( );
	auto pos = vc::size( "pos" );
	auto k = vc::size( "k" );
	sv r;
	bool thrown = throws_range( [&] { r = t.v.substr_unsafe( pos, k ); } );
	VC_ENSURE( thrown == ( pos + k > t.n ), "checked in debug builds" );
	if( not thrown ) {
		ENSURE_WINDOW( t, r, pos, k, "substr_unsafe( pos, count )" );
	}
}
CONTRACT( substr_unsafe_pos ) {
	auto t = any_view( );
	auto pos = vc::any<std::size_t>( "pos" );
	sv r;
	bool thrown = throws_range( [&] { r = t.v.substr_unsafe( pos ); } );
	VC_ENSURE( thrown == ( pos > t.n ), "checked in debug builds" );
	if( not thrown ) {
		ENSURE_WINDOW( t, r, pos, t.n - pos, "substr_unsafe( pos )" );
	}
}
CONTRACT( copy_out ) {
	auto t = any_text( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto k = vc::any<std::size_t>( "k" );
	vc::assume( pos <= t.n );
	auto rest = t.n - pos;
	auto want = k < rest ? k : rest;
	auto m = vc::size( "m" );
	vc::assume( m >= want );
	auto dest = vc::array<char>( m, "dest" );
	auto j = vc::index( "j", m );
	auto old = dest[j];
	auto inv = [&]( std::uint64_t w ) { return dest[j] == ( j < w and j < want ? t.p[pos + j] : old ); };
	vc::hint( inv );
	auto r = t.v.copy( dest, k, pos );
	VC_ENSURE( r == want, "number of characters copied" );
	VC_ENSURE( dest[j] == ( j < want ? t.p[pos + j] : old ), "copied characters, nothing else written" );
}
CONTRACT( copy_out_range ) {
	auto t = any_view( );
	auto pos = vc::any<std::size_t>( "pos" );
	vc::assume( pos > t.n );
	char c[1];
	VC_ENSURE( throws_range( [&] { (void)t.v.copy( c, 1, pos ); } ), "position past the end is reported" );
}
CONTRACT( copy_out_start ) {
	auto t = any_text( );
	auto k = vc::any<std::size_t>( "k" );
	auto want = k < t.n ? k : t.n;
	auto dest = vc::array<char>( want, "dest" );
	auto j = vc::index( "j", want );
	auto inv = [&]( std::uint64_t w ) { return j >= w or dest[j] == t.p[j]; };
	vc::hint( inv );
	auto r = t.v.copy( dest, k );
	VC_ENSURE( r == want, "number of characters copied" );
	VC_ENSURE( dest[j] == t.p[j], "copied characters" );
}
CONTRACT( expand ) {
	auto t = any_view( );
	auto a = vc::size( "a" );
	auto b = vc::size( "b" );
	auto x = vc::size( "x" );
	auto y = vc::size( "y" );
	vc::assume( a <= b and b <= t.n and x <= a and y <= t.n - b );
	sv w( t.p + a, b - a );
	w.expand_prefix( x );
	ENSURE_WINDOW( t, w, a - x, b - a + x, "expand_prefix" );
	w.expand_suffix( y );
	ENSURE_WINDOW( t, w, a - x, b - a + x + y, "expand_suffix" );
	sv u( t.p + a, b - a );
	if( a > 0 and b < t.n ) {
		u.expand_prefix( );
		u.expand_suffix( );
		ENSURE_WINDOW( t, u, a - 1, b - a + 2, "expand by one" );
	}
}
CONTRACT( windows_compose ) {
	auto t = any_view( );
	auto v = t.v;
	auto a = vc::any<std::size_t>( "a" );
	auto b = vc::any<std::size_t>( "b" );
	v.remove_prefix( a );
	v.remove_suffix( b );
	auto da = a < t.n ? a : t.n;
	auto db = b < t.n - da ? b : t.n - da;
	ENSURE_WINDOW( t, v, da, t.n - da - db, "prefix then suffix" );
	auto u = t.v;
	u.remove_suffix( b );
	u.remove_prefix( a );
	auto eb = b < t.n ? b : t.n;
	auto ea = a < t.n - eb ? a : t.n - eb;
	ENSURE_WINDOW( t, u, ea, t.n - ea - eb, "suffix then prefix" );
}
CONTRACT( convert_to_range ) {
	auto t = any_view( );
	auto s = static_cast<std::string_view>( t.v );
	VC_ENSURE( s.data( ) == t.p and s.size( ) == t.n, "conversion keeps the window" );
}
CONTRACT( get_c_str_terminated ) {
	vc_opt( "prune", 1 );
	auto t = any_ztext( );
	vc::each( t.p, t.n, []( char c ) { return c != 0; }, 'z' );
	auto r = t.v.get_c_str( );
	VC_ENSURE( r.c_str( ) == t.p and r.data( ) == t.p and r.size( ) == t.n, "terminated text is not copied" );
}
// wide characters
CONTRACT( wide_windows ) {
	auto t = any_text<char16_t>( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto k = vc::any<std::size_t>( "k" );
	vc::assume( pos <= t.n );
	auto rest = t.n - pos;
	auto d = k < rest ? k : rest;
	auto r = t.v.substr( pos, k );
	ENSURE_WINDOW( t, r, pos, d, "substr" );
	auto f = t.v.substr( pos );
	auto g = f.pop_front( k );
	ENSURE_WINDOW( t, g, pos, d, "pop_front" );
	ENSURE_WINDOW( t, f, pos + d, rest - d, "rest" );
	auto i = vc::index( "i", t.n );
	VC_ENSURE( t.v[i] == t.p[i] and t.v.at( i ) == t.p[i], "element" );
}
