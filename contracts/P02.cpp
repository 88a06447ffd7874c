// String-view searches.  r is the position returned; i (and q) are arbitrary
// positions of the text, j an arbitrary position of the pattern.
#include "svh.h"
#include <daw/daw_algorithm.h>
#include <daw/daw_bitset.h>

using u8 = unsigned char;
constexpr bool in( std::size_t i, std::size_t lo, std::size_t hi ) {
	return lo <= i and i < hi;
}
// any set of characters that contains every character of the pattern
struct superset {
	u8 *s;
	bool operator( )( char c ) const {
		return s[static_cast<u8>( c )] != 0;
	}
};
template<typename T>
superset any_superset( T const &pat ) {
	superset r{ vc::array<u8>( 256, "superset" ) };
#ifdef VC_NATIVE
	for( std::size_t j = 0; j < 256; ++j ) r.s[j] = ( r.s[j] & 3U ) == 0;
	for( std::size_t j = 0; j < pat.n; ++j ) r.s[static_cast<u8>( pat.p[j] )] = 1;
#endif
	auto f = [&]( std::uint64_t j ) { return j >= pat.n or r( pat.p[j] ); };
	vc::forall( pat.p, f );
	return r;
}
// an arbitrary class of characters as predicate
struct any_class {
	u8 *s;
	bool operator( )( char c ) const {
		return s[static_cast<u8>( c )] != 0;
	}
};
inline any_class a_class( ) {
	any_class r{ vc::array<u8>( 256, "class" ) };
#ifdef VC_NATIVE
	for( std::size_t j = 0; j < 256; ++j ) r.s[j] &= 1U;
#endif
	return r;
}
// q is an occurrence of the pattern
template<typename T>
void occurrence( T const &t, std::size_t q, T const &s ) {
	vc::assume( s.n <= t.n and q <= t.n - s.n );
#ifdef VC_NATIVE
	for( std::size_t j = 0; j < s.n; ++j ) t.p[q + j] = s.p[j];
#endif
	auto f = [&]( std::uint64_t j ) { return j >= s.n or t.p[q + j] == s.p[j]; };
	vc::forall( s.p, f );
}
#ifdef VC_NATIVE
template<typename T, typename U>
void plant( T const &t, U const &s ) {
	// make matches likely
	auto k = vc::any<u8>( "plant" );
	if( t.n > 0 and s.n <= t.n and k % 2 )
		for( std::size_t j = 0; j < s.n; ++j ) t.p[( k / 2 ) % ( t.n - s.n + 1 ) + j] = s.p[j];
}
#else
template<typename T, typename U>
void plant( T const &, U const & ) {}
#endif

// a zero-terminated pattern
inline text_t<char> c_pattern( ) {
	auto s = any_ztext( "m", "pattern" );
	vc::each( s.p, s.n, []( char c ) { return c != 0; }, 'z' );
	return { s.p, s.n, sv( s.p, s.n ) };
}
//---- characters
CONTRACT( find_char ) {
	auto t = any_text( );
	auto c = vc::any<char>( "c" );
	auto pos = vc::size( "pos" );
	vc::assume( pos <= t.n );
	auto i = vc::size( "i" );
	auto r = t.v.find( c, pos );
	bool const here = in( i, pos, t.n ) and t.p[i] == c;
	if( r != npos ) {
		VC_ENSURE( in( r, pos, t.n ), "a position of the view from pos on" );
		VC_ENSURE( t.p[r] == c, "the character is there" );
		VC_ENSURE( not here or r <= i, "first" );
	} else {
		VC_ENSURE( not here, "npos only when absent" );
	}
	VC_ENSURE( t.v.contains( c, pos ) == ( r != npos ), "contains agrees" );
}
CONTRACT( find_char_default ) {
	auto t = any_text( );
	auto c = vc::any<char>( "c" );
	auto i = vc::size( "i" );
	auto r = t.v.find( c );
	bool const here = i < t.n and t.p[i] == c;
	VC_ENSURE( r == npos or ( r < t.n and t.p[r] == c ), "the character is there" );
	VC_ENSURE( not here or ( r != npos and r <= i ), "first" );
	VC_ENSURE( t.v.contains( c ) == ( r != npos ), "contains agrees" );
}
CONTRACT( find_char_wide ) {
	auto t = any_text<char16_t>( );
	auto c = vc::any<char16_t>( "c" );
	auto pos = vc::size( "pos" );
	vc::assume( pos <= t.n );
	auto i = vc::size( "i" );
	auto inv = [&]( std::uint64_t w ) { return not( in( i, pos, t.n ) and i - pos < w and t.p[i] == c ); };
	vc::hint( inv );
	auto r = t.v.find( c, pos );
	bool const here = in( i, pos, t.n ) and t.p[i] == c;
	if( r != npos ) {
		VC_ENSURE( in( r, pos, t.n ), "a position of the view from pos on" );
		VC_ENSURE( t.p[r] == c, "the character is there" );
		VC_ENSURE( not here or r <= i, "first" );
	} else {
		VC_ENSURE( not here, "npos only when absent" );
	}
}
CONTRACT( rfind_char ) {
	auto t = any_text( );
	auto c = vc::any<char>( "c" );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto inv = [&]( std::uint64_t w ) { return not( i < t.n and i <= pos and w < i and t.p[i] == c ); };
	vc::hint( inv );
	auto r = t.v.rfind( c, pos );
	bool const here = i < t.n and i <= pos and t.p[i] == c;
	if( r != npos ) {
		VC_ENSURE( r < t.n and r <= pos, "a position of the view up to pos" );
		VC_ENSURE( t.p[r] == c, "the character is there" );
		VC_ENSURE( not here or i <= r, "last" );
	} else {
		VC_ENSURE( not here, "npos only when absent" );
	}
}
//---- texts
template<typename C, typename F>
inline void check_found( F find, bool empty_found ) {
	auto t = any_text<C>( );
	auto s = any_text<C>( "m", "pattern" );
	plant( t, s );
	auto pos = vc::size( "pos" );
	auto j = vc::size( "j" );
	// a: position of the text, b: position of the pattern, moving together
	auto inv = [&]( std::uint64_t a, std::uint64_t b ) { return j >= s.n or j >= b or a < b or a - b >= t.n or j >= t.n - ( a - b ) or t.p[a - b + j] == s.p[j]; };
	vc::hint( inv );
	auto r = find( t.v, s.v, pos );
	if( r != npos ) {
		VC_ENSURE( pos <= r and r <= t.n and s.n <= t.n - r, "an occurrence inside the view from pos on" );
		VC_ENSURE( j >= s.n or t.p[r + j] == s.p[j], "every character matches" );
	}
	VC_ENSURE( pos <= t.n or r == npos, "position past the end finds nothing" );
	VC_ENSURE( s.n != 0 or pos > t.n or r == ( empty_found ? pos : npos ), "empty pattern" );
}
template<typename C, typename F>
inline void check_first( F find ) {
	auto t = any_text<C>( );
	auto s = any_text<C>( "m", "pattern" );
	auto pos = vc::size( "pos" );
	auto q = vc::size( "q" );
	vc::assume( pos <= q and s.n > 0 );
	occurrence( t, q, s );
	auto inv = [&]( std::uint64_t w ) { return w <= q; };
	vc::hint( inv );
	auto r = find( t.v, s.v, pos );
	VC_ENSURE( r != npos and r <= q, "no occurrence before the result, npos only when there is none" );
}
constexpr auto f_find = []( auto t, auto s, std::size_t pos ) { return t.find( s, pos ); };
constexpr auto f_find_ptr = []( auto t, auto s, std::size_t pos ) { return t.find( s.data( ), pos, s.size( ) ); };
constexpr auto f_match = []( auto t, auto s, std::size_t pos ) { return t.find_first_match( s, pos ); };
constexpr auto f_search = []( auto t, auto s, std::size_t pos ) { return t.search( s, pos ); };
CONTRACT( find_text ) {
	check_found<char>( f_find, true ); }
CONTRACT( find_text_first ) {
	check_first<char>( f_find ); }
CONTRACT( find_text_wide ) {
	check_found<char16_t>( f_find, true ); }
CONTRACT( find_text_wide_first ) {
	check_first<char16_t>( f_find ); }
CONTRACT( find_first_match_text ) {
	check_found<char>( f_match, true ); }
CONTRACT( find_first_match_text_first ) {
	check_first<char>( f_match ); }
CONTRACT( search_text ) {
	check_found<char>( f_search, false ); }
CONTRACT( search_text_first ) {
	check_first<char>( f_search ); }
CONTRACT( find_overloads ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	plant( t, s );
	auto pos = vc::size( "pos" );
	vc::assume( pos <= t.n );
	auto r0 = t.v.find( s.v );
	auto rp = t.v.find( s.v, pos );
	VC_ENSURE( t.v.find( static_cast<char const *>( s.p ), pos, s.n ) == rp, "pointer and count" );
	VC_ENSURE( t.v.contains( s.v ) == ( r0 != npos ), "contains" );
	VC_ENSURE( t.v.contains( static_cast<char const *>( s.p ), pos, s.n ) == ( rp != npos ), "contains from pos" );
	VC_ENSURE( t.v.find_first_match( s.v, pos ) == rp, "find_first_match" );
	VC_ENSURE( s.n == 0 or t.v.search( s.v, pos ) == rp, "search" );
}
CONTRACT( find_z ) {
	auto t = any_text( );
	auto s = c_pattern( );
	plant( t, s );
	auto pos = vc::size( "pos" );
	vc::assume( pos <= t.n );
	char const *z = s.p;
	VC_ENSURE( t.v.find( z, pos ) == t.v.find( s.v, pos ), "terminated pattern" );
}
CONTRACT( contains_z_pos ) {
	auto t = any_text( );
	auto s = c_pattern( );
	plant( t, s );
	auto pos = vc::size( "pos" );
	vc::assume( pos <= t.n );
	char const *z = s.p;
	VC_ENSURE( t.v.contains( z, pos ) == ( t.v.find( s.v, pos ) != npos ), "terminated pattern" );
}
CONTRACT( contains_z ) {
	auto t = any_text( );
	auto s = c_pattern( );
	plant( t, s );
	auto pos = vc::size( "pos" );
	vc::assume( pos <= t.n );
	char const *z = s.p;
	VC_ENSURE( t.v.contains( z ) == ( t.v.find( s.v ) != npos ), "terminated pattern" );
}
CONTRACT( search_z ) {
	auto t = any_text( );
	auto s = c_pattern( );
	plant( t, s );
	auto pos = vc::size( "pos" );
	vc::assume( pos <= t.n );
	char const *z = s.p;
	VC_ENSURE( t.v.search( z, pos ) == t.v.search( s.v, pos ), "terminated pattern" );
}
template<typename F>
inline void check_rfound( text_t<char> s, F rfind ) {
	auto t = any_text( );
	plant( t, s );
	auto pos = vc::any<std::size_t>( "pos" );
	auto j = vc::size( "j" );
	auto inv = [&]( std::uint64_t a, std::uint64_t b ) { return a > t.n or s.n > t.n - a or j >= s.n or j >= b or t.p[a + j] == s.p[j]; };
	vc::hint( inv );
	auto r = rfind( t.v, s, pos );
	if( r != npos ) {
		VC_ENSURE( r <= pos and r <= t.n and s.n <= t.n - r, "an occurrence inside the view starting at most at pos" );
		VC_ENSURE( j >= s.n or t.p[r + j] == s.p[j], "every character matches" );
	}
	VC_ENSURE( s.n != 0 or r == ( pos < t.n ? pos : t.n ), "empty pattern" );
}
template<typename F>
inline void check_rfirst( text_t<char> s, F rfind ) {
	auto t = any_text( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto q = vc::size( "q" );
	vc::assume( q <= pos );
	occurrence( t, q, s );
	auto inv = [&]( std::uint64_t w ) { return w >= q; };
	vc::hint( inv );
	auto r = rfind( t.v, s, pos );
	VC_ENSURE( r != npos and r >= q, "no occurrence after the result, npos only when there is none" );
}
constexpr auto f_rfind = []( sv t, text_t<char> const &s, std::size_t pos ) { return t.rfind( s.v, pos ); };
constexpr auto f_rfind_ptr = []( sv t, text_t<char> const &s, std::size_t pos ) { return t.rfind( static_cast<char const *>( s.p ), pos, s.n ); };
constexpr auto f_rfind_z = []( sv t, text_t<char> const &s, std::size_t pos ) { return t.rfind( static_cast<char const *>( s.p ), pos ); };
CONTRACT( rfind_text ) {
	check_rfound( any_text( "m", "pattern" ), f_rfind );
}
CONTRACT( rfind_text_last ) {
	check_rfirst( any_text( "m", "pattern" ), f_rfind );
}
CONTRACT( rfind_ptr ) {
	check_rfound( any_text( "m", "pattern" ), f_rfind_ptr );
}
CONTRACT( rfind_ptr_last ) {
	check_rfirst( any_text( "m", "pattern" ), f_rfind_ptr );
}
CONTRACT( rfind_terminated ) {
	check_rfound( c_pattern( ), f_rfind_z );
}
CONTRACT( rfind_terminated_last ) {
	check_rfirst( c_pattern( ), f_rfind_z );
}
CONTRACT( search_last_text ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	plant( t, s );
	auto pos = vc::size( "pos" );
	auto j = vc::size( "j" );
	auto inv = [&]( std::uint64_t a ) { return a > t.n or s.n > t.n - a or j >= s.n or t.p[a + j] == s.p[j]; };
	auto inv2 = [&]( std::uint64_t a ) { return a == npos or ( a >= pos and a <= t.n and s.n <= t.n - a ); };
	vc::manual( );
	vc::hint( inv );
	vc::hint( inv2 );
	auto r = t.v.search_last( s.v, pos );
	if( r != npos ) {
		VC_ENSURE( pos <= r and r <= t.n and s.n <= t.n - r, "an occurrence inside the view from pos on" );
		VC_ENSURE( j >= s.n or t.p[r + j] == s.p[j], "every character matches" );
	}
}
CONTRACT( search_last_text_last ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	auto pos = vc::size( "pos" );
	auto q = vc::size( "q" );
	vc::assume( pos <= q and s.n > 0 );
	occurrence( t, q, s );
	// either q is still ahead or a later (or this) one has been recorded
	auto inv = [&]( std::uint64_t last, std::uint64_t f ) { return ( f != npos and f <= q ) or ( last != npos and last >= q ) or ( f != npos and f >= q ); };
	auto inv2 = [&]( std::uint64_t a ) { return a == npos or a <= t.n; };
	vc::manual( );
	vc::hint( inv );
	vc::hint( inv2 );
	auto r = t.v.search_last( s.v, pos );
	VC_ENSURE( r != npos and r >= q, "no occurrence after the result, npos only when there is none" );
}
CONTRACT( find_first_match_list ) {
	auto t = any_text( );
	auto a = any_text( "m", "pattern" );
	auto b = any_text( "k", "second" );
	plant( t, a );
	plant( t, b );
	auto pos = vc::size( "pos" );
	vc::assume( pos <= t.n );
	auto j = vc::size( "j" );
	auto fits = [&]( std::size_t r, auto const &s ) { return r <= t.n and s.n <= t.n - r; };
	auto r = t.v.find_first_match( { a.v, b.v }, pos );
	if( r != npos ) {
		VC_ENSURE( r >= pos and ( fits( r, a ) or fits( r, b ) ), "an occurrence inside the view from pos on" );
	}
	VC_ENSURE( ( a.n != 0 and b.n != 0 ) or r == pos, "empty pattern" );
	(void)j;
}
CONTRACT( find_first_match_list_first ) {
	auto t = any_text( );
	auto a = any_text( "m", "pattern" );
	auto b = any_text( "k", "second" );
	auto pos = vc::size( "pos" );
	auto q = vc::size( "q" );
	vc::assume( pos <= q and a.n > 0 and b.n > 0 );
	occurrence( t, q, a );
	auto inv = [&]( std::uint64_t w ) { return w <= q; };
	vc::hint( inv );
	auto r = vc::any<bool>( "order" ) ? t.v.find_first_match( { a.v, b.v }, pos ) : t.v.find_first_match( { b.v, a.v }, pos );
	VC_ENSURE( r != npos and r <= q, "no occurrence before the result" );
}
//---- sets
template<typename F>
inline void check_first_of( F find ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	auto set = any_superset( s );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto j = vc::size( "j" );
	vc::assume( j < s.n or s.n == 0 );
	auto c = vc::any<char>( "ghost" );
	using bits = daw::bitset<256>;
	auto sound = [&]( bits const &b ) { return not b.test( static_cast<u8>( c ) ) or set( c ); };
	auto all = [&]( bits const &b, std::uint64_t w ) { return j >= s.n or j >= w or b.test( static_cast<u8>( s.p[j] ) ); };
	auto none = [&]( std::uint64_t w ) { return not in( i, pos, t.n ) or j >= s.n or i - pos >= w or t.p[i] != s.p[j]; };
	vc::hint_obj<bits>( sound );
	vc::hint_obj<bits>( all );
	vc::hint( none );
	auto r = find( t.v, s.v, pos );
	if( r != npos ) {
		VC_ENSURE( in( r, pos, t.n ), "a position of the view from pos on" );
		vc::such_that( c, t.p[r] );
		VC_ENSURE( set( c ), "the character found is in every superset of the set" );
		VC_ENSURE( not in( i, pos, r ) or t.p[i] != s.p[j], "first" );
		VC_ENSURE( s.n > 0, "empty set finds nothing" );
	} else {
		VC_ENSURE( j >= s.n or not in( i, pos, t.n ) or t.p[i] != s.p[j], "npos only when absent" );
	}
}
CONTRACT( find_first_of_set ) {
	check_first_of( []( sv t, sv s, std::size_t pos ) { return t.find_first_of( s, pos ); } );
}
CONTRACT( find_first_of_ptr ) {
	check_first_of( []( sv t, sv s, std::size_t pos ) { return t.find_first_of( s.data( ), pos, s.size( ) ); } );
}
CONTRACT( find_first_of_char ) {
	auto t = any_text( );
	auto c = vc::any<char>( "c" );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto none = [&]( std::uint64_t w ) { return not in( i, pos, t.n ) or i - pos >= w or t.p[i] != c; };
	vc::hint( none );
	auto r = t.v.find_first_of( c, pos );
	if( r != npos ) {
		VC_ENSURE( in( r, pos, t.n ) and t.p[r] == c, "the character is there" );
		VC_ENSURE( not in( i, pos, r ) or t.p[i] != c, "first" );
	} else {
		VC_ENSURE( not in( i, pos, t.n ) or t.p[i] != c, "npos only when absent" );
	}
}
CONTRACT( find_last_of_set ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	auto set = any_superset( s );
	auto i = vc::size( "i" );
	auto j = vc::size( "j" );
	vc::assume( j < s.n or s.n == 0 );
	auto c = vc::any<char>( "ghost" );
	using bits = daw::bitset<256>;
	auto sound = [&]( bits const &b ) { return not b.test( static_cast<u8>( c ) ) or set( c ); };
	auto all = [&]( bits const &b, std::uint64_t w ) { return j >= s.n or j >= w or b.test( static_cast<u8>( s.p[j] ) ); };
	auto none = [&]( std::uint64_t w ) { return i >= t.n or j >= s.n or i < w or t.p[i] != s.p[j]; };
	vc::hint_obj<bits>( sound );
	vc::hint_obj<bits>( all );
	vc::hint( none );
	auto r = t.v.find_last_of( s.v );
	if( r != npos ) {
		VC_ENSURE( r < t.n, "a position of the view" );
		vc::such_that( c, t.p[r] );
		VC_ENSURE( set( c ), "the character found is in every superset of the set" );
		VC_ENSURE( not( i > r and i < t.n ) or t.p[i] != s.p[j], "last" );
		VC_ENSURE( s.n > 0, "empty set finds nothing" );
	} else {
		VC_ENSURE( j >= s.n or i >= t.n or t.p[i] != s.p[j], "npos only when absent" );
	}
}
CONTRACT( find_last_of_set_pos ) {
	// known finding: one byte characters are searched from the end whatever pos is
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	auto pos = vc::any<std::size_t>( "pos" );
	auto r = t.v.find_last_of( s.v, pos );
	VC_ENSURE( r == npos or r <= pos, "nothing after pos is found" );
}
CONTRACT( find_last_of_char ) {
	auto t = any_text( );
	auto c = vc::any<char>( "c" );
	auto i = vc::size( "i" );
	auto none = [&]( std::uint64_t w ) { return i >= t.n or i < w or t.p[i] != c; };
	vc::hint( none );
	auto r = t.v.find_last_of( c );
	if( r != npos ) {
		VC_ENSURE( r < t.n and t.p[r] == c, "the character is there" );
		VC_ENSURE( not( i > r and i < t.n ) or t.p[i] != c, "last" );
	} else {
		VC_ENSURE( i >= t.n or t.p[i] != c, "npos only when absent" );
	}
}
CONTRACT( find_first_not_of_set ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	auto set = any_superset( s );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto j = vc::size( "j" );
	vc::assume( j < s.n or s.n == 0 );
	auto before = [&]( std::uint64_t w ) { return not in( i, pos, t.n ) or i >= w or set( t.p[i] ); };
	auto inner = [&]( std::uint64_t a, std::uint64_t b ) { return a >= t.n or j >= s.n or j >= b or t.p[a] != s.p[j]; };
	vc::hint( before );
	vc::hint( inner );
	auto r = t.v.find_first_not_of( s.v, pos );
	if( r != npos ) {
		VC_ENSURE( in( r, pos, t.n ), "a position of the view from pos on" );
		VC_ENSURE( j >= s.n or t.p[r] != s.p[j], "not in the set" );
		VC_ENSURE( not in( i, pos, r ) or set( t.p[i] ), "first" );
	} else {
		VC_ENSURE( not in( i, pos, t.n ) or set( t.p[i] ), "npos only when all are in the set" );
	}
}
CONTRACT( find_first_not_of_char ) {
	auto t = any_text( );
	auto c = vc::any<char>( "c" );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto before = [&]( std::uint64_t w ) { return not in( i, pos, t.n ) or i >= w or t.p[i] == c; };
	vc::hint( before );
	auto r = t.v.find_first_not_of( c, pos );
	if( r != npos ) {
		VC_ENSURE( in( r, pos, t.n ) and t.p[r] != c, "another character is there" );
		VC_ENSURE( not in( i, pos, r ) or t.p[i] == c, "first" );
	} else {
		VC_ENSURE( not in( i, pos, t.n ) or t.p[i] == c, "npos only when there is no other" );
	}
}
CONTRACT( find_last_not_of_set ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	auto set = any_superset( s );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto j = vc::size( "j" );
	vc::assume( j < s.n or s.n == 0 );
	auto after = [&]( std::uint64_t w ) { return not( i < t.n and i <= pos ) or static_cast<std::int64_t>( i ) <= static_cast<std::int64_t>( w ) or set( t.p[i] ); };
	vc::hint( after );
	auto r = t.v.find_last_not_of( s.v, pos );
	if( r != npos ) {
		VC_ENSURE( r < t.n and r <= pos, "a position of the view up to pos" );
		VC_ENSURE( j >= s.n or t.p[r] != s.p[j], "not in the set" );
		VC_ENSURE( not( i > r and i <= pos and i < t.n ) or set( t.p[i] ), "last" );
	} else {
		VC_ENSURE( not( i <= pos and i < t.n ) or set( t.p[i] ), "npos only when all are in the set" );
	}
}
CONTRACT( find_last_not_of_char ) {
	auto t = any_text( );
	auto c = vc::any<char>( "c" );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto after = [&]( std::uint64_t w ) { return not( i < t.n and i <= pos ) or static_cast<std::int64_t>( i ) <= static_cast<std::int64_t>( w ) or t.p[i] == c; };
	vc::hint( after );
	auto r = t.v.find_last_not_of( c, pos );
	if( r != npos ) {
		VC_ENSURE( r < t.n and r <= pos and t.p[r] != c, "another character is there" );
		VC_ENSURE( not( i > r and i <= pos and i < t.n ) or t.p[i] == c, "last" );
	} else {
		VC_ENSURE( not( i <= pos and i < t.n ) or t.p[i] == c, "npos only when there is no other" );
	}
}
//---- predicates: any class of characters
CONTRACT( find_first_of_pred ) {
	auto t = any_text( );
	auto pred = a_class( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto before = [&]( std::uint64_t w ) { return not in( i, pos, t.n ) or i >= w or not pred( t.p[i] ); };
	vc::hint( before );
	auto r = t.v.find_first_of_if( pred, pos );
	if( r != npos ) {
		VC_ENSURE( in( r, pos, t.n ) and pred( t.p[r] ), "the predicate holds there" );
		VC_ENSURE( not in( i, pos, r ) or not pred( t.p[i] ), "first" );
	} else {
		VC_ENSURE( not in( i, pos, t.n ) or not pred( t.p[i] ), "npos only when it holds nowhere" );
	}
}
CONTRACT( find_first_not_of_pred ) {
	auto t = any_text( );
	auto pred = a_class( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto before = [&]( std::uint64_t w ) { return not in( i, pos, t.n ) or i >= w or pred( t.p[i] ); };
	vc::hint( before );
	auto r = t.v.find_first_not_of_if( pred, pos );
	if( r != npos ) {
		VC_ENSURE( in( r, pos, t.n ) and not pred( t.p[r] ), "the predicate fails there" );
		VC_ENSURE( not in( i, pos, r ) or pred( t.p[i] ), "first" );
	} else {
		VC_ENSURE( not in( i, pos, t.n ) or pred( t.p[i] ), "npos only when it holds everywhere" );
	}
}
CONTRACT( find_last_of_pred ) {
	auto t = any_text( );
	auto pred = a_class( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto end = pos < t.n ? pos : t.n;
	auto i = vc::size( "i" );
	auto after = [&]( std::uint64_t w ) { return i >= end or i < w or not pred( t.p[i] ); };
	vc::hint( after );
	auto r = t.v.find_last_of_if( pred, pos );
	if( r != npos ) {
		VC_ENSURE( r < end and pred( t.p[r] ), "the predicate holds there" );
		VC_ENSURE( not in( i, r + 1, end ) or not pred( t.p[i] ), "last" );
	} else {
		VC_ENSURE( i >= end or not pred( t.p[i] ), "npos only when it holds nowhere" );
	}
}
CONTRACT( find_last_of_pred_all ) {
	auto t = any_text( );
	auto pred = a_class( );
	auto i = vc::size( "i" );
	auto after = [&]( std::uint64_t w ) { return i >= t.n or i < w or not pred( t.p[i] ); };
	vc::hint( after );
	auto r = t.v.find_last_of_if( pred );
	if( r != npos ) {
		VC_ENSURE( r < t.n and pred( t.p[r] ), "the predicate holds there" );
		VC_ENSURE( not in( i, r + 1, t.n ) or not pred( t.p[i] ), "last" );
	} else {
		VC_ENSURE( i >= t.n or not pred( t.p[i] ), "npos only when it holds nowhere" );
	}
}
CONTRACT( find_last_not_of_pred ) {
	auto t = any_text( );
	auto pred = a_class( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto after = [&]( std::uint64_t w ) { return not( i < t.n and i <= pos ) or static_cast<std::int64_t>( i ) <= static_cast<std::int64_t>( w ) or pred( t.p[i] ); };
	vc::hint( after );
	auto r = t.v.find_last_not_of_if( pred, pos );
	if( r != npos ) {
		VC_ENSURE( r < t.n and r <= pos and not pred( t.p[r] ), "the predicate fails there" );
		VC_ENSURE( not( i > r and i <= pos and i < t.n ) or pred( t.p[i] ), "last" );
	} else {
		VC_ENSURE( not( i <= pos and i < t.n ) or pred( t.p[i] ), "npos only when it holds everywhere" );
	}
}
//---- prefix, suffix
CONTRACT( starts_with_text ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
#ifdef VC_NATIVE
	if( vc::any<bool>( "planted" ) ) for( std::size_t j = 0; j < s.n and j < t.n; ++j ) t.p[j] = s.p[j];
#endif
	auto j = vc::size( "j" );
	auto inv = [&]( std::uint64_t w ) { return j >= s.n or j >= t.n or j >= w or t.p[j] == s.p[j]; };
	vc::hint( inv );
	if( t.v.starts_with( s.v ) ) {
		VC_ENSURE( s.n <= t.n, "a prefix is not longer" );
		VC_ENSURE( j >= s.n or t.p[j] == s.p[j], "every character matches" );
	}
}
CONTRACT( starts_with_complete ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	occurrence( t, 0, s );
	VC_ENSURE( t.v.starts_with( s.v ), "a prefix is found" );
}
CONTRACT( ends_with_text ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
#ifdef VC_NATIVE
	if( s.n <= t.n and vc::any<bool>( "planted" ) ) for( std::size_t j = 0; j < s.n; ++j ) t.p[t.n - s.n + j] = s.p[j];
#endif
	auto j = vc::size( "j" );
	auto inv = [&]( std::uint64_t w ) { return j >= s.n or s.n > t.n or j < w or t.p[t.n - s.n + j] == s.p[j]; };
	vc::hint( inv );
	if( t.v.ends_with( s.v ) ) {
		VC_ENSURE( s.n <= t.n, "a suffix is not longer" );
		VC_ENSURE( j >= s.n or t.p[t.n - s.n + j] == s.p[j], "every character matches" );
	}
}
CONTRACT( ends_with_complete ) {
	auto t = any_text( );
	auto s = any_text( "m", "pattern" );
	vc::assume( s.n <= t.n );
	occurrence( t, t.n - s.n, s );
	VC_ENSURE( t.v.ends_with( s.v ), "a suffix is found" );
}
CONTRACT( starts_ends_with_char ) {
	auto t = any_text( );
	auto c = vc::any<char>( "c" );
	VC_ENSURE( t.v.starts_with( c ) == ( t.n > 0 and t.p[0] == c ), "starts_with( c )" );
	VC_ENSURE( t.v.ends_with( c ) == ( t.n > 0 and t.p[t.n - 1] == c ), "ends_with( c )" );
}
//---- overloads that take the set as a pointer, a literal or without a position
// the set is one character; f( view, set, pos ) calls the overload
struct pair_set {
	char *z;
	bool has( char c ) const { return c == z[0]; }
};
static pair_set any_pair( ) {
	vc_opt( "short", 2 );
	auto s = c_pattern( );
	vc::assume( s.n == 1 and s.p[0] != 0 and s.p[1] == 0 );
	return { s.p };
}
template<bool Not, typename F>
static void first_in_pair( bool from_start, F f ) {
	auto t = any_text( );
	auto const s = any_pair( );
	auto pos = from_start ? std::size_t{ 0 } : vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto hit = [&]( char c ) { return s.has( c ) != Not; };
	auto before = [&]( std::uint64_t w ) { return not in( i, pos, t.n ) or i >= w or not hit( t.p[i] ); };
	auto before2 = [&]( std::uint64_t w ) { return not in( i, pos, t.n ) or i - pos >= w or not hit( t.p[i] ); };
	vc::hint( before );
	vc::hint( before2 );
	std::size_t const r = f( t.v, s, pos );
	if( r != npos ) {
		VC_ENSURE( in( r, pos, t.n ) and hit( t.p[r] ), "such a character is there" );
		VC_ENSURE( not in( i, pos, r ) or not hit( t.p[i] ), "first" );
	} else {
		VC_ENSURE( not in( i, pos, t.n ) or not hit( t.p[i] ), "npos only when there is none" );
	}
}
template<bool Not, typename F>
static void last_in_pair( bool from_end, F f ) {
	auto t = any_text( );
	auto const s = any_pair( );
	auto pos = from_end ? npos : vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto hit = [&]( char c ) { return s.has( c ) != Not; };
	auto after = [&]( std::uint64_t w ) { return not( i < t.n and i <= pos ) or static_cast<std::int64_t>( i ) <= static_cast<std::int64_t>( w ) or not hit( t.p[i] ); };
	auto after2 = [&]( std::uint64_t w ) { return i >= t.n or i > pos or i < w or not hit( t.p[i] ); };
	vc::hint( after );
	vc::hint( after2 );
	std::size_t const r = f( t.v, s, pos );
	if( r != npos ) {
		VC_ENSURE( r < t.n and r <= pos and hit( t.p[r] ), "such a character is there" );
		VC_ENSURE( not( i > r and i <= pos and i < t.n ) or not hit( t.p[i] ), "last" );
	} else {
		VC_ENSURE( not( i <= pos and i < t.n ) or not hit( t.p[i] ), "npos only when there is none" );
	}
}
static std::size_t len( pair_set const & ) { return 1; }
CONTRACT( first_not_of_ptr_count ) {
	first_in_pair<true>( false, []( sv t, pair_set const &s, std::size_t pos ) { return t.find_first_not_of( static_cast<char const *>( s.z ), pos, len( s ) ); } );
}
CONTRACT( first_not_of_ptr_pos ) {
	first_in_pair<true>( false, []( sv t, pair_set const &s, std::size_t pos ) { return t.find_first_not_of( static_cast<char const *>( s.z ), pos ); } );
}
CONTRACT( first_not_of_ptr ) {
	first_in_pair<true>( true, []( sv t, pair_set const &s, std::size_t ) { return t.find_first_not_of( static_cast<char const *>( s.z ) ); } );
}
CONTRACT( first_not_of_view ) {
	first_in_pair<true>( true, []( sv t, pair_set const &s, std::size_t ) { return t.find_first_not_of( sv( s.z, len( s ) ) ); } );
}
CONTRACT( first_of_ptr_pos ) {
	first_in_pair<false>( false, []( sv t, pair_set const &s, std::size_t pos ) { return t.find_first_of( static_cast<char const *>( s.z ), pos ); } );
}
CONTRACT( first_of_ptr ) {
	first_in_pair<false>( true, []( sv t, pair_set const &s, std::size_t ) { return t.find_first_of( static_cast<char const *>( s.z ) ); } );
}
CONTRACT( last_not_of_ptr_count ) {
	last_in_pair<true>( false, []( sv t, pair_set const &s, std::size_t pos ) { return t.find_last_not_of( s.z, pos, len( s ) ); } );
}
CONTRACT( last_not_of_ptr_pos ) {
	last_in_pair<true>( false, []( sv t, pair_set const &s, std::size_t pos ) { return t.find_last_not_of( static_cast<char const *>( s.z ), pos ); } );
}
CONTRACT( last_not_of_ptr ) {
	last_in_pair<true>( true, []( sv t, pair_set const &s, std::size_t ) { return t.find_last_not_of( static_cast<char const *>( s.z ) ); } );
}
CONTRACT( last_not_of_view ) {
	last_in_pair<true>( true, []( sv t, pair_set const &s, std::size_t ) { return t.find_last_not_of( sv( s.z, len( s ) ) ); } );
}
CONTRACT( last_of_ptr ) {
	last_in_pair<false>( true, []( sv t, pair_set const &s, std::size_t ) { return t.find_last_of( static_cast<char const *>( s.z ) ); } );
}
CONTRACT( last_of_ptr_count ) {
	last_in_pair<false>( true, []( sv t, pair_set const &s, std::size_t pos ) { return t.find_last_of( s.z, pos, len( s ) ); } );
}
CONTRACT( literals ) {
	auto t = any_text( );
	auto pos = vc::any<std::size_t>( "pos" );
	auto i = vc::size( "i" );
	auto before = [&]( std::uint64_t w ) { return not in( i, pos, t.n ) or i >= w or t.p[i] == 'x'; };
	vc::hint( before );
	auto const r = t.v.find_first_not_of( "x", pos );
	VC_ENSURE( r == npos or ( in( r, pos, t.n ) and t.p[r] != 'x' ), "another character" );
	VC_ENSURE( not in( i, pos, r < t.n ? r : t.n ) or t.p[i] == 'x', "first" );
}
CONTRACT( literals_start ) {
	auto t = any_text( );
	auto i = vc::size( "i" );
	auto before = [&]( std::uint64_t w ) { return i >= t.n or i >= w or t.p[i] == 'x'; };
	vc::hint( before );
	auto const r = t.v.find_first_not_of( "x" );
	VC_ENSURE( r == npos or ( r < t.n and t.p[r] != 'x' ), "another character" );
	VC_ENSURE( i >= ( r < t.n ? r : t.n ) or t.p[i] == 'x', "first" );
}
CONTRACT( literals_last ) {
	auto t = any_text( );
	auto i = vc::size( "i" );
	auto none = [&]( std::uint64_t w ) { return i >= t.n or i < w or t.p[i] != 'x'; };
	vc::hint( none );
	auto const r = t.v.find_last_of( "x" );
	VC_ENSURE( r == npos or ( r < t.n and t.p[r] == 'x' ), "the character" );
	VC_ENSURE( i >= t.n or ( r != npos and i <= r ) or t.p[i] != 'x', "last" );
}
CONTRACT( starts_ends_ptr ) {
	auto t = any_text( );
	auto const s = any_pair( );
	auto const n = len( s );
	char const *z = s.z;
	bool const st = t.n >= n and t.p[0] == z[0];
	bool const en = t.n >= n and t.p[t.n - n] == z[0];
	VC_ENSURE( t.v.starts_with( z ) == st, "starts_with" );
	VC_ENSURE( t.v.ends_with( z ) == en, "ends_with" );
}
