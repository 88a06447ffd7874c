// Character classes and case conversion.
#include "vc.h"
#include <daw/daw_ascii.h>
#include <daw/daw_parser_helper.h>
#include <daw/daw_parser_helper_sv.h>

// the value of a character as a number
using Z = __int128;
template<typename C>
Z value( C c ) {
	return static_cast<Z>( c );
}
bool between( Z lo, Z v, Z hi ) {
	return lo <= v and v <= hi;
}
bool digit( Z v ) { return between( '0', v, '9' ); }
bool upper( Z v ) { return between( 'A', v, 'Z' ); }
bool lower( Z v ) { return between( 'a', v, 'z' ); }
template<typename C>
void ascii( ) {
	auto const c = vc::any<C>( "c" );
	auto const v = value( c );
	VC_ENSURE( daw::is_ascii_digit( c ) == digit( v ), "is_ascii_digit" );
	VC_ENSURE( daw::is_ascii_alpha( c ) == ( upper( v ) or lower( v ) ), "is_ascii_alpha" );
	VC_ENSURE( daw::is_ascii_alphanum( c ) == ( digit( v ) or upper( v ) or lower( v ) ), "is_ascii_alphanum" );
	VC_ENSURE( daw::is_ascii_printable( c ) == between( 32, v, 126 ), "is_ascii_printable" );
	VC_ENSURE( value( daw::to_upper_ascii( c ) ) == ( lower( v ) ? v - 32 : v ), "to_upper_ascii" );
	VC_ENSURE( value( daw::to_lower_ascii( c ) ) == ( upper( v ) ? v + 32 : v ), "to_lower_ascii" );
}
#define ASCII( nm, C ) \
	CONTRACT( nm ) { ascii<C>( ); }
ASCII( ascii_char, char )
ASCII( ascii_signed_char, signed char )
ASCII( ascii_unsigned_char, unsigned char )
ASCII( ascii_wchar, wchar_t )
ASCII( ascii_char16, char16_t )
ASCII( ascii_char32, char32_t )
ASCII( ascii_char8, char8_t )
ASCII( ascii_short, short )
ASCII( ascii_int, int )
ASCII( ascii_unsigned, unsigned )
ASCII( ascii_long, long )
ASCII( ascii_unsigned_long, unsigned long )

namespace pr = daw::parser;
bool whitespace( Z v ) {
	return between( 9, v, 13 ) or v == 32 or v == 0x85 or v == 0xA0 or v == 0x1680 or between( 0x2000, v, 0x200A ) or
	       v == 0x2028 or v == 0x2029 or v == 0x202F or v == 0x205F or v == 0x3000;
}
template<typename C>
void parser( ) {
	auto const c = vc::any<C>( "c" );
	auto const v = value( c );
	VC_ENSURE( pr::is_number( c ) == digit( v ), "is_number" );
	VC_ENSURE( pr::is_hex( c ) == ( digit( v ) or between( 'a', v, 'f' ) or between( 'A', v, 'F' ) ), "is_hex" );
	VC_ENSURE( pr::is_alpha( C{ c } ) == ( upper( v ) or lower( v ) ), "is_alpha" );
	VC_ENSURE( pr::is_alphanumeric( C{ c } ) == ( upper( v ) or lower( v ) or digit( v ) ), "is_alphanumeric" );
	VC_ENSURE( pr::is_cr( c ) == ( v == 13 ), "is_cr" );
	VC_ENSURE( pr::is_space( c ) == ( v == 32 ), "is_space" );
	VC_ENSURE( pr::not_space( c ) == ( v != 32 ), "not_space" );
	VC_ENSURE( pr::is_escape( c ) == ( v == 92 ), "is_escape" );
	VC_ENSURE( pr::is_quote( c ) == ( v == 34 ), "is_quote" );
	VC_ENSURE( pr::is_unicode_whitespace( c ) == whitespace( v ), "is_unicode_whitespace" );
	VC_ENSURE( pr::not_unicode_whitespace( c ) == not whitespace( v ), "not_unicode_whitespace" );
	VC_ENSURE( pr::in_range( c, 'b', 'y' ) == between( 'b', v, 'y' ), "in_range" );
	VC_ENSURE( pr::is_a( c, 'x' ) == ( v == 'x' ), "is_a" );
	VC_ENSURE( pr::is_a( c, 'x', 'y', 'z' ) == between( 'x', v, 'z' ), "is_a of several" );
	VC_ENSURE( pr::pred_true( c ) and not pr::pred_false( c ), "constant predicates" );
	VC_ENSURE( pr::negate( pr::is_number<C> )( c ) == not digit( v ), "negate" );
	VC_ENSURE( pr::is_true( c, pr::is_number<C>, pr::is_space<C> ) == ( digit( v ) or v == 32 ), "is_true" );
}
#define PARSER( nm, C ) \
	CONTRACT( nm ) { parser<C>( ); }
PARSER( parser_char, char )
PARSER( parser_signed_char, signed char )
PARSER( parser_unsigned_char, unsigned char )
PARSER( parser_wchar, wchar_t )
PARSER( parser_char16, char16_t )
PARSER( parser_char32, char32_t )
PARSER( parser_char8, char8_t )

template<typename F>
bool throws( F f ) {
	try {
		f( );
	} catch( pr::ParserException const & ) { return true; }
	return false;
}
CONTRACT( expectations ) {
	auto const c = vc::any<char>( "c" );
	auto const d = vc::any<char>( "d" );
	auto const e = vc::any<char>( "e" );
	VC_ENSURE( throws( [&] { pr::expect( c, d, e ); } ) == ( c != d and c != e ), "expect" );
	VC_ENSURE( throws( [&] { pr::expect_true( c, pr::is_number<char> ); } ) == not digit( c ), "expect_true" );
	VC_ENSURE( throws( [&] { pr::assert_equal( c, d ); } ) == ( c != d ), "assert_equal" );
	VC_ENSURE( throws( [&] { pr::assert_not_equal( c, d ); } ) == ( c == d ), "assert_not_equal" );
}
// std::find_if steps four at a time
#define FOUR_AT_A_TIME( n )                                                                                             \
	auto four = [&]( std::uint64_t trips, std::uint64_t i ) { return trips <= ( n ) / 4 and i == ( ( n ) / 4 - trips ) * 4; }; \
	vc::hint( four )
// membership: characters in a list of any length
CONTRACT( value_in_view ) {
	auto const n = vc::size( "n" );
	auto p = vc::array<char>( n, "list" );
	auto const c = vc::any<char>( "c" );
	auto const i = vc::size( "i" );
	auto none = [&]( std::uint64_t w ) { return i >= n or i >= w or p[i] != c; };
	vc::hint( none );
	FOUR_AT_A_TIME( n );
	auto const list = daw::string_view( p, n );
	if( not pr::value_in( c, list ) ) {
		VC_ENSURE( i >= n or p[i] != c, "absent when rejected" );
	}
}
CONTRACT( value_in_view_absent ) {
	auto const n = vc::size( "n" );
	auto p = vc::array<char>( n, "list" );
	auto const c = vc::any<char>( "c" );
	vc::each( p, n, [&]( char x ) { return x != c; }, static_cast<char>( c + 1 ) );
	FOUR_AT_A_TIME( n );
	VC_ENSURE( not pr::value_in( c, daw::string_view( p, n ) ), "an absent character is rejected" );
	VC_ENSURE( not pr::in( daw::string_view( p, n ) )( c ), "in" );
}
CONTRACT( value_in_array ) {
	char const list[4] = { vc::any<char>( "a" ), vc::any<char>( "b" ), vc::any<char>( "d" ), vc::any<char>( "e" ) };
	auto const c = vc::any<char>( "c" );
	VC_ENSURE( pr::value_in( c, list ) == ( c == list[0] or c == list[1] or c == list[2] or c == list[3] ), "in an array" );
}
CONTRACT( char_in ) {
	auto const c = vc::any<char>( "c" );
	auto const in = pr::char_in_t<'a', '\n', 'z'>{ };
	VC_ENSURE( in( c ) == ( c == 'a' or c == '\n' or c == 'z' ), "char_in_t" );
}
