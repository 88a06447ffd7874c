// Parsing integers.
#include "svh.h"
#include <daw/daw_from_string.h>
#include <daw/daw_parse_to.h>
#include <daw/daw_parser_addons.h>
#include <daw/daw_parser_helper_sv.h>
#include <limits>

using u64 = std::uint64_t;
// the number the first n digits at p denote, modulo 2^64, and whether it is
// more than the limit
extern "C" __attribute__( ( noinline ) ) u64 vcspec_number( char const *p, std::size_t n ) {
	if( n == 0 ) return 0;
	return vcspec_number( p, n - 1 ) * 10U + static_cast<u64>( p[n - 1] - '0' );
}
extern "C" __attribute__( ( noinline ) ) u64 vcspec_over( char const *p, std::size_t n, u64 limit ) {
	if( n == 0 ) return 0;
	if( vcspec_over( p, n - 1, limit ) != 0 ) return 1;
	auto const q = vcspec_number( p, n - 1 );
	return q > limit / 10U or ( q == limit / 10U and static_cast<u64>( p[n - 1] - '0' ) > limit % 10U ) ? 1 : 0;
}
constexpr bool digit( char c ) { return c >= '0' and c <= '9'; }
template<typename R>
inline constexpr u64 highest = static_cast<u64>( std::numeric_limits<R>::max( ) );
template<typename R>
inline constexpr u64 lowest = std::is_signed_v<R> ? highest<R> + 1U : 0U;
inline bool at_most( u64 limit, char const *p, std::size_t n ) {
	return vcspec_over( p, n, limit ) == 0;
}
template<typename R>
bool is( R r, char const *p, std::size_t n ) {
	return at_most( highest<R>, p, n ) and r >= 0 and static_cast<u64>( r ) == vcspec_number( p, n );
}
template<typename R>
bool is_minus( R r, char const *p, std::size_t n ) {
	return at_most( lowest<R>, p, n ) and r <= 0 and u64{ 0 } - static_cast<u64>( static_cast<std::int64_t>( r ) ) == vcspec_number( p, n );
}

// F parses a text; the parsers of the library
template<typename R>
struct to_value {
	static R call( char const *p, std::size_t n ) {
		using daw::parser::converters::parse_to_value;
		return parse_to_value( sv( p, n ), daw::tag<R> );
	}
};
template<typename R>
struct iter_int {
	static R call( char const *p, std::size_t n ) { return daw::parser::parse_int<R>( p, p + n ); }
};
template<typename R>
struct iter_unsigned {
	static R call( char const *p, std::size_t n ) { return daw::parser::parse_unsigned_int<R>( p, p + n ); }
};
template<typename R>
struct view_int {
	static R call( char const *p, std::size_t n ) { return daw::parser::parse_int<R>( sv( p, n ) ); }
};
template<typename R>
struct view_unsigned {
	static R call( char const *p, std::size_t n ) { return daw::parser::parse_unsigned_int<R>( sv( p, n ) ); }
};

// digits whose value fits (so does the value of every prefix)
template<typename R, typename F>
void accepts( ) {
	auto t = any_text( );
	vc::assume( t.n > 0 );
	vc::each( t.p, t.n, digit, '0' );
	auto fits = [&]( std::uint64_t j ) { return j >= t.n or at_most( highest<R>, t.p, j + 1 ); };
	vc::forall( t.p, fits );
	auto h = [&]( std::uint64_t r, std::uint64_t i ) { return is( static_cast<R>( r ), t.p, i ); };
	vc::hint( h );
	bool thrown = false;
	R r{ };
	try {
		r = F::call( t.p, t.n );
	} catch( ... ) { thrown = true; }
	VC_ENSURE( not thrown, "digits whose value fits are accepted" );
	VC_ENSURE( thrown or is( r, t.p, t.n ), "the number the digits denote" );
}
template<typename R, typename F>
void accepts_negative( ) {
	auto t = any_text( );
	vc::assume( t.n > 1 and t.p[0] == '-' );
	auto ds = [&]( std::uint64_t j ) { return j == 0 or j >= t.n or digit( t.p[j] ); };
	vc::forall( t.p, ds );
	auto fits = [&]( std::uint64_t j ) { return j == 0 or j >= t.n or at_most( lowest<R>, t.p + 1, j ); };
	vc::forall( t.p, fits );
	auto h = [&]( std::uint64_t r, std::uint64_t i ) { return i > 0 and is_minus( static_cast<R>( r ), t.p + 1, i - 1 ); };
	vc::hint( h );
	bool thrown = false;
	R r{ };
	try {
		r = F::call( t.p, t.n );
	} catch( ... ) { thrown = true; }
	VC_ENSURE( not thrown, "digits whose negative value fits are accepted" );
	VC_ENSURE( thrown or is_minus( r, t.p + 1, t.n - 1 ), "the number the digits denote" );
}
template<typename F>
bool rejects( text_t<char> const &t ) {
	try {
		(void)F::call( t.p, t.n );
	} catch( ... ) { return true; }
	return false;
}
template<typename R, typename F>
void rejects_large( ) {
	auto t = any_text( );
	vc::each( t.p, t.n, digit, '0' );
	auto const g = vc::size( "g" );
	vc::assume( t.n > 0 and t.p[0] != '-' );
	vc::assume( g < t.n and not at_most( highest<R>, t.p, g + 1 ) );
	auto h = [&]( std::uint64_t r, std::uint64_t i ) { return is( static_cast<R>( r ), t.p, i ); };
	vc::hint( h );
	auto b = [&]( std::uint64_t i ) { return i <= g; };
	vc::hint( b );
	vc::manual( );
	auto left = [&]( std::uint64_t m, std::uint64_t i ) { return m + i == t.n; };
	vc::hint( left );
	auto in = [&]( std::uint64_t i ) { return i <= t.n; };
	vc::hint( in );
	VC_ENSURE( rejects<F>( t ), "digits whose value does not fit are rejected" );
}
template<typename R, typename F>
void rejects_low( ) {
	auto t = any_text( );
	vc::assume( t.n > 1 and t.p[0] == '-' );
	auto ds = [&]( std::uint64_t j ) { return j == 0 or j >= t.n or digit( t.p[j] ); };
	vc::forall( t.p, ds );
	auto const g = vc::size( "g" );
	vc::assume( g > 0 and g < t.n and not at_most( lowest<R>, t.p + 1, g ) );
	auto h = [&]( std::uint64_t r, std::uint64_t i ) { return i > 0 and is_minus( static_cast<R>( r ), t.p + 1, i - 1 ); };
	vc::hint( h );
	auto b = [&]( std::uint64_t i ) { return i <= g; };
	vc::hint( b );
	vc::manual( );
	auto left = [&]( std::uint64_t m, std::uint64_t i ) { return m + i == t.n; };
	vc::hint( left );
	auto in = [&]( std::uint64_t i ) { return i <= t.n; };
	vc::hint( in );
	VC_ENSURE( rejects<F>( t ), "digits whose negative value does not fit are rejected" );
}
template<typename R, typename F>
void rejects_other( ) {
	auto t = any_text( );
	auto const g = vc::size( "g" );
	vc::assume( g < t.n and not digit( t.p[g] ) );
	vc::assume( g > 0 or not std::is_signed_v<R> or t.p[0] != '-' or t.n == 1 );
	auto b = [&]( std::uint64_t i ) { return i <= g; };
	vc::hint( b );
	auto sign = [&]( std::uint64_t r ) { return t.n == 0 or ( t.p[0] == '-' ? static_cast<R>( r ) <= 0 : static_cast<R>( r ) >= 0 ); };
	vc::hint( sign );
	VC_ENSURE( rejects<F>( t ), "a text that is not a number is rejected" );
}
template<typename F>
void rejects_empty( ) {
	auto t = any_text( );
	vc::assume( t.n == 0 );
	VC_ENSURE( rejects<F>( t ), "an empty text is rejected" );
}
#define SIGNED( R, F, nm )                                              \
	CONTRACT( nm ) { accepts<R, F<R>>( ); }                               \
	CONTRACT( nm##_negative ) { accepts_negative<R, F<R>>( ); }           \
	CONTRACT( nm##_large ) { rejects_large<R, F<R>>( ); }                 \
	CONTRACT( nm##_low ) { rejects_low<R, F<R>>( ); }                     \
	CONTRACT( nm##_other ) { rejects_other<R, F<R>>( ); }                 \
	CONTRACT( nm##_empty ) { rejects_empty<F<R>>( ); }
#define UNSIGNED( R, F, nm )                                            \
	CONTRACT( nm ) { accepts<R, F<R>>( ); }                               \
	CONTRACT( nm##_large ) { rejects_large<R, F<R>>( ); }                 \
	CONTRACT( nm##_other ) { rejects_other<R, F<R>>( ); }                 \
	CONTRACT( nm##_empty ) { rejects_empty<F<R>>( ); }
SIGNED( std::int8_t, to_value, to_value_signed_char )
SIGNED( std::int32_t, to_value, to_value_i32 )
SIGNED( std::int64_t, to_value, to_value_i64 )
UNSIGNED( std::uint8_t, to_value, to_value_u8 )
UNSIGNED( std::uint32_t, to_value, to_value_u32 )
UNSIGNED( std::uint64_t, to_value, to_value_u64 )
SIGNED( std::int32_t, iter_int, parse_int_i32 )
SIGNED( std::int64_t, iter_int, parse_int_i64 )
UNSIGNED( std::uint32_t, iter_int, parse_int_u32 )
UNSIGNED( std::uint32_t, iter_unsigned, parse_unsigned_int_u32 )
UNSIGNED( std::uint64_t, iter_unsigned, parse_unsigned_int_u64 )
SIGNED( std::int32_t, view_int, view_int_i32 )
UNSIGNED( std::uint32_t, view_unsigned, view_unsigned_u32 )

// ---- texts that are not numbers: the result is a window of the text
CONTRACT( to_value_char ) {
	using daw::parser::converters::parse_to_value;
	auto t = any_text( );
	bool thrown = false;
	try {
		VC_ENSURE( parse_to_value( t.v, daw::tag<char> ) == t.p[0], "the first character" );
	} catch( ... ) { thrown = true; }
	VC_ENSURE( thrown == ( t.n == 0 ), "empty text rejected" );
}
CONTRACT( to_value_unquoted ) {
	using daw::parser::converters::parse_to_value;
	auto t = any_text( );
	bool thrown = false;
	try {
		auto r = parse_to_value( t.v, daw::tag<daw::parser::converters::unquoted_string_view> );
		VC_ENSURE( is_window( r, t.p, t.n ), "the whole text" );
	} catch( ... ) { thrown = true; }
	VC_ENSURE( thrown == ( t.n == 0 ), "empty text rejected" );
}
// the number digits denote does not depend on the iterator: a zero-terminated
// string is parsed up to its terminator
CONTRACT( parse_unsigned_int_cstring ) {
	auto const a = vc::any<char>( "a" );
	auto const b = vc::any<char>( "b" );
	vc::assume( digit( a ) and digit( b ) );
	char s[3] = { a, b, 0 };
	vc_unroll( 4 );
	VC_ENSURE( daw::parser::parse_unsigned_int<unsigned>( daw::not_null<char const *>( s ) ) == static_cast<unsigned>( ( a - '0' ) * 10 + ( b - '0' ) ), "two digits" );
}

// from_string delegates to std::from_chars
CONTRACT( from_string_three ) {
	auto p = vc::array<char>( 3, "text" );
	vc::assume( digit( p[1] ) and digit( p[2] ) );
	vc_unroll( 5 );
	auto const v = ( p[1] - '0' ) * 10 + ( p[2] - '0' );
	bool const neg = p[0] == '-';
	vc::assume( neg or digit( p[0] ) );
	auto r = daw::from_string( daw::tag<int>, sv( p, 3 ) );
	VC_ENSURE( r.has_value( ) and *r == ( neg ? -v : ( p[0] - '0' ) * 100 + v ), "the number the characters denote" );
	auto s = daw::from_string( daw::tag<signed char>, sv( p, 3 ) );
	VC_ENSURE( s.has_value( ) == ( *r <= 127 ), "only when it fits" );
	VC_ENSURE( not s.has_value( ) or *s == *r, "the same number" );
}
CONTRACT( from_string_not_a_number ) {
	auto t = any_text( );
	vc::assume( t.n == 0 or not digit( t.p[0] ) );
	VC_ENSURE( not daw::from_string( daw::tag<unsigned>, t.v ).has_value( ), "rejected" );
	vc::assume( t.n == 0 or t.p[0] != '-' );
	VC_ENSURE( not daw::from_string( daw::tag<int>, t.v ).has_value( ), "rejected" );
}
