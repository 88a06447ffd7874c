// Strongly typed unsigned integers: arithmetic modulo the width.
#include "vc.h"
#include <daw/daw_uint_types.h>
#include <limits>

using namespace daw;
template<typename T>
struct base {
	using type = T;
};
template<>
struct base<UInt8> { using type = std::uint8_t; };
template<>
struct base<UInt16> { using type = std::uint16_t; };
template<>
struct base<UInt32> { using type = std::uint32_t; };
template<>
struct base<UInt64> { using type = std::uint64_t; };
template<typename T>
using base_t = typename base<T>::type;
template<typename T>
inline constexpr bool is_uint = not std::is_same_v<T, base_t<T>>;
template<typename T>
std::uint64_t val( T v ) {
	return static_cast<std::uint64_t>( static_cast<base_t<T>>( v ) );
}
template<typename T>
T any_of( char const *name ) {
	return static_cast<T>( vc::any<base_t<T>>( name ) );
}
// A built-in operand wider than the typed one is converted to the typed one's
// width by overload resolution: values that fit are considered.
template<typename T, typename Other>
bool fits( T v ) {
	return is_uint<T> or sizeof( T ) <= sizeof( Other ) or ( val( v ) >> ( ( sizeof( Other ) * 8 ) % 64 ) ) == 0;
}
template<typename L, typename R>
using wider = std::conditional_t<( is_uint<L> and ( not is_uint<R> or sizeof( L ) >= sizeof( R ) ) ), base_t<L>, base_t<R>>;
// the result of an operation of this width is at least as wide as its typed
// operands, and is the exact value modulo its own width

// the result of op on the operands' values, modulo the width of the wider one
#define BINARY( NAME, OP, PRE, EXPR, RESULT_WIDTH )                                                        \
	struct NAME##_op {                                                                                       \
		template<typename L, typename R>                                                                       \
		static void pair( ) {                                                                                  \
			if constexpr( requires( L l, R r ) { l OP r; } ) {                                                   \
				auto const l = any_of<L>( "l" );                                                                   \
				auto const r = any_of<R>( "r" );                                                                   \
				[[maybe_unused]] constexpr std::size_t width = sizeof( L ) * 8;                                    \
				using W = RESULT_WIDTH;                                                                            \
				std::uint64_t const a = val( l ), b = val( r );                                                    \
				if( ( PRE ) and fits<L, R>( l ) and fits<R, L>( r ) ) {                                                                                        \
					auto const x = l OP r;                                                                           \
					VC_ENSURE( sizeof( x ) >= sizeof( W ), #OP " keeps the width of its operands" );                 \
					VC_ENSURE( val( x ) == static_cast<base_t<decltype( x )>>( EXPR ), "value of " #OP ); \
				}                                                                                                  \
			}                                                                                                    \
		}                                                                                                      \
	};
#define COMPARE( NAME, OP )                                                      \
	struct NAME##_op {                                                             \
		template<typename L, typename R>                                             \
		static void pair( ) {                                                        \
			if constexpr( requires( L l, R r ) { l OP r; } ) {                         \
				auto const l = any_of<L>( "l" );                                         \
				auto const r = any_of<R>( "r" );                                         \
				if( fits<L, R>( l ) and fits<R, L>( r ) ) {                                \
					VC_ENSURE( ( l OP r ) == ( val( l ) OP val( r ) ), "truth of " #OP );  \
				}                                                                        \
			}                                                                          \
		}                                                                            \
	};
#define ASSIGN( NAME, OP, PRE, EXPR )                                                          \
	struct NAME##_op {                                                                           \
		template<typename L, typename R>                                                           \
		static void pair( ) {                                                                      \
			if constexpr( requires( L & l, R r ) { l OP r; } ) {                                     \
				auto const l = any_of<L>( "l" );                                                       \
				auto const r = any_of<R>( "r" );                                                       \
				[[maybe_unused]] constexpr std::size_t width = sizeof( L ) * 8;                        \
				std::uint64_t const a = val( l ), b = val( r );                                        \
				if( ( PRE ) and fits<L, R>( l ) and fits<R, L>( r ) ) {                                                                            \
					L x = l;                                                                             \
					auto &ref = ( x OP r );                                                              \
					VC_ENSURE( &ref == &x, #OP " returns its left operand" );                            \
					VC_ENSURE( val( x ) == static_cast<base_t<L>>( EXPR ), "value after " #OP );         \
				}                                                                                      \
			}                                                                                        \
		}                                                                                          \
	};
template<typename Op, typename L, typename R>
void one( ) {
	if constexpr( is_uint<L> or is_uint<R> ) {
		Op::template pair<L, R>( );
	}
}
template<typename Op, typename L>
void row( ) {
	one<Op, L, UInt8>( );
	one<Op, L, UInt16>( );
	one<Op, L, UInt32>( );
	one<Op, L, UInt64>( );
	one<Op, L, std::uint8_t>( );
	one<Op, L, std::uint16_t>( );
	one<Op, L, std::uint32_t>( );
	one<Op, L, std::uint64_t>( );
}
template<typename Op>
void table( ) {
	row<Op, UInt8>( );
	row<Op, UInt16>( );
	row<Op, UInt32>( );
	row<Op, UInt64>( );
	row<Op, std::uint8_t>( );
	row<Op, std::uint16_t>( );
	row<Op, std::uint32_t>( );
	row<Op, std::uint64_t>( );
}
// addition, subtraction and multiplication are exact modulo 2^64 in a and b
#define WIDER wider<L, R>
BINARY( add, +, true, a + b, WIDER )
BINARY( sub, -, true, a - b, WIDER )
BINARY( mul, *, true, a *b, WIDER )
BINARY( div, /, b != 0, a / b, WIDER )
BINARY( bit_and, &, true, a &b, WIDER )
BINARY( bit_or, |, true, a | b, WIDER )
BINARY( bit_xor, ^, true, a ^ b, WIDER )
BINARY( shl, <<, b < width, a << b, base_t<L> )
BINARY( shr, >>, b < width, a >> b, base_t<L> )
COMPARE( eq, == )
COMPARE( ne, != )
COMPARE( lt, < )
COMPARE( le, <= )
COMPARE( gt, > )
COMPARE( ge, >= )
ASSIGN( add_to, +=, true, a + b )
ASSIGN( sub_from, -=, true, a - b )
ASSIGN( mul_by, *=, true, a *b )
ASSIGN( div_by, /=, b != 0, a / b )
ASSIGN( and_with, &=, true, a &b )
ASSIGN( or_with, |=, true, a | b )
ASSIGN( xor_with, ^=, true, a ^ b )
ASSIGN( shl_by, <<=, b < width, a << b )
ASSIGN( shr_by, >>=, b < width, a >> b )

#define TABLE( NAME ) \
	CONTRACT( NAME ) { table<NAME##_op>( ); }
TABLE( add )
TABLE( sub )
TABLE( mul )
TABLE( div )
TABLE( bit_and )
TABLE( bit_or )
TABLE( bit_xor )
TABLE( shl )
TABLE( shr )
TABLE( eq )
TABLE( ne )
TABLE( lt )
TABLE( le )
TABLE( gt )
TABLE( ge )
TABLE( add_to )
TABLE( sub_from )
TABLE( mul_by )
TABLE( div_by )
TABLE( and_with )
TABLE( or_with )
TABLE( xor_with )
TABLE( shl_by )
TABLE( shr_by )

template<typename T>
void unary( ) {
	using B = base_t<T>;
	auto const v = any_of<T>( "v" );
	std::uint64_t const a = val( v );
	VC_ENSURE( val( ~v ) == static_cast<B>( ~a ), "complement" );
	VC_ENSURE( val( -v ) == static_cast<B>( 0 - a ), "negation" );
	T x = v;
	VC_ENSURE( &++x == &x and val( x ) == static_cast<B>( a + 1 ), "pre-increment" );
	x = v;
	VC_ENSURE( val( x++ ) == a and val( x ) == static_cast<B>( a + 1 ), "post-increment" );
	x = v;
	VC_ENSURE( &--x == &x and val( x ) == static_cast<B>( a - 1 ), "pre-decrement" );
	x = v;
	VC_ENSURE( val( x-- ) == a and val( x ) == static_cast<B>( a - 1 ), "post-decrement" );
}
CONTRACT( unary_8 ) { unary<UInt8>( ); }
CONTRACT( unary_16 ) { unary<UInt16>( ); }
CONTRACT( unary_32 ) { unary<UInt32>( ); }
CONTRACT( unary_64 ) { unary<UInt64>( ); }

template<typename T>
bool bit( T v, std::size_t k ) {
	return ( ( val( v ) >> k ) & 1U ) != 0;
}
template<typename T>
void rotate( ) {
	constexpr std::size_t W = sizeof( T ) * 8;
	auto const v = any_of<T>( "v" );
	auto const n = static_cast<unsigned>( vc::range( "n", 0, W ) );
	auto const k = vc::index( "k", W );
	VC_ENSURE( bit( rotate_left( v, n ), ( k + n ) % W ) == bit( v, k ), "rotate_left" );
	VC_ENSURE( bit( rotate_right( v, n ), ( k + W - n ) % W ) == bit( v, k ), "rotate_right" );
	VC_ENSURE( bit( rotate_left<3>( v ), ( k + 3 ) % W ) == bit( v, k ), "rotate_left by 3" );
	VC_ENSURE( bit( rotate_right<5>( v ), ( k + W - 5 ) % W ) == bit( v, k ), "rotate_right by 5" );
	VC_ENSURE( rotate_left<0>( v ) == v and rotate_left<W>( v ) == v, "rotate_left by nothing" );
	VC_ENSURE( rotate_right<0>( v ) == v and rotate_right<W>( v ) == v, "rotate_right by nothing" );
}
CONTRACT( rotate_8 ) { rotate<UInt8>( ); }
CONTRACT( rotate_16 ) { rotate<UInt16>( ); }
CONTRACT( rotate_32 ) { rotate<UInt32>( ); }
CONTRACT( rotate_64 ) { rotate<UInt64>( ); }

template<typename N>
void convert( ) {
	auto const n = vc::any<N>( "n" );
	VC_ENSURE( val( to_uint8( n ) ) == static_cast<std::uint8_t>( n ), "to_uint8" );
	VC_ENSURE( val( to_uint16( n ) ) == static_cast<std::uint16_t>( n ), "to_uint16" );
	VC_ENSURE( val( to_uint32( n ) ) == static_cast<std::uint32_t>( n ), "to_uint32" );
	VC_ENSURE( val( to_uint64( n ) ) == static_cast<std::uint64_t>( n ), "to_uint64" );
}
CONTRACT( convert_unsigned ) {
	convert<std::uint8_t>( );
	convert<std::uint16_t>( );
	convert<std::uint32_t>( );
	convert<std::uint64_t>( );
}
CONTRACT( convert_signed ) {
	convert<std::int8_t>( );
	convert<std::int16_t>( );
	convert<std::int32_t>( );
	convert<std::int64_t>( );
}
CONTRACT( literals ) {
	auto const n = vc::any<std::uint64_t>( "n" );
	VC_ENSURE( val( daw::operator""_u64( n ) ) == n, "_u64" );
	auto const w = vc::range( "w", 0, UINT32_MAX );
	VC_ENSURE( val( daw::operator""_u32( w ) ) == w, "_u32" );
	auto const h = vc::range( "h", 0, UINT16_MAX );
	VC_ENSURE( val( daw::operator""_u16( h ) ) == h, "_u16" );
	auto const b = vc::range( "b", 0, UINT8_MAX );
	VC_ENSURE( val( daw::operator""_u8( b ) ) == b, "_u8" );
}
template<typename T>
void limits( ) {
	auto const v = any_of<T>( "v" );
	VC_ENSURE( val( ( std::numeric_limits<T>::min )( ) ) <= val( v ), "min" );
	VC_ENSURE( val( std::numeric_limits<T>::lowest( ) ) <= val( v ), "lowest" );
	VC_ENSURE( val( ( std::numeric_limits<T>::max )( ) ) >= val( v ), "max" );
	VC_ENSURE( val( ( std::numeric_limits<T>::max )( ) ) == static_cast<base_t<T>>( ~std::uint64_t{ 0 } ), "max value" );
}
CONTRACT( limits_of_all ) {
	limits<UInt8>( );
	limits<UInt16>( );
	limits<UInt32>( );
	limits<UInt64>( );
}
