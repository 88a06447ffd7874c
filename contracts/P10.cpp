// Math helpers usable in constant expressions.
#include "vc.h"
#include <daw/daw_cxmath.h>
#include <daw/daw_math.h>
#include <cstring>

namespace cx = daw::cxmath;
template<typename F>
struct bits_of;
template<>
struct bits_of<double> { using type = std::uint64_t; };
template<>
struct bits_of<float> { using type = std::uint32_t; };
template<typename F>
using bits_t = typename bits_of<F>::type;
template<typename F>
bits_t<F> bits( F f ) {
	return __builtin_bit_cast( bits_t<F>, f );
}
template<typename F>
F from_bits( bits_t<F> b ) {
	return __builtin_bit_cast( F, b );
}
template<typename F>
inline constexpr int mant = std::is_same_v<F, double> ? 52 : 23;
template<typename F>
inline constexpr int bias = std::is_same_v<F, double> ? 1023 : 127;
template<typename F>
inline constexpr int top = std::is_same_v<F, double> ? 2047 : 255;
template<typename F>
bits_t<F> sign_part( F f ) {
	return bits( f ) >> ( sizeof( F ) * 8 - 1 );
}
template<typename F>
int exp_part( F f ) {
	return static_cast<int>( ( bits( f ) >> mant<F> ) & static_cast<bits_t<F>>( top<F> ) );
}
template<typename F>
bits_t<F> mant_part( F f ) {
	return bits( f ) & ( ( bits_t<F>{ 1 } << mant<F> ) - 1U );
}
template<typename F>
F make( bits_t<F> s, int e, bits_t<F> m ) {
	return from_bits<F>( ( s << ( sizeof( F ) * 8 - 1 ) ) | ( static_cast<bits_t<F>>( e ) << mant<F> ) | m );
}
template<typename F>
F any_float( char const *name ) {
	return from_bits<F>( vc::any<bits_t<F>>( name ) );
}

template<typename F>
void classify( ) {
	auto const f = any_float<F>( "f" );
	bool const max_e = exp_part( f ) == top<F>;
	bool const zero_e = exp_part( f ) == 0;
	bool const m = mant_part( f ) != 0;
	auto const c = cx::fp_classify( f );
	VC_ENSURE( ( c == cx::fp_classes::nan ) == ( max_e and m ), "nan" );
	VC_ENSURE( ( c == cx::fp_classes::infinity ) == ( max_e and not m ), "infinity" );
	VC_ENSURE( ( c == cx::fp_classes::zero ) == ( zero_e and not m ), "zero" );
	VC_ENSURE( ( c == cx::fp_classes::subnormal ) == ( zero_e and m ), "subnormal" );
	VC_ENSURE( ( c == cx::fp_classes::normal ) == ( not zero_e and not max_e ), "normal" );
	VC_ENSURE( cx::is_nan( f ) == ( f != f ), "is_nan" );
	VC_ENSURE( cx::is_inf( f ) == ( max_e and not m ), "is_inf" );
	VC_ENSURE( cx::is_finite( f ) == not max_e, "is_finite" );
}
CONTRACT( classify_float ) { classify<float>( ); }
CONTRACT( classify_double ) { classify<double>( ); }

template<typename F>
void parts( ) {
	auto const f = any_float<F>( "f" );
	VC_ENSURE( cx::get_exponent( f ) == exp_part( f ) - bias<F>, "get_exponent" );
	VC_ENSURE( cx::intxp( f ).has_value( ) and *cx::intxp( f ) == exp_part( f ) - bias<F>, "intxp" );
	VC_ENSURE( static_cast<bits_t<F>>( cx::get_significand( f ) ) == mant_part( f ), "get_significand" );
	// every exponent of a normal number
	auto const e = static_cast<int>( vc::srange( "e", 1 - bias<F>, bias<F> ) );
	VC_ENSURE( bits( cx::set_exponent( f, e ) ) == bits( make<F>( sign_part( f ), e + bias<F>, mant_part( f ) ) ), "set_exponent" );
	VC_ENSURE( bits( cx::pow2<F>( e ) ) == bits( make<F>( 0, e + bias<F>, 0 ) ), "pow2" );
	auto const big = vc::any<std::int32_t>( "big" );
	vc::assume( big > bias<F> );
	VC_ENSURE( cx::is_inf( cx::pow2<F>( big ) ) and cx::pow2<F>( big ) > 0, "pow2 beyond the range" );
	auto const tiny = vc::any<std::int32_t>( "tiny" );
	vc::assume( tiny < 1 - bias<F> );
	VC_ENSURE( bits( cx::pow2<F>( tiny ) ) == 0, "pow2 below the range" );
	auto const s = any_float<F>( "s" );
	VC_ENSURE( bits( cx::copy_sign( f, s ) ) == bits( make<F>( sign_part( s ), exp_part( f ), mant_part( f ) ) ), "copy_sign" );
}
CONTRACT( parts_float ) { parts<float>( ); }
CONTRACT( parts_double ) { parts<double>( ); }
template<typename F>
bits_t<F> make_abs( F f ) {
	return bits( make<F>( 0, exp_part( f ), mant_part( f ) ) );
}
template<typename F>
void absolute( ) {
	auto const f = any_float<F>( "f" );
	vc::assume( f == f );
	VC_ENSURE( cx::abs( f ) == from_bits<F>( make_abs( f ) ), "abs" );
	VC_ENSURE( daw::math::abs( f ) == from_bits<F>( make_abs( f ) ), "math::abs" );
	VC_ENSURE( daw::float_abs( f ) == from_bits<F>( make_abs( f ) ), "float_abs" );
}
CONTRACT( abs_float ) { absolute<float>( ); }
CONTRACT( abs_double ) { absolute<double>( ); }
CONTRACT( fpow2 ) {
	auto const e = static_cast<int>( vc::srange( "e", -126, 127 ) );
	VC_ENSURE( bits( cx::fpow2( e ) ) == static_cast<std::uint32_t>( e + 127 ) << 23U, "fpow2" );
}
CONTRACT( dpow2 ) {
	auto const e = static_cast<int>( vc::srange( "e", -307, 307 ) );
	VC_ENSURE( bits( cx::dpow2( e ) ) == static_cast<std::uint64_t>( e + 1023 ) << 52U, "dpow2" );
}
CONTRACT( ldexp ) {
	auto const d = any_float<double>( "d" );
	auto const e = static_cast<int>( vc::srange( "e", -1022, 1023 ) );
	auto const x = cx::ldexp( d, e );
	auto const y = d * make<double>( 0, e + 1023, 0 );
	VC_ENSURE( x == y or ( x != x and y != y ), "ldexp multiplies by the power of two" );
}
CONTRACT( exponent_raw ) {
	auto const d = any_float<double>( "d" );
	VC_ENSURE( cx::get_exponent_raw( d ) == static_cast<std::uint64_t>( exp_part( d ) ), "get_exponent_raw" );
	// the neighbours in the order of bit patterns
	auto const n = vc::srange( "n", -1000000, 1000000 );
	VC_ENSURE( bits( cx::adj_ulp( d, static_cast<int>( n ) ) ) == bits( d ) + static_cast<std::uint64_t>( n ), "adj_ulp" );
}

// ---- bits
template<typename U>
void leading( ) {
	constexpr std::size_t W = sizeof( U ) * 8;
	auto const v = vc::any<U>( "v" );
	auto const n = static_cast<std::size_t>( cx::count_leading_zeroes( v ) );
	VC_ENSURE( n <= W and ( n == W ) == ( v == 0 ), "all bits clear" );
	VC_ENSURE( n == W or ( v >> ( W - 1 - n ) ) == 1, "the first set bit" );
}
CONTRACT( leading_zeroes_unsigned ) { leading<unsigned>( ); }
CONTRACT( leading_zeroes_unsigned_long ) { leading<unsigned long>( ); }
CONTRACT( leading_zeroes_unsigned_long_long ) { leading<unsigned long long>( ); }
CONTRACT( leading_zeroes_uint_types ) {
	auto const a = vc::any<std::uint32_t>( "a" );
	VC_ENSURE( cx::count_leading_zeroes( daw::UInt32{ a } ) == cx::count_leading_zeroes( a ), "UInt32" );
	auto const b = vc::any<std::uint64_t>( "b" );
	VC_ENSURE( cx::count_leading_zeroes( daw::UInt64{ b } ) == cx::count_leading_zeroes( b ), "UInt64" );
}
template<typename U>
void trailing( ) {
	constexpr std::size_t W = sizeof( U ) * 8;
	auto const v = vc::any<U>( "v" );
	auto const n = static_cast<std::size_t>( cx::count_trailing_zeros( v ) );
	VC_ENSURE( n <= W and ( n == W ) == ( v == 0 ), "all bits clear" );
	VC_ENSURE( n == W or static_cast<U>( v << ( W - 1 - n ) ) == static_cast<U>( U{ 1 } << ( W - 1 ) ), "the last set bit" );
	auto const m = static_cast<std::size_t>( cx::cxmath_impl::count_trailing_zeros_cx( v ) );
	VC_ENSURE( m == n, "the constant-expression version agrees" );
}
CONTRACT( trailing_zeros_u32 ) { trailing<std::uint32_t>( ); }
CONTRACT( trailing_zeros_u64 ) { trailing<std::uint64_t>( ); }
template<typename I>
void population( ) {
	auto const v = vc::any<I>( "v" );
	using U = std::conditional_t<sizeof( I ) == 8, std::uint64_t, std::uint32_t>;
	auto const u = static_cast<U>( static_cast<std::make_unsigned_t<I>>( v ) );
	U n = 0;
	for( std::size_t k = 0; k < sizeof( I ) * 8; ++k ) {
		n += ( u >> k ) & 1U;
	}
	VC_ENSURE( cx::popcount( v ) == static_cast<int>( n ), "popcount" );
}
CONTRACT( popcount_i8 ) { population<std::int8_t>( ); }
CONTRACT( popcount_u8 ) { population<std::uint8_t>( ); }
CONTRACT( popcount_i16 ) { population<std::int16_t>( ); }
CONTRACT( popcount_u16 ) { population<std::uint16_t>( ); }
CONTRACT( popcount_i32 ) { population<std::int32_t>( ); }
CONTRACT( popcount_u32 ) { population<std::uint32_t>( ); }
CONTRACT( popcount_i64 ) { population<std::int64_t>( ); }
CONTRACT( popcount_u64 ) { population<std::uint64_t>( ); }
template<typename U>
void round_up( ) {
	constexpr std::size_t W = sizeof( U ) * 8;
	auto const v = vc::any<U>( "v" );
	vc::assume( v <= U{ 1 } << ( W - 1 ) );
	U const r = cx::round_up_pow2( v );
	VC_ENSURE( ( r & ( r - 1U ) ) == 0, "a power of two (or zero)" );
	VC_ENSURE( r >= v and ( v == 0 ? r == 0 : r / 2 < v ), "the smallest one not below the value" );
}
CONTRACT( round_up_pow2_u32 ) { round_up<std::uint32_t>( ); }
CONTRACT( round_up_pow2_u64 ) { round_up<std::uint64_t>( ); }
template<typename I>
void parity( ) {
	auto const v = vc::any<I>( "v" );
	VC_ENSURE( cx::is_odd( v ) == ( v % 2 != 0 ), "is_odd" );
	VC_ENSURE( cx::is_even( v ) == ( v % 2 == 0 ), "is_even" );
	VC_ENSURE( cx::signbit( v ) == ( v < 0 ), "signbit" );
	VC_ENSURE( cx::to_unsigned( cx::to_signed( v ) ) == static_cast<std::make_unsigned_t<I>>( v ), "to_signed and to_unsigned" );
}
CONTRACT( parity_signed ) {
	parity<std::int8_t>( );
	parity<std::int16_t>( );
	parity<std::int32_t>( );
	parity<std::int64_t>( );
}
CONTRACT( parity_unsigned ) {
	parity<std::uint8_t>( );
	parity<std::uint16_t>( );
	parity<std::uint32_t>( );
	parity<std::uint64_t>( );
}
template<typename I>
void integer_abs( ) {
	auto const v = vc::any<I>( "v" );
	__int128 const a = v < 0 ? -static_cast<__int128>( v ) : static_cast<__int128>( v );
	VC_ENSURE( static_cast<__int128>( daw::math::abs( v ) ) == a, "abs" );
}
CONTRACT( integer_abs_8 ) { integer_abs<std::int8_t>( ); }
CONTRACT( integer_abs_16 ) { integer_abs<std::int16_t>( ); }
CONTRACT( integer_abs_32 ) { integer_abs<std::int32_t>( ); }
CONTRACT( integer_abs_64 ) { integer_abs<std::int64_t>( ); }
CONTRACT( integer_abs_unsigned ) {
	auto v = vc::any<std::uint64_t>( "v" );
	VC_ENSURE( daw::math::abs( static_cast<std::uint64_t>( v ) ) == v, "abs of an unsigned value" );
}

// ---- powers
CONTRACT( math_pow2 ) {
	auto const n = vc::range( "n", 0, 63 );
	vc_unroll( 64 );
	VC_ENSURE( daw::math::pow2<std::uintmax_t>( n ) == std::uintmax_t{ 1 } << n, "pow2" );
}
extern "C" __attribute__( ( noinline ) ) std::uint64_t vcspec_power( std::uint64_t x, std::uint64_t n ) {
	return n == 0 ? 1 : vcspec_power( x, n - 1 ) * x;
}
CONTRACT( math_pow ) {
	auto const x = vc::any<std::uint64_t>( "x" );
	vc::assume( x != 0 );
	auto const n = vc::size( "n" );
	auto h = [&]( std::uint64_t r, std::uint64_t i ) { return r == vcspec_power( x, i ); };
	vc::hint( h );
	VC_ENSURE( daw::math::pow( x, n ) == vcspec_power( x, n ), "the product of n factors" );
}
CONTRACT( math_pow_small ) {
	auto const x = vc::any<std::uint32_t>( "x" );
	VC_ENSURE( daw::math::pow( x, 0 ) == 1 or x == 0, "power 0" );
	VC_ENSURE( daw::math::pow( x, 1 ) == x, "power 1" );
	VC_ENSURE( daw::math::pow( x, 2 ) == x * x, "power 2" );
	VC_ENSURE( daw::math::pow( x, 3 ) == x * x * x, "power 3" );
}
template<unsigned N>
void power_n( ) {
	auto const x = vc::any<std::uint64_t>( "x" );
	std::uint64_t p = 1;
	for( unsigned k = 0; k < N; ++k ) {
		p *= x;
	}
	VC_ENSURE( cx::pow_n( x, N ) == p, "pow_n" );
}
template<std::size_t... Ns>
void powers( std::index_sequence<Ns...> ) {
	( power_n<static_cast<unsigned>( Ns )>( ), ... );
}
CONTRACT( pow_n_16 ) { powers( std::make_index_sequence<17>{ } ); }
CONTRACT( pow10 ) {
	auto const n = vc::range( "n", 0, 18 );
	auto const r = cx::pow10( n );
	VC_ENSURE( n == 0 ? r == 1 : r == 10 * cx::pow10( n - 1 ), "pow10" );
	VC_ENSURE( cx::powers_of_ten[n] == 10 * r, "powers_of_ten" );
	VC_ENSURE( cx::pow10_v<18> == r or n != 18, "pow10_v" );
}
CONTRACT( count_digits ) {
	auto const v = vc::any<std::uint64_t>( "v" );
	auto const n = cx::count_digits( v );
	VC_ENSURE( n >= 1 and n <= 20, "between 1 and 20 digits" );
	VC_ENSURE( n == 1 or v >= cx::powers_of_ten[n - 2], "not fewer digits" );
	VC_ENSURE( n == 20 or v < cx::powers_of_ten[n - 1], "not more digits" );
}
template<int N>
void factorial_of( std::uint64_t f ) {
	VC_ENSURE( daw::math::factorial( N ) == f, "factorial" );
	if constexpr( N < 20 ) {
		factorial_of<N + 1>( f * ( N + 1 ) );
	}
}
CONTRACT( factorial ) {
	vc_unroll( 21 );
	factorial_of<0>( 1 );
}

// ---- rounding to integers (values whose integral part fits)
template<typename F>
F below( F limit ) {
	auto const f = any_float<F>( "f" );
	vc::assume( f > -limit and f < limit );
	return f;
}
template<typename F, typename R>
void floor_of( F limit ) {
	auto const f = below( limit );
	auto const r = static_cast<F>( daw::math::floor<R>( f ) );
	VC_ENSURE( r <= f, "floor is not above" );
	VC_ENSURE( f < r + 1, "floor is less than one below" );
}
template<typename F, typename R>
void ceil_of( F limit ) {
	auto const f = below( limit );
	auto const r = static_cast<F>( daw::math::ceil<R>( f ) );
	VC_ENSURE( r >= f, "ceil is not below" );
	VC_ENSURE( f > r - 1, "ceil is less than one above" );
}
template<typename F, typename R>
void round_of( F limit ) {
	auto const f = below( limit );
	auto const r = static_cast<F>( daw::math::round<R>( f ) );
	VC_ENSURE( r - static_cast<F>( 0.5 ) <= f, "round is at most one half above" );
	VC_ENSURE( f <= r + static_cast<F>( 0.5 ), "round is at most one half below" );
}
CONTRACT( floor_float ) { floor_of<float, std::int32_t>( 1048576.0F ); }
CONTRACT( floor_double ) { floor_of<double, std::int32_t>( 1048576.0 ); }
CONTRACT( ceil_float ) { ceil_of<float, std::int32_t>( 1048576.0F ); }
CONTRACT( ceil_double ) { ceil_of<double, std::int32_t>( 1048576.0 ); }
CONTRACT( round_float ) { round_of<float, std::int32_t>( 1048576.0F ); }
CONTRACT( round_double ) { round_of<double, std::int32_t>( 1048576.0 ); }

// ---- minimum and maximum
template<typename T>
void min_max( ) {
	auto const a = vc::any<T>( "a" );
	auto const b = vc::any<T>( "b" );
	auto const c = vc::any<T>( "c" );
	VC_ENSURE( ( daw::max )( a, b ) == ( a < b ? b : a ), "max of two" );
	VC_ENSURE( ( daw::min )( a, b ) == ( b < a ? b : a ), "min of two" );
	auto const m = ( daw::max )( a, b, c );
	VC_ENSURE( m >= a and m >= b and m >= c and ( m == a or m == b or m == c ), "max of three" );
	auto const n = ( daw::min )( a, b, c );
	VC_ENSURE( n <= a and n <= b and n <= c and ( n == a or n == b or n == c ), "min of three" );
	VC_ENSURE( ( daw::max )( a ) == a and ( daw::min )( a ) == a, "of one" );
	VC_ENSURE( daw::min_comp( a, b ) == ( a < b ? a : b ) and daw::max_comp( a, b ) == ( b < a ? a : b ), "with a comparison" );
	VC_ENSURE( daw::math::value_or_min( a, b ) == ( b > a ? b : a ), "value_or_min" );
}
CONTRACT( min_max_i32 ) { min_max<std::int32_t>( ); }
CONTRACT( min_max_u64 ) { min_max<std::uint64_t>( ); }
CONTRACT( square ) {
	auto const v = static_cast<std::int64_t>( vc::srange( "v", -2000000000, 2000000000 ) );
	VC_ENSURE( daw::math::sqr( v ) == v * v, "sqr" );
}
