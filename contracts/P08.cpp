// Comparison of integers of different types.
#include "vc.h"
#include <daw/daw_int_cmp.h>
#include <daw/daw_utility.h>
#include <daw/daw_cxmath.h>
#include <limits>
#include <stdexcept>

// the mathematical value, exact for every built-in integer type
using Z = __int128;
template<typename T, typename U>
void compare( ) {
	auto const t = vc::any<T>( "t" );
	auto const u = vc::any<U>( "u" );
	Z const a = t;
	Z const b = u;
	VC_ENSURE( daw::cmp_equal( t, u ) == ( a == b ), "cmp_equal" );
	VC_ENSURE( daw::cmp_not_equal( t, u ) == ( a != b ), "cmp_not_equal" );
	VC_ENSURE( daw::cmp_less( t, u ) == ( a < b ), "cmp_less" );
	VC_ENSURE( daw::cmp_greater( t, u ) == ( a > b ), "cmp_greater" );
	VC_ENSURE( daw::cmp_less_equal( t, u ) == ( a <= b ), "cmp_less_equal" );
	VC_ENSURE( daw::cmp_greater_equal( t, u ) == ( a >= b ), "cmp_greater_equal" );
	VC_ENSURE( daw::cxmath::cmp_equal( t, u ) == ( a == b ), "cxmath::cmp_equal" );
	VC_ENSURE( daw::cxmath::cmp_not_equal( t, u ) == ( a != b ), "cxmath::cmp_not_equal" );
	VC_ENSURE( daw::cxmath::cmp_less( t, u ) == ( a < b ), "cxmath::cmp_less" );
	VC_ENSURE( daw::cxmath::cmp_greater( t, u ) == ( a > b ), "cxmath::cmp_greater" );
	VC_ENSURE( daw::cxmath::cmp_less_equal( t, u ) == ( a <= b ), "cxmath::cmp_less_equal" );
	VC_ENSURE( daw::cxmath::cmp_greater_equal( t, u ) == ( a >= b ), "cxmath::cmp_greater_equal" );
	bool const fits = a >= static_cast<Z>( std::numeric_limits<U>::min( ) ) and a <= static_cast<Z>( std::numeric_limits<U>::max( ) );
	VC_ENSURE( daw::in_range<U>( t ) == fits, "in_range" );
	bool thrown = false;
	try {
		VC_ENSURE( static_cast<Z>( daw::narrow_cast<U>( t ) ) == a, "narrow_cast keeps the value" );
	} catch( ... ) { thrown = true; }
	VC_ENSURE( thrown == not fits, "narrow_cast rejects exactly the values that do not fit" );
}
template<typename T>
void compare_all( ) {
	compare<T, signed char>( );
	compare<T, unsigned char>( );
	compare<T, short>( );
	compare<T, unsigned short>( );
	compare<T, int>( );
	compare<T, unsigned>( );
	compare<T, long>( );
	compare<T, unsigned long>( );
	compare<T, long long>( );
	compare<T, unsigned long long>( );
	compare<T, char>( );
	auto const t = vc::any<T>( "t" );
	VC_ENSURE( daw::signbit( t ) == ( static_cast<Z>( t ) < 0 ), "signbit" );
}
CONTRACT( compare_signed_char ) { compare_all<signed char>( ); }
CONTRACT( compare_unsigned_char ) { compare_all<unsigned char>( ); }
CONTRACT( compare_short ) { compare_all<short>( ); }
CONTRACT( compare_unsigned_short ) { compare_all<unsigned short>( ); }
CONTRACT( compare_int ) { compare_all<int>( ); }
CONTRACT( compare_unsigned ) { compare_all<unsigned>( ); }
CONTRACT( compare_long ) { compare_all<long>( ); }
CONTRACT( compare_unsigned_long ) { compare_all<unsigned long>( ); }
CONTRACT( compare_long_long ) { compare_all<long long>( ); }
CONTRACT( compare_unsigned_long_long ) { compare_all<unsigned long long>( ); }
CONTRACT( compare_char ) { compare_all<char>( ); }
CONTRACT( value_in_bounds ) {
	auto const v = vc::any<int>( "v" );
	auto const lo = vc::any<int>( "lo" );
	auto const hi = vc::any<int>( "hi" );
	VC_ENSURE( daw::in_range( v, lo, hi ) == ( lo <= v and v < hi ), "in_range of a half-open range" );
}
