// Byte-order conversion.
#include "vc.h"
#include <daw/daw_endian.h>
#include <daw/daw_bit_queues.h>
#include <cstring>

// byte i of the object representation (memory order)
template<typename T>
unsigned char mem( T const &v, std::size_t i ) {
	return reinterpret_cast<unsigned char const *>( &v )[i];
}
// the byte of weight 256^i
template<typename T>
unsigned char weight( T v, std::size_t i ) {
	return static_cast<unsigned char>( static_cast<std::uint64_t>( v ) >> ( i * 8U ) );
}
template<typename T>
void endian( ) {
	auto const v = vc::any<T>( "v" );
	auto const i = vc::index( "i", sizeof( T ) );
	auto const le = daw::to_little_endian( v );
	auto const be = daw::to_big_endian( v );
	VC_ENSURE( mem( le, i ) == weight( v, i ), "little-endian bytes in memory" );
	VC_ENSURE( mem( be, i ) == weight( v, sizeof( T ) - 1 - i ), "big-endian bytes in memory" );
	VC_ENSURE( daw::to_little_endian( le ) == v, "little-endian there and back" );
	VC_ENSURE( daw::to_big_endian( be ) == v, "big-endian there and back" );
	VC_ENSURE( daw::network_to_host_endian( be ) == v, "network order back to host order" );
	VC_ENSURE( daw::to_native_endian<daw::endian::little>( le ) == v, "little-endian back to native order" );
	VC_ENSURE( daw::to_native_endian<daw::endian::big>( be ) == v, "big-endian back to native order" );
	VC_ENSURE( daw::to_native_endian<daw::endian::native>( v ) == v, "native order is unchanged" );
	if constexpr( daw::endian::native == daw::endian::little ) {
		VC_ENSURE( le == v, "a little-endian host is in little-endian order already" );
	} else {
		VC_ENSURE( be == v, "a big-endian host is in big-endian order already" );
	}
}
CONTRACT( endian_i8 ) { endian<std::int8_t>( ); }
CONTRACT( endian_u8 ) { endian<std::uint8_t>( ); }
CONTRACT( endian_i16 ) { endian<std::int16_t>( ); }
CONTRACT( endian_u16 ) { endian<std::uint16_t>( ); }
CONTRACT( endian_i32 ) { endian<std::int32_t>( ); }
CONTRACT( endian_u32 ) { endian<std::uint32_t>( ); }
CONTRACT( endian_i64 ) { endian<std::int64_t>( ); }
CONTRACT( endian_u64 ) { endian<std::uint64_t>( ); }
CONTRACT( endian_long_long ) { endian<long long>( ); }
CONTRACT( endian_unsigned_long_long ) { endian<unsigned long long>( ); }
CONTRACT( endian_char ) { endian<char>( ); }
CONTRACT( endian_char16 ) { endian<char16_t>( ); }
CONTRACT( endian_char32 ) { endian<char32_t>( ); }
CONTRACT( endian_wchar ) { endian<wchar_t>( ); }
// a bit queue fed from a big-endian source holds the value of the source
CONTRACT( bit_queue_source ) {
	auto const v = vc::any<std::uint16_t>( "v" );
	daw::basic_bit_queue<std::uint16_t, std::uint16_t, daw::bit_queue_source_big_endian> b{ };
	b.push_back( daw::to_big_endian( v ) );
	VC_ENSURE( b.value( ) == v, "big-endian source" );
	daw::basic_bit_queue<std::uint16_t, std::uint16_t, daw::bit_queue_source_little_endian> l{ };
	l.push_back( daw::to_little_endian( v ) );
	VC_ENSURE( l.value( ) == v, "little-endian source" );
}
