// P23: hash functions compute their published definition
#include "vc.h"
#include <daw/daw_fnv1a_hash.h>
#include <daw/daw_generic_hash.h>
#include <daw/daw_metro_hash.h>
#include <daw/daw_sip_hash.h>
#include <daw/daw_string_view.h>
#include <string_view>

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// ---- FNV-1a -------------------------------------------------------------------------
template<typename T>
static constexpr u64 fnv_add( u64 h, T x ) {
	auto b = static_cast<std::make_unsigned_t<T>>( x );
	for( std::size_t i = 0; i < sizeof( T ); ++i ) {
		h = ( h ^ static_cast<u8>( static_cast<u64>( b ) >> ( 8 * i ) ) ) * 1099511628211ULL;
	}
	return h;
}
template<typename T>
static constexpr u32 fnv_add32( u32 h, T x ) {
	auto b = static_cast<std::make_unsigned_t<T>>( x );
	for( std::size_t i = 0; i < sizeof( T ); ++i ) {
		h = ( h ^ static_cast<u8>( static_cast<u64>( b ) >> ( 8 * i ) ) ) * 16777619U;
	}
	return h;
}
static constexpr u64 fnv_start = 14695981039346656037ULL;
static constexpr u32 fnv_start32 = 2166136261U;

extern "C" __attribute__( ( noinline ) ) u64 vcspec_fnv_char( char const *p, std::size_t n ) {
	if( n == 0 ) return fnv_start;
	return fnv_add( vcspec_fnv_char( p, n - 1 ), p[n - 1] );
}
extern "C" __attribute__( ( noinline ) ) u64 vcspec_fnv_uchar( unsigned char const *p, std::size_t n ) {
	if( n == 0 ) return fnv_start;
	return fnv_add( vcspec_fnv_uchar( p, n - 1 ), p[n - 1] );
}
extern "C" __attribute__( ( noinline ) ) u64 vcspec_fnv_int( int const *p, std::size_t n ) {
	if( n == 0 ) return fnv_start;
	return fnv_add( vcspec_fnv_int( p, n - 1 ), p[n - 1] );
}
extern "C" __attribute__( ( noinline ) ) u64 vcspec_fnv32_char( char const *p, std::size_t n ) {
	if( n == 0 ) return fnv_start32;
	return fnv_add32( static_cast<u32>( vcspec_fnv32_char( p, n - 1 ) ), p[n - 1] );
}
extern "C" __attribute__( ( noinline ) ) u64 vcspec_fnv32_int( int const *p, std::size_t n ) {
	if( n == 0 ) return fnv_start32;
	return fnv_add32( static_cast<u32>( vcspec_fnv32_int( p, n - 1 ) ), p[n - 1] );
}

#define HASH_OF( T, spec, what, ... ) HASH_AS( u64, T, spec, what, __VA_ARGS__ )
#define HASH_AS( H, T, spec, what, ... )                                                         \
	auto const n = vc::range( "n", 0, std::size_t{ 1 } << 40U );                                \
	T const *const p = vc::array<T>( n, "data" );                                               \
	auto h = [&]( std::uint64_t x, std::uint64_t i ) { return i <= n and static_cast<H>( x ) == static_cast<H>( spec( p, i ) ); }; \
	vc::hint( h );                                                                              \
	auto within = [&]( std::uint64_t i ) { return i <= n; };                                      \
	vc::hint( within );                                                                         \
	auto same = [&]( std::uint64_t a, std::uint64_t b ) { return a == b and a <= n; };            \
	vc::hint( same );                                                                           \
	vc::manual( );                                                                              \
	vc_opt( "bv", 1 );                                                                          \
	H const r = __VA_ARGS__;                                                                  \
	VC_ENSURE( r == static_cast<H>( spec( p, n ) ), what );

CONTRACT( fnv1a_pointer_and_length ) {
	HASH_OF( char, vcspec_fnv_char, "FNV-1a of the bytes", daw::fnv1a_hash( p, n ) )
}
CONTRACT( fnv1a_unsigned_bytes ) {
	HASH_OF( unsigned char, vcspec_fnv_uchar, "FNV-1a of the bytes", daw::fnv1a_hash( p, n ) )
}
CONTRACT( fnv1a_elements ) {
	HASH_OF( int, vcspec_fnv_int, "FNV-1a of the bytes of the elements", daw::fnv1a_hash( p, n ) )
}
CONTRACT( fnv1a_range ) {
	HASH_OF( char, vcspec_fnv_char, "FNV-1a of the range", daw::fnv1a_hash_t{ }( p, p + n ) )
}
CONTRACT( fnv1a_range_elements ) {
	HASH_OF( int, vcspec_fnv_int, "FNV-1a of the range", daw::fnv1a_hash_t{ }( p, p + n ) )
}
CONTRACT( fnv1a_text ) {
	HASH_OF( char, vcspec_fnv_char, "FNV-1a of the characters", daw::fnv1a_hash_t{ }( daw::string_view( p, n ) ) )
}
CONTRACT( fnv1a_std_text ) {
	HASH_OF( char, vcspec_fnv_char, "FNV-1a of the characters", daw::fnv1a_hash_t{ }( std::string_view( p, n ) ) )
}
CONTRACT( fnv1a_function_text ) {
	HASH_OF( char, vcspec_fnv_char, "FNV-1a of the characters", daw::fnv1a_hash( daw::string_view( p, n ) ) )
}
CONTRACT( fnv1a_function_std_text ) {
	HASH_OF( char, vcspec_fnv_char, "FNV-1a of the characters", daw::fnv1a_hash( std::string_view( p, n ) ) )
}
#define C_STRING( ... )                                                                         \
	auto const n = vc::range( "n", 0, std::size_t{ 1 } << 40U );                                  \
	char *const p = vc::zarray<char>( n, "text" );                                          \
	vc::each( p, n, []( char c ) { return c != 0; }, 'z' );                                       \
	auto h = [&]( std::uint64_t x, std::uint64_t i ) { return x == vcspec_fnv_char( p, i ); };    \
	vc::hint( h );                                                                                \
	u64 const r = __VA_ARGS__;                                                                    \
	VC_ENSURE( r == vcspec_fnv_char( p, n ), "FNV-1a of the characters before the terminator" );
CONTRACT( fnv1a_c_string ) {
	C_STRING( daw::fnv1a_hash( p ) )
}
CONTRACT( fnv1a_object_c_string ) {
	C_STRING( daw::fnv1a_hash_t{ }( p ) )
}
template<typename T>
static void one_integer( ) {
	auto const x = vc::any<T>( "x" );
	auto const h = vc::any<u64>( "h" );
	VC_ENSURE( daw::fnv1a_hash( x ) == fnv_add( fnv_start, x ), "FNV-1a of the bytes of an integer" );
	VC_ENSURE( daw::fnv1a_hash_t{ }( x ) == fnv_add( fnv_start, x ), "FNV-1a of the bytes of an integer" );
	VC_ENSURE( daw::fnv1a_hash_t::append_hash( h, x ) == fnv_add( h, x ), "continues any hash" );
	VC_ENSURE( daw::generic_hash<8>( x ) == fnv_add( fnv_start, x ), "generic 64 bit" );
	VC_ENSURE( daw::generic_hash<4>( x ) == fnv_add32( fnv_start32, x ), "generic 32 bit" );
	VC_ENSURE( daw::generic_hash( x ) == fnv_add( fnv_start, x ), "generic" );
	VC_ENSURE( daw::generic_hash_t<8>::append_hash( h, x ) == fnv_add( h, x ), "generic 64 bit continues any hash" );
	VC_ENSURE( daw::generic_hash_t<4>::append_hash( static_cast<u32>( h ), x ) == fnv_add32( static_cast<u32>( h ), x ), "generic 32 bit continues any hash" );
}
CONTRACT( fnv1a_char ) {
	one_integer<char>( );
}
CONTRACT( fnv1a_unsigned_char ) {
	one_integer<unsigned char>( );
}
CONTRACT( fnv1a_short ) {
	one_integer<short>( );
}
CONTRACT( fnv1a_int ) {
	one_integer<int>( );
}
CONTRACT( fnv1a_unsigned ) {
	one_integer<unsigned>( );
}
CONTRACT( fnv1a_long ) {
	one_integer<long long>( );
}
CONTRACT( fnv1a_unsigned_long ) {
	one_integer<unsigned long long>( );
}
CONTRACT( fnv1a_array ) {
	int const a[3] = { vc::any<int>( "a" ), vc::any<int>( "b" ), vc::any<int>( "c" ) };
	auto e32 = fnv_start32;
	for( int x : a ) {
		e32 = fnv_add32( e32, x );
	}
	VC_ENSURE( daw::generic_hash_t<4>{ }( a ) == e32, "generic 32 bit array" );
}
CONTRACT( fnv1a_object_bytes ) {
	struct two {
		u32 a;
		u8 b[4];
	};
	two const t{ vc::any<u32>( "a" ), { vc::any<u8>( "b0" ), vc::any<u8>( "b1" ), vc::any<u8>( "b2" ), vc::any<u8>( "b3" ) } };
	auto e = fnv_add( fnv_start, t.a );
	for( u8 x : t.b ) {
		e = fnv_add( e, x );
	}
	VC_ENSURE( daw::fnv1a_hash_t{ }( &t ) == e, "FNV-1a of the bytes of an object" );
}
CONTRACT( generic_pointer_and_length ) {
	HASH_OF( char, vcspec_fnv_char, "FNV-1a of the bytes", daw::generic_hash( p, n ) )
}
CONTRACT( generic_range ) {
	HASH_OF( int, vcspec_fnv_int, "FNV-1a of the range", daw::generic_hash<8>( p, p + n ) )
}
CONTRACT( generic_object_range ) {
	HASH_OF( int, vcspec_fnv_int, "FNV-1a of the range", daw::generic_hash_t<8>{ }( p, p + n ) )
}
CONTRACT( generic_text ) {
	HASH_OF( char, vcspec_fnv_char, "FNV-1a of the characters", daw::generic_hash( daw::string_view( p, n ) ) )
}
CONTRACT( generic32_pointer_and_length ) {
	HASH_AS( u32, char, vcspec_fnv32_char, "FNV-1a of the bytes", daw::generic_hash<4>( p, n ) )
}
CONTRACT( generic32_range ) {
	HASH_AS( u32, int, vcspec_fnv32_int, "FNV-1a of the range", daw::generic_hash<4>( p, p + n ) )
}
CONTRACT( generic32_object_range ) {
	HASH_AS( u32, int, vcspec_fnv32_int, "FNV-1a of the range", daw::generic_hash_t<4>{ }( p, p + n ) )
}
// values of the published test suite, computed at compile time
CONTRACT( fnv1a_published_vectors ) {
	constexpr auto a = daw::fnv1a_hash_t{ }( daw::string_view( "a", 1 ) );
	constexpr auto foobar = daw::fnv1a_hash( "foobar", 6 );
	constexpr auto none = daw::fnv1a_hash( "", 0 );
	VC_ENSURE( none == 0xcbf29ce484222325ULL and a == 0xaf63dc4c8601ec8cULL and foobar == 0x85944171f73967e8ULL, "published values" );
	constexpr auto foobar32 = daw::generic_hash<4>( "foobar", std::size_t{ 6 } );
	VC_ENSURE( foobar32 == 0xbf9cf968U, "published 32 bit value" );
}

// ---- SipHash-2-4 --------------------------------------------------------------------
static constexpr u64 rotl( u64 x, unsigned b ) {
	return ( x << b ) | ( x >> ( 64 - b ) );
}
static constexpr u64 le64( char const *p ) {
	u64 r = 0;
	for( unsigned i = 0; i < 8; ++i ) {
		r |= static_cast<u64>( static_cast<u8>( p[i] ) ) << ( 8 * i );
	}
	return r;
}
struct sip {
	u64 v0, v1, v2, v3;
	constexpr void round( ) {
		v0 += v1;
		v1 = rotl( v1, 13 );
		v1 ^= v0;
		v0 = rotl( v0, 32 );
		v2 += v3;
		v3 = rotl( v3, 16 );
		v3 ^= v2;
		v0 += v3;
		v3 = rotl( v3, 21 );
		v3 ^= v0;
		v2 += v1;
		v1 = rotl( v1, 17 );
		v1 ^= v2;
		v2 = rotl( v2, 32 );
	}
	constexpr void block( u64 m ) {
		v3 ^= m;
		round( );
		round( );
		v0 ^= m;
	}
	constexpr u64 finish( ) {
		v2 ^= 0xff;
		round( );
		round( );
		round( );
		round( );
		return v0 ^ v1 ^ v2 ^ v3;
	}
};
static sip sip_after( char const *p, char const *key, std::size_t bytes );
// word w of the state after the first bytes (whole blocks) of the data
extern "C" __attribute__( ( noinline ) ) u64 vcspec_sip_state( char const *p, char const *key, std::size_t bytes, std::size_t w ) {
	if( bytes == 0 ) {
		return w == 0 ? le64( key ) ^ 0x736f6d6570736575ULL : w == 1 ? le64( key + 8 ) ^ 0x646f72616e646f6dULL : w == 2 ? le64( key ) ^ 0x6c7967656e657261ULL : le64( key + 8 ) ^ 0x7465646279746573ULL;
	}
	sip s = sip_after( p, key, bytes - 8 );
	s.block( le64( p + ( bytes - 8 ) ) );
	return w == 0 ? s.v0 : w == 1 ? s.v1 : w == 2 ? s.v2 : s.v3;
}
static sip sip_after( char const *p, char const *key, std::size_t bytes ) {
	return { vcspec_sip_state( p, key, bytes, 0 ), vcspec_sip_state( p, key, bytes, 1 ), vcspec_sip_state( p, key, bytes, 2 ), vcspec_sip_state( p, key, bytes, 3 ) };
}
template<unsigned Rest>
static void sip_with_rest( ) {
#ifdef VC_NATIVE
	auto const blocks = vc::range( "blocks", 0, 4 );
#else
	auto const blocks = vc::range( "blocks", 0, std::size_t{ 1 } << 37U );
#endif
	auto const n = blocks * 8 + Rest;
	auto const *const p = vc::array<char>( n, "data" );
	auto const *const key = vc::array<char>( 16, "key" );
	auto s0 = [&]( u64 v, u64 rest ) { return rest <= n and ( n - rest ) % 8 == 0 and v == vcspec_sip_state( p, key, n - rest, 0 ); };
	auto s1 = [&]( u64 v, u64 rest ) { return rest <= n and ( n - rest ) % 8 == 0 and v == vcspec_sip_state( p, key, n - rest, 1 ); };
	auto s2 = [&]( u64 v, u64 rest ) { return rest <= n and ( n - rest ) % 8 == 0 and v == vcspec_sip_state( p, key, n - rest, 2 ); };
	auto s3 = [&]( u64 v, u64 rest ) { return rest <= n and ( n - rest ) % 8 == 0 and v == vcspec_sip_state( p, key, n - rest, 3 ); };
	auto at = [&]( u64 o, u64 rest ) { return o <= n and o % 8 == 0 and rest == n - o; };
	vc::hint( at );
	vc::manual( );
	vc_opt( "bv", 1 );
	vc_opt( "nosample", 1 );
	vc::hint( s0 );
	vc::hint( s1 );
	vc::hint( s2 );
	vc::hint( s3 );
	u64 const r = daw::siphash24( p, n, key );
	sip s = sip_after( p, key, blocks * 8 );
	u64 last = static_cast<u64>( n ) << 56U;
	for( unsigned i = 0; i < Rest; ++i ) {
		last |= static_cast<u64>( static_cast<u8>( p[blocks * 8 + i] ) ) << ( 8 * i );
	}
	s.block( last );
	VC_ENSURE( r == s.finish( ), "SipHash-2-4" );
}
CONTRACT( siphash24_rest_0 ) {
	sip_with_rest<0>( );
}
CONTRACT( siphash24_rest_1 ) {
	sip_with_rest<1>( );
}
CONTRACT( siphash24_rest_2 ) {
	sip_with_rest<2>( );
}
CONTRACT( siphash24_rest_3 ) {
	sip_with_rest<3>( );
}
CONTRACT( siphash24_rest_4 ) {
	sip_with_rest<4>( );
}
CONTRACT( siphash24_rest_5 ) {
	sip_with_rest<5>( );
}
CONTRACT( siphash24_rest_6 ) {
	sip_with_rest<6>( );
}
CONTRACT( siphash24_rest_7 ) {
	sip_with_rest<7>( );
}
CONTRACT( siphash24_published_vectors ) {
	constexpr char k[16] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 };
	constexpr auto none = daw::siphash24( k, 0, k );
	constexpr auto fifteen = daw::siphash24( k, 15, k );
	VC_ENSURE( none == 0x726fdb47dd0e0e31ULL and fifteen == 0xa129ca6149be45e5ULL, "published values" );
}

// ---- MetroHash64 --------------------------------------------------------------------
static constexpr u64 k0 = 0xD6D018F5;
static constexpr u64 k1 = 0xA2AA033B;
static constexpr u64 k2 = 0x62992FC1;
static constexpr u64 k3 = 0x30BC5B29;
static constexpr u64 rotr( u64 x, unsigned b ) {
	return ( x >> b ) | ( x << ( 64 - b ) );
}
extern "C" __attribute__( ( noinline ) ) u64 vcspec_metro_state( char const *p, u64 seed, std::size_t bytes, std::size_t w ) {
	if( bytes == 0 ) return ( seed + k2 ) * k0;
	auto const *const q = p + ( bytes - 32 );
	u64 v[4] = { vcspec_metro_state( p, seed, bytes - 32, 0 ), vcspec_metro_state( p, seed, bytes - 32, 1 ), vcspec_metro_state( p, seed, bytes - 32, 2 ), vcspec_metro_state( p, seed, bytes - 32, 3 ) };
	v[0] += le64( q ) * k0;
	v[0] = rotr( v[0], 29 ) + v[2];
	v[1] += le64( q + 8 ) * k1;
	v[1] = rotr( v[1], 29 ) + v[3];
	v[2] += le64( q + 16 ) * k2;
	v[2] = rotr( v[2], 29 ) + v[0];
	v[3] += le64( q + 24 ) * k3;
	v[3] = rotr( v[3], 29 ) + v[1];
	return w == 0 ? v[0] : w == 1 ? v[1] : w == 2 ? v[2] : v[3];
}
template<bool Blocks>
static u64 metro_spec( char const *p, u64 seed, std::size_t blocks, unsigned rest ) {
	u64 hash = ( seed + k2 ) * k0;
	if( Blocks ) {
		u64 v[4] = { vcspec_metro_state( p, seed, blocks * 32, 0 ), vcspec_metro_state( p, seed, blocks * 32, 1 ), vcspec_metro_state( p, seed, blocks * 32, 2 ), vcspec_metro_state( p, seed, blocks * 32, 3 ) };
		v[2] ^= rotr( ( ( v[0] + v[3] ) * k0 ) + v[1], 37 ) * k1;
		v[3] ^= rotr( ( ( v[1] + v[2] ) * k1 ) + v[0], 37 ) * k0;
		v[0] ^= rotr( ( ( v[0] + v[2] ) * k0 ) + v[3], 37 ) * k1;
		v[1] ^= rotr( ( ( v[1] + v[3] ) * k1 ) + v[2], 37 ) * k0;
		hash += v[0] ^ v[1];
		p += blocks * 32;
	}
	if( rest >= 16 ) {
		u64 v0 = hash + le64( p ) * k2;
		v0 = rotr( v0, 29 ) * k3;
		u64 v1 = hash + le64( p + 8 ) * k2;
		v1 = rotr( v1, 29 ) * k3;
		v0 ^= rotr( v0 * k0, 21 ) + v1;
		v1 ^= rotr( v1 * k3, 21 ) + v0;
		hash += v1;
		p += 16;
		rest -= 16;
	}
	if( rest >= 8 ) {
		hash += le64( p ) * k3;
		hash ^= rotr( hash, 55 ) * k1;
		p += 8;
		rest -= 8;
	}
	auto byte = [&]( unsigned i ) { return static_cast<u64>( static_cast<u8>( p[i] ) ); };
	if( rest >= 4 ) {
		hash += ( byte( 0 ) | byte( 1 ) << 8U | byte( 2 ) << 16U | byte( 3 ) << 24U ) * k3;
		hash ^= rotr( hash, 26 ) * k1;
		p += 4;
		rest -= 4;
	}
	if( rest >= 2 ) {
		hash += ( byte( 0 ) | byte( 1 ) << 8U ) * k3;
		hash ^= rotr( hash, 48 ) * k1;
		p += 2;
		rest -= 2;
	}
	if( rest >= 1 ) {
		hash += byte( 0 ) * k3;
		hash ^= rotr( hash, 37 ) * k1;
	}
	hash ^= rotr( hash, 28 );
	hash *= k0;
	hash ^= rotr( hash, 29 );
	return hash;
}
template<bool Blocks, unsigned Rest>
static void metro_with_rest( ) {
#ifdef VC_NATIVE
	auto const blocks = Blocks ? vc::range( "blocks", 1, 3 ) : 0;
#else
	auto const blocks = Blocks ? vc::range( "blocks", 1, std::size_t{ 1 } << 35U ) : 0;
#endif
	auto const seed = vc::any<u64>( "seed" );
	auto const n = blocks * 32 + Rest;
	auto const *const p = vc::array<char>( n, "data" );
	auto s0 = [&]( u64 v, u64 rest ) { return rest <= n and ( n - rest ) % 32 == 0 and v == vcspec_metro_state( p, seed, n - rest, 0 ); };
	auto s1 = [&]( u64 v, u64 rest ) { return rest <= n and ( n - rest ) % 32 == 0 and v == vcspec_metro_state( p, seed, n - rest, 1 ); };
	auto s2 = [&]( u64 v, u64 rest ) { return rest <= n and ( n - rest ) % 32 == 0 and v == vcspec_metro_state( p, seed, n - rest, 2 ); };
	auto s3 = [&]( u64 v, u64 rest ) { return rest <= n and ( n - rest ) % 32 == 0 and v == vcspec_metro_state( p, seed, n - rest, 3 ); };
	auto whole = [&]( u64 rest ) { return rest <= n and ( n - rest ) % 32 == 0; };
	auto at = [&]( u64 o, u64 rest ) { return o <= n and rest == n - o; };
	auto more = [&]( u64 rest ) { return rest >= 32; };
	vc::hint( whole );
	vc::hint( at );
	vc::hint( more );
	vc::manual( );
	vc_opt( "bv", 1 );
	vc_opt( "opaque_mul", 1 );
	vc_opt( "houdini_s", 150 );
	vc_opt( "hto", 10000 );
	vc::hint( s0 );
	vc::hint( s1 );
	vc::hint( s2 );
	vc::hint( s3 );
	u64 const r = daw::metro::hash64( daw::string_view( p, n ), seed );
	VC_ENSURE( r == metro_spec<Blocks>( p, seed, blocks, Rest ), "MetroHash64" );
}
CONTRACT( metro_short_0 ) {
	metro_with_rest<false, 0>( );
}
CONTRACT( metro_short_1 ) {
	metro_with_rest<false, 1>( );
}
CONTRACT( metro_short_2 ) {
	metro_with_rest<false, 2>( );
}
CONTRACT( metro_short_3 ) {
	metro_with_rest<false, 3>( );
}
CONTRACT( metro_short_4 ) {
	metro_with_rest<false, 4>( );
}
CONTRACT( metro_short_5 ) {
	metro_with_rest<false, 5>( );
}
CONTRACT( metro_short_6 ) {
	metro_with_rest<false, 6>( );
}
CONTRACT( metro_short_7 ) {
	metro_with_rest<false, 7>( );
}
CONTRACT( metro_short_8 ) {
	metro_with_rest<false, 8>( );
}
CONTRACT( metro_short_9 ) {
	metro_with_rest<false, 9>( );
}
CONTRACT( metro_short_10 ) {
	metro_with_rest<false, 10>( );
}
CONTRACT( metro_short_11 ) {
	metro_with_rest<false, 11>( );
}
CONTRACT( metro_short_12 ) {
	metro_with_rest<false, 12>( );
}
CONTRACT( metro_short_13 ) {
	metro_with_rest<false, 13>( );
}
CONTRACT( metro_short_14 ) {
	metro_with_rest<false, 14>( );
}
CONTRACT( metro_short_15 ) {
	metro_with_rest<false, 15>( );
}
CONTRACT( metro_short_16 ) {
	metro_with_rest<false, 16>( );
}
CONTRACT( metro_short_17 ) {
	metro_with_rest<false, 17>( );
}
CONTRACT( metro_short_18 ) {
	metro_with_rest<false, 18>( );
}
CONTRACT( metro_short_19 ) {
	metro_with_rest<false, 19>( );
}
CONTRACT( metro_short_20 ) {
	metro_with_rest<false, 20>( );
}
CONTRACT( metro_short_21 ) {
	metro_with_rest<false, 21>( );
}
CONTRACT( metro_short_22 ) {
	metro_with_rest<false, 22>( );
}
CONTRACT( metro_short_23 ) {
	metro_with_rest<false, 23>( );
}
CONTRACT( metro_short_24 ) {
	metro_with_rest<false, 24>( );
}
CONTRACT( metro_short_25 ) {
	metro_with_rest<false, 25>( );
}
CONTRACT( metro_short_26 ) {
	metro_with_rest<false, 26>( );
}
CONTRACT( metro_short_27 ) {
	metro_with_rest<false, 27>( );
}
CONTRACT( metro_short_28 ) {
	metro_with_rest<false, 28>( );
}
CONTRACT( metro_short_29 ) {
	metro_with_rest<false, 29>( );
}
CONTRACT( metro_short_30 ) {
	metro_with_rest<false, 30>( );
}
CONTRACT( metro_short_31 ) {
	metro_with_rest<false, 31>( );
}
CONTRACT( metro_long_0 ) {
	metro_with_rest<true, 0>( );
}
CONTRACT( metro_long_15 ) {
	metro_with_rest<true, 15>( );
}
CONTRACT( metro_long_31 ) {
	metro_with_rest<true, 31>( );
}
