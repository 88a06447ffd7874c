// Hash containers: a key is found exactly when it was inserted and not erased.
#include "vc.h"
#include <cassert>
#include <daw/daw_algorithm.h>
#include <daw/daw_exception.h>
#include <daw/daw_hash_set.h>
#include <daw/static_hash_table.h>
#include <optional>
#include <stdexcept>
#include <vector>

using sz = std::size_t;
// keys 0..4; where a key lands is arbitrary, so every pattern of collisions occurs
constexpr sz K = 5;
static bool home_a[K], home_b[K];
// one hash for each slot of a table of 2 (of 3)
constexpr std::uint64_t h0 = ( 1ULL << 33 ) + 1, h1 = ( 1ULL << 33 ) + 6 * 12345678901ULL + 2,
                        h2 = ( 1ULL << 33 ) + 6 * 98765432101ULL + 6;
struct any_hash {
	std::uint64_t operator( )( unsigned char k ) const {
		return home_a[k] ? h0 : home_b[k] ? h1 : h2;
	}
};
using set_t = daw::hash_set_t<unsigned char, any_hash>;

static unsigned char key( char const *name ) {
	unsigned char k = vc::any<unsigned char>( name );
	vc::assume( k < K );
	return k;
}
static bool inserted[K];
template<sz N>
struct any_set {
	set_t s{ N };
	bool *const in = inserted;
	sz n = 0;
	any_set( ) {
		vc_unroll( N + K + 2 );
		for( sz i = 0; i < K; ++i ) {
			in[i] = false;
			home_a[i] = vc::any<bool>( "home a" );
			home_b[i] = vc::any<bool>( "home b" );
		}
		// keys inserted in any order, one or more times, up to a full table
		for( sz i = 0; i < N; ++i ) {
			if( vc::any<bool>( "more" ) ) {
				insert( key( "key" ) );
			}
		}
	}
	void insert( unsigned char k ) {
		(void)s.insert( k );
		n += in[k] ? 0 : 1;
		in[k] = true;
	}
	void check( ) const {
		sz c = 0;
		for( unsigned char k = 0; k < K; ++k ) {
			VC_ENSURE( s.exists( k ) == in[k], "exists exactly the keys inserted and not erased" );
			c += in[k] ? 1 : 0;
		}
		VC_ENSURE( s.size( ) == c, "size" );
	}
};
template<sz N>
static void set_holds( ) {
	any_set<N> a;
	a.check( );
	unsigned char k = key( "k" );
	VC_ENSURE( a.s.count( k ) == ( a.in[k] ? 1U : 0U ) and a.s.capacity( ) == N, "count" );
}
template<sz N>
static void set_insert( ) {
	any_set<N> a;
	unsigned char k = key( "k" );
	bool threw = false;
	try {
		std::uint64_t const p = a.s.insert( k );
		VC_ENSURE( p < N, "a position" );
		VC_ENSURE( a.s.insert( k ) == p, "inserting again finds it" );
		a.in[k] = true;
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == ( a.n == N and not a.in[k] ), "reported exactly when there is no room" );
	a.check( );
}
template<sz N>
static void set_erase( ) {
	any_set<N> a;
	unsigned char k = key( "k" );
	auto const r = a.s.erase( k );
	VC_ENSURE( r.has_value( ) == a.in[k], "tells if the key was there" );
	a.in[k] = false;
	a.check( );
}
template<sz N>
static void set_erase_insert( ) {
	any_set<N> a;
	unsigned char k = key( "k" );
	(void)a.s.erase( k );
	a.in[k] = false;
	unsigned char j = key( "j" );
	bool full = true;
	{
		sz c = 0;
		for( sz i = 0; i < K; ++i ) {
			c += a.in[i] ? 1 : 0;
		}
		full = c == N;
	}
	vc::assume( not full or a.in[j] );
	(void)a.s.insert( j );
	a.in[j] = true;
	a.check( );
}
CONTRACT( set_1_holds ) { set_holds<1>( ); }
CONTRACT( set_2_holds ) { set_holds<2>( ); }
CONTRACT( set_3_holds ) { set_holds<3>( ); }
CONTRACT( set_1_insert ) { set_insert<1>( ); }
CONTRACT( set_2_insert ) { set_insert<2>( ); }
CONTRACT( set_3_insert ) { set_insert<3>( ); }
CONTRACT( set_1_erase ) { set_erase<1>( ); }
CONTRACT( set_2_erase ) { set_erase<2>( ); }
CONTRACT( set_3_erase ) { set_erase<3>( ); }
CONTRACT( set_2_erase_insert ) { set_erase_insert<2>( ); }

// ---------------------------------------------------------------- static_hash_t
// keys are told apart by their 64 bit hash
static std::uint64_t hash_of( std::uint32_t k ) {
	// one value is reserved for empty slots
	return daw::fnv1a_hash( k ) % ( ~std::uint64_t{ 0 } - 1 );
}
template<sz N>
static void table( ) {
	vc_opt( "opaque_mul", 1 );
	vc_unroll( N + 5 );
	daw::static_hash_t<int, N> t{ };
	std::uint32_t ks[N];
	int vs[N];
	sz const n = vc::range( "n", 0, N );
	for( sz i = 0; i < N; ++i ) {
		ks[i] = vc::any<std::uint32_t>( "key" );
		vs[i] = vc::any<int>( "value" );
		for( sz j = 0; j < i; ++j ) {
			vc::assume( hash_of( ks[i] ) != hash_of( ks[j] ) );
		}
		if( i < n ) {
			t[ks[i]] = vs[i];
		}
	}
	auto const &c = t;
	for( sz i = 0; i < N; ++i ) {
		if( i < n ) {
			VC_ENSURE( c[ks[i]] == vs[i], "the value stored for the key" );
			VC_ENSURE( t[ks[i]] == vs[i] and t.find( ks[i] ) < N, "found" );
		}
	}
	// another value for the same key replaces it, and no other
	sz const u = vc::range( "u", 0, N - 1 );
	vc::assume( u < n );
	int const w = vc::any<int>( "w" );
	t[ks[u]] = w;
	for( sz i = 0; i < N; ++i ) {
		if( i < n ) {
			VC_ENSURE( c[ks[i]] == ( i == u ? w : vs[i] ), "only its value is replaced" );
		}
	}
}
template<sz N>
static void table_absent( ) {
	vc_opt( "opaque_mul", 1 );
	vc_unroll( N + 5 );
	daw::static_hash_t<int, N> t{ };
	sz const n = vc::range( "n", 0, N );
	std::uint32_t const x = vc::any<std::uint32_t>( "x" );
	for( sz i = 0; i < N; ++i ) {
		std::uint32_t const k = vc::any<std::uint32_t>( "key" );
		vc::assume( hash_of( k ) != hash_of( x ) );
		if( i < n ) {
			t[k] = vc::any<int>( "value" ) | 1;
		}
	}
	bool threw = false;
	bool const full = t.find( x ) == N;
	try {
		int const r = std::as_const( t )[x];
		VC_ENSURE( r == 0, "an absent key has no stored value" );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == full, "reported when the table is full" );
	VC_ENSURE( n == N or not full, "not full yet" );
	threw = false;
	try {
		t[x] = 5;
		VC_ENSURE( std::as_const( t )[x] == 5, "stored" );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == full, "no room is reported" );
}
CONTRACT( table_1 ) { table<1>( ); }
CONTRACT( table_2 ) { table<2>( ); }
CONTRACT( table_absent_1 ) { table_absent<1>( ); }
CONTRACT( table_absent_2 ) { table_absent<2>( ); }
