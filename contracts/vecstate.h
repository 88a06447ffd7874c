// A daw::vector<int> of any size, capacity and contents
#pragma once
#include "vc.h"
#include <daw/vector.h>
#include <new>

using vec = daw::vector<int>;

// storage the vector lives in
struct box {
	union {
		vec v;
	};
	box( ) {}
	~box( ) { v.~vec( ); }
};
// a vector of n arbitrary elements and room for cap
inline vec &make( box &b, std::size_t n, std::size_t cap, char const *name = "contents" ) {
	auto &v = *new( static_cast<void *>( &b.v ) ) vec( daw::do_resize_and_overwrite, cap, [&]( int *p, std::size_t ) {
#ifdef VC_NATIVE
		for( std::size_t i = 0; i < n; ++i ) {
			vc_any_bytes( p + i, sizeof( int ), name );
		}
#else
		(void)p;
		(void)name;
#endif
		return n;
	} );
	vc::assume( v.size( ) == n and v.capacity( ) == cap );
	return v;
}
// the same for at most N elements, which are all looked at
template<std::size_t N>
vec &make_few( box &b, std::size_t n ) {
	auto &v = *new( static_cast<void *>( &b.v ) ) vec( daw::do_resize_and_overwrite, N, [&]( int *p, std::size_t ) {
		for( std::size_t i = 0; i < N; ++i ) {
			p[i] = vc::any<int>( "contents" );
		}
		return n;
	} );
	vc::assume( v.size( ) == n and v.capacity( ) == N );
	return v;
}
