// Fixed-capacity sequences: bounded_vector_t, ring_adaptor, daw::array and
// simple_array hold the sequence of values pushed, inserted and removed.
#include "vc.h"
#include <array>
#include <cassert>
#include <daw/daw_array.h>
#include <daw/daw_bounded_array.h>
#include <daw/daw_bounded_vector.h>
#include <daw/daw_ring_adaptor.h>
#include <daw/daw_simple_array.h>

using sz = std::size_t;
template<sz N>
using bv = daw::bounded_vector_t<int, N>;

// what a sequence holds
template<sz N>
struct seq {
	int a[N == 0 ? 1 : N]{ };
	sz n = 0;
};
// Any state of a bounded vector: n elements kept after f were taken from the
// front (f + n <= N). Every state is one of these.
template<sz N>
struct any_state {
	bv<N> v{ };
	seq<N> s{ };
	any_state( ) {
		vc_unroll( N + 2 ); // the loops are over at most N elements
		int buf[N];
		for( sz i = 0; i < N; ++i ) {
			buf[i] = vc::any<int>( "value" );
		}
		sz const total = vc::range( "total", 0, N );
		sz const f = vc::range( "taken", 0, N );
		vc::assume( f <= total );
		v = bv<N>( buf, total );
		v.pop_front( f );
		s.n = total - f;
		for( sz i = 0; i < N; ++i ) {
			s.a[i] = i < s.n ? buf[f + i] : 0;
		}
	}
};
template<sz N>
static void holds( bv<N> &v, seq<N> const &s ) {
	VC_ENSURE( v.size( ) == s.n, "size" );
	VC_ENSURE( v.empty( ) == ( s.n == 0 ), "empty" );
	VC_ENSURE( v.full( ) == ( s.n == N ), "full" );
	VC_ENSURE( v.available( ) == N - s.n and bv<N>::capacity( ) == N, "available" );
	VC_ENSURE( static_cast<sz>( v.end( ) - v.begin( ) ) == s.n, "range" );
	VC_ENSURE( v.data( ) == v.begin( ), "data" );
	for( sz i = 0; i < N; ++i ) {
		if( i < s.n ) {
			VC_ENSURE( v[i] == s.a[i], "the elements" );
		}
	}
}
template<sz N>
static void inspect( ) {
	any_state<N> st;
	holds( st.v, st.s );
	auto const &c = st.v;
	sz const n = st.s.n;
	VC_ENSURE( c.cbegin( ) == st.v.begin( ) and c.cend( ) == st.v.end( ) and c.begin( ) == st.v.begin( ) and c.end( ) == st.v.end( ) and c.data( ) == st.v.data( ), "const range" );
	sz const k = vc::size( "k" );
	vc::assume( k <= 2 * N );
	VC_ENSURE( st.v.has_room( k ) == ( n + k <= N ), "has_room" );
	if( n > 0 ) {
		VC_ENSURE( &st.v.front( ) == st.v.begin( ) and &c.front( ) == st.v.begin( ), "front" );
		VC_ENSURE( &st.v.back( ) == st.v.end( ) - 1 and &c.back( ) == st.v.end( ) - 1, "back" );
		VC_ENSURE( *st.v.rbegin( ) == st.s.a[n - 1] and *c.rbegin( ) == st.s.a[n - 1] and *c.crbegin( ) == st.s.a[n - 1], "rbegin" );
		VC_ENSURE( *( st.v.rend( ) - 1 ) == st.s.a[0] and *( c.rend( ) - 1 ) == st.s.a[0] and *( c.crend( ) - 1 ) == st.s.a[0], "rend" );
		if( k < n ) {
			VC_ENSURE( c[k] == st.s.a[k], "[]" );
		}
	}
}
template<sz N>
static void at( ) {
	any_state<N> st;
	sz const k = vc::any<sz>( "k" );
	vc_opt( "abort", 1 ); // a position past the end ends the program
	auto const &c = st.v;
	int &r = vc::any<bool>( "const" ) ? const_cast<int &>( c.at( k ) ) : st.v.at( k );
	VC_ENSURE( k < st.s.n, "a position past the end does not return" );
	VC_ENSURE( &r == st.v.data( ) + k, "the element" );
}
template<sz N>
static void at_legal( ) {
	any_state<N> st;
	sz const k = vc::range( "k", 0, N );
	vc::assume( k < st.s.n );
	auto const &c = st.v;
	VC_ENSURE( st.v.at( k ) == st.s.a[k] and c.at( k ) == st.s.a[k], "the element" );
}
template<sz N>
static void push( unsigned how ) {
	any_state<N> st;
	vc::assume( st.s.n < N );
	int x = vc::any<int>( "x" );
	if( how == 0 ) {
		st.v.push_back( x );
	} else if( how == 1 ) {
		st.v.push_back( int{ x } );
	} else if( how == 2 ) {
		st.v.emplace_back( x );
	} else {
		sz const at = st.v.push_back( );
		VC_ENSURE( at == st.s.n, "the position of the new element" );
		st.v[at] = x;
	}
	st.s.a[st.s.n] = x;
	++st.s.n;
	holds( st.v, st.s );
}
template<sz N>
static void push_many( bool other_type ) {
	any_state<N> st;
	sz const k = vc::range( "k", 0, N );
	vc::assume( st.s.n + k <= N );
	int xs[N];
	short ys[N];
	for( sz i = 0; i < N; ++i ) {
		ys[i] = vc::any<short>( "y" );
		xs[i] = other_type ? ys[i] : vc::any<int>( "x" );
	}
	if( other_type ) {
		st.v.push_back( static_cast<short const *>( ys ), k );
	} else {
		st.v.push_back( static_cast<int const *>( xs ), k );
	}
	for( sz i = 0; i < N; ++i ) {
		if( i < k ) {
			st.s.a[st.s.n + i] = xs[i];
		}
	}
	st.s.n += k;
	holds( st.v, st.s );
}
template<sz N>
static void pop( ) {
	any_state<N> st;
	vc::assume( st.s.n > 0 );
	if( vc::any<bool>( "back" ) ) {
		int r = st.v.pop_back( );
		VC_ENSURE( r == st.s.a[st.s.n - 1], "pop_back returns the last" );
	} else {
		int r = st.v.pop_front( );
		VC_ENSURE( r == st.s.a[0], "pop_front returns the first" );
		for( sz i = 0; i + 1 < N; ++i ) {
			st.s.a[i] = st.s.a[i + 1];
		}
	}
	--st.s.n;
	holds( st.v, st.s );
}
template<sz N>
static void pop_many( ) {
	any_state<N> st;
	sz const k = vc::any<sz>( "k" );
	bool threw = false;
	try {
		st.v.pop_front( k );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == ( k > st.s.n ), "taking more than there is is reported" );
	if( not threw ) {
		seq<N> t;
		t.n = st.s.n - k;
		for( sz i = 0; i < N; ++i ) {
			if( i < t.n ) {
				t.a[i] = st.s.a[i + k];
			}
		}
		st.s = t;
	}
	holds( st.v, st.s );
}
template<sz N>
static void resizes( ) {
	any_state<N> st;
	sz const k = vc::any<sz>( "k" );
	bool threw = false;
	try {
		st.v.resize( k );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == ( k > N ), "more than the capacity is reported" );
	if( not threw ) {
		for( sz i = 0; i < N; ++i ) {
			if( i >= st.s.n ) {
				st.s.a[i] = 0;
			}
		}
		st.s.n = k;
	}
	holds( st.v, st.s );
}
template<sz N>
static void erase_one( ) {
	any_state<N> st;
	sz const k = vc::range( "k", 0, N );
	vc::assume( k < st.s.n );
	auto r = st.v.erase( st.v.cbegin( ) + k );
	for( sz i = 0; i + 1 < N; ++i ) {
		if( i >= k ) {
			st.s.a[i] = st.s.a[i + 1];
		}
	}
	--st.s.n;
	VC_ENSURE( r == st.v.begin( ) + k, "the element after the erased one" );
	holds( st.v, st.s );
}
template<sz N>
static void erase_range( ) {
	any_state<N> st;
	sz const a = vc::range( "a", 0, N );
	sz const b = vc::range( "b", 0, N );
	vc::assume( a <= b and b <= st.s.n );
	auto r = st.v.erase( st.v.cbegin( ) + a, st.v.cbegin( ) + b );
	seq<N> t;
	t.n = st.s.n - ( b - a );
	for( sz i = 0; i < N; ++i ) {
		if( i < t.n ) {
			t.a[i] = i < a ? st.s.a[i] : st.s.a[i + ( b - a )];
		}
	}
	VC_ENSURE( r == st.v.begin( ) + a, "the element after the erased ones" );
	holds( st.v, t );
}
template<sz N>
static void assigns( ) {
	any_state<N> st;
	sz const k = vc::range( "k", 0, N );
	int x = vc::any<int>( "x" );
	st.v.assign( k, x );
	for( sz i = 0; i < N; ++i ) {
		st.s.a[i] = x;
	}
	st.s.n = k;
	holds( st.v, st.s );
	st.v.clear( );
	st.s.n = 0;
	holds( st.v, st.s );
}
template<sz N>
static void swaps( ) {
	any_state<N> a;
	any_state<N> b;
	a.v.swap( b.v );
	holds( a.v, b.s );
	holds( b.v, a.s );
}
template<sz N>
static void builds( ) {
	vc_unroll( N + 3 );
	int buf[N + 1];
	for( sz i = 0; i < N + 1; ++i ) {
		buf[i] = vc::any<int>( "value" );
	}
	sz const k = vc::range( "k", 0, N + 1 );
	bv<N> v( buf, k );
	seq<N> s;
	s.n = k < N ? k : N;
	for( sz i = 0; i < N; ++i ) {
		s.a[i] = buf[i];
	}
	holds( v, s );
	bv<N> w( static_cast<int const *>( buf ), static_cast<int const *>( buf + s.n ) );
	holds( w, s );
	bv<N> x{ };
	holds( x, seq<N>{ } );
	bv<N> y( w );
	holds( y, s );
	y.zero( );
	for( sz i = 0; i < N; ++i ) {
		if( i < s.n ) {
			VC_ENSURE( y[i] == 0, "zero" );
		}
	}
	VC_ENSURE( y.size( ) == s.n, "zero keeps the size" );
}
#define BV( name, ... )                               \
	CONTRACT( bv_##name##_1 ) { constexpr sz N = 1; __VA_ARGS__; } \
	CONTRACT( bv_##name##_2 ) { constexpr sz N = 2; __VA_ARGS__; } \
	CONTRACT( bv_##name##_4 ) { constexpr sz N = 4; __VA_ARGS__; }
BV( inspect, inspect<N>( ) )
BV( at, at<N>( ) )
BV( at_legal, at_legal<N>( ) )
BV( push, push<N>( 0 ) )
BV( push_move, push<N>( 1 ) )
BV( emplace, push<N>( 2 ) )
BV( push_default, push<N>( 3 ) )
BV( push_many, push_many<N>( false ) )
BV( push_many_short, push_many<N>( true ) )
BV( pop, pop<N>( ) )
BV( pop_many, pop_many<N>( ) )
BV( resize, resizes<N>( ) )
BV( erase_one, erase_one<N>( ) )
BV( erase_range, erase_range<N>( ) )
BV( assign, assigns<N>( ) )
BV( swap, swaps<N>( ) )
BV( build, builds<N>( ) )
CONTRACT( bv_0 ) {
	using B = daw::bounded_vector_t<int, 0>;
	VC_ENSURE( B::empty( ) and B::full( ) and B::size( ) == 0 and B::capacity( ) == 0 and B::available( ) == 0, "nothing" );
	B::clear( );
	VC_ENSURE( not B::has_room( vc::any<sz>( "k" ) | 1U ), "no room" );
}

// ---------------------------------------------------------------- ring_adaptor
// any state whose counters are at most 2N: h values have passed through, then s
// are held
template<sz N>
struct any_ring {
	daw::ring_adaptor<std::array<int, N>> r{ };
	seq<N> s{ };
	any_ring( ) {
		vc_unroll( 2 * N + 2 );
		sz const h = vc::range( "passed", 0, N );
		for( sz i = 0; i < h; ++i ) {
			r.push_back( 0 );
			(void)r.pop_front( );
		}
		s.n = vc::range( "held", 0, N );
		for( sz i = 0; i < s.n; ++i ) {
			s.a[i] = vc::any<int>( "value" );
			r.push_back( s.a[i] );
		}
	}
};
template<sz N, typename R>
static void ring_holds( R &r, seq<N> const &s ) {
	VC_ENSURE( r.size( ) == s.n, "size" );
	VC_ENSURE( r.is_empty( ) == ( s.n == 0 ) and r.is_full( ) == ( s.n == N ), "empty and full" );
	VC_ENSURE( r.capacity( ) == N, "capacity" );
	auto const &c = r;
	auto it = r.begin( );
	for( sz i = 0; i < N; ++i ) {
		if( i < s.n ) {
			VC_ENSURE( r[i] == s.a[i] and c[i] == s.a[i], "the elements" );
			VC_ENSURE( *( it + static_cast<std::ptrdiff_t>( i ) ) == s.a[i], "iterators" );
		}
	}
	VC_ENSURE( r.end( ) - r.begin( ) == static_cast<std::ptrdiff_t>( s.n ), "range" );
}
template<sz N>
static void ring_push( unsigned how ) {
	any_ring<N> st;
	vc::assume( st.s.n < N );
	int x = vc::any<int>( "x" );
	int &e = how == 0 ? st.r.push_back( x ) : how == 1 ? st.r.push_back( int{ x } ) : st.r.emplace_back( x );
	VC_ENSURE( &e == &st.r[st.s.n], "refers to the new element" );
	st.s.a[st.s.n] = x;
	++st.s.n;
	ring_holds<N>( st.r, st.s );
}
template<sz N>
static void ring_pop( ) {
	any_ring<N> st;
	vc::assume( st.s.n > 0 );
	VC_ENSURE( st.r.pop_front( ) == st.s.a[0], "the first" );
	for( sz i = 0; i + 1 < N; ++i ) {
		st.s.a[i] = st.s.a[i + 1];
	}
	--st.s.n;
	ring_holds<N>( st.r, st.s );
	st.r.clear( );
	st.s.n = 0;
	ring_holds<N>( st.r, st.s );
}
CONTRACT( ring_1_push ) { ring_push<1>( 0 ); }
CONTRACT( ring_3_push ) { ring_push<3>( 0 ); }
CONTRACT( ring_4_push ) { ring_push<4>( 0 ); }
CONTRACT( ring_1_push_move ) { ring_push<1>( 1 ); }
CONTRACT( ring_3_push_move ) { ring_push<3>( 1 ); }
CONTRACT( ring_1_emplace ) { ring_push<1>( 2 ); }
CONTRACT( ring_3_emplace ) { ring_push<3>( 2 ); }
CONTRACT( ring_4_emplace ) { ring_push<4>( 2 ); }
CONTRACT( ring_1_pop ) { ring_pop<1>( ); }
CONTRACT( ring_3_pop ) { ring_pop<3>( ); }
CONTRACT( ring_4_pop ) { ring_pop<4>( ); }

// ---------------------------------------------------------------- arrays
template<sz N, typename A>
static void array_is( A &v ) {
	auto const &c = v;
	for( sz i = 0; i < N; ++i ) {
		VC_ENSURE( &v[i] == v.data( ) + i and &c[i] == v.data( ) + i, "[]" );
	}
	VC_ENSURE( v.begin( ) == v.data( ) and v.end( ) == v.data( ) + N and c.begin( ) == v.data( ) and c.end( ) == v.data( ) + N, "range" );
	VC_ENSURE( c.data( ) == v.data( ), "data" );
}
CONTRACT( array_4 ) {
	vc_unroll( 6 );
	daw::array<int, 4> v{ { vc::any<int>( "a" ), vc::any<int>( "b" ), vc::any<int>( "c" ), vc::any<int>( "d" ) } };
	auto const &c = v;
	array_is<4>( v );
	VC_ENSURE( v.cbegin( ) == v.begin( ) and v.cend( ) == v.end( ) and not v.empty( ), "const range" );
	VC_ENSURE( &v.front( ) == &v[0] and &v.back( ) == &v[3] and &c.front( ) == &v[0] and &c.back( ) == &v[3], "front and back" );
	int x = vc::any<int>( "x" );
	sz const i = vc::range( "i", 0, 3 );
	daw::array<int, 4> w = v;
	w[i] = x;
	bool const same = v[i] == x;
	VC_ENSURE( ( v == w ) == same and ( v != w ) == not same, "equality" );
	w.fill( x );
	VC_ENSURE( w[0] == x and w[1] == x and w[2] == x and w[3] == x, "fill" );
}
CONTRACT( simple_array_4 ) {
	daw::simple_array<int, 4> v{ vc::any<int>( "a" ), vc::any<int>( "b" ), vc::any<int>( "c" ), vc::any<int>( "d" ) };
	auto const &c = v;
	array_is<4>( v );
	VC_ENSURE( v.date_end( ) == v.data( ) + 4 and c.date_end( ) == v.data( ) + 4, "end of data" );
	daw::simple_array<int, 0> z{ };
	VC_ENSURE( z.begin( ) == z.end( ) and z.size( ) == 0 and z.data( ) == nullptr, "empty" );
}
CONTRACT( make_arrays ) {
	int a = vc::any<int>( "a" );
	int b = vc::any<int>( "b" );
	short s = vc::any<short>( "s" );
	auto x = daw::make_array( a, b, s );
	static_assert( std::is_same_v<decltype( x ), std::array<int, 3>> );
	VC_ENSURE( x[0] == a and x[1] == b and x[2] == s, "make_array" );
	auto y = daw::make_array<long long>( a, b );
	static_assert( std::is_same_v<decltype( y ), std::array<long long, 2>> );
	VC_ENSURE( y[0] == a and y[1] == b, "make_array of a type" );
	int raw[3] = { a, b, a };
	auto z = daw::to_array( raw );
	static_assert( std::is_same_v<decltype( z ), std::array<int, 3>> );
	VC_ENSURE( z[0] == a and z[1] == b and z[2] == a, "to_array" );
	static_assert( std::is_same_v<daw::md_stdarray_t<int, 2, 3>, std::array<std::array<int, 3>, 2>> );
}
