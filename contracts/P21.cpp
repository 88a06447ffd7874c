// Sorting networks: every input of each compile-time size.
#include "vc.h"
#include <array>
#include <daw/daw_sort_n.h>
#include <functional>

struct item {
	int key;
	int id;
};
struct by_key {
	constexpr bool operator( )( item const &a, item const &b ) const noexcept { return a.key < b.key; }
};

template<typename T, std::size_t N>
struct values {
	T a[N];
};
static char const *const names[32] = { "x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12", "x13", "x14", "x15",
                                       "x16", "x17", "x18", "x19", "x20", "x21", "x22", "x23", "x24", "x25", "x26", "x27", "x28", "x29", "x30", "x31" };

template<std::size_t N, typename T>
struct census {
	T const *a;
	T g;
	T prev[N];
	// how often the value g occurs does not change between two comparisons
	void check( ) {
		unsigned now = 0;
		unsigned was = 0;
		for( std::size_t i = 0; i < N; ++i ) {
			now += a[i] == g ? 1U : 0U;
			was += prev[i] == g ? 1U : 0U;
			prev[i] = a[i];
		}
		VC_ENSURE( now == was, "every value as often as before" );
	}
};
// an order that answers anything, and looks at the elements before it does
template<std::size_t N, typename T>
struct watching {
	census<N, T> *c;
	bool operator( )( T const &, T const & ) const noexcept {
		c->check( );
		return vc::any<bool>( "answer" );
	}
};

template<std::size_t N, typename T, typename Sort>
static void keeps( Sort sort ) {
	T a[N];
	census<N, T> c;
	c.a = a;
	c.g = vc::any<T>( "g" );
	for( std::size_t i = 0; i < N; ++i ) {
		a[i] = vc::any<T>( names[i] );
		c.prev[i] = a[i];
	}
	sort( a, a + N, watching<N, T>{ &c } );
	c.check( );
}
template<std::size_t N, typename T, bool Descending, typename Sort>
static void orders( Sort sort ) {
	T a[N + 2];
	auto const before = vc::any<T>( "before" );
	auto const after = vc::any<T>( "after" );
	a[0] = before;
	a[N + 1] = after;
	for( std::size_t i = 0; i < N; ++i ) {
		a[i + 1] = vc::any<T>( names[i] );
	}
	if constexpr( Descending ) {
		sort( a + 1, a + 1 + N, std::greater<>{ } );
	} else {
		sort( a + 1, a + 1 + N, std::less<>{ } );
	}
	bool ordered = true;
	for( std::size_t i = 0; i + 1 < N; ++i ) {
		ordered = ordered & not( Descending ? a[i + 1] < a[i + 2] : a[i + 2] < a[i + 1] );
	}
	VC_ENSURE( ordered, "ordered" );
	VC_ENSURE( a[0] == before and a[N + 1] == after, "nothing outside the range is touched" );
}
#define ORDERS( name, T, N, D, ... )                                                     \
	CONTRACT( name##_ordered ) {                                                         \
		orders<N, T, D>( []( T * f, T * l, auto comp ) { (void)l; __VA_ARGS__; } );         \
	}
#define KEEPS( name, T, N, ... )                                                         \
	CONTRACT( name##_permutation ) {                                                     \
		keeps<N, T>( []( T * f, T * l, auto comp ) { (void)l; __VA_ARGS__; } );             \
	}
#define NET( N )                                                        \
	ORDERS( network_##N, int, N, false, daw::sort_##N( f, comp ) )         \
	ORDERS( network_descending_##N, int, N, true, daw::sort_##N( f, comp ) ) \
	KEEPS( network_##N, int, N, daw::sort_##N( f, comp ) )
#define VIA_SORT( N )                                                   \
	ORDERS( sort_size_##N, int, N, false, daw::sort( f, l, comp ) )        \
	ORDERS( sort_descending_size_##N, int, N, true, daw::sort( f, l, comp ) ) \
	KEEPS( sort_size_##N, int, N, daw::sort( f, l, comp ) )
NET( 3 )
NET( 4 )
NET( 5 )
NET( 6 )
NET( 7 )
NET( 8 )
VIA_SORT( 1 )
VIA_SORT( 2 )
VIA_SORT( 3 )
VIA_SORT( 4 )
VIA_SORT( 5 )
VIA_SORT( 6 )
VIA_SORT( 7 )
VIA_SORT( 8 )
// default comparison
CONTRACT( network_default_order ) {
	orders<4, int, false>( []( int *f, int *, auto ) { daw::sort_4( f ); } );
	orders<3, int, false>( []( int *f, int *l, auto ) { daw::sort( f, l ); } );
}
// moved, not copied
struct only_move {
	int v;
	bool full;
	only_move( ) : v( 0 ), full( false ) {}
	explicit only_move( int x ) : v( x ), full( true ) {}
	only_move( only_move &&o ) noexcept : v( o.v ), full( o.full ) { o.full = false; }
	only_move &operator=( only_move &&o ) noexcept {
		VC_ENSURE( o.full, "moved from an element" );
		v = o.v;
		full = true;
		o.full = false;
		return *this;
	}
	friend bool operator<( only_move const &x, only_move const &y ) {
		VC_ENSURE( x.full and y.full, "elements are compared" );
		return x.v < y.v;
	}
};
CONTRACT( network_4_move_only ) {
	only_move a[4];
	for( std::size_t i = 0; i < 4; ++i ) {
		a[i] = only_move( vc::any<int>( names[i] ) );
	}
	daw::sort_4( a );
	VC_ENSURE( a[0].full and a[1].full and a[2].full and a[3].full, "no element is lost" );
	VC_ENSURE( not( a[1] < a[0] ) and not( a[2] < a[1] ) and not( a[3] < a[2] ), "ordered" );
}
CONTRACT( network_empty ) {
	int x = vc::any<int>( "x" );
	int const was = x;
	daw::sort( &x, &x );
	VC_ENSURE( x == was, "the empty range" );
}
// the large networks on bits: a network that orders all bit strings orders every sequence
ORDERS( network_16_bits, bool, 16, false, daw::sort_16( f, comp ) )
ORDERS( network_32_bits, bool, 32, false, daw::sort_32( f, comp ) )
ORDERS( sort_size_16_bits, bool, 16, false, daw::sort( f, l, comp ) )
ORDERS( sort_size_32_bits, bool, 32, false, daw::sort( f, l, comp ) )
KEEPS( network_16, int, 16, daw::sort_16( f, comp ) )
KEEPS( network_32, int, 32, daw::sort_32( f, comp ) )
KEEPS( sort_size_16, int, 16, daw::sort( f, l, comp ) )
KEEPS( sort_size_32, int, 32, daw::sort( f, l, comp ) )
