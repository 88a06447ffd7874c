// daw::vector against a mathematical list.  The vector of every contract has an
// arbitrary size, an arbitrary capacity and arbitrary contents; j is an
// arbitrary position of the result.
#include "tracked.h"
#include "vecstate.h"
#include <stdexcept>

struct start {
	std::size_t n = vc_live_allocs( );
	start( ) {
		tracked::live = 0;
		vc_opt( "prune", 1 );
	}
	~start( ) {
		VC_ENSURE( tracked::live == 0, "every object is destroyed exactly once" );
		VC_ENSURE( vc_live_allocs( ) == n, "no memory is leaked" );
	}
};
constexpr std::size_t big = std::size_t{ 1 } << 32U;

// Operations that may have to allocate are proved in three cases that together
// cover every state: no allocation yet, room for the result, and no room for it.
enum state_kind { none, fits, grows, some, inside, beyond };
template<state_kind K>
struct dims {
	std::size_t cap = K == none ? 0 : vc::range( "cap", 1, big );
	std::size_t n = K == none ? 0 : vc::range( "n", 0, cap );
	void at( std::size_t k, std::size_t m ) const {
		if( K == inside ) {
			vc::assume( m <= n - k );
		} else if( K == beyond ) {
			vc::assume( m > n - k );
		}
	}
	void to( std::size_t total ) const {
		if( K == fits or K == inside or K == beyond ) {
			vc::assume( total <= cap );
		} else if( K == grows ) {
			vc::assume( total > cap );
		}
	}
};
#define CASE( name, suffix, K ) \
	CONTRACT( name##suffix ) { body_##name<K>( ); }
#define TWO( name )              \
	template<state_kind K>         \
	static void body_##name( );    \
	CASE( name, , some )           \
	CASE( name, _unallocated, none ) \
	template<state_kind K>         \
	static void body_##name( )
// m elements are inserted at k: among the old elements, or reaching past them
#define FOUR( name )             \
	template<state_kind K>         \
	static void body_##name( );    \
	CASE( name, _inside, inside )  \
	CASE( name, _beyond, beyond )  \
	CASE( name, _grows, grows )    \
	CASE( name, _unallocated, none ) \
	template<state_kind K>         \
	static void body_##name( )
#define FITS_OR_GROWS( name )    \
	template<state_kind K>         \
	static void body_##name( );    \
	CASE( name, _fits, fits )      \
	CASE( name, _grows, grows )    \
	template<state_kind K>         \
	static void body_##name( )
#define THREE( name )            \
	template<state_kind K>         \
	static void body_##name( );    \
	CASE( name, _fits, fits )      \
	CASE( name, _grows, grows )    \
	CASE( name, _unallocated, none ) \
	template<state_kind K>         \
	static void body_##name( )
inline int peek( vec const &v, std::size_t j ) {
	return j < v.size( ) ? v.data( )[j] : 0;
}
inline bool consistent( vec const &v, std::size_t n ) {
	return v.size( ) == n and v.ssize( ) == static_cast<std::ptrdiff_t>( n ) and v.empty( ) == ( n == 0 ) and
	       v.capacity( ) >= n and v.data_end( ) - v.data( ) == static_cast<std::ptrdiff_t>( n ) and
	       v.end( ) - v.begin( ) == static_cast<std::ptrdiff_t>( n );
}

TWO( made ) {
	start l;
	dims<K> const d;
	box b;
	auto &v = make( b, d.n, d.cap );
	VC_ENSURE( consistent( v, d.n ) and v.capacity( ) == d.cap, "the state is reached" );
}
// capacity after an operation that needs room for n elements: unchanged when there is room
inline bool room( vec const &v, std::size_t cap, std::size_t n, int const *before ) {
	return n <= cap ? v.capacity( ) == cap and v.data( ) == before : v.capacity( ) >= n;
}

// ---- adding at the end
THREE( push_back ) {
	start l;
	dims<K> const d;
	auto const j = vc::index( "j", d.n + 1 );
	auto const x = vc::any<int>( "x" );
	d.to( d.n + 1 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	v.push_back( x );
	VC_ENSURE( consistent( v, d.n + 1 ) and room( v, d.cap, d.n + 1, p ), "one more element" );
	VC_ENSURE( v.data( )[j] == ( j < d.n ? old : x ) and v.back( ) == x, "contents" );
}
THREE( push_back_move ) {
	start l;
	dims<K> const d;
	auto const j = vc::index( "j", d.n + 1 );
	auto const x = vc::any<int>( "x" );
	d.to( d.n + 1 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	v.push_back( int( x ) );
	VC_ENSURE( consistent( v, d.n + 1 ) and room( v, d.cap, d.n + 1, p ), "one more element" );
	VC_ENSURE( v.data( )[j] == ( j < d.n ? old : x ), "contents" );
}
FITS_OR_GROWS( push_back_own_element ) {
	start l;
	dims<K> const d;
	vc::assume( d.n > 0 );
	auto const j = vc::index( "j", d.n + 1 );
	auto const k = vc::index( "k", d.n );
	d.to( d.n + 1 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto const x = peek( v, k );
	v.push_back( v[k] );
	VC_ENSURE( consistent( v, d.n + 1 ) and v[j] == ( j < d.n ? old : x ), "the element of the vector is copied" );
}
THREE( emplace_back ) {
	start l;
	dims<K> const d;
	auto const j = vc::index( "j", d.n + 1 );
	auto const x = vc::any<int>( "x" );
	d.to( d.n + 1 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	auto &r = v.emplace_back( x );
	VC_ENSURE( consistent( v, d.n + 1 ) and room( v, d.cap, d.n + 1, p ), "one more element" );
	VC_ENSURE( v.data( )[j] == ( j < d.n ? old : x ) and &r == &v.back( ), "contents" );
}
THREE( append_value ) {
	start l;
	dims<K> const d;
	auto const m = vc::range( "m", 0, big );
	auto const j = vc::index( "j", d.n + m );
	auto const x = vc::any<int>( "x" );
	d.to( d.n + m );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	v.append( m, x );
	VC_ENSURE( consistent( v, d.n + m ) and room( v, d.cap, d.n + m, p ), "size" );
	VC_ENSURE( v[j] == ( j < d.n ? old : x ), "contents" );
}
THREE( resize_value ) {
	start l;
	dims<K> const d;
	auto const m = vc::range( "m", 0, big );
	auto const j = vc::index( "j", m );
	auto const x = vc::any<int>( "x" );
	d.to( m );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	v.resize( m, x );
	VC_ENSURE( consistent( v, m ) and room( v, d.cap, m, p ), "size" );
	VC_ENSURE( v[j] == ( j < d.n ? old : x ), "contents" );
}
THREE( resize ) {
	start l;
	dims<K> const d;
	auto const m = vc::range( "m", 0, big );
	auto const j = vc::index( "j", m );
	d.to( m );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	v.resize( m );
	VC_ENSURE( consistent( v, m ) and room( v, d.cap, m, p ), "size" );
	VC_ENSURE( v[j] == ( j < d.n ? old : 0 ), "contents" );
}
THREE( append_and_overwrite ) {
	start l;
	dims<K> const d;
	auto const m = vc::range( "m", 1, big );
	auto const k = vc::srange( "k", -2, static_cast<std::int64_t>( m ) );
	auto const j = vc::index( "j", d.n + 1 );
	auto const x = vc::any<int>( "x" );
	d.to( d.n + m );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	auto const r = v.append_and_overwrite( m, [&]( int *q, std::size_t sz ) {
		VC_ENSURE( sz == m and q == v.data( ) + d.n, "told where" );
		*q = x;
		return k;
	} );
	VC_ENSURE( r == k and consistent( v, d.n + ( k < 0 ? 0 : static_cast<std::size_t>( k ) ) ) and room( v, d.cap, d.n + m, p ), "size" );
	VC_ENSURE( j < d.n ? v[j] == old : v.data( )[d.n] == x, "contents" );
}
THREE( resize_and_overwrite ) {
	start l;
	dims<K> const d;
	auto const m = vc::range( "m", 1, big );
	auto const k = vc::srange( "k", -2, static_cast<std::int64_t>( m ) );
	auto const j = vc::any<std::size_t>( "j" );
	d.to( m );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	auto const r = v.resize_and_overwrite( m, [&]( int *q, std::size_t sz ) {
		VC_ENSURE( sz == m and q == v.data( ), "told where" );
		return k;
	} );
	auto const sz = k < 0 ? 0 : static_cast<std::size_t>( k );
	VC_ENSURE( r == k and consistent( v, sz ) and room( v, d.cap, m, p ), "size" );
	VC_ENSURE( j >= d.n or j >= sz or v[j] == old, "contents" );
}

// ---- removing
CONTRACT( pop_back ) {
	start l;
	dims<some> const d;
	vc::assume( d.n > 0 );
	auto const j = vc::index( "j", d.n );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	v.pop_back( );
	VC_ENSURE( consistent( v, d.n - 1 ) and room( v, d.cap, d.n, p ), "one element fewer" );
	VC_ENSURE( j == d.n - 1 or v.data( )[j] == old, "contents" );
}
CONTRACT( pop_back_value ) {
	start l;
	dims<some> const d;
	vc::assume( d.n > 0 );
	auto const j = vc::index( "j", d.n );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto const last = peek( v, d.n - 1 );
	auto *const p = v.data( );
	auto const r = v.pop_back_value( );
	VC_ENSURE( consistent( v, d.n - 1 ) and room( v, d.cap, d.n, p ), "one element fewer" );
	VC_ENSURE( r == last and ( j == d.n - 1 or v.data( )[j] == old ), "contents" );
}
CONTRACT( erase_one ) {
	start l;
	dims<some> const d;
	vc::assume( d.n > 0 );
	auto const k = vc::index( "k", d.n );
	auto const j = vc::range( "j", 0, d.n );
	vc::assume( j < d.n - 1 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j < k ? j : j + 1 );
	auto *const p = v.data( );
	auto it = v.erase( v.begin( ) + static_cast<std::ptrdiff_t>( k ) );
	VC_ENSURE( consistent( v, d.n - 1 ) and room( v, d.cap, d.n, p ), "one element fewer" );
	VC_ENSURE( it - v.begin( ) == static_cast<std::ptrdiff_t>( k ), "the position after the erased element" );
	VC_ENSURE( v[j] == old, "contents" );
}
CONTRACT( erase_last ) {
	start l;
	dims<some> const d;
	vc::assume( d.n > 0 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto it = v.erase( v.end( ) - 1 );
	VC_ENSURE( consistent( v, d.n - 1 ) and it == v.end( ), "the last element" );
}
TWO( erase_range ) {
	start l;
	dims<K> const d;
	auto const k = vc::range( "k", 0, d.n );
	auto const m = vc::range( "m", 0, d.n );
	vc::assume( k <= m );
	auto const j = vc::any<std::size_t>( "j" );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j < k ? j : j + ( m - k ) );
	auto *const p = v.data( );
	auto it = v.erase( v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), v.cbegin( ) + static_cast<std::ptrdiff_t>( m ) );
	VC_ENSURE( consistent( v, d.n - ( m - k ) ) and room( v, d.cap, d.n, p ), "size" );
	VC_ENSURE( it - v.begin( ) == static_cast<std::ptrdiff_t>( k ), "the position after the erased elements" );
	VC_ENSURE( j >= v.size( ) or v[j] == old, "contents" );
}
TWO( clear ) {
	start l;
	dims<K> const d;
	box b;
	auto &v = make( b, d.n, d.cap );
	auto *const p = v.data( );
	v.clear( );
	VC_ENSURE( consistent( v, 0 ) and room( v, d.cap, 0, p ), "nothing left" );
}

// ---- inserting
THREE( insert_copy ) {
	start l;
	dims<K> const d;
	auto const k = vc::range( "k", 0, d.n );
	auto const j = vc::index( "j", d.n + 1 );
	auto const x = vc::any<int>( "x" );
	d.to( d.n + 1 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j < k ? j : j - 1 );
	auto *const p = v.data( );
	auto it = v.insert( v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), x );
	VC_ENSURE( consistent( v, d.n + 1 ) and room( v, d.cap, d.n + 1, p ), "one more element" );
	VC_ENSURE( it - v.begin( ) == static_cast<std::ptrdiff_t>( k ), "the position of the new element" );
	VC_ENSURE( v[j] == ( j == k ? x : old ), "contents" );
}
FITS_OR_GROWS( insert_own_element ) {
	start l;
	dims<K> const d;
	vc::assume( d.n > 0 );
	auto const k = vc::range( "k", 0, d.n );
	auto const i = vc::index( "i", d.n );
	auto const j = vc::index( "j", d.n + 1 );
	d.to( d.n + 1 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j < k ? j : j - 1 );
	auto const x = peek( v, i );
	(void)v.insert( v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), v[i] );
	VC_ENSURE( consistent( v, d.n + 1 ), "one more element" );
	VC_ENSURE( v[j] == ( j == k ? x : old ), "the element of the vector is copied" );
}
THREE( insert_move ) {
	start l;
	dims<K> const d;
	auto const k = vc::range( "k", 0, d.n );
	auto const j = vc::index( "j", d.n + 1 );
	auto const x = vc::any<int>( "x" );
	d.to( d.n + 1 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j < k ? j : j - 1 );
	auto *const p = v.data( );
	auto it = v.insert( v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), int( x ) );
	VC_ENSURE( consistent( v, d.n + 1 ) and room( v, d.cap, d.n + 1, p ), "one more element" );
	VC_ENSURE( it - v.begin( ) == static_cast<std::ptrdiff_t>( k ), "the position of the new element" );
	VC_ENSURE( v[j] == ( j == k ? x : old ), "contents" );
}
THREE( emplace ) {
	start l;
	dims<K> const d;
	auto const k = vc::range( "k", 0, d.n );
	auto const j = vc::index( "j", d.n + 1 );
	auto const x = vc::any<int>( "x" );
	d.to( d.n + 1 );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j < k ? j : j - 1 );
	auto *const p = v.data( );
	auto it = v.emplace( v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), x );
	VC_ENSURE( consistent( v, d.n + 1 ) and room( v, d.cap, d.n + 1, p ), "one more element" );
	VC_ENSURE( it - v.begin( ) == static_cast<std::ptrdiff_t>( k ), "the position of the new element" );
	VC_ENSURE( v[j] == ( j == k ? x : old ), "contents" );
}
// the sequence after inserting m elements at position k
struct seq {
	std::size_t k, m;
	std::size_t from( std::size_t j ) const { return j < k ? j : j - m; }
	bool in( std::size_t j ) const { return j >= k and j < k + m; }
};
FOUR( insert_n ) {
	start l;
	dims<K> const d;
	auto const m = vc::range( "m", 0, big );
	auto const k = vc::range( "k", 0, d.n );
	auto const j = vc::index( "j", d.n + m );
	auto const x = vc::any<int>( "x" );
	seq const s{ k, m };
	d.at( k, m );
	d.to( d.n + m );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = s.in( j ) ? x : peek( v, s.from( j ) );
	auto *const p = v.data( );
	auto it = v.insert( v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), m, x );
	VC_ENSURE( consistent( v, d.n + m ) and room( v, d.cap, d.n + m, p ), "size" );
	VC_ENSURE( it - v.begin( ) == static_cast<std::ptrdiff_t>( k ), "the position of the new elements" );
	VC_ENSURE( v[j] == old, "contents" );
}
FOUR( insert_n_own_element ) {
	start l;
	dims<K> const d;
	if( K == none ) {
		return;
	}
	vc::assume( d.n > 0 );
	auto const m = vc::range( "m", 0, big );
	auto const k = vc::range( "k", 0, d.n );
	auto const i = vc::index( "i", d.n );
	auto const j = vc::index( "j", d.n + m );
	seq const s{ k, m };
	d.at( k, m );
	d.to( d.n + m );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const x = peek( v, i );
	auto const old = s.in( j ) ? x : peek( v, s.from( j ) );
	(void)v.insert( v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), m, v[i] );
	VC_ENSURE( consistent( v, d.n + m ), "size" );
	VC_ENSURE( v[j] == old, "the element of the vector is copied" );
}
FOUR( insert_range ) {
	start l;
	dims<K> const d;
	auto const m = vc::range( "m", 0, big );
	auto const *const src = vc::array<int>( m, "src" );
	auto const k = vc::range( "k", 0, d.n );
	auto const j = vc::index( "j", d.n + m );
	seq const s{ k, m };
	d.at( k, m );
	d.to( d.n + m );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = s.in( j ) ? src[j - k] : peek( v, s.from( j ) );
	auto *const p = v.data( );
	auto it = v.insert( v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), src, src + m );
	VC_ENSURE( consistent( v, d.n + m ) and room( v, d.cap, d.n + m, p ), "size" );
	VC_ENSURE( it - v.begin( ) == static_cast<std::ptrdiff_t>( k ), "the position of the new elements" );
	VC_ENSURE( v[j] == old, "contents" );
}

// ---- capacity
THREE( reserve ) {
	start l;
	dims<K> const d;
	auto const j = vc::any<std::size_t>( "j" );
	auto const m = vc::range( "m", 0, big );
	d.to( m );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto *const p = v.data( );
	v.reserve( m );
	VC_ENSURE( consistent( v, d.n ) and peek( v, j ) == old, "contents" );
	VC_ENSURE( v.capacity( ) >= m and room( v, d.cap, m, p ), "capacity" );
}
TWO( shrink_to_fit ) {
	start l;
	dims<K> const d;
	vc::assume( K == none or d.n > 0 );
	auto const j = vc::any<std::size_t>( "j" );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	v.shrink_to_fit( );
	VC_ENSURE( consistent( v, d.n ) and peek( v, j ) == old and v.capacity( ) == d.n, "contents" );
}
CONTRACT( shrink_to_fit_nothing ) {
	start l;
	auto const cap = vc::range( "cap", 1, big );
	box b;
	auto &v = make( b, 0, cap );
	v.shrink_to_fit( );
	VC_ENSURE( consistent( v, 0 ) and v.capacity( ) == 0, "no memory kept" );
}

// ---- construction and assignment
CONTRACT( ctor_n ) {
	start l;
	auto const n = vc::range( "n", 0, big );
	auto const j = vc::index( "j", n );
	vec v( n );
	VC_ENSURE( consistent( v, n ) and v[j] == 0, "n values" );
}
CONTRACT( ctor_n_value ) {
	start l;
	auto const n = vc::range( "n", 0, big );
	auto const j = vc::index( "j", n );
	auto const x = vc::any<int>( "x" );
	vec v( n, x );
	VC_ENSURE( consistent( v, n ) and v[j] == x, "n copies" );
}
CONTRACT( ctor_n_none ) {
	start l;
	auto const x = vc::any<int>( "x" );
	vec u;
	vec v( 0 );
	vec w( 0, x );
	VC_ENSURE( consistent( u, 0 ) and consistent( v, 0 ) and consistent( w, 0 ), "nothing" );
	VC_ENSURE( u.data( ) == nullptr and v.data( ) == nullptr and w.data( ) == nullptr and u.capacity( ) == 0, "no memory" );
}
CONTRACT( ctor_range ) {
	start l;
	auto const n = vc::range( "n", 0, big );
	auto const *const src = vc::array<int>( n, "src" );
	auto const j = vc::index( "j", n );
	vec v( src, src + n );
	VC_ENSURE( consistent( v, n ) and v[j] == src[j], "the elements of the range" );
}
CONTRACT( ctor_list ) {
	start l;
	auto const x = vc::any<int>( "x" );
	auto const y = vc::any<int>( "y" );
	vec v( { x, y, x }, std::allocator<int>( ) );
	VC_ENSURE( consistent( v, 3 ) and v[0] == x and v[1] == y and v[2] == x and v.front( ) == x and v.back( ) == x, "the listed elements" );
	v = { y, x };
	VC_ENSURE( consistent( v, 2 ) and v[0] == y and v[1] == x, "the listed elements" );
	v.assign( { y, y, y, x, y } );
	VC_ENSURE( consistent( v, 5 ) and v[0] == y and v[3] == x and v[4] == y, "the listed elements" );
	(void)v.insert( v.cbegin( ) + 1, { x, x, y } );
	VC_ENSURE( consistent( v, 8 ) and v[0] == y and v[1] == x and v[2] == x and v[3] == y and v[4] == y and v[6] == x, "the listed elements" );
}
TWO( copy ) {
	start l;
	dims<K> const d;
	vc::assume( K == none or d.n > 0 );
	auto const j = vc::any<std::size_t>( "j" );
	box b;
	auto &v = make( b, d.n, d.cap );
	vec w( v );
	VC_ENSURE( consistent( w, d.n ) and consistent( v, d.n ) and ( j >= d.n or ( w[j] == v[j] and w.data( ) != v.data( ) ) ), "a copy" );
}
CONTRACT( copy_nothing ) {
	start l;
	auto const cap = vc::range( "cap", 1, big );
	box b;
	auto &v = make( b, 0, cap );
	vec w( v );
	VC_ENSURE( consistent( w, 0 ) and consistent( v, 0 ) and v.capacity( ) == cap, "a copy" );
}
TWO( move ) {
	start l;
	dims<K> const d;
	box b;
	auto &v = make( b, d.n, d.cap );
	auto *const p = v.data( );
	vec w( std::move( v ) );
	VC_ENSURE( consistent( w, d.n ) and w.data( ) == p and w.capacity( ) == d.cap, "handed over" );
	VC_ENSURE( consistent( v, 0 ) and v.capacity( ) == 0, "the source is empty" );
	v.push_back( 1 );
	VC_ENSURE( v.size( ) == 1 and v[0] == 1, "and can be used" );
}
struct two_dims {
	std::size_t cap = vc::range( "cap2", 1, big );
	std::size_t n = vc::range( "n2", 0, cap );
};
THREE( copy_assign ) {
	start l;
	dims<K> const d;
	two_dims const e;
	auto const j = vc::any<std::size_t>( "j" );
	vc::assume( K != none or e.n > 0 );
	d.to( e.n );
	box b;
	box c;
	auto &v = make( b, d.n, d.cap );
	auto &w = make( c, e.n, e.cap, "contents2" );
	auto const old = peek( w, j );
	v = w;
	VC_ENSURE( consistent( v, e.n ) and consistent( w, e.n ) and peek( v, j ) == old and peek( w, j ) == old, "a copy" );
}
CONTRACT( copy_assign_nothing ) {
	start l;
	auto const cap = vc::range( "cap", 1, big );
	box b;
	auto &v = make( b, 0, cap );
	vec w;
	w = v;
	VC_ENSURE( consistent( w, 0 ) and consistent( v, 0 ), "a copy" );
	v = w;
	VC_ENSURE( consistent( w, 0 ) and consistent( v, 0 ), "a copy" );
}
CONTRACT( copy_assign_self ) {
	start l;
	dims<some> const d;
	auto const j = vc::any<std::size_t>( "j" );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = peek( v, j );
	auto &r = v;
	v = r;
	VC_ENSURE( consistent( v, d.n ) and peek( v, j ) == old, "unchanged" );
}
TWO( move_assign ) {
	start l;
	dims<K> const d;
	two_dims const e;
	box b;
	box c;
	auto &v = make( b, d.n, d.cap );
	auto &w = make( c, e.n, e.cap, "contents2" );
	auto *const p = w.data( );
	v = std::move( w );
	VC_ENSURE( consistent( v, e.n ) and v.data( ) == p and v.capacity( ) == e.cap, "handed over" );
	VC_ENSURE( consistent( w, 0 ) and w.capacity( ) == 0, "the source is empty" );
}
TWO( swap_with ) {
	start l;
	dims<K> const d;
	two_dims const e;
	box b;
	box c;
	auto &v = make( b, d.n, d.cap );
	auto &w = make( c, e.n, e.cap, "contents2" );
	auto *const p = v.data( );
	auto *const q = w.data( );
	v.swap( w );
	VC_ENSURE( consistent( v, e.n ) and v.data( ) == q and v.capacity( ) == e.cap, "swap" );
	VC_ENSURE( consistent( w, d.n ) and w.data( ) == p and w.capacity( ) == d.cap, "swap" );
	using std::swap;
	swap( v, w );
	VC_ENSURE( consistent( v, d.n ) and v.data( ) == p and v.capacity( ) == d.cap, "swap back" );
}
THREE( assign_n ) {
	start l;
	dims<K> const d;
	auto const m = vc::range( "m", 0, big );
	auto const j = vc::index( "j", m );
	auto const x = vc::any<int>( "x" );
	d.to( m );
	box b;
	auto &v = make( b, d.n, d.cap );
	v.assign( m, x );
	VC_ENSURE( consistent( v, m ) and v[j] == x, "m copies" );
}
THREE( assign_range ) {
	start l;
	dims<K> const d;
	auto const m = vc::range( "m", 0, big );
	auto const *const src = vc::array<int>( m, "src" );
	auto const j = vc::index( "j", m );
	d.to( m );
	box b;
	auto &v = make( b, d.n, d.cap );
	v.assign( src, src + m );
	VC_ENSURE( consistent( v, m ) and v[j] == src[j], "the elements of the range" );
}
CONTRACT( assign_none ) {
	start l;
	dims<some> const d;
	box b;
	auto &v = make( b, d.n, d.cap );
	v.assign( std::size_t{ 0 }, 5 );
	VC_ENSURE( consistent( v, 0 ), "nothing" );
}

// ---- access
TWO( access ) {
	start l;
	dims<K> const d;
	auto const j = vc::any<std::size_t>( "j" );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const &cv = v;
	bool threw = false;
	try {
		auto &r = v.at( j );
		VC_ENSURE( j < d.n and &r == v.data( ) + j, "at" );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == ( j >= d.n ), "at reports positions past the end" );
	threw = false;
	try {
		auto &r = cv.at( j );
		VC_ENSURE( j < d.n and &r == v.data( ) + j, "at" );
	} catch( std::out_of_range const & ) { threw = true; }
	VC_ENSURE( threw == ( j >= d.n ), "at reports positions past the end" );
	if( j < d.n ) {
		auto const o = static_cast<std::ptrdiff_t>( j );
		VC_ENSURE( &v[j] == v.data( ) + j and &cv[j] == v.data( ) + j, "operator[]" );
		VC_ENSURE( &*( v.begin( ) + o ) == v.data( ) + j and &*( cv.begin( ) + o ) == v.data( ) + j and &v.begin( )[o] == v.data( ) + j, "iterators" );
		VC_ENSURE( *( v.rbegin( ) + o ) == v[d.n - 1 - j] and *( cv.rend( ) - 1 - o ) == v[j] and *( cv.crbegin( ) + o ) == v[d.n - 1 - j], "reverse iterators" );
		VC_ENSURE( &v.front( ) == v.data( ) and &cv.front( ) == v.data( ) and &v.back( ) == v.data_end( ) - 1 and &cv.back( ) == v.data_end( ) - 1, "front and back" );
	}
	VC_ENSURE( cv.cend( ) - cv.cbegin( ) == static_cast<std::ptrdiff_t>( d.n ) and cv.data( ) == v.data( ), "the range" );
}

// ---- comparison
CONTRACT( equal ) {
	start l;
	dims<some> const d;
	two_dims const e;
	auto const j = vc::any<std::size_t>( "j" );
	box b;
	box c;
	auto &v = make( b, d.n, d.cap );
	auto &w = make( c, e.n, e.cap, "contents2" );
	bool const eq = v == w;
	VC_ENSURE( not eq or ( d.n == e.n and peek( v, j ) == peek( w, j ) ), "equal vectors hold the same" );
	VC_ENSURE( ( v != w ) == not eq, "!= is the opposite" );
}
CONTRACT( equal_when_same ) {
	start l;
	dims<some> const d;
	auto const cap = vc::range( "cap2", 1, big );
	vc::assume( d.n <= cap );
	box b;
	box c;
	auto &v = make( b, d.n, d.cap );
	auto &w = make( c, d.n, cap, "contents2" );
	auto const *const p = v.data( );
	auto const *const q = w.data( );
	auto same = [=, n = d.n]( std::uint64_t j ) { return j >= n or p[j] == q[j]; };
	vc::forall( p, same );
#ifdef VC_NATIVE
	for( std::size_t i = 0; i < d.n; ++i ) {
		w[i] = v[i];
	}
#endif
	VC_ENSURE( v == w and not( v != w ), "vectors with the same elements are equal" );
}
CONTRACT( less ) {
	start l;
	dims<some> const d;
	two_dims const e;
	auto const k = vc::any<std::size_t>( "k" );
	box b;
	box c;
	auto &v = make( b, d.n, d.cap );
	auto &w = make( c, e.n, e.cap, "contents2" );
	auto const *const p = v.data( );
	auto const *const q = w.data( );
	auto const both = d.n < e.n ? d.n : e.n;
	// k is the first position where they differ
	vc::assume( k <= both and ( k == both or p[k] != q[k] ) );
	auto same = [=]( std::uint64_t j ) { return j >= k or p[j] == q[j]; };
#ifdef VC_NATIVE
	for( std::size_t i = 0; i < k; ++i ) {
		w[i] = v[i];
	}
#endif
	vc::forall( p, same );
	bool const lt = k == both ? d.n < e.n : p[k] < q[k];
	bool const gt = k == both ? d.n > e.n : p[k] > q[k];
	VC_ENSURE( ( v < w ) == lt, "less" );
	VC_ENSURE( ( v > w ) == gt, "greater" );
	VC_ENSURE( ( v <= w ) == not gt and ( v >= w ) == not lt, "less or equal, greater or equal" );
}

// ---- removing by value
CONTRACT( erase_value_size ) {
	start l;
	dims<some> const d;
	auto const j = vc::any<std::size_t>( "j" );
	auto const x = vc::any<int>( "x" );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto four = [&]( std::uint64_t trips, std::uint64_t i ) { return trips <= d.n / 4 and i == ( d.n / 4 - trips ) * 4; };
	vc::hint( four );
	auto const *const p = v.data( );
	auto none = [&]( std::uint64_t w ) { return j >= w or p[j] != x; };
	vc::hint( none );
	auto const r = erase( v, x );
	VC_ENSURE( r <= d.n and consistent( v, d.n - r ) and v.capacity( ) == d.cap, "reports the number removed" );
	VC_ENSURE( j >= v.size( ) or v[j] != x, "no such element is left" );
}
CONTRACT( erase_value ) {
	start l;
	vc_unroll( 5 );
	auto const cap = vc::range( "cap", 1, 3 );
	auto const n = vc::range( "n", 0, cap );
	auto const x = vc::any<int>( "x" );
	box b;
	auto &v = make( b, n, cap );
	int kept[3];
	std::size_t m = 0;
	for( std::size_t i = 0; i < 3; ++i ) {
		if( i < n and v[i] != x ) {
			kept[m++] = v[i];
		}
	}
	auto const r = vc::any<bool>( "pred" ) ? erase( v, x ) : erase_if( v, [x]( int y ) { return y == x; } );
	VC_ENSURE( r == n - m and consistent( v, m ), "size" );
	VC_ENSURE( ( m < 1 or v[0] == kept[0] ) and ( m < 2 or v[1] == kept[1] ) and ( m < 3 or v[2] == kept[2] ), "the others stay, in order" );
}

// ---- single pass ranges (input iterators)
struct input {
	using iterator_category = std::input_iterator_tag;
	using value_type = int;
	using difference_type = std::ptrdiff_t;
	using pointer = int const *;
	using reference = int const &;
	int const *p = nullptr;
	reference operator*( ) const { return *p; }
	input &operator++( ) {
		++p;
		return *this;
	}
	input operator++( int ) {
		auto r = *this;
		++p;
		return r;
	}
	friend bool operator==( input const &a, input const &b ) { return a.p == b.p; }
	friend bool operator!=( input const &a, input const &b ) { return a.p != b.p; }
};
static_assert( not daw::forward_iterator<input> );
constexpr std::size_t few = 3;
struct small_dims {
	std::size_t cap = vc::range( "cap", 0, few );
	std::size_t n = vc::range( "n", 0, cap );
	std::size_t m = vc::range( "m", 0, few );
};
CONTRACT( ctor_input ) {
	start l;
	vc_unroll( 5 );
	auto const m = vc::range( "m", 0, few );
	auto const *const src = vc::array<int>( m, "src" );
	vec v( input{ src }, input{ src + m } );
	auto const j = vc::any<std::size_t>( "j" );
	VC_ENSURE( consistent( v, m ) and ( j >= m or v[j] == src[j] ), "the elements of the range" );
}
CONTRACT( assign_input ) {
	start l;
	vc_unroll( 5 );
	small_dims const d;
	auto const *const src = vc::array<int>( d.m, "src" );
	box b;
	auto &v = make( b, d.n, d.cap );
	v.assign( input{ src }, input{ src + d.m } );
	auto const j = vc::any<std::size_t>( "j" );
	VC_ENSURE( consistent( v, d.m ) and ( j >= d.m or v[j] == src[j] ), "the elements of the range" );
}
template<std::size_t n, std::size_t m, std::size_t k>
void insert_input( ) {
	start l;
	vc_unroll( 6 );
	auto const cap = vc::range( "cap", 1, few );
	vc::assume( cap >= n );
	seq const s{ k, m };
	auto const *const src = vc::array<int>( m, "src" );
	box b;
	auto &v = make( b, n, cap );
	int old[n + m];
	for( std::size_t j = 0; j < n + m; ++j ) {
		old[j] = s.in( j ) ? src[j - k] : v[s.from( j )];
	}
	auto it = v.insert( v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), input{ src }, input{ src + m } );
	VC_ENSURE( consistent( v, n + m ) and it - v.begin( ) == static_cast<std::ptrdiff_t>( k ), "size and position" );
	for( std::size_t j = 0; j < n + m; ++j ) {
		VC_ENSURE( v[j] == old[j], "contents" );
	}
}
CONTRACT( insert_input_first ) { insert_input<0, 2, 0>( ); }
CONTRACT( insert_input_front ) { insert_input<2, 1, 0>( ); }
CONTRACT( insert_input_middle ) { insert_input<2, 2, 1>( ); }
CONTRACT( insert_input_end ) { insert_input<2, 2, 2>( ); }
CONTRACT( insert_input_none ) { insert_input<2, 0, 1>( ); }
CONTRACT( block_append ) {
	start l;
	vc_unroll( 9 );
	small_dims const d;
	auto const block = vc::range( "block", 1, 4 );
	auto const j = vc::index( "j", d.n + d.m );
	auto const *const src = vc::array<int>( d.m, "src" );
	box b;
	auto &v = make( b, d.n, d.cap );
	auto const old = j < d.n ? peek( v, j ) : src[j - d.n];
	daw::block_append_from( v, input{ src }, input{ src + d.m }, block );
	VC_ENSURE( consistent( v, d.n + d.m ) and v[j] == old, "appended" );
}

// ---- objects: every element is constructed and destroyed exactly once
using ovec = daw::vector<tracked>;
struct objects {
	std::size_t cap, n;
	int val[3];
	ovec v;
	objects( )
	  : cap( vc::range( "cap", 0, 3 ) )
	  , n( vc::range( "n", 0, cap ) ) {
		vc_unroll( 6 );
		v.reserve( cap );
		for( std::size_t i = 0; i < 3; ++i ) {
			val[i] = vc::any<int>( "val" );
			if( i < n ) {
				v.emplace_back( val[i] );
			}
		}
		tracked::moves = 0;
	}
	// the vector holds exactly these
	bool holds( std::size_t m, int const *x ) const {
		if( v.size( ) != m or tracked::live != static_cast<int>( m ) or v.capacity( ) < m ) {
			return false;
		}
		for( std::size_t i = 0; i < 5; ++i ) {
			if( i < m and ( v[i].v != x[i] or v[i].tag != tracked::alive ) ) {
				return false;
			}
		}
		return true;
	}
};
CONTRACT( objects_made ) {
	start l;
	objects o;
	VC_ENSURE( o.holds( o.n, o.val ) and o.v.capacity( ) == o.cap, "the state is reached" );
}
CONTRACT( objects_push_back ) {
	start l;
	objects o;
	auto const x = vc::any<int>( "x" );
	int want[4] = { o.val[0], o.val[1], o.val[2], 0 };
	want[o.n] = x;
	switch( vc::range( "how", 0, 2 ) ) {
	case 0: {
		tracked const t( x );
		o.v.push_back( t );
		break;
	}
	case 1: o.v.push_back( tracked( x ) ); break;
	default: o.v.emplace_back( x );
	}
	VC_ENSURE( o.holds( o.n + 1, want ), "one more object" );
}
CONTRACT( objects_insert ) {
	start l;
	objects o;
	auto const x = vc::any<int>( "x" );
	auto const k = vc::range( "k", 0, o.n );
	int want[4];
	for( std::size_t i = 0; i < 4; ++i ) {
		want[i] = i == k ? x : i < k ? o.val[i < 3 ? i : 2] : o.val[i - 1];
	}
	auto const pos = o.v.cbegin( ) + static_cast<std::ptrdiff_t>( k );
	switch( vc::range( "how", 0, 2 ) ) {
	case 0: {
		tracked const t( x );
		(void)o.v.insert( pos, t );
		break;
	}
	case 1: (void)o.v.insert( pos, tracked( x ) ); break;
	default: (void)o.v.emplace( pos, x );
	}
	VC_ENSURE( o.holds( o.n + 1, want ), "one more object" );
}
CONTRACT( objects_insert_n ) {
	start l;
	objects o;
	auto const x = vc::any<int>( "x" );
	auto const k = vc::range( "k", 0, o.n );
	int want[5];
	for( std::size_t i = 0; i < 5; ++i ) {
		want[i] = i == k or i == k + 1 ? x : i < k ? o.val[i < 3 ? i : 2] : o.val[i - 2];
	}
	{
		tracked const t( x );
		(void)o.v.insert( o.v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), std::size_t{ 2 }, t );
	}
	VC_ENSURE( o.holds( o.n + 2, want ), "two more objects" );
}
CONTRACT( objects_erase ) {
	start l;
	objects o;
	auto const k = vc::range( "k", 0, 3 );
	auto const m = vc::range( "m", 0, 3 );
	vc::assume( k <= m and m <= o.n );
	int want[3] = { };
	for( std::size_t i = 0; i < 3; ++i ) {
		auto const from = i < k ? i : i + ( m - k );
		want[i] = from < 3 ? o.val[from] : 0;
	}
	if( m == k + 1 and vc::any<bool>( "one" ) ) {
		(void)o.v.erase( o.v.cbegin( ) + static_cast<std::ptrdiff_t>( k ) );
	} else {
		(void)o.v.erase( o.v.cbegin( ) + static_cast<std::ptrdiff_t>( k ), o.v.cbegin( ) + static_cast<std::ptrdiff_t>( m ) );
	}
	VC_ENSURE( o.holds( o.n - ( m - k ), want ), "objects are destroyed" );
}
CONTRACT( objects_resize ) {
	start l;
	objects o;
	auto const m = vc::range( "m", 0, 4 );
	int want[4];
	for( std::size_t i = 0; i < 4; ++i ) {
		want[i] = i < o.n ? o.val[i] : 0;
	}
	o.v.resize( m );
	VC_ENSURE( o.holds( m, want ), "size" );
	if( m > 0 ) {
		o.v.pop_back( );
		VC_ENSURE( o.holds( m - 1, want ), "one fewer" );
	}
}
CONTRACT( objects_capacity ) {
	start l;
	objects o;
	auto const m = vc::range( "m", 0, 4 );
	o.v.reserve( m );
	VC_ENSURE( o.holds( o.n, o.val ) and o.v.capacity( ) >= m, "reserve" );
	o.v.shrink_to_fit( );
	VC_ENSURE( o.holds( o.n, o.val ) and o.v.capacity( ) == o.n, "shrink_to_fit" );
	o.v.clear( );
	VC_ENSURE( o.holds( 0, o.val ), "clear" );
}
CONTRACT( objects_assign ) {
	start l;
	objects o;
	auto const m = vc::range( "m", 0, 4 );
	auto const x = vc::any<int>( "x" );
	int const want[4] = { x, x, x, x };
	{
		tracked const t( x );
		o.v.assign( m, t );
	}
	VC_ENSURE( o.holds( m, want ), "m copies" );
}
CONTRACT( objects_assign_range ) {
	start l;
	objects o;
	auto const m = vc::range( "m", 0, 4 );
	int want[4];
	for( auto &w : want ) {
		w = vc::any<int>( "want" );
	}
	{
		tracked const t[4] = { want[0], want[1], want[2], want[3] };
		o.v.assign( t + 0, t + m );
	}
	VC_ENSURE( o.holds( m, want ), "the elements" );
}
CONTRACT( objects_copy ) {
	start l;
	objects o;
	{
		ovec w( o.v );
		VC_ENSURE( w.size( ) == o.n and tracked::live == static_cast<int>( 2 * o.n ), "copies" );
		ovec x;
		x = w;
		x = std::move( w );
		VC_ENSURE( x.size( ) == o.n and tracked::live == static_cast<int>( 2 * o.n ), "moved" );
		x.swap( o.v );
	}
	VC_ENSURE( o.holds( o.n, o.val ), "the copy holds the same" );
}
CONTRACT( objects_overwrite ) {
	start l;
	objects o;
	auto const m = vc::range( "m", 1, 4 );
	auto const k = vc::range( "k", 0, 4 );
	vc::assume( k <= o.n and k <= m );
	(void)o.v.resize_and_overwrite( m, [&]( tracked *, std::size_t ) { return k; } );
	VC_ENSURE( o.holds( k, o.val ), "the objects past the end are destroyed" );
}
