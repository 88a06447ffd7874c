// Bit helpers, bit sets and bit queues.
#include "vc.h"
#include <daw/daw_bit.h>
#include <daw/daw_bit_queues.h>
#include <daw/daw_bitset.h>
#include <daw/daw_bitset_helper.h>
#include <daw/daw_integer_reverse.h>
#include <daw/daw_static_bitset.h>
#include <array>

template<typename T>
inline constexpr std::size_t W = sizeof( T ) * 8;
// bit k of v, counting from the least significant one
template<typename T>
bool bit( T v, std::size_t k ) {
	return ( ( static_cast<std::uint64_t>( static_cast<std::make_unsigned_t<T>>( v ) ) >> k ) & 1U ) != 0;
}
template<typename T>
void masks( ) {
	auto const n = vc::any<std::size_t>( "n" );
	auto const k = vc::index( "k", W<T> );
	// the named number of bits is cleared at the most (least) significant end of
	// the largest value
	auto const top = std::is_signed_v<T> ? W<T> - 1 : W<T>;
	VC_ENSURE( bit( daw::mask_msb<T>( n ), k ) == ( n < W<T> and k + n < top ), "mask_msb" );
	VC_ENSURE( bit( daw::mask_lsb<T>( n ), k ) == ( n < W<T> and k >= n and k - n < top ), "mask_lsb" );
}
CONTRACT( masks_u8 ) { masks<std::uint8_t>( ); }
CONTRACT( masks_u16 ) { masks<std::uint16_t>( ); }
CONTRACT( masks_u32 ) { masks<std::uint32_t>( ); }
CONTRACT( masks_u64 ) { masks<std::uint64_t>( ); }

template<typename T>
void make_and_test( ) {
	auto const v = vc::any<T>( "v" );
	auto const a = vc::any<T>( "a" );
	auto const b = vc::any<T>( "b" );
	auto const c = vc::any<T>( "c" );
	VC_ENSURE( daw::make_mask( a ) == a, "a mask of one" );
	VC_ENSURE( daw::make_mask( a, b, c ) == static_cast<T>( a | b | c ), "a mask of three" );
	VC_ENSURE( daw::are_set( v, a ) == ( ( v & a ) != 0 ), "are_set with one mask" );
	VC_ENSURE( daw::are_set( v, a, b, c ) == ( ( v & ( a | b | c ) ) != 0 ), "are_set with three masks" );
}
CONTRACT( make_mask_u8 ) { make_and_test<std::uint8_t>( ); }
CONTRACT( make_mask_i32 ) { make_and_test<std::int32_t>( ); }
CONTRACT( make_mask_u32 ) { make_and_test<std::uint32_t>( ); }
CONTRACT( make_mask_i64 ) { make_and_test<std::int64_t>( ); }
CONTRACT( make_mask_u64 ) { make_and_test<std::uint64_t>( ); }
CONTRACT( are_set_mixed ) {
	auto const v = vc::any<std::uint8_t>( "v" );
	auto const a = vc::any<std::uint64_t>( "a" );
	auto const b = vc::any<std::uint16_t>( "b" );
	VC_ENSURE( daw::are_set( v, a, b ) == ( ( v & ( a | b ) ) != 0 ), "masks wider than the value" );
	VC_ENSURE( daw::are_set( a, v ) == ( ( v & a ) != 0 ), "a mask narrower than the value" );
}

template<typename T>
void set_clear_get( ) {
	auto const v = vc::any<T>( "v" );
	auto const a = vc::index( "a", W<T> );
	auto const b = vc::index( "b", W<T> );
	auto const c = vc::index( "c", W<T> );
	auto const k = vc::index( "k", W<T> );
	bool const named = k == a or k == b or k == c;
	VC_ENSURE( bit( daw::set_bits( v, a ), k ) == ( k == a or bit( v, k ) ), "set one bit" );
	VC_ENSURE( bit( daw::set_bits( v, a, b, c ), k ) == ( named or bit( v, k ) ), "set three bits" );
	VC_ENSURE( bit( daw::unset_bits( v, a ), k ) == ( k != a and bit( v, k ) ), "clear one bit" );
	VC_ENSURE( bit( daw::unset_bits( v, a, b, c ), k ) == ( not named and bit( v, k ) ), "clear three bits" );
	VC_ENSURE( bit( daw::get_bits( v, a ), k ) == ( k == a and bit( v, k ) ), "keep one bit" );
	VC_ENSURE( bit( daw::get_bits( v, a, b, c ), k ) == ( named and bit( v, k ) ), "keep three bits" );
}
CONTRACT( set_bits_u8 ) { set_clear_get<std::uint8_t>( ); }
CONTRACT( set_bits_u16 ) { set_clear_get<std::uint16_t>( ); }
CONTRACT( set_bits_u32 ) { set_clear_get<std::uint32_t>( ); }
CONTRACT( set_bits_u64 ) { set_clear_get<std::uint64_t>( ); }
CONTRACT( set_bits_i32 ) { set_clear_get<std::int32_t>( ); }
CONTRACT( set_bits_i64 ) { set_clear_get<std::int64_t>( ); }

template<typename T>
void reverse( ) {
	auto const v = vc::any<T>( "v" );
	auto const k = vc::index( "k", W<T> );
	T const r = daw::integers::reverse_bits( v );
	VC_ENSURE( bit( r, k ) == bit( v, W<T> - 1 - k ), "bit k becomes bit width-1-k" );
	VC_ENSURE( daw::integers::reverse_bits( r ) == v, "reversing twice" );
}
CONTRACT( reverse_bits_u8 ) { reverse<std::uint8_t>( ); }
CONTRACT( reverse_bits_u16 ) { reverse<std::uint16_t>( ); }
CONTRACT( reverse_bits_u32 ) { reverse<std::uint32_t>( ); }
CONTRACT( reverse_bits_u64 ) { reverse<std::uint64_t>( ); }

// ---- bitset
template<std::size_t N>
void bitset_ops( ) {
	// an arbitrary bit set: every object representation of its limbs
	auto s = vc::any<daw::bitset<N>>( "set" );
	auto const i = vc::index( "i", N );
	auto const k = vc::index( "k", N );
	auto const v = vc::any<bool>( "v" );
	bool const before = s.test( k );
	auto a = s;
	a.set( i );
	VC_ENSURE( a.test( k ) == ( k == i or before ), "set" );
	auto b = s;
	b.unset( i );
	VC_ENSURE( b.test( k ) == ( k != i and before ), "unset" );
	auto c = s;
	c.set( i, v );
	VC_ENSURE( c.test( k ) == ( k == i ? v : before ), "set to a value" );
	VC_ENSURE( s.test( k ) == before, "testing changes nothing" );
	daw::bitset<N> e{ };
	VC_ENSURE( not e.test( k ), "a new set is empty" );
	VC_ENSURE( daw::bitset<N>::size( ) == N, "size" );
}
CONTRACT( bitset_3 ) { bitset_ops<3>( ); }
CONTRACT( bitset_32 ) { bitset_ops<32>( ); }
CONTRACT( bitset_33 ) { bitset_ops<33>( ); }
CONTRACT( bitset_200 ) { bitset_ops<200>( ); }

// ---- static_bitset
template<std::size_t N>
daw::static_bitset<N> any_bits( char const *name ) {
	return vc::any<daw::static_bitset<N>>( name );
}
template<std::size_t N>
void static_bits( ) {
	auto s = any_bits<N>( "set" );
	auto const i = vc::index( "i", N );
	auto const k = vc::index( "k", N );
	bool const before = s.get_bit( k );
	auto a = s;
	a.set_bit( i );
	VC_ENSURE( a.get_bit( k ) == ( k == i or before ), "set_bit" );
	auto b = s;
	b.clear_bit( i );
	VC_ENSURE( b.get_bit( k ) == ( k != i and before ), "clear_bit" );
	auto c = s;
	c.clear( );
	VC_ENSURE( not c.get_bit( k ), "clear" );
	auto n = ~s;
	VC_ENSURE( n.get_bit( k ) == not before, "complement" );
	auto t = any_bits<N>( "other" );
	bool const tk = t.get_bit( k );
	auto x = s ^ t;
	VC_ENSURE( x.get_bit( k ) == ( before != tk ), "exclusive or" );
	auto y = s | t;
	VC_ENSURE( y.get_bit( k ) == ( before or tk ), "or" );
	auto z = s & t;
	VC_ENSURE( z.get_bit( k ) == ( before and tk ), "and" );
}
CONTRACT( static_bitset_64 ) { static_bits<64>( ); }
CONTRACT( static_bitset_100 ) { static_bits<100>( ); }
CONTRACT( static_bitset_192 ) { static_bits<192>( ); }
CONTRACT( static_bitset_equal ) {
	auto s = any_bits<128>( "set" );
	auto t = any_bits<128>( "other" );
	auto const k = vc::index( "k", 128 );
	VC_ENSURE( ( s == t ) == not( s != t ), "equality and inequality" );
	VC_ENSURE( s == s, "equal to itself" );
	VC_ENSURE( not( s == t ) or s.get_bit( k ) == t.get_bit( k ), "equal sets have equal bits" );
	auto u = s;
	u ^ u;
	u.set_bit( k );
	VC_ENSURE( ( u == s ) == s.get_bit( k ), "a set differing in one bit differs" );
}
template<std::size_t N>
void static_shift( std::size_t lo, std::size_t hi ) {
	auto s = any_bits<N>( "set" );
	auto const n = vc::range( "n", lo, hi );
	auto const k = vc::index( "k", N );
	auto l = s;
	l <<= n;
	VC_ENSURE( l.get_bit( k ) == ( k >= n and s.get_bit( k - n ) ), "left shift" );
	auto r = s;
	r >>= n;
	VC_ENSURE( r.get_bit( k ) == ( n < N and k + n < N and s.get_bit( k + n ) ), "right shift" );
}
CONTRACT( static_bitset_shift_64 ) { static_shift<64>( 0, 63 ); }
CONTRACT( static_bitset_shift_64_all ) { static_shift<64>( 64, SIZE_MAX ); }
CONTRACT( static_bitset_shift_128 ) { static_shift<128>( 0, 63 ); }
CONTRACT( static_bitset_shift_128_words ) {
	vc_unroll( 2 );
	static_shift<128>( 64, 127 );
}
CONTRACT( static_bitset_shift_128_all ) { static_shift<128>( 128, SIZE_MAX ); }
CONTRACT( static_bitset_values ) {
	auto const a = vc::any<std::uintmax_t>( "a" );
	auto const b = vc::any<std::uintmax_t>( "b" );
	auto const k = vc::index( "k", 128 );
	auto s = daw::static_bitset<128>( a, b );
	VC_ENSURE( s.get_bit( k ) == ( k < 64 ? bit( a, k ) : bit( b, k - 64 ) ), "two words" );
	auto const j = vc::index( "j", 100 );
	auto t = daw::static_bitset<100>( a, b );
	VC_ENSURE( t.get_bit( j ) == ( j < 64 ? bit( a, j ) : bit( b, j - 64 ) ), "two words, partly used" );
	auto const i = vc::index( "i", 10 );
	auto u = daw::static_bitset<10>( a );
	VC_ENSURE( u.get_bit( i ) == bit( a, i ), "one word, partly used" );
	VC_ENSURE( u == daw::static_bitset<10>( a & 0x3FFU ), "unused bits are dropped" );
}

CONTRACT( bitset_from_positions ) {
	auto const a = vc::index( "a", 40 );
	auto const b = static_cast<unsigned>( vc::index( "b", 40 ) );
	auto const c = static_cast<int>( vc::index( "c", 40 ) );
	auto const k = vc::index( "k", 40 );
	auto s = daw::create_bitset_from_set_positions<40>( a, b, c );
	VC_ENSURE( s[k] == ( k == a or k == b or k == static_cast<std::size_t>( c ) ), "exactly the listed positions" );
	auto t = daw::create_bitset_from_set_positions<40>( std::array{ a, static_cast<std::size_t>( b ) } );
	VC_ENSURE( t[k] == ( k == a or k == b ), "exactly the positions of a range" );
}

// ---- bit queues.  The queue holds m_size bits; the last one pushed is bit 0.
template<typename Q>
struct queue_state {
	Q q;
	std::size_t n;
	std::uint64_t v;
};
// an arbitrary reachable queue: n arbitrary bits
template<typename Q, typename QT, typename VT>
queue_state<Q> any_queue( ) {
	auto const n = vc::range( "size", 0, W<QT> );
	auto const v = vc::any<QT>( "content" );
	queue_state<Q> r{ Q( v ), n, 0 };
	VC_ENSURE( r.q.size( ) == W<QT> and r.q.value( ) == v and r.q.full( ), "a queue of a whole word" );
	// dropping bits until n are left
	auto const drop = W<QT> - n;
	(void)r.q.pop_front( drop );
	r.v = n == 0 ? 0 : static_cast<std::uint64_t>( v ) >> drop;
	VC_ENSURE( r.q.size( ) == n, "size after popping" );
	VC_ENSURE( static_cast<std::uint64_t>( r.q.value( ) ) == r.v, "content after popping" );
	return r;
}
std::uint64_t low( std::uint64_t v, std::size_t n ) {
	return n >= 64 ? v : v & ( ( std::uint64_t{ 1 } << n ) - 1U );
}
std::uint64_t shl( std::uint64_t v, std::size_t n ) {
	return n >= 64 ? 0 : v << n;
}
std::uint64_t shr( std::uint64_t v, std::size_t n ) {
	return n >= 64 ? 0 : v >> n;
}
template<typename QT, typename VT>
void queue_push( ) {
	using Q = daw::basic_bit_queue<QT, VT>;
	auto s = any_queue<Q, QT, VT>( );
	auto const bits = vc::range( "bits", 0, W<VT> );
	vc::assume( bits <= W<QT> - s.n );
	auto const x = vc::any<VT>( "x" );
	s.q.push_back( x, bits );
	VC_ENSURE( s.q.size( ) == s.n + bits, "push_back size" );
	VC_ENSURE( static_cast<std::uint64_t>( s.q.value( ) ) == ( shl( s.v, bits ) | low( x, bits ) ), "push_back appends the low bits" );
	VC_ENSURE( s.q.empty( ) == ( s.n + bits == 0 ), "empty" );
	VC_ENSURE( s.q.full( ) == ( s.n + bits == W<QT> ), "full" );
}
template<typename QT, typename VT>
void queue_pop( ) {
	using Q = daw::basic_bit_queue<QT, VT>;
	auto s = any_queue<Q, QT, VT>( );
	auto const bits = vc::range( "bits", 0, W<VT> );
	auto const want = vc::any<std::size_t>( "want" );
	VC_ENSURE( s.q.can_pop( want ) == ( want <= s.n ), "can_pop" );
	vc::assume( bits <= s.n );
	auto f = s.q;
	auto const x = f.pop_front( bits );
	VC_ENSURE( static_cast<std::uint64_t>( x ) == low( s.v, bits ), "pop_front takes the low bits" );
	VC_ENSURE( f.size( ) == s.n - bits and static_cast<std::uint64_t>( f.value( ) ) == shr( s.v, bits ), "pop_front keeps the others" );
	auto b = s.q;
	auto const y = b.pop_back( bits );
	VC_ENSURE( static_cast<std::uint64_t>( y ) == shr( s.v, s.n - bits ), "pop_back takes the bits pushed first" );
	VC_ENSURE( b.size( ) == s.n - bits and static_cast<std::uint64_t>( b.value( ) ) == low( s.v, s.n - bits ), "pop_back keeps the others" );
	auto c = s.q;
	auto const z = c.pop_all( );
	VC_ENSURE( z == static_cast<VT>( s.v ) and c.size( ) == 0 and c.value( ) == 0 and c.empty( ), "pop_all" );
	auto d = s.q;
	d.clear( );
	VC_ENSURE( d.size( ) == 0 and d.value( ) == 0, "clear" );
}
CONTRACT( bit_queue_push_u16_u8 ) { queue_push<std::uint16_t, std::uint8_t>( ); }
CONTRACT( bit_queue_push_u8_u8 ) { queue_push<std::uint8_t, std::uint8_t>( ); }
CONTRACT( bit_queue_push_u32_u16 ) { queue_push<std::uint32_t, std::uint16_t>( ); }
CONTRACT( bit_queue_push_u64_u32 ) { queue_push<std::uint64_t, std::uint32_t>( ); }
CONTRACT( bit_queue_push_u64_u64 ) { queue_push<std::uint64_t, std::uint64_t>( ); }
CONTRACT( bit_queue_pop_u16_u8 ) { queue_pop<std::uint16_t, std::uint8_t>( ); }
CONTRACT( bit_queue_pop_u8_u8 ) { queue_pop<std::uint8_t, std::uint8_t>( ); }
CONTRACT( bit_queue_pop_u32_u16 ) { queue_pop<std::uint32_t, std::uint16_t>( ); }
CONTRACT( bit_queue_pop_u64_u32 ) { queue_pop<std::uint64_t, std::uint32_t>( ); }
CONTRACT( bit_queue_pop_u64_u64 ) { queue_pop<std::uint64_t, std::uint64_t>( ); }
CONTRACT( bit_queue_new ) {
	daw::bit_queue q{ };
	VC_ENSURE( q.size( ) == 0 and q.empty( ) and q.value( ) == 0 and daw::bit_queue::capacity( ) == 16, "a new queue is empty" );
}

CONTRACT( nibble_queue ) {
	using Q = daw::basic_nibble_queue<std::uint32_t, std::uint8_t>;
	auto const v = vc::any<std::uint32_t>( "v" );
	Q q( v );
	VC_ENSURE( q.size( ) == 8 and not q.empty( ) and q.value( ) == v, "a queue of a word" );
	VC_ENSURE( q.pop_front( 1 ) == ( v & 0xFU ) and q.size( ) == 7 and q.value( ) == ( v >> 4U ), "pop one nibble" );
	VC_ENSURE( q.pop_front( ) == ( ( v >> 4U ) & 0xFFU ) and q.size( ) == 5, "pop a value" );
	auto const x = vc::any<std::uint8_t>( "x" );
	q.push_back( x );
	VC_ENSURE( q.size( ) == 6 and q.value( ) == ( ( ( v >> 12U ) << 4U ) | ( x & 0xFU ) ), "push a nibble" );
	q.push_back( x, 2 );
	VC_ENSURE( q.size( ) == 8 and q.can_pop( 8 ) and not q.can_pop( 9 ) and q.can_pop( ), "push two nibbles" );
	VC_ENSURE( ( q.value( ) & 0xFFU ) == x, "push two nibbles value" );
	VC_ENSURE( q.pop_all( ) == x and q.empty( ), "pop_all" );
	Q e{ };
	VC_ENSURE( e.empty( ) and e.size( ) == 0 and not e.can_pop( 1 ), "new" );
}
