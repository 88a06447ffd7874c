// String-view comparison, equality, ordering and hashing.  d is the first
// position where the two texts differ (the shorter length when there is none).
#include "svh.h"
#include <daw/daw_fnv1a_hash.h>
#include <compare>

using u8 = unsigned char;
#ifdef VC_NATIVE
// make equal prefixes likely
template<typename T>
void make_similar( T const &a, T const &b ) {
	auto k = vc::any<u8>( "same" );
	for( std::size_t j = 0; j < a.n and j < b.n and j < k % 8U; ++j ) b.p[j] = a.p[j];
}
#else
template<typename T>
void make_similar( T const &, T const & ) {}
#endif
template<typename C, typename Less>
std::size_t first_diff( C const *p, std::size_t n, C const *q, std::size_t m, Less less ) {
	auto d = vc::size( "d" );
	auto const mn = n < m ? n : m;
#ifdef VC_NATIVE
	d = 0;
	while( d < mn and not less( p[d], q[d] ) and not less( q[d], p[d] ) ) ++d;
#endif
	vc::assume( d <= mn and ( d == mn or less( p[d], q[d] ) or less( q[d], p[d] ) ) );
	auto f = [&]( std::uint64_t j ) { return j >= d or ( not less( p[j], q[j] ) and not less( q[j], p[j] ) ); };
	vc::forall( p, f );
	vc::forall( q, f );
	return d;
}
constexpr auto lt = []( auto a, auto b ) { return a < b; };
template<typename C, typename Less>
int expected( C const *p, std::size_t n, C const *q, std::size_t m, std::size_t d, Less less ) {
	if( d == n ) return d == m ? 0 : -1;
	if( d == m ) return 1;
	return less( p[d], q[d] ) ? -1 : 1;
}
constexpr int sgn( int r ) {
	return r < 0 ? -1 : ( r > 0 ? 1 : 0 );
}
#define TWO( C )                            \
	auto a = any_text<C>( "n", "left" );      \
	auto b = any_text<C>( "m", "right" );     \
	make_similar( a, b );                     \
	auto const d = first_diff( a.p, a.n, b.p, b.n, lt ); \
	auto const e = expected( a.p, a.n, b.p, b.n, d, lt );

CONTRACT( compare_views ) {
	TWO( char )
	VC_ENSURE( sgn( a.v.compare( b.v ) ) == e, "compare( view ) is the lexicographic comparison" );
	VC_ENSURE( sgn( sv::compare( a.v, b.v ) ) == e, "static compare is the lexicographic comparison" );
}
CONTRACT( compare_reversed ) {
	TWO( char )
	VC_ENSURE( sgn( b.v.compare( a.v ) ) == -e, "compare is antisymmetric" );
}
CONTRACT( compare_self ) {
	auto a = any_text( );
	VC_ENSURE( a.v.compare( a.v ) == 0, "compare is reflexive" );
	VC_ENSURE( a.v == a.v, "a view equals itself" );
}
CONTRACT( compare_wide ) {
	TWO( char32_t )
	VC_ENSURE( sgn( a.v.compare( b.v ) ) == e, "compare( view ) is the lexicographic comparison (32-bit characters)" );
	VC_ENSURE( ( a.v == b.v ) == ( e == 0 ), "equality (32-bit characters)" );
	VC_ENSURE( ( a.v < b.v ) == ( e < 0 ), "less (32-bit characters)" );
}
// any strict weak order given by ranks
CONTRACT( compare_with ) {
	auto a = any_text<char>( "n", "left" );
	auto b = any_text<char>( "m", "right" );
	make_similar( a, b );
	auto rank = vc::array<u8>( 256, "rank" );
	auto less = [rank]( char x, char y ) { return rank[static_cast<u8>( x )] < rank[static_cast<u8>( y )]; };
	auto const d = first_diff( a.p, a.n, b.p, b.n, less );
	VC_ENSURE( sgn( a.v.compare( b.v, less ) ) == expected( a.p, a.n, b.p, b.n, d, less ), "compare with a comparator" );
}
CONTRACT( compare_string_view ) {
	TWO( char )
	VC_ENSURE( sgn( a.v.compare( std::string_view( b.p, b.n ) ) ) == e, "compare with another contiguous text" );
}
CONTRACT( compare_array ) {
	auto a = any_text<char>( "n", "left" );
	struct arr {
		char x[5];
	};
	auto q = vc::any<arr>( "array" );
	auto const d = first_diff( a.p, a.n, q.x, 4, lt );
	VC_ENSURE( sgn( a.v.compare( q.x ) ) == expected( a.p, a.n, q.x, 4, d, lt ), "compare with a character array" );
}
struct part {
	bool bad;
	std::size_t pos, len;
};
template<typename T>
part sub_of( T const &t, std::size_t pos, std::size_t count ) {
	if( pos > t.n ) return { true, 0, 0 };
	return { false, pos, count < t.n - pos ? count : t.n - pos };
}
CONTRACT( compare_part ) {
	auto a = any_text<char>( "n", "left" );
	auto b = any_text<char>( "m", "right" );
	make_similar( a, b );
	auto pos = vc::size( "pos" );
	auto count = vc::any<std::size_t>( "count" );
	auto pa = sub_of( a, pos, count );
	if( pa.bad ) {
		VC_ENSURE( throws_range( [&] { (void)a.v.compare( pos, count, b.v ); } ), "compare of an out-of-range part throws" );
		return;
	}
	auto const d = first_diff( a.p + pa.pos, pa.len, b.p, b.n, lt );
	auto const e = expected( a.p + pa.pos, pa.len, b.p, b.n, d, lt );
	VC_ENSURE( sgn( a.v.compare( pos, count, b.v ) ) == e, "compare( pos, count, view )" );
}
CONTRACT( compare_part_ptr ) {
	auto a = any_text<char>( "n", "left" );
	auto b = any_text<char>( "m", "right" );
	make_similar( a, b );
	auto pos = vc::size( "pos" );
	auto count = vc::any<std::size_t>( "count" );
	auto pa = sub_of( a, pos, count );
	vc::assume( not pa.bad );
	auto const d = first_diff( a.p + pa.pos, pa.len, b.p, b.n, lt );
	auto const e = expected( a.p + pa.pos, pa.len, b.p, b.n, d, lt );
	VC_ENSURE( sgn( a.v.compare( pos, count, static_cast<char const *>( b.p ), b.n ) ) == e, "compare( pos, count, pointer, count )" );
}
CONTRACT( compare_part_part ) {
	auto a = any_text<char>( "n", "left" );
	auto b = any_text<char>( "m", "right" );
	make_similar( a, b );
	auto pos = vc::size( "pos" );
	auto count = vc::any<std::size_t>( "count" );
	auto pos2 = vc::size( "pos2" );
	auto count2 = vc::any<std::size_t>( "count2" );
	auto pa = sub_of( a, pos, count );
	auto pb = sub_of( b, pos2, count2 );
	vc::assume( not pa.bad and not pb.bad );
	auto const d = first_diff( a.p + pa.pos, pa.len, b.p + pb.pos, pb.len, lt );
	auto const e = expected( a.p + pa.pos, pa.len, b.p + pb.pos, pb.len, d, lt );
	vc_ghost( pa.pos + d );
	VC_ENSURE( sgn( a.v.compare( pos, count, b.v, pos2, count2 ) ) == e, "compare( pos, count, view, pos, count )" );
}
CONTRACT( compare_part_part_range ) {
	auto a = any_text<char>( "n", "left" );
	auto b = any_text<char>( "m", "right" );
	auto pos = vc::size( "pos" );
	auto count = vc::any<std::size_t>( "count" );
	auto pos2 = vc::size( "pos2" );
	auto count2 = vc::any<std::size_t>( "count2" );
	vc::assume( pos > a.n or pos2 > b.n );
	VC_ENSURE( throws_range( [&] { (void)a.v.compare( pos, count, b.v, pos2, count2 ); } ), "compare of out-of-range parts throws" );
}
// zero-terminated right operand
template<typename C = char>
text_t<C> c_string( char const *len, char const *nm ) {
	auto s = any_ztext<C>( len, nm );
	vc::each( s.p, s.n, []( C c ) { return c != 0; }, C{ 'x' } );
	return s;
}
#define TWO_Z                                                \
	auto a = any_text<char>( "n", "left" );                    \
	auto b = c_string( "m", "right" );                         \
	auto const q = static_cast<char const *>( b.p );           \
	auto const d = first_diff( a.p, a.n, b.p, b.n, lt );       \
	auto const e = expected( a.p, a.n, b.p, b.n, d, lt );

CONTRACT( compare_part_z ) {
	TWO_Z
	VC_ENSURE( sgn( a.v.compare( 0, a.n, q ) ) == e, "compare( pos, count, zero-terminated text )" );
}
CONTRACT( compare_z ) {
	TWO_Z
	VC_ENSURE( sgn( a.v.compare( q ) ) == e, "compare( zero-terminated text )" );
}
CONTRACT( equal_z ) {
	TWO_Z
	VC_ENSURE( ( a.v == q ) == ( e == 0 ), "view == text" );
	VC_ENSURE( ( q == a.v ) == ( e == 0 ), "text == view" );
}
CONTRACT( unequal_z ) {
	TWO_Z
	VC_ENSURE( ( a.v != q ) == ( e != 0 ), "view != text" );
	VC_ENSURE( ( q != a.v ) == ( e != 0 ), "text != view" );
}
CONTRACT( less_z ) {
	TWO_Z
	VC_ENSURE( ( a.v < q ) == ( e < 0 ), "view < text" );
	VC_ENSURE( ( a.v >= q ) == ( e >= 0 ), "view >= text" );
}
CONTRACT( greater_z ) {
	TWO_Z
	VC_ENSURE( ( a.v > q ) == ( e > 0 ), "view > text" );
	VC_ENSURE( ( a.v <= q ) == ( e <= 0 ), "view <= text" );
}
CONTRACT( z_less ) {
	TWO_Z
	VC_ENSURE( ( q < a.v ) == ( e > 0 ), "text < view" );
	VC_ENSURE( ( q >= a.v ) == ( e <= 0 ), "text >= view" );
}
CONTRACT( z_greater ) {
	TWO_Z
	VC_ENSURE( ( q > a.v ) == ( e < 0 ), "text > view" );
	VC_ENSURE( ( q <= a.v ) == ( e >= 0 ), "text <= view" );
}
CONTRACT( equality ) {
	TWO( char )
	VC_ENSURE( ( a.v == b.v ) == ( e == 0 ), "==" );
	VC_ENSURE( ( a.v != b.v ) == ( e != 0 ), "!=" );
}
CONTRACT( relational_less ) {
	TWO( char )
	VC_ENSURE( ( a.v < b.v ) == ( e < 0 ), "<" );
	VC_ENSURE( ( a.v <= b.v ) == ( e <= 0 ), "<=" );
}
CONTRACT( relational_greater ) {
	TWO( char )
	VC_ENSURE( ( a.v > b.v ) == ( e > 0 ), ">" );
	VC_ENSURE( ( a.v >= b.v ) == ( e >= 0 ), ">=" );
}
CONTRACT( spaceship ) {
	TWO( char )
	auto const r = a.v <=> b.v;
	VC_ENSURE( ( r < 0 ) == ( e < 0 ) and ( r > 0 ) == ( e > 0 ) and ( r == 0 ) == ( e == 0 ), "<=>" );
}
#define TWO_STD \
	TWO( char )   \
	auto const s = std::string_view( b.p, b.n );
CONTRACT( std_equality ) {
	TWO_STD
	VC_ENSURE( ( a.v == s ) == ( e == 0 ), "view == std::string_view" );
	VC_ENSURE( ( s == a.v ) == ( e == 0 ), "std::string_view == view" );
	VC_ENSURE( ( a.v != s ) == ( e != 0 ), "view != std::string_view" );
	VC_ENSURE( ( s != a.v ) == ( e != 0 ), "std::string_view != view" );
}
CONTRACT( std_less ) {
	TWO_STD
	VC_ENSURE( ( a.v < s ) == ( e < 0 ), "view < std::string_view" );
	VC_ENSURE( ( s < a.v ) == ( e > 0 ), "std::string_view < view" );
	VC_ENSURE( ( a.v <= s ) == ( e <= 0 ), "view <= std::string_view" );
	VC_ENSURE( ( s <= a.v ) == ( e >= 0 ), "std::string_view <= view" );
}
CONTRACT( std_greater ) {
	TWO_STD
	VC_ENSURE( ( a.v > s ) == ( e > 0 ), "view > std::string_view" );
	VC_ENSURE( ( s > a.v ) == ( e < 0 ), "std::string_view > view" );
	VC_ENSURE( ( a.v >= s ) == ( e >= 0 ), "view >= std::string_view" );
	VC_ENSURE( ( s >= a.v ) == ( e <= 0 ), "std::string_view >= view" );
}

// FNV-1a of the first n characters
extern "C" __attribute__( ( noinline ) ) std::uint64_t vcspec_fnv( char const *p, std::size_t n ) {
	if( n == 0 ) return 14695981039346656037ULL;
	return ( vcspec_fnv( p, n - 1 ) ^ static_cast<u8>( p[n - 1] ) ) * 1099511628211ULL;
}
#define HASH_IS( what, ... )                                                                    \
	auto t = any_text( );                                                                         \
	std::uint64_t r = 0;                                                                          \
	std::size_t k = 0;                                                                            \
	auto h = [&]( std::uint64_t x, std::uint64_t i ) { return x == vcspec_fnv( t.p, i ); };       \
	vc::hint( h );                                                                                \
	r = __VA_ARGS__;                                                                              \
	(void)k;                                                                                      \
	VC_ENSURE( r == vcspec_fnv( t.p, t.n ), what );
CONTRACT( std_hash ) {
	HASH_IS( "std::hash depends on the characters only", std::hash<sv>{ }( t.v ) )
}
CONTRACT( fnv1a_object_of_view ) {
	HASH_IS( "fnv1a_hash_t( view ) depends on the characters only", daw::fnv1a_hash_t{ }( t.v ) )
}
// lemma: folding any step function over equal characters gives equal values
// (vcspec_opaque_step stands for an arbitrary function; FNV-1a is an instance)
extern "C" __attribute__( ( noinline ) ) std::uint64_t vcspec_opaque_step( std::uint64_t h, char c ) {
	return ( h ^ static_cast<u8>( c ) ) * 1099511628211ULL;
}
extern "C" __attribute__( ( noinline ) ) std::uint64_t vcspec_fold( char const *p, std::size_t n ) {
	if( n == 0 ) return 14695981039346656037ULL;
	return vcspec_opaque_step( vcspec_fold( p, n - 1 ), p[n - 1] );
}
CONTRACT( equal_texts_hash_equally ) {
	auto a = any_text<char>( "n", "left" );
	auto b = vc::array<char>( a.n, "right" );
#ifdef VC_NATIVE
	for( std::size_t j = 0; j < a.n; ++j ) b[j] = a.p[j];
#endif
	auto f = [&]( std::uint64_t j ) { return j >= a.n or a.p[j] == b[j]; };
	vc::forall( a.p, f );
	auto h = [&]( std::uint64_t i ) { return i > a.n or vcspec_fold( a.p, i ) == vcspec_fold( b, i ); };
	vc::hint( h );
	std::size_t i = 0;
	while( i < a.n ) ++i;
	VC_ENSURE( vcspec_fold( a.p, i ) == vcspec_fold( b, i ), "equal texts have equal hashes" );
}
