// Popping, splitting and trimming string views.
#include "svh.h"

using u8 = unsigned char;
struct any_class {
	u8 *s;
	bool operator( )( char c ) const {
		return s[static_cast<u8>( c )] != 0;
	}
};
inline any_class a_class( ) {
	any_class r{ vc::array<u8>( 256, "class" ) };
#ifdef VC_NATIVE
	for( std::size_t j = 0; j < 256; ++j ) r.s[j] = ( r.s[j] & 3U ) == 0;
#endif
	return r;
}
struct is_char {
	char c;
	bool operator( )( char x ) const {
		return x == c;
	}
};
struct is_ws {
	bool operator( )( char c ) const {
		return c == ' ' or ( '\t' <= c and c <= '\r' );
	}
};
template<typename P>
struct negated {
	P p;
	bool operator( )( char x ) const {
		return not p( x );
	}
};
template<typename P>
negated( P ) -> negated<P>;

// q is the first position where pred holds, or n
template<typename T, typename P>
std::size_t first_where( T const &t, P pred, char const *nm = "first" ) {
	auto q = vc::size( nm );
#ifdef VC_NATIVE
	q = 0;
	while( q < t.n and not pred( t.p[q] ) ) ++q;
#endif
	vc::assume( q <= t.n and ( q == t.n or pred( t.p[q] ) ) );
	auto f = [&]( std::uint64_t j ) { return j >= q or not pred( t.p[j] ); };
	vc::forall( t.p, f );
	return q;
}
// q is one past the last position where pred holds, or 0
template<typename T, typename P>
std::size_t after_last_where( T const &t, P pred, char const *nm = "last" ) {
	auto q = vc::size( nm );
#ifdef VC_NATIVE
	q = t.n;
	while( q > 0 and not pred( t.p[q - 1] ) ) --q;
#endif
	vc::assume( q <= t.n and ( q == 0 or pred( t.p[q - 1] ) ) );
	auto f = [&]( std::uint64_t j ) { return j >= t.n or j < q or not pred( t.p[j] ); };
	vc::forall( t.p, f );
	if( q > 0 ) vc_ghost( q - 1 );
	return q;
}
// result [ra, rb), rest [a, b)
#define ENSURE_CUT( t, r, ra, rb, v, a, b, what )                                          \
	VC_ENSURE( is_window( r, ( t ).p + ( ra ), ( rb ) - ( ra ) ), what ": returned part" );  \
	VC_ENSURE( zt_ok( t, r ), what ": returned part (zero-termination mark)" );              \
	VC_ENSURE( is_window( v, ( t ).p + ( a ), ( b ) - ( a ) ), what ": remaining text" );    \
	VC_ENSURE( zt_ok( t, v ), what ": remaining text (zero-termination mark)" );
// an empty view compares by size only
#define ENSURE_CUT_EMPTY_REST( t, r, ra, rb, v, what )                                     \
	VC_ENSURE( is_window( r, ( t ).p + ( ra ), ( rb ) - ( ra ) ), what ": returned part" );  \
	VC_ENSURE( zt_ok( t, r ), what ": returned part (zero-termination mark)" );              \
	VC_ENSURE( v.size( ) == 0 and zt_ok( t, v ), what ": nothing remains" );

#define FRONT( pred_decl, spec_pred )               \
	auto t = any_view( );                             \
	pred_decl;                                        \
	auto const q = first_where( t, spec_pred );       \
	auto const q1 = q < t.n ? q + 1 : t.n;            \
	auto v = t.v;                                     \
	(void)q1;
#define ANY_CHAR auto c = vc::any<char>( "c" )
#define ANY_CLASS auto pred = a_class( )

CONTRACT( pop_front_until_char ) {
	FRONT( ANY_CHAR, is_char{ c } )
	auto r = v.pop_front_until( c );
	ENSURE_CUT( t, r, 0, q, v, q1, t.n, "pop_front_until( char )" )
}
CONTRACT( pop_front_until_char_keep ) {
	FRONT( ANY_CHAR, is_char{ c } )
	auto r = v.pop_front_until( c, daw::nodiscard );
	ENSURE_CUT( t, r, 0, q, v, q, t.n, "pop_front_until( char, nodiscard )" )
}
CONTRACT( pop_front_until_pred ) {
	FRONT( ANY_CLASS, pred )
	auto r = v.pop_front_until( pred );
	ENSURE_CUT( t, r, 0, q, v, q1, t.n, "pop_front_until( predicate )" )
}
CONTRACT( pop_front_until_pred_keep ) {
	FRONT( ANY_CLASS, pred )
	auto r = v.pop_front_until( pred, daw::nodiscard );
	ENSURE_CUT( t, r, 0, q, v, q, t.n, "pop_front_until( predicate, nodiscard )" )
}
CONTRACT( pop_front_while_char ) {
	FRONT( ANY_CHAR, negated{ is_char{ c } } )
	auto r = v.pop_front_while( c );
	ENSURE_CUT( t, r, 0, q, v, q, t.n, "pop_front_while( char )" )
}
CONTRACT( pop_front_while_pred ) {
	FRONT( ANY_CLASS, negated{ pred } )
	auto r = v.pop_front_while( pred );
	ENSURE_CUT( t, r, 0, q, v, q, t.n, "pop_front_while( predicate )" )
}
CONTRACT( try_pop_front_until_char ) {
	FRONT( ANY_CHAR, is_char{ c } )
	auto r = v.try_pop_front_until( c );
	if( q == t.n ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_front_until( char ): nothing changes when absent" );
	} else {
		ENSURE_CUT( t, r, 0, q, v, q + 1, t.n, "try_pop_front_until( char )" )
	}
}
CONTRACT( try_pop_front_until_char_keep ) {
	FRONT( ANY_CHAR, is_char{ c } )
	auto r = v.try_pop_front_until( c, daw::nodiscard );
	if( q == t.n ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_front_until( char, nodiscard ): nothing changes when absent" );
	} else {
		ENSURE_CUT( t, r, 0, q, v, q, t.n, "try_pop_front_until( char, nodiscard )" )
	}
}
CONTRACT( try_pop_front_until_pred ) {
	FRONT( ANY_CLASS, pred )
	auto r = v.try_pop_front_until( pred );
	if( q == t.n ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_front_until( predicate ): nothing changes when absent" );
	} else {
		ENSURE_CUT( t, r, 0, q, v, q + 1, t.n, "try_pop_front_until( predicate )" )
	}
}
CONTRACT( try_pop_front_until_pred_keep ) {
	FRONT( ANY_CLASS, pred )
	auto r = v.try_pop_front_until( pred, daw::nodiscard );
	if( q == t.n ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_front_until( predicate, nodiscard ): nothing changes when absent" );
	} else {
		ENSURE_CUT( t, r, 0, q, v, q, t.n, "try_pop_front_until( predicate, nodiscard )" )
	}
}
CONTRACT( remove_prefix_until_char ) {
	FRONT( ANY_CHAR, is_char{ c } )
	v.remove_prefix_until( c );
	ENSURE_WINDOW( t, v, q1, t.n - q1, "remove_prefix_until( char )" );
}
CONTRACT( remove_prefix_until_char_keep ) {
	FRONT( ANY_CHAR, is_char{ c } )
	v.remove_prefix_until( c, daw::nodiscard );
	ENSURE_WINDOW( t, v, q, t.n - q, "remove_prefix_until( char, nodiscard )" );
}
CONTRACT( remove_prefix_until_pred ) {
	FRONT( ANY_CLASS, pred )
	v.remove_prefix_until( pred );
	ENSURE_WINDOW( t, v, q1, t.n - q1, "remove_prefix_until( predicate )" );
}
CONTRACT( remove_prefix_until_pred_keep ) {
	FRONT( ANY_CLASS, pred )
	v.remove_prefix_until( pred, daw::nodiscard );
	ENSURE_WINDOW( t, v, q, t.n - q, "remove_prefix_until( predicate, nodiscard )" );
}
CONTRACT( remove_prefix_while_char ) {
	FRONT( ANY_CHAR, negated{ is_char{ c } } )
	v.remove_prefix_while( c );
	ENSURE_WINDOW( t, v, q, t.n - q, "remove_prefix_while( char )" );
}
CONTRACT( remove_prefix_while_pred ) {
	FRONT( ANY_CLASS, negated{ pred } )
	v.remove_prefix_while( pred );
	ENSURE_WINDOW( t, v, q, t.n - q, "remove_prefix_while( predicate )" );
}
CONTRACT( trim_prefix ) {
	FRONT( , negated{ is_ws{ } } )
	auto w = t.v.trim_prefix_copy( );
	ENSURE_WINDOW( t, w, q, t.n - q, "trim_prefix_copy" );
	v.trim_prefix( );
	ENSURE_WINDOW( t, v, q, t.n - q, "trim_prefix" );
}
// ---------------------------------------------------------------- from the back
#define BACK( pred_decl, spec_pred )                \
	auto t = any_view( );                             \
	pred_decl;                                        \
	auto const q = after_last_where( t, spec_pred );  \
	auto v = t.v;
CONTRACT( pop_back_until_char ) {
	BACK( ANY_CHAR, is_char{ c } )
	auto r = v.pop_back_until( c );
	if( q == 0 ) {
		ENSURE_CUT_EMPTY_REST( t, r, 0, t.n, v, "pop_back_until( char ), absent" )
	} else {
		ENSURE_CUT( t, r, q, t.n, v, 0, q - 1, "pop_back_until( char )" )
	}
}
CONTRACT( pop_back_until_char_keep ) {
	BACK( ANY_CHAR, is_char{ c } )
	auto r = v.pop_back_until( c, daw::nodiscard );
	if( q == 0 ) {
		ENSURE_CUT_EMPTY_REST( t, r, 0, t.n, v, "pop_back_until( char, nodiscard ), absent" )
	} else {
		ENSURE_CUT( t, r, q, t.n, v, 0, q, "pop_back_until( char, nodiscard )" )
	}
}
CONTRACT( pop_back_until_pred ) {
	BACK( ANY_CLASS, pred )
	auto r = v.pop_back_until( pred );
	if( q == 0 ) {
		ENSURE_CUT_EMPTY_REST( t, r, 0, t.n, v, "pop_back_until( predicate ), absent" )
	} else {
		ENSURE_CUT( t, r, q, t.n, v, 0, q - 1, "pop_back_until( predicate )" )
	}
}
CONTRACT( pop_back_until_pred_keep ) {
	BACK( ANY_CLASS, pred )
	auto r = v.pop_back_until( pred, daw::nodiscard );
	if( q == 0 ) {
		ENSURE_CUT_EMPTY_REST( t, r, 0, t.n, v, "pop_back_until( predicate, nodiscard ), absent" )
	} else {
		ENSURE_CUT( t, r, q - 1, t.n, v, 0, q - 1, "pop_back_until( predicate, nodiscard )" )
	}
}
CONTRACT( try_pop_back_until_char ) {
	BACK( ANY_CHAR, is_char{ c } )
	auto r = v.try_pop_back_until( c );
	if( q == 0 ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_back_until( char ): nothing changes when absent" );
	} else {
		ENSURE_CUT( t, r, q, t.n, v, 0, q - 1, "try_pop_back_until( char )" )
	}
}
CONTRACT( try_pop_back_until_char_keep ) {
	BACK( ANY_CHAR, is_char{ c } )
	auto r = v.try_pop_back_until( c, daw::nodiscard );
	if( q == 0 ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_back_until( char, nodiscard ): nothing changes when absent" );
	} else {
		ENSURE_CUT( t, r, q, t.n, v, 0, q, "try_pop_back_until( char, nodiscard )" )
	}
}
CONTRACT( try_pop_back_until_pred ) {
	BACK( ANY_CLASS, pred )
	auto r = v.try_pop_back_until( pred );
	if( q == 0 ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_back_until( predicate ): nothing changes when absent" );
	} else {
		ENSURE_CUT( t, r, q, t.n, v, 0, q - 1, "try_pop_back_until( predicate )" )
	}
}
CONTRACT( try_pop_back_until_pred_keep ) {
	BACK( ANY_CLASS, pred )
	auto r = v.try_pop_back_until( pred, daw::nodiscard );
	if( q == 0 ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_back_until( predicate, nodiscard ): nothing changes when absent" );
	} else {
		VC_ENSURE( is_window( v, t.p, r.size( ) == t.n - q ? q : q - 1 ) and v.size( ) + r.size( ) == t.n, "try_pop_back_until( predicate, nodiscard ): adjacent windows" );
		VC_ENSURE( r.data( ) + r.size( ) == t.p + t.n and zt_ok( t, v ) and zt_ok( t, r ), "try_pop_back_until( predicate, nodiscard ): the tail is returned" );
	}
}
CONTRACT( remove_suffix_while_char ) {
	BACK( ANY_CHAR, negated{ is_char{ c } } )
	v.remove_suffix_while( c );
	ENSURE_WINDOW( t, v, 0, q, "remove_suffix_while( char )" );
}
CONTRACT( remove_suffix_while_pred ) {
	BACK( ANY_CLASS, negated{ pred } )
	v.remove_suffix_while( pred );
	ENSURE_WINDOW( t, v, 0, q, "remove_suffix_while( predicate )" );
}
CONTRACT( trim_suffix ) {
	BACK( , negated{ is_ws{ } } )
	v.trim_suffix( );
	ENSURE_WINDOW( t, v, 0, q, "trim_suffix" );
}
CONTRACT( trim_suffix_copy ) {
	BACK( , negated{ is_ws{ } } )
	auto w = v.trim_suffix_copy( );
	ENSURE_WINDOW( t, w, 0, q, "trim_suffix_copy" );
}
template<typename F>
void check_trim( F trimmed ) {
	auto t = any_view( );
	auto const a = first_where( t, negated{ is_ws{ } } );
	auto const b = after_last_where( t, negated{ is_ws{ } } );
	vc::assume( a < b );
	vc_ghost( b - a - 1 );
	auto w = trimmed( t.v );
	ENSURE_WINDOW( t, w, a, b - a, "trim keeps exactly the text between the blanks" );
}
template<typename F>
void check_trim_blank( F trimmed ) {
	auto t = any_view( );
	auto const a = first_where( t, negated{ is_ws{ } } );
	vc::assume( a == t.n );
	auto w = trimmed( t.v );
	VC_ENSURE( w.empty( ) and zt_ok( t, w ), "trim of blanks only leaves nothing" );
}
constexpr auto in_place = []( sv v ) { v.trim( ); return v; };
constexpr auto copied = []( sv v ) { return v.trim_copy( ); };
CONTRACT( trim ) {
	check_trim( in_place );
}
CONTRACT( trim_blank ) {
	check_trim_blank( in_place );
}
CONTRACT( trim_copy ) {
	check_trim( copied );
}
CONTRACT( trim_copy_blank ) {
	check_trim_blank( copied );
}
// ---------------------------------------------------------------- text delimiters
// the position of the delimiter is that of find / rfind, which P02 specifies
#ifdef VC_NATIVE
template<typename T, typename U>
void plant( T const &t, U const &s ) {
	auto k = vc::any<u8>( "plant" );
	if( t.n > 0 and s.n <= t.n and k % 2 )
		for( std::size_t j = 0; j < s.n; ++j ) t.p[( k / 2 ) % ( t.n - s.n + 1 ) + j] = s.p[j];
}
#else
template<typename T, typename U>
void plant( T const &, U const & ) {}
#endif
#define FRONT_TEXT                                  \
	auto t = any_view( );                             \
	auto s = any_text( "m", "delimiter" );            \
	plant( t, s );                                    \
	auto v = t.v;                                     \
	auto const f = t.v.find( s.v );                   \
	auto const q = f == npos ? t.n : f;               \
	auto const q1 = f == npos ? t.n : f + s.n;        \
	(void)q1;
CONTRACT( pop_front_until_text ) {
	FRONT_TEXT
	auto r = v.pop_front_until( s.v );
	ENSURE_CUT( t, r, 0, q, v, q1, t.n, "pop_front_until( text )" )
}
CONTRACT( pop_front_until_text_keep ) {
	FRONT_TEXT
	auto r = v.pop_front_until( s.v, daw::nodiscard );
	ENSURE_CUT( t, r, 0, q, v, q, t.n, "pop_front_until( text, nodiscard )" )
}
CONTRACT( try_pop_front_until_text ) {
	FRONT_TEXT
	auto r = v.try_pop_front_until( s.v );
	if( f == npos ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_front_until( text ): nothing changes when absent" );
	} else {
		ENSURE_CUT( t, r, 0, q, v, q1, t.n, "try_pop_front_until( text )" )
	}
}
CONTRACT( try_pop_front_until_text_keep ) {
	FRONT_TEXT
	auto r = v.try_pop_front_until( s.v, daw::nodiscard );
	if( f == npos ) {
		VC_ENSURE( r.empty( ) and is_window( v, t.p, t.n ), "try_pop_front_until( text, nodiscard ): nothing changes when absent" );
	} else {
		ENSURE_CUT( t, r, 0, q, v, q, t.n, "try_pop_front_until( text, nodiscard )" )
	}
}
CONTRACT( remove_prefix_until_text ) {
	FRONT_TEXT
	v.remove_prefix_until( s.v );
	ENSURE_WINDOW( t, v, q1, t.n - q1, "remove_prefix_until( text )" );
}
CONTRACT( remove_prefix_until_text_keep ) {
	FRONT_TEXT
	v.remove_prefix_until( s.v, daw::nodiscard );
	ENSURE_WINDOW( t, v, q, t.n - q, "remove_prefix_until( text, nodiscard )" );
}
// from the back: the cut is at an occurrence and nothing behind it occurs
template<typename T>
void occurrence( T const &t, std::size_t q, T const &s ) {
	vc::assume( s.n <= t.n and q <= t.n - s.n );
#ifdef VC_NATIVE
	for( std::size_t j = 0; j < s.n; ++j ) t.p[q + j] = s.p[j];
#endif
	auto f = [&]( std::uint64_t j ) { return j >= s.n or t.p[q + j] == s.p[j]; };
	vc::forall( s.p, f );
}
#define BACK_TEXT                                                                  \
	auto t = any_view( );                                                            \
	auto s = any_text( "m", "delimiter" );                                           \
	auto j = vc::size( "j" );                                                        \
	plant( t, s );                                                                   \
	auto inv = [&]( std::uint64_t a, std::uint64_t b ) { return a > t.n or s.n > t.n - a or j >= s.n or j >= b or t.p[a + j] == s.p[j]; }; \
	vc::hint( inv );                                                                 \
	auto v = t.v;
// x: where the remaining text ends when the delimiter starts at `at`
#define BACK_TEXT_POST( what, keep, absent )                                       \
	if( r.data( ) + r.size( ) == t.p + t.n and ( r.size( ) < t.n or s.n == 0 or v.size( ) != 0 ) ) {                     \
		auto const cut = t.n - r.size( );                                              \
		VC_ENSURE( s.n <= cut, what ": room for the delimiter" );                      \
		VC_ENSURE( j >= s.n or t.p[cut - s.n + j] == s.p[j], what ": cut at an occurrence of the delimiter" ); \
		ENSURE_WINDOW( t, v, 0, ( keep ) ? cut : cut - s.n, what ": remaining text" ); \
		VC_ENSURE( zt_ok( t, r ), what ": zero-termination mark" );                    \
	} else {                                                                         \
		absent;                                                                        \
	}
CONTRACT( pop_back_until_text ) {
	BACK_TEXT
	auto const f = t.v.rfind( s.v );
	(void)j;
	auto r = v.pop_back_until( s.v );
	if( f == npos ) {
		vc::assume( s.n > t.n );
		ENSURE_CUT_EMPTY_REST( t, r, 0, t.n, v, "pop_back_until( text ), absent" )
	}
}
CONTRACT( pop_back_until_text_at ) {
	BACK_TEXT
	auto r = v.pop_back_until( s.v );
	BACK_TEXT_POST( "pop_back_until( text )", false, VC_ENSURE( r.size( ) == t.n and v.size( ) == 0, "pop_back_until( text ), absent" ) )
}
CONTRACT( pop_back_until_text_keep ) {
	BACK_TEXT
	auto r = v.pop_back_until( s.v, daw::nodiscard );
	BACK_TEXT_POST( "pop_back_until( text, nodiscard )", true, VC_ENSURE( r.size( ) == t.n and v.size( ) == 0, "pop_back_until( text, nodiscard ), absent" ) )
}
CONTRACT( try_pop_back_until_text ) {
	BACK_TEXT
	auto r = v.try_pop_back_until( s.v );
	if( r.empty( ) and is_window( v, t.p, t.n ) ) return;
	BACK_TEXT_POST( "try_pop_back_until( text )", false, VC_ENSURE( false, "try_pop_back_until( text ): either nothing changes or the tail is returned" ) )
}
CONTRACT( try_pop_back_until_text_keep ) {
	BACK_TEXT
	auto r = v.try_pop_back_until( s.v, daw::nodiscard );
	if( r.empty( ) and is_window( v, t.p, t.n ) ) return;
	BACK_TEXT_POST( "try_pop_back_until( text, nodiscard )", true, VC_ENSURE( false, "try_pop_back_until( text, nodiscard ): either nothing changes or the tail is returned" ) )
}
// no occurrence lies behind the cut
#define BACK_TEXT_LAST                              \
	auto t = any_text( );                             \
	auto s = any_text( "m", "delimiter" );            \
	auto q = vc::size( "q" );                         \
	occurrence( t, q, s );                            \
	auto v = t.v;                                     \
	vc_ghost( t.n - q );
CONTRACT( pop_back_until_text_last ) {
	BACK_TEXT_LAST
	auto r = v.pop_back_until( s.v );
	VC_ENSURE( v.size( ) >= q and r.size( ) + s.n + q <= t.n, "pop_back_until( text ) cuts at the last occurrence" );
}
CONTRACT( try_pop_back_until_text_last ) {
	BACK_TEXT_LAST
	auto r = v.try_pop_back_until( s.v );
	VC_ENSURE( v.size( ) >= q and r.size( ) + s.n + q <= t.n and r.size( ) + s.n + v.size( ) == t.n, "try_pop_back_until( text ) cuts at the last occurrence" );
}
