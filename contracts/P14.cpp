// Result holders.  The state of a holder is (alternative, value); every
// contract starts from an arbitrary state of each operand, so it is one step
// of any history.
#include "tracked.h"
#include <daw/daw_expected.h>
#include <daw/daw_union_pair.h>
#include <daw/daw_validated.h>
#include <stdexcept>

struct start {
	start( ) { tracked::live = 0; }
	~start( ) { VC_ENSURE( tracked::live == 0, "every stored object is destroyed exactly once" ); }
};

// ---------------------------------------------------------------- expected_t
using ex = daw::expected_t<tracked>;
enum : unsigned { nothing, error, value };
struct state_t {
	unsigned what;
	int v;
};
inline state_t any_state( char const *a = "what", char const *b = "v" ) {
	state_t r{ static_cast<unsigned>( vc::range( a, 0, 2 ) ), vc::any<int>( b ) };
	return r;
}
struct problem {
	int v;
};
template<typename E>
inline void enter( E &e, state_t s ) {
	if( s.what == error ) {
		e = std::make_exception_ptr( problem{ s.v } );
	} else if( s.what == value ) {
		e.set_value( tracked( s.v ) );
	}
}
inline int count( state_t s ) { return s.what == value ? 1 : 0; }
template<typename E>
inline int error_of( E const &e, int dflt ) {
	try {
		e.throw_if_exception( );
	} catch( problem const &p ) { return p.v; }
	return dflt;
}
inline bool in( ex const &e, state_t s ) {
	if( e.empty( ) != ( s.what == nothing ) or e.has_exception( ) != ( s.what == error ) or e.has_value( ) != ( s.what == value ) ) {
		return false;
	}
	if( static_cast<bool>( e ) != ( s.what != nothing ) ) {
		return false;
	}
	if( s.what == value ) {
		return e.get( ).v == s.v and e.get( ).tag == tracked::alive and e->v == s.v and ( *e ).v == s.v;
	}
	return s.what == nothing or error_of( e, ~s.v ) == s.v;
}

CONTRACT( expected_construct ) {
	start l;
	auto const v = vc::any<int>( "v" );
	ex a;
	VC_ENSURE( in( a, { nothing, 0 } ) and tracked::live == 0, "default" );
	ex b( tracked{ v } );
	VC_ENSURE( in( b, { value, v } ), "from a value" );
	tracked const t( v );
	ex c( t );
	VC_ENSURE( in( c, { value, v } ) and tracked::live == 3, "from a const value" );
	ex d( std::make_exception_ptr( problem{ v } ) );
	VC_ENSURE( in( d, { error, v } ), "from an exception pointer" );
	ex e( ex::exception_tag{ }, problem{ v } );
	VC_ENSURE( in( e, { error, v } ) and tracked::live == 3, "from an exception" );
}
CONTRACT( expected_from_current ) {
	start l;
	auto const v = vc::any<int>( "v" );
	try {
		throw problem{ v };
	} catch( ... ) {
		ex a( ex::exception_tag{ } );
		VC_ENSURE( in( a, { error, v } ), "the exception being handled" );
		ex b = daw::expected_from_exception<tracked>( );
		VC_ENSURE( in( b, { error, v } ), "expected_from_exception" );
		ex c;
		c.set_exception( );
		VC_ENSURE( in( c, { error, v } ), "set_exception" );
	}
}
CONTRACT( expected_copy ) {
	start l;
	auto const s = any_state( );
	ex a;
	enter( a, s );
	VC_ENSURE( in( a, s ) and tracked::live == count( s ), "the state is reached" );
	ex b( a );
	VC_ENSURE( in( a, s ) and in( b, s ) and tracked::live == 2 * count( s ), "copy construction" );
	ex c( std::move( a ) );
	VC_ENSURE( in( c, s ), "move construction" );
}
CONTRACT( expected_assign ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "what2", "v2" );
	ex a, b;
	enter( a, s );
	enter( b, t );
	a = b;
	VC_ENSURE( in( a, t ) and in( b, t ) and tracked::live == 2 * count( t ), "copy assignment" );
}
CONTRACT( expected_move_assign ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "what2", "v2" );
	ex a, b;
	enter( a, s );
	enter( b, t );
	a = std::move( b );
	VC_ENSURE( in( a, t ), "move assignment" );
}
CONTRACT( expected_self_assign ) {
	start l;
	auto const s = any_state( );
	ex a;
	enter( a, s );
	auto &r = a;
	a = r;
	VC_ENSURE( in( a, s ) and tracked::live == count( s ), "self assignment changes nothing" );
}
CONTRACT( expected_set_value ) {
	start l;
	auto const s = any_state( );
	auto const v = vc::any<int>( "w" );
	{
		ex a;
		enter( a, s );
		a.set_value( tracked( v ) );
		VC_ENSURE( in( a, { value, v } ) and tracked::live == 1, "set_value of a temporary" );
	}
	{
		ex a;
		enter( a, s );
		tracked const t( v );
		a.set_value( t );
		VC_ENSURE( in( a, { value, v } ) and tracked::live == 2, "set_value of an object" );
	}
}
CONTRACT( expected_assign_value ) {
	start l;
	auto const s = any_state( );
	auto const v = vc::any<int>( "w" );
	{
		ex a;
		enter( a, s );
		a = tracked( v );
		VC_ENSURE( in( a, { value, v } ) and tracked::live == 1, "assignment of a temporary" );
	}
	{
		ex a;
		enter( a, s );
		tracked const t( v );
		a = t;
		VC_ENSURE( in( a, { value, v } ) and tracked::live == 2, "assignment of an object" );
	}
}
CONTRACT( expected_set_exception ) {
	start l;
	auto const s = any_state( );
	auto const v = vc::any<int>( "w" );
	ex a, b;
	enter( a, s );
	enter( b, s );
	a.set_exception( std::make_exception_ptr( problem{ v } ) );
	VC_ENSURE( in( a, { error, v } ) and tracked::live == count( s ), "set_exception" );
	b = std::make_exception_ptr( problem{ v } );
	VC_ENSURE( in( b, { error, v } ) and tracked::live == 0, "assignment of an exception pointer" );
	VC_ENSURE( b.get_exception_ptr( ) != nullptr, "get_exception_ptr" );
}
CONTRACT( expected_clear ) {
	start l;
	auto const s = any_state( );
	ex a;
	enter( a, s );
	a.clear( );
	VC_ENSURE( in( a, { nothing, 0 } ) and tracked::live == 0, "clear" );
}
CONTRACT( expected_get ) {
	start l;
	auto const s = any_state( );
	vc::assume( s.what != nothing );
	ex a;
	enter( a, s );
	int got = 0;
	bool thrown = false;
	try {
		got = a.get( ).v;
	} catch( problem const &p ) {
		thrown = true;
		got = p.v;
	}
	VC_ENSURE( got == s.v and thrown == ( s.what == error ), "get returns the value or throws the error" );
	auto const &c = a;
	got = 0;
	thrown = false;
	try {
		got = c.get( ).v;
	} catch( problem const &p ) {
		thrown = true;
		got = p.v;
	}
	VC_ENSURE( got == s.v and thrown == ( s.what == error ), "const get" );
	thrown = false;
	try {
		got = std::move( a ).get( ).v;
	} catch( problem const &p ) {
		thrown = true;
		got = p.v;
	}
	VC_ENSURE( got == s.v and thrown == ( s.what == error ), "get of an rvalue" );
}
CONTRACT( expected_write_through ) {
	start l;
	auto const s = any_state( );
	vc::assume( s.what == value );
	auto const w = vc::any<int>( "w" );
	ex a;
	enter( a, s );
	a.get( ).v = w;
	VC_ENSURE( in( a, { value, w } ), "get refers to the stored value" );
	( *a ).v = s.v;
	VC_ENSURE( in( a, s ), "operator*" );
	a->v = w;
	VC_ENSURE( in( a, { value, w } ), "operator->" );
}
CONTRACT( expected_equality ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "what2", "v2" );
	vc::assume( s.what != error or t.what != error );
	ex a, b;
	enter( a, s );
	enter( b, t );
	bool const eq = s.what == t.what and ( s.what != value or s.v == t.v );
	VC_ENSURE( ( a == b ) == eq and ( a != b ) == not eq, "equal alternatives with equal values" );
	ex c( a );
	VC_ENSURE( a == c, "a copy is equal" );
}
struct maybe_throw {
	bool fails;
	int &calls;
	tracked operator( )( int v ) const {
		++calls;
		if( fails ) {
			throw problem{ v };
		}
		return tracked( v );
	}
};
CONTRACT( expected_from_code ) {
	start l;
	auto const fails = vc::any<bool>( "fails" );
	auto const v = vc::any<int>( "v" );
	state_t const s{ fails ? error : value, v };
	int calls = 0;
	maybe_throw const f{ fails, calls };
	ex a( f, v );
	VC_ENSURE( in( a, s ) and calls == 1, "constructor with a function" );
	ex b = ex::from_code( f, v );
	VC_ENSURE( in( b, s ) and calls == 2, "from_code" );
	ex c = daw::expected_from_code<tracked>( f, v );
	VC_ENSURE( in( c, s ) and calls == 3, "expected_from_code with a result type" );
	VC_ENSURE( tracked::live == 3 * count( s ), "no other object remains" );
}
CONTRACT( expected_from_code_deduced ) {
	start l;
	auto const fails = vc::any<bool>( "fails" );
	auto const v = vc::any<int>( "v" );
	state_t const s{ fails ? error : value, v };
	int calls = 0;
	auto a = daw::expected_from_code( maybe_throw{ fails, calls }, v );
	VC_ENSURE( in( a, s ) and calls == 1, "expected_from_code" );
}
CONTRACT( expected_exception_message ) {
	start l;
	auto const s = any_state( );
	ex a;
	enter( a, s );
	VC_ENSURE( a.get_exception_message( ).empty( ), "no message without a standard exception" );
}

using exv = daw::expected_t<void>;
inline bool in( exv const &e, state_t s ) {
	if( e.empty( ) != ( s.what == nothing ) or e.has_exception( ) != ( s.what == error ) or e.has_value( ) != ( s.what == value ) ) {
		return false;
	}
	if( static_cast<bool>( e ) != ( s.what != nothing ) ) {
		return false;
	}
	return s.what != error or error_of( e, ~s.v ) == s.v;
}
inline void enter( exv &e, state_t s ) {
	if( s.what == error ) {
		e = std::make_exception_ptr( problem{ s.v } );
	} else if( s.what == value ) {
		e.set_value( );
	}
}
CONTRACT( expected_void_assign ) {
	auto const s = any_state( );
	auto const t = any_state( "what2", "v2" );
	exv a, b;
	VC_ENSURE( in( a, { nothing, 0 } ), "default" );
	enter( a, s );
	enter( b, t );
	VC_ENSURE( in( a, s ) and in( b, t ), "the states are reached" );
	exv c( a );
	VC_ENSURE( in( c, s ) and in( a, s ), "copy construction" );
	if( s.what != error or t.what != error ) {
		VC_ENSURE( ( a == b ) == ( s.what == t.what ) and ( a != b ) == ( s.what != t.what ), "equality" );
	}
	a = b;
	VC_ENSURE( in( a, t ) and in( b, t ), "copy assignment" );
}
CONTRACT( expected_void_set ) {
	auto const s = any_state( );
	auto const w = vc::any<int>( "w" );
	exv a, b, c, d;
	enter( a, s );
	enter( b, s );
	enter( c, s );
	enter( d, s );
	a = true;
	VC_ENSURE( in( a, { value, 0 } ), "assignment of a value" );
	b.set_exception( std::make_exception_ptr( problem{ w } ) );
	VC_ENSURE( in( b, { error, w } ), "set_exception" );
	c.clear( );
	VC_ENSURE( in( c, { nothing, 0 } ), "clear" );
	d.set_value( 5 );
	VC_ENSURE( in( d, { value, 0 } ), "set_value" );
	exv e( exv::exception_tag{ }, problem{ w } );
	VC_ENSURE( in( e, { error, w } ), "from an exception" );
}
CONTRACT( expected_void_get ) {
	auto const s = any_state( );
	vc::assume( s.what != nothing );
	exv a;
	enter( a, s );
	bool thrown = false;
	try {
		a.get( );
	} catch( problem const &p ) {
		thrown = p.v == s.v;
	}
	VC_ENSURE( thrown == ( s.what == error ), "get throws the error" );
}
CONTRACT( expected_void_from_code ) {
	auto const fails = vc::any<bool>( "fails" );
	auto const v = vc::any<int>( "v" );
	state_t const s{ fails ? error : value, v };
	int calls = 0;
	auto const f = [&]( int x ) {
		++calls;
		if( fails ) {
			throw problem{ x };
		}
	};
	exv a( f, v );
	VC_ENSURE( in( a, s ) and calls == 1, "constructor with a function" );
	exv b = exv::from_code( f, v );
	VC_ENSURE( in( b, s ) and calls == 2, "from_code" );
	auto c = daw::expected_from_code( f, v );
	VC_ENSURE( in( c, s ) and calls == 3, "expected_from_code" );
}

// ---------------------------------------------------------------- union_pair_t
struct other : tracked {
	using tracked::tracked;
};
using un = daw::union_pair_t<tracked, other>;
struct ustate {
	unsigned which; // 0, 1, 2: nothing
	int v;
};
inline ustate any_ustate( char const *a = "which", char const *b = "v" ) {
	return { static_cast<unsigned>( vc::range( a, 0, 2 ) ), vc::any<int>( b ) };
}
inline void enter( un &u, ustate s ) {
	if( s.which == 0 ) {
		u = tracked( s.v );
	} else if( s.which == 1 ) {
		u = other( s.v );
	}
}
inline int count( ustate s ) { return s.which < 2 ? 1 : 0; }
struct look {
	unsigned which = 7;
	int v = 0;
	int operator( )( tracked const &t ) {
		which = 0;
		v = t.v;
		VC_ENSURE( t.tag == tracked::alive, "a live object is visited" );
		return t.v;
	}
	int operator( )( other const &t ) {
		which = 1;
		v = t.v;
		VC_ENSURE( t.tag == tracked::alive, "a live object is visited" );
		return t.v;
	}
};
inline bool in( un const &u, ustate s ) {
	if( u.which( ) != s.which ) {
		return false;
	}
	look k{ };
	try {
		int const r = u.visit( k );
		return k.which == s.which and k.v == s.v and r == s.v;
	} catch( daw::visit_null_union_pair_exception const & ) { return s.which == 2 and k.which == 7; }
}
CONTRACT( union_construct ) {
	start l;
	auto const v = vc::any<int>( "v" );
	un a;
	VC_ENSURE( in( a, { 2, 0 } ) and tracked::live == 0, "default" );
	un b( tracked{ v } );
	VC_ENSURE( in( b, { 0, v } ) and tracked::live == 1, "first type" );
	un c( other{ v } );
	VC_ENSURE( in( c, { 1, v } ) and tracked::live == 2, "second type" );
	tracked const t( v );
	other const o( v );
	un d( t );
	un e( o );
	VC_ENSURE( in( d, { 0, v } ) and in( e, { 1, v } ) and tracked::live == 6, "from const values" );
}
CONTRACT( union_copy ) {
	start l;
	auto const s = any_ustate( );
	un a;
	enter( a, s );
	VC_ENSURE( in( a, s ) and tracked::live == count( s ), "the state is reached" );
	un b( a );
	VC_ENSURE( in( a, s ) and in( b, s ) and tracked::live == 2 * count( s ), "copy construction" );
	un c( std::move( a ) );
	VC_ENSURE( in( c, s ), "move construction" );
}
CONTRACT( union_assign ) {
	start l;
	auto const s = any_ustate( );
	auto const t = any_ustate( "which2", "v2" );
	un a, b;
	enter( a, s );
	enter( b, t );
	a = b;
	VC_ENSURE( in( a, t ) and in( b, t ) and tracked::live == 2 * count( t ), "copy assignment" );
}
CONTRACT( union_move_assign ) {
	start l;
	auto const s = any_ustate( );
	auto const t = any_ustate( "which2", "v2" );
	un a, b;
	enter( a, s );
	enter( b, t );
	a = std::move( b );
	VC_ENSURE( in( a, t ), "move assignment" );
}
CONTRACT( union_self_assign ) {
	start l;
	auto const s = any_ustate( );
	un a;
	enter( a, s );
	auto &r = a;
	a = r;
	VC_ENSURE( in( a, s ) and tracked::live == count( s ), "self assignment changes nothing" );
	a = std::move( r );
	VC_ENSURE( in( a, s ) and tracked::live == count( s ), "self move changes nothing" );
}
CONTRACT( union_assign_value ) {
	start l;
	auto const s = any_ustate( );
	auto const v = vc::any<int>( "w" );
	tracked const t( v );
	other const o( v );
	un a, b, c, d;
	enter( a, s );
	enter( b, s );
	enter( c, s );
	enter( d, s );
	a = t;
	b = o;
	c = tracked( v );
	d = other( v );
	VC_ENSURE( in( a, { 0, v } ) and in( c, { 0, v } ), "first type" );
	VC_ENSURE( in( b, { 1, v } ) and in( d, { 1, v } ), "second type" );
	VC_ENSURE( tracked::live == 6, "the old values are gone" );
}
CONTRACT( union_visit_writes ) {
	start l;
	auto const s = any_ustate( );
	auto const w = vc::any<int>( "w" );
	vc::assume( s.which < 2 );
	un a;
	enter( a, s );
	a.visit( [&]( auto &x ) { x.v = w; } );
	VC_ENSURE( in( a, { s.which, w } ), "visit refers to the stored value" );
}

// ---------------------------------------------------------------- validated
struct below_ten {
	bool operator( )( int v ) const { return v < 10; }
	bool operator( )( tracked const &t ) const { return t.v < 10; }
};
using val = daw::validated<int, below_ten>;
CONTRACT( validated_construct ) {
	auto const v = vc::any<int>( "v" );
	bool thrown = false;
	int got = 0;
	try {
		val const x( v );
		got = x.get( );
		VC_ENSURE( *x == v and static_cast<int const &>( x ) == v and *x.operator->( ) == v, "accessors" );
	} catch( std::out_of_range const & ) { thrown = true; }
	VC_ENSURE( thrown == ( v >= 10 ) and ( thrown or got == v ), "an invalid value is rejected" );
}
CONTRACT( validated_in_place ) {
	auto const v = vc::any<int>( "v" );
	bool thrown = false;
	int got = 0;
	try {
		val x( std::in_place, v );
		got = std::move( x ).get( );
	} catch( std::out_of_range const & ) { thrown = true; }
	VC_ENSURE( thrown == ( v >= 10 ) and ( thrown or got == v ), "an invalid value is rejected" );
}
CONTRACT( validated_assign ) {
	auto const v = vc::any<int>( "v" );
	auto const w = vc::any<int>( "w" );
	vc::assume( v < 10 );
	val x( v );
	bool thrown = false;
	try {
		x = w;
	} catch( std::out_of_range const & ) { thrown = true; }
	VC_ENSURE( thrown == ( w >= 10 ), "an invalid value is rejected" );
	VC_ENSURE( x.get( ) == ( thrown ? v : w ), "a rejected value leaves the old one" );
	val const y( x );
	VC_ENSURE( y.get( ) == x.get( ), "copy" );
}
CONTRACT( validated_assign_rvalue ) {
	auto const v = vc::any<int>( "v" );
	auto const w = vc::any<int>( "w" );
	vc::assume( v < 10 );
	val x( v );
	bool thrown = false;
	try {
		x = int( w );
	} catch( std::out_of_range const & ) { thrown = true; }
	VC_ENSURE( thrown == ( w >= 10 ), "an invalid value is rejected" );
	VC_ENSURE( x.get( ) == ( thrown ? v : w ), "a rejected value leaves the old one" );
}
CONTRACT( validated_object ) {
	start l;
	auto const v = vc::any<int>( "v" );
	bool thrown = false;
	int got = 0;
	try {
		daw::validated<tracked, below_ten> const x( v );
		got = x->v;
		VC_ENSURE( tracked::live == 1, "one object" );
	} catch( std::out_of_range const & ) { thrown = true; }
	VC_ENSURE( thrown == ( v >= 10 ) and ( thrown or got == v ), "an invalid value is rejected" );
}
enum class colour : int { red, green, blue };
struct three_colours {
	bool operator( )( int v ) const { return v >= 0 and v <= 2; }
};
CONTRACT( validated_enum ) {
	auto const v = vc::any<int>( "v" );
	bool thrown = false;
	int got = 0;
	try {
		daw::validated<colour, three_colours> const x( v );
		got = static_cast<int>( x.get( ) );
	} catch( std::out_of_range const & ) { thrown = true; }
	VC_ENSURE( thrown == ( v < 0 or v > 2 ) and ( thrown or got == v ), "an invalid value is rejected" );
}
