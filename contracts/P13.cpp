// Optional values.  The state of an optional is (engaged, value): every
// contract starts from an arbitrary state, so it is one step of any history.
#include "tracked.h"
#include <daw/daw_optional.h>

using opt = daw::optional<tracked>;
struct state_t {
	bool on;
	int v;
};
inline state_t any_state( char const *a = "on", char const *b = "v" ) {
	return { vc::any<bool>( a ), vc::any<int>( b ) };
}
// bring an optional into a state
inline void enter( opt &o, state_t s ) {
	if( s.on ) {
		o.emplace( s.v );
	}
}
inline bool in( opt const &o, state_t s ) {
	return o.has_value( ) == s.on and static_cast<bool>( o ) == s.on and ( not s.on or ( ( *o ).v == s.v and o->v == s.v ) );
}
inline int count( state_t s ) { return s.on ? 1 : 0; }
struct start {
	start( ) { tracked::live = 0; }
	~start( ) { VC_ENSURE( tracked::live == 0, "every contained object is destroyed exactly once" ); }
};

CONTRACT( construct ) {
	start l;
	{
		auto const v = vc::any<int>( "v" );
		opt a;
		VC_ENSURE( in( a, { false, 0 } ), "default" );
		opt b( daw::nullopt );
		VC_ENSURE( in( b, { false, 0 } ), "nullopt" );
		VC_ENSURE( tracked::live == 0, "nothing is constructed" );
		opt c( tracked{ v } );
		VC_ENSURE( in( c, { true, v } ), "from a value" );
		tracked const t( v );
		opt d( t );
		VC_ENSURE( in( d, { true, v } ), "from a const value" );
		opt e( v );
		VC_ENSURE( in( e, { true, v } ), "converting" );
		VC_ENSURE( tracked::live == 4, "one object each" );
	}
}
CONTRACT( copy_and_move ) {
	start l;
	{
		auto const s = any_state( );
		opt a;
		enter( a, s );
		VC_ENSURE( in( a, s ) and tracked::live == count( s ), "emplace into an empty optional" );
		opt b( a );
		VC_ENSURE( in( a, s ) and in( b, s ) and tracked::live == 2 * count( s ), "copy construction" );
		opt c( std::move( a ) );
		VC_ENSURE( in( c, s ), "move construction" );
	}
}
CONTRACT( copy_assignment ) {
	start l;
	{
		auto const s = any_state( );
		auto const t = any_state( "on2", "v2" );
		opt a;
		enter( a, s );
		opt b;
		enter( b, t );
		auto &r = ( a = b );
		VC_ENSURE( &r == &a and in( a, t ) and in( b, t ), "copy assignment" );
		VC_ENSURE( tracked::live == 2 * count( t ), "the old value is gone" );
	}
}
CONTRACT( move_assignment ) {
	start l;
	{
		auto const s = any_state( );
		auto const t = any_state( "on2", "v2" );
		opt a;
		enter( a, s );
		opt b;
		enter( b, t );
		auto &r = ( a = std::move( b ) );
		VC_ENSURE( &r == &a and in( a, t ), "move assignment" );
	}
}
CONTRACT( value_assignment ) {
	start l;
	{
		auto const s = any_state( );
		auto const v = vc::any<int>( "x" );
		opt a;
		enter( a, s );
		a = tracked( v );
		VC_ENSURE( in( a, { true, v } ) and tracked::live == 1, "assignment of a value" );
		tracked const t( vc::any<int>( "y" ) );
		a = t;
		VC_ENSURE( in( a, { true, t.v } ) and tracked::live == 2, "assignment of a const value" );
		a = daw::nullopt;
		VC_ENSURE( in( a, { false, 0 } ) and tracked::live == 1, "assignment of nullopt" );
		a = t;
		VC_ENSURE( in( a, { true, t.v } ), "assignment to an empty optional" );
	}
}
CONTRACT( nullopt_assignment ) {
	start l;
	{
		auto const s = any_state( );
		opt a;
		enter( a, s );
		a = daw::nullopt;
		VC_ENSURE( in( a, { false, 0 } ) and tracked::live == 0, "empty" );
	}
}
CONTRACT( reset ) {
	start l;
	{
		auto const s = any_state( );
		opt a;
		enter( a, s );
		a.reset( );
		VC_ENSURE( in( a, { false, 0 } ) and tracked::live == 0, "reset destroys the value" );
		a.reset( );
		VC_ENSURE( in( a, { false, 0 } ), "reset of an empty optional" );
	}
}
CONTRACT( emplace ) {
	start l;
	{
		auto const s = any_state( );
		auto const v = vc::any<int>( "x" );
		opt a;
		enter( a, s );
		auto &r = a.emplace( v );
		VC_ENSURE( in( a, { true, v } ) and tracked::live == 1 and &r == &*a, "emplace replaces the value" );
	}
}
CONTRACT( swap ) {
	start l;
	{
		auto const s = any_state( );
		auto const t = any_state( "on2", "v2" );
		opt a;
		enter( a, s );
		opt b;
		enter( b, t );
		a.swap( b );
		VC_ENSURE( in( a, t ) and in( b, s ) and tracked::live == count( s ) + count( t ), "swap exchanges the states" );
	}
}
template<typename O>
bool reports_empty( O &&o, int expect ) {
	try {
		VC_ENSURE( std::forward<O>( o ).value( ).v == expect, "value" );
	} catch( std::bad_optional_access const & ) { return true; }
	return false;
}
CONTRACT( value ) {
	start l;
	{
		auto const s = any_state( );
		opt a;
		enter( a, s );
		VC_ENSURE( reports_empty( a, s.v ) == not s.on, "value" );
		VC_ENSURE( reports_empty( std::as_const( a ), s.v ) == not s.on, "const value" );
		VC_ENSURE( reports_empty( std::move( a ), s.v ) == not s.on, "rvalue value" );
		VC_ENSURE( reports_empty( std::move( std::as_const( a ) ), s.v ) == not s.on, "const rvalue value" );
	}
}
CONTRACT( access ) {
	start l;
	{
		auto const v = vc::any<int>( "v" );
		opt a( v );
		opt const &c = a;
		VC_ENSURE( ( *a ).v == v and ( *c ).v == v and a->v == v and c->v == v, "access" );
		VC_ENSURE( ( *std::move( a ) ).v == v and ( *std::move( c ) ).v == v, "rvalue access" );
		( *a ).v = v ^ 1;
		VC_ENSURE( c->v == ( v ^ 1 ), "writing through the reference" );
		VC_ENSURE( &*a == a.operator->( ), "the same object" );
	}
}
// ---- references
CONTRACT( reference ) {
	int x = vc::any<int>( "x" );
	int y = vc::any<int>( "y" );
	using ropt = daw::optional<int &>;
	ropt e;
	VC_ENSURE( not e.has_value( ) and not e, "empty" );
	ropt n( daw::nullopt );
	VC_ENSURE( not n, "nullopt" );
	bool thrown = false;
	try {
		(void)e.value( );
	} catch( std::bad_optional_access const & ) { thrown = true; }
	VC_ENSURE( thrown, "value of an empty optional is reported" );
	ropt a( x );
	VC_ENSURE( a and a.has_value( ) and &*a == &x and &a.value( ) == &x and a.operator->( ) == &x, "refers to the object" );
	ropt const c( a );
	VC_ENSURE( c and &*c == &x and &c.value( ) == &x, "copies refer to the object" );
	ropt b( y );
	b.swap( a );
	VC_ENSURE( &*a == &y and &*b == &x, "swap" );
	a.swap( e );
	VC_ENSURE( not a and &*e == &y, "swap with empty" );
	b = c;
	VC_ENSURE( &*b == &x, "assignment rebinds" );
	b = daw::nullopt;
	VC_ENSURE( not b, "nullopt assignment" );
	e.reset( );
	VC_ENSURE( not e, "reset" );
	*c.operator->( );
}
// ---- comparison: an empty optional is less than every value
template<typename A, typename B>
void compare( A const &a, B const &b, int order ) {
	VC_ENSURE( ( a == b ) == ( order == 0 ), "==" );
	VC_ENSURE( ( a != b ) == ( order != 0 ), "!=" );
	VC_ENSURE( ( a < b ) == ( order < 0 ), "<" );
	VC_ENSURE( ( a <= b ) == ( order <= 0 ), "<=" );
	VC_ENSURE( ( a > b ) == ( order > 0 ), ">" );
	VC_ENSURE( ( a >= b ) == ( order >= 0 ), ">=" );
}
inline daw::optional<int> make( state_t s ) {
	daw::optional<int> o;
	if( s.on ) o = s.v;
	return o;
}
inline int order( state_t a, state_t b ) {
	if( not a.on ) return b.on ? -1 : 0;
	if( not b.on ) return 1;
	return a.v < b.v ? -1 : a.v > b.v ? 1 : 0;
}
CONTRACT( compare_optionals ) {
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	compare( make( s ), make( t ), order( s, t ) );
}
CONTRACT( compare_nullopt ) {
	auto const s = any_state( );
	compare( make( s ), daw::nullopt, s.on ? 1 : 0 );
	compare( daw::nullopt, make( s ), s.on ? -1 : 0 );
}
CONTRACT( compare_value ) {
	auto const s = any_state( );
	auto const x = vc::any<int>( "x" );
	compare( make( s ), x, order( s, { true, x } ) );
	compare( x, make( s ), order( { true, x }, s ) );
}
