// Owning pointers.  The state of a pointer is (owns an object or not, value);
// every contract starts from an arbitrary state of each operand.
#include "tracked.h"
#include <daw/daw_maybe_unique_ptr.h>
#include <daw/daw_observer_ptr.h>
#include <daw/daw_ref_counted_pointer.h>
#include <daw/daw_unique_array.h>
#include <daw/daw_unique_ptr.h>
#include <daw/daw_value_ptr.h>
#include <stdexcept>

struct start {
	std::size_t n = vc_live_allocs( );
	start( ) { tracked::live = 0; }
	~start( ) {
		VC_ENSURE( tracked::live == 0, "every object is destroyed exactly once" );
		VC_ENSURE( vc_live_allocs( ) == n, "no memory is leaked" );
	}
};
struct state_t {
	bool on;
	int v;
};
inline state_t any_state( char const *a = "on", char const *b = "v" ) {
	return { vc::any<bool>( a ), vc::any<int>( b ) };
}
inline int count( state_t s ) { return s.on ? 1 : 0; }
template<typename P>
inline bool in( P const &p, state_t s ) {
	if( static_cast<bool>( p ) != s.on or ( p.get( ) != nullptr ) != s.on ) {
		return false;
	}
	return not s.on or ( p.get( )->v == s.v and p.get( )->tag == tracked::alive and ( *p ).v == s.v and p->v == s.v );
}

// ------------------------------------------------------------------ unique_ptr
using up = daw::unique_ptr<tracked>;
inline up unique( state_t s ) {
	return s.on ? daw::make_unique<tracked>( s.v ) : up{ };
}
CONTRACT( unique_make ) {
	start l;
	auto const s = any_state( );
	auto const w = vc::any<int>( "w" );
	auto a = unique( s );
	VC_ENSURE( in( a, s ) and tracked::live == count( s ), "the state is reached" );
	up b( nullptr );
	VC_ENSURE( in( b, { false, 0 } ), "from nullptr" );
	up c( new tracked( w ) );
	VC_ENSURE( in( c, { true, w } ), "from a pointer" );
	up d;
	VC_ENSURE( in( d, { false, 0 } ), "default" );
	VC_ENSURE( tracked::live == 1 + count( s ), "one object each" );
}
CONTRACT( unique_move ) {
	start l;
	auto const s = any_state( );
	auto a = unique( s );
	auto *const p = a.get( );
	auto b = std::move( a );
	VC_ENSURE( in( b, s ) and b.get( ) == p, "the object is handed over" );
	VC_ENSURE( in( a, { false, 0 } ) and tracked::live == count( s ), "the source is empty" );
}
CONTRACT( unique_move_assign ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto a = unique( s );
	auto b = unique( t );
	a = std::move( b );
	VC_ENSURE( in( a, t ) and in( b, { false, 0 } ) and tracked::live == count( t ), "the old object is destroyed, the new one taken over" );
	auto &r = a;
	a = std::move( r );
	VC_ENSURE( in( a, t ) and tracked::live == count( t ), "self move changes nothing" );
}
CONTRACT( unique_reset ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto a = unique( s );
	a.reset( t.on ? new tracked( t.v ) : nullptr );
	VC_ENSURE( in( a, t ) and tracked::live == count( t ), "reset with a pointer" );
	a.reset( );
	VC_ENSURE( in( a, { false, 0 } ) and tracked::live == 0, "reset" );
}
CONTRACT( unique_release ) {
	start l;
	auto const s = any_state( );
	auto a = unique( s );
	auto *const q = a.get( );
	auto *const p = a.release( );
	VC_ENSURE( p == q and in( a, { false, 0 } ) and tracked::live == count( s ), "release gives up the object" );
	delete p;
}
CONTRACT( unique_swap ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto a = unique( s );
	auto b = unique( t );
	a.swap( b );
	VC_ENSURE( in( a, t ) and in( b, s ) and tracked::live == count( s ) + count( t ), "swap" );
	using std::swap;
	swap( a, b );
	VC_ENSURE( in( a, s ) and in( b, t ), "swap as a function" );
}
CONTRACT( unique_get_out ) {
	start l;
	auto const s = any_state( );
	up a;
	*a.get_out( ) = s.on ? new tracked( s.v ) : nullptr;
	VC_ENSURE( in( a, s ), "get_out refers to the pointer" );
}
CONTRACT( unique_compare ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto a = unique( s );
	auto b = unique( t );
	auto *const p = a.get( );
	auto *const q = b.get( );
	VC_ENSURE( ( a == b ) == ( p == q ) and ( a != b ) == ( p != q ), "equality is that of the pointers" );
	VC_ENSURE( ( a < b ) == std::less<>{ }( p, q ), "less" );
	VC_ENSURE( ( a > b ) == std::less<>{ }( q, p ), "greater" );
	VC_ENSURE( ( a <= b ) == not std::less<>{ }( q, p ), "less or equal" );
	VC_ENSURE( ( a >= b ) == not std::less<>{ }( p, q ), "greater or equal" );
	VC_ENSURE( a <= a and a >= a and a == a and not( a < a ), "reflexive" );
}
CONTRACT( unique_transform ) {
	start l;
	auto const s = any_state( );
	{
		auto a = unique( s );
		auto r = a.transform( []( up &p ) { return p ? p->v : 0; } );
		VC_ENSURE( r == ( s.on ? s.v : 0 ) and in( a, s ), "transform" );
	}
	{
		auto a = unique( s );
		int calls = 0;
		auto r = std::move( a ).and_then( [&]( up &&p ) {
			++calls;
			return std::move( p );
		} );
		VC_ENSURE( in( r, s ) and calls == count( s ), "and_then" );
	}
	{
		auto a = unique( s );
		int calls = 0;
		auto r = std::move( a ).or_else( [&]( ) {
			++calls;
			return daw::make_unique<tracked>( 7 );
		} );
		VC_ENSURE( in( r, { true, s.on ? s.v : 7 } ) and calls == 1 - count( s ), "or_else" );
	}
}
struct base {
	tracked t;
	explicit base( int v )
	  : t( v ) {}
	virtual ~base( ) = default;
	virtual int kind( ) const { return 0; }
};
struct derived : base {
	tracked u;
	explicit derived( int v )
	  : base( v )
	  , u( v ) {}
	int kind( ) const override { return 1; }
};
CONTRACT( unique_derived ) {
	start l;
	auto const v = vc::any<int>( "v" );
	daw::unique_ptr<base> a( new derived( v ) );
	VC_ENSURE( a->kind( ) == 1 and a->t.v == v and tracked::live == 2, "from a derived pointer" );
	daw::unique_ptr<base> b( daw::make_unique<derived>( v ) );
	VC_ENSURE( b->kind( ) == 1 and tracked::live == 4, "from a derived unique_ptr" );
	a = daw::make_unique<derived>( v );
	VC_ENSURE( a->kind( ) == 1 and tracked::live == 4, "assignment of a derived unique_ptr" );
}
struct counting_deleter {
	using pointer = tracked *;
	static inline int calls = 0;
	void operator( )( tracked *p ) const {
		VC_ENSURE( p != nullptr, "only objects are deleted" );
		++calls;
		delete p;
	}
};
CONTRACT( unique_deleter ) {
	start l;
	counting_deleter::calls = 0;
	auto const s = any_state( );
	{
		daw::unique_ptr<tracked, counting_deleter> a( s.on ? new tracked( s.v ) : nullptr );
		daw::unique_ptr<tracked, counting_deleter> b( std::move( a ) );
		VC_ENSURE( in( b, s ), "the object" );
		b.reset( );
		VC_ENSURE( counting_deleter::calls == count( s ), "reset calls the deleter" );
	}
	VC_ENSURE( counting_deleter::calls == count( s ), "the deleter is called once for an object and never for null" );
}
CONTRACT( unique_array_form ) {
	start l;
	vc_unroll( 4 );
	auto const n = vc::range( "n", 0, 3 );
	auto const i = vc::any<std::size_t>( "i" );
	auto const w = vc::any<int>( "w" );
	{
		auto a = daw::make_unique<tracked[]>( n );
		VC_ENSURE( static_cast<bool>( a ) and tracked::live == static_cast<int>( n ), "n objects" );
		if( i < n ) {
			a[i].v = w;
			VC_ENSURE( a.get( )[i].v == w and a[i].tag == tracked::alive, "element access" );
		}
		auto b = std::move( a );
		VC_ENSURE( not a and static_cast<bool>( b ) and tracked::live == static_cast<int>( n ), "move" );
		daw::unique_ptr<tracked[]> c;
		c = std::move( b );
		VC_ENSURE( not b and static_cast<bool>( c ) and tracked::live == static_cast<int>( n ), "move assignment" );
		c.swap( a );
		VC_ENSURE( not c and static_cast<bool>( a ), "swap" );
		auto *p = a.release( );
		VC_ENSURE( not a and tracked::live == static_cast<int>( n ), "release" );
		daw::unique_ptr<tracked[]> d( p );
		d.reset( );
		VC_ENSURE( not d and tracked::live == 0, "reset" );
	}
}
CONTRACT( unique_array_ints ) {
	start l;
	auto const n = vc::range( "n", 0, 1U << 20U );
	auto a = daw::make_unique<int[]>( n );
	auto const i = vc::any<std::size_t>( "i" );
	if( i < n ) {
		a[i] = 5;
		VC_ENSURE( a.get( )[i] == 5, "element access" );
	}
	auto b = daw::make_unique_array<int[]>( 1, 2, 3 );
	VC_ENSURE( b[0] == 1 and b[1] == 2 and b[2] == 3, "make_unique_array" );
}

// ------------------------------------------------------------ maybe_unique_ptr
using mp = daw::maybe_unique_ptr<tracked>;
struct mstate {
	bool on;
	bool owned;
	int v;
};
inline mstate any_mstate( char const *a = "on", char const *b = "owned", char const *c = "v" ) {
	return { vc::any<bool>( a ), vc::any<bool>( b ), vc::any<int>( c ) };
}
struct supply {
	tracked *p;
	bool mine;
	explicit supply( mstate s )
	  : p( s.on ? new tracked( s.v ) : nullptr )
	  , mine( not s.owned ) {}
	~supply( ) {
		if( mine ) {
			delete p;
		}
	}
	supply( supply const & ) = delete;
};
inline bool in( mp const &p, mstate s ) { return in( p, state_t{ s.on, s.v } ); }
inline int count( mstate s ) { return s.on ? 1 : 0; }
inline int left( mstate s ) { return s.on and not s.owned ? 1 : 0; }
CONTRACT( maybe_destroy ) {
	start l;
	auto const s = any_mstate( );
	supply p( s );
	{
		mp a( p.p, s.owned );
		VC_ENSURE( in( a, s ) and a.get( ) == p.p and tracked::live == count( s ), "the state is reached" );
	}
	VC_ENSURE( tracked::live == left( s ), "destroyed exactly when owned" );
}
CONTRACT( maybe_move ) {
	start l;
	auto const s = any_mstate( );
	supply p( s );
	{
		mp a( p.p, s.owned );
		mp b( std::move( a ) );
		VC_ENSURE( in( b, s ) and not a and tracked::live == count( s ), "the object is handed over" );
	}
	VC_ENSURE( tracked::live == left( s ), "destroyed exactly when owned" );
}
CONTRACT( maybe_move_assign ) {
	start l;
	auto const s = any_mstate( );
	auto const t = any_mstate( "on2", "owned2", "v2" );
	supply p( s );
	supply q( t );
	{
		mp a( p.p, s.owned );
		mp b( q.p, t.owned );
		a = std::move( b );
		VC_ENSURE( in( a, t ) and not b, "the object is handed over" );
		VC_ENSURE( tracked::live == left( s ) + count( t ), "the old object is destroyed exactly when owned" );
		auto &r = a;
		a = std::move( r );
		VC_ENSURE( in( a, t ), "self move" );
	}
	VC_ENSURE( tracked::live == left( s ) + left( t ), "destroyed exactly when owned" );
}
CONTRACT( maybe_reset ) {
	start l;
	auto const s = any_mstate( );
	auto const t = any_mstate( "on2", "owned2", "v2" );
	supply p( s );
	supply q( t );
	{
		mp a( p.p, s.owned );
		a.reset( q.p, t.owned );
		VC_ENSURE( in( a, t ) and a.get( ) == q.p, "the new object" );
		VC_ENSURE( tracked::live == left( s ) + count( t ), "the old object is destroyed exactly when owned" );
		a.reset( );
		VC_ENSURE( not a and tracked::live == left( s ) + left( t ), "reset" );
		a.reset( new tracked( 3 ) );
		VC_ENSURE( a->v == 3, "owned again" );
	}
	VC_ENSURE( tracked::live == left( s ) + left( t ), "destroyed exactly when owned" );
}
CONTRACT( maybe_release ) {
	start l;
	auto const s = any_mstate( );
	supply p( s );
	{
		mp a( p.p, s.owned );
		auto *r = a.release( );
		VC_ENSURE( r == p.p and not a, "the object is given up" );
	}
	VC_ENSURE( tracked::live == count( s ), "and not destroyed" );
	if( s.owned ) {
		delete p.p;
	}
}
CONTRACT( maybe_swap ) {
	start l;
	auto const s = any_mstate( );
	auto const t = any_mstate( "on2", "owned2", "v2" );
	supply p( s );
	supply q( t );
	{
		mp a( p.p, s.owned );
		mp b( q.p, t.owned );
		a.swap( b );
		VC_ENSURE( in( a, t ) and in( b, s ), "swap" );
	}
	VC_ENSURE( tracked::live == left( s ) + left( t ), "destroyed exactly when owned" );
}
CONTRACT( maybe_make ) {
	start l;
	auto const v = vc::any<int>( "v" );
	{
		auto a = daw::make_maybe_unique<tracked>( v );
		VC_ENSURE( in( a, mstate{ true, true, v } ), "make_maybe_unique" );
		mp b;
		mp c( nullptr );
		VC_ENSURE( not b and not c, "empty" );
		VC_ENSURE( ( a == b ) == false and ( b == c ) and a != b, "equality" );
		VC_ENSURE( ( a <= b ) == not std::less<>{ }( b.get( ), a.get( ) ) and ( a >= b ) == not std::less<>{ }( a.get( ), b.get( ) ) and
		             ( a < b ) == std::less<>{ }( a.get( ), b.get( ) ) and ( a > b ) == std::less<>{ }( b.get( ), a.get( ) ),
		           "order" );
	}
}

// -------------------------------------------------------------------- rc_ptr
using rp = daw::rc_ptr<tracked>;
inline rp shared( state_t s ) {
	return s.on ? daw::make_rc_ptr<tracked>( s.v ) : rp{ };
}
CONTRACT( rc_make ) {
	start l;
	auto const s = any_state( );
	auto a = shared( s );
	VC_ENSURE( in( a, s ) and tracked::live == count( s ), "the state is reached" );
	VC_ENSURE( not s.on or a.ref_count( ) == 1, "one owner" );
	VC_ENSURE( ( a == nullptr ) == not s.on and ( a != nullptr ) == s.on, "comparison with nullptr" );
}
CONTRACT( rc_copy ) {
	start l;
	auto const s = any_state( );
	auto const first = vc::any<bool>( "first" );
	rp keep;
	{
		auto a = shared( s );
		auto b( a );
		VC_ENSURE( in( a, s ) and in( b, s ) and a == b and a.get( ) == b.get( ) and tracked::live == count( s ), "copies share the object" );
		VC_ENSURE( not s.on or a.ref_count( ) == 2, "two owners" );
		if( first ) {
			a.reset( );
			VC_ENSURE( in( a, { false, 0 } ) and in( b, s ), "the reset owner is empty, the other still owns" );
		} else {
			b.reset( );
			VC_ENSURE( in( b, { false, 0 } ) and in( a, s ), "the reset owner is empty, the other still owns" );
		}
		VC_ENSURE( tracked::live == count( s ), "the object lives on" );
		keep = first ? b : a;
	}
	VC_ENSURE( in( keep, s ) and tracked::live == count( s ), "the last owner keeps the object" );
	VC_ENSURE( not s.on or keep.ref_count( ) == 1, "one owner" );
}
CONTRACT( rc_copy_assign ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto const shared_before = vc::any<bool>( "shared" );
	auto a = shared( s );
	auto b = shared( t );
	rp other = shared_before ? a : rp{ };
	a = b;
	VC_ENSURE( in( a, t ) and in( b, t ) and a == b, "both own the new object" );
	VC_ENSURE( tracked::live == count( t ) + ( shared_before ? count( s ) : 0 ), "the old object lives exactly while shared" );
	VC_ENSURE( in( other, { s.on and shared_before, s.v } ), "other owners are not affected" );
	VC_ENSURE( not t.on or b.ref_count( ) == 2, "two owners" );
	auto &r = a;
	a = r;
	VC_ENSURE( in( a, t ), "self assignment" );
}
CONTRACT( rc_move ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto const shared_before = vc::any<bool>( "shared" );
	auto a = shared( s );
	auto b( std::move( a ) );
	VC_ENSURE( in( b, s ) and in( a, { false, 0 } ), "move construction" );
	rp other = shared_before ? b : rp{ };
	auto c = shared( t );
	b = std::move( c );
	VC_ENSURE( in( b, t ) and in( c, { false, 0 } ), "move assignment" );
	VC_ENSURE( in( other, { s.on and shared_before, s.v } ) and tracked::live == count( t ) + ( shared_before ? count( s ) : 0 ),
	           "the old object lives exactly while shared" );
}
CONTRACT( rc_swap ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto a = shared( s );
	auto b = shared( t );
	a.swap( b );
	VC_ENSURE( in( a, t ) and in( b, s ), "swap" );
	swap( a, b );
	VC_ENSURE( in( a, s ) and in( b, t ), "swap as a function" );
	VC_ENSURE( ( a < b ) == std::less<>{ }( a.get( ), b.get( ) ) and ( a > b ) == std::less<>{ }( b.get( ), a.get( ) ) and
	             ( a <= b ) == not std::less<>{ }( b.get( ), a.get( ) ) and ( a >= b ) == not std::less<>{ }( a.get( ), b.get( ) ) and
	             ( a == b ) == ( a.get( ) == b.get( ) ) and ( a != b ) == ( a.get( ) != b.get( ) ),
	           "comparison is that of the pointers" );
}
// any number of owners: the count before is arbitrary
CONTRACT( rc_any_count ) {
	start l;
	auto const n = vc::any<std::size_t>( "n" );
	vc::assume( n >= 1 and n < 1U << 30U );
	auto const v = vc::any<int>( "v" );
	{
		rp a( new tracked( v ) );
		auto const *const raw = a.get( );
		a.ref_count( ) = n;
		{
			rp b( a );
			VC_ENSURE( a.ref_count( ) == n + 1 and b.get( ) == raw, "a copy adds one" );
			rp c( std::move( b ) );
			VC_ENSURE( a.ref_count( ) == n + 1, "a move adds none" );
		}
		VC_ENSURE( a.ref_count( ) == n and tracked::live == 1, "its end removes one" );
		a.ref_count( ) = 1;
	}
}
CONTRACT( rc_array ) {
	start l;
	auto const w = vc::any<int>( "w" );
	constexpr std::size_t i = 1;
	auto a = daw::make_rc_ptr<tracked[]>( 3 );
	a[i].v = w;
	auto b( a );
	VC_ENSURE( b[i].v == w and tracked::live == 3 and a.ref_count( ) == 2, "copies share the array" );
	a.reset( );
	VC_ENSURE( not a and b[i].v == w and tracked::live == 3, "the reset owner is empty" );
	daw::rc_ptr<tracked[]> c;
	c = b;
	b = daw::rc_ptr<tracked[]>( );
	VC_ENSURE( c[i].v == w and c.ref_count( ) == 1 and not b, "assignment" );
	a = std::move( c );
	VC_ENSURE( a[i].v == w and not c, "move assignment" );
	a.swap( b );
	VC_ENSURE( b[i].v == w and not a, "swap" );
	b = a;
	VC_ENSURE( not b and tracked::live == 0, "assignment of an empty pointer releases the array" );
}

// ------------------------------------------------------------------- value_ptr
using vp = daw::value_ptr<tracked>;
inline vp value( state_t s ) {
	return s.on ? vp( s.v ) : vp( std::nullopt );
}
CONTRACT( value_copy ) {
	start l;
	auto const s = any_state( );
	auto const w = vc::any<int>( "w" );
	auto a = value( s );
	VC_ENSURE( in( a, s ) and tracked::live == count( s ), "the state is reached" );
	auto b( a );
	VC_ENSURE( in( a, s ) and in( b, s ) and tracked::live == 2 * count( s ), "copies have objects of their own" );
	if( s.on ) {
		b->v = w;
		VC_ENSURE( in( a, s ) and in( b, { true, w } ), "copies are independent" );
	}
}
CONTRACT( value_move ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto a = value( s );
	auto b( std::move( a ) );
	VC_ENSURE( in( b, s ) and tracked::live == count( s ), "move construction" );
	auto c = value( t );
	b = std::move( c );
	VC_ENSURE( in( b, t ) and tracked::live == count( t ), "move assignment" );
	auto &r = b;
	b = std::move( r );
	VC_ENSURE( in( b, t ) and tracked::live == count( t ), "self move" );
}
CONTRACT( value_copy_assign ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto a = value( s );
	auto b = value( t );
	a = b;
	VC_ENSURE( in( a, t ) and in( b, t ) and tracked::live == 2 * count( t ), "copy assignment" );
	VC_ENSURE( not t.on or a.get( ) != b.get( ), "an object of its own" );
	auto &r = a;
	a = r;
	VC_ENSURE( in( a, t ) and tracked::live == 2 * count( t ), "self assignment" );
}
CONTRACT( value_assign ) {
	start l;
	auto const s = any_state( );
	auto const w = vc::any<int>( "w" );
	tracked const t( w );
	auto a = value( s );
	auto b = value( s );
	a = t;
	b = tracked( w );
	VC_ENSURE( in( a, { true, w } ) and in( b, { true, w } ) and tracked::live == 3, "assignment of a value" );
}
CONTRACT( value_reset ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto a = value( s );
	auto b = value( t );
	a.swap( b );
	VC_ENSURE( in( a, t ) and in( b, s ), "swap" );
	a.reset( );
	VC_ENSURE( in( a, { false, 0 } ) and tracked::live == count( s ), "reset" );
	auto *p = b.release( );
	VC_ENSURE( in( b, { false, 0 } ) and tracked::live == count( s ), "release" );
	delete p;
}
CONTRACT( value_compare ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	auto const a = s.on ? daw::value_ptr<int>( s.v ) : daw::value_ptr<int>( std::nullopt );
	auto const b = t.on ? daw::value_ptr<int>( t.v ) : daw::value_ptr<int>( std::nullopt );
	int const c = not s.on ? ( t.on ? -1 : 0 ) : not t.on ? 1 : s.v < t.v ? -1 : s.v > t.v ? 1 : 0;
	VC_ENSURE( a.compare( b ) == c, "compares the values, empty first" );
	VC_ENSURE( ( a == b ) == ( c == 0 ) and ( a != b ) == ( c != 0 ), "equality" );
	VC_ENSURE( ( a < b ) == ( c < 0 ) and ( a > b ) == ( c > 0 ) and ( a <= b ) == ( c <= 0 ) and ( a >= b ) == ( c >= 0 ), "order" );
}

// -------------------------------------------------------------- unique_array_t
using ua = daw::unique_array_t<int>;
CONTRACT( array_access ) {
	start l;
	auto const n = vc::range( "n", 1, 1U << 20U );
	auto const i = vc::any<std::size_t>( "i" );
	ua a( n );
	VC_ENSURE( a.size( ) == n and not a.empty( ) and a.capacity( ) == n, "size" );
	VC_ENSURE( a.begin( ) + n == a.end( ) and a.cbegin( ) == a.begin( ) and a.cend( ) == a.end( ), "range" );
	bool thrown = false;
	try {
		a.at( i ) = 5;
		VC_ENSURE( i < n and a[i] == 5 and a.begin( )[i] == 5, "element" );
		auto const &c = a;
		VC_ENSURE( c.at( i ) == 5 and c[i] == 5, "const element" );
		VC_ENSURE( i != 0 or a.front( ) == 5, "front" );
		VC_ENSURE( i != n - 1 or a.back( ) == 5, "back" );
	} catch( std::out_of_range const & ) { thrown = true; }
	VC_ENSURE( thrown == ( i >= n ), "at reports positions outside" );
}
CONTRACT( array_fill ) {
	start l;
	auto const n = vc::range( "n", 0, 1U << 20U );
	auto const i = vc::any<std::size_t>( "i" );
	auto const v = vc::any<int>( "v" );
	struct hold {
		union {
			ua a;
		};
		hold( ) {}
		~hold( ) { a.~ua( ); }
	} h;
	auto filled = [&]( std::uint64_t w ) { return i >= n or i >= w or h.a[i] == v; };
	vc::hint( filled );
	auto &a = *new( static_cast<void *>( &h.a ) ) ua( n, v );
	VC_ENSURE( a.size( ) == n and ( i >= n or a[i] == v ), "every element has the value" );
}
CONTRACT( array_move ) {
	start l;
	auto const n = vc::range( "n", 1, 1U << 20U );
	auto const m = vc::range( "m", 1, 1U << 20U );
	auto const e1 = vc::any<bool>( "e1" );
	auto const e2 = vc::any<bool>( "e2" );
	ua a = e1 ? ua( ) : ua( n );
	ua b = e2 ? ua( ) : ua( m );
	auto *const p = a.begin( );
	auto *const q = b.begin( );
	ua c( std::move( a ) );
	VC_ENSURE( a.empty( ) and a.size( ) == 0 and c.begin( ) == p and c.size( ) == ( e1 ? 0 : n ) and c.empty( ) == e1, "move construction" );
	c = std::move( b );
	VC_ENSURE( b.empty( ) and b.size( ) == 0 and c.begin( ) == q and c.size( ) == ( e2 ? 0 : m ) and c.empty( ) == e2, "move assignment" );
	auto &r = c;
	c = std::move( r );
	VC_ENSURE( c.begin( ) == q and c.size( ) == ( e2 ? 0 : m ), "self move" );
}
CONTRACT( array_objects ) {
	start l;
	vc_unroll( 4 );
	auto const n = vc::range( "n", 0, 3 );
	daw::unique_array_t<tracked> a( n );
	VC_ENSURE( tracked::live == static_cast<int>( n ), "n objects" );
	daw::unique_array_t<tracked> b;
	b = std::move( a );
	VC_ENSURE( tracked::live == static_cast<int>( n ) and a.empty( ), "handed over" );
	b = daw::unique_array_t<tracked>( );
	VC_ENSURE( tracked::live == 0, "destroyed" );
}

// ---------------------------------------------------------------- observer_ptr
CONTRACT( observer ) {
	start l;
	auto const s = any_state( );
	auto const t = any_state( "on2", "v2" );
	tracked x( s.v );
	tracked y( t.v );
	tracked *const p = s.on ? &x : nullptr;
	tracked *const q = t.on ? &y : nullptr;
	{
		daw::observer_ptr<tracked> a( p );
		VC_ENSURE( in( a, s ) and a.get( ) == p and a == p and ( a != p ) == false, "observes" );
		VC_ENSURE( not s.on or &a.value( ) == p, "value" );
		daw::observer_ptr<tracked> b( a );
		VC_ENSURE( a == b and b.get( ) == p, "copy" );
		daw::observer_ptr<tracked const> c( a );
		VC_ENSURE( c.get( ) == p, "conversion" );
		b = q;
		VC_ENSURE( b.get( ) == q and a.get( ) == p, "assignment" );
		VC_ENSURE( ( a == b ) == ( p == q ) and ( a == q ) == ( p == q ), "equality" );
		VC_ENSURE( b.release( ) == q and not b, "release" );
		a.reset( q );
		VC_ENSURE( a.get( ) == q, "reset" );
		a.reset( );
		VC_ENSURE( not a, "reset to null" );
		*a.get_out( ) = p;
		VC_ENSURE( a.get( ) == p, "get_out" );
	}
	VC_ENSURE( tracked::live == 2, "nothing is destroyed" );
}
