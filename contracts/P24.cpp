// Callable wrappers, bound arguments, overload sets, function tables and
// visitors: the target that was stored or selected runs once, with the
// arguments in their places, and its result comes back.
#include "vc.h"
#include "tracked.h"
#include <daw/daw_apply.h>
#include <daw/daw_bind_args_at.h>
#include <daw/daw_bind_front.h>
#include <daw/daw_function.h>
#include <daw/daw_function_ref.h>
#include <daw/daw_function_table.h>
#include <daw/daw_function_view.h>
#include <daw/daw_overload.h>
#include <daw/daw_stack_function.h>
#include <daw/daw_visit.h>
#include <daw/daw_visit_as.h>
#include <functional>
#include <variant>

// what was called, and with what
struct book {
	unsigned runs;
	int who;
	int a;
	int b;
};
static book seen;
static int note( int who, int a, int b ) {
	++seen.runs;
	seen.who = who;
	seen.a = a;
	seen.b = b;
	return static_cast<int>( static_cast<unsigned>( a ) * 3U + static_cast<unsigned>( b ) + static_cast<unsigned>( who ) * 7U );
}
static void start( ) {
	seen = book{ };
}
static bool called( unsigned runs, int who, int a, int b ) {
	return seen.runs == runs and seen.who == who and seen.a == a and seen.b == b;
}
static int answer( int who, int a, int b ) {
	return static_cast<int>( static_cast<unsigned>( a ) * 3U + static_cast<unsigned>( b ) + static_cast<unsigned>( who ) * 7U );
}
static int free_one( int a, int b ) {
	return note( -1, a, b );
}
static int free_two( int a, int b ) {
	return note( -2, a, b );
}
static void free_void( int a, int b ) {
	(void)note( -3, a, b );
}
struct target {
	int id;
	int operator( )( int a, int b ) const {
		return note( id, a, b );
	}
};
struct no_state {
	int operator( )( int a, int b ) const {
		return note( -9, a, b );
	}
};
#define ARGS                                \
	auto const id = vc::any<int>( "id" );      \
	auto const id2 = vc::any<int>( "id2" );    \
	auto const a = vc::any<int>( "a" );        \
	auto const b = vc::any<int>( "b" );        \
	(void)id;                                  \
	(void)id2;                                 \
	start( )

// ---- function_ref
CONTRACT( ref_object ) {
	ARGS;
	target t{ id };
	target t2{ id2 };
	daw::function_ref<int( int, int )> f( t );
	VC_ENSURE( seen.runs == 0, "nothing runs at construction" );
	int const r = f( a, b );
	VC_ENSURE( called( 1, id, a, b ) and r == answer( id, a, b ), "the object, once" );
	auto const g = f;
	f = t2;
	int const r2 = f( b, a );
	VC_ENSURE( called( 2, id2, b, a ) and r2 == answer( id2, b, a ), "the object assigned" );
	int const r3 = g( a, b );
	VC_ENSURE( called( 3, id, a, b ) and r3 == answer( id, a, b ), "the copy keeps its object" );
}
CONTRACT( ref_pointer ) {
	ARGS;
	daw::function_ref<int( int, int )> f( free_one );
	int const r = f( a, b );
	VC_ENSURE( called( 1, -1, a, b ) and r == answer( -1, a, b ), "the function, once" );
	f = free_two;
	int const r2 = f( a, b );
	VC_ENSURE( called( 2, -2, a, b ) and r2 == answer( -2, a, b ), "the function assigned" );
	target t{ id };
	f = t;
	int const r3 = f( a, b );
	VC_ENSURE( called( 3, id, a, b ) and r3 == answer( id, a, b ), "an object after a function" );
	f = free_one;
	int const r4 = f( a, b );
	VC_ENSURE( called( 4, -1, a, b ) and r4 == answer( -1, a, b ), "a function after an object" );
}
CONTRACT( ref_void ) {
	ARGS;
	target t{ id };
	daw::function_ref<void( int, int )> f( t );
	f( a, b );
	VC_ENSURE( called( 1, id, a, b ), "the object, once" );
	f = free_void;
	f( a, b );
	VC_ENSURE( called( 2, -3, a, b ), "the function, once" );
	daw::function_ref<void( int, int )> const g( free_void );
	g( b, a );
	VC_ENSURE( called( 3, -3, b, a ), "the function, once" );
	f = t;
	f( a, b );
	VC_ENSURE( called( 4, id, a, b ), "an object after a function" );
}
struct by_ref {
	int k;
	int &operator( )( int &x, int const &y ) const {
		x = y;
		return x;
	}
};
CONTRACT( ref_reference_arguments ) {
	int x = vc::any<int>( "x" );
	auto const y = vc::any<int>( "y" );
	by_ref t{ 1 };
	daw::function_ref<int &( int &, int const & )> f( t );
	int &r = f( x, y );
	VC_ENSURE( &r == &x and x == y, "the argument itself is passed" );
}
// ---- function_view
CONTRACT( view_object ) {
	ARGS;
	target t{ id };
	target t2{ id2 };
	daw::function_view<int( int, int )> f( t );
	VC_ENSURE( seen.runs == 0, "nothing runs at construction" );
	int const r = f( a, b );
	VC_ENSURE( called( 1, id, a, b ) and r == answer( id, a, b ), "the object, once" );
	auto g = f;
	f = daw::function_view<int( int, int )>( t2 );
	int const r2 = f( b, a );
	VC_ENSURE( called( 2, id2, b, a ) and r2 == answer( id2, b, a ), "the object assigned" );
	int const r3 = g( a, b );
	VC_ENSURE( called( 3, id, a, b ) and r3 == answer( id, a, b ), "the copy keeps its object" );
}
CONTRACT( view_pointer ) {
	ARGS;
	auto *p = vc::any<bool>( "first" ) ? &free_one : &free_two;
	int const who = p == &free_one ? -1 : -2;
	daw::function_view<int( int, int )> f( p );
	p = nullptr;
	int const r = f( a, b );
	VC_ENSURE( called( 1, who, a, b ) and r == answer( who, a, b ), "the function, once" );
}
CONTRACT( view_function_and_empty_object ) {
	ARGS;
	daw::function_view<int( int, int )> f( free_one );
	int const r = f( a, b );
	VC_ENSURE( called( 1, -1, a, b ) and r == answer( -1, a, b ), "the function, once" );
	daw::function_view<int( int, int )> g( no_state{ } );
	int const r2 = g( a, b );
	VC_ENSURE( called( 2, -9, a, b ) and r2 == answer( -9, a, b ), "an object without state" );
}
CONTRACT( view_void ) {
	ARGS;
	target t{ id };
	daw::function_view<void( int, int )> f( t );
	f( a, b );
	VC_ENSURE( called( 1, id, a, b ), "the object, once" );
	auto g = f;
	target t2{ id2 };
	f = daw::function_view<void( int, int )>( t2 );
	g( b, a );
	VC_ENSURE( called( 2, id, b, a ), "the copy keeps its object" );
	f( b, a );
	VC_ENSURE( called( 3, id2, b, a ), "the object assigned" );
	auto *p = &free_void;
	daw::function_view<void( int, int )> h( p );
	h( a, b );
	VC_ENSURE( called( 4, -3, a, b ), "the function, once" );
	daw::function_view<void( int, int )> e( no_state{ } );
	e( a, b );
	VC_ENSURE( called( 5, -9, a, b ), "an object without state" );
}
// ---- make_callable
CONTRACT( callable ) {
	ARGS;
	auto f = daw::make_callable( free_one );
	int const r = f( a, b );
	VC_ENSURE( called( 1, -1, a, b ) and r == answer( -1, a, b ), "the function, once" );
	auto g = daw::make_callable( target{ id } );
	int const r2 = g( a, b );
	VC_ENSURE( called( 2, id, a, b ) and r2 == answer( id, a, b ), "the object, once" );
	auto h = daw::make_callable( free_void );
	h( a, b );
	VC_ENSURE( called( 3, -3, a, b ), "the function, once" );
}
// ---- daw::function, in place storage
using fn = daw::function<64, int( int, int )>;
template<typename F>
static bool is_reported( F &f ) {
	bool reported = false;
	try {
		(void)f( 1, 2 );
	} catch( std::bad_function_call const & ) { reported = true; }
	return reported;
}
CONTRACT( stack_function ) {
	ARGS;
	fn f( target{ id } );
	VC_ENSURE( seen.runs == 0 and not f.empty( ) and static_cast<bool>( f ), "it is not empty" );
	int const r = f( a, b );
	VC_ENSURE( called( 1, id, a, b ) and r == answer( id, a, b ), "the target, once" );
	fn const &c = f;
	int const r2 = c( b, a );
	VC_ENSURE( called( 2, id, b, a ) and r2 == answer( id, b, a ), "the same when const" );
}
CONTRACT( stack_function_copy ) {
	ARGS;
	fn f( target{ id } );
	fn g = f;
	f = target{ id2 };
	int const r = g( a, b );
	VC_ENSURE( called( 1, id, a, b ) and r == answer( id, a, b ), "the copy keeps its target" );
	int const r2 = f( a, b );
	VC_ENSURE( called( 2, id2, a, b ) and r2 == answer( id2, a, b ), "the target assigned" );
	fn h = std::move( g );
	int const r3 = h( a, b );
	VC_ENSURE( called( 3, id, a, b ) and r3 == answer( id, a, b ), "the target moved" );
	h = f;
	int const r4 = h( a, b );
	VC_ENSURE( called( 4, id2, a, b ) and r4 == answer( id2, a, b ), "copy assigned" );
	auto &alias = h;
	h = alias;
	int const r5 = h( a, b );
	VC_ENSURE( called( 5, id2, a, b ) and r5 == answer( id2, a, b ), "assigned to itself" );
}
CONTRACT( stack_function_pointer ) {
	ARGS;
	fn f( &free_one );
	int const r = f( a, b );
	VC_ENSURE( called( 1, -1, a, b ) and r == answer( -1, a, b ), "the function, once" );
	f = &free_two;
	int const r2 = f( a, b );
	VC_ENSURE( called( 2, -2, a, b ) and r2 == answer( -2, a, b ), "the function assigned" );
}
CONTRACT( stack_function_empty ) {
	ARGS;
	fn f{ };
	VC_ENSURE( f.empty( ) and not f, "empty" );
	VC_ENSURE( is_reported( f ), "an empty function is reported" );
	fn g( nullptr );
	VC_ENSURE( g.empty( ) and is_reported( g ), "an empty function is reported" );
	int ( *p )( int, int ) = nullptr;
	fn h( p );
	VC_ENSURE( h.empty( ) and is_reported( h ), "a null pointer makes an empty function" );
	fn i = f;
	VC_ENSURE( i.empty( ) and is_reported( i ), "a copy of an empty function" );
	VC_ENSURE( seen.runs == 0, "nothing ran" );
	i = target{ id };
	int const r = i( a, b );
	VC_ENSURE( not i.empty( ) and called( 1, id, a, b ) and r == answer( id, a, b ), "the target assigned" );
	i = f;
	VC_ENSURE( i.empty( ) and is_reported( i ) and seen.runs == 1, "empty assigned" );
}
// a target that owns something: constructed and destroyed in pairs
struct owner {
	tracked t;
	explicit owner( int v ) : t( v ) {}
	int operator( )( int a, int b ) const {
		return note( t.v, a, b );
	}
};
CONTRACT( stack_function_owner ) {
	ARGS;
	auto const live = tracked::live;
	{
		fn f( owner{ id } );
		fn g = f;
		int const r = g( a, b );
		VC_ENSURE( called( 1, id, a, b ) and r == answer( id, a, b ), "the copy" );
		g = owner{ id2 };
		int const r2 = g( a, b );
		VC_ENSURE( called( 2, id2, a, b ) and r2 == answer( id2, a, b ), "the target assigned" );
		int const r3 = f( a, b );
		VC_ENSURE( called( 3, id, a, b ) and r3 == answer( id, a, b ), "the first is untouched" );
		f = g;
		fn h = std::move( f );
		int const r4 = h( a, b );
		VC_ENSURE( called( 4, id2, a, b ) and r4 == answer( id2, a, b ), "the target moved" );
		g = fn{ };
		VC_ENSURE( g.empty( ), "emptied" );
	}
	VC_ENSURE( tracked::live == live, "every target is destroyed once" );
}
CONTRACT( stack_function_void ) {
	ARGS;
	daw::function<64, void( int, int )> f( target{ id } );
	f( a, b );
	VC_ENSURE( called( 1, id, a, b ), "the target, once" );
	daw::function<64, void( int, int )> e{ };
	bool reported = false;
	try {
		e( a, b );
	} catch( std::bad_function_call const & ) { reported = true; }
	VC_ENSURE( reported and seen.runs == 1, "an empty function is reported" );
}
struct counts {
	int n;
	int operator( )( int a, int b ) {
		++n;
		return note( n, a, b );
	}
	int operator( )( int a, int b ) const {
		return note( -n, a, b );
	}
};
CONTRACT( stack_function_state ) {
	ARGS;
	daw::function<64, int( int, int )> f( counts{ 4 } );
	(void)f( a, b );
	(void)f( a, b );
	VC_ENSURE( called( 2, 6, a, b ), "the stored object is called, not a copy" );
	auto const &c = f;
	(void)c( a, b );
	VC_ENSURE( called( 3, -6, a, b ), "const calls const" );
}
// ---- bound arguments
struct four {
	int id;
	int operator( )( int a, int b, int c, int d ) const {
		++seen.runs;
		seen.who = id;
		seen.a = a;
		seen.b = b;
		return static_cast<int>( static_cast<unsigned>( c ) * 5U + static_cast<unsigned>( d ) );
	}
};
static int mixed( int c, int d ) {
	return static_cast<int>( static_cast<unsigned>( c ) * 5U + static_cast<unsigned>( d ) );
}
CONTRACT( front ) {
	ARGS;
	auto const c = vc::any<int>( "c" );
	auto const d = vc::any<int>( "d" );
	auto const f = daw::bind_front( four{ id }, a, b );
	VC_ENSURE( seen.runs == 0, "nothing runs when arguments are bound" );
	int const r = f( c, d );
	VC_ENSURE( called( 1, id, a, b ) and r == mixed( c, d ), "bound arguments come first, in order" );
	auto g = daw::bind_front( four{ id }, a );
	int const r2 = g( b, c, d );
	VC_ENSURE( called( 2, id, a, b ) and r2 == mixed( c, d ), "bound arguments come first, in order" );
	int const r3 = g( c, d, b );
	VC_ENSURE( called( 3, id, a, c ) and r3 == mixed( d, b ), "called again" );
}
CONTRACT( front_pointer_and_all ) {
	ARGS;
	auto f = daw::bind_front( &free_one, a, b );
	int const r = f( );
	VC_ENSURE( called( 1, -1, a, b ) and r == answer( -1, a, b ), "every argument bound" );
	auto g = daw::bind_front( &free_two );
	int const r2 = g( a, b );
	VC_ENSURE( called( 2, -2, a, b ) and r2 == answer( -2, a, b ), "none bound" );
	int x = a;
	auto h = daw::bind_front( []( int &l, int m ) { l = m; return l; }, std::ref( x ) );
	int const r3 = h( b );
	VC_ENSURE( r3 == b and x == b, "a bound reference" );
}
template<std::size_t N>
static void at_position( ) {
	ARGS;
	auto const c = vc::any<int>( "c" );
	auto const d = vc::any<int>( "d" );
	int const all[4] = { a, b, c, d };
	// two arguments are bound at position N, the rest is passed in order
	int rest[2];
	std::size_t n = 0;
	for( std::size_t i = 0; i < 4; ++i ) {
		if( i < N or i >= N + 2 ) {
			rest[n++] = all[i];
		}
	}
	auto const f = daw::bind_args_at<N>( four{ id }, all[N], all[N + 1] );
	VC_ENSURE( seen.runs == 0, "nothing runs when arguments are bound" );
	int const r = f( rest[0], rest[1] );
	VC_ENSURE( called( 1, id, a, b ) and r == mixed( c, d ), "every argument in its place" );
	auto g = f;
	int const r2 = g( rest[0], rest[1] );
	VC_ENSURE( called( 2, id, a, b ) and r2 == mixed( c, d ), "a copy that is not const" );
}
CONTRACT( bind_at_0 ) {
	at_position<0>( );
}
CONTRACT( bind_at_1 ) {
	at_position<1>( );
}
CONTRACT( bind_at_2 ) {
	at_position<2>( );
}
CONTRACT( bind_at_lvalues ) {
	ARGS;
	int x = a;
	int y = b;
	auto f = daw::bind_args_at<1>( target{ id }, y );
	y = 0;
	int const r = f( x );
	VC_ENSURE( called( 1, id, a, b ) and r == answer( id, a, b ), "the value bound" );
	VC_ENSURE( x == a, "an argument passed by value is unchanged" );
}
// ---- apply
CONTRACT( apply_tuple ) {
	ARGS;
	auto const c = vc::any<int>( "c" );
	auto const d = vc::any<int>( "d" );
	int const r = daw::apply( four{ id }, std::tuple<int, int, int, int>( a, b, c, d ) );
	VC_ENSURE( called( 1, id, a, b ) and r == mixed( c, d ), "every element in its place" );
	std::tuple<int, int> const two( a, b );
	int const r2 = daw::apply( free_one, two );
	VC_ENSURE( called( 2, -1, a, b ) and r2 == answer( -1, a, b ), "a tuple of two" );
}
struct member {
	int v;
	int run( int a ) const {
		return note( v, a, 4 );
	}
};
CONTRACT( invoke_any ) {
	ARGS;
	int const r = daw::invoke( free_one, a, b );
	VC_ENSURE( called( 1, -1, a, b ) and r == answer( -1, a, b ), "a function" );
	int const r2 = daw::invoke( target{ id }, a, b );
	VC_ENSURE( called( 2, id, a, b ) and r2 == answer( id, a, b ), "an object" );
	member m{ id2 };
	int const r3 = daw::invoke( &member::run, m, a );
	VC_ENSURE( called( 3, id2, a, 4 ) and r3 == answer( id2, a, 4 ), "a member function and an object" );
	int const r4 = daw::invoke( &member::run, &m, b );
	VC_ENSURE( called( 4, id2, b, 4 ) and r4 == answer( id2, b, 4 ), "a member function and a pointer" );
	VC_ENSURE( daw::invoke( &member::v, m ) == id2 and daw::invoke( &member::v, &m ) == id2, "a data member" );
	int const r5 = daw::apply<false>( free_two, std::tuple<int, int>( a, b ) );
	VC_ENSURE( called( 5, -2, a, b ) and r5 == answer( -2, a, b ), "apply without invoke" );
	int const r6 = daw::apply( []( ) { return note( 8, 8, 8 ); }, std::tuple<>( ) );
	VC_ENSURE( called( 6, 8, 8, 8 ) and r6 == answer( 8, 8, 8 ), "an empty tuple" );
}
// ---- overload sets
CONTRACT( overload_set ) {
	ARGS;
	auto const c = vc::any<char>( "c" );
	auto f = daw::overload( [id]( int x ) { return note( id, x, 1 ); }, [id2]( char x ) { return note( id2, x, 2 ); },
	                        []( int const *x ) { return note( 5, *x, 3 ); } );
	int const r = f( a );
	VC_ENSURE( called( 1, id, a, 1 ) and r == answer( id, a, 1 ), "the overload for int" );
	int const r2 = f( c );
	VC_ENSURE( called( 2, id2, c, 2 ) and r2 == answer( id2, c, 2 ), "the overload for char" );
	int const r3 = f( &b );
	VC_ENSURE( called( 3, 5, b, 3 ) and r3 == answer( 5, b, 3 ), "the overload for a pointer" );
}
static int on_pointer( int const *x ) {
	return note( -4, *x, 3 );
}
CONTRACT( overload_function ) {
	ARGS;
	auto const f = daw::overload( on_pointer, [id]( int x ) { return note( id, x, 1 ); } );
	int const r = f( &b );
	VC_ENSURE( called( 1, -4, b, 3 ) and r == answer( -4, b, 3 ), "the function" );
	int const r2 = f( a );
	VC_ENSURE( called( 2, id, a, 1 ) and r2 == answer( id, a, 1 ), "the object" );
	int const r3 = daw::lift<free_one>( a, b );
	VC_ENSURE( called( 3, -1, a, b ) and r3 == answer( -1, a, b ), "the lifted function" );
}
// ---- function tables
CONTRACT( table_of_one_type ) {
	ARGS;
	auto const i = vc::range( "i", 0, 2 );
	auto t = daw::make_function_table<int>( target{ id }, target{ id2 }, target{ 77 } );
	int const who = i == 0 ? id : i == 1 ? id2 : 77;
	int const r = t( i, a, b );
	VC_ENSURE( called( 1, who, a, b ) and r == answer( who, a, b ), "the function at the index" );
	int const r2 = t.call( i, b, a );
	VC_ENSURE( called( 2, who, b, a ) and r2 == answer( who, b, a ), "the function at the index" );
	VC_ENSURE( t.size( ) == 3, "size" );
	auto const j = vc::range( "j", 0, 2 );
	t.set( j, target{ 99 } );
	int const r3 = t( i, a, b );
	int const now = i == j ? 99 : who;
	VC_ENSURE( called( 3, now, a, b ) and r3 == answer( now, a, b ), "set replaces one entry" );
}
struct other_target {
	int id;
	int operator( )( int a, int b ) const {
		return note( id, b, a );
	}
};
CONTRACT( table_of_types ) {
	ARGS;
	auto const i = vc::range( "i", 0, 3 );
	auto t = daw::make_function_table<int>( target{ id }, other_target{ id2 }, &free_one, no_state{ } );
	int const r = t( i, a, b );
	int const who = i == 0 ? id : i == 1 ? id2 : i == 2 ? -1 : -9;
	int const x = i == 1 ? b : a;
	int const y = i == 1 ? a : b;
	VC_ENSURE( called( 1, who, x, y ) and r == answer( who, x, y ), "the function at the index" );
	t.set( 2, &free_two );
	int const r2 = t( i, a, b );
	int const now = i == 2 ? -2 : who;
	VC_ENSURE( called( 2, now, x, y ) and r2 == answer( now, x, y ), "set replaces one entry" );
	t.set( 1, other_target{ 55 } );
	int const r3 = t( i, a, b );
	int const then = i == 1 ? 55 : now;
	VC_ENSURE( called( 3, then, x, y ) and r3 == answer( then, x, y ), "set replaces one entry" );
}
// ---- visitors
template<int N>
struct alt {
	int v;
};
template<int... Is>
struct every {
	using variant = std::variant<alt<Is>...>;
	static variant make( std::size_t which, int v ) {
		variant r;
		(void)( ( static_cast<std::size_t>( Is ) == which ? ( r = alt<Is>{ v }, true ) : false ) or ... );
		return r;
	}
};
template<typename>
struct all_of;
template<int... Is>
struct all_of<std::integer_sequence<int, Is...>> : every<Is...> {};
template<int N>
using alternatives = all_of<std::make_integer_sequence<int, N>>;

template<int N>
static void visits( ) {
	auto const which = vc::range( "which", 0, N - 1 );
	auto const v = vc::any<int>( "v" );
	start( );
	auto var = alternatives<N>::make( which, v );
	auto const visitor = []<int I>( alt<I> const &x ) { return note( I, x.v, 1 ); };
	int const r = daw::visit( var, visitor );
	VC_ENSURE( called( 1, static_cast<int>( which ), v, 1 ) and r == answer( static_cast<int>( which ), v, 1 ), "the alternative held" );
	auto const &cv = var;
	int const r2 = daw::visit_nt( cv, visitor );
	VC_ENSURE( called( 2, static_cast<int>( which ), v, 1 ) and r2 == r, "the alternative held" );
	auto const r3 = daw::visit<long>( var, visitor );
	VC_ENSURE( called( 3, static_cast<int>( which ), v, 1 ) and r3 == r, "with a chosen result" );
	daw::visit<void>( var, []<int I>( alt<I> &x ) { x.v = I; } );
	VC_ENSURE( daw::visit( cv, []<int I>( alt<I> const &x ) { return x.v == I; } ), "the value itself is visited" );
	VC_ENSURE( var.index( ) == which, "the alternative does not change" );
}
#define VISITS( N )           \
	CONTRACT( visit_##N ) {      \
		visits<N>( );               \
	}
VISITS( 1 )
VISITS( 2 )
VISITS( 3 )
VISITS( 4 )
VISITS( 5 )
VISITS( 6 )
VISITS( 7 )
VISITS( 8 )
VISITS( 9 )
VISITS( 10 )
VISITS( 11 )
VISITS( 12 )
VISITS( 13 )
VISITS( 14 )
VISITS( 15 )
VISITS( 16 )
VISITS( 17 )
VISITS( 20 )
VISITS( 33 )

CONTRACT( visit_several_visitors ) {
	auto const which = vc::range( "which", 0, 2 );
	auto const v = vc::any<int>( "v" );
	start( );
	auto const var = alternatives<3>::make( which, v );
	int const r = daw::visit( var, []( alt<2> const &x ) { return note( 12, x.v, 1 ); }, []( alt<0> const &x ) { return note( 10, x.v, 1 ); },
	                          []( alt<1> const &x ) { return note( 11, x.v, 1 ); } );
	VC_ENSURE( called( 1, 10 + static_cast<int>( which ), v, 1 ) and r == answer( 10 + static_cast<int>( which ), v, 1 ), "the visitor for the alternative" );
}
struct throws_on_copy {
	int v = 0;
	throws_on_copy( ) = default;
	throws_on_copy( throws_on_copy const & ) {
		throw 1;
	}
	throws_on_copy( throws_on_copy && ) {
		throw 1;
	}
	throws_on_copy &operator=( throws_on_copy const & ) = default;
};
CONTRACT( visit_valueless ) {
	start( );
	using variant = std::variant<int, throws_on_copy>;
	variant var( 5 );
	try {
		throws_on_copy t{ };
		var.emplace<1>( t );
	} catch( int ) {}
	vc::assume( var.valueless_by_exception( ) );
	bool reported = false;
	try {
		(void)daw::visit( var, []( int ) { return note( 1, 1, 1 ); }, []( throws_on_copy const & ) { return note( 2, 2, 2 ); } );
	} catch( daw::bad_variant_access const & ) { reported = true; }
	VC_ENSURE( reported and seen.runs == 0, "a variant without a value is reported" );
	reported = false;
	try {
		(void)daw::visit<long>( var, []( int ) { return note( 1, 1, 1 ); }, []( throws_on_copy const & ) { return note( 2, 2, 2 ); } );
	} catch( daw::bad_variant_access const & ) { reported = true; }
	VC_ENSURE( reported and seen.runs == 0, "and with a chosen result" );
}
CONTRACT( visit_other_type ) {
	auto const was = vc::any<std::uint32_t>( "was" );
	auto const now = vc::any<std::int32_t>( "now" );
	std::uint32_t x = was;
	unsigned runs = 0;
	auto const r = daw::visit_as<std::int32_t>( x, [&]( std::int32_t &v ) {
		++runs;
		auto const old = v;
		v = now;
		return old;
	} );
	VC_ENSURE( runs == 1 and static_cast<std::uint32_t>( r ) == was and x == static_cast<std::uint32_t>( now ), "the bits are visited and written back" );
	daw::visit_as<std::int32_t>( x, [&]( std::int32_t &v ) { v = static_cast<std::int32_t>( was ); } );
	VC_ENSURE( x == was, "a visitor without a result" );
	std::uint32_t const y = was;
	VC_ENSURE( daw::visit_as<std::int32_t>( y, []( std::int32_t v ) { return static_cast<std::uint32_t>( v ); } ) == was, "a constant" );
}
