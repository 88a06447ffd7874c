// Scope guards, exit actions, unique resources and counted resources: the
// cleanup runs exactly once on every path, with the owned resource, and not
// after dismissal, release or a move.
#include "vc.h"
#include <daw/daw_countable_resource.h>
#include <daw/daw_scope_guard.h>
#include <daw/daw_unique_resource.h>
#include <utility>

struct problem {
	int n;
};
// what the handlers did
struct book {
	unsigned runs;
	int last;
	std::size_t seq;
};
struct handler {
	book *b;
	int id;
	void operator( )( ) const {
		++b->runs;
		b->last = id;
	}
};
// a second kind of handler: keeps the order
struct ordered {
	book *b;
	int id;
	void operator( )( ) const noexcept {
		++b->runs;
		b->seq = b->seq * 8U + static_cast<std::size_t>( id );
	}
};

CONTRACT( scope_exit_by_any_path ) {
	auto const how = vc::range( "how", 0, 3 );
	auto const id = vc::any<int>( "id" );
	book b{ };
	auto f = [&]( ) -> int {
		auto g = daw::on_scope_exit( handler{ &b, id } );
		VC_ENSURE( b.runs == 0, "nothing runs before the scope is left" );
		if( how == 0 ) {
			return 1;
		}
		if( how == 1 ) {
			throw problem{ 2 };
		}
		if( how == 2 ) {
			g.run_now( );
			VC_ENSURE( b.runs == 1, "run_now runs at once" );
			return 3;
		}
		return 4;
	};
	bool thrown = false;
	try {
		(void)f( );
	} catch( problem const &p ) {
		thrown = true;
		VC_ENSURE( p.n == 2, "exception is passed on" );
		VC_ENSURE( b.runs == 1, "ran before the handler of the exception" );
	}
	VC_ENSURE( thrown == ( how == 1 ), "exception" );
	VC_ENSURE( b.runs == 1 and b.last == id, "the handler runs exactly once" );
}
CONTRACT( scope_exit_dismissed ) {
	auto const when = vc::any<bool>( "when" );
	auto const fail = vc::any<bool>( "fail" );
	auto const which = vc::any<bool>( "which" );
	book b{ };
	try {
		auto g = daw::on_scope_exit( handler{ &b, 1 } );
		if( when ) {
			if( which ) {
				g.dismiss( );
			} else {
				g.cancel( );
			}
		}
		if( fail ) {
			throw problem{ 1 };
		}
	} catch( problem const & ) {}
	VC_ENSURE( b.runs == ( when ? 0U : 1U ), "a dismissed guard does not run" );
}
CONTRACT( scope_exit_moved ) {
	auto const id = vc::any<int>( "id" );
	auto const dismiss = vc::any<bool>( "dismiss" );
	book b{ };
	{
		auto g = daw::on_scope_exit( handler{ &b, id } );
		{
			auto h = std::move( g );
			if( dismiss ) {
				h.dismiss( );
			}
		}
		VC_ENSURE( b.runs == ( dismiss ? 0U : 1U ), "the guard moved to runs at its own end" );
	}
	VC_ENSURE( b.runs == ( dismiss ? 0U : 1U ), "a moved from guard does not run" );
	VC_ENSURE( dismiss or b.last == id, "same handler" );
}
CONTRACT( scope_exit_move_assigned ) {
	auto const gone = vc::any<bool>( "gone" );
	book b{ };
	{
		using g_t = daw::ScopeGuard<handler>;
		g_t g( handler{ &b, 1 } );
		{
			g_t h( handler{ &b, 2 } );
			if( gone ) {
				h.cancel( );
			}
			g = std::move( h );
		}
		VC_ENSURE( b.runs == 0, "moved from" );
	}
	VC_ENSURE( b.runs == ( gone ? 0U : 1U ) and ( gone or b.last == 2 ), "runs the handler assigned to it, once" );
}
CONTRACT( scope_exit_self_move ) {
	book b{ };
	{
		daw::ScopeGuard<handler> g( handler{ &b, 1 } );
		auto &r = g;
		g = std::move( r );
	}
	VC_ENSURE( b.runs == 1, "self move assignment keeps the handler" );
}
CONTRACT( scope_exit_nested ) {
	auto const fail = vc::range( "fail", 0, 4 );
	book b{ };
	auto f = [&]( ) {
		auto g1 = daw::on_scope_exit( ordered{ &b, 1 } );
		if( fail == 1 ) {
			throw problem{ 1 };
		}
		auto g2 = daw::on_scope_exit( ordered{ &b, 2 } );
		if( fail == 2 ) {
			throw problem{ 1 };
		}
		{
			auto g3 = daw::on_scope_exit( ordered{ &b, 3 } );
			if( fail == 3 ) {
				throw problem{ 1 };
			}
		}
		if( fail == 4 ) {
			throw problem{ 1 };
		}
	};
	try {
		f( );
	} catch( problem const & ) {}
	VC_ENSURE( b.seq == ( fail == 1 ? 01U : fail == 2 ? 021U : 0321U ), "in reverse order, those that were created" );
}
CONTRACT( scope_exit_handler_state ) {
	auto const x = vc::any<int>( "x" );
	auto const y = vc::any<int>( "y" );
	int seen = 0;
	int value = x;
	{
		auto g = daw::on_scope_exit( [&seen, &value] { seen = value; } );
		value = y;
	}
	VC_ENSURE( seen == y, "a reference is read when the scope is left" );
	{
		auto g = daw::on_scope_exit( [&seen, value] { seen = value; } );
		value = x;
	}
	VC_ENSURE( seen == y, "a copy keeps its value" );
}
CONTRACT( scope_exit_run_now_throws ) {
	auto const fail = vc::any<bool>( "fail" );
	unsigned runs = 0;
	bool thrown = false;
	try {
		auto g = daw::on_scope_exit( [&] {
			++runs;
			if( fail and runs == 1 ) {
				throw problem{ 1 };
			}
		} );
		if( not fail ) {
			g.run_now( );
		}
	} catch( problem const & ) { thrown = true; }
	VC_ENSURE( runs == 1 and thrown == fail, "once, and its exception is passed on" );
}
static void set_seven( ) noexcept {}
CONTRACT( scope_exit_equality ) {
	auto const a = vc::any<bool>( "a" );
	auto const c = vc::any<bool>( "c" );
	daw::ScopeGuard<void ( * )( ) noexcept> g( &set_seven );
	daw::ScopeGuard<void ( * )( ) noexcept> h( &set_seven );
	if( a ) {
		g.cancel( );
	}
	if( c ) {
		h.cancel( );
	}
	VC_ENSURE( ( g == h ) == ( a == c ), "guards with the same handler are equal" );
}

// ------------------------------------------------------------------- success
CONTRACT( exit_success ) {
	auto const fail = vc::any<bool>( "fail" );
	auto const id = vc::any<int>( "id" );
	book b{ };
	try {
		auto g = daw::on_exit_success( handler{ &b, id } );
		VC_ENSURE( b.runs == 0, "nothing runs before the scope is left" );
		if( fail ) {
			throw problem{ 1 };
		}
	} catch( problem const & ) {}
	VC_ENSURE( b.runs == ( fail ? 0U : 1U ) and ( fail or b.last == id ), "runs exactly when the scope is left without an exception" );
}
CONTRACT( exit_success_lvalue_handler ) {
	auto const fail = vc::any<bool>( "fail" );
	book b{ };
	handler const h{ &b, 5 };
	try {
		daw::on_exit_success<handler> g( h );
		if( fail ) {
			throw problem{ 1 };
		}
	} catch( problem const & ) {}
	VC_ENSURE( b.runs == ( fail ? 0U : 1U ), "runs exactly when the scope is left without an exception" );
}
CONTRACT( exit_success_after_caught_exception ) {
	auto const fail = vc::any<bool>( "fail" );
	book b{ };
	{
		auto g = daw::on_exit_success( handler{ &b, 1 } );
		try {
			if( fail ) {
				throw problem{ 1 };
			}
		} catch( problem const & ) {}
	}
	VC_ENSURE( b.runs == 1, "an exception handled inside does not count" );
	try {
		if( fail ) {
			throw problem{ 1 };
		}
	} catch( problem const & ) {
		auto g = daw::on_exit_success( handler{ &b, 2 } );
	}
	VC_ENSURE( b.runs == ( fail ? 2U : 1U ), "inside a handler the exception is caught" );
}

// ----------------------------------------------------------- unique_resource
struct resource_log {
	unsigned deleted;
	int last;
	unsigned twice;
	bool alive[4];
};
static resource_log rlog;
struct closer {
	void operator( )( int id ) const noexcept {
		++rlog.deleted;
		rlog.last = id;
		if( not rlog.alive[id & 3] ) {
			++rlog.twice;
		}
		rlog.alive[id & 3] = false;
	}
};
using res = daw::unique_resource<int, closer>;
static void open_all( ) {
	rlog = { 0, -1, 0, { true, true, true, true } };
}
static bool closed( bool a, bool b, bool c ) {
	return rlog.twice == 0 and rlog.alive[0] == not a and rlog.alive[1] == not b and rlog.alive[2] == not c and rlog.alive[3];
}
CONTRACT( resource_destroyed ) {
	open_all( );
	auto const fail = vc::any<bool>( "fail" );
	try {
		res r( 0 );
		res e;
		VC_ENSURE( r.get( ) == 0 and *r == 0 and *r.operator->( ) == 0, "holds the resource" );
		res const &c = r;
		VC_ENSURE( c.get( ) == 0 and *c == 0 and *c.operator->( ) == 0, "holds the resource" );
		VC_ENSURE( rlog.deleted == 0, "not deleted yet" );
		if( fail ) {
			throw problem{ 1 };
		}
	} catch( problem const & ) {}
	VC_ENSURE( rlog.deleted == 1 and closed( true, false, false ), "deleted exactly once, an empty one not at all" );
}
CONTRACT( resource_reset ) {
	open_all( );
	auto const on = vc::any<bool>( "on" );
	{
		res r = on ? res( 0 ) : res( );
		r.reset( );
		VC_ENSURE( rlog.deleted == ( on ? 1U : 0U ) and closed( on, false, false ), "reset deletes at once" );
		r.reset( );
		VC_ENSURE( rlog.deleted == ( on ? 1U : 0U ), "second reset does nothing" );
		r.reset( 1 );
		VC_ENSURE( *r == 1 and closed( on, false, false ), "new resource" );
	}
	VC_ENSURE( closed( on, true, false ), "everything deleted exactly once" );
}
CONTRACT( resource_replaced ) {
	open_all( );
	auto const on = vc::any<bool>( "on" );
	auto const em = vc::any<bool>( "em" );
	{
		res r = on ? res( 0 ) : res( );
		if( em ) {
			auto &x = r.emplace( 1 );
			VC_ENSURE( &x == &r.get( ), "emplace returns the resource" );
		} else {
			r.reset( 1 );
		}
		VC_ENSURE( *r == 1 and closed( on, false, false ), "the previous resource is deleted" );
	}
	VC_ENSURE( closed( on, true, false ), "everything deleted exactly once" );
}
CONTRACT( resource_released ) {
	open_all( );
	{
		res r( 0 );
		VC_ENSURE( r.release( ) == 0, "release returns the resource" );
	}
	VC_ENSURE( rlog.deleted == 0, "a released resource is not deleted" );
}
CONTRACT( resource_moved ) {
	open_all( );
	auto const on = vc::any<bool>( "on" );
	{
		res r = on ? res( 0 ) : res( );
		{
			res s( std::move( r ) );
			VC_ENSURE( rlog.deleted == 0 and ( not on or *s == 0 ), "owner changes" );
		}
		VC_ENSURE( closed( on, false, false ), "deleted by the new owner" );
		r.reset( 1 );
	}
	VC_ENSURE( closed( on, true, false ), "everything deleted exactly once" );
}
CONTRACT( resource_move_assigned ) {
	open_all( );
	auto const on = vc::any<bool>( "on" );
	auto const other = vc::any<bool>( "other" );
	{
		res r = on ? res( 0 ) : res( );
		{
			res s = other ? res( 1 ) : res( );
			r = std::move( s );
			VC_ENSURE( closed( on, false, false ) and ( not other or *r == 1 ), "the previous resource is deleted" );
		}
		VC_ENSURE( closed( on, false, false ), "moved from" );
	}
	VC_ENSURE( closed( on, other, false ), "everything deleted exactly once" );
}
CONTRACT( resource_self_move ) {
	open_all( );
	auto const on = vc::any<bool>( "on" );
	{
		res r = on ? res( 0 ) : res( );
		auto &x = r;
		r = std::move( x );
		VC_ENSURE( rlog.deleted == 0 and ( not on or *r == 0 ), "self move assignment keeps the resource" );
	}
	VC_ENSURE( closed( on, false, false ), "everything deleted exactly once" );
}
// any sequence of three operations on two owners
CONTRACT( resource_history ) {
	open_all( );
	bool own0 = false;
	bool own1 = false;
	std::size_t opened = 0;
	int held0 = -1;
	int held1 = -1;
	bool gone[4] = { };
	{
		res a;
		res b;
		for( unsigned k = 0; k < 3; ++k ) {
			switch( vc::range( k == 0 ? "op0" : k == 1 ? "op1" : "op2", 0, 4 ) ) {
			case 0:
				if( own0 ) {
					gone[held0 & 3] = true;
				}
				held0 = static_cast<int>( opened++ );
				a.reset( held0 );
				own0 = true;
				break;
			case 1:
				if( own0 ) {
					gone[held0 & 3] = true;
				}
				a.reset( );
				own0 = false;
				break;
			case 2:
				if( own1 ) {
					gone[held1 & 3] = true;
				}
				b = std::move( a );
				own1 = own0;
				held1 = held0;
				own0 = false;
				break;
			case 3:
				if( own0 ) {
					gone[held0 & 3] = true;
				}
				a = std::move( b );
				own0 = own1;
				held0 = held1;
				own1 = false;
				break;
			default:
				if( own0 ) {
					VC_ENSURE( a.release( ) == held0, "release" );
					own0 = false;
				}
			}
			VC_ENSURE( rlog.twice == 0, "nothing is deleted twice" );
			VC_ENSURE( rlog.alive[0] == not gone[0] and rlog.alive[1] == not gone[1] and rlog.alive[2] == not gone[2], "deleted when replaced" );
			VC_ENSURE( ( not own0 or *a == held0 ) and ( not own1 or *b == held1 ), "holds its resource" );
		}
	}
	if( own0 ) {
		gone[held0 & 3] = true;
	}
	if( own1 ) {
		gone[held1 & 3] = true;
	}
	VC_ENSURE( rlog.twice == 0 and rlog.alive[0] == not gone[0] and rlog.alive[1] == not gone[1] and rlog.alive[2] == not gone[2], "everything owned at the end is deleted exactly once" );
}

// ------------------------------------------------------- countable_resource_t
CONTRACT( countable_resource ) {
	using cr = daw::countable_resource_t<unsigned>;
	auto const start = cr::value( );
	auto const two = vc::any<bool>( "two" );
	{
		cr a;
		VC_ENSURE( cr::value( ) == start + 1, "one object" );
		cr b( a );
		VC_ENSURE( cr::value( ) == start + 2, "a copy is another object" );
		cr &r = ( b = a );
		VC_ENSURE( cr::value( ) == start + 2 and &r == &b, "assignment creates none" );
		if( two ) {
			cr c( std::move( a ) );
			VC_ENSURE( cr::value( ) == start + 3, "three objects" );
		}
		VC_ENSURE( cr::value( ) == start + 2, "destroyed" );
	}
	VC_ENSURE( cr::value( ) == start, "none left" );
}
