// Native run time of the contract language: executes a contract on the real
// code with concrete values (random or taken from a replay file).
#include "vc.h"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace {
	struct Entry {
		char const *name;
		void ( *fn )( );
	};
	std::vector<Entry> &registry( ) {
		static std::vector<Entry> r;
		return r;
	}
	struct Shared {
		volatile std::uint64_t seed;
		volatile std::uint64_t runs;
		volatile std::uint64_t valid;
		volatile int failed;
		char msg[2048];
	};
	Shared *sh;
	std::jmp_buf jb;
	std::uint64_t rng;
	bool replaying = false;
	std::map<std::string, std::vector<std::string>> replay_vals;
	std::map<std::string, std::size_t> occ;
	std::vector<std::string> *trace = nullptr;
	std::vector<void *> objs;
	std::map<void const *, std::size_t> counts;
	int flavour;
	std::uint64_t smallmax;
	std::vector<std::uint64_t> pool;

	std::uint64_t rnd( ) {
		rng ^= rng << 13U;
		rng ^= rng >> 7U;
		rng ^= rng << 17U;
		return rng * 0x2545F4914F6CDD1DULL;
	}
	std::uint64_t below( std::uint64_t n ) {
		return n == 0 ? 0 : ( rnd( ) >> 11U ) % n;
	}
	std::uint64_t interesting( unsigned bits ) {
		std::uint64_t const m = bits >= 64 ? ~0ULL : ( ( 1ULL << bits ) - 1 );
		switch( below( 9 ) ) {
		case 0:
			return below( 4 ) & m;
		case 1:
			return ( 0 - below( 4 ) ) & m;
		case 2:
			return ( ( 1ULL << ( bits - 1 ) ) + below( 3 ) - 1 ) & m;
		case 3:
			return ( ( 1ULL << below( bits ) ) + below( 3 ) - 1 ) & m;
		case 4:
			return rnd( ) & m;
		case 5:
			if( not pool.empty( ) ) {
				return ( pool[below( pool.size( ) )] + below( 3 ) - 1 ) & m;
			}
			return below( 300 ) & m;
		case 6:
			return ( rnd( ) & m ) >> below( bits );
		case 7: {
			auto v = ( rnd( ) & m ) >> below( bits );
			return ( 0 - v ) & m;
		}
		default:
			return below( 16 ) & m;
		}
	}
	unsigned char const alpha[] = "ab-0 9z_\n1+.\"\\:5\xff/\t\r:Z,A[]'`{";
	std::uint64_t element( unsigned bits ) {
		// small correlated alphabets
		std::uint64_t const m = bits >= 64 ? ~0ULL : ( ( 1ULL << bits ) - 1 );
		switch( flavour ) {
		case 0:
			return ( 'a' + below( 2 ) ) & m;
		case 1:
			return ( 'a' + below( 3 ) ) & m;
		case 2:
			return alpha[below( sizeof( alpha ) - 1 )];
		case 3:
			return ( '0' + below( 10 ) ) & m;
		case 4:
			return below( 4 );
		case 5:
			return below( 4 ) == 0 ? interesting( bits ) : below( 3 );
		case 6:
			return below( 2 ) ? alpha[below( 8 )] : ( '0' + below( 10 ) );
		default:
			return bits <= 8 ? ( rnd( ) & m ) : interesting( bits );
		}
	}
	void record( char const *name, void const *p, std::size_t n ) {
		if( trace == nullptr ) {
			return;
		}
		std::string s = name;
		s += ' ';
		char b[4];
		for( std::size_t i = 0; i < n; ++i ) {
			std::snprintf( b, sizeof b, "%02x", static_cast<unsigned char const *>( p )[i] );
			s += b;
		}
		std::printf( "input %s\n", s.c_str( ) );
		std::fflush( stdout );
	}
	bool from_replay( char const *name, void *p, std::size_t n ) {
		if( not replaying ) {
			return false;
		}
		auto it = replay_vals.find( name );
		std::memset( p, 0, n );
		if( it == replay_vals.end( ) ) {
			return true;
		}
		auto &k = occ[name];
		if( k < it->second.size( ) ) {
			auto const &h = it->second[k];
			for( std::size_t i = 0; i < n and 2 * i + 1 < h.size( ); ++i ) {
				static_cast<unsigned char *>( p )[i] = static_cast<unsigned char>( std::strtoul( h.substr( 2 * i, 2 ).c_str( ), nullptr, 16 ) );
			}
		}
		++k;
		return true;
	}
	// live allocation tracking
	struct Alloc {
		void *p;
		bool live;
	};
	constexpr std::size_t MAXA = 1u << 16;
	Alloc allocs[MAXA];
	std::size_t nalloc = 0;
	bool tracking = false;
	std::size_t live = 0;
	[[noreturn]] void fail( char const *kind, char const *label ) {
		std::snprintf( sh->msg, sizeof( sh->msg ), "%s: %s", kind, label );
		sh->failed = 1;
		std::fflush( stdout );
		_exit( 77 );
	}
} // namespace

static void *vc_alloc( std::size_t n ) {
	if( n > ( std::size_t{ 1 } << 31 ) ) {
		throw std::bad_alloc( );
	}
	void *p = std::malloc( n ? n : 1 );
	if( tracking and nalloc < MAXA ) {
		allocs[nalloc++] = { p, true };
		++live;
	}
	return p;
}
static void vc_dealloc( void *p ) {
	if( p == nullptr ) {
		return;
	}
	if( tracking ) {
		for( std::size_t i = nalloc; i-- > 0; ) {
			if( allocs[i].p == p and allocs[i].live ) {
				allocs[i].live = false;
				--live;
				break;
			}
		}
	}
	std::free( p );
}
void *operator new( std::size_t n ) {
	return vc_alloc( n );
}
void *operator new[]( std::size_t n ) {
	return vc_alloc( n );
}
void *operator new( std::size_t n, std::nothrow_t const & ) noexcept {
	return vc_alloc( n );
}
void *operator new[]( std::size_t n, std::nothrow_t const & ) noexcept {
	return vc_alloc( n );
}
void operator delete( void *p, std::nothrow_t const & ) noexcept {
	vc_dealloc( p );
}
void operator delete[]( void *p, std::nothrow_t const & ) noexcept {
	vc_dealloc( p );
}
void operator delete( void *p ) noexcept {
	vc_dealloc( p );
}
void operator delete[]( void *p ) noexcept {
	vc_dealloc( p );
}
void operator delete( void *p, std::size_t ) noexcept {
	vc_dealloc( p );
}
void operator delete[]( void *p, std::size_t ) noexcept {
	vc_dealloc( p );
}

vc_registrar::vc_registrar( char const *n, void ( *f )( ) ) {
	registry( ).push_back( { n, f } );
}

extern "C" {
void vc_any_bytes( void *p, std::size_t n, char const *name ) noexcept {
	tracking = false;
	if( not from_replay( name, p, n ) ) {
		std::uint64_t v[4] = { };
		if( n == 1 and below( 2 ) ) {
			v[0] = element( 8 );
		} else if( n <= 8 ) {
			v[0] = n <= 4 and below( 2 ) ? element( static_cast<unsigned>( n * 8 ) ) : interesting( static_cast<unsigned>( n * 8 ) );
			pool.push_back( v[0] );
		} else {
			for( auto &x : v ) {
				x = interesting( 64 );
			}
		}
		std::memcpy( p, v, n );
	}
	record( name, p, n );
	tracking = true;
}
std::uint64_t vc_any_range( char const *name, std::uint64_t lo, std::uint64_t hi, bool sg ) noexcept {
	tracking = false;
	std::uint64_t v = 0;
	if( not from_replay( name, &v, 8 ) ) {
		std::uint64_t const w = hi - lo;
		switch( below( 8 ) ) {
		case 0:
			v = lo;
			break;
		case 1:
			v = w <= 4096 ? hi : lo + below( smallmax );
			break;
		case 2:
			v = w <= 4096 ? lo + below( w + 1 ) : lo + below( smallmax * 2 );
			break;
		default:
			v = lo + below( ( w < smallmax ? w : smallmax ) + 1 );
			break;
		}
	}
	bool const bad = sg ? ( static_cast<std::int64_t>( v ) < static_cast<std::int64_t>( lo ) or static_cast<std::int64_t>( v ) > static_cast<std::int64_t>( hi ) ) : ( v < lo or v > hi );
	record( name, &v, 8 );
	tracking = true;
	if( bad ) {
		std::longjmp( jb, 1 );
	}
	return v;
}
void *vc_any_obj( std::size_t count, std::size_t es, int zt, char const *name ) noexcept {
	tracking = false;
	if( count > ( std::size_t{ 1 } << 24 ) ) {
		tracking = true;
		std::longjmp( jb, 1 );
	}
	std::size_t const tot = ( count + ( zt ? 1 : 0 ) ) * es;
	auto *p = static_cast<unsigned char *>( std::malloc( tot ? tot : 1 ) );
	if( tot == 0 ) {
		// a zero sized object: end of the block, so that any access is caught
		std::free( p );
		p = static_cast<unsigned char *>( std::malloc( 16 ) );
		objs.push_back( p );
		p += 16;
		counts[p] = 0;
		record( name, p, 0 );
		tracking = true;
		return p;
	}
	objs.push_back( p );
	counts[p] = count;
	if( not from_replay( name, p, count * es ) ) {
		for( std::size_t i = 0; i < count; ++i ) {
			if( es <= 8 ) {
				std::uint64_t v = element( static_cast<unsigned>( es * 8 ) );
				std::memcpy( p + i * es, &v, es );
			} else {
				for( std::size_t k = 0; k < es; ++k ) {
					p[i * es + k] = static_cast<unsigned char>( rnd( ) );
				}
			}
		}
	}
	if( zt ) {
		std::memset( p + count * es, 0, es );
	}
	record( name, p, count * es );
	tracking = true;
	return p;
}
void vc_assume( bool b ) noexcept {
	if( not b ) {
		std::longjmp( jb, 1 );
	}
}
void vc_assert( bool b, char const *label ) noexcept {
	if( not b ) {
		fail( "postcondition violated", label );
	}
}
void vc_cover( char const * ) noexcept {}
void vc_ghost( std::uint64_t ) noexcept {}
void vc_pred( bool ) noexcept {}
void vc_hint0( bool ( * )( void * ), void * ) noexcept {}
void vc_hint1( bool ( * )( void *, std::uint64_t ), void * ) noexcept {}
void vc_hint2( bool ( * )( void *, std::uint64_t, std::uint64_t ), void * ) noexcept {}
void vc_hint_obj0( bool ( * )( void *, void * ), void *, std::size_t ) noexcept {}
void vc_hint_obj1( bool ( * )( void *, void *, std::uint64_t ), void *, std::size_t ) noexcept {}
void vc_hint_clear( ) noexcept {}
void vc_forall( bool ( *f )( void *, std::uint64_t ), void *ctx, void const *a ) noexcept {
	auto it = counts.find( a );
	if( it == counts.end( ) ) {
		return;
	}
	for( std::size_t j = 0; j < it->second; ++j ) {
		vc_assume( f( ctx, j ) );
	}
}
void vc_unroll( std::size_t ) noexcept {}
void vc_opt( char const *name, std::size_t on ) noexcept {
	if( std::strcmp( name, "terminate" ) == 0 and on != 0 ) {
		// the contract expects std::terminate: the run ends there, without a failure
		std::set_terminate( [] {
			std::set_terminate( std::abort );
			std::longjmp( jb, 1 );
		} );
	}
	if( std::strcmp( name, "abort" ) == 0 and on != 0 ) {
		std::signal( SIGABRT, []( int ) {
			std::signal( SIGABRT, SIG_DFL );
			std::longjmp( jb, 1 );
		} );
	}
}
bool vc_freed( void const *p ) noexcept {
	for( std::size_t i = nalloc; i-- > 0; ) {
		if( allocs[i].p == p ) {
			return not allocs[i].live;
		}
	}
	return false;
}
std::size_t vc_live_allocs( ) noexcept {
	return live;
}
}

static bool noleak = false;

static void run_one( Entry const &e, std::uint64_t seed ) {
	sh->seed = seed;
	rng = seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
	if( rng == 0 ) {
		rng = 1;
	}
	rnd( );
	rnd( );
	flavour = static_cast<int>( below( 8 ) );
	smallmax = below( 10 ) == 0 ? 70 : ( below( 3 ) == 0 ? 17 : 5 );
	pool.clear( );
	occ.clear( );
	nalloc = 0;
	live = 0;
	tracking = true;
	sh->runs = sh->runs + 1;
	std::set_terminate( std::abort );
	std::signal( SIGABRT, SIG_DFL );
	if( setjmp( jb ) == 0 ) {
		try {
			e.fn( );
		} catch( ... ) { fail( "exception", "an exception escapes the contract" ); }
		tracking = false;
		sh->valid = sh->valid + 1;
		if( live != 0 and not noleak ) {
			fail( "leak", "memory allocated by the operation is never released" );
		}
	} else {
		tracking = false;
		for( std::size_t i = 0; i < nalloc; ++i ) {
			if( allocs[i].live ) {
				std::free( allocs[i].p );
			}
		}
	}
	for( auto *p : objs ) {
		std::free( p );
	}
	objs.clear( );
	counts.clear( );
}

int main( int argc, char **argv ) {
	// native NAME SEED COUNT MILLISECONDS | native NAME --replay FILE
	if( argc >= 2 and std::strcmp( argv[1], "--list" ) == 0 ) {
		for( auto &e : registry( ) ) {
			std::puts( e.name );
		}
		return 0;
	}
	if( argc < 4 ) {
		return 2;
	}
	sh = static_cast<Shared *>( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
	Entry const *e = nullptr;
	for( auto &x : registry( ) ) {
		if( std::strcmp( x.name, argv[1] ) == 0 ) {
			e = &x;
		}
	}
	if( e == nullptr ) {
		return 2;
	}
	std::uint64_t seed = 1, count = 1, ms = 3000;
	if( std::strcmp( argv[2], "--replay" ) == 0 ) {
		replaying = true;
		std::FILE *f = std::fopen( argv[3], "r" );
		if( f == nullptr ) {
			return 2;
		}
		std::vector<char> line( 1u << 20 );
		while( std::fgets( line.data( ), static_cast<int>( line.size( ) ), f ) ) {
			char *v = line.data( );
			if( std::strncmp( v, "input ", 6 ) != 0 ) {
				continue;
			}
			v += 6;
			char *sp = std::strchr( v, ' ' );
			if( sp == nullptr ) {
				continue;
			}
			std::string n( v, sp );
			std::string h( sp + 1 );
			while( not h.empty( ) and ( h.back( ) == '\n' or h.back( ) == ' ' ) ) {
				h.pop_back( );
			}
			replay_vals[n].push_back( h );
		}
		std::fclose( f );
		ms = 10000;
	} else {
		seed = std::strtoull( argv[2], nullptr, 10 );
		count = std::strtoull( argv[3], nullptr, 10 );
		if( argc > 4 ) {
			ms = std::strtoull( argv[4], nullptr, 10 );
		}
	}
	bool const one = argc > 5; // print the inputs of this single seed
	pid_t pid = fork( );
	if( pid == 0 ) {
		struct rlimit rl {
			0, 0
		};
		setrlimit( RLIMIT_CORE, &rl );
		std::vector<std::string> tr;
		if( one ) {
			trace = &tr;
		}
		std::clock_t const t0 = std::clock( );
		for( std::uint64_t i = 0; i < count; ++i ) {
			if( one ) {
				tr.clear( );
			}
			alarm( 10 );
			run_one( *e, seed + i );
			if( ( i & 63U ) == 0 and static_cast<std::uint64_t>( ( std::clock( ) - t0 ) / ( CLOCKS_PER_SEC / 1000 ) ) > ms ) {
				break;
			}
		}
		_exit( 0 );
	}
	int stt = 0;
	waitpid( pid, &stt, 0 );
	bool const bad = not( WIFEXITED( stt ) and WEXITSTATUS( stt ) == 0 );
	if( not bad ) {
		std::printf( "OK runs=%llu valid=%llu\n", static_cast<unsigned long long>( sh->runs ), static_cast<unsigned long long>( sh->valid ) );
		return 0;
	}
	if( sh->failed ) {
		std::printf( "FAIL seed=%llu %s\n", static_cast<unsigned long long>( sh->seed ), sh->msg );
	} else if( WIFSIGNALED( stt ) and WTERMSIG( stt ) == SIGALRM ) {
		std::printf( "FAIL seed=%llu does not terminate within 10 s\n", static_cast<unsigned long long>( sh->seed ) );
	} else {
		std::printf( "FAIL seed=%llu crash (status %d, see sanitizer output)\n", static_cast<unsigned long long>( sh->seed ), stt );
	}
	return 1;
}
