// Contract language.  A contract function calls a real function of
// header_libraries on arbitrary arguments (vc::any...), states its precondition
// with vc::assume and its postcondition with VC_ENSURE.  The same text is
//  * compiled to LLVM IR together with the real headers and proved for all
//    inputs by /verif/irvc, and
//  * compiled with sanitizers (-DVC_NATIVE) to execute a counterexample on the
//    real code.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <utility>

extern "C" {
void vc_any_bytes( void *, std::size_t, char const * ) noexcept;
std::uint64_t vc_any_range( char const *, std::uint64_t lo, std::uint64_t hi, bool is_signed ) noexcept;
void *vc_any_obj( std::size_t count, std::size_t es, int zero_terminated, char const * ) noexcept;
void vc_assume( bool ) noexcept;
void vc_assert( bool, char const * ) noexcept;
void vc_cover( char const * ) noexcept;
void vc_ghost( std::uint64_t ) noexcept;
void vc_pred( bool ) noexcept;
void vc_hint0( bool ( * )( void * ), void * ) noexcept;
void vc_hint1( bool ( * )( void *, std::uint64_t ), void * ) noexcept;
void vc_hint2( bool ( * )( void *, std::uint64_t, std::uint64_t ), void * ) noexcept;
void vc_hint_obj0( bool ( * )( void *, void * ), void *, std::size_t ) noexcept;
void vc_hint_obj1( bool ( * )( void *, void *, std::uint64_t ), void *, std::size_t ) noexcept;
void vc_hint_clear( ) noexcept;
void vc_forall( bool ( * )( void *, std::uint64_t ), void *, void const * ) noexcept;
void vc_unroll( std::size_t ) noexcept;
void vc_opt( char const *, std::size_t ) noexcept;
bool vc_freed( void const * ) noexcept;
std::size_t vc_live_allocs( ) noexcept;
}

#define VC_CAT2( a, b ) a##b
#define VC_CAT( a, b ) VC_CAT2( a, b )
#define VC_STR2( x ) #x
#define VC_STR( x ) VC_STR2( x )

#ifdef VC_NATIVE
struct vc_registrar {
	vc_registrar( char const *, void ( * )( ) );
};
#define CONTRACT( name )                                             \
	extern "C" void contract_##name( );                                \
	static vc_registrar const vc_reg_##name{ #name, &contract_##name }; \
	extern "C" void contract_##name( )
#else
#define CONTRACT( name ) extern "C" void contract_##name( )
#endif

#define VC_ENSURE( cond, label ) vc_assert( static_cast<bool>( cond ), label )

namespace vc {
	template<typename T>
	inline T any( char const *name ) {
		if constexpr( std::is_same_v<T, bool> ) {
			std::uint8_t x;
			vc_any_bytes( &x, 1, name );
			return ( x & 1U ) != 0;
		} else {
			T x;
			vc_any_bytes( &x, sizeof( T ), name );
			return x;
		}
	}
	inline void assume( bool b ) {
		vc_assume( b );
	}
	inline std::size_t range( char const *name, std::size_t lo, std::size_t hi ) {
		return vc_any_range( name, lo, hi, false );
	}
	inline std::int64_t srange( char const *name, std::int64_t lo, std::int64_t hi ) {
		return static_cast<std::int64_t>(
		  vc_any_range( name, static_cast<std::uint64_t>( lo ), static_cast<std::uint64_t>( hi ), true ) );
	}
	// an arbitrary length; natively small
	inline std::size_t size( char const *name ) {
		return vc_any_range( name, 0, std::size_t{ 1 } << 36U, false );
	}
	template<typename T>
	inline T *array( std::size_t n, char const *name ) {
		return static_cast<T *>( vc_any_obj( n, sizeof( T ), 0, name ) );
	}
	// n elements followed by a zero
	template<typename T>
	inline T *zarray( std::size_t n, char const *name ) {
		return static_cast<T *>( vc_any_obj( n, sizeof( T ), 1, name ) );
	}
	// an arbitrary index below n (assumes n > 0)
	inline std::size_t index( char const *name, std::size_t n ) {
		vc_assume( n > 0 );
		return vc_any_range( name, 0, n - 1, false );
	}
	// the hints are the only candidate invariants
	inline void manual( bool on = true ) {
		vc_opt( "manual", on );
	}
	// candidate loop invariants: never assumed unless proved inductive
	template<typename F>
	inline void hint( F &f ) {
		if constexpr( std::is_invocable_v<F &, std::uint64_t, std::uint64_t> ) {
			vc_hint2( []( void *p, std::uint64_t a, std::uint64_t b ) -> bool { return ( *static_cast<F *>( p ) )( a, b ); }, &f );
		} else if constexpr( std::is_invocable_v<F &, std::uint64_t> ) {
			vc_hint1( []( void *p, std::uint64_t a ) -> bool { return ( *static_cast<F *>( p ) )( a ); }, &f );
		} else {
			vc_hint0( []( void *p ) -> bool { return ( *static_cast<F *>( p ) )( ); }, &f );
		}
	}
	// candidate invariants about a local object of type T inside the library
	template<typename T, typename F>
	inline void hint_obj( F &f ) {
		if constexpr( std::is_invocable_v<F &, T &, std::uint64_t> ) {
			vc_hint_obj1( []( void *p, void *o, std::uint64_t a ) -> bool { return ( *static_cast<F *>( p ) )( *static_cast<T *>( o ), a ); }, &f, sizeof( T ) );
		} else {
			vc_hint_obj0( []( void *p, void *o ) -> bool { return ( *static_cast<F *>( p ) )( *static_cast<T *>( o ) ); }, &f, sizeof( T ) );
		}
	}
	// precondition: f(j) for every index j of array a
	template<typename F>
	inline void forall( void const *a, F &f ) {
		vc_forall( []( void *p, std::uint64_t j ) -> bool { return ( *static_cast<F *>( p ) )( j ); }, &f, a );
	}
	// precondition: pred(p[j]) for every j < n
	template<typename T, typename F>
	inline void each( T *p, std::size_t n, F pred, T dflt ) {
#ifdef VC_NATIVE
		for( std::size_t i = 0; i < n; ++i ) {
			if( not pred( p[i] ) ) {
				p[i] = dflt;
			}
		}
#endif
		auto f = [&]( std::uint64_t j ) { return j >= n or pred( p[j] ); };
		forall( p, f );
		(void)dflt;
	}
	// a ghost variable that turns out to have this value
	template<typename T, typename U>
	inline void such_that( T &ghost, U const &value ) {
#ifdef VC_NATIVE
		ghost = static_cast<T>( value );
#else
		vc_assume( ghost == value );
#endif
	}
} // namespace vc
