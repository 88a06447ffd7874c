// An element type that checks its own lifetime: every constructor must run on
// storage without a live object it knows of, every other operation on a live
// object, and `live` counts the objects between construction and destruction.
#pragma once
#include "vc.h"
struct tracked {
	static inline int live = 0;
	static inline int moves = 0;
	static constexpr unsigned alive = 0x600DF00DU;
	static constexpr unsigned dead = 0xDEADBEEFU;
	int v;
	unsigned tag;
	tracked( int x = 0 ) noexcept
	  : v( x )
	  , tag( alive ) {
		++live;
	}
	tracked( tracked const &o ) noexcept
	  : v( o.v )
	  , tag( alive ) {
		VC_ENSURE( o.tag == alive, "copied from a live object" );
		++live;
	}
	tracked( tracked &&o ) noexcept
	  : v( o.v )
	  , tag( alive ) {
		VC_ENSURE( o.tag == alive, "moved from a live object" );
		++live;
	}
	tracked &operator=( tracked const &o ) noexcept {
		VC_ENSURE( tag == alive, "assigned to a live object" );
		VC_ENSURE( o.tag == alive, "assigned from a live object" );
		v = o.v;
		return *this;
	}
	tracked &operator=( tracked &&o ) noexcept {
		VC_ENSURE( tag == alive, "assigned to a live object" );
		VC_ENSURE( o.tag == alive, "assigned from a live object" );
		v = o.v;
		return *this;
	}
	~tracked( ) {
		VC_ENSURE( tag == alive, "destroyed once" );
		tag = dead;
		--live;
	}
	friend bool operator==( tracked const &a, tracked const &b ) { return a.v == b.v; }
	friend bool operator!=( tracked const &a, tracked const &b ) { return a.v != b.v; }
	friend bool operator<( tracked const &a, tracked const &b ) { return a.v < b.v; }
};
