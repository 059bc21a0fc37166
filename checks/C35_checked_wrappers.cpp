// C35: validated values, not-null pointers, contracts, ensure and the checking
// functions, range checked pointers, read-only values and reference wrappers.
// Oracle: the condition itself, evaluated on the plain value.
// nontrivial: both an accepted and a refused value were offered, or at least
// one rebinding / move happened.
// pbt-scale: 4
#include "pbt.h"
#include <array>
#include <cassert>
#include <cstdint>
#include <map>
#include <memory>
#include <optional>
#include <system_error>
#include "daw/daw_contract.h"
#include "daw/daw_ensure.h"
#include "daw/daw_exception.h"
#include "daw/daw_not_null.h"
#include "daw/daw_read_only.h"
#include "daw/daw_reference.h"
#include "daw/daw_rw_ref.h"
#include "daw/daw_safe_pointer.h"
#include "daw/daw_tracked_allocator.h"
#include "daw/daw_validated.h"
#include "daw/deprecated/daw_safe_string.h"
using namespace pbt;

// ---- validated ------------------------------------------------------------------
namespace {
	std::string st( auto v ) {
		return std::to_string( v );
	}
	struct InRange {
		static inline int lo = 0, hi = 0, calls = 0;
		bool operator( )( int v ) const {
			++calls;
			return lo <= v and v <= hi;
		}
	};
	struct EvenTracked {
		bool operator( )( Tracked const &t ) const {
			return t.v % 2 == 0;
		}
	};
	struct ShortText {
		bool operator( )( std::string const &t ) const {
			return t.size( ) % 3 != 2;
		}
	};
	enum class En : short { a = 0, b = 1, c = 5, d = -7 };
	struct IsEn {
		bool operator( )( short v ) const {
			return v == 0 or v == 1 or v == 5 or v == -7;
		}
	};
	struct Distinct {
		bool operator( )( std::array<int, 3> const &a ) const {
			return a[0] != a[1] and a[1] != a[2] and a[0] != a[2];
		}
	};
	struct NotNullUnique {
		bool operator( )( std::unique_ptr<int> const &p ) const {
			return p != nullptr;
		}
	};
} // namespace
PROP( validated_numbers, {} ) {
	using V = daw::validated<int, InRange>;
	InRange::lo = s.chance( 1, 6 ) ? INT_MIN : s.range<int>( -30, 10 );
	InRange::hi = s.chance( 1, 6 ) ? INT_MAX : s.range<int>( -10, 30 );
	auto ok = [&]( int v ) { return InRange::lo <= v and v <= InRange::hi; };
	auto gen = [&] { return s.chance( 1, 3 ) ? s.pick<int>( { InRange::lo, InRange::hi, int( unsigned( InRange::lo ) - 1u ), int( unsigned( InRange::hi ) + 1u ), INT_MIN, INT_MAX } ) : s.range<int>( -40, 40 ); };
	std::string log = st( InRange::lo ) + ".." + st( InRange::hi ) + ":";
	s.note( [&] { return log; } );
	std::optional<V> cur;
	int model = 0;
	bool good = false, bad = false;
	for( std::size_t n = 1 + s.len( 10 ); n > 0; --n ) {
		int v = gen( );
		log += " " + st( v );
		( ok( v ) ? good : bad ) = true;
		bool accepted = true;
		auto const op = cur ? s.draw( 4 ) : 0;
		if( op == 4 ) {
			v = short( v );
		}
		int const before = InRange::calls;
		try {
			if( op == 0 ) {
				V fresh( v );
				cur = fresh;
			} else if( op == 1 ) {
				int const cv = v;
				CHECK( &( *cur = cv ) == &*cur );
			} else if( op == 2 ) {
				int mv = v;
				CHECK( &( *cur = std::move( mv ) ) == &*cur );
			} else if( op == 3 ) {
				V fresh( std::in_place, v );
				*cur = std::move( fresh );
			} else {
				V other = short( v );
				V copy = other;
				*cur = copy;
			}
		} catch( std::out_of_range const & ) { accepted = false; }
		CHECK( InRange::calls > before );
		CHECK_EQ( accepted, ok( v ) );
		if( accepted ) {
			model = v;
		}
		if( cur ) {
			V const &c = *cur;
			CHECK_EQ( c.get( ), model );
			CHECK_EQ( *c, model );
			CHECK_EQ( static_cast<int const &>( c ), model );
			CHECK( c.operator->( ) == &c.get( ) );
			CHECK( ok( c.get( ) ) );
		}
	}
	if( good and bad ) {
		s.nontrivial( );
	}
}
PROP( validated_objects, ( { .leak = true } ) ) {
	using V = daw::validated<Tracked, EvenTracked>;
	int const v0 = s.range<int>( 0, 20 ) * 2;
	V a( std::in_place, v0 );
	int model = v0;
	bool refused = false;
	for( std::size_t n = s.len( 8 ); n > 0; --n ) {
		int const v = s.range<int>( 0, 50 );
		refused = refused or v % 2;
		Tracked t( v );
		switch( s.draw( 2 ) ) {
		case 0:
			try {
				a = t;
				CHECK( v % 2 == 0 );
				model = v;
			} catch( std::out_of_range const & ) { CHECK( v % 2 == 1 ); }
			CHECK_EQ( t.v, v );
			break;
		case 1:
			try {
				a = std::move( t );
				CHECK( v % 2 == 0 );
				model = v;
			} catch( std::out_of_range const & ) {
				CHECK( v % 2 == 1 );
				CHECK_EQ( t.v, v ); // a refused value stays where it was
			}
			break;
		default:
			try {
				V b( t );
				CHECK( v % 2 == 0 );
				V c = b;
				CHECK_EQ( c->v, v );
				a = std::move( c );
				model = v;
			} catch( std::out_of_range const & ) { CHECK( v % 2 == 1 ); }
		}
		CHECK_EQ( a.get( ).v, model );
	}
	if( refused ) {
		s.nontrivial( );
	}
	Tracked out = std::move( a ).get( );
	CHECK_EQ( out.v, model );
	// text, enumerations, arrays and move only values
	using S = daw::validated<std::string, ShortText>;
	auto const n = s.len( 12 );
	auto const sc = char( 'a' + s.draw( 3 ) );
	std::string const txt( n, sc );
	bool const sok = n % 3 != 2;
	auto expect = [&]( bool want, auto f ) {
		bool got = true;
		try {
			f( );
		} catch( std::out_of_range const & ) { got = false; }
		CHECK_EQ( got, want );
	};
	expect( sok, [&] { CHECK( S( txt ).get( ) == txt ); } );
	expect( sok, [&] { CHECK( S( txt.c_str( ) ).get( ) == txt ); } );
	expect( sok, [&] { CHECK( *S( std::in_place, n, sc ) == txt ); } );
	using E = daw::validated<En, IsEn>;
	short const ev = s.range<short>( -9, 9 );
	expect( IsEn{}( ev ), [&] { CHECK( E( ev ).get( ) == static_cast<En>( ev ) ); } );
	expect( IsEn{}( ev ), [&] { CHECK( E( static_cast<En>( ev ) ).get( ) == static_cast<En>( ev ) ); } );
	using A = daw::validated<std::array<int, 3>, Distinct>;
	int const x = s.range<int>( 0, 3 ), y = s.range<int>( 0, 3 ), z = s.range<int>( 0, 3 );
	expect( x != y and y != z and x != z, [&] {
		A arr( std::in_place, x, y, z );
		CHECK( ( arr.get( ) == std::array<int, 3>{ x, y, z } ) );
	} );
	using U = daw::validated<std::unique_ptr<int>, NotNullUnique>;
	bool const null = s.boolean( );
	auto up = null ? nullptr : std::make_unique<int>( x );
	expect( not null, [&] {
		U u( std::move( up ) );
		CHECK_EQ( **u, x );
		expect( false, [&] { u = std::unique_ptr<int>( ); } );
		CHECK_EQ( **u, x );
		auto back = std::move( u ).get( );
		CHECK_EQ( *back, x );
	} );
}

// ---- not_null -------------------------------------------------------------------
namespace {
	[[gnu::noinline]] int *opaque( int *p ) {
		asm volatile( "" : "+r"( p ) );
		return p;
	}
} // namespace
PROP( not_null_walk, {} ) {
	auto const n = 1 + s.len( 8 );
	std::vector<int> v( n );
	for( auto &e : v ) {
		e = s.range<int>( 0, 99 );
	}
	auto e = Exact<int>::from( v );
	int *const base = e.begin( );
	auto const N = std::ptrdiff_t( n );
	std::ptrdiff_t p = s.range<std::ptrdiff_t>( 0, N );
	auto it = s.boolean( ) ? daw::not_null<int *>( opaque( base + p ) ) : daw::not_null<int *>( daw::never_null, opaque( base + p ) );
	std::string log = st( p );
	s.note( [&] { return log; } );
	for( std::size_t k = 1 + s.len( 10 ); k > 0; --k ) {
		s.nontrivial( );
		auto const to = s.range<std::ptrdiff_t>( 0, N );
		auto const op = s.draw( 12 );
		log += " " + st( op ) + ":" + st( to );
		switch( op ) {
		case 0:
			if( p < N ) {
				CHECK( ( ++it ).get( ) == base + ++p );
			}
			break;
		case 1:
			if( p < N ) {
				CHECK( ( it++ ).get( ) == base + p++ );
			}
			break;
		case 2:
			if( p > 0 ) {
				CHECK( ( --it ).get( ) == base + --p );
			}
			break;
		case 3:
			if( p > 0 ) {
				CHECK( ( it-- ).get( ) == base + p-- );
			}
			break;
		case 4:
			CHECK( &( it += to - p ) == &it );
			p = to;
			break;
		case 5:
			CHECK( &( it -= int( p - to ) ) == &it );
			p = to;
			break;
		case 6:
			CHECK( ( it + ( to - p ) ).get( ) == base + to );
			CHECK( ( ( to - p ) + it ).get( ) == base + to );
			CHECK( ( it - ( p - to ) ).get( ) == base + to );
			break;
		case 7:
			it = opaque( base + to );
			p = to;
			break;
		case 8: {
			auto const o = daw::not_null( opaque( base + to ) );
			auto o2 = o;
			it = o2;
			p = to;
			break;
		}
		case 9: {
			auto const o = daw::not_null<int *>( opaque( base + to ) );
			int *const raw = base + to;
			auto cmp = [&]( auto const &l, auto const &r ) {
				CHECK_EQ( l == r, p == to );
				CHECK_EQ( l != r, p != to );
				CHECK_EQ( l < r, p < to );
				CHECK_EQ( l <= r, p <= to );
				CHECK_EQ( l > r, p > to );
				CHECK_EQ( l >= r, p >= to );
			};
			cmp( it, o );
			cmp( it, raw );
			cmp( base + p, o );
			CHECK_EQ( it - o, p - to );
			CHECK_EQ( std::hash<daw::not_null<int *>>{}( it ), std::hash<int *>{}( base + p ) );
			CHECK_EQ( it == o, std::hash<daw::not_null<int *>>{}( it ) == std::hash<daw::not_null<int *>>{}( o ) );
			break;
		}
		case 10:
			if( p < N ) {
				CHECK( &it[0] == base + p );
				CHECK( &it[to == N ? N - 1 - p : to - p] == base + ( to == N ? N - 1 : to ) );
				auto const c = it;
				CHECK_STATIC( std::is_same_v<decltype( *c ), int const &> );
				CHECK( &*c == base + p );
				CHECK( it.operator->( ) == base + p );
				*it += 7;
				v[std::size_t( p )] += 7;
			}
			break;
		default:
			if( s.chance( 1, 60 ) ) {
				s.label( "null refused" );
				auto const how = s.draw( 2 );
				CHECK( aborts( [&] {
					int *null = opaque( nullptr );
					if( how == 0 ) {
						daw::not_null<int *> q( null );
						(void)q;
					} else if( how == 1 ) {
						it = null;
					} else {
						auto q = daw::not_null( null );
						(void)q;
					}
				} ) );
			} else {
				CHECK( not false );
			}
		}
		CHECK( it.get( ) == base + p );
		int *raw = it;
		CHECK( raw == base + p );
		CHECK( std::equal( v.begin( ), v.end( ), base ) );
	}
}

// ---- safe_pointer ---------------------------------------------------------------
PROP( safe_pointer_walk, {} ) {
	using daw::memory::safe_pointer;
	auto const n = 1 + s.len( 8 );
	std::vector<int> v( n );
	for( auto &e : v ) {
		e = s.range<int>( 0, 99 );
	}
	auto e = Exact<int>::from( v );
	int *const base = e.begin( );
	auto const N = std::ptrdiff_t( n );
	std::ptrdiff_t p = 0;
	auto it = safe_pointer<int>( base, n );
	std::string log = st( N );
	s.note( [&] { return log; } );
	CHECK( static_cast<bool>( it ) );
	CHECK( it.get_base( ) == base and it.get_base_size( ) == n );
	for( std::size_t k = 1 + s.len( 10 ); k > 0; --k ) {
		s.nontrivial( );
		auto const to = s.range<std::ptrdiff_t>( 0, N );
		auto const op = s.draw( 11 );
		log += " " + st( op ) + ":" + st( to );
		switch( op ) {
		case 0:
			if( p < N ) {
				CHECK( ( ++it ).get( ) == base + ++p );
			}
			break;
		case 1:
			if( p < N ) {
				auto const old = it++;
				CHECK( old.get( ) == base + p++ );
			}
			break;
		case 2:
			if( p > 0 ) {
				CHECK( ( --it ).get( ) == base + --p );
			}
			break;
		case 3:
			if( p > 0 ) {
				auto const old = it--;
				CHECK( old.get( ) == base + p-- );
			}
			break;
		case 4:
			CHECK( &( it += to - p ) == &it );
			p = to;
			break;
		case 5:
			CHECK( &( it -= p - to ) == &it );
			p = to;
			break;
		case 6:
			CHECK( ( it + ( to - p ) ).get( ) == base + to );
			CHECK( ( it - ( p - to ) ).get( ) == base + to );
			break;
		case 7: {
			auto const o = safe_pointer<int>( base, n ) + to;
			CHECK_EQ( it == o, p == to );
			CHECK_EQ( it != o, p != to );
			CHECK_EQ( it < o, p < to );
			CHECK_EQ( it <= o, p <= to );
			CHECK_EQ( it > o, p > to );
			CHECK_EQ( it >= o, p >= to );
			CHECK_EQ( it - o, p - to );
			CHECK_EQ( it - ( base + to ), p - to );
			CHECK( not( it == nullptr ) and it != nullptr and not( nullptr == it ) and nullptr != it );
			break;
		}
		case 8: {
			auto c = static_cast<safe_pointer<int const>>( it );
			CHECK( c.get( ) == base + p and c.get_base( ) == base and c.get_base_size( ) == n );
			CHECK( c == it );
			CHECK_EQ( c - it, 0 );
			auto vp = static_cast<safe_pointer<void>>( it );
			CHECK( vp.get( ) == base + p and static_cast<bool>( vp ) );
			CHECK( static_cast<std::uintptr_t>( it ) == reinterpret_cast<std::uintptr_t>( base + p ) );
			CHECK( std::to_address( it ) == base + p );
			break;
		}
		case 9:
			if( p < N ) {
				CHECK( &*it == base + p );
				CHECK( it.operator->( ) == base + p );
				auto const t = to == N ? N - 1 : to;
				CHECK( &it[t - p] == base + t );
				*it += 3;
				v[std::size_t( p )] += 3;
			}
			break;
		case 10: {
			auto q = it;
			CHECK( q.destroy( ) == base );
			CHECK( not static_cast<bool>( q ) );
			CHECK( static_cast<bool>( it ) );
			if( s.chance( 1, 60 ) ) {
				CHECK( aborts( [&] { (void)*q; } ) );
			}
			break;
		}
		default:
			if( s.chance( 1, 20 ) ) {
				s.label( "leaving the range refused" );
				auto const how = s.draw( 6 );
				auto const far = s.range<std::ptrdiff_t>( 1, 5 );
				CHECK( aborts( [&] {
					switch( how ) {
					case 4:
						it += N - p;
						(void)&*it;
						break;
					case 5:
						(void)&it[N - p];
						break;
					case 0:
						it += N - p + far;
						break;
					case 1:
						it -= p + far;
						break;
					case 2:
						(void)( it + ( -p - far ) );
						break;
					case 3:
						for( std::ptrdiff_t i = 0; i < N - p + far; ++i ) {
							++it;
						}
						break;
					default:
						for( std::ptrdiff_t i = 0; i < p + far; ++i ) {
							--it;
						}
					}
				} ) );
			}
		}
		CHECK( it.get( ) == base + p );
		CHECK( it.get_base( ) == base and it.get_base_size( ) == n );
		CHECK( std::equal( v.begin( ), v.end( ), base ) );
	}
	int one = 5;
	auto single = safe_pointer<int>( &one );
	CHECK( &*single == &one and static_cast<bool>( single ) and single.get_base( ) == &one );
	auto none = safe_pointer<int>( nullptr );
	CHECK( not static_cast<bool>( none ) and none == nullptr and none.get( ) == nullptr );
	if( s.chance( 1, 400 ) ) {
		CHECK( aborts( [&] { (void)*none; } ) );
	}
}

// ---- tracked_allocator ----------------------------------------------------------
namespace {
	struct Heap {
		static inline std::map<void *, std::size_t> live{ };
		static inline std::size_t wrong = 0;
	};
	template<typename T>
	struct CountingAlloc {
		using value_type = T;
		T *allocate( std::size_t n ) {
			T *p = std::allocator<T>{ }.allocate( n );
			Heap::live[p] = n;
			return p;
		}
		void deallocate( T *p, std::size_t n ) {
			auto it = Heap::live.find( p );
			if( it == Heap::live.end( ) or it->second != n ) {
				++Heap::wrong;
				return;
			}
			Heap::live.erase( it );
			std::allocator<T>{ }.deallocate( p, n );
		}
		bool operator==( CountingAlloc const & ) const = default;
	};
} // namespace

PROP( tracked_allocations, {} ) {
	using A = daw::memory::tracked_allocator<Tracked, CountingAlloc<Tracked>>;
	auto const live0 = g_live;
	Heap::live.clear( );
	Heap::wrong = 0;
	struct Block {
		A::pointer p;
		std::vector<std::optional<int>> m;
	};
	A a{ };
	std::vector<Block> blocks;
	std::string log;
	s.note( [&] { return log; } );
	auto const destroy_all = [&]( Block &b ) {
		for( std::size_t i = 0; i < b.m.size( ); ++i ) {
			if( b.m[i] ) {
				auto q = b.p + std::ptrdiff_t( i );
				a.destroy( q );
				b.m[i].reset( );
			}
		}
	};
	for( std::size_t k = 1 + s.len( 14 ); k > 0; --k ) {
		auto const op = s.draw( 6 );
		auto const n = s.below( 5 ) + 1;
		log += " " + st( op ) + ":" + st( n );
		if( op == 0 or blocks.empty( ) ) {
			auto p = a.allocate( n );
			CHECK( static_cast<bool>( p ) );
			CHECK_EQ( p.get_base_size( ), n );
			CHECK( p.get( ) == p.get_base( ) );
			CHECK( Heap::live.count( p.get( ) ) == 1 and Heap::live[p.get( )] == n );
			blocks.push_back( { p, std::vector<std::optional<int>>( n ) } );
			continue;
		}
		s.nontrivial( );
		auto const bi = s.below( blocks.size( ) );
		auto &b = blocks[bi];
		auto const i = s.below( b.m.size( ) );
		auto q = b.p + std::ptrdiff_t( i );
		switch( op ) {
		case 1:
		case 2:
			if( not b.m[i] ) {
				auto const v = s.range<int>( 0, 99 );
				a.construct( q, v );
				b.m[i] = v;
			}
			break;
		case 3:
			if( b.m[i] ) {
				a.destroy( q );
				b.m[i].reset( );
			}
			break;
		case 4: {
			destroy_all( b );
			auto *const raw = b.p.get( );
			a.deallocate( b.p, b.m.size( ) );
			CHECK( not static_cast<bool>( b.p ) );
			CHECK_EQ( Heap::live.count( raw ), 0u );
			if( s.chance( 1, 40 ) ) {
				auto dead = b.p;
				auto const sz = b.m.size( );
				CHECK( aborts( [&] { a.deallocate( dead, sz ); } ) );
				CHECK( aborts( [&] { a.construct( dead, 1 ); } ) );
			}
			blocks.erase( blocks.begin( ) + std::ptrdiff_t( bi ) );
			break;
		}
		default:
			if( i > 0 and s.chance( 1, 20 ) ) {
				s.label( "freeing an inner pointer refused" );
				auto const sz = b.m.size( );
				CHECK( aborts( [&] { a.deallocate( q, sz ); } ) );
			}
		}
		std::size_t want = 0;
		for( auto &x : blocks ) {
			for( std::size_t j = 0; j < x.m.size( ); ++j ) {
				if( x.m[j] ) {
					++want;
					CHECK_EQ( x.p[std::ptrdiff_t( j )].v, *x.m[j] );
				}
			}
		}
		CHECK_EQ( g_live - live0, long( want ) );
		CHECK_EQ( Heap::live.size( ), blocks.size( ) );
	}
	for( auto &b : blocks ) {
		destroy_all( b );
		a.deallocate( b.p, b.m.size( ) );
	}
	CHECK( Heap::live.empty( ) );
	CHECK_EQ( Heap::wrong, 0u );
	CHECK_EQ( g_live, live0 );
}

// ---- safe strings ---------------------------------------------------------------
PROP( safe_strings, { .cases = 4000 } ) {
	auto const text = [&] {
		std::string r( s.len( 12 ), 'x' );
		for( auto &c : r ) {
			c = s.pick( { 'a', '<', '>', '\0', 'b' } );
		}
		return r;
	};
	static std::size_t calls = 0;
	struct Clean {
		std::string operator( )( std::string t ) const {
			++calls;
			std::erase( t, '<' );
			return t;
		}
	};
	Clean clean{ };
	auto const cleaned = []( std::string t ) {
		std::erase( t, '<' );
		return t;
	};
	std::string raw = text( );
	s.note( [&] { return raw; } );
	auto v = s.boolean( ) ? daw::make_safe_string( raw, clean ) : daw::safe_string<Clean>( raw, clean );
	for( std::size_t k = s.len( 5 ); k > 0; --k ) {
		s.nontrivial( );
		switch( s.draw( 3 ) ) {
		case 0: {
			raw = text( );
			auto w = daw::make_safe_string( raw.c_str( ), clean );
			raw = raw.c_str( );
			CHECK_EQ( w.get( ), cleaned( raw ) );
			CHECK_EQ( w.unsafe_get( ), raw );
			auto x = w;
			v = std::move( w );
			CHECK_EQ( x.get( ), cleaned( raw ) );
			break;
		}
		default: {
			auto const before = calls;
			CHECK_EQ( v.get( ), cleaned( raw ) );
			CHECK_EQ( static_cast<std::string>( v ), cleaned( raw ) );
			CHECK_EQ( v.unsafe_get( ), raw );
			CHECK_EQ( calls - before, 2u );
		}
		}
	}
	struct Upper {
		std::string operator( )( std::string t ) const {
			for( auto &c : t ) {
				c = c == 'a' ? 'A' : c;
			}
			return t;
		}
	};
	auto up = daw::make_safe_string( raw, Upper{ } );
	raw = text( );
	up = raw;
	CHECK_EQ( up.get( ), Upper{ }( raw ) );
	CHECK_EQ( daw::safe_string<Upper>( raw ).get( ), Upper{ }( raw ) );
}

// ---- contract -------------------------------------------------------------------
namespace {
	struct Min {
		static inline int v = 0;
		bool operator( )( int x ) const {
			return x >= v;
		}
	};
	struct Max {
		static inline int v = 0;
		bool operator( )( int x ) const {
			return x <= v;
		}
	};
	struct NotMultiple {
		static inline int v = 2;
		bool operator( )( int x ) const {
			return x % v != 0;
		}
	};
	struct PtrSet {
		bool operator( )( int const *p ) const {
			return p != nullptr;
		}
	};
	struct Seen {
		int v;
	};
} // namespace
PROP( contracts, {} ) {
	Min::v = s.range<int>( -20, 10 );
	Max::v = s.range<int>( -10, 20 );
	NotMultiple::v = s.range<int>( 1, 4 );
	int const x = s.range<int>( -25, 25 );
	bool const a = x >= Min::v, b = x <= Max::v, c = x % NotMultiple::v != 0;
	s.note( [&] { return st( Min::v ) + " " + st( Max::v ) + " " + st( NotMultiple::v ) + " x " + st( x ); } );
	if( a != b or b != c ) {
		s.nontrivial( );
	}
	auto expect = [&]( bool want, auto f ) {
		bool got = true;
		try {
			f( );
		} catch( daw::daw_contract_violation const & ) { got = false; }
		CHECK_EQ( got, want );
	};
	auto value_ok = [&]( auto const &k ) {
		CHECK_EQ( k.get( ), x );
		CHECK_EQ( *k, x );
		CHECK_EQ( static_cast<int const &>( k ), x );
		CHECK( k.operator->( ) == &k.get( ) );
	};
	expect( true, [&] { value_ok( daw::contract<int>( x ) ); } );
	expect( a, [&] { value_ok( daw::contract<int, Min>( x ) ); } );
	expect( a and b, [&] { value_ok( daw::contract<int, Min, Max>( x ) ); } );
	expect( a and b and c, [&] { value_ok( daw::contract<int, NotMultiple, Min, Max>( x ) ); } );
	expect( c, [&] {
		daw::contract<int, NotMultiple> k( x );
		expect( c and a, [&] { value_ok( k.add_condition( Min{} ) ); } );
		expect( c and a and b, [&] { value_ok( k.add_condition( Min{}, Max{} ) ); } );
		expect( b, [&] { value_ok( static_cast<daw::contract<int, Max>>( k ) ); } );
		using more = decltype( k )::add_precondition_t<Max>;
		expect( c and b, [&] { value_ok( more( x ) ); } );
		CHECK_EQ( k.extract( ), x );
	} );
	int target = x;
	int *ptr = s.boolean( ) ? &target : nullptr;
	expect( ptr != nullptr, [&] {
		daw::contract<int *, PtrSet> k( ptr );
		CHECK( k.get( ) == &target and k.operator->( ) == &target );
	} );
	// a replaced handler is the one that is called
	auto const old = daw::contract_failure_handler;
	auto handler = [&]( ) { throw Seen{ x }; };
	daw::contract_failure_handler = handler;
	bool seen = false;
	try {
		daw::contract<int, Min> k( x );
		CHECK_EQ( k.get( ), x );
	} catch( Seen const &e ) {
		seen = true;
		CHECK_EQ( e.v, x );
	}
	daw::contract_failure_handler = old;
	CHECK_EQ( seen, not a );
	expect( a, [&] { value_ok( daw::contract<int, Min>( x ) ); } );
}

// ---- the checking functions -------------------------------------------------------
namespace {
	struct Custom {
		int code;
		std::string text;
	};
	struct NoDefault {
		std::string t;
		explicit NoDefault( char const *p )
		  : t( p ) {}
	};
} // namespace
PROP( checking_functions, {} ) {
	using namespace daw::exception;
	bool const t = s.boolean( );
	int x = s.range<int>( -5, 5 );
	std::string const msg = "m" + st( x );
	int *const p = t ? &x : nullptr;
	int const *const cp = p;
	s.nontrivial( );
	// f must throw an E carrying the message when `want`
	auto expect = [&]<typename E>( E *, bool want, auto f ) {
		bool got = false;
		try {
			f( );
		} catch( E const &ex ) {
			got = true;
			CHECK_EQ( std::string( ex.what( ) ), msg );
		}
		CHECK_EQ( got, want );
	};
	std::runtime_error *rt = nullptr;
	std::logic_error *le = nullptr;
	expect( rt, not t, [&] { daw_throw_on_false( t, msg ); } );
	expect( le, not t, [&] { daw_throw_on_false<std::logic_error>( t, msg ); } );
	expect( rt, t, [&] { daw_throw_on_true( t, msg ); } );
	expect( le, t, [&] { daw_throw_on_true<std::logic_error>( t, msg ); } );
	expect( rt, not t, [&] { dbg_throw_on_false( t, msg ); } );
	expect( rt, t, [&] { dbg_throw_on_true( t, msg ); } );
	expect( rt, not t, [&] { DebugAssert( t, msg ); } );
	expect( rt, not t, [&] { Assert( t, msg ); } );
	expect( rt, not t, [&] { daw_throw_on_null( p, msg ); } );
	expect( rt, not t, [&] { daw_throw_on_null( cp, msg ); } );
	expect( rt, not t, [&] { dbg_throw_on_null( p, msg ); } );
	expect( rt, not t, [&] { CHECK( dbg_throw_on_null_or_return( p, msg ) == &x ); } );
	expect( rt, not t, [&] { CHECK( daw_throw_on_null_or_return( p, msg ) == &x ); } );
	expect( rt, not t, [&] { CHECK_EQ( daw_throw_on_false_or_return( x, bool( t ), msg ), x ); } );
	expect( rt, not t, [&] { CHECK_EQ( dbg_throw_on_false_or_return( x, bool( t ), msg ), x ); } );
	expect( rt, not t, [&] { CHECK( dbg_throw_on_false_or_return( t, msg ) ); } );
	expect( rt, t, [&] { CHECK_EQ( daw_throw_on_true_or_return( 5, bool( t ), msg ), 5 ); } );
	expect( rt, t, [&] { CHECK( &dbg_throw_on_true_or_return( x, bool( t ), msg ) == &x ); } );
	expect( rt, t, [&] { CHECK( not dbg_throw_on_true_or_return( t, msg ) ); } );
	expect( le, not t, [&] { precondition_check<std::logic_error>( t, msg ); } );
	expect( le, not t, [&] { postcondition_check<std::logic_error>( t, msg ); } );
	expect( le, true, [&] { daw_throw<std::logic_error>( msg ); } );
	expect( (std::length_error *)nullptr, true, [&] { throw_length_error( msg ); } );
	expect( (std::out_of_range *)nullptr, true, [&] { throw_out_of_range( msg ); } );
	expect( rt, true, [&] { debug_throw( msg ); } );
	// without a message
	auto plain = [&]( bool want, auto f ) {
		bool got = false;
		try {
			f( );
		} catch( std::runtime_error const & ) { got = true; }
		CHECK_EQ( got, want );
	};
	plain( not t, [&] { daw_throw_on_false( t ); } );
	plain( t, [&] { daw_throw_on_true( bool( t ) ); } );
	plain( not t, [&] { dbg_throw_on_false( t ); } );
	plain( true, [&] { daw_throw( ); } );
	plain( true, [&] { daw_throw_not_implemented( ); } );
	plain( true, [&] { daw_throw_unexpected_enum( ); } );
	CHECK_THROWS( NoDefault, daw_throw<NoDefault>( ) );
	try {
		daw_throw<Custom>( x, msg );
	} catch( Custom const &c ) { CHECK( c.code == x and c.text == msg ); }
	auto const ec = t ? std::error_code( ) : std::make_error_code( std::errc::io_error );
	bool got = false;
	try {
		daw_throw_value_on_true( std::error_code( ec ) );
	} catch( std::error_code const &e ) { got = e == ec; }
	CHECK_EQ( got, not t );
	got = false;
	try {
		daw_throw_value_on_false( std::error_code( ec ) );
	} catch( std::error_code const &e ) { got = e == ec; }
	CHECK_EQ( got, t );
	// every element
	std::vector<int> v;
	for( std::size_t n = s.len( 6 ); n > 0; --n ) {
		v.push_back( s.range<int>( 0, 4 ) );
	}
	bool const any = std::find( v.begin( ), v.end( ), 2 ) != v.end( );
	bool const all = std::all_of( v.begin( ), v.end( ), []( int e ) { return e == 2; } );
	expect( rt, any, [&] { assert_all_false( v, msg, []( int e ) { return e == 2; } ); } );
	expect( rt, not all, [&] { assert_all_true( v, msg, []( int e ) { return e == 2; } ); } );
	// swallowing and carrying exceptions
	int calls = 0;
	no_exception(
	  [&]( int const &q ) {
		  CHECK( q == x );
		  ++calls;
		  if( t ) {
			  throw 5;
		  }
	  },
	  x );
	CHECK_EQ( calls, 1 );
	auto ep = daw::exception::make_exception_ptr<std::logic_error>( msg );
	expect( le, true, [&] { std::rethrow_exception( ep ); } );
	// the checks that end the program
	if( s.chance( 1, 100 ) ) {
		switch( s.draw( 4 ) ) {
		case 0:
			CHECK_EQ( aborts( [&] { precondition_check( t, msg ); } ), not t );
			break;
		case 1:
			CHECK_EQ( aborts( [&] { postcondition_check( t, msg ); } ), not t );
			break;
		case 2:
			CHECK_EQ( aborts( [&] { dbg_precondition_check( t, msg ); } ), not t );
			CHECK_EQ( aborts( [&] { dbg_postcondition_check( t, msg ); } ), not t );
			break;
		case 3:
			CHECK_EQ( aborts( [&] { daw_ensure( x < 0 ); } ), not( x < 0 ) );
			break;
		default:
			CHECK_EQ( aborts( [&] { daw_dbg_ensure( t and x < 9 ); } ), not t );
		}
	}
	// accepted conditions are evaluated once
	int evals = 0;
	daw_ensure( ++evals > 0 );
	CHECK_EQ( evals, 1 );
}

KNOWN( throw_on_false_or_return_message, "daw_throw_on_false_or_return( test, message ) treats the message as the test" ) {
	bool thrown = false;
	try {
		(void)daw::exception::daw_throw_on_false_or_return( false, "message" );
	} catch( std::runtime_error const & ) { thrown = true; }
	return not thrown;
}

// ---- read_only and rw_ref -----------------------------------------------------------
namespace {
	struct Account {
		daw::read_only<int, Account> balance{ 0 };
		daw::read_only<std::string, Account> name;
		void set( int b, std::string n ) {
			balance = b;
			name = std::move( n );
		}
		void add( int d ) {
			balance.value += d;
		}
	};
	template<typename T, typename V>
	concept writes_through = requires( T &t, V v ) { t.get( ) = v; };
} // namespace
PROP( read_only_values, ( { .leak = true } ) ) {
	CHECK_STATIC( not std::is_copy_assignable_v<daw::read_only<int>> );
	CHECK_STATIC( not std::is_assignable_v<daw::read_only<int> &, int> );
	CHECK_STATIC( not std::is_assignable_v<daw::read_only<std::string> &, std::string> );
	CHECK_STATIC( not writes_through<daw::read_only<int>, int> );
	CHECK_STATIC( not writes_through<daw::rw_ref<int> const, int> );
	CHECK_STATIC( writes_through<daw::rw_ref<int>, int> );
	Account a;
	CHECK_EQ( a.balance.get( ), 0 );
	int model = 0;
	std::string name;
	for( std::size_t n = s.len( 8 ); n > 0; --n ) {
		s.nontrivial( );
		int const d = s.range<int>( -50, 50 );
		switch( s.draw( 2 ) ) {
		case 0:
			model = d;
			name = std::string( std::size_t( d + 50 ), 'x' );
			a.set( model, name );
			break;
		case 1:
			a.add( d );
			model += d;
			break;
		default: {
			Account b = a;
			b.add( 1 );
			CHECK_EQ( b.balance.get( ), model + 1 );
			if( s.boolean( ) ) {
				CHECK( b.name.get( ) == name );
				Account c = std::move( b );
				CHECK_EQ( c.balance.get( ), model + 1 );
				CHECK( c.name.get( ) == name );
			}
		}
		}
		int const &i = a.balance;
		CHECK_EQ( i, model );
		CHECK( &i == &a.balance.get( ) );
		std::string const &t = a.name;
		CHECK( t == name and &t == &a.name.get( ) );
	}
	daw::read_only<Tracked> r( Tracked( 7 ) ), r2 = r;
	CHECK( r.get( ).v == 7 and r2.get( ).v == 7 );
	CHECK_EQ( std::move( r2 ).get( ).v, 7 );
	CHECK_EQ( r2.get( ).v, 7 );
}
PROP( rw_ref_rebinding, {} ) {
	std::array<int, 4> v{ 10, 20, 30, 40 }, m = v;
	std::size_t at = s.below( 4 ), at2 = s.below( 4 );
	auto r = daw::rw_ref<int>( v[at] );
	auto r2 = daw::rw_ref( v[at2] );
	CHECK_STATIC( std::is_same_v<decltype( r2 ), daw::rw_ref<int>> );
	std::string log = st( at ) + "," + st( at2 );
	s.note( [&] { return log; } );
	for( std::size_t n = 1 + s.len( 10 ); n > 0; --n ) {
		s.nontrivial( );
		auto const k = s.below( 4 );
		int const x = s.range<int>( 0, 99 );
		auto const op = s.draw( 6 );
		log += " " + st( op ) + ":" + st( k );
		switch( op ) {
		case 0:
			CHECK( &( r = v[k] ) == &r );
			at = k;
			break;
		case 1:
			r = r2;
			at = at2;
			break;
		case 2:
			r.get( ) = x;
			m[at] = x;
			break;
		case 3:
			r( ) = x;
			m[at] = x;
			break;
		case 4: {
			int &ref = r2;
			ref = x;
			m[at2] = x;
			break;
		}
		case 5:
			v[k] = x;
			m[k] = x;
			break;
		default:
			std::swap( r, r2 );
			std::swap( at, at2 );
		}
		CHECK( v == m );
		auto const &c = r;
		CHECK( &r.get( ) == &v[at] and &c.get( ) == &v[at] and &c( ) == &v[at] and &r2.get( ) == &v[at2] );
		int const &cref = c;
		CHECK( &cref == &v[at] );
		CHECK_STATIC( std::is_same_v<decltype( c.get( ) ), int const &> );
		CHECK_STATIC( std::is_same_v<decltype( r.get( ) ), int &> );
	}
	daw::rw_ref<int const> cr( v[0] );
	CHECK( &cr.get( ) == &v[0] );
}

namespace {
	// an iterator that gives up when asked more often than a walk needs
	struct Patient {
		using iterator_category = std::forward_iterator_tag;
		using value_type = int;
		using difference_type = std::ptrdiff_t;
		using pointer = int const *;
		using reference = int const &;
		int const *p = nullptr;
		int *left = nullptr;
		reference operator*( ) const {
			return *p;
		}
		Patient &operator++( ) {
			++p;
			return *this;
		}
		Patient operator++( int ) {
			return Patient{ p++, left };
		}
		friend bool operator==( Patient const &a, Patient const &b ) {
			CHECK( --*a.left >= 0 );
			return a.p == b.p;
		}
	};
} // namespace
PROP( references, {} ) {
	std::vector<int> v( s.draw( 7 ) );
	for( int &x : v ) {
		x = s.range<int>( 0, 5 );
	}
	s.nontrivial( v.size( ) > 1 );
	int left = int( v.size( ) ) * 2 + 4;
	auto const r = daw::to_reference_vector( Patient{ v.data( ), &left }, Patient{ v.data( ) + v.size( ), &left } );
	CHECK_EQ( r.size( ), v.size( ) );
	for( int round = 0; round < 2; ++round ) {
		for( std::size_t i = 0; i < v.size( ); ++i ) {
			CHECK( &*r[i] == &v[i] and &r[i].get( ) == &v[i] );
			auto const one = daw::ref( v[i] );
			CHECK( &*one == &v[i] );
			CHECK( &*daw::ref( static_cast<int const *>( &v[i] ) ) == &v[i] );
			for( std::size_t k = 0; k < v.size( ); ++k ) {
				CHECK_EQ( r[i] == r[k], v[i] == v[k] );
				CHECK_EQ( r[i] != r[k], v[i] != v[k] );
				CHECK_EQ( r[i] < r[k], v[i] < v[k] );
				CHECK_EQ( r[i] <= r[k], v[i] <= v[k] );
				CHECK_EQ( r[i] > r[k], v[i] > v[k] );
				CHECK_EQ( r[i] >= r[k], v[i] >= v[k] );
			}
			v[i] = s.range<int>( 0, 5 ); // the references follow
		}
	}
}
