// C06: keyed containers against std::map / std::set under long histories with
// few buckets, colliding hashes and full tables.
// nontrivial: a key was erased while another key with the same hash was
// present, or an operation ran on a full table.
// pbt-flags: -DNDEBUG -Wno-deprecated-declarations
// pbt-scale: 4
#include "pbt.h"
#include <array>
#include <cmath>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>

#include "daw/daw_fnv1a_hash.h"
#include "daw/daw_hash_set.h"
#include "daw/deprecated/daw_bounded_hash_map.h"
#include "daw/deprecated/daw_bounded_hash_set.h"
#include "daw/deprecated/daw_fixed_lookup.h"
#include "daw/deprecated/daw_ordered_map.h"
using namespace pbt;

namespace {
	std::string ks( int k ) {
		return "key-number-" + std::to_string( k );
	}
	template<typename K>
	K mk( int k ) {
		if constexpr( std::is_same_v<K, std::string> ) {
			return ks( k );
		} else {
			return K( k );
		}
	}
	int un( int k ) {
		return k;
	}
	int un( std::string const &s ) {
		return std::stoi( s.substr( 11 ) );
	}
	int un( TrackedPlain const &t ) {
		t.chk( "reading a dead element" );
		return t.v;
	}
	template<unsigned M>
	struct Mod {
		std::size_t operator( )( int k ) const {
			return static_cast<unsigned>( k ) % M;
		}
		std::size_t operator( )( std::string const &k ) const {
			return static_cast<unsigned>( un( k ) ) % M;
		}
	};
	template<typename H, typename K>
	bool collides( std::set<int> const &m, int k ) {
		for( int o : m ) {
			if( o != k and H{ }( mk<K>( o ) ) == H{ }( mk<K>( k ) ) ) {
				return true;
			}
		}
		return false;
	}

	// iterators and const iterators compare by position in every combination
	template<typename C>
	void mixed( C &c ) {
		C const &cc = c;
		auto i = c.begin( );
		auto ci = cc.begin( );
		typename C::const_iterator conv = i;
		CHECK( conv == ci and not( conv != ci ) );
		while( true ) {
			bool const last = i == c.end( );
			CHECK( i == ci and ci == i and not( i != ci ) and not( ci != i ) );
			CHECK_EQ( ci == cc.end( ), last );
			CHECK_EQ( ci == c.end( ), last );
			CHECK_EQ( i == cc.end( ), last );
			CHECK_EQ( i != cc.end( ), not last );
			CHECK_EQ( cc.end( ) != i, not last );
			CHECK_EQ( c.end( ) == ci, last );
			CHECK_EQ( c.end( ) != i, not last );
			if( last ) {
				break;
			}
			auto o = ci;
			++i;
			CHECK( i != o and o != i and not( i == o ) and not( o == i ) );
			++ci;
		}
	}

	// ---- hash_set_t -----------------------------------------------------------
	template<typename K, typename H>
	void hash_set( Src &s ) {
		std::size_t const cap = s.pick( { std::size_t{ 0 }, std::size_t{ 1 }, std::size_t{ 2 }, std::size_t{ 3 },
		                                  std::size_t{ 5 }, std::size_t{ 8 }, s.chance( 1, 60 ) ? std::size_t{ 300 } : std::size_t{ 13 } } );
		auto c = std::make_unique<daw::hash_set_t<K, H>>( cap );
		std::set<int> m;
		int const U = static_cast<int>( cap ) + 1 + static_cast<int>( s.below( 6 ) );
		std::size_t const n = s.len( cap > 100 ? 2 * cap : 60 );
		bool full_throw = false;
		for( std::size_t i = 0; i < n; ++i ) {
			int const k = static_cast<int>( s.below( static_cast<std::size_t>( U ) ) );
			switch( s.weighted( { 10, 8, 2, 1 } ) ) {
			case 0: {
				s.note( [&] { return "insert " + std::to_string( k ); } );
				if( m.size( ) == cap and not m.contains( k ) ) {
					s.nontrivial( );
					full_throw = true;
					break;
				}
				auto const idx = c->insert( mk<K>( k ) );
				CHECK( idx < cap );
				m.insert( k );
				break;
			}
			case 1: {
				s.note( [&] { return "erase " + std::to_string( k ); } );
				bool const had = m.contains( k );
				s.nontrivial( had and ( collides<H, K>( m, k ) or m.size( ) == cap ) );
				auto const r = c->erase( mk<K>( k ) );
				CHECK_EQ( r.has_value( ), had );
				if( r ) {
					CHECK( *r < cap );
				}
				m.erase( k );
				break;
			}
			case 2: {
				s.note( [&] { return std::string( "copy and diverge" ); } );
				auto d = *c;
				if( m.size( ) < cap ) {
					d.insert( mk<K>( k ) );
				} else {
					(void)d.erase( mk<K>( k ) );
				}
				break;
			}
			default: {
				s.note( [&] { return std::string( "move" ); } );
				auto d = std::make_unique<daw::hash_set_t<K, H>>( std::move( *c ) );
				c = std::move( d );
			}
			}
			CHECK_EQ( c->size( ), m.size( ) );
			CHECK_EQ( c->capacity( ), cap );
			for( int j = 0; j < U; ++j ) {
				bool const has = m.contains( j );
				CHECK_EQ( c->exists( mk<K>( j ) ), has );
				CHECK_EQ( c->count( mk<K>( j ) ), std::size_t( has ) );
			}
		}
		if( full_throw and m.size( ) == cap ) {
			for( int j = 0; j < U; ++j ) {
				if( not m.contains( j ) ) {
					CHECK_THROWS( std::out_of_range, c->insert( mk<K>( j ) ) );
					break;
				}
			}
			CHECK_EQ( c->size( ), m.size( ) );
		}
	}
	PROP_T( hash_set_int_std, ( hash_set<int, std::hash<int>> ), { .cases = 12000 } );
	PROP_T( hash_set_int_mod3, ( hash_set<int, Mod<3>> ), { .cases = 20000 } );
	PROP_T( hash_set_string_mod2, ( hash_set<std::string, Mod<2>> ), { .cases = 8000 } );

	// ---- bounded_hash_map -------------------------------------------------------
	template<typename C, typename H, typename K>
	void map_same( C &c, std::map<int, int> const &m, int U ) {
		C const &cc = c;
		CHECK_EQ( c.size( ), m.size( ) );
		CHECK_EQ( static_cast<bool>( c.empty( ) ), m.empty( ) );
		mixed( c );
		std::map<int, int> got;
		std::size_t n = 0;
		std::vector<int> order;
		for( auto it = c.begin( ); it != c.end( ); ++it ) {
			got[un( it->key )] = it->value;
			order.push_back( un( ( *it ).key ) );
			CHECK( ++n <= m.size( ) );
		}
		CHECK( got == m );
		CHECK_EQ( n, m.size( ) );
		std::vector<int> order2;
		for( auto it = cc.begin( ); it != cc.end( ); it++ ) {
			order2.push_back( un( it->key ) );
			CHECK( it != cc.cend( ) );
		}
		CHECK( order == order2 );
		order2.clear( );
		for( auto it = cc.cend( ); order2.size( ) < n; ) {
			--it;
			order2.insert( order2.begin( ), un( it->key ) );
			CHECK_EQ( it == cc.cbegin( ), order2.size( ) == n );
		}
		CHECK( order == order2 );
		order2.clear( );
		for( auto it = c.end( ); order2.size( ) < n; ) {
			it--;
			order2.insert( order2.begin( ), un( ( *it ).key ) );
		}
		CHECK( order == order2 );
		for( int j = 0; j < U; ++j ) {
			auto const k = mk<K>( j );
			auto f = m.find( j );
			bool const has = f != m.end( );
			CHECK_EQ( c.exists( k ), has );
			CHECK_EQ( c.count( k ), std::size_t( has ) );
			CHECK_EQ( c.find( k ) != c.end( ), has );
			CHECK_EQ( cc.find( k ) != cc.end( ), has );
			auto o = cc.try_get( k );
			CHECK_EQ( static_cast<bool>( o ), has );
			if( has ) {
				CHECK_EQ( o.value( ), f->second );
				CHECK_EQ( c.find( k )->value, f->second );
				CHECK_EQ( cc.find( k )->value, f->second );
				CHECK_EQ( un( cc.find( k )->key ), j );
				CHECK_EQ( cc[k], f->second );
			}
		}
	}
	template<typename K, std::size_t N, typename H>
	void hash_map( Src &s ) {
		using C = daw::bounded_hash_map<K, int, N, H>;
		auto c = std::make_unique<C>( );
		std::map<int, int> m;
		int const U = static_cast<int>( N ) + 1 + static_cast<int>( s.below( 4 ) );
		if( s.chance( 1, 4 ) ) {
			std::vector<std::pair<K, int>> init;
			std::size_t n = s.below( N + 1 );
			for( std::size_t i = 0; i < n; ++i ) {
				int k = static_cast<int>( s.below( static_cast<std::size_t>( U ) ) );
				init.emplace_back( mk<K>( k ), static_cast<int>( i ) );
				m[k] = static_cast<int>( i );
			}
			s.note( [&] { return "range construct " + std::to_string( n ); } );
			c = std::make_unique<C>( init.begin( ), init.end( ) );
		}
		std::size_t const n = s.len( N > 100 ? 2 * N : 40 );
		for( std::size_t i = 0; i < n; ++i ) {
			int const k = static_cast<int>( s.below( static_cast<std::size_t>( U ) ) );
			int const v = static_cast<int>( i ) + 100;
			std::set<int> keys;
			for( auto const &p : m ) {
				keys.insert( p.first );
			}
			bool const room = m.size( ) < N or m.contains( k );
			switch( s.weighted( { 4, 3, 3, 10, 1, 1, 1 } ) ) {
			case 0:
				if( room ) {
					s.note( [&] { return "insert(k,v) " + std::to_string( k ); } );
					if( s.boolean( ) ) {
						c->insert( mk<K>( k ), int( v ) );
					} else {
						auto const kk = mk<K>( k );
						int const vv = v;
						c->insert( kk, vv );
					}
					m[k] = v;
				}
				break;
			case 1:
				if( room ) {
					s.note( [&] { return "insert(pair) " + std::to_string( k ); } );
					c->insert( std::pair<K const, int>( mk<K>( k ), v ) );
					m[k] = v;
				}
				break;
			case 2:
				if( room ) {
					s.note( [&] { return "[] " + std::to_string( k ); } );
					auto kk = mk<K>( k );
					int &r = s.boolean( ) ? ( *c )[kk] : ( *c )[mk<K>( k )];
					CHECK_EQ( r, m[k] );
					if( s.boolean( ) ) {
						r = v;
						m[k] = v;
					}
				}
				break;
			case 3:
				s.note( [&] { return "erase " + std::to_string( k ); } );
				s.nontrivial( m.contains( k ) and ( collides<H, K>( keys, k ) or m.size( ) == N ) );
				c->erase( mk<K>( k ) );
				m.erase( k );
				break;
			case 4: {
				s.note( [&] { return std::string( "copy, diverge, assign back" ); } );
				auto d = std::make_unique<C>( *c );
				c->erase( mk<K>( k ) );
				*c = *d;
				break;
			}
			case 5: {
				s.note( [&] { return std::string( "move" ); } );
				auto d = std::make_unique<C>( std::move( *c ) );
				c = std::move( d );
				break;
			}
			default: {
				s.note( [&] { return std::string( "write through iterators" ); } );
				auto it = c->begin( );
				auto it2 = it;
				for( ; it != c->end( ); it2 = ++it ) {
					it->value += 7;
					m[un( it2->key )] += 7;
				}
				break;
			}
			}
			map_same<C, H, K>( *c, m, U );
		}
	}
	PROP_T( bounded_hash_map_int_1, ( hash_map<int, 1, std::hash<int>> ), { .cases = 4000 } );
	PROP_T( bounded_hash_map_int_4_mod2, ( hash_map<int, 4, Mod<2>> ), { .cases = 12000 } );
	PROP_T( bounded_hash_map_int_9_mod4, ( hash_map<int, 9, Mod<4>> ), { .cases = 12000 } );
	PROP_T( bounded_hash_map_int_300, ( hash_map<int, 300, Mod<97>> ), { .cases = 60 } );
	PROP_T( bounded_hash_map_string_7, ( hash_map<std::string, 7, std::hash<std::string>> ), { .cases = 6000 } );
	PROP_T( bounded_hash_map_string_5_mod1, ( hash_map<std::string, 5, Mod<1>> ), { .cases = 6000 } );

	// ---- bounded_hash_set ---------------------------------------------------------
	template<typename K, std::size_t N, typename H>
	void hash_bset( Src &s ) {
		using C = daw::bounded_hash_set_t<K, N, H>;
		auto c = std::make_unique<C>( );
		std::set<int> m;
		int const U = static_cast<int>( N ) + 1 + static_cast<int>( s.below( 4 ) );
		std::size_t const n = s.len( N > 100 ? 2 * N : 50 );
		for( std::size_t i = 0; i < n; ++i ) {
			int const k = static_cast<int>( s.below( static_cast<std::size_t>( U ) ) );
			switch( s.weighted( { 8, 8, 1, 1 } ) ) {
			case 0:
				if( m.size( ) < N or m.contains( k ) ) {
					s.note( [&] { return "insert " + std::to_string( k ); } );
					auto const kk = mk<K>( k );
					auto it = s.boolean( ) ? c->insert( kk ) : c->insert( mk<K>( k ) );
					CHECK( it != c->end( ) );
					CHECK_EQ( un( *it ), k );
					CHECK_EQ( un( kk ), k );
					m.insert( k );
				} else if( s.chance( 1, 256 ) ) {
					CHECK( aborts( [&] { (void)c->insert( mk<K>( k ) ); } ) );
				}
				break;
			case 1: {
				s.note( [&] { return "erase " + std::to_string( k ); } );
				bool const had = m.contains( k );
				s.nontrivial( had and ( collides<H, K>( m, k ) or m.size( ) == N ) );
				auto r = c->erase( mk<K>( k ) );
				CHECK_EQ( r.has_value( ), had );
				m.erase( k );
				break;
			}
			case 2: {
				s.note( [&] { return std::string( "copy, diverge, assign back" ); } );
				auto d = std::make_unique<C>( *c );
				(void)c->erase( mk<K>( k ) );
				*c = *d;
				break;
			}
			default: {
				s.note( [&] { return std::string( "move" ); } );
				auto d = std::make_unique<C>( std::move( *c ) );
				c = std::move( d );
			}
			}
			C const &cc = *c;
			CHECK_EQ( cc.size( ), m.size( ) );
			CHECK_EQ( static_cast<bool>( cc.empty( ) ), m.empty( ) );
			CHECK_EQ( cc.capacity( ), N );
			mixed( *c );
			std::vector<int> a, b, d, e;
			for( auto it = c->begin( ); it != c->end( ); ++it ) {
				a.push_back( un( *it ) );
				CHECK( a.size( ) <= m.size( ) );
			}
			for( auto it = cc.begin( ); it != cc.end( ); it++ ) {
				b.push_back( un( *it ) );
				CHECK( b.size( ) <= m.size( ) );
			}
			CHECK( a == b );
			CHECK( std::set<int>( a.begin( ), a.end( ) ) == m );
			CHECK_EQ( a.size( ), m.size( ) );
			for( auto it = c->end( ); d.size( ) < m.size( ); ) {
				--it;
				d.insert( d.begin( ), un( *it ) );
			}
			for( auto it = cc.cend( ); e.size( ) < m.size( ); ) {
				it--;
				e.insert( e.begin( ), un( *it.operator->( ) ) );
			}
			CHECK( a == d );
			CHECK( a == e );
			for( int j = 0; j < U; ++j ) {
				bool const has = m.contains( j );
				CHECK_EQ( cc.exists( mk<K>( j ) ), has );
				CHECK_EQ( static_cast<int>( cc.count( mk<K>( j ) ) ), int( has ) );
				CHECK_EQ( c->find( mk<K>( j ) ) != c->end( ), has );
				CHECK_EQ( cc.find( mk<K>( j ) ) != cc.end( ), has );
				if( has ) {
					CHECK_EQ( un( *c->find( mk<K>( j ) ) ), j );
					CHECK_EQ( un( *cc.find( mk<K>( j ) ) ), j );
				}
			}
		}
	}
	PROP_T( bounded_hash_set_int_1, ( hash_bset<int, 1, std::hash<int>> ), { .cases = 4000 } );
	PROP_T( bounded_hash_set_int_4_mod2, ( hash_bset<int, 4, Mod<2>> ), { .cases = 12000 } );
	PROP_T( bounded_hash_set_int_9_mod4, ( hash_bset<int, 9, Mod<4>> ), { .cases = 12000 } );
	PROP_T( bounded_hash_set_int_300, ( hash_bset<int, 300, Mod<97>> ), { .cases = 60 } );
	PROP_T( bounded_hash_set_string_6, ( hash_bset<std::string, 6, Mod<3>> ), { .cases = 8000 } );
	PROP_T( bounded_hash_set_int_8_fnv, ( hash_bset<int, 8, daw::fnv1a_hash_t> ), { .cases = 8000 } );

	// every function of three keys to values below three, made by the compiler
	struct Low {
		constexpr std::size_t operator( )( int x ) const {
			return static_cast<std::size_t>( x );
		}
	};
	template<int K0, int K1, int K2, int V>
	struct Items {
		static constexpr std::pair<int, int> items[3]{ { K0, V }, { K1, V + 1 }, { K2, V + 2 } };
		static void check( ) {
			static constexpr auto h = daw::make_bounded_hash_map<int, int, Low>( items );
			std::map<int, int> want;
			for( auto const &p : items ) {
				want[p.first] = p.second;
			}
			CHECK_EQ( h.size( ), want.size( ) );
			for( int k = 0; k < 12; ++k ) {
				CHECK_EQ( h.exists( k ), want.contains( k ) );
				if( want.contains( k ) ) {
					CHECK_EQ( h[k], want[k] );
				}
			}
		}
	};
	void make_set( Src &s ) {
		static constexpr auto tables = []<std::size_t... I>( std::index_sequence<I...> ) {
			return std::array<void ( * )( ), 64>{ &Items<( I % 4 ) * 3, ( I / 4 % 4 ) * 3, I / 16 * 2, static_cast<int>( I )>::check... };
		}( std::make_index_sequence<64>{ } );
		tables[s.below( tables.size( ) )]( );
		int a[6];
		std::set<int> m;
		for( auto &x : a ) {
			x = static_cast<int>( s.below( 9 ) );
			m.insert( x );
		}
		s.nontrivial( m.size( ) < 6 );
		auto c = daw::make_bounded_hash_set( a );
		CHECK_EQ( c.size( ), m.size( ) );
		for( int i = 0; i < 9; ++i ) {
			CHECK_EQ( c.exists( i ), m.contains( i ) );
		}
		std::pair<int, int> pa[4] = { { a[0], 1 }, { a[1], 2 }, { a[2], 3 }, { a[3], 4 } };
		std::map<int, int> mm;
		for( auto &p : pa ) {
			mm[p.first] = p.second;
		}
		daw::bounded_hash_map<int, int, 5> h( pa );
		CHECK_EQ( h.size( ), mm.size( ) );
		for( auto &p : mm ) {
			CHECK_EQ( h[p.first], p.second );
		}
	}
	PROP_T( make_bounded, make_set, { .cases = 4000 } );

	// ---- ordered_map -----------------------------------------------------------------
	using Ord = std::vector<std::pair<int, int>>;
	Ord::iterator ofind( Ord &m, int k ) {
		auto it = m.begin( );
		while( it != m.end( ) and it->first != k ) {
			++it;
		}
		return it;
	}
	template<typename K>
	void omap( Src &s ) {
		using C = daw::ordered_map<K, int>;
		using P = std::pair<K const, int>;
		std::unique_ptr<C> c = std::make_unique<C>( );
		Ord m;
		if( s.chance( 1, 3 ) ) {
			std::vector<std::pair<K, int>> init;
			bool const many = s.chance( 1, 60 );
			std::size_t n = many ? 300 + s.below( 400 ) : s.below( 8 );
			for( std::size_t i = 0; i < n; ++i ) {
				int k = many ? static_cast<int>( i * 7 % 997 ) : static_cast<int>( s.below( 6 ) );
				init.emplace_back( mk<K>( k ), static_cast<int>( i ) );
				if( ofind( m, k ) == m.end( ) ) {
					m.emplace_back( k, static_cast<int>( i ) );
				} else {
					s.nontrivial( );
				}
			}
			switch( s.below( 3 ) ) {
			case 0:
				c = std::make_unique<C>( init.begin( ), init.end( ) );
				break;
			case 1:
				c = std::make_unique<C>( init.begin( ), init.end( ), std::less<K>{ }, typename C::allocator_type{ } );
				break;
			default:
				c = std::make_unique<C>( init.begin( ), init.end( ), typename C::allocator_type{ } );
			}
		} else if( s.chance( 1, 6 ) ) {
			int a = static_cast<int>( s.below( 3 ) ), b = static_cast<int>( s.below( 3 ) );
			std::initializer_list<P> il = { { mk<K>( a ), 1 }, { mk<K>( b ), 2 } };
			if( s.boolean( ) ) {
				c = std::make_unique<C>( il, typename C::allocator_type{ } );
			} else {
				c = std::make_unique<C>( il, std::less<K>{ }, typename C::allocator_type{ } );
			}
			m.emplace_back( a, 1 );
			if( a != b ) {
				m.emplace_back( b, 2 );
			}
		}
		std::size_t const n = s.len( 40 );
		for( std::size_t i = 0; i < n; ++i ) {
			int const k = static_cast<int>( s.below( 12 ) );
			int const v = static_cast<int>( i ) + 100;
			switch( s.weighted( { 6, 5, 6, 2, 1, 1 } ) ) {
			case 0: {
				s.note( [&] { return "insert " + std::to_string( k ); } );
				bool const had = ofind( m, k ) != m.end( );
				s.nontrivial( had );
				P const p( mk<K>( k ), v );
				auto r = s.boolean( ) ? c->insert( p ) : c->insert( std::pair<K, int>( mk<K>( k ), v ) );
				CHECK_EQ( r.second, not had );
				CHECK_EQ( un( r.first->first ), k );
				if( not had ) {
					m.emplace_back( k, v );
				}
				CHECK_EQ( r.first->second, ofind( m, k )->second );
				break;
			}
			case 1: {
				s.note( [&] { return "[]= " + std::to_string( k ); } );
				( *c )[mk<K>( k )] = v;
				if( auto it = ofind( m, k ); it != m.end( ) ) {
					it->second = v;
				} else {
					m.emplace_back( k, v );
				}
				break;
			}
			case 2: {
				s.note( [&] { return "[] " + std::to_string( k ); } );
				int const r = ( *c )[mk<K>( k )];
				if( ofind( m, k ) == m.end( ) ) {
					m.emplace_back( k, 0 );
				}
				CHECK_EQ( r, ofind( m, k )->second );
				break;
			}
			case 3:
				if( auto it = ofind( m, k ); it != m.end( ) ) {
					c->at( mk<K>( k ) ) = v;
					it->second = v;
				}
				break;
			case 4:
				s.note( [&] { return std::string( "clear" ); } );
				c->clear( );
				m.clear( );
				break;
			default: {
				s.note( [&] { return std::string( "copy/move" ); } );
				auto d = *c;
				c->clear( );
				c = std::make_unique<C>( std::move( d ) );
			}
			}
			C const &cc = *c;
			CHECK_EQ( cc.size( ), m.size( ) );
			CHECK_EQ( cc.empty( ), m.empty( ) );
			auto conv = []( auto f, auto l ) {
				Ord r;
				for( ; f != l; ++f ) {
					r.emplace_back( un( f->first ), f->second );
				}
				return r;
			};
			Ord const rm( m.rbegin( ), m.rend( ) );
			CHECK( conv( c->begin( ), c->end( ) ) == m );
			CHECK( conv( cc.begin( ), cc.end( ) ) == m );
			CHECK( conv( cc.cbegin( ), cc.cend( ) ) == m );
			CHECK( conv( c->rbegin( ), c->rend( ) ) == rm );
			CHECK( conv( cc.rbegin( ), cc.rend( ) ) == rm );
			CHECK( conv( cc.crbegin( ), cc.crend( ) ) == rm );
			CHECK( cc.max_size( ) >= cc.size( ) );
			if( not m.empty( ) ) {
				CHECK_EQ( un( c->front( ).first ), m.front( ).first );
				CHECK_EQ( un( cc.front( ).first ), m.front( ).first );
				CHECK_EQ( un( c->back( ).first ), m.back( ).first );
				CHECK_EQ( cc.back( ).second, m.back( ).second );
			}
			for( int j = 0; j < 12; ++j ) {
				auto it = ofind( m, j );
				bool const has = it != m.end( );
				CHECK_EQ( cc.find( mk<K>( j ) ) != cc.end( ), has );
				CHECK_EQ( c->find( mk<K>( j ) ) != c->end( ), has );
				if( has ) {
					CHECK_EQ( cc.find( mk<K>( j ) ) - cc.begin( ), it - m.begin( ) );
					CHECK_EQ( cc.at( mk<K>( j ) ), it->second );
					CHECK_EQ( c->at( mk<K>( j ) ), it->second );
				}
			}
		}
		for( int j = 0; j < 12; ++j ) {
			if( ofind( m, j ) == m.end( ) ) {
				auto const &cc = *c;
				if( s.boolean( ) ) {
					CHECK_THROWS( std::out_of_range, (void)cc.at( mk<K>( j ) ) );
				} else {
					CHECK_THROWS( std::out_of_range, (void)c->at( mk<K>( j ) ) );
				}
				CHECK_EQ( c->size( ), m.size( ) );
				break;
			}
		}
	}
	PROP_T( ordered_map_int, omap<int>, { .cases = 12000 } );
	PROP_T( ordered_map_string, omap<std::string>, { .cases = 6000 } );

	// ---- fixed_lookup ----------------------------------------------------------------
	template<std::size_t N, std::size_t HS>
	void flookup( Src &s ) {
		using C = daw::fixed_lookup<int, N, HS>;
		alignas( C ) static unsigned char mem[sizeof( C )];
		std::memset( mem, 0xA5, sizeof( C ) ); // default-initialised over dirty memory
		C *c = new( mem ) C;
		std::map<int, int> m;
		std::map<int, std::size_t> pos;
		std::size_t const n = s.len( N > 100 ? 2 * N : 40 );
		int const U = static_cast<int>( N ) + 3;
		bool full = false;
		for( std::size_t i = 0; i < n; ++i ) {
			int const k = static_cast<int>( s.below( static_cast<std::size_t>( U ) ) );
			int const v = static_cast<int>( i ) + 100;
			bool const room = m.size( ) < N or m.contains( k );
			s.nontrivial( m.size( ) == N or m.contains( k ) );
			if( not room ) {
				full = true;
				continue;
			}
			switch( s.below( 4 ) ) {
			case 0: {
				auto p = static_cast<std::size_t>( c->insert( k, v ) );
				m[k] = v;
				CHECK( p < N );
				if( pos.contains( k ) ) {
					CHECK_EQ( pos[k], p );
				}
				pos[k] = p;
				break;
			}
			case 1:
				( *c )[k] = v;
				m[k] = v;
				break;
			case 2: {
				int const r = ( *c )[k];
				CHECK_EQ( r, m[k] );
				break;
			}
			default: {
				C d = *c;
				d[k] = -1;
				if( s.boolean( ) ) {
					*c = d;
					m[k] = -1;
				}
			}
			}
			C const &cc = *c;
			CHECK_EQ( std::size_t( cc.size( ) ), m.size( ) );
			CHECK_EQ( std::size_t( cc.capacity( ) ), N );
			std::set<std::size_t> used;
			for( int j = 0; j < U; ++j ) {
				bool const has = m.contains( j );
				CHECK_EQ( cc.exists( j ), has );
				if( has ) {
					auto const p = cc.find_existing( j );
					CHECK( used.insert( static_cast<std::size_t>( p ) ).second );
					CHECK_EQ( cc[j], m[j] );
					CHECK_EQ( cc.get_existing( p ), m[j] );
					CHECK_EQ( c->get_existing( p ), m[j] );
					if( pos.contains( j ) ) {
						CHECK_EQ( pos[j], static_cast<std::size_t>( p ) );
					}
				}
			}
		}
		C const &cc = *c;
		for( int j = 0; j < U; ++j ) {
			if( not m.contains( j ) ) {
				if( full and m.size( ) == N ) {
					if( s.boolean( ) ) {
						CHECK_THROWS( std::exception, ( *c )[j] );
					} else {
						CHECK_THROWS( std::exception, c->insert( j, 1 ) );
					}
				} else if( s.chance( 1, 4 ) ) {
					CHECK_THROWS( std::exception, (void)cc[j] );
				}
				CHECK_EQ( std::size_t( cc.size( ) ), m.size( ) );
				break;
			}
		}
	}
	PROP_T( fixed_lookup_1, ( flookup<1, 8> ), { .cases = 3000 } );
	PROP_T( fixed_lookup_7, ( flookup<7, 8> ), { .cases = 10000 } );
	PROP_T( fixed_lookup_300, ( flookup<300, 8> ), { .cases = 60 } );
	PROP_T( fixed_lookup_5_4, ( flookup<5, 4> ), { .cases = 8000 } );

	void flookup_str( Src &s ) {
		daw::fixed_lookup<std::string, 8> c{ };
		std::map<std::string, std::string> m;
		std::size_t const n = s.len( 24 );
		static char const a1[] = "a", a2[] = "b", a3[] = "ab", a4[] = "", a5[] = "hello";
		for( std::size_t i = 0; i < n; ++i ) {
			std::string v( s.below( 40 ), 'v' );
			switch( s.below( 5 ) ) {
			case 0:
				c[a1] = v;
				m["a"] = v;
				break;
			case 1:
				c[a2] = v;
				m["b"] = v;
				break;
			case 2:
				c[a3] = v;
				m["ab"] = v;
				break;
			case 3:
				c[a4] = v;
				m[""] = v;
				break;
			default:
				c.insert( a5, v );
				m["hello"] = v;
			}
			s.nontrivial( m.size( ) > 2 );
			CHECK_EQ( std::size_t( c.size( ) ), m.size( ) );
			auto const &cc = c;
			auto t = [&]( auto &k ) {
				CHECK_EQ( cc.exists( k ), m.contains( k ) );
				if( m.contains( k ) ) {
					CHECK_EQ( cc[k], m[k] );
				}
			};
			t( a1 );
			t( a2 );
			t( a3 );
			t( a4 );
			t( a5 );
		}
	}
	PROP_T( fixed_lookup_str, flookup_str, { .cases = 5000, .leak = true } );
} // namespace
