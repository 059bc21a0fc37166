// C07: perfect_hash_table and static_hash_t built from generated key sets.
// nontrivial: at least two keys share a bucket / probe start, or the set has
// the default key or only high-bit differences.
// pbt-flags: -DNDEBUG -Wno-deprecated-declarations
// pbt-scale: 10
// pbt-parts: 5
#include "pbt.h"
#include <bit>
#include <cmath>
#include <functional>
#include <list>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <vector>

#include "daw/daw_fnv1a_hash.h"
#include "daw/daw_metro_hash.h"
#include "daw/daw_min_perfect_hash.h"
#include "daw/daw_string_view.h"
#include "daw/daw_view.h"
#include "daw/static_hash_table.h"
using namespace pbt;

namespace {
	struct Ident {
		template<typename I>
		constexpr std::size_t operator( )( I i ) const {
			return static_cast<std::size_t>( i );
		}
	};
	struct Ident32 {
		constexpr std::uint32_t operator( )( unsigned i ) const {
			return i;
		}
	};
	struct Metro {
		std::size_t operator( )( std::uint64_t v ) const {
			char buff[8];
			std::memcpy( buff, &v, 8 );
			char const *f = buff;
			return daw::metro::hash64( daw::view<char const *>( f, f + 8 ), 0 );
		}
	};
	struct SvHash {
		std::size_t operator( )( std::string_view s ) const {
			return std::hash<std::string_view>{ }( s );
		}
		std::size_t operator( )( daw::string_view s ) const {
			return daw::fnv1a_hash_t{ }( s );
		}
	};

	// a family of distinct integers
	template<typename T>
	std::vector<T> int_keys( Src &s, std::size_t n ) {
		std::set<T> have;
		std::vector<T> r;
		int const mode = static_cast<int>( s.below( 5 ) );
		s.label( mode == 0 ? "small" : mode == 1 ? "stride" : mode == 2 ? "high bits" : "mixed" );
		T const base = s.integer<T>( );
		unsigned const sh = static_cast<unsigned>( s.below( sizeof( T ) * 8 - 7 ) );
		while( r.size( ) < n ) {
			T k{ };
			using U = std::make_unsigned_t<T>;
			switch( mode ) {
			case 0:
				k = static_cast<T>( s.below( n * 3 + 2 ) );
				break;
			case 1:
				k = static_cast<T>( static_cast<U>( base ) + ( static_cast<U>( s.below( 127 ) ) << sh ) );
				break;
			case 2:
				k = static_cast<T>( static_cast<U>( s.below( 127 ) ) << sh );
				break;
			default:
				k = s.integer<T>( );
			}
			// on exhaustion or repetition take the next free value
			while( not have.insert( k ).second ) {
				k = static_cast<T>( static_cast<U>( k ) + 1 );
			}
			r.push_back( k );
		}
		return r;
	}

	template<std::size_t N, typename K, typename H, typename It>
	void verify( daw::perfect_hash_table<N, K, int, H> &t, std::vector<std::pair<K, int>> const &data,
	             std::vector<K> const &misses, It ) {
		auto const &ct = t;
		CHECK_EQ( ct.size( ), N );
		std::set<int const *> slots;
		for( auto const &[k, v] : data ) {
			CHECK( ct.contains( k ) );
			int const *p = ct.find( k );
			CHECK( p != nullptr );
			CHECK_EQ( *p, v );
			CHECK( slots.insert( p ).second );
			CHECK( t.find( k ) == p );
			CHECK( &ct[k] == p );
			CHECK( &t[k] == p );
		}
		for( auto const &k : misses ) {
			bool in = false;
			for( auto const &d : data ) {
				in = in or d.first == k;
			}
			if( not in ) {
				CHECK( not ct.contains( k ) );
				CHECK( ct.find( k ) == nullptr );
				CHECK( t.find( k ) == nullptr );
			}
		}
		// writes go to one key only
		if( N > 1 ) {
			t[data[0].first] = -5;
			for( std::size_t i = 1; i < N; ++i ) {
				CHECK_EQ( ct[data[i].first], data[i].second );
			}
			CHECK_EQ( *ct.find( data[0].first ), -5 );
		}
	}

	template<std::size_t N, typename K, typename H>
	void mph( Src &s ) {
		using T = daw::perfect_hash_table<N, K, int, H>;
		auto keys = int_keys<K>( s, N );
		s.note( [&] { return show( keys ); } );
		std::pair<K, int> arr[N];
		std::vector<std::pair<K, int>> data;
		std::set<std::size_t> b;
		std::size_t const nb = std::bit_ceil( N );
		for( std::size_t i = 0; i < N; ++i ) {
			arr[i] = { keys[i], static_cast<int>( i ) + 1 };
			data.push_back( arr[i] );
			b.insert( H{ }( keys[i] ) % nb );
		}
		s.nontrivial( b.size( ) < N );
		std::vector<K> misses{ K{ }, K( 1 ), static_cast<K>( -1 ) };
		for( int i = 0; i < 12; ++i ) {
			misses.push_back( static_cast<K>( keys[s.below( N )] ^ ( K{ 1 } << s.below( sizeof( K ) * 8 - 1 ) ) ) );
			misses.push_back( s.integer<K>( ) );
		}
		auto make = [&] {
			switch( s.below( 4 ) ) {
			case 0:
				return T( arr );
			case 1:
				return T( arr, arr + N );
			case 2:
				return T( data.begin( ), data.end( ) );
			default:
				return daw::make_perfect_hash_table<H>( arr );
			}
		};
		auto t = make( );
		if( s.boolean( ) ) {
			auto t2 = t;
			verify<N, K, H>( t2, data, misses, 0 );
		}
		verify<N, K, H>( t, data, misses, 0 );
	}
#if PBT_PART == 0
	PROP_T( mph_1, ( mph<1, int, std::hash<int>> ), { .cases = 2000 } );
#endif
#if PBT_PART == 1
	PROP_T( mph_2, ( mph<2, int, std::hash<int>> ), { .cases = 6000 } );
#endif
#if PBT_PART == 2
	PROP_T( mph_3, ( mph<3, long, std::hash<long>> ), { .cases = 6000 } );
#endif
#if PBT_PART == 3
	PROP_T( mph_4, ( mph<4, unsigned, Ident32> ), { .cases = 6000 } );
#endif
#if PBT_PART == 4
	PROP_T( mph_5, ( mph<5, int, daw::fnv1a_hash_t> ), { .cases = 6000 } );
#endif
#if PBT_PART == 0
	PROP_T( mph_7, ( mph<7, unsigned long, Ident> ), { .cases = 12000 } );
#endif
#if PBT_PART == 1
	PROP_T( mph_8, ( mph<8, short, Ident> ), { .cases = 6000 } );
#endif
#if PBT_PART == 2
	PROP_T( mph_13, ( mph<13, int, std::hash<int>> ), { .cases = 8000 } );
#endif
#if PBT_PART == 3
	PROP_T( mph_15, ( mph<15, unsigned long, Metro> ), { .cases = 6000 } );
#endif
#if PBT_PART == 4
	PROP_T( mph_16, ( mph<16, int, Ident> ), { .cases = 5000 } );
#endif
#if PBT_PART == 0
	PROP_T( mph_31, ( mph<31, long, std::hash<long>> ), { .cases = 3000 } );
#endif
#if PBT_PART == 1
	PROP_T( mph_64, ( mph<64, unsigned, Ident32> ), { .cases = 600 } );
#endif

	template<std::size_t N, typename SV>
	void mph_sv( Src &s ) {
		static char pool[64];
		for( int i = 0; i < 64; ++i ) {
			pool[i] = static_cast<char>( 'a' + i % 3 );
		}
		std::set<std::string> have;
		std::vector<std::pair<SV, int>> data;
		std::vector<std::string> store( N );
		store.reserve( N );
		bool const with_empty = s.boolean( );
		for( std::size_t i = 0; i < N; ++i ) {
			std::string k = i == 0 and with_empty ? std::string( ) : std::string( 1 + s.below( 3 ), static_cast<char>( 'a' + s.below( 3 ) ) );
			while( not have.insert( k ).second ) {
				k.push_back( static_cast<char>( 'a' + s.below( 3 ) ) );
			}
			store[i] = k;
		}
		for( std::size_t i = 0; i < N; ++i ) {
			data.emplace_back( SV( store[i].data( ), store[i].size( ) ), static_cast<int>( i ) );
		}
		s.nontrivial( not with_empty );
		daw::perfect_hash_table<N, SV, int, SvHash> t( data.begin( ), data.end( ) );
		std::vector<SV> misses{ SV( ), SV( pool, 0 ), SV( pool, 1 ), SV( pool, 7 ), SV( pool + 1, 4 ) };
		for( int i = 0; i < 6; ++i ) {
			std::size_t const o = s.below( 40 );
			misses.emplace_back( pool + o, s.below( 12 ) );
		}
		verify<N, SV, SvHash>( t, data, misses, 0 );
	}
#if PBT_PART == 2
	PROP_T( mph_std_sv_6, ( mph_sv<6, std::string_view> ), { .cases = 4000 } );
#endif
#if PBT_PART == 3
	PROP_T( mph_daw_sv_11, ( mph_sv<11, daw::string_view> ), { .cases = 4000 } );
#endif

	// ---- static_hash_t ----------------------------------------------------------
	template<std::size_t Cap, typename K>
	void sht( Src &s ) {
		using T = daw::static_hash_t<int, Cap>;
		std::size_t const n = s.boolean( ) ? Cap : s.below( Cap + 1 );
		auto keys = int_keys<K>( s, Cap );
		T t;
		std::map<K, int> m;
		for( std::size_t i = 0; i < n; ++i ) {
			t[keys[i]] = static_cast<int>( i ) + 1;
			m[keys[i]] = static_cast<int>( i ) + 1;
			if( s.chance( 1, 4 ) ) {
				std::size_t const j = s.below( i + 1 );
				t[keys[j]] += 100;
				m[keys[j]] += 100;
			}
		}
		s.nontrivial( n == Cap );
		if( s.boolean( ) ) {
			T const u = t;
			for( auto &x : m ) {
				CHECK_EQ( u[x.first], x.second );
			}
		}
		T const &ct = t;
		std::set<std::size_t> slots;
		for( auto &[k, v] : m ) {
			CHECK( ct.find( k ) < Cap );
			CHECK( slots.insert( ct.find( k ) ).second );
			CHECK_EQ( ct[k], v );
			CHECK_EQ( t[k], v );
		}
		for( std::size_t i = n; i < Cap; ++i ) {
			CHECK_EQ( ct.find( keys[i] ), Cap );
		}
		for( int i = 0; i < 8; ++i ) {
			K const k = s.integer<K>( );
			if( not m.contains( k ) ) {
				CHECK_EQ( ct.find( k ), Cap );
			}
		}
	}
#if PBT_PART == 4
	PROP_T( static_hash_1, ( sht<1, int> ), { .cases = 3000 } );
#endif
#if PBT_PART == 4
	PROP_T( static_hash_3, ( sht<3, int> ), { .cases = 8000 } );
#endif
#if PBT_PART == 4
	PROP_T( static_hash_8, ( sht<8, unsigned long> ), { .cases = 8000 } );
#endif
#if PBT_PART == 4
	PROP_T( static_hash_17, ( sht<17, short> ), { .cases = 6000 } );
#endif

	void sht_init( Src &s ) {
		static char const *const all[] = { "", "a", "b", "ab", "ba", "3", "5", "hello", "hello ", "\x7f", "key", "yek", "aaaaaaaaaaaaaaaaaaaaaaaa" };
		char const *p[5];
		std::size_t idx[5];
		for( std::size_t i = 0; i < 5; ++i ) {
			idx[i] = ( i == 0 ? s.below( 13 ) : ( idx[i - 1] + 1 + s.below( 2 ) ) % 13 );
			p[i] = all[idx[i]];
		}
		std::set<std::size_t> d( idx, idx + 5 );
		s.nontrivial( d.size( ) == 5 );
		daw::static_hash_t<int, 5> const t = { { p[0], 0 }, { p[1], 1 }, { p[2], 2 }, { p[3], 3 }, { p[4], 4 } };
		std::map<std::size_t, int> m;
		for( int i = 0; i < 5; ++i ) {
			m[idx[i]] = i;
		}
		for( std::size_t i = 0; i < 13; ++i ) {
			if( m.contains( i ) ) {
				CHECK_EQ( t[all[i]], m[i] );
				CHECK( t.find( all[i] ) < 5 );
			} else if( true ) {
				CHECK_EQ( t.find( all[i] ), std::size_t( 5 ) );
			}
		}
		std::initializer_list<std::pair<int, int>> il = { { static_cast<int>( idx[0] ), 1 }, { static_cast<int>( idx[1] ) + 20, 2 } };
		daw::static_hash_t<int, 2> const u( il );
		CHECK_EQ( u[static_cast<int>( idx[0] )], 1 );
		CHECK_EQ( u[static_cast<int>( idx[1] ) + 20], 2 );
	}
#if PBT_PART == 4
	PROP_T( static_hash_init, sht_init, { .cases = 4000 } );
#endif
} // namespace
