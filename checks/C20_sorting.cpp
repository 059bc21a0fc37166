// C20: sorting networks over all or structured 0/1 inputs (zero-one principle)
// and permutations; daw::sort, quick_sort, sort_to and sorted insertion on
// patterned, adversarial and random inputs, in exact-size buffers.
// nontrivial: at least three elements, not already in order.
// pbt-scale: 2
#include "pbt.h"
#include <cstdint>
#include <functional>
#include "daw/daw_sort_n.h"
#include "daw/deprecated/daw_stack_quick_sort.h"
#include "daw/iterator/daw_sorted_insert_iterator.h"
#include <deque>
#include <list>
#include <memory>
#include <numeric>
#include <set>
using namespace pbt;

namespace {
	struct E {
		int key;
		int id;
		bool operator==( E const & ) const = default;
	};
	struct Order {
		int kind;
		bool operator( )( int a, int b ) const {
			switch( kind ) {
			case 0:
				return a < b;
			case 1:
				return a > b;
			default:
				return a / 3 < b / 3;
			}
		}
		bool operator( )( E const &a, E const &b ) const {
			return ( *this )( a.key, b.key );
		}
		bool operator( )( std::string const &a, std::string const &b ) const {
			return ( *this )( std::atoi( a.c_str( ) + 20 ), std::atoi( b.c_str( ) + 20 ) );
		}
		bool operator( )( std::unique_ptr<int> const &a, std::unique_ptr<int> const &b ) const {
			CHECK( a and b );
			return ( *this )( *a, *b );
		}
	};

	template<std::size_t N, typename It, typename C>
	void net( It f, C c ) {
		if constexpr( N == 3 ) {
			daw::sort_3( f, c );
		} else if constexpr( N == 4 ) {
			daw::sort_4( f, c );
		} else if constexpr( N == 5 ) {
			daw::sort_5( f, c );
		} else if constexpr( N == 6 ) {
			daw::sort_6( f, c );
		} else if constexpr( N == 7 ) {
			daw::sort_7( f, c );
		} else if constexpr( N == 8 ) {
			daw::sort_8( f, c );
		} else if constexpr( N == 16 ) {
			daw::sort_16( f, c );
		} else {
			static_assert( N == 32 );
			daw::sort_32( f, c );
		}
	}
	template<std::size_t N, typename It>
	void net( It f ) {
		if constexpr( N == 3 ) {
			daw::sort_3( f );
		} else if constexpr( N == 4 ) {
			daw::sort_4( f );
		} else if constexpr( N == 5 ) {
			daw::sort_5( f );
		} else if constexpr( N == 6 ) {
			daw::sort_6( f );
		} else if constexpr( N == 7 ) {
			daw::sort_7( f );
		} else if constexpr( N == 8 ) {
			daw::sort_8( f );
		} else if constexpr( N == 16 ) {
			daw::sort_16( f );
		} else {
			daw::sort_32( f );
		}
	}

	// a 0/1 input is sorted iff the ones are at the end
	template<std::size_t N>
	void zero_one( std::uint32_t m ) {
		signed char buf[N];
		unsigned ones = 0;
		for( std::size_t i = 0; i < N; ++i ) {
			buf[i] = ( m >> i ) & 1;
			ones += unsigned( buf[i] );
		}
		net<N>( buf, std::less<>{ } );
		bool ok = true;
		for( std::size_t i = 0; i < N; ++i ) {
			ok &= buf[i] == ( i >= N - ones );
		}
		if( not ok ) {
			std::string t;
			for( std::size_t i = 0; i < N; ++i ) {
				t += char( '0' + ( ( m >> i ) & 1 ) );
			}
			throw Fail{ "sort_" + std::to_string( N ) + " does not sort " + t };
		}
	}
	template<std::size_t N>
	void all_zero_one( ) {
		for( std::uint32_t m = 0; m < ( 1U << N ); ++m ) {
			zero_one<N>( m );
		}
	}

	template<std::size_t N>
	void permutations( Src &s ) {
		Order c{ s.range<int>( 0, 2 ) };
		std::vector<E> v( N );
		bool const ties = s.boolean( );
		for( std::size_t i = 0; i < N; ++i ) {
			v[i] = E{ ties ? s.range<int>( 0, 9 ) : int( i ), int( i ) };
		}
		if( not ties ) {
			for( std::size_t i = N; i > 1; --i ) {
				std::swap( v[i - 1], v[s.below( i )] );
			}
		}
		if( not std::is_sorted( v.begin( ), v.end( ), c ) ) {
			s.nontrivial( );
		}
		auto check = [&]( auto f ) {
			CHECK( std::is_sorted( f, f + N, c ) );
			std::vector<E> r( f, f + N );
			auto o = v;
			auto by = []( E const &a, E const &b ) { return a.id < b.id; };
			std::sort( r.begin( ), r.end( ), by );
			std::sort( o.begin( ), o.end( ), by );
			CHECK( r == o );
		};
		if( s.boolean( ) ) {
			auto e = Exact<E>::from( v );
			net<N>( e.data( ), c );
			check( e.data( ) );
		} else {
			std::deque<E> d( v.begin( ), v.end( ) );
			net<N>( d.begin( ), c );
			check( d.begin( ) );
		}
		std::vector<std::string> w;
		for( auto const &x : v ) {
			w.push_back( "a long enough string" + std::to_string( x.key ) );
		}
		auto q = w;
		net<N>( w.begin( ) );
		std::sort( q.begin( ), q.end( ) );
		CHECK( w == q );
	}
} // namespace

PROP( small_networks_all_inputs, ( { .cases = 1, .exhaustive = true } ) ) {
	s.nontrivial( );
	all_zero_one<3>( );
	all_zero_one<4>( );
	all_zero_one<5>( );
	all_zero_one<6>( );
	all_zero_one<7>( );
	all_zero_one<8>( );
}
PROP( network_16_all_inputs, ( { .cases = 1, .exhaustive = true } ) ) {
	s.nontrivial( );
	all_zero_one<16>( );
}
// The first stages of the network of 32 sort its eighths, quarters and halves:
// every combination of how many ones each quarter holds.
PROP( network_32_block_counts, ( { .cases = 4, .exhaustive = true } ) ) {
	s.nontrivial( );
	for( unsigned a = 0; a <= 8; ++a ) {
		for( unsigned b = 0; b <= 8; ++b ) {
			for( unsigned c = 0; c <= 8; ++c ) {
				for( unsigned d = 0; d <= 8; ++d ) {
					unsigned const cnt[4] = { a, b, c, d };
					for( int shape = 0; shape < 4; ++shape ) {
						std::uint32_t m = 0;
						for( int k = 0; k < 4; ++k ) {
							std::uint32_t blk = ( 1U << cnt[k] ) - 1U;
							if( shape == 1 ) {
								blk <<= 8 - cnt[k];
							} else if( shape == 2 ) {
								blk = ( ( blk * 0x101U ) >> ( cnt[k] + unsigned( k ) ) % 8 ) & 0xFF;
							} else if( shape == 3 ) {
								std::uint32_t sp = 0; // bit i goes to position 3 i mod 8
								for( unsigned i = 0; i < 8; ++i ) {
									sp |= ( ( blk >> i ) & 1U ) << ( 3 * i % 8 );
								}
								blk = sp;
							}
							m |= blk << ( 8 * k );
						}
						zero_one<32>( m );
						// and dealt out round-robin instead of in blocks
						std::uint32_t t = 0;
						for( unsigned i = 0; i < 32; ++i ) {
							t |= ( ( m >> i ) & 1U ) << ( ( i % 8 ) * 4 + i / 8 );
						}
						zero_one<32>( t );
					}
				}
			}
		}
	}
}
PROP( network_32_halves, ( { .cases = 40 } ) ) {
	// every 16-bit pattern in one half
	std::uint32_t const other = s.draw( 0xFFFF );
	bool const hi = s.boolean( );
	s.nontrivial( );
	for( std::uint32_t m = 0; m <= 0xFFFF; m += 7 ) {
		zero_one<32>( hi ? ( m << 16 ) | other : m | ( other << 16 ) );
	}
}
PROP( network_32_zero_one, {} ) {
	std::uint32_t m = std::uint32_t( s.integer<std::uint64_t>( ) );
	switch( s.draw( 3 ) ) {
	case 0:
		m &= std::uint32_t( s.integer<std::uint64_t>( ) );
		break;
	case 1:
		m |= std::uint32_t( s.integer<std::uint64_t>( ) );
		break;
	default:
		break;
	}
	if( m != 0 and m != ~0U ) {
		s.nontrivial( );
	}
	zero_one<32>( m );
}
PROP( networks_on_values, {} ) {
	switch( s.draw( 7 ) ) {
	case 0:
		return permutations<3>( s );
	case 1:
		return permutations<4>( s );
	case 2:
		return permutations<5>( s );
	case 3:
		return permutations<6>( s );
	case 4:
		return permutations<7>( s );
	case 5:
		return permutations<8>( s );
	case 6:
		return permutations<16>( s );
	default:
		return permutations<32>( s );
	}
}

namespace {
	std::vector<int> keys( Src &s, std::size_t n ) {
		std::vector<int> v( n );
		int const pattern = int( s.draw( 9 ) );
		std::uint64_t seed = s.draw( 1u << 20 );
		auto rnd = [&] {
			seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
			return std::uint32_t( seed >> 33 );
		};
		for( std::size_t i = 0; i < n; ++i ) {
			switch( pattern ) {
			case 0:
			case 1:
				v[i] = int( rnd( ) % ( 4 * n + 1 ) );
				break;
			case 2:
				v[i] = int( rnd( ) % 4 );
				break;
			case 3:
			case 8:
				v[i] = int( i );
				break;
			case 4:
				v[i] = int( n - i );
				break;
			case 5: // organ pipe
				v[i] = int( std::min( i, n - i ) );
				break;
			case 6: // sawtooth
				v[i] = int( i % 7 );
				break;
			case 7:
				v[i] = 5;
				break;
			default: // front and back runs
				v[i] = int( i < n / 2 ? 2 * i : 2 * ( i - n / 2 ) + 1 );
			}
		}
		auto const swaps = pattern == 8 ? s.draw( 12 ) : s.draw( 3 );
		for( std::size_t k = 0; k < swaps and n > 1; ++k ) {
			std::swap( v[rnd( ) % n], v[rnd( ) % n] );
		}
		return v;
	}
	std::size_t gen_size( Src &s ) {
		switch( s.draw( 4 ) ) {
		case 0:
		case 1:
			return s.draw( 40 );
		case 2:
			return s.draw( 200 );
		case 3:
			return s.range<std::size_t>( 995, 1010 );
		default:
			return s.draw( 1500 );
		}
	}
	// McIlroy's adversary: decides the order while it is being sorted
	struct Adversary {
		std::vector<int> val;
		int solid = 0, gas, candidate = 0;
		explicit Adversary( std::size_t n ) : val( n, int( n ) ), gas( int( n ) ) {}
		bool less( int x, int y ) {
			auto &vx = val[std::size_t( x )];
			auto &vy = val[std::size_t( y )];
			if( vx == gas and vy == gas and x != y ) {
				( x == candidate ? vx : vy ) = solid++;
			}
			if( vx == gas ) {
				candidate = x;
			} else if( vy == gas ) {
				candidate = y;
			}
			return vx < vy;
		}
	};

	template<typename Sort>
	void sort_any( Src &s, Sort srt, bool move_only ) {
		std::size_t const n = gen_size( s );
		Order c{ s.range<int>( 0, 2 ) };
		auto const k = keys( s, n );
		if( n > 2 and not std::is_sorted( k.begin( ), k.end( ), c ) ) {
			s.nontrivial( );
		}
		switch( s.draw( move_only ? 4 : 3 ) ) {
		case 0: { // trivially copyable, identity checked
			std::vector<E> v( n );
			for( std::size_t i = 0; i < n; ++i ) {
				v[i] = E{ k[i], int( i ) };
			}
			auto e = Exact<E>::from( v );
			srt( e.data( ), e.data( ) + n, c );
			CHECK( std::is_sorted( e.data( ), e.data( ) + n, c ) );
			std::vector<char> seen( n );
			for( std::size_t i = 0; i < n; ++i ) {
				auto const &x = e.data( )[i];
				CHECK( x.id >= 0 and std::size_t( x.id ) < n and not seen[std::size_t( x.id )] );
				seen[std::size_t( x.id )] = 1;
				CHECK_EQ( x.key, k[std::size_t( x.id )] );
			}
			break;
		}
		case 1: {
			std::deque<int> d( k.begin( ), k.end( ) );
			srt( d.begin( ), d.end( ), c );
			CHECK( std::is_sorted( d.begin( ), d.end( ), c ) );
			CHECK( std::multiset<int>( d.begin( ), d.end( ) ) == std::multiset<int>( k.begin( ), k.end( ) ) );
			break;
		}
		case 2: {
			std::vector<std::string> v;
			for( int x : k ) {
				v.push_back( "a long enough string" + std::to_string( x ) );
			}
			auto w = v;
			srt( v.begin( ), v.end( ), c );
			CHECK( std::is_sorted( v.begin( ), v.end( ), c ) );
			std::sort( v.begin( ), v.end( ) );
			std::sort( w.begin( ), w.end( ) );
			CHECK( v == w );
			break;
		}
		case 3: { // adversary
			Adversary a( n );
			std::vector<int> v( n );
			std::iota( v.begin( ), v.end( ), 0 );
			auto e = Exact<int>::from( v );
			srt( e.data( ), e.data( ) + n, [&]( int x, int y ) { return a.less( x, y ); } );
			for( std::size_t i = 1; i < n; ++i ) {
				CHECK( a.val[std::size_t( e.data( )[i - 1] )] <= a.val[std::size_t( e.data( )[i] )] );
			}
			std::vector<int> r( e.data( ), e.data( ) + n );
			std::sort( r.begin( ), r.end( ) );
			CHECK( r == v );
			break;
		}
		default: {
			if constexpr( requires { srt( (std::unique_ptr<int> *)nullptr, (std::unique_ptr<int> *)nullptr, c ); } ) {
				std::vector<std::unique_ptr<int>> v;
				for( int x : k ) {
					v.push_back( std::make_unique<int>( x ) );
				}
				srt( v.begin( ), v.end( ), c );
				CHECK( std::is_sorted( v.begin( ), v.end( ), c ) );
				std::multiset<int> m;
				for( auto const &x : v ) {
					m.insert( *x );
				}
				CHECK( m == std::multiset<int>( k.begin( ), k.end( ) ) );
			}
		}
		}
	}
	template<typename T, typename C>
	void to( Src &s, C c ) {
		auto const n = s.longlen( 60, 900 );
		std::vector<T> v( n );
		for( auto &x : v ) {
			x = s.boolean( ) ? s.integer<T>( ) : T( s.draw( 20 ) );
		}
		if( n > 2 ) {
			s.nontrivial( );
		}
		Exact<T> out( n );
		CHECK( daw::sort_to( v.begin( ), v.end( ), out.data( ), c ) == out.data( ) + n );
		std::sort( v.begin( ), v.end( ), c );
		CHECK( std::equal( v.begin( ), v.end( ), out.data( ) ) );
	}
	template<typename T>
	void to( Src &s ) {
		return s.boolean( ) ? to<T>( s, std::less<>{ } ) : to<T>( s, std::greater<>{ } );
	}
} // namespace

PROP( general_sort, {} ) {
	if( s.chance( 1, 3 ) ) {
		auto v = keys( s, gen_size( s ) );
		auto w = v;
		if( v.size( ) > 2 ) {
			s.nontrivial( );
		}
		auto e = Exact<int>::from( v );
		daw::sort( e.data( ), e.data( ) + v.size( ) );
		std::sort( w.begin( ), w.end( ) );
		CHECK( std::equal( w.begin( ), w.end( ), e.data( ) ) );
		return;
	}
	sort_any( s, []( auto f, auto l, auto c ) { daw::sort( f, l, c ); }, true );
}
PROP( small_sort, {} ) {
	// every length around the switch between methods, with few distinct values
	std::size_t const n = s.draw( 70 );
	std::vector<E> v( n );
	int const k = s.pick<int>( { 1, 2, 3, 9, 100 } );
	for( std::size_t i = 0; i < n; ++i ) {
		v[i] = E{ s.range<int>( 0, k ), int( i ) };
	}
	Order c{ s.range<int>( 0, 2 ) };
	if( n > 2 and not std::is_sorted( v.begin( ), v.end( ), c ) ) {
		s.nontrivial( );
	}
	auto e = Exact<E>::from( v );
	daw::sort( e.data( ), e.data( ) + n, c );
	CHECK( std::is_sorted( e.data( ), e.data( ) + n, c ) );
	std::vector<E> r( e.data( ), e.data( ) + n );
	std::sort( r.begin( ), r.end( ), []( E a, E b ) { return a.id < b.id; } );
	CHECK( r == v );
}
PROP( quick_sort, {} ) {
	sort_any( s, []( auto f, auto l, auto c ) {
		if constexpr( std::is_copy_constructible_v<std::decay_t<decltype( *f )>> ) {
			daw::quick_sort( f, l, c );
		}
	}, false );
}
PROP( sort_to, {} ) {
	switch( s.draw( 5 ) ) {
	case 0:
		return to<int>( s );
	case 1:
		return to<std::uint8_t>( s );
	case 2:
		return to<long>( s );
	case 3:
		return to<std::int8_t>( s );
	case 4:
		return to<std::uint64_t>( s );
	default: {
		auto k = keys( s, s.draw( 60 ) );
		std::list<std::string> v;
		for( int x : k ) {
			v.push_back( "a long enough string" + std::to_string( x ) );
		}
		std::vector<std::string> out( v.size( ) );
		if( v.size( ) > 2 ) {
			s.nontrivial( );
		}
		CHECK( daw::sort_to( v.begin( ), v.end( ), out.begin( ) ) == out.end( ) );
		v.sort( );
		CHECK( std::equal( v.begin( ), v.end( ), out.begin( ) ) );
	}
	}
}
PROP( sorted_insertion, {} ) {
	auto const n = s.longlen( 20 );
	Order c{ s.range<int>( 0, 2 ) };
	std::vector<E> v;
	std::deque<E> d;
	std::list<E> l;
	auto iv = daw::make_sorted_insert_iterator( v, c );
	auto id = daw::make_sorted_insert_iterator( d, c );
	auto il = daw::make_sorted_insert_iterator( l, c );
	std::vector<E> all;
	for( std::size_t i = 0; i < n; ++i ) {
		E const x{ s.range<int>( 0, 8 ), int( i ) };
		all.push_back( x );
		*iv = x;
		++iv;
		*id++ = x;
		*il = E( x );
		il++;
		auto good = [&]( auto const &q ) {
			CHECK_EQ( q.size( ), all.size( ) );
			CHECK( std::is_sorted( q.begin( ), q.end( ), c ) );
			std::vector<E> r( q.begin( ), q.end( ) );
			std::sort( r.begin( ), r.end( ), []( E a, E b ) { return a.id < b.id; } );
			CHECK( r == all );
		};
		good( v );
		good( d );
		good( l );
	}
	if( n > 2 ) {
		s.nontrivial( );
	}
	std::vector<int> ints;
	std::vector<int> src = keys( s, s.draw( 30 ) );
	std::copy( src.begin( ), src.end( ), daw::make_sorted_insert_iterator( ints ) );
	std::sort( src.begin( ), src.end( ) );
	CHECK_EQ( ints, src );
}
