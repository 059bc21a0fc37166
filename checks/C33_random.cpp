// C33: random numbers, shuffles and random iterators.  Oracle: the bounds asked
// for, the multiset of the input, a second run from the same seed, a pointer.
// nontrivial: at least two possible results.
// pbt-scale: 3
#include "pbt.h"
#define USE_CXSEED
#include <algorithm>
#include <cstdint>
#include <forward_list>
#include <deque>
#include <map>
#include <numeric>
#include <set>
#include "daw/daw_random.h"
#include "daw/iterator/daw_random_iterator.h"
using namespace pbt;

namespace {
	template<typename T>
	std::pair<T, T> bounds( Src &s ) {
		T a = s.integer<T>( ), b = s.integer<T>( );
		switch( s.draw( 6 ) ) {
		case 0:
			a = std::numeric_limits<T>::min( );
			break;
		case 1:
			b = std::numeric_limits<T>::max( );
			break;
		case 2:
			a = std::numeric_limits<T>::min( );
			b = std::numeric_limits<T>::max( );
			break;
		case 3:
			b = a;
			break;
		case 4: {
			auto const w = T( s.range<int>( 0, 9 ) );
			a = std::min<T>( a, T( std::numeric_limits<T>::max( ) - w ) );
			b = T( a + w );
			break;
		}
		default:
			break;
		}
		if( b < a ) {
			std::swap( a, b );
		}
		return { a, b };
	}
	template<typename T>
	std::string st( T v ) {
		return std::to_string( v );
	}

	template<typename T>
	void randint_one( Src &s ) {
		auto const [a, b] = bounds<T>( s );
		s.note( [&] { return st( a ) + ".." + st( b ) + " size " + st( sizeof( T ) ); } );
		if( a != b ) {
			s.nontrivial( );
		}
		daw::reseed( s.draw( 1000 ) );
		auto in = [&]( T v ) {
			CHECK( a <= v );
			CHECK( v <= b );
		};
		for( int i = 0; i < 8; ++i ) {
			in( daw::randint<T>( a, b ) );
		}
		auto const count = s.len( 9 );
		for( T v : daw::make_random_data<T>( count, a, b ) ) {
			in( v );
		}
		auto const dq = daw::make_random_data<T, std::deque<T>>( count, a, b );
		CHECK_EQ( dq.size( ), count );
		std::for_each( dq.begin( ), dq.end( ), in );
		CHECK_EQ( ( daw::make_random_data<T>( count ).size( ) ), count );
		auto ex = Exact<T>( count );
		daw::random_fill( ex.begin( ), ex.end( ), a, b );
		std::for_each( ex.begin( ), ex.end( ), in );
		std::forward_list<std::int64_t> fl( count );
		daw::random_fill<T, std::int64_t>( fl.begin( ), fl.end( ), a, b );
		for( auto v : fl ) {
			in( static_cast<T>( v ) );
			CHECK( static_cast<std::int64_t>( static_cast<T>( v ) ) == v );
		}
		auto r = daw::RandomInteger<T>( s.draw( 100 ) );
		if( a < b ) {
			for( int i = 0; i < 8; ++i ) {
				in( r( b, a ) );
			}
			T const up = r( b );
			CHECK( up <= b );
			CHECK_THROWS( std::runtime_error, (void)daw::randint<T>( b, a ) );
			CHECK_THROWS( std::runtime_error, daw::random_fill( ex.begin( ), ex.end( ), b, a ) );
			CHECK_THROWS( std::runtime_error, (void)r( a, b ) );
			if( s.chance( 1, 200 ) ) {
				CHECK( aborts( [&] { (void)daw::make_random_data<T>( count, b, a ); } ) );
			}
		}
		// a refused call has filled nothing and the generators go on
		in( daw::randint<T>( a, b ) );
	}
} // namespace

PROP( inside_bounds, {} ) {
	switch( s.draw( 8 ) ) {
	case 0:
		return randint_one<std::int8_t>( s );
	case 1:
		return randint_one<std::uint8_t>( s );
	case 2:
		return randint_one<std::int16_t>( s );
	case 3:
		return randint_one<std::uint16_t>( s );
	case 4:
		return randint_one<std::int32_t>( s );
	case 5:
		return randint_one<std::uint32_t>( s );
	case 6:
		return randint_one<std::int64_t>( s );
	case 7:
		return randint_one<std::uint64_t>( s );
	default:
		return randint_one<char>( s );
	}
}

// every value of a small range comes up, about as often as the others
namespace {
	template<typename T>
	void cover( Src &s, std::string const &what, T a, int n, auto next ) {
		std::map<T, int> seen;
		int const each = 400;
		for( int i = 0; i < n * each; ++i ) {
			++seen[next( )];
		}
		s.note( [&] {
			std::string r = what + " from " + st( a ) + " width " + st( n ) + ":";
			for( auto const &[k, c] : seen ) {
				r += " " + st( k ) + "x" + st( c );
			}
			return r;
		} );
		for( int i = 0; i < n; ++i ) {
			CHECK( seen.count( T( a + i ) ) == 1 );
			auto const c = seen[T( a + i )];
			CHECK( c > each / 2 and c < each * 3 / 2 ); // ten standard deviations
		}
		CHECK_EQ( seen.size( ), std::size_t( n ) );
	}
	template<typename T>
	void cover_all( Src &s ) {
		int const n = s.range<int>( 1, 9 );
		if( n > 1 ) {
			s.nontrivial( );
		}
		T a = s.integer<T>( );
		a = std::min<T>( a, T( std::numeric_limits<T>::max( ) - T( n - 1 ) ) );
		T const b = T( a + T( n - 1 ) );
		daw::reseed( s.draw( 100000 ) );
		cover<T>( s, "randint", a, n, [&] { return daw::randint<T>( a, b ); } );
		if( n > 1 ) {
			auto r = daw::RandomInteger<T>( s.draw( 100 ) );
			cover<T>( s, "RandomInteger", a, n, [&] { return r( b, a ); } );
			auto r2 = daw::RandomInteger<T, std::mt19937_64>( s.draw( 100 ) );
			cover<T>( s, "RandomInteger64", a, n, [&] { return r2( b, a ); } );
		}
		std::vector<T> v;
		cover<T>( s, "make_random_data", a, n, [&] {
			if( v.empty( ) ) {
				v = daw::make_random_data<T>( 16, a, b );
			}
			T const x = v.back( );
			v.pop_back( );
			return x;
		} );
	}
} // namespace
PROP( small_ranges_are_covered, ( { .cases = 300 } ) ) {
	switch( s.draw( 3 ) ) {
	case 0:
		return cover_all<std::int8_t>( s );
	case 1:
		return cover_all<int>( s );
	case 2:
		return cover_all<std::int64_t>( s );
	default:
		return cover_all<std::uint16_t>( s );
	}
}

// the same seed gives the same sequence, whatever happened before
PROP( seeds_repeat, {} ) {
	auto const seed = s.draw( 1u << 20 );
	struct Op {
		int k;
		int a, b;
		std::size_t n;
	};
	std::vector<Op> ops;
	for( std::size_t i = 1 + s.len( 8 ); i > 0; --i ) {
		int a = s.range<int>( -50, 50 ), b = s.range<int>( -50, 50 );
		ops.push_back( { int( s.draw( 3 ) ), std::min( a, b ), std::max( a, b ), s.len( 6 ) } );
	}
	s.nontrivial( );
	bool const dflt = s.chance( 1, 3 );
	auto run = [&] {
		if( dflt ) {
			daw::reseed( );
		} else {
			daw::reseed( seed );
		}
		std::vector<std::int64_t> out;
		for( auto const &o : ops ) {
			switch( o.k ) {
			case 0:
				out.push_back( daw::randint<int>( o.a, o.b ) );
				break;
			case 1:
				out.push_back( daw::randint<std::int64_t>( ) );
				break;
			case 2:
				for( auto v : daw::make_random_data<std::int16_t>( o.n, std::int16_t( o.a ), std::int16_t( o.b ) ) ) {
					out.push_back( v );
				}
				break;
			default: {
				std::vector<int> p( o.n );
				std::iota( p.begin( ), p.end( ), 0 );
				daw::shuffle( p.begin( ), p.end( ) );
				out.insert( out.end( ), p.begin( ), p.end( ) );
			}
			}
		}
		return out;
	};
	auto const first = run( );
	for( auto n = s.draw( 3 ); n > 0; --n ) {
		(void)daw::randint<int>( );
	}
	CHECK( run( ) == first );
	// generator objects
	auto const sd = s.draw( 100 );
	auto objects = [&]( auto r ) {
		using T = typename decltype( r )::result_type;
		(void)r( );
		auto r2 = r;
		auto fresh = decltype( r )( sd );
		(void)fresh( );
		for( int i = 0; i < 6; ++i ) {
			auto const v = r( T( 100 ), T( 3 ) );
			CHECK( v >= T( 3 ) and v <= T( 100 ) );
			CHECK( r2( T( 100 ), T( 3 ) ) == v );
			CHECK( fresh( T( 100 ), T( 3 ) ) == v );
		}
	};
	objects( daw::RandomInteger<int>( sd ) );
	objects( daw::RandomInteger<std::uint64_t, std::mt19937_64>( sd ) );
	objects( daw::RandomInteger<std::uint8_t>( sd ) );
	objects( daw::RandomFloat<double>( sd ) );
	objects( daw::RandomFloat<float, std::mt19937>( std::mt19937::result_type( sd ) ) );
	// two seeds, two sequences
	auto const other = s.boolean( ) ? seed + 1 + s.draw( 1000 ) : seed ^ ( decltype( seed ){ 1 } << s.below( 32 ) );
	auto sequence = [&]( auto sd_ ) {
		daw::reseed( sd_ );
		std::array<std::uint64_t, 4> r{};
		for( auto &e : r ) {
			e = daw::randint<std::uint64_t>( );
		}
		return r;
	};
	CHECK( sequence( seed ) != sequence( other ) );
	CHECK( sequence( seed ) == sequence( seed ) );
}

PROP( floats_inside_bounds, {} ) {
	auto one = [&]<typename F>( F ) {
		F a = F( s.range<int>( -1000, 1000 ) ) / F( 8 ), b = F( s.range<int>( -1000, 1000 ) ) / F( 8 );
		switch( s.draw( 4 ) ) {
		case 0:
			a = 0;
			b = std::numeric_limits<F>::max( );
			break;
		case 1:
			b = std::nextafter( a, F( 1e9 ) );
			break;
		case 2:
			a = std::numeric_limits<F>::lowest( );
			b = 0;
			break;
		default:
			break;
		}
		if( b < a ) {
			std::swap( a, b );
		}
		s.note( [&] { return st( a ) + ".." + st( b ); } );
		auto r = daw::RandomFloat<F>( s.draw( 1000 ) );
		if( a < b ) {
			s.nontrivial( );
			F lo = b, hi = a;
			for( int i = 0; i < 16; ++i ) {
				F const v = r( b, a );
				CHECK( a <= v and v <= b );
				lo = std::min( lo, v );
				hi = std::max( hi, v );
			}
			if( ( b - a ) > std::abs( a ) / 1000 ) {
				CHECK( lo < hi );
			}
			CHECK_THROWS( std::runtime_error, (void)r( a, b ) );
		}
		CHECK_THROWS( std::runtime_error, (void)r( a, a ) );
		for( int i = 0; i < 4; ++i ) {
			F const v = r( );
			CHECK( F( 0 ) <= v and v <= F( 1 ) );
		}
	};
	if( s.boolean( ) ) {
		one( double{} );
	} else {
		one( float{} );
	}
}
// the values spread over the whole interval
PROP( floats_spread, ( { .cases = 300 } ) ) {
	s.nontrivial( );
	double const a = s.range<int>( -100, 100 ), w = s.range<int>( 1, 100 );
	auto r = daw::RandomFloat<double>( s.draw( 100000 ) );
	std::array<int, 8> hist{};
	for( int i = 0; i < 3200; ++i ) {
		auto const v = r( a + w, a );
		auto const k = std::min<std::size_t>( 7, std::size_t( ( v - a ) / w * 8 ) );
		++hist[k];
	}
	for( int c : hist ) {
		CHECK( c > 200 and c < 600 );
	}
}

// ---- shuffle ------------------------------------------------------------------
PROP( shuffle_permutes, {} ) {
	auto const n = s.len( 20 );
	daw::reseed( s.draw( 100000 ) );
	std::vector<int> v;
	for( std::size_t i = 0; i < n; ++i ) {
		v.push_back( s.range<int>( 0, 12 ) );
	}
	if( n > 1 ) {
		s.nontrivial( );
	}
	auto sorted = v;
	std::sort( sorted.begin( ), sorted.end( ) );
	auto same = [&]( auto first, auto last ) {
		std::vector<int> g;
		for( ; first != last; ++first ) {
			g.push_back( *first );
		}
		std::sort( g.begin( ), g.end( ) );
		CHECK( g == sorted );
	};
	auto e = Exact<int>::from( v );
	daw::shuffle( e.begin( ), e.end( ) );
	same( e.begin( ), e.end( ) );
	std::deque<int> d( v.begin( ), v.end( ) );
	daw::shuffle( d.begin( ), d.end( ) );
	same( d.begin( ), d.end( ) );
	std::vector<std::unique_ptr<int>> p;
	for( int x : v ) {
		p.push_back( std::make_unique<int>( x ) );
	}
	daw::shuffle( p.begin( ), p.end( ) );
	std::vector<int> g;
	for( auto const &q : p ) {
		CHECK( q != nullptr );
		g.push_back( *q );
	}
	same( g.begin( ), g.end( ) );
	// only the part asked for moves
	if( n >= 2 ) {
		auto const f = s.below( n ), l = f + s.below( n - f + 1 );
		auto w = v;
		daw::shuffle( w.begin( ) + std::ptrdiff_t( f ), w.begin( ) + std::ptrdiff_t( l ) );
		CHECK( std::equal( w.begin( ), w.begin( ) + std::ptrdiff_t( f ), v.begin( ) ) );
		CHECK( std::equal( w.begin( ) + std::ptrdiff_t( l ), w.end( ), v.begin( ) + std::ptrdiff_t( l ) ) );
		same( w.begin( ), w.end( ) );
	}
}
PROP( shuffle_reaches_every_order, ( { .cases = 12 } ) ) {
	auto const n = 2 + s.draw( 2 );
	daw::reseed( s.draw( 100000 ) );
	s.nontrivial( );
	std::vector<int> v( n );
	std::map<std::vector<int>, int> seen;
	int const each = 2000, perms = n == 2 ? 2 : n == 3 ? 6 : 24;
	for( int i = 0; i < each * perms; ++i ) {
		std::iota( v.begin( ), v.end( ), 0 );
		daw::shuffle( v.begin( ), v.end( ) );
		++seen[v];
	}
	CHECK_EQ( seen.size( ), std::size_t( perms ) );
	for( auto const &[k, c] : seen ) {
		CHECK( c > each * 4 / 5 and c < each * 6 / 5 ); // nine standard deviations
	}
}

// ---- the compile time generator -------------------------------------------------
namespace {
	template<std::size_t Seed>
	constexpr auto at_compile_time( ) {
		auto r = daw::static_random( Seed );
		std::array<std::size_t, 5> o{};
		for( auto &e : o ) {
			e = r( );
		}
		return o;
	}
	template<std::size_t Seed>
	void check_static( ) {
		constexpr auto ct = at_compile_time<Seed>( );
		auto volatile_seed = Seed;
		asm( "" : "+r"( volatile_seed ) );
		auto r = daw::static_random( volatile_seed );
		for( auto e : ct ) {
			CHECK_EQ( r( ), e );
		}
	}
} // namespace
PROP( static_random, {} ) {
	auto const seed = s.integer<std::uint64_t>( );
	s.nontrivial( );
	auto a = daw::static_random( seed ), b = daw::static_random( seed ), c = daw::static_random( seed + 1 );
	std::set<std::size_t> seen;
	bool differs = false;
	for( int i = 0; i < 32; ++i ) {
		auto const v = a( );
		CHECK_EQ( b( ), v );
		differs = differs or c( ) != v;
		CHECK( seen.insert( v ).second );
	}
	CHECK( differs );
	auto d = a;
	CHECK_EQ( d( ), a( ) );
	check_static<0>( );
	check_static<1>( );
	check_static<~std::size_t( 0 )>( );
	check_static<0x123456789abcdef0ULL>( );
}

// ---- RandomIterator ---------------------------------------------------------------
PROP( random_iterator, {} ) {
	auto const n = 1 + s.len( 9 );
	std::vector<int> v( n );
	std::iota( v.begin( ), v.end( ), 100 );
	auto e = Exact<int>::from( v );
	int *const base = e.begin( );
	auto it = daw::make_random_iterator( base );
	auto cit = daw::make_const_random_iterator( static_cast<int const *>( base ) );
	CHECK_STATIC( std::is_same_v<decltype( *cit ), int const &> );
	std::ptrdiff_t p = 0, cp = 0;
	auto const N = std::ptrdiff_t( n );
	std::string log;
	s.note( [&] { return log; } );
	for( std::size_t k = 1 + s.len( 12 ); k > 0; --k ) {
		s.nontrivial( );
		auto const to = s.range<std::ptrdiff_t>( 0, N );
		auto const op = s.draw( 9 );
		log += st( op ) + ":" + st( to ) + " ";
		switch( op ) {
		case 0:
			CHECK( &( it += to - p ) == &it );
			p = to;
			break;
		case 1:
			CHECK( &( it -= p - to ) == &it );
			p = to;
			break;
		case 2:
			if( p < N ) {
				CHECK( ( ++it ).ptr( ) == base + ++p );
			}
			break;
		case 3:
			if( p < N ) {
				CHECK( ( it++ ).ptr( ) == base + p++ );
			}
			break;
		case 4:
			if( p > 0 ) {
				CHECK( ( --it ).ptr( ) == base + --p );
			}
			break;
		case 5:
			if( p > 0 ) {
				CHECK( ( it-- ).ptr( ) == base + p-- );
			}
			break;
		case 6:
			CHECK( ( it + ( to - p ) ).ptr( ) == base + to );
			CHECK( ( it - ( p - to ) ).ptr( ) == base + to );
			break;
		case 7:
			it = base + to;
			p = to;
			break;
		case 8:
			cit += to - cp;
			cp = to;
			break;
		default: {
			auto const o = daw::RandomIterator<int>( base + to );
			CHECK_EQ( it == o, p == to );
			CHECK_EQ( it != o, p != to );
			CHECK_EQ( it < o, p < to );
			CHECK_EQ( it > o, p > to );
			CHECK_EQ( it <= o, p <= to );
			CHECK_EQ( it >= o, p >= to );
			CHECK_EQ( it - o, p - to );
			break;
		}
		}
		CHECK( it.ptr( ) == base + p );
		CHECK( cit.ptr( ) == base + cp );
		if( p < N ) {
			auto const c = it;
			CHECK( &*it == base + p and &*c == base + p );
			CHECK( it.operator->( ) == base + p );
			*it = *it + 1;
			++v[std::size_t( p )];
			CHECK( std::equal( v.begin( ), v.end( ), e.begin( ) ) );
		}
	}
}
