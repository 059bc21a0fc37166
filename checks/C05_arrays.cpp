// C05: fixed-capacity and array-like containers against std::vector.
// nontrivial: the container was modified away from its end, moved-from, or
// grew after elements were taken from its front.
// pbt-flags: -DNDEBUG -Wno-deprecated-declarations
// pbt-scale: 4
#include "pbt.h"
#include "daw/daw_bounded_array.h"
#include "daw/daw_bounded_vector.h"
#include "daw/daw_array.h"
#include "daw/daw_simple_array.h"
#include "daw/daw_unique_array.h"
#include "daw/deprecated/daw_carray.h"
#include "daw/deprecated/daw_fixed_array.h"
#include "daw/deprecated/daw_heap_array.h"
#include <algorithm>
#include <memory>
#include <optional>
using namespace pbt;

namespace {
	struct Pt {
		int x = 0, y = 0;
		Pt( ) = default;
		constexpr Pt( int v ) : x( v ), y( -v ) {}
		friend bool operator==( Pt const &a, Pt const &b ) = default;
	};
	int val( int v ) {
		return v;
	}
	int val( short v ) {
		return v;
	}
	int val( Pt const &p ) {
		if( p.y != -p.x ) {
			fail( "torn element" );
		}
		return p.x;
	}
	int val( TrackedPlain const &t ) {
		t.chk( "reading a dead element" );
		return t.v;
	}
	int val( std::string const &t ) {
		return static_cast<int>( t.size( ) );
	}
	template<typename T>
	T mk( int i ) {
		if constexpr( std::is_same_v<T, std::string> ) {
			return std::string( static_cast<std::size_t>( i ), 'q' );
		} else {
			return T( static_cast<T>( i ) );
		}
	}

	template<typename V>
	std::vector<int> fwd( V &v ) {
		std::vector<int> r;
		auto l = v.end( );
		for( auto it = v.begin( ); it != l; ++it ) {
			r.push_back( val( *it ) );
		}
		return r;
	}

	// ---- bounded vector -------------------------------------------------
	template<typename V>
	void same( V &v, std::vector<int> const &m, std::size_t N, char const *op ) {
		V const &c = v;
		auto got = fwd( v );
		if( got != m ) {
			fail( std::string( op ) + ": holds " + show( got ) + ", expected " + show( m ) );
		}
		CHECK( fwd( c ) == m );
		std::vector<int> r;
		for( auto it = c.cbegin( ); it != c.cend( ); ++it ) {
			r.push_back( val( *it ) );
		}
		CHECK( r == m );
		auto const rv = std::vector<int>( m.rbegin( ), m.rend( ) );
		r.clear( );
		for( auto it = v.rbegin( ); it != v.rend( ); ++it ) {
			r.push_back( val( *it ) );
		}
		CHECK( r == rv );
		r.clear( );
		for( auto it = c.crbegin( ); it != c.crend( ); ++it ) {
			r.push_back( val( *it ) );
		}
		CHECK( r == rv );
		r.clear( );
		for( auto it = c.rbegin( ); it != c.rend( ); ++it ) {
			r.push_back( val( *it ) );
		}
		CHECK( r == rv );
		CHECK_EQ( v.size( ), m.size( ) );
		CHECK_EQ( v.empty( ), m.empty( ) );
		CHECK_EQ( v.full( ), m.size( ) == N );
		CHECK_EQ( v.capacity( ), N );
		CHECK_EQ( v.available( ), N - m.size( ) );
		for( std::size_t i = 0; i <= N + 1; ++i ) {
			CHECK_EQ( v.has_room( i ), m.size( ) + i <= N );
		}
		for( std::size_t i = 0; i < m.size( ); ++i ) {
			CHECK_EQ( val( v[i] ), m[i] );
			CHECK_EQ( val( c[i] ), m[i] );
			CHECK_EQ( val( v.at( i ) ), m[i] );
			CHECK_EQ( val( c.at( i ) ), m[i] );
			CHECK_EQ( val( v.data( )[i] ), m[i] );
			CHECK_EQ( val( c.data( )[i] ), m[i] );
		}
		if( not m.empty( ) ) {
			CHECK_EQ( val( v.front( ) ), m.front( ) );
			CHECK_EQ( val( v.back( ) ), m.back( ) );
			CHECK_EQ( val( c.front( ) ), m.front( ) );
			CHECK_EQ( val( c.back( ) ), m.back( ) );
		}
	}

	template<typename T, std::size_t N>
	void bounded_vector( Src &s ) {
		using V = daw::bounded_vector_t<T, N>;
		V v[2];
		std::vector<int> m[2];
		// raw storage check: a guard object follows the vectors
		int next = 0;
		auto fresh = [&] { return next = next % 100 + 1; };
		if( s.boolean( ) ) {
			std::vector<T> src;
			std::size_t n = s.below( 2 * N + 1 );
			for( std::size_t i = 0; i < n; ++i ) {
				src.push_back( mk<T>( fresh( ) ) );
			}
			bool const it = s.boolean( ) and n <= N;
			if( it ) {
				v[0] = V( src.begin( ), src.end( ) );
			} else {
				v[0] = V( static_cast<T const *>( src.data( ) ), n );
			}
			for( std::size_t i = 0; i < std::min( n, N ); ++i ) {
				m[0].push_back( val( src[i] ) );
			}
			same( v[0], m[0], N, "constructor" );
		}
		std::size_t const steps = 1 + s.len( N > 100 ? N : 40 );
		bool popped = false;
		for( std::size_t st = 0; st < steps; ++st ) {
			std::size_t const k = s.chance( 1, 4 ) ? 1 : 0;
			V &x = v[k];
			auto &mm = m[k];
			char const *name = "?";
			std::size_t const room = N - mm.size( );
			switch( s.below( 18 ) ) {
			case 0: case 1: {
				name = "push_back";
				if( room == 0 ) {
					continue;
				}
				if( not mm.empty( ) and s.chance( 1, 3 ) ) {
					// one of its own elements
					std::size_t const i = s.below( mm.size( ) );
					s.label( "own element" );
					mm.push_back( int( mm[i] ) );
					if( s.boolean( ) ) {
						x.push_back( std::as_const( x )[i] );
					} else {
						x.emplace_back( std::as_const( x )[i] );
					}
				} else {
					int const e = fresh( );
					T const t = mk<T>( e );
					x.push_back( t );
					mm.push_back( e );
				}
				s.nontrivial( popped );
				break;
			}
			case 2:
				name = "push_back(&&)";
				if( room == 0 ) {
					continue;
				}
				mm.push_back( fresh( ) );
				x.push_back( mk<T>( mm.back( ) ) );
				break;
			case 3: {
				name = "push_back()";
				if( room == 0 ) {
					continue;
				}
				auto const p = x.push_back( );
				CHECK_EQ( p, mm.size( ) );
				x[p] = mk<T>( 55 );
				mm.push_back( 55 );
				break;
			}
			case 4: {
				name = "push_back(ptr,n)";
				std::size_t n = s.below( room + 1 );
				std::vector<T> src;
				for( std::size_t i = 0; i < n; ++i ) {
					mm.push_back( fresh( ) );
					src.push_back( mk<T>( mm.back( ) ) );
				}
				x.push_back( static_cast<T const *>( src.data( ) ), n );
				s.nontrivial( popped and n > 1 );
				break;
			}
			case 5: {
				name = "push_back(Ptr*,n)";
				std::size_t n = s.below( room + 1 );
				std::vector<short> src;
				for( std::size_t i = 0; i < n; ++i ) {
					mm.push_back( fresh( ) );
					src.push_back( static_cast<short>( mm.back( ) ) );
				}
				x.push_back( static_cast<short const *>( src.data( ) ), n );
				break;
			}
			case 6:
				name = "assign";
				{
					std::size_t n = s.below( N + 1 );
					x.assign( n, mk<T>( 9 ) );
					mm.assign( n, 9 );
				}
				break;
			case 7:
				name = "emplace_back";
				if( room == 0 ) {
					continue;
				}
				if( s.boolean( ) ) {
					mm.push_back( fresh( ) );
					x.emplace_back( mm.back( ) );
				} else {
					mm.push_back( 0 );
					x.emplace_back( );
				}
				s.nontrivial( popped );
				break;
			case 8:
				name = "pop_back";
				if( mm.empty( ) ) {
					continue;
				}
				CHECK_EQ( val( x.pop_back( ) ), mm.back( ) );
				mm.pop_back( );
				break;
			case 9: case 10: {
				name = "pop_front(n)";
				std::size_t n = s.below( mm.size( ) + 2 );
				if( n > mm.size( ) ) {
					CHECK_THROWS( std::out_of_range, x.pop_front( n ) );
				} else {
					x.pop_front( n );
					mm.erase( mm.begin( ), mm.begin( ) + static_cast<std::ptrdiff_t>( n ) );
					popped |= n > 0;
				}
				break;
			}
			case 11:
				name = "pop_front";
				if( mm.empty( ) ) {
					continue;
				}
				CHECK_EQ( val( x.pop_front( ) ), mm.front( ) );
				mm.erase( mm.begin( ) );
				popped = true;
				break;
			case 12: {
				name = "resize";
				std::size_t n = s.below( N + 2 );
				if( n > N ) {
					CHECK_THROWS( std::out_of_range, x.resize( n ) );
				} else {
					x.resize( n );
					mm.resize( n );
				}
				s.nontrivial( popped );
				break;
			}
			case 13: {
				name = "erase";
				if( mm.empty( ) ) {
					continue;
				}
				std::size_t p = s.below( mm.size( ) );
				auto it = x.erase( x.cbegin( ) + static_cast<std::ptrdiff_t>( p ) );
				CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
				mm.erase( mm.begin( ) + static_cast<std::ptrdiff_t>( p ) );
				s.nontrivial( p < mm.size( ) );
				break;
			}
			case 14: {
				name = "erase(range)";
				std::size_t p = s.below( mm.size( ) + 1 );
				std::size_t q = p + s.below( mm.size( ) - p + 1 );
				auto it = x.erase( x.cbegin( ) + static_cast<std::ptrdiff_t>( p ), x.cbegin( ) + static_cast<std::ptrdiff_t>( q ) );
				CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
				mm.erase( mm.begin( ) + static_cast<std::ptrdiff_t>( p ), mm.begin( ) + static_cast<std::ptrdiff_t>( q ) );
				s.nontrivial( p < q and q < mm.size( ) );
				break;
			}
			case 15:
				name = "swap";
				v[0].swap( v[1] );
				std::swap( m[0], m[1] );
				break;
			case 16:
				name = "copy";
				x = v[1 - k];
				mm = m[1 - k];
				break;
			default:
				if( s.chance( 1, 3 ) ) {
					name = "clear";
					x.clear( );
					mm.clear( );
				} else if constexpr( std::is_arithmetic_v<T> ) {
					name = "zero";
					x.zero( );
					std::fill( mm.begin( ), mm.end( ), 0 );
				}
			}
			s.label( name );
			s.note( [&] { return std::string( name ) + "[" + std::to_string( k ) + "]"; } );
			same( v[0], m[0], N, name );
			same( v[1], m[1], N, name );
		}
		if( s.chance( 1, 64 ) ) { // the documented check aborts
			auto &x = v[0];
			CHECK( aborts( [&] { (void)x.at( x.size( ) ); } ) );
			CHECK( aborts( [&] { (void)std::as_const( x ).at( x.size( ) + 1 ); } ) );
			CHECK( aborts( [&] { (void)x.at( ~std::size_t{ 0 } ); } ) );
		}
	}
	// a vector that can never hold anything
	PROP( bounded_vector_of_none, { .cases = 2000 } ) {
		using V = daw::bounded_vector_t<int, 0>;
		auto const n = s.below( 5 );
		s.nontrivial( n > 0 );
		int const src[4]{ };
		V v( src, 0 );
		V w{ };
		for( int k = 0; k < 2; ++k ) {
			CHECK( v.empty( ) );
			CHECK( v.full( ) );
			CHECK_EQ( v.size( ), std::size_t{ 0 } );
			CHECK_EQ( v.capacity( ), std::size_t{ 0 } );
			CHECK_EQ( v.available( ), std::size_t{ 0 } );
			CHECK( not v.has_room( 1 + n ) );
			CHECK( v.begin( ) == v.end( ) );
			CHECK( v.cbegin( ) == v.cend( ) );
			CHECK( v.rbegin( ) == v.rend( ) );
			CHECK( v.crbegin( ) == v.crend( ) );
			v.clear( );
			v.zero( );
			v.swap( w );
			if( n > 0 ) {
				CHECK_THROWS( std::out_of_range, v.resize( n ) );
			} else {
				v.resize( n );
			}
			w = v;
		}
	}
	PROP_T( bounded_vector_int_5, ( bounded_vector<int, 5> ), { .cases = 15000 } );
	PROP_T( bounded_vector_int_12, ( bounded_vector<int, 12> ), { .cases = 15000 } );
	PROP_T( bounded_vector_pt_8, ( bounded_vector<Pt, 8> ), { .cases = 15000 } );
	PROP_T( bounded_vector_int_300, ( bounded_vector<int, 300> ), { .cases = 300 } );
	PROP_T( bounded_vector_short_1, ( bounded_vector<short, 1> ), { .cases = 5000 } );

	// ---- fixed-size arrays ----------------------------------------------
	template<typename A, std::size_t N, bool Rev>
	void fixed( Src &s, A a, std::vector<int> m ) {
		auto check = [&]( A &v ) {
			A const &c = v;
			CHECK( fwd( v ) == m );
			CHECK( fwd( c ) == m );
			if constexpr( requires { std::integral_constant<std::size_t, A::size( )>{ }; } ) {
				CHECK_EQ( A::size( ), N );
			} else {
				CHECK_EQ( v.size( ), N );
			}
			CHECK_EQ( static_cast<std::size_t>( v.end( ) - v.begin( ) ), N );
			for( std::size_t i = 0; i < N; ++i ) {
				CHECK_EQ( val( v[i] ), m[i] );
				CHECK_EQ( val( c[i] ), m[i] );
				CHECK_EQ( val( c.data( )[i] ), m[i] );
			}
			if constexpr( requires { v.front( ); } ) {
				CHECK_EQ( val( v.front( ) ), m.front( ) );
				CHECK_EQ( val( c.front( ) ), m.front( ) );
				CHECK_EQ( val( v.back( ) ), m.back( ) );
				CHECK_EQ( val( c.back( ) ), m.back( ) );
			}
			if constexpr( requires { v.empty( ); } ) {
				CHECK( not v.empty( ) );
			}
			if constexpr( requires { v.cbegin( ); } ) {
				CHECK( std::equal( c.cbegin( ), c.cend( ), m.begin( ), m.end( ), []( auto const &x, int y ) { return val( x ) == y; } ) );
			}
			if constexpr( Rev ) {
				CHECK( std::equal( v.rbegin( ), v.rend( ), m.rbegin( ), m.rend( ) ) );
				CHECK( std::equal( c.rbegin( ), c.rend( ), m.rbegin( ), m.rend( ) ) );
				CHECK( std::equal( c.crbegin( ), c.crend( ), m.rbegin( ), m.rend( ) ) );
				CHECK_EQ( c.max_size( ), N );
			}
			if constexpr( requires { v.at( 0 ); } ) {
				for( std::size_t i = 0; i < N; ++i ) {
					CHECK_EQ( val( v.at( i ) ), m[i] );
					CHECK_EQ( val( c.at( i ) ), m[i] );
				}
				CHECK_THROWS( std::out_of_range, v.at( N ) );
				CHECK_THROWS( std::out_of_range, c.at( N + 1 ) );
			}
		};
		check( a );
		std::size_t steps = s.len( 12 );
		s.nontrivial( steps > 0 );
		for( std::size_t i = 0; i < steps; ++i ) {
			std::size_t p = s.below( N );
			int e = static_cast<int>( s.below( 100 ) );
			switch( s.below( 3 ) ) {
			case 0:
				a[p] = mk<std::remove_reference_t<decltype( a[0] )>>( e );
				m[p] = e;
				break;
			case 1:
				if constexpr( requires { a.fill( a[0] ); } ) {
					a.fill( mk<std::remove_reference_t<decltype( a[0] )>>( e ) );
					m.assign( N, e );
				}
				break;
			default: {
				A b( std::as_const( a ) );
				check( b );
				*( b.begin( ) + static_cast<std::ptrdiff_t>( p ) ) = mk<std::remove_reference_t<decltype( a[0] )>>( e );
				if( s.boolean( ) ) {
					a = std::as_const( b );
				} else {
					a = std::move( b );
				}
				m[p] = e;
			}
			}
			check( a );
		}
	}
	std::vector<int> ints( Src &s, std::size_t n ) {
		std::vector<int> r( n );
		for( auto &x : r ) {
			x = static_cast<int>( s.below( 100 ) );
		}
		return r;
	}
	PROP( fixed_arrays, { .cases = 20000 } ) {
		switch( s.below( 6 ) ) {
		case 0: {
			auto m = ints( s, 4 );
			fixed<daw::array<int, 4>, 4, false>( s, daw::array<int, 4>{ { m[0], m[1], m[2], m[3] } }, m );
			auto const a = daw::array<int, 4>{ { m[0], m[1], m[2], m[3] } };
			auto m2 = s.boolean( ) ? ints( s, 4 ) : m;
			if( s.boolean( ) ) {
				m2 = m;
				m2[3] ^= 1;
			}
			auto const b = daw::array<long, 4>{ { m2[0], m2[1], m2[2], m2[3] } };
			CHECK_EQ( a == b, m == m2 );
			CHECK_EQ( a != b, m != m2 );
			break;
		}
		case 1: {
			auto m = ints( s, 3 );
			fixed<daw::array<std::string, 3>, 3, false>( s, daw::array<std::string, 3>{ { mk<std::string>( m[0] ), mk<std::string>( m[1] ), mk<std::string>( m[2] ) } }, m );
			break;
		}
		case 2: {
			auto m = ints( s, 5 );
			fixed<daw::simple_array<int, 5>, 5, false>( s, daw::simple_array<int, 5>{ m[0], m[1], m[2], m[3], m[4] }, m );
			daw::simple_array<int, 5> a{ m[0], m[1], m[2], m[3], m[4] };
			CHECK( a.date_end( ) == a.data( ) + 5 );
			CHECK( std::as_const( a ).date_end( ) == a.data( ) + 5 );
			daw::simple_array d = { m[0], m[1] };
			CHECK( d.size( ) == 2 and d[0] == m[0] and d[1] == m[1] );
			daw::simple_array<int, 0> z;
			CHECK( z.size( ) == 0 and z.begin( ) == z.end( ) );
			break;
		}
		case 3: {
			auto m = ints( s, 4 );
			int raw[4] = { m[0], m[1], m[2], m[3] };
			fixed<daw::carray<int, 4>, 4, true>( s, daw::carray<int, 4>( raw ), m );
			m[2] = m[3] = 0;
			fixed<daw::carray<int, 4>, 4, true>( s, daw::carray<int, 4>( m[0], m[1] ), m );
			daw::carray<int, 4> a( m[0], m[1] ), b( raw );
			swap( a, b );
			CHECK( fwd( b ) == m );
			CHECK( std::equal( a.begin( ), a.end( ), raw ) );
			b = raw;
			CHECK( std::equal( b.begin( ), b.end( ), raw ) );
			break;
		}
		case 4: {
			auto m = ints( s, 3 );
			int raw[3] = { m[0], m[1], m[2] };
			auto a = daw::to_array( raw );
			CHECK( std::vector<int>( a.begin( ), a.end( ) ) == m );
			auto b = daw::make_array( m[0], m[1], m[2] );
			CHECK( std::vector<int>( b.begin( ), b.end( ) ) == m );
			auto c = daw::make_array<int>( m[0], m[1], m[2] );
			CHECK( std::vector<int>( c.begin( ), c.end( ) ) == m );
			auto d = daw::make_string_array( "a", std::string( static_cast<std::size_t>( m[0] ), 'x' ) );
			CHECK( d[0] == "a" and d[1].size( ) == static_cast<std::size_t>( m[0] ) );
			daw::md_stdarray_t<int, 2, 3> e{ };
			CHECK( e.size( ) == 2 and e[0].size( ) == 3 );
			s.nontrivial( );
			break;
		}
		default: {
			auto m = ints( s, 1 );
			fixed<daw::carray<int, 1>, 1, true>( s, daw::carray<int, 1>( m[0] ), m );
		}
		}
	}

	// ---- heap allocated arrays: two of them, construct/copy/move/clear ----
	template<typename A>
	void check_heap( A &a, std::vector<int> const &m ) {
		A const &c = a;
		CHECK_EQ( a.size( ), m.size( ) );
		CHECK( fwd( a ) == m );
		CHECK( fwd( c ) == m );
		std::vector<int> r;
		for( auto it = c.cbegin( ); it != c.cend( ); ++it ) {
			r.push_back( val( *it ) );
		}
		CHECK( r == m );
		for( std::size_t i = 0; i < m.size( ); ++i ) {
			CHECK_EQ( val( a[i] ), m[i] );
			CHECK_EQ( val( c[i] ), m[i] );
		}
		if constexpr( requires { a.data( ); } ) {
			CHECK( a.data( ) == c.data( ) );
			for( std::size_t i = 0; i < m.size( ); ++i ) {
				CHECK_EQ( val( c.data( )[i] ), m[i] );
			}
		}
		if( not m.empty( ) ) {
			CHECK_EQ( val( a.front( ) ), m.front( ) );
			CHECK_EQ( val( c.front( ) ), m.front( ) );
			CHECK_EQ( val( a.back( ) ), m.back( ) );
			CHECK_EQ( val( c.back( ) ), m.back( ) );
		}
		if constexpr( requires { a.empty( ); } ) {
			CHECK_EQ( c.empty( ), m.empty( ) );
		}
		if constexpr( requires { a.capacity( ); } ) {
			CHECK_EQ( c.capacity( ), m.size( ) );
		}
	}

	template<typename T>
	void heap_array( Src &s ) {
		long const live0 = g_live;
		{
			using A = daw::heap_array<T>;
			std::optional<A> v[2];
			std::vector<int> m[2];
			v[0].emplace( );
			v[1].emplace( );
			std::size_t steps = 1 + s.len( 25 );
			for( std::size_t st = 0; st < steps; ++st ) {
				std::size_t k = s.below( 2 );
				auto &mm = m[k];
				auto n = s.longlen( 8 );
				auto xs = ints( s, n );
				std::vector<T> ys;
				for( int x : xs ) {
					ys.push_back( mk<T>( x ) );
				}
				char const *name = "";
				switch( s.below( 13 ) ) {
				case 0:
					name = "ctor(n)";
					v[k].emplace( n );
					for( auto &e : *v[k] ) {
						e = mk<T>( 3 );
					}
					mm.assign( n, 3 );
					break;
				case 1:
					name = "ctor(n,x)";
					v[k].emplace( n, mk<T>( 4 ) );
					mm.assign( n, 4 );
					break;
				case 2:
					name = "ctor(ptr,n)";
					v[k].emplace( ys.data( ), n );
					mm = xs;
					break;
				case 3:
					name = "copy ctor";
					v[k].emplace( std::as_const( *v[1 - k] ) );
					mm = m[1 - k];
					break;
				case 4:
					name = "move ctor";
					{
						A t( std::move( *v[1 - k] ) );
						check_heap( t, m[1 - k] );
						v[k].emplace( std::move( t ) );
						mm = m[1 - k];
						m[1 - k].clear( );
						s.nontrivial( not mm.empty( ) );
					}
					break;
				case 5:
					name = "copy assign";
					*v[k] = std::as_const( *v[1 - k] );
					mm = m[1 - k];
					s.nontrivial( );
					break;
				case 6:
					name = "move assign";
					*v[k] = std::move( *v[1 - k] );
					mm = m[1 - k];
					m[1 - k].clear( );
					s.nontrivial( not mm.empty( ) );
					break;
				case 7:
					name = "self copy";
					*v[k] = std::as_const( *v[k] );
					break;
				case 8:
					name = "assign il";
					*v[k] = { mk<T>( 1 ), mk<T>( 2 ) };
					mm = { 1, 2 };
					break;
				case 9:
					name = "swap";
					if( s.boolean( ) ) {
						v[0]->swap( *v[1] );
					} else {
						swap( *v[0], *v[1] );
					}
					std::swap( m[0], m[1] );
					break;
				case 10:
					name = "clear";
					v[k]->clear( );
					mm.clear( );
					CHECK( not static_cast<bool>( *v[k] ) );
					break;
				case 11:
					name = "find";
					if( v[k]->data( ) != nullptr ) {
						int const want = mm.empty( ) or s.boolean( ) ? static_cast<int>( s.below( 100 ) ) : s.pick_of( mm );
						auto const at = s.below( mm.size( ) + 1 );
						auto it = s.boolean( ) ? v[k]->find_first_of( mk<T>( want ), v[k]->cbegin( ) + at ) : ( v[k]->find_first_of( mk<T>( want ) ) );
						(void)it;
						auto const f = v[k]->find_first_of( mk<T>( want ), v[k]->cbegin( ) + at );
						auto const e = std::find( mm.begin( ) + static_cast<std::ptrdiff_t>( at ), mm.end( ), want );
						CHECK_EQ( f - v[k]->begin( ), e - mm.begin( ) );
						auto const f2 = v[k]->find_first_of( mk<T>( want ) );
						CHECK_EQ( f2 - v[k]->begin( ), std::find( mm.begin( ), mm.end( ), want ) - mm.begin( ) );
					}
					break;
				default:
					name = "write";
					if( not mm.empty( ) ) {
						auto p = s.below( mm.size( ) );
						( *v[k] )[p] = mk<T>( 77 );
						mm[p] = 77;
					}
				}
				s.label( name );
				s.note( [&] { return std::string( name ); } );
				check_heap( *v[0], m[0] );
				check_heap( *v[1], m[1] );
				CHECK( static_cast<bool>( *v[0] ) == ( v[0]->data( ) != nullptr ) );
			}
			for( int k = 0; k < 2; ++k ) {
				for( std::size_t i = 0; i < m[k].size( ); ++i ) {
					CHECK_EQ( val( v[k]->at( i ) ), m[k][i] );
					CHECK_EQ( val( std::as_const( *v[k] ).at( i ) ), m[k][i] );
				}
				CHECK_THROWS( std::exception, v[k]->at( m[k].size( ) ) );
				CHECK_THROWS( std::exception, std::as_const( *v[k] ).at( m[k].size( ) ) );
			}
		}
		CHECK_EQ( g_live, live0 );
	}
	PROP_T( heap_array_int, heap_array<int>, { .cases = 15000 } );
	PROP_T( heap_array_tracked, heap_array<TrackedPlain>, { .cases = 15000 } );

	template<typename T>
	void fixed_array( Src &s ) {
		long const live0 = g_live;
		{
			using A = daw::fixed_array<T>;
			std::optional<A> v[2];
			std::vector<int> m[2];
			v[0].emplace( );
			v[1].emplace( );
			std::size_t steps = 1 + s.len( 25 );
			for( std::size_t st = 0; st < steps; ++st ) {
				std::size_t k = s.below( 2 );
				auto &mm = m[k];
				auto n = s.longlen( 8 );
				auto xs = ints( s, n );
				std::vector<T> ys;
				for( int x : xs ) {
					ys.push_back( mk<T>( x ) );
				}
				char const *name = "";
				switch( s.below( 13 ) ) {
				case 0:
					name = "ctor(n)";
					v[k].emplace( n );
					mm.assign( n, val( T{ } ) );
					break;
				case 1:
					name = "ctor(n,x)";
					{
						T const t = mk<T>( 4 );
						v[k].emplace( n, t );
					}
					mm.assign( n, 4 );
					break;
				case 2:
					name = "ctor(it,n)";
					v[k].emplace( ys.begin( ), n );
					mm = xs;
					break;
				case 3:
					name = "ctor(it,it)";
					v[k].emplace( ys.begin( ), ys.end( ) );
					mm = xs;
					break;
				case 4:
					name = "copy ctor";
					v[k].emplace( std::as_const( *v[1 - k] ) );
					mm = m[1 - k];
					break;
				case 5: {
					name = "move ctor";
					A t( std::move( *v[1 - k] ) );
					check_heap( t, m[1 - k] );
					v[k].emplace( std::move( t ) );
					mm = m[1 - k];
					m[1 - k].clear( );
					s.nontrivial( not mm.empty( ) );
					break;
				}
				case 6:
					name = "copy assign";
					*v[k] = std::as_const( s.boolean( ) ? *v[k] : *v[1 - k] );
					if( fwd( *v[k] ) != mm ) {
						mm = m[1 - k];
					}
					s.nontrivial( );
					break;
				case 7:
					name = "move assign";
					*v[k] = std::move( *v[1 - k] );
					mm = m[1 - k];
					m[1 - k].clear( );
					s.nontrivial( not mm.empty( ) );
					break;
				case 8:
					name = "in_place";
					v[k].emplace( std::in_place, mk<T>( 1 ), mk<T>( 2 ), mk<T>( 3 ) );
					mm = { 1, 2, 3 };
					if( s.boolean( ) ) {
						auto a = daw::fixed_array( std::in_place_type<T>, mk<T>( 5 ), mk<T>( 6 ) );
						check_heap( a, { 5, 6 } );
					}
					break;
				case 9:
					name = "clear";
					v[k]->clear( );
					mm.clear( );
					break;
				case 10: {
					name = "release";
					auto p = v[k]->release( );
					for( std::size_t i = 0; i < mm.size( ); ++i ) {
						CHECK_EQ( val( p[i] ), mm[i] );
					}
					if( s.boolean( ) and p ) {
						v[k].emplace( p.release( ), mm.size( ) ); // adopt
					} else {
						mm.clear( );
					}
					break;
				}
				case 11:
					name = "for overwrite";
					v[k].emplace( daw::construct_for_overwrite, n );
					for( std::size_t i = 0; i < n; ++i ) {
						( *v[k] )[i] = ys[i];
					}
					mm = xs;
					break;
				default:
					name = "write";
					if( not mm.empty( ) ) {
						auto p = s.below( mm.size( ) );
						( *v[k] )[p] = mk<T>( 77 );
						mm[p] = 77;
					}
				}
				s.label( name );
				s.note( [&] { return std::string( name ); } );
				check_heap( *v[0], m[0] );
				check_heap( *v[1], m[1] );
			}
		}
		CHECK_EQ( g_live, live0 );
	}
	PROP_T( fixed_array_string, fixed_array<std::string>, { .cases = 10000 } );
	PROP_T( fixed_array_tracked, fixed_array<TrackedPlain>, { .cases = 15000 } );

	template<typename T>
	void unique_array( Src &s ) {
		long const live0 = g_live;
		{
			using A = daw::unique_array_t<T>;
			std::optional<A> v[2];
			std::vector<int> m[2];
			v[0].emplace( );
			v[1].emplace( );
			std::size_t steps = 1 + s.len( 25 );
			for( std::size_t st = 0; st < steps; ++st ) {
				std::size_t k = s.below( 2 );
				auto &mm = m[k];
				auto n = s.longlen( 8 );
				char const *name = "";
				switch( s.below( 6 ) ) {
				case 0:
					name = "ctor(n)";
					v[k].emplace( n );
					for( auto &e : *v[k] ) {
						e = mk<T>( 3 );
					}
					mm.assign( n, 3 );
					break;
				case 1: {
					name = "ctor(n,x)";
					v[k].emplace( n, mk<T>( 4 ) );
					mm.assign( n, 4 );
					break;
				}
				case 2: {
					name = "move ctor";
					A t( std::move( *v[1 - k] ) );
					check_heap( t, m[1 - k] );
					v[k].emplace( std::move( t ) );
					mm = m[1 - k];
					m[1 - k].clear( );
					s.nontrivial( not mm.empty( ) );
					break;
				}
				case 3:
					name = "move assign";
					*v[k] = std::move( *v[1 - k] );
					mm = m[1 - k];
					m[1 - k].clear( );
					s.nontrivial( not mm.empty( ) );
					break;
				case 4: {
					name = "self move";
					auto &self = *v[k];
					*v[k] = std::move( self );
					break;
				}
				default:
					name = "write";
					if( not mm.empty( ) ) {
						auto p = s.below( mm.size( ) );
						v[k]->at( p ) = mk<T>( 77 );
						mm[p] = 77;
					}
				}
				s.label( name );
				check_heap( *v[0], m[0] );
				check_heap( *v[1], m[1] );
			}
			for( int k = 0; k < 2; ++k ) {
				for( std::size_t i = 0; i < m[k].size( ); ++i ) {
					CHECK_EQ( val( v[k]->at( i ) ), m[k][i] );
					CHECK_EQ( val( std::as_const( *v[k] ).at( i ) ), m[k][i] );
				}
				CHECK_THROWS( std::out_of_range, v[k]->at( m[k].size( ) ) );
				CHECK_THROWS( std::out_of_range, std::as_const( *v[k] ).at( m[k].size( ) ) );
			}
		}
		CHECK_EQ( g_live, live0 );
	}
	PROP_T( unique_array_int, unique_array<int>, { .cases = 10000 } );
	PROP_T( unique_array_tracked, unique_array<TrackedPlain>, { .cases = 15000 } );
} // namespace
