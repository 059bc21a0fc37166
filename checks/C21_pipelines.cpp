// C21: pipelines against the composition of list functions.  Stages are drawn
// with random parameters, all ordered pairs and a fixed pseudo-random choice of
// triples of stage types are composed at compile time, and the result of every
// traversal (twice, multi-pass, backwards and by position where offered) must
// be the list the reference functions give.  Sources live in exact-size heap
// buffers, so a stage that reads past its source is caught.
// nontrivial: the source is not empty and the expected result neither is empty
// nor equals the source.
// pbt-scale: 2
// pbt-parts: 8
#include "pbt.h"
#include "daw/daw_contiguous_view.h"
#include "daw/daw_pipelines.h"
#include "daw/daw_string_view.h"
#include <cmath>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <vector>
using namespace pbt;
namespace dp = daw::pipelines;

namespace {
	using V = std::vector<int>;

	inline int wrap( long long x ) {
		return static_cast<int>( ( ( x % 19 ) + 19 ) % 19 ) - 6;
	}
	struct Affine {
		int a = 1;
		int b = 0;
		int operator( )( int x ) const {
			return wrap( static_cast<long long>( x ) * a + b );
		}
	};
	struct Pred {
		int kind = 0;
		int k = 0;
		bool operator( )( int x ) const {
			switch( kind ) {
			case 0:
				return x < k;
			case 1:
				return x >= k;
			case 2:
				return x % 2 == 0;
			case 3:
				return x != k;
			case 4:
				return x == k;
			case 5:
				return true;
			default:
				return false;
			}
		}
	};
	inline Pred pred( Src &s ) {
		return Pred{ s.range<int>( 0, 6 ), s.range<int>( -6, 12 ) };
	}
	struct Add {
		int operator( )( int a, int b ) const {
			return wrap( static_cast<long long>( a ) * 5 + b );
		}
	};
	struct AddIdx {
		int operator( )( std::size_t a, int b ) const {
			return wrap( static_cast<long long>( a ) * 3 + b );
		}
	};
	struct SumOf {
		int operator( )( auto const &r ) const {
			long long t = 7;
			int n = 0;
			for( auto it = r.begin( ); it != r.end( ); ++it ) {
				t = ( t * 31 + *it + 100 ) % 100003;
				++n;
			}
			return wrap( t * 10 + n );
		}
	};
	inline std::size_t count_param( Src &s ) {
		return s.weighted( { 8, 1 } ) == 0
		         ? s.range<std::size_t>( 0, 12 )
		         : s.pick<std::size_t>( { 17, 100, 127, 200, 256, 270, 1000000, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2, SIZE_MAX / 2 + 1 } );
	}
	// the size of a chunk or window
	inline std::size_t width_param( Src &s ) {
		return s.weighted( { 15, 1 } ) == 0
		         ? s.range<std::size_t>( 1, 7 )
		         : s.pick<std::size_t>( { 17, 100, 127, 200, 256, 270, 1000000, SIZE_MAX, SIZE_MAX / 2, SIZE_MAX / 2 + 1 } );
	}

	struct SMap {
		Affine f;
		explicit SMap( Src &s )
		  : f{ s.range<int>( -3, 3 ), s.range<int>( -4, 4 ) } {}
		auto stage( ) const {
			return dp::Map( Affine( f ) );
		}
		V model( V const &v ) const {
			V r;
			for( int x : v ) {
				r.push_back( f( x ) );
			}
			return r;
		}
	};
	struct SMapProj {
		Affine f;
		Affine p;
		explicit SMapProj( Src &s )
		  : f{ s.range<int>( -3, 3 ), s.range<int>( -4, 4 ) }
		  , p{ 2, 1 } {}
		auto stage( ) const {
			return dp::Map( Affine( f ), Affine( p ) );
		}
		V model( V const &v ) const {
			V r;
			for( int x : v ) {
				r.push_back( f( p( x ) ) );
			}
			return r;
		}
	};
	struct SFilter {
		Pred p;
		explicit SFilter( Src &s )
		  : p( pred( s ) ) {}
		auto stage( ) const {
			return dp::Filter( Pred( p ) );
		}
		V model( V const &v ) const {
			V r;
			for( int x : v ) {
				if( p( x ) ) {
					r.push_back( x );
				}
			}
			return r;
		}
	};
	struct SFilterNot {
		Pred p;
		explicit SFilterNot( Src &s )
		  : p( pred( s ) ) {}
		auto stage( ) const {
			return dp::Filter( dp::Not( Pred( p ) ) );
		}
		V model( V const &v ) const {
			V r;
			for( int x : v ) {
				if( not p( x ) ) {
					r.push_back( x );
				}
			}
			return r;
		}
	};
	struct STake {
		std::size_t n;
		explicit STake( Src &s )
		  : n( count_param( s ) ) {}
		auto stage( ) const {
			return dp::Take( n );
		}
		V model( V const &v ) const {
			return V( v.begin( ), v.begin( ) + static_cast<std::ptrdiff_t>( std::min( n, v.size( ) ) ) );
		}
	};
	struct SSkip {
		static constexpr bool assigns = true;
		std::size_t n;
		explicit SSkip( Src &s )
		  : n( count_param( s ) ) {}
		auto stage( ) const {
			return dp::Skip( n );
		}
		V model( V const &v ) const {
			return V( v.begin( ) + static_cast<std::ptrdiff_t>( std::min( n, v.size( ) ) ), v.end( ) );
		}
	};
	struct STakeWhile {
		Pred p;
		explicit STakeWhile( Src &s )
		  : p( pred( s ) ) {}
		auto stage( ) const {
			return dp::TakeWhile( Pred( p ) );
		}
		V model( V const &v ) const {
			V r;
			for( int x : v ) {
				if( not p( x ) ) {
					break;
				}
				r.push_back( x );
			}
			return r;
		}
	};
	struct STakeUntil {
		Pred p;
		explicit STakeUntil( Src &s )
		  : p( pred( s ) ) {}
		auto stage( ) const {
			return dp::TakeUntil( Pred( p ) );
		}
		V model( V const &v ) const {
			V r;
			for( int x : v ) {
				if( p( x ) ) {
					break;
				}
				r.push_back( x );
			}
			return r;
		}
	};
	struct SDropWhile {
		Pred p;
		explicit SDropWhile( Src &s )
		  : p( pred( s ) ) {}
		auto stage( ) const {
			return dp::DropWhile( Pred( p ) );
		}
		V model( V const &v ) const {
			std::size_t n = 0;
			while( n < v.size( ) and p( v[n] ) ) {
				++n;
			}
			return V( v.begin( ) + static_cast<std::ptrdiff_t>( n ), v.end( ) );
		}
	};
	struct SDropUntil {
		Pred p;
		explicit SDropUntil( Src &s )
		  : p( pred( s ) ) {}
		auto stage( ) const {
			return dp::DropUntil( Pred( p ) );
		}
		V model( V const &v ) const {
			std::size_t n = 0;
			while( n < v.size( ) and not p( v[n] ) ) {
				++n;
			}
			return V( v.begin( ) + static_cast<std::ptrdiff_t>( n ), v.end( ) );
		}
	};
	struct SEvery {
		static constexpr bool fixed = true;
		std::size_t n;
		explicit SEvery( Src &s )
		  : n( s.range<std::size_t>( 1, 6 ) ) {}
		auto stage( ) const {
			return dp::Every( n );
		}
		V model( V const &v ) const {
			V r;
			for( std::size_t i = 0; i < v.size( ); i += n ) {
				r.push_back( v[i] );
			}
			return r;
		}
	};
	struct SUnique {
		explicit SUnique( Src & ) {}
		auto stage( ) const {
			return dp::Unique;
		}
		V model( V const &v ) const {
			V r;
			for( int x : v ) {
				if( r.empty( ) or r.back( ) != x ) {
					r.push_back( x );
				}
			}
			return r;
		}
	};
	struct SClamp {
		static constexpr bool fixed = true;
		int lo;
		int hi;
		explicit SClamp( Src &s )
		  : lo( s.range<int>( -6, 12 ) )
		  , hi( s.range<int>( lo, 13 ) ) {}
		auto stage( ) const {
			return dp::Clamp( static_cast<int>( lo ), hi );
		}
		V model( V const &v ) const {
			V r;
			for( int x : v ) {
				r.push_back( std::clamp( x, lo, hi ) );
			}
			return r;
		}
	};
	struct SEnum {
		static constexpr bool assigns = true;
		static constexpr bool enumerates = true;
		static constexpr bool fixed = true;
		std::size_t off;
		explicit SEnum( Src &s )
		  : off( s.range<std::size_t>( 0, 9 ) ) {}
		auto stage( ) const {
			return dp::pipeline( dp::EnumerateFrom( off ), dp::MapApply( AddIdx{ } ) );
		}
		V model( V const &v ) const {
			V r;
			for( std::size_t i = 0; i < v.size( ); ++i ) {
				r.push_back( AddIdx{ }( i + off, v[i] ) );
			}
			return r;
		}
	};
	// zipped with a second range of another length, which is held by the stage
	struct SZip {
		static constexpr bool assigns = true;
		static constexpr bool zips = true;
		static constexpr bool fixed = true;
		std::shared_ptr<Exact<int>> other;
		explicit SZip( Src &s ) {
			V o;
			auto const n = s.len( 12 );
			for( std::size_t i = 0; i < n; ++i ) {
				o.push_back( s.range<int>( -6, 12 ) );
			}
			other = std::make_shared<Exact<int>>( Exact<int>::from( o ) );
		}
		auto stage( ) const {
			return dp::pipeline( dp::ZipMore( daw::contiguous_view<int const>( other->data( ), other->size( ) ) ),
			                     dp::MapApply( Add{ } ) );
		}
		V model( V const &v ) const {
			V r;
			for( std::size_t i = 0; i < std::min( v.size( ), other->size( ) ); ++i ) {
				r.push_back( Add{ }( other->data( )[i], v[i] ) );
			}
			return r;
		}
	};
	struct SChunk {
		static constexpr bool fixed = true;
		static constexpr bool assigns = true;
		std::size_t n;
		explicit SChunk( Src &s )
		  : n( width_param( s ) ) {}
		auto stage( ) const {
			return dp::pipeline( dp::Chunk( n ), dp::Map( SumOf{ } ) );
		}
		V model( V const &v ) const {
			V r;
			auto const w = std::min( n, v.size( ) );
			for( std::size_t i = 0; i < v.size( ); i += w ) {
				r.push_back( SumOf{ }( V( v.begin( ) + static_cast<std::ptrdiff_t>( i ),
				                          v.begin( ) + static_cast<std::ptrdiff_t>( std::min( v.size( ), i + w ) ) ) ) );
			}
			return r;
		}
	};
	// a range shorter than the window: the whole range is the only window
	struct SSlide {
		static constexpr bool fixed = true;
		static constexpr bool assigns = true;
		std::size_t n;
		explicit SSlide( Src &s )
		  : n( width_param( s ) ) {}
		auto stage( ) const {
			return dp::pipeline( dp::Slide( n ), dp::Map( SumOf{ } ) );
		}
		V model( V const &v ) const {
			V r;
			if( not v.empty( ) and v.size( ) < n ) {
				r.push_back( SumOf{ }( v ) );
			}
			for( std::size_t i = 0; n <= v.size( ) and i + n <= v.size( ); ++i ) {
				r.push_back( SumOf{ }( V( v.begin( ) + static_cast<std::ptrdiff_t>( i ),
				                          v.begin( ) + static_cast<std::ptrdiff_t>( i + n ) ) ) );
			}
			return r;
		}
	};
	// an empty piece after a final delimiter is not reported
	inline std::vector<V> split_model( V const &v, auto is_delim_at, std::size_t len ) {
		std::vector<V> r;
		std::size_t i = 0;
		while( i < v.size( ) ) {
			std::size_t j = i;
			while( j < v.size( ) and not is_delim_at( j ) ) {
				++j;
			}
			r.emplace_back( v.begin( ) + static_cast<std::ptrdiff_t>( i ), v.begin( ) + static_cast<std::ptrdiff_t>( j ) );
			i = j < v.size( ) ? j + len : j;
		}
		return r;
	}
	struct SSplit {
		static constexpr bool assigns = true;
		int d;
		explicit SSplit( Src &s )
		  : d( s.range<int>( -6, 12 ) ) {}
		auto stage( ) const {
			return dp::pipeline( dp::Split( static_cast<int>( d ) ), dp::Map( SumOf{ } ) );
		}
		V model( V const &v ) const {
			V r;
			for( auto const &p : split_model(
			       v,
			       [&]( std::size_t j ) {
				       return v[j] == d;
			       },
			       1 ) ) {
				r.push_back( SumOf{ }( p ) );
			}
			return r;
		}
	};
	struct SSplitIf {
		static constexpr bool assigns = true;
		Pred p;
		explicit SSplitIf( Src &s )
		  : p( pred( s ) ) {}
		auto stage( ) const {
			return dp::pipeline( dp::Split( Pred( p ) ), dp::Map( SumOf{ } ) );
		}
		V model( V const &v ) const {
			V r;
			for( auto const &q : split_model(
			       v,
			       [&]( std::size_t j ) {
				       return p( v[j] );
			       },
			       1 ) ) {
				r.push_back( SumOf{ }( q ) );
			}
			return r;
		}
	};
	struct SSplitSeq {
		static constexpr bool assigns = true;
		std::array<int, 2> d;
		explicit SSplitSeq( Src &s )
		  : d{ s.range<int>( -2, 1 ), s.range<int>( -2, 1 ) } {}
		auto stage( ) const {
			return dp::pipeline( dp::Split( std::array<int, 2>( d ) ), dp::Map( SumOf{ } ) );
		}
		V model( V const &v ) const {
			V r;
			for( auto const &q : split_model(
			       v,
			       [&]( std::size_t j ) {
				       return j + 1 < v.size( ) and v[j] == d[0] and v[j + 1] == d[1];
			       },
			       2 ) ) {
				r.push_back( SumOf{ }( q ) );
			}
			return r;
		}
	};
	struct SCache {
		static constexpr bool last_only = true;
		explicit SCache( Src & ) {}
		auto stage( ) const {
			return dp::CacheLast;
		}
		V model( V const &v ) const {
			return v;
		}
	};
	struct SReverse {
		static constexpr bool assigns = true;
		explicit SReverse( Src & ) {}
		auto stage( ) const {
			return dp::Reverse;
		}
		V model( V const &v ) const {
			return V( v.rbegin( ), v.rend( ) );
		}
	};

	inline V source( Src &s, std::size_t max = 14 ) {
		auto const n = s.longlen( max, 400, 150 );
		V v;
		bool const few = s.boolean( );
		for( std::size_t i = 0; i < n; ++i ) {
			v.push_back( few ? s.range<int>( -2, 1 ) : s.range<int>( -6, 12 ) );
		}
		return v;
	}

	// every way of walking the range that its iterators offer
	// Zipped ranges of different lengths end in different places, they are only
	// walked forwards.
	template<bool Back, bool Ordered, typename R>
	void check_walk( Src &s, R &r, V const &want ) {
		for( int pass = 0; pass < 2; ++pass ) {
			V got;
			auto first = std::begin( r );
			auto last = std::end( r );
			while( first != last ) {
				CHECK( got.size( ) <= want.size( ) );
				got.push_back( static_cast<int>( *first ) );
				++first;
			}
			CHECK_EQ( got, want );
			CHECK( not( first != std::end( r ) ) );
		}
		{
			// dereferencing is optional and repeatable; copies stand alone
			auto first = std::begin( r );
			std::size_t i = 0;
			while( first != std::end( r ) ) {
				auto cp = first;
				if( s.boolean( ) ) {
					CHECK_EQ( static_cast<int>( *first ), want.at( i ) );
					CHECK_EQ( static_cast<int>( *first ), want.at( i ) );
				}
				if( s.boolean( ) ) {
					++first;
				} else {
					auto old = first++;
					CHECK_EQ( static_cast<int>( *old ), want.at( i ) );
				}
				CHECK_EQ( static_cast<int>( *cp ), want.at( i ) );
				++cp;
				CHECK( not( cp != first ) );
				if constexpr( requires { cp == first; } ) {
					CHECK( cp == first );
				}
				if( first != std::end( r ) ) {
					CHECK_EQ( static_cast<int>( *cp ), static_cast<int>( *first ) );
				}
				++i;
			}
			CHECK_EQ( i, want.size( ) );
		}
		using It = decltype( std::begin( r ) );
		if constexpr( Back and requires( It it ) {
			              --it;
			              std::end( r ) == it;
		              } and
		              std::is_same_v<It, decltype( std::end( r ) )> ) {
			auto it = std::end( r );
			for( std::size_t i = want.size( ); i-- > 0; ) {
				--it;
				CHECK_EQ( static_cast<int>( *it ), want[i] );
			}
			CHECK( it == std::begin( r ) );
		}
		if constexpr( requires( It it ) {
			              it += 1;
			              it - it;
			              it + 1;
			              it[0];
		              } and
		              std::is_same_v<It, decltype( std::end( r ) )> ) {
			auto const b = std::begin( r );
			auto e = std::end( r );
			auto b2 = b;
			CHECK_EQ( e - b2, static_cast<std::ptrdiff_t>( want.size( ) ) );
			CHECK_EQ( b2 - e, -static_cast<std::ptrdiff_t>( want.size( ) ) );
			auto const n = static_cast<std::ptrdiff_t>( want.size( ) );
			std::ptrdiff_t pos = 0;
			for( int k = 0; k < 6 and n > 0; ++k ) {
				std::ptrdiff_t const to = s.range<std::ptrdiff_t>( 0, n );
				auto const d = to - pos;
				switch( s.below( 4 ) ) {
				case 0:
					b2 += d;
					break;
				case 1:
					b2 -= -d;
					break;
				case 2: {
					auto const b4 = b2 + d;
					if( to < n ) {
						CHECK_EQ( static_cast<int>( *b4 ), want[static_cast<std::size_t>( to )] );
					}
					b2 += d;
					break;
				}
				default: {
					auto const b4 = b2 - ( -d );
					if( to < n ) {
						CHECK_EQ( static_cast<int>( *b4 ), want[static_cast<std::size_t>( to )] );
					}
					b2 += d;
					break;
				}
				}
				pos = to;
				if( pos < n ) {
					CHECK_EQ( static_cast<int>( *b2 ), want[static_cast<std::size_t>( pos )] );
				}
				CHECK_EQ( ( b2 == std::end( r ) ), ( pos == n ) );
				CHECK_EQ( ( b2 != std::end( r ) ), ( pos != n ) );
				auto b3 = b;
				CHECK_EQ( b2 - b3, pos );
				if constexpr( Ordered ) {
					CHECK_EQ( ( b3 < b2 ), ( pos > 0 ) );
					CHECK_EQ( ( b2 > b3 ), ( pos > 0 ) );
					CHECK( b3 <= b2 );
					CHECK( b2 >= b3 );
				}
				auto const i = s.range<std::size_t>( 0, want.size( ) - 1 );
				CHECK_EQ( static_cast<int>( b3[static_cast<std::ptrdiff_t>( i ) * 1] ), want[i] );
			}
		}
	}

	enum Kind { Vec, CVec, View, List, FList };
	// run f( source lvalue ) with the source held the given way
	template<Kind K>
	void with_source( V const &v, auto &&f ) {
		if constexpr( K == Vec ) {
			V c( v );
			c.shrink_to_fit( );
			f( c );
		} else if constexpr( K == CVec ) {
			V const c( v );
			f( c );
		} else if constexpr( K == View ) {
			auto e = Exact<int>::from( v );
			auto c = daw::contiguous_view<int const>( e.data( ), e.size( ) );
			f( c );
		} else if constexpr( K == List ) {
			std::list<int> c( v.begin( ), v.end( ) );
			f( c );
		} else {
			std::forward_list<int> c( v.begin( ), v.end( ) );
			f( c );
		}
	}

	template<Kind K, typename... S>
	void compose_impl( Src &s ) {
		auto const v = source( s );
		std::tuple<S...> stages{ S( s )... };
		V want = v;
		std::apply(
		  [&]( auto const &...st ) {
			  ( (void)( want = st.model( want ) ), ... );
		  },
		  stages );
		if( not v.empty( ) and not want.empty( ) and want != v ) {
			s.nontrivial( );
		}
		with_source<K>( v, [&]( auto &src ) {
			std::apply(
			  [&]( auto const &...st ) {
				  static constexpr bool zips = ( requires { S::zips; } or ... );
				  static constexpr bool enums = ( requires { S::enumerates; } or ... );
				  static constexpr bool back = not zips and ( K < List or not enums );
				  // a pipeline applied at once, and one that is kept and reused
				  if constexpr( sizeof...( S ) != 2 ) {
					  auto r = dp::pipeline( src, st.stage( )... );
					  check_walk<back, sizeof...( S ) == 1 and not zips and not enums>( s, r, want );
				  }
				  if constexpr( sizeof...( S ) < 3 ) {
					  auto const p = dp::pipeline( st.stage( )... );
					  if( s.boolean( ) ) {
						  auto const r0 = p( src );
						  CHECK( not( std::begin( r0 ) != std::begin( r0 ) ) );
					  }
					  auto const r = p( src );
					  check_walk<back, sizeof...( S ) == 1 and not zips and not enums>( s, r, want );
				  }
			  },
			  stages );
			CHECK( std::equal( std::begin( src ), std::end( src ), v.begin( ), v.end( ) ) );
		} );
	}

	// Some stages return iterators that hold a lambda with captures, which are
	// not assignable, and some stages assign the iterators of their source:
	// those compositions are not offered (they do not compile).  The iterators
	// of CacheLast cannot be dereferenced when const, which other stages do.
	template<typename... S>
	constexpr bool composable( ) {
		bool fixed = false;
		bool last = false;
		bool ok = true;
		( [&] {
			if constexpr( requires { S::assigns; } ) {
				ok = ok and not fixed;
			}
			if constexpr( requires { S::fixed; } ) {
				fixed = true;
			}
			ok = ok and not last;
			if constexpr( requires { S::last_only; } ) {
				last = true;
			}
		}( ),
		  ... );
		return ok;
	}

	template<Kind K, typename... S>
	void compose( Src &s ) {
		if constexpr( composable<S...>( ) ) {
			compose_impl<K, S...>( s );
		} else {
			compose_impl<K, SMap, SFilter>( s );
		}
	}
	template<typename... Ts>
	struct TL {
		static constexpr std::size_t size = sizeof...( Ts );
		template<std::size_t I>
		using at = std::tuple_element_t<I, std::tuple<Ts...>>;
	};
	using All = TL<SMap, SMapProj, SFilter, SFilterNot, STake, SSkip, STakeWhile, STakeUntil, SDropWhile, SDropUntil,
	               SEvery, SUnique, SClamp, SEnum, SZip, SChunk, SSlide, SSplit, SSplitIf, SSplitSeq, SCache>;
	// keep bidirectional iterators bidirectional
	using Bidi = TL<SMap, STake, SSkip, SDropWhile, SDropUntil, SClamp, SEnum, SReverse, SMapProj>;

	using Fn = void ( * )( Src & );
	// all pairs (first stage, second stage) of which the first is in [Lo, Hi)
	template<std::size_t Lo, std::size_t Hi, typename L = All>
	void pairs( Src &s ) {
		static constexpr std::size_t N = L::size;
		static constexpr std::size_t M = ( Hi - Lo ) * N;
		static auto const table = []<std::size_t... I>( std::index_sequence<I...> ) {
			return std::array<Fn, M>{ &compose<static_cast<Kind>( ( Lo + I / N + I % N ) % 3 ),
			                                   typename L::template at<Lo + I / N>,
			                                   typename L::template at<I % N>>... };
		}( std::make_index_sequence<M>{ } );
		table[s.below( M )]( s );
	}
	constexpr std::size_t mix( std::size_t x ) {
		x = ( x + 1 ) * 0x9E3779B97F4A7C15ULL;
		x ^= x >> 31U;
		x *= 0xBF58476D1CE4E5B9ULL;
		x ^= x >> 29U;
		return x >> 8U;
	}
	// a pseudo-random choice of N triples
	template<std::size_t Seed, std::size_t N, typename L>
	void triples( Src &s ) {
		static auto const table = []<std::size_t... I>( std::index_sequence<I...> ) {
			return std::array<Fn, N>{ &compose<static_cast<Kind>( mix( Seed + 4 * I ) % 3 ),
			                                   typename L::template at<mix( Seed + 4 * I + 1 ) % L::size>,
			                                   typename L::template at<mix( Seed + 4 * I + 2 ) % L::size>,
			                                   typename L::template at<mix( Seed + 4 * I + 3 ) % L::size>>... };
		}( std::make_index_sequence<N>{ } );
		table[s.below( N )]( s );
	}
} // namespace


#if PBT_PART == 0
PROP( single_stage, {} ) {
	static auto const table = []<std::size_t... I>( std::index_sequence<I...> ) {
		return std::array<Fn, All::size * 5>{ &compose<static_cast<Kind>( I % 5 ), All::at<I / 5>>... };
	}( std::make_index_sequence<All::size * 5>{ } );
	table[s.below( table.size( ) )]( s );
}
#endif
#if PBT_PART == 1
PROP( pairs_a, {} ) {
	pairs<0, 6>( s );
}
#endif
#if PBT_PART == 2
PROP( pairs_b, {} ) {
	pairs<6, 11>( s );
}
#endif
#if PBT_PART == 3
PROP( pairs_c, {} ) {
	pairs<11, 16>( s );
}
#endif
#if PBT_PART == 4
PROP( pairs_d, {} ) {
	pairs<16, 21>( s );
}
#endif
#if PBT_PART == 5
PROP( triples_any, {} ) {
	triples<1, 40, All>( s );
}
PROP( triples_bidirectional, {} ) {
	triples<7000, 40, Bidi>( s );
}
#endif
#if PBT_PART == 6
namespace {
	template<typename R>
	V drain( R &&r ) {
		V out;
		auto last = std::end( r );
		for( auto it = std::begin( r ); it != last; ++it ) {
			out.push_back( static_cast<int>( *it ) );
			CHECK( out.size( ) < 5000 );
		}
		return out;
	}
	struct Cmp {
		int kind = 0;
		bool operator( )( int a, int b ) const {
			switch( kind ) {
			case 0:
				return a < b;
			case 1:
				return a > b;
			default:
				return a * a < b * b;
			}
		}
	};
	V some( Src &s, std::size_t hi = 9 ) {
		V v( s.range<std::size_t>( 0, hi ) );
		for( auto &x : v ) {
			x = s.range<int>( -6, 12 );
		}
		return v;
	}
} // namespace

PROP( to_containers, {} ) {
	auto const v = some( s );
	auto const f = Affine{ s.range<int>( -3, 3 ), s.range<int>( -4, 4 ) };
	V m;
	for( int x : v ) {
		m.push_back( f( x ) );
	}
	if( v.size( ) > 1 ) {
		s.nontrivial( );
	}
	auto e = Exact<int>::from( v );
	auto const src = daw::contiguous_view<int const>( e.data( ), e.size( ) );
	auto const map = dp::Map( Affine( f ) );
	CHECK_EQ( dp::pipeline( src, map, dp::To<std::vector>( ) ), m );
	CHECK_EQ( dp::pipeline( src, map, dp::To<std::vector> ), m );
	CHECK( dp::pipeline( src, map, dp::To<std::list>( ) ) == std::list<int>( m.begin( ), m.end( ) ) );
	CHECK( dp::pipeline( src, map, dp::To<std::set>( ) ) == std::set<int>( m.begin( ), m.end( ) ) );
	CHECK( dp::pipeline( src, map, dp::To<std::deque<long>>( ) ) == std::deque<long>( m.begin( ), m.end( ) ) );
	CHECK( dp::pipeline( src, map, dp::To<std::multiset<int, std::greater<>>>( ) ) ==
	       ( std::multiset<int, std::greater<>>( m.begin( ), m.end( ) ) ) );
	{
		auto const a = dp::pipeline( src, map, dp::To<std::array<int, 4>>( ) );
		auto const b = dp::pipeline( src, map, dp::To<std::array<long, 5>, -99>( ) );
		auto const c = dp::pipeline( src, map, dp::To<std::array<int, 3>, [] { return 77; }>( ) );
		for( std::size_t i = 0; i < 5; ++i ) {
			if( i < 4 ) {
				CHECK_EQ( a[i], i < m.size( ) ? m[i] : 0 );
			}
			CHECK_EQ( b[i], i < m.size( ) ? long( m[i] ) : -99L );
			if( i < 3 ) {
				CHECK_EQ( c[i], i < m.size( ) ? m[i] : 77 );
			}
		}
	}
	{
		auto const e2 = dp::pipeline( src, map, dp::Enumerate, dp::To<std::map>( ) );
		CHECK_EQ( e2.size( ), m.size( ) );
		std::size_t i = 0;
		for( auto const &[k, x] : e2 ) {
			CHECK_EQ( k, i );
			CHECK_EQ( x, m[i] );
			++i;
		}
	}
	// copying passes the value on; range_t spans what it was made from
	CHECK_EQ( dp::pipeline( v, dp::Copy( ) ), v );
	auto r = dp::range_t{ v };
	CHECK_EQ( r.size( ), v.size( ) );
	CHECK_EQ( drain( r ), v );
	CHECK( r.data( ) == v.data( ) );
	CHECK( r.data_end( ) == v.data( ) + v.size( ) );
	if( not v.empty( ) ) {
		auto q = r;
		auto const k = s.range<std::size_t>( 0, v.size( ) - 1 );
		for( std::size_t i = 0; i < k; ++i ) {
			if( s.boolean( ) ) {
				++q;
			} else {
				CHECK_EQ( *q++, v[i] );
			}
		}
		CHECK_EQ( *q, v[k] );
		CHECK_EQ( q.size( ), v.size( ) - k );
		CHECK_EQ( q - r, static_cast<std::ptrdiff_t>( k ) );
		CHECK_EQ( r - q, -static_cast<std::ptrdiff_t>( k ) );
		CHECK_EQ( r[static_cast<std::ptrdiff_t>( k )], v[k] );
		CHECK_EQ( q == r, k == 0 );
		CHECK_EQ( q != r, k != 0 );
		if( k > 0 ) {
			CHECK_EQ( *--q, v[k - 1] );
			CHECK_EQ( *q--, v[k - 1] );
			++q;
			CHECK_EQ( *q, v[k - 1] );
		}
	}
	auto [b, l] = r;
	CHECK( b == v.begin( ) and l == v.end( ) );
}

PROP( counting_and_finding, {} ) {
	auto const v = some( s );
	auto const p = pred( s );
	auto const f = Affine{ s.range<int>( -3, 3 ), s.range<int>( -4, 4 ) };
	auto const c = Cmp{ s.range<int>( 0, 2 ) };
	int const needle = s.range<int>( -6, 12 );
	V m;
	V kept;
	for( int x : v ) {
		m.push_back( f( x ) );
		if( p( x ) ) {
			kept.push_back( x );
		}
	}
	if( v.size( ) > 2 ) {
		s.nontrivial( );
	}
	auto e = Exact<int>::from( v );
	auto const src = daw::contiguous_view<int const>( e.data( ), e.size( ) );
	auto const lst = std::list<int>( v.begin( ), v.end( ) );
	auto const flst = std::forward_list<int>( v.begin( ), v.end( ) );
	CHECK_EQ( dp::pipeline( src, dp::Count ), v.size( ) );
	CHECK_EQ( dp::pipeline( flst, dp::Count ), v.size( ) );
	CHECK_EQ( dp::pipeline( lst, dp::Filter( Pred( p ) ), dp::Count ), kept.size( ) );
	CHECK_EQ( dp::pipeline( lst, dp::CountIf( p ) ), kept.size( ) );
	CHECK_EQ( dp::pipeline( src, dp::Map( f ), dp::CountIf( p ) ),
	          static_cast<std::size_t>( std::count_if( m.begin( ), m.end( ), p ) ) );
	CHECK_EQ( dp::pipeline( src, dp::Map( f ), dp::Sum ), std::accumulate( m.begin( ), m.end( ), 0 ) );
	CHECK_EQ( dp::pipeline( lst, dp::Filter( Pred( p ) ), dp::Sum ), std::accumulate( kept.begin( ), kept.end( ), 0 ) );
	CHECK( ( dp::pipeline( flst, dp::Filter( Pred( p ) ), dp::First( ) ) ==
	         ( kept.empty( ) ? std::optional<int>( ) : std::optional<int>( kept.front( ) ) ) ) );
	{
		V w = v;
		auto const r = dp::pipeline( w, dp::Filter( Pred( p ) ), dp::FirstRef( ) );
		CHECK_EQ( static_cast<bool>( r ), not kept.empty( ) );
		if( r ) {
			auto const pos = std::find_if( w.begin( ), w.end( ), p );
			CHECK( &static_cast<int &>( *r ) == &*pos );
		}
		auto const r2 = dp::pipeline( w, dp::Map( f ), dp::FirstRef( ) );
		CHECK_EQ( static_cast<bool>( r2 ), not w.empty( ) );
		if( r2 ) {
			CHECK_EQ( static_cast<int>( *r2 ), m.front( ) );
		}
	}
	// extremes
	auto const by = [&]( int a, int b ) {
		return c( f( a ), f( b ) );
	};
	CHECK( dp::pipeline( v, dp::Max ) == std::max_element( v.begin( ), v.end( ) ) );
	CHECK( dp::pipeline( v, dp::Min ) == std::min_element( v.begin( ), v.end( ) ) );
	CHECK( dp::pipeline( lst, dp::Max( c ) ) == std::max_element( lst.begin( ), lst.end( ), c ) );
	CHECK( dp::pipeline( lst, dp::Min( c ) ) == std::min_element( lst.begin( ), lst.end( ), c ) );
	CHECK( dp::pipeline( v, dp::Max( c, f ) ) == std::max_element( v.begin( ), v.end( ), by ) );
	CHECK( dp::pipeline( v, dp::Min( c, f ) ) == std::min_element( v.begin( ), v.end( ), by ) );
	{
		auto const [a, b] = dp::pipeline( v, dp::MinMax( c, f ) );
		auto const w = std::minmax_element( v.begin( ), v.end( ), by );
		CHECK( a == w.first );
		CHECK( b == w.second );
		auto const [a2, b2] = dp::pipeline( v, dp::MinMax );
		auto const w2 = std::minmax_element( v.begin( ), v.end( ) );
		CHECK( a2 == w2.first );
		CHECK( b2 == w2.second );
	}
	if( not m.empty( ) ) {
		CHECK_EQ( *dp::pipeline( v, dp::Map( Affine( f ) ), dp::Max ), *std::max_element( m.begin( ), m.end( ) ) );
	}
	// searching
	auto const has = []( V const &x, int n ) {
		return std::find( x.begin( ), x.end( ), n ) != x.end( );
	};
	CHECK_EQ( dp::pipeline( src, dp::Contains( needle ) ), has( v, needle ) );
	CHECK_EQ( dp::pipeline( flst, dp::Map( f ), dp::Contains( needle ) ), has( m, needle ) );
	CHECK_EQ( dp::pipeline( src, dp::Contains( needle, c ) ), std::any_of( v.begin( ), v.end( ), [&]( int x ) {
		          return c( x, needle );
	          } ) );
	CHECK_EQ( dp::pipeline( src, dp::Contains( needle, c, f ) ), std::any_of( v.begin( ), v.end( ), [&]( int x ) {
		          return c( f( x ), needle );
	          } ) );
	CHECK( dp::pipeline( lst, dp::Find( needle ) ) == std::find( lst.begin( ), lst.end( ), needle ) );
	CHECK( dp::Find( lst, needle ) == std::find( lst.begin( ), lst.end( ), needle ) );
	CHECK( dp::pipeline( lst, dp::Find( needle, f ) ) == std::find_if( lst.begin( ), lst.end( ), [&]( int x ) {
		       return f( x ) == needle;
	       } ) );
	CHECK( dp::pipeline( flst, dp::FindIf( p ) ) == std::find_if( flst.begin( ), flst.end( ), p ) );
	CHECK( dp::FindIf( flst, p, f ) == std::find_if( flst.begin( ), flst.end( ), [&]( int x ) {
		       return p( f( x ) );
	       } ) );
	CHECK( dp::pipeline( flst, dp::FindIf<2>( c ) ) == std::adjacent_find( flst.begin( ), flst.end( ), c ) );
	CHECK( dp::pipeline( src, dp::FindIf<2>( c, f ) ) == std::adjacent_find( src.begin( ), src.end( ), by ) );
	{
		auto const three = [&]( int a, int b, int d ) {
			return c( a, b ) and c( d, b );
		};
		auto want = lst.end( );
		for( std::size_t i = 0; i + 2 < v.size( ); ++i ) {
			if( three( v[i], v[i + 1], v[i + 2] ) ) {
				want = std::next( lst.begin( ), static_cast<std::ptrdiff_t>( i ) );
				break;
			}
		}
		CHECK( dp::pipeline( lst, dp::FindIf<3>( three ) ) == want );
		CHECK( dp::FindIf<3>( lst, three ) == want );
	}
	// predicates
	CHECK_EQ( ( dp::IsOneOf<-6, 0, 12, 3>( needle ) ), ( needle == -6 or needle == 0 or needle == 12 or needle == 3 ) );
	CHECK_EQ( ( dp::Not( p )( needle ) ), not p( needle ) );
	CHECK_EQ( dp::pipeline( lst, dp::CountIf( dp::Not( dp::IsOneOf<1, 2, 3> ) ) ),
	          static_cast<std::size_t>( std::count_if( v.begin( ), v.end( ), []( int x ) {
		          return x < 1 or x > 3;
	          } ) ) );
}

PROP( sorting_and_visiting, {} ) {
	auto const v = some( s, 20 );
	auto const c = Cmp{ s.range<int>( 0, 1 ) };
	auto const f = Affine{ s.range<int>( -3, 3 ), s.range<int>( -4, 4 ) };
	if( v.size( ) > 2 ) {
		s.nontrivial( );
	}
	V sorted = v;
	std::sort( sorted.begin( ), sorted.end( ) );
	V csorted = v;
	std::sort( csorted.begin( ), csorted.end( ), c );
	{
		V w = v;
		V const r = dp::pipeline( w, dp::Sort );
		CHECK_EQ( r, sorted );
	}
	CHECK_EQ( dp::pipeline( v, dp::Copy( ), dp::Sort ), sorted );
	CHECK_EQ( dp::pipeline( v, dp::To<std::vector>( ), dp::Sort( c ) ), csorted );
	{
		std::deque<int> w( v.begin( ), v.end( ) );
		auto const r = dp::pipeline( w, dp::Sort( c ) );
		CHECK( std::equal( r.begin( ), r.end( ), csorted.begin( ), csorted.end( ) ) );
	}
	// every element is visited once, in order, and the range is handed on
	V seen;
	auto const r = dp::pipeline( v, dp::ForEach( [&]( int x ) {
		                             seen.push_back( x );
	                             } ) );
	CHECK_EQ( seen, v );
	CHECK_EQ( drain( r ), v );
	seen.clear( );
	std::vector<std::size_t> idx;
	(void)dp::pipeline( v, dp::Map( f ), dp::EnumerateFrom( std::size_t{ 3 } ), dp::ForEachApply( [&]( std::size_t i, int x ) {
		                    idx.push_back( i );
		                    seen.push_back( x );
	                    } ) );
	CHECK_EQ( seen.size( ), v.size( ) );
	for( std::size_t i = 0; i < v.size( ); ++i ) {
		CHECK_EQ( seen[i], f( v[i] ) );
		CHECK_EQ( idx[i], i + 3 );
	}
	// the mapped values are computed once per position behind CacheLast
	int calls = 0;
	auto const cached = dp::pipeline( v, dp::Map( [&]( int x ) {
		                                  ++calls;
		                                  return f( x );
	                                  } ),
	                                  dp::CacheLast );
	std::size_t i = 0;
	for( auto it = cached.begin( ); it != cached.end( ); ++it, ++i ) {
		CHECK_EQ( *it, f( v[i] ) );
		CHECK_EQ( *it, f( v[i] ) );
		CHECK_EQ( calls, static_cast<int>( i ) + 1 );
	}
	CHECK_EQ( i, v.size( ) );
	// generate_n
	int n = 0;
	auto const g = dp::generate_n( v.size( ), [&n] {
		return n++;
	} );
	auto const got = drain( g );
	CHECK_EQ( got.size( ), v.size( ) );
	for( std::size_t k = 0; k < got.size( ); ++k ) {
		CHECK_EQ( got[k], static_cast<int>( k ) );
	}
	// a sample is a subsequence and the same engine gives the same sample
	auto const keep = s.range<std::size_t>( 0, 6 );
	auto const of = keep + s.range<std::size_t>( 1, 5 );
	auto const seed = s.range<unsigned>( 0, 1000 );
	auto const sm = dp::pipeline( v, dp::Sample( keep, of, std::mt19937( seed ) ) );
	auto const s1 = drain( sm );
	CHECK_EQ( drain( sm ), s1 );
	CHECK_EQ( drain( dp::pipeline( v, dp::Sample( keep, of, std::mt19937( seed ) ) ) ), s1 );
	std::size_t at = 0;
	for( int x : s1 ) {
		while( at < v.size( ) and v[at] != x ) {
			++at;
		}
		CHECK( at < v.size( ) );
		++at;
	}
	if( keep == 0 ) {
		CHECK( s1.empty( ) );
	}
}

PROP( compensated_sum, {} ) {
	auto const n = s.range<std::size_t>( 0, 20 );
	std::vector<double> v( n );
	long double want = 0;
	long double mag = 0;
	std::vector<double> terms;
	for( auto &x : v ) {
		x = std::ldexp( static_cast<double>( s.range<int>( -1000, 1000 ) ), s.range<int>( -30, 30 ) );
		if( s.chance( 1, 4 ) and &x != v.data( ) ) {
			x = -( &x )[-1];
		}
		want += x;
		mag += std::fabs( x );
	}
	if( n > 3 ) {
		s.nontrivial( );
	}
	// all terms are multiples of 2^-30 below 2^41, so the sum in 64-bit long
	// double differs from the exact one by little; Neumaier's error is bounded
	// by one rounding of the result plus n^2 eps^2 of the magnitudes
	auto const got = dp::pipeline( v, dp::SumKahanBabushkaNeumaier );
	long double const bound = std::fabs( want ) * 0x1p-52L + mag * 0x1p-58L;
	CHECK( std::fabs( static_cast<long double>( got ) - want ) <= bound );
	auto const half = dp::pipeline( v, dp::SumKahanBabushkaNeumaier( []( double x ) {
		                                return x / 2;
	                                } ) );
	CHECK_EQ( half, got / 2 );
	std::vector<float> vf( v.begin( ), v.end( ) );
	long double wf = 0;
	long double mf = 0;
	for( float x : vf ) {
		wf += x;
		mf += std::fabs( x );
	}
	CHECK( std::fabs( static_cast<long double>( dp::pipeline( vf, dp::SumKahanBabushkaNeumaier ) ) - wf ) <=
	       std::fabs( wf ) * 0x1p-23L + mf * 0x1p-37L );
}

PROP( iota_ranges, {} ) {
	auto const lo = s.range<int>( -20, 20 );
	auto const n = s.range<int>( 0, 20 );
	auto const r = dp::iota_view<int>( lo, lo + n );
	V want;
	for( int i = 0; i < n; ++i ) {
		want.push_back( lo + i );
	}
	if( n > 1 ) {
		s.nontrivial( );
	}
	CHECK_EQ( drain( r ), want );
	check_walk<true, true>( s, r, want );
	V to;
	for( auto x : dp::ToIota( n ) ) {
		to.push_back( x );
	}
	CHECK_EQ( to.size( ), static_cast<std::size_t>( n ) );
	for( int i = 0; i < n; ++i ) {
		CHECK_EQ( to[static_cast<std::size_t>( i )], i );
	}
	CHECK_EQ( drain( dp::iota_view( static_cast<std::size_t>( n ) ) ), to );
	auto const u = dp::iota_view<unsigned char>( 250, 255 );
	CHECK_EQ( std::distance( u.begin( ), u.end( ) ), 5 );
	// a pipeline over it
	V sq;
	for( int x : want ) {
		sq.push_back( Affine{ 3, 1 }( x ) );
	}
	CHECK_EQ( dp::pipeline( r, dp::Map( Affine{ 3, 1 } ), dp::To<std::vector>( ) ), sq );
}

PROP( joins, {} ) {
	auto const a = some( s, 6 );
	auto const b = some( s, 6 );
	auto const c = some( s, 6 );
	if( not a.empty( ) and not b.empty( ) ) {
		s.nontrivial( );
	}
	std::list<int> const lb( b.begin( ), b.end( ) );
	std::forward_list<int> const fc( c.begin( ), c.end( ) );
	V want = a;
	want.insert( want.end( ), b.begin( ), b.end( ) );
	{
		auto const r = dp::concat_view( dp::range_t{ a }, dp::range_t{ lb } );
		CHECK_EQ( drain( r ), want );
		CHECK_EQ( drain( r ), want );
	}
	V const want2 = want;
	want.insert( want.end( ), c.begin( ), c.end( ) );
	{
		auto const r = dp::concat_view( dp::range_t{ a }, dp::range_t{ lb }, dp::range_t{ fc } );
		CHECK_EQ( drain( r ), want );
		auto it = r.begin( );
		for( std::size_t i = 0; i < want.size( ); ++i ) {
			CHECK( it != r.end( ) );
			CHECK_EQ( *it++, want[i] );
		}
		CHECK( it == r.end( ) );
	}
	CHECK_EQ( drain( dp::pipeline( dp::zip_view( a, lb ), dp::Concat ) ), want2 );
	CHECK_EQ( drain( dp::pipeline( dp::zip_view( a, lb, fc ), dp::Concat ) ), want );
	CHECK_EQ( dp::pipeline( dp::zip_view( a, lb ), dp::Concat, dp::Map( Affine{ 1, 0 } ), dp::Count ), want2.size( ) );
	// flatten
	auto const parts = s.range<std::size_t>( 0, 5 );
	std::vector<V> vv;
	std::list<std::list<int>> ll;
	V flat;
	for( std::size_t i = 0; i < parts; ++i ) {
		vv.push_back( some( s, 4 ) );
		ll.emplace_back( vv.back( ).begin( ), vv.back( ).end( ) );
		flat.insert( flat.end( ), vv.back( ).begin( ), vv.back( ).end( ) );
	}
	{
		auto const r = dp::pipeline( vv, dp::Flatten );
		CHECK_EQ( drain( r ), flat );
		CHECK_EQ( drain( r ), flat );
		CHECK_EQ( drain( dp::pipeline( ll, dp::Flatten ) ), flat );
		auto f = r.begin( );
		for( std::size_t i = 0; i < flat.size( ); ++i ) {
			CHECK_EQ( *f++, flat[i] );
		}
		CHECK( f == r.end( ) );
	}
	// zips stop with the shortest range
	auto const n = std::min( a.size( ), b.size( ) );
	auto const n3 = std::min( n, c.size( ) );
	std::size_t i = 0;
	for( auto const &[x, y] : dp::zip_view( a, b ) ) {
		CHECK( i < n );
		CHECK_EQ( x, a[i] );
		CHECK_EQ( y, b[i] );
		CHECK( &x == &a[i] );
		++i;
	}
	CHECK_EQ( i, n );
	i = 0;
	for( auto const &[x, y, z] : dp::zip_view( a, lb, fc ) ) {
		CHECK( i < n3 );
		CHECK_EQ( x, a[i] );
		CHECK_EQ( y, b[i] );
		CHECK_EQ( z, c[i] );
		++i;
	}
	CHECK_EQ( i, n3 );
	i = 0;
	auto const more = dp::pipeline( dp::zip_view( a, b ), dp::ZipMore( c ) );
	for( auto it = more.begin( ); it != more.end( ); ++it ) {
		CHECK( i < n3 );
		auto const t = *it;
		CHECK_EQ( std::get<0>( t ), c[i] );
		CHECK_EQ( std::get<1>( t ), a[i] );
		CHECK_EQ( std::get<2>( t ), b[i] );
		++i;
	}
	CHECK_EQ( i, n3 );
	// written through
	{
		V w = a;
		V const u = b;
		for( auto &&[x, y] : dp::zip_view( w, u ) ) {
			x += y;
		}
		for( std::size_t k = 0; k < w.size( ); ++k ) {
			CHECK_EQ( w[k], k < n ? a[k] + b[k] : a[k] );
		}
	}
	// tuple elements of equally long zips
	V const a1( a.begin( ), a.begin( ) + static_cast<std::ptrdiff_t>( n ) );
	V const b1( b.begin( ), b.begin( ) + static_cast<std::ptrdiff_t>( n ) );
	auto const z = dp::zip_view( a1, b1 );
	CHECK_EQ( drain( dp::pipeline( z, dp::Element<0> ) ), a1 );
	CHECK_EQ( drain( dp::pipeline( z, dp::Element<1> ) ), b1 );
	i = 0;
	for( auto const &t : dp::pipeline( z, dp::Elements<1, 0> ) ) {
		CHECK_EQ( std::get<0>( t ), b1[i] );
		CHECK_EQ( std::get<1>( t ), a1[i] );
		++i;
	}
	CHECK_EQ( i, n );
	i = 0;
	for( auto const &t : dp::pipeline( z, dp::Swizzle<1, 0, 1> ) ) {
		CHECK_EQ( std::get<0>( t ), b1[i] );
		CHECK_EQ( std::get<1>( t ), a1[i] );
		CHECK_EQ( std::get<2>( t ), b1[i] );
		++i;
	}
	CHECK_EQ( i, n );
	V sums;
	for( std::size_t k = 0; k < n; ++k ) {
		sums.push_back( Add{ }( a1[k], b1[k] ) );
	}
	CHECK_EQ( drain( dp::pipeline( z, dp::MapApply( Add{ } ) ) ), sums );
	V only;
	for( std::size_t k = 0; k < n; ++k ) {
		if( a1[k] < b1[k] ) {
			only.push_back( b1[k] );
		}
	}
	{
		auto const kept = dp::pipeline( z, dp::Filter( []( auto const &t ) {
			                                return std::get<0>( t ) < std::get<1>( t );
		                                } ) );
		CHECK_EQ( drain( dp::pipeline( kept, dp::Element<1> ) ), only );
	}
	i = 0;
	for( auto const &t : dp::pipeline( z, dp::EnumerateApplyFrom( std::size_t{ 5 } ) ) ) {
		CHECK_EQ( std::get<0>( t ), i + 5 );
		CHECK_EQ( std::get<1>( t ), a1[i] );
		CHECK_EQ( std::get<2>( t ), b1[i] );
		++i;
	}
	CHECK_EQ( i, n );
}

PROP( chunks_and_windows, {} ) {
	auto const v = some( s, 12 );
	auto const k = s.range<std::size_t>( 1, 6 );
	if( v.size( ) > k ) {
		s.nontrivial( );
	}
	auto e = Exact<int>::from( v );
	auto const src = daw::contiguous_view<int const>( e.data( ), e.size( ) );
	// the chunks partition the range into pieces of k, the last may be shorter
	std::size_t at = 0;
	for( auto const &c : dp::pipeline( src, dp::Chunk( k ) ) ) {
		auto const got = drain( c );
		CHECK( at < v.size( ) );
		CHECK_EQ( got.size( ), std::min( k, v.size( ) - at ) );
		for( int x : got ) {
			CHECK_EQ( x, v[at++] );
		}
	}
	CHECK_EQ( at, v.size( ) );
	CHECK_EQ( drain( dp::pipeline( src, dp::Chunk( k ), dp::Flatten ) ), v );
	if( v.size( ) >= k ) {
		at = 0;
		for( auto const &c : dp::pipeline( src, dp::Slide( k ) ) ) {
			auto const got = drain( c );
			CHECK_EQ( got, V( v.begin( ) + static_cast<std::ptrdiff_t>( at ), v.begin( ) + static_cast<std::ptrdiff_t>( at + k ) ) );
			++at;
		}
		CHECK_EQ( at, v.size( ) - k + 1 );
	}
	// pieces between delimiters, joined again
	int const d = s.range<int>( -6, 12 );
	auto const pieces = dp::pipeline( src, dp::Split( d ) );
	V joined;
	bool first = true;
	for( auto const &piece : pieces ) {
		if( not first ) {
			joined.push_back( d );
		}
		first = false;
		for( int x : drain( piece ) ) {
			CHECK( x != d );
			joined.push_back( x );
		}
	}
	if( not v.empty( ) and v.back( ) == d ) {
		joined.push_back( d );
	}
	CHECK_EQ( joined, v );
}

PROP( single_pass_sources, {} ) {
	auto const v = some( s, 12 );
	auto const p = pred( s );
	auto const f = Affine{ s.range<int>( -3, 3 ), s.range<int>( -4, 4 ) };
	auto const k = s.range<std::size_t>( 0, 6 );
	if( v.size( ) > k ) {
		s.nontrivial( );
	}
	std::string text;
	for( int x : v ) {
		text += std::to_string( x ) + " ";
	}
	auto const with = [&]( auto &&fn ) {
		std::istringstream in( text );
		auto r = dp::range_t{ std::istream_iterator<int>( in ), std::istream_iterator<int>( ) };
		return fn( r );
	};
	V m;
	V kept;
	for( int x : v ) {
		m.push_back( f( x ) );
		if( p( x ) ) {
			kept.push_back( x );
		}
	}
	CHECK_EQ( with( [&]( auto &r ) {
		          return drain( dp::pipeline( r, dp::Map( f ) ) );
	          } ),
	          m );
	CHECK_EQ( with( [&]( auto &r ) {
		          return drain( dp::pipeline( r, dp::Filter( Pred( p ) ) ) );
	          } ),
	          kept );
	CHECK_EQ( with( [&]( auto &r ) {
		          return drain( dp::pipeline( r, dp::Take( k ) ) );
	          } ),
	          V( v.begin( ), v.begin( ) + static_cast<std::ptrdiff_t>( std::min( k, v.size( ) ) ) ) );
	auto const at = [&]( auto it ) {
		return it - v.begin( );
	};
	auto const from = [&]( std::ptrdiff_t i ) {
		return V( v.begin( ) + i, v.end( ) );
	};
	auto const upto = [&]( std::ptrdiff_t i ) {
		return V( v.begin( ), v.begin( ) + i );
	};
	auto const stage = [&]( auto const &st ) {
		return with( [&]( auto &r ) {
			return drain( dp::pipeline( r, st ) );
		} );
	};
	auto const many = count_param( s );
	auto const n_many = static_cast<std::ptrdiff_t>( std::min( many, v.size( ) ) );
	auto const first_not = at( std::find_if_not( v.begin( ), v.end( ), Pred( p ) ) );
	auto const first_is = at( std::find_if( v.begin( ), v.end( ), Pred( p ) ) );
	switch( s.below( 4 ) ) {
	case 0:
		CHECK_EQ( stage( dp::Skip( many ) ), from( n_many ) );
		CHECK_EQ( stage( dp::Take( many ) ), upto( n_many ) );
		break;
	case 1:
		CHECK_EQ( stage( dp::DropWhile( Pred( p ) ) ), from( first_not ) );
		CHECK_EQ( stage( dp::DropUntil( Pred( p ) ) ), from( first_is ) );
		break;
	case 2:
		CHECK_EQ( stage( dp::TakeWhile( Pred( p ) ) ), upto( first_not ) );
		CHECK_EQ( stage( dp::TakeUntil( Pred( p ) ) ), upto( first_is ) );
		break;
	default: {
		V every, uniq;
		for( std::size_t i = 0; i < v.size( ); ++i ) {
			if( i % ( k + 1 ) == 0 ) {
				every.push_back( v[i] );
			}
			if( i == 0 or v[i] != v[i - 1] ) {
				uniq.push_back( v[i] );
			}
		}
		CHECK_EQ( stage( dp::Every( k + 1 ) ), every );
		CHECK_EQ( stage( dp::Unique ), uniq );
		CHECK_EQ( stage( dp::CacheLast ), v );
		std::size_t i = 0;
		with( [&]( auto &r ) {
			for( auto const &e : dp::pipeline( r, dp::Enumerate ) ) {
				CHECK( i < v.size( ) );
				CHECK_EQ( static_cast<std::size_t>( std::get<0>( e ) ), i );
				CHECK_EQ( std::get<1>( e ), v[i] );
				++i;
			}
			return 0;
		} );
		CHECK_EQ( i, v.size( ) );
		CHECK_EQ( with( [&]( auto &r ) {
			          return dp::pipeline( r, dp::Count );
		          } ),
		          v.size( ) );
	}
	}
	CHECK_EQ( with( [&]( auto &r ) {
		          return dp::pipeline( r, dp::Sum );
	          } ),
	          std::accumulate( v.begin( ), v.end( ), 0 ) );
	CHECK_EQ( with( [&]( auto &r ) {
		          return dp::pipeline( r, dp::Contains( 3 ) );
	          } ),
	          std::find( v.begin( ), v.end( ), 3 ) != v.end( ) );
	CHECK_EQ( with( [&]( auto &r ) {
		          return dp::pipeline( r, dp::Filter( Pred( p ) ), dp::Map( f ), dp::To<std::vector>( ) ).size( );
	          } ),
	          kept.size( ) );
}

namespace {
	// a zip of random access ranges against positions
	template<typename Z, typename F>
	void zip_positions_of( Src &s, Z const &z, std::size_t n, F const &at ) {
		using It = decltype( z.begin( ) );
		auto const N = static_cast<std::ptrdiff_t>( n );
		It const b = z.begin( );
		It const e = z.end( );
		CHECK_EQ( e - b, N );
		CHECK_EQ( b - e, -N );
		CHECK_EQ( std::distance( b, e ), N );
		It it = b;
		std::ptrdiff_t p = 0;
		auto const same = [&]( It const &x, std::ptrdiff_t q ) {
			CHECK_EQ( x - b, q );
			CHECK_EQ( b - x, -q );
			CHECK_EQ( e - x, N - q );
			CHECK_EQ( x - e, q - N );
			CHECK_EQ( ( x == e ), ( q == N ) );
			CHECK_EQ( ( x != e ), ( q != N ) );
			CHECK_EQ( ( e == x ), ( q == N ) );
			CHECK_EQ( ( x < e ), ( q < N ) );
			CHECK_EQ( ( e > x ), ( q < N ) );
			CHECK( x <= e );
			CHECK( e >= x );
			CHECK_EQ( ( e <= x ), ( q == N ) );
			CHECK_EQ( ( x >= e ), ( q == N ) );
			CHECK( not( e < x ) );
			CHECK( not( x > e ) );
			CHECK_EQ( ( b < x ), ( q > 0 ) );
			CHECK_EQ( ( x > b ), ( q > 0 ) );
			CHECK_EQ( ( x <= b ), ( q == 0 ) );
			CHECK_EQ( ( b >= x ), ( q == 0 ) );
			if( q < N ) {
				at( *x, q );
			}
			if( N > 0 ) {
				auto const to = s.range<std::ptrdiff_t>( 0, N - 1 );
				at( x[to - q], to );
				It m = x;
				at( m[to - q], to );
			}
		};
		same( it, 0 );
		for( auto steps = s.range<int>( 0, 10 ); steps > 0; --steps ) {
			auto const to = s.range<std::ptrdiff_t>( 0, N );
			switch( s.below( 8 ) ) {
			case 0:
				if( p < N ) {
					CHECK( &++it == &it );
					++p;
				}
				break;
			case 1:
				if( p < N ) {
					same( it++, p );
					++p;
				}
				break;
			case 2:
				if( p > 0 ) {
					CHECK( &--it == &it );
					--p;
				}
				break;
			case 3:
				if( p > 0 ) {
					same( it--, p );
					--p;
				}
				break;
			case 4:
				CHECK( &( it += to - p ) == &it );
				p = to;
				break;
			case 5:
				CHECK( &( it -= p - to ) == &it );
				p = to;
				break;
			case 6:
				same( it + ( to - p ), to );
				break;
			default:
				same( it - ( p - to ), to );
				break;
			}
			same( it, p );
		}
	}
} // namespace
PROP( zip_positions, {} ) {
	auto const a = some( s );
	auto const b = some( s );
	auto ea = Exact<int>::from( a );
	auto const va = daw::contiguous_view<int const>( ea.data( ), ea.size( ) );
	std::deque<int> db( b.begin( ), b.end( ) );
	auto const n = std::min( a.size( ), b.size( ) );
	if( n > 0 and a.size( ) != b.size( ) ) {
		s.nontrivial( );
	}
	auto const two = [&]( auto const &t, std::ptrdiff_t q ) {
		CHECK_EQ( std::get<0>( t ), a[static_cast<std::size_t>( q )] );
		CHECK_EQ( std::get<1>( t ), b[static_cast<std::size_t>( q )] );
	};
	zip_positions_of( s, dp::zip_view( va, db ), n, two );
	zip_positions_of( s, dp::Zip( va, b ), n, two );
	auto const off = s.range<std::size_t>( 0, 9 );
	auto const lim = s.range<std::size_t>( 0, 12 );
	zip_positions_of( s, dp::zip_view( dp::iota_view<int>( static_cast<int>( off ), static_cast<int>( off + lim ) ), va, b ),
	                  std::min( n, lim ), [&]( auto const &t, std::ptrdiff_t q ) {
		                  CHECK_EQ( std::get<0>( t ), static_cast<int>( off ) + q );
		                  CHECK_EQ( std::get<1>( t ), a[static_cast<std::size_t>( q )] );
		                  CHECK_EQ( std::get<2>( t ), b[static_cast<std::size_t>( q )] );
	                  } );
	auto const num = [&]( auto const &t, std::ptrdiff_t q ) {
		CHECK_EQ( std::get<0>( t ), off + static_cast<std::size_t>( q ) );
		CHECK_EQ( std::get<1>( t ), a[static_cast<std::size_t>( q )] );
	};
	zip_positions_of( s, dp::pipeline( va, dp::EnumerateFrom( off ) ), a.size( ), num );
	zip_positions_of( s, dp::pipeline( va, dp::EnumerateApplyFrom( off ) ), a.size( ), num );
	// what the zip leaves out is still there to be joined
	V want = a;
	want.insert( want.end( ), b.begin( ), b.end( ) );
	CHECK_EQ( drain( dp::pipeline( dp::zip_view( va, db ), dp::Concat ) ), want );
	// ranges of one length are walked back from their end, numbered ones too
	auto const c = static_cast<std::ptrdiff_t>( n );
	V const a1( a.begin( ), a.begin( ) + c );
	V const b1( b.begin( ), b.begin( ) + c );
	auto q = c;
	for( auto const &t : dp::pipeline( dp::zip_view( a1, b1 ), dp::Reverse ) ) {
		CHECK( q > 0 );
		two( t, --q );
	}
	CHECK_EQ( q, 0 );
	q = static_cast<std::ptrdiff_t>( a.size( ) );
	for( auto const &t : dp::pipeline( va, dp::EnumerateFrom( off ), dp::Reverse ) ) {
		CHECK( q > 0 );
		num( t, --q );
	}
	CHECK_EQ( q, 0 );
}
// the views that make a new value of each element go to every position
PROP( view_positions, {} ) {
	auto const a = some( s );
	auto const b0 = some( s );
	auto const n = std::min( a.size( ), b0.size( ) );
	V const b( b0.begin( ), b0.begin( ) + static_cast<std::ptrdiff_t>( n ) );
	V const a1( a.begin( ), a.begin( ) + static_cast<std::ptrdiff_t>( n ) );
	if( n > 1 ) {
		s.nontrivial( );
	}
	auto const k = s.range<int>( -3, 3 );
	auto const text = []( int x ) { return std::string( 20, static_cast<char>( 'a' + ( x + 26 ) % 26 ) ); };
	auto const A = [&]( std::ptrdiff_t q ) { return a[static_cast<std::size_t>( q )]; };
	auto const B = [&]( std::ptrdiff_t q ) { return b[static_cast<std::size_t>( q )]; };
	auto const off = static_cast<std::size_t>( s.range<int>( 0, 9 ) );
	auto const z = dp::zip_view( a1, b );
	auto const texts = dp::map_view( a1, text );
	// a zip of a view that makes strings
	auto const zt = dp::zip_view( texts, b );
	switch( s.below( 12 ) ) {
	case 0:
		zip_positions_of( s, dp::pipeline( a, dp::Map( Affine{ 2, k } ) ), a.size( ), [&]( auto x, std::ptrdiff_t q ) {
			CHECK_EQ( x, ( Affine{ 2, k }( A( q ) ) ) );
		} );
		break;
	case 1:
		zip_positions_of( s, dp::pipeline( a, dp::Map( Affine{ 2, k }, Affine{ -1, 1 } ), dp::Map( text ) ), a.size( ),
		                  [&]( auto const &x, std::ptrdiff_t q ) {
			                  CHECK_EQ( x, text( Affine{ 2, k }( Affine{ -1, 1 }( A( q ) ) ) ) );
		                  } );
		break;
	case 2:
		zip_positions_of( s, dp::pipeline( z, dp::MapApply( []( int x, int y ) { return x * 100 + y; } ) ), n,
		                  [&]( auto x, std::ptrdiff_t q ) {
			                  CHECK_EQ( x, A( q ) * 100 + B( q ) );
		                  } );
		break;
	case 3:
		zip_positions_of( s, dp::pipeline( z, dp::Element<1> ), n, [&]( auto x, std::ptrdiff_t q ) {
			CHECK_EQ( x, B( q ) );
		} );
		break;
	case 4:
		zip_positions_of( s, dp::pipeline( zt, dp::Element<0> ), n, [&]( auto const &x, std::ptrdiff_t q ) {
			CHECK_EQ( x, text( A( q ) ) );
		} );
		break;
	case 5:
		zip_positions_of( s, dp::pipeline( zt, dp::Elements<1, 0, 0> ), n, [&]( auto const &x, std::ptrdiff_t q ) {
			CHECK_EQ( std::get<0>( x ), B( q ) );
			CHECK_EQ( std::get<1>( x ), text( A( q ) ) );
			CHECK_EQ( std::get<2>( x ), text( A( q ) ) );
		} );
		break;
	case 6:
		zip_positions_of( s, dp::pipeline( zt, dp::Swizzle<0, 1, 0> ), n, [&]( auto const &x, std::ptrdiff_t q ) {
			CHECK_EQ( std::get<0>( x ), text( A( q ) ) );
			CHECK_EQ( std::get<1>( x ), B( q ) );
			CHECK_EQ( std::get<2>( x ), text( A( q ) ) );
		} );
		break;
	case 7:
		zip_positions_of( s, dp::pipeline( a, dp::EnumerateFrom( off ), dp::Element<0> ), a.size( ), [&]( auto x, std::ptrdiff_t q ) {
			CHECK_EQ( x, off + static_cast<std::size_t>( q ) );
		} );
		break;
	case 8:
		zip_positions_of( s, dp::pipeline( a, dp::EnumerateFrom( off ), dp::Elements<1, 0> ), a.size( ), [&]( auto const &x, std::ptrdiff_t q ) {
			CHECK_EQ( std::get<0>( x ), A( q ) );
			CHECK_EQ( std::get<1>( x ), off + static_cast<std::size_t>( q ) );
		} );
		break;
	case 9:
		zip_positions_of( s, dp::pipeline( a, dp::Clamp( k, k + 3 ) ), a.size( ), [&]( auto x, std::ptrdiff_t q ) {
			CHECK_EQ( x, std::clamp( A( q ), k, k + 3 ) );
		} );
		break;
	case 10: {
		// written through an element
		V w = a1;
		auto e = dp::pipeline( dp::zip_view( w, b ), dp::Element<0> );
		auto it = e.begin( );
		for( std::size_t i = 0; i < n; ++i ) {
			if( i % 2 == 0 ) {
				*it += 5;
			} else {
				e.begin( )[i] -= 5;
			}
			++it;
		}
		for( std::size_t i = 0; i < n; ++i ) {
			CHECK_EQ( w[i], a[i] + ( i % 2 == 0 ? 5 : -5 ) );
		}
		break;
	}
	default: {
		// arrows
		auto const m = dp::pipeline( a1, dp::Map( text ) );
		auto const e = dp::pipeline( zt, dp::Element<0> );
		auto const es = dp::pipeline( zt, dp::Elements<0, 1> );
		auto x = m.begin( );
		auto y = e.begin( );
		auto zz = es.begin( );
		for( std::size_t i = 0; i < n; ++i ) {
			CHECK_EQ( x->size( ), std::size_t{ 20 } );
			CHECK_EQ( x->front( ), text( a[i] ).front( ) );
			CHECK_EQ( y->back( ), text( a[i] ).front( ) );
			CHECK_EQ( std::get<1>( *zz.operator->( ).operator->( ) ), b[i] );
			++x;
			++y;
			++zz;
		}
	}
	}
}
KNOWN( zip_backwards, "a zip of ranges of different lengths walks back from the end of each, not from the end of the zip (a reversed zip of {1,2,3} and {4,5} is (3,5), (2,4))" ) {
	V const a{ 1, 2, 3 };
	V const b{ 4, 5 };
	auto r = dp::pipeline( dp::zip_view( a, b ), dp::Reverse );
	auto const t = *std::begin( r );
	return not( std::get<0>( t ) == 2 and std::get<1>( t ) == 5 );
}
#endif
#if PBT_PART == 7
namespace {
	template<typename R>
	V drained( R const &r ) {
		V out;
		auto const last = std::end( r );
		for( auto it = std::begin( r ); it != last; ++it ) {
			out.push_back( static_cast<int>( *it ) );
			CHECK( out.size( ) < 5000 );
		}
		return out;
	}
	V few( Src &s ) {
		V v( s.range<std::size_t>( 0, 12 ) );
		for( auto &x : v ) {
			x = s.range<int>( -6, 12 );
		}
		return v;
	}
	// a container that leaves nothing usable behind when it is destroyed or moved
	template<typename C>
	C exact( V const &v ) {
		return C( v.begin( ), v.end( ) );
	}

	// A stage over the owned result of an earlier stage, consumed in the same
	// pipeline
	template<typename C, typename A, typename B>
	void mid( Src &s ) {
		if constexpr( not composable<A, B>( ) ) {
			return mid<C, SFilter, A>( s );
		} else {
		auto const v = few( s );
		A const a( s );
		B const b( s );
		V const want = b.model( a.model( v ) );
		auto sorted = v;
		std::sort( sorted.begin( ), sorted.end( ) );
		if( not want.empty( ) and want != v ) {
			s.nontrivial( );
		}
		C const src = exact<C>( v );
		CHECK_EQ( dp::pipeline( src, dp::Copy( ), a.stage( ), b.stage( ), dp::To<std::vector>( ) ), want );
		CHECK_EQ( dp::pipeline( src, a.stage( ), dp::To<std::list>( ), b.stage( ), dp::To<std::vector>( ) ), want );
		CHECK_EQ( dp::pipeline( src, dp::Copy( ), a.stage( ), dp::To<std::vector>( ), b.stage( ), dp::Count ), want.size( ) );
		auto const kept = dp::pipeline( dp::Copy( ), a.stage( ), dp::To<std::vector>( ), b.stage( ), dp::To<std::vector>( ) );
		CHECK_EQ( kept( src ), want );
		CHECK_EQ( kept( exact<C>( v ) ), want );
		CHECK_EQ( dp::pipeline( exact<C>( v ), a.stage( ), b.stage( ), dp::To<std::vector>( ) ), want );
		CHECK_EQ( dp::pipeline( src, dp::To<std::multiset>( ), a.stage( ), b.stage( ), dp::To<std::vector>( ) ), b.model( a.model( sorted ) ) );
		}
	}

	// A view that keeps the container it was given
	template<typename C, typename A>
	void owned( Src &s ) {
		auto const v = few( s );
		A const a( s );
		auto const want = a.model( v );
		if( not want.empty( ) and want != v ) {
			s.nontrivial( );
		}
		using view_t = decltype( dp::pipeline( exact<C>( v ), a.stage( ) ) );
		auto r = std::make_unique<view_t>( dp::pipeline( exact<C>( v ), a.stage( ) ) );
		CHECK_EQ( drained( *r ), want );
		CHECK_EQ( drained( *r ), want );
		view_t const copied( *r );
		if( s.boolean( ) ) {
			r.reset( );
			CHECK_EQ( drained( copied ), want );
			
view_t const again( copied );
			CHECK_EQ( drained( again ), want );
		} else {
			view_t const moved( std::move( *r ) );
			r.reset( );
			CHECK_EQ( drained( moved ), want );
			CHECK_EQ( drained( copied ), want );
		}
		// and one made in the middle
		auto mapped = want;
		for( auto &x : mapped ) {
			x = Affine{ 3, 1 }( x );
		}
		C const src = exact<C>( v );
		CHECK_EQ( drained( dp::pipeline( src, dp::Copy( ), a.stage( ) ) ), want );
		CHECK_EQ( drained( dp::pipeline( src, dp::Copy( ), a.stage( ), dp::Map( Affine{ 3, 1 } ) ) ), mapped );
	}

	using Two = TL<SMap, SFilter, STake, SSkip, STakeWhile, SDropUntil, SUnique, SClamp, SChunk, SSlide, SSplit, SSplitSeq>;
	using Own = TL<SMap, SMapProj, SClamp, SChunk, SSlide, SSplit, SSplitIf, SSplitSeq>;
	template<std::size_t I>
	using Held = std::conditional_t<I % 3 == 0, V, std::conditional_t<I % 3 == 1, std::list<int>, std::deque<int>>>;
} // namespace

PROP( owned_in_the_middle, {} ) {
	static auto const table = []<std::size_t... I>( std::index_sequence<I...> ) {
		return std::array<Fn, 60>{ &mid<Held<mix( 3 * I )>, Two::at<I % Two::size>, Two::at<mix( 3 * I + 2 ) % Two::size>>... };
	}( std::make_index_sequence<60>{ } );
	table[s.below( table.size( ) )]( s );
}

PROP( owned_sources, {} ) {
	static auto const table = []<std::size_t... I>( std::index_sequence<I...> ) {
		return std::array<Fn, Own::size * 3>{ &owned<Held<I>, Own::at<I / 3>>... };
	}( std::make_index_sequence<Own::size * 3>{ } );
	table[s.below( table.size( ) )]( s );
}
#endif
