// C29: tuples and argument packs of several shapes with generated elements
// against std::tuple and plain calls; lifetimes are tracked.
// nontrivial: the elements differ from each other, or a part of them is moved.
// pbt-flags: -Wno-self-move -Wno-missing-braces
// pbt-parts: 3
// pbt-scale: 8
#include "pbt.h"
#include <array>
#include <functional>
#include <list>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <type_traits>
#include <variant>
#include <vector>

#if PBT_PART == 0
#include "daw/daw_tuple.h"
#elif PBT_PART == 1
#include "daw/daw_apply.h"
#include "daw/daw_nth_pack_element.h"
#include "daw/daw_pack_element.h"
#include "daw/daw_tuple2.h"
#include "daw/daw_tuple_forward.h"
#include "daw/daw_tuple_helper.h"
#else
#include "daw/compressed_pair.h"
#include "daw/daw_any_if.h"
#include "daw/daw_bind_args_at.h"
#include "daw/daw_bind_front.h"
#include "daw/daw_forward_like.h"
#include "daw/daw_fwd_pack_apply.h"
#include "daw/daw_is_any_of.h"
#include "daw/daw_lift.h"
#include "daw/daw_logic.h"
#include "daw/daw_named_params.h"
#include "daw/daw_piecewise_factory.h"
#include "daw/daw_utility.h"
#include "daw/daw_zipcontainer.h"
#endif
using namespace pbt;

// CHECK as an expression, for fold expressions
#define XCHECK( ... ) \
	( ( __VA_ARGS__ ) ? void( ) : pbt::fail_at( #__VA_ARGS__, __FILE__, __LINE__ ) )

namespace {
	// a value that owns memory, is only moved and says so
	struct Own {
		std::unique_ptr<int> p{ };
		Own( ) = default;
		explicit Own( int v ) : p( new int( v ) ) {}
		bool operator==( Own const &r ) const {
			return p and r.p ? *p == *r.p : not p and not r.p;
		}
	};
	struct Empty {
		friend bool operator==( Empty const &, Empty const & ) = default;
	};
	struct OtherEmpty {
		friend bool operator==( OtherEmpty const &, OtherEmpty const & ) = default;
	};
	struct FinalEmpty final {
		friend bool operator==( FinalEmpty const &, FinalEmpty const & ) = default;
	};

	template<typename T>
	T gen( Src &s ) {
		if constexpr( std::is_same_v<T, std::string> ) {
			return std::string( s.len( 30 ), static_cast<char>( 'a' + s.below( 20 ) ) );
		} else if constexpr( std::is_same_v<T, Own> ) {
			return Own( s.range<int>( 0, 1000 ) );
		} else if constexpr( std::is_same_v<T, Tracked> ) {
			return Tracked( s.range<int>( 0, 1000 ) );
		} else if constexpr( std::is_empty_v<T> ) {
			return T{ };
		} else if constexpr( std::is_floating_point_v<T> ) {
			return static_cast<T>( s.range<int>( -100, 100 ) ) / T( 4 );
		} else {
			return static_cast<T>( s.range<int>( 0, 100 ) );
		}
	}
	// a copy, also of what is only moved
	template<typename T>
	T dup( T const &v ) {
		if constexpr( std::is_same_v<T, Own> ) {
			return v.p ? Own( *v.p ) : Own( );
		} else {
			return v;
		}
	}
	template<typename T>
	bool same( T const &a, T const &b ) {
		if constexpr( std::is_same_v<T, Tracked> ) {
			return a.v == b.v;
		} else {
			return a == b;
		}
	}
	template<typename T>
	bool moved_from( T const &v ) {
		if constexpr( std::is_same_v<T, Own> ) {
			return not v.p;
		} else if constexpr( std::is_same_v<T, Tracked> ) {
			return v.v == -1;
		} else {
			return true;
		}
	}
	template<typename T>
	inline constexpr bool copyable = not std::is_same_v<T, Own>;
} // namespace

#if PBT_PART == 0
namespace {
	template<typename... Ts, std::size_t... Is>
	void tuple_case( Src &s, std::index_sequence<Is...> ) {
		using Tp = daw::tuple<Ts...>;
		CHECK_STATIC( std::tuple_size_v<Tp> == sizeof...( Ts ) and Tp::tuple_size == sizeof...( Ts ) );
		CHECK_STATIC( ( std::is_same_v<std::tuple_element_t<Is, Tp>, Ts> and ... ) );
		std::tuple<Ts...> const ref{ gen<Ts>( s )... };
		s.nontrivial( sizeof...( Ts ) > 1 );
		auto const eq = [&]( Tp const &t ) {
			( XCHECK( same<Ts>( t.template get<Is>( ), std::get<Is>( ref ) ) ), ... );
			( XCHECK( same<Ts>( daw::get<Is>( t ), std::get<Is>( ref ) ) ), ... );
		};
		Tp t{ dup<Ts>( std::get<Is>( ref ) )... };
		eq( t );
		// references into the tuple, of the category of the tuple
		CHECK_STATIC( ( std::is_same_v<decltype( daw::get<Is>( t ) ), Ts &> and ... ) );
		CHECK_STATIC( ( std::is_same_v<decltype( daw::get<Is>( std::as_const( t ) ) ), Ts const &> and ... ) );
		CHECK_STATIC( ( std::is_same_v<decltype( daw::get<Is>( std::move( t ) ) ), Ts &&> and ... ) );
		CHECK_STATIC( ( std::is_same_v<decltype( std::move( t ).template get<Is>( ) ), Ts &&> and ... ) );
		CHECK_STATIC( ( std::is_same_v<decltype( daw::get<Is>( std::move( std::as_const( t ) ) ) ), Ts const &&> and ... ) );
		( XCHECK( &daw::get<Is>( t ) == &std::as_const( t ).template get<Is>( ) ), ... );
		if constexpr( ( copyable<Ts> and ... ) ) {
			Tp u = t;
			eq( u );
			eq( t );
			Tp const v = std::as_const( t );
			eq( v );
			// other values, then assigned
			Tp w{ gen<Ts>( s )... };
			std::tuple<Ts...> before{ dup<Ts>( daw::get<Is>( w ) )... };
			bool const equal = ( same<Ts>( std::get<Is>( before ), std::get<Is>( ref ) ) and ... );
			if constexpr( not( std::is_same_v<Ts, Tracked> or ... ) ) {
				CHECK_EQ( w == t, equal );
				CHECK_EQ( w != t, not equal );
				CHECK( t == v );
				CHECK( not( t != v ) );
				// one element differs
				if constexpr( sizeof...( Ts ) > 0 ) {
					auto const which = s.below( sizeof...( Ts ) );
					Tp x = t;
					( void( Is == which ? ( daw::get<Is>( x ) = daw::get<Is>( w ), 0 ) : 0 ), ... );
					bool const e1 = ( ( Is != which or same<Ts>( std::get<Is>( before ), std::get<Is>( ref ) ) ) and ... );
					CHECK_EQ( x == t, e1 );
					CHECK_EQ( t != x, not e1 );
				}
				CHECK( not( t == daw::make_tuple( ) ) or sizeof...( Ts ) == 0 );
			}
			w = t;
			eq( w );
			eq( t );
			// made from the values
			auto const m = daw::make_tuple( std::get<Is>( ref )... );
			CHECK_STATIC( std::is_same_v<decltype( m ), Tp const> );
			eq( m );
		}
		// written through get
		Tp y{ gen<Ts>( s )... };
		( void( daw::get<Is>( y ) = dup<Ts>( std::get<Is>( ref ) ) ), ... );
		eq( y );
		// calls get every element, in order, in the category of the tuple
		std::size_t calls = 0;
		daw::apply(
		  [&]( auto &&...as ) {
			  static_assert( ( std::is_same_v<decltype( as ), Ts &> and ... ) );
			  ++calls;
			  ( XCHECK( &as == &daw::get<Is>( t ) ), ... );
		  },
		  t );
		daw::apply(
		  [&]( auto &&...as ) {
			  static_assert( ( std::is_same_v<decltype( as ), Ts const &> and ... ) );
			  ++calls;
			  ( XCHECK( &as == &daw::get<Is>( t ) ), ... );
		  },
		  std::as_const( t ) );
		auto const n = daw::apply(
		  [&]( auto &&...as ) {
			  static_assert( ( std::is_same_v<decltype( as ), Ts &&> and ... ) );
			  ++calls;
			  std::tuple<Ts...> const got{ std::move( as )... };
			  ( XCHECK( same<Ts>( std::get<Is>( got ), std::get<Is>( ref ) ) ), ... );
			  return sizeof...( as );
		  },
		  std::move( t ) );
		CHECK_EQ( n, sizeof...( Ts ) );
		CHECK_EQ( calls, 3u );
		( XCHECK( moved_from<Ts>( daw::get<Is>( t ) ) ), ... );
		// moving, one element and all
		Tp z = std::move( y );
		eq( z );
		t = std::move( z );
		eq( t );
		if constexpr( sizeof...( Ts ) > 0 ) {
			auto const first = daw::get<0>( std::move( t ) );
			CHECK( same( std::remove_const_t<decltype( first )>( dup( first ) ), std::get<0>( ref ) ) );
			CHECK( moved_from( daw::get<0>( t ) ) );
		}
		// references
		std::tuple<Ts...> vals{ dup<Ts>( std::get<Is>( ref ) )... };
		auto const refs = daw::tie( std::get<Is>( vals )... );
		CHECK_STATIC( std::is_same_v<decltype( refs ), daw::tuple<Ts &...> const> );
		( XCHECK( &daw::get<Is>( refs ) == &std::get<Is>( vals ) ), ... );
		daw::apply(
		  [&]( auto &&...as ) {
			  static_assert( ( std::is_same_v<decltype( as ), Ts &> and ... ) );
			  ( XCHECK( &as == &std::get<Is>( vals ) ), ... );
		  },
		  daw::tie( std::get<Is>( vals )... ) );
		daw::apply(
		  [&]( auto &&...as ) {
			  static_assert( ( std::is_same_v<decltype( as ), Ts &&> and ... ) );
			  ( XCHECK( &as == &std::get<Is>( vals ) ), ... );
		  },
		  daw::forward_as_tuple( std::move( std::get<Is>( vals ) )... ) );
		( XCHECK( same<Ts>( std::get<Is>( vals ), std::get<Is>( ref ) ) ), ... );
		if constexpr( sizeof...( Ts ) == 2 ) {
			auto &[a, b] = y;
			CHECK( &a == &daw::get<0>( y ) );
			CHECK( &b == &daw::get<1>( y ) );
		}
	}
	template<typename... Ts>
	void shape( Src &s ) {
		tuple_case<Ts...>( s, std::index_sequence_for<Ts...>{ } );
	}
} // namespace

PROP( tuple, ( { .cases = 40000 } ) ) {
	switch( s.below( 10 ) ) {
	case 0:
		return shape<int>( s );
	case 1:
		return shape<std::string>( s );
	case 2:
		return shape<int, std::string>( s );
	case 3:
		return shape<Own, Tracked>( s );
	case 4:
		return shape<Empty, Empty, OtherEmpty, FinalEmpty, int>( s );
	case 5:
		return shape<Tracked, Empty, std::string, double>( s );
	case 6:
		return shape<Own>( s );
	case 7:
		return shape<unsigned char, double, short, long, char>( s );
	case 8:
		return shape<std::string, std::string, std::string, Tracked, int, int, Empty, double, std::string>( s );
	default:
		return shape<Tracked, Tracked, Own, int, Own, std::string>( s );
	}
}

PROP( tuple_of_references, ( { .cases = 20000 } ) ) {
	int a = s.range<int>( 0, 99 ), b = s.range<int>( 0, 99 );
	std::string t( s.len( 30 ), 'r' );
	s.nontrivial( a != b );
	auto m = daw::make_tuple( std::ref( a ), b, std::cref( t ) );
	CHECK_STATIC( std::is_same_v<decltype( m ), daw::tuple<int &, int, std::string const &>> );
	daw::get<0>( m ) = 1000;
	daw::get<1>( m ) = 2000;
	CHECK_EQ( a, 1000 );
	CHECK( b < 100 );
	CHECK( &daw::get<2>( m ) == &t );
	// comparisons of different element types and sizes
	CHECK( daw::make_tuple( a, b ) == daw::make_tuple( static_cast<long>( a ), static_cast<short>( b ) ) );
	CHECK( daw::make_tuple( a, b ) != daw::make_tuple( static_cast<long>( a ), static_cast<short>( b + 1 ) ) );
	CHECK( daw::make_tuple( a, b ) != daw::make_tuple( a ) );
	CHECK( not( daw::make_tuple( a ) == daw::make_tuple( a, b ) ) );
	auto const cmp = daw::tuple( t, a );
	CHECK_STATIC( std::is_same_v<decltype( cmp ), daw::tuple<std::string, int> const> );
	CHECK( cmp == daw::make_tuple( t, 1000 ) );
	auto const e = daw::make_tuple( );
	CHECK( e == daw::tuple<>{ } );
	CHECK_EQ( daw::apply(
	            [] {
		            return 42;
	            },
	            e ),
	          42 );
	// members through apply
	struct P {
		int x;
		int plus( int y ) const {
			return x + y;
		}
	};
	CHECK_EQ( daw::apply( &P::plus, daw::make_tuple( P{ a }, b ) ), a + b );
	// tuples in tuples
	auto const nested = daw::make_tuple( daw::make_tuple( a, t ), b );
	CHECK_EQ( daw::get<1>( daw::get<0>( nested ) ), t );
	daw::tuple<daw::tuple<int>> one{ daw::tuple<int>{ b } };
	auto const copy = one;
	CHECK_EQ( daw::get<0>( daw::get<0>( copy ) ), b );
}
#endif

#if PBT_PART == 1
namespace {
	template<typename... Ts, std::size_t... Is>
	void tuple2_case( Src &s, std::index_sequence<Is...> ) {
		using Tp = daw::tuple2<Ts...>;
		CHECK_STATIC( daw::tuple2_size_v<Tp> == sizeof...( Ts ) and Tp::size( ) == sizeof...( Ts ) );
		CHECK_STATIC( ( std::is_same_v<daw::tuple2_element_t<Is, Tp>, Ts> and ... ) );
		CHECK_STATIC( daw::is_tuple2_v<Tp> and not daw::is_tuple2_v<int> );
		std::tuple<Ts...> const ref{ gen<Ts>( s )... };
		s.nontrivial( sizeof...( Ts ) > 1 );
		auto const eq = [&]( Tp const &t ) {
			( XCHECK( same<Ts>( get<Is>( t ), std::get<Is>( ref ) ) ), ... );
		};
		Tp t{ dup<Ts>( std::get<Is>( ref ) )... };
		eq( t );
		CHECK_STATIC( ( std::is_same_v<decltype( get<Is>( t ) ), Ts &> and ... ) );
		CHECK_STATIC( ( std::is_same_v<decltype( get<Is>( std::as_const( t ) ) ), Ts const &> and ... ) );
		CHECK_STATIC( ( std::is_same_v<decltype( get<Is>( std::move( t ) ) ), Ts &&> and ... ) );
		CHECK_STATIC( ( std::is_same_v<decltype( get<Is>( std::move( std::as_const( t ) ) ) ), Ts const &&> and ... ) );
		Tp y{ gen<Ts>( s )... };
		( void( get<Is>( y ) = dup<Ts>( std::get<Is>( ref ) ) ), ... );
		eq( y );
		std::size_t calls = 0;
		apply( t, [&]( auto &&...as ) {
			CHECK_STATIC( ( std::is_same_v<decltype( as ), Ts &> and ... ) );
			++calls;
			( XCHECK( &as == &get<Is>( t ) ), ... );
		} );
		apply( std::as_const( t ), [&]( auto &&...as ) {
			CHECK_STATIC( ( std::is_same_v<decltype( as ), Ts const &> and ... ) );
			++calls;
			( XCHECK( &as == &get<Is>( t ) ), ... );
		} );
		// the function itself is not consumed
		auto const counter = std::make_shared<int>( 0 );
		auto fn = [&calls, &ref, counter]( auto &&...as ) {
			CHECK_STATIC( ( std::is_same_v<decltype( as ), Ts &&> and ... ) );
			++calls;
			++*counter;
			std::tuple<Ts...> const got{ std::move( as )... };
			( XCHECK( same<Ts>( std::get<Is>( got ), std::get<Is>( ref ) ) ), ... );
			return sizeof...( as );
		};
		CHECK_EQ( apply( std::move( t ), fn ), sizeof...( Ts ) );
		CHECK_EQ( apply( std::move( y ), fn ), sizeof...( Ts ) );
		CHECK_EQ( calls, 4u );
		CHECK_EQ( *counter, 2 );
		( XCHECK( moved_from<Ts>( get<Is>( t ) ) ), ... );
		// joined: every element once, in order
		Tp a{ dup<Ts>( std::get<Is>( ref ) )... };
		daw::tuple2<std::string, int> const mid{ gen<std::string>( s ), gen<int>( s ) };
		auto all = daw::tuple2_cat( std::move( a ), mid, Tp{ dup<Ts>( std::get<Is>( ref ) )... } );
		CHECK_STATIC( std::is_same_v<decltype( all ), daw::tuple2<Ts..., std::string, int, Ts...>> );
		constexpr std::size_t N = sizeof...( Ts );
		( XCHECK( same<Ts>( get<Is>( all ), std::get<Is>( ref ) ) ), ... );
		CHECK_EQ( get<N>( all ), get<0>( mid ) );
		CHECK_EQ( get<N + 1>( all ), get<1>( mid ) );
		( XCHECK( same<Ts>( get<N + 2 + Is>( all ), std::get<Is>( ref ) ) ), ... );
		( XCHECK( moved_from<Ts>( get<Is>( a ) ) ), ... );
		if constexpr( ( copyable<Ts> and ... ) ) {
			Tp b{ std::get<Is>( ref )... };
			auto const two = daw::tuple2_cat( b, b );
			( XCHECK( same<Ts>( get<Is>( two ), std::get<Is>( ref ) ) ), ... );
			( XCHECK( same<Ts>( get<N + Is>( two ), std::get<Is>( ref ) ) ), ... );
			eq( b );
			eq( daw::tuple2_cat( b ) );
			eq( b );
		}
		eq( daw::tuple2_cat( Tp{ dup<Ts>( std::get<Is>( ref ) )... } ) );
	}
	template<typename... Ts>
	void shape2( Src &s ) {
		tuple2_case<Ts...>( s, std::index_sequence_for<Ts...>{ } );
	}
} // namespace

PROP( tuple2, ( { .cases = 30000 } ) ) {
	switch( s.below( 7 ) ) {
	case 0:
		return shape2<int>( s );
	case 1:
		return shape2<std::string>( s );
	case 2:
		return shape2<int, std::string>( s );
	case 3:
		return shape2<Own, Tracked>( s );
	case 4:
		return shape2<unsigned char, double, short, long, char>( s );
	case 5:
		return shape2<std::string, std::string, Tracked, int, FinalEmpty, double>( s );
	default:
		return shape2<Own, int, Own, std::string>( s );
	}
}

namespace {
	struct Member {
		int x;
		int plus( int y ) const {
			return x + y;
		}
	};
	template<typename... Ts, std::size_t... Is>
	void helper_case( Src &s, std::index_sequence<Is...> ) {
		std::tuple<Ts...> const ref{ gen<Ts>( s )... };
		std::tuple<Ts...> t{ dup<Ts>( std::get<Is>( ref ) )... };
		s.nontrivial( sizeof...( Ts ) > 1 );
		std::size_t calls = 0;
		auto const each = [&]( auto use_invoke ) {
			constexpr bool I = decltype( use_invoke )::value;
			daw::apply<I>(
			  [&]( auto &&...as ) {
				  static_assert( ( std::is_same_v<decltype( as ), Ts &> and ... ) );
				  ++calls;
				  ( XCHECK( &as == &std::get<Is>( t ) ), ... );
			  },
			  t );
			daw::apply<I>(
			  [&]( auto &&...as ) {
				  static_assert( ( std::is_same_v<decltype( as ), Ts const &> and ... ) );
				  ++calls;
				  ( XCHECK( &as == &std::get<Is>( t ) ), ... );
			  },
			  std::as_const( t ) );
			auto const n = daw::apply<I>(
			  [&]( auto &&...as ) {
				  static_assert( ( std::is_same_v<decltype( as ), Ts &&> and ... ) );
				  ++calls;
				  ( XCHECK( &as == &std::get<Is>( t ) ), ... );
				  return sizeof...( as );
			  },
			  std::move( t ) );
			CHECK_EQ( n, sizeof...( Ts ) );
		};
		each( std::true_type{ } );
		each( std::false_type{ } );
		CHECK_EQ( calls, 6u );
		// every element, in order
		std::vector<void const *> seen;
		daw::tuple::for_each( std::as_const( t ), [&]( auto const &v ) {
			seen.push_back( &v );
		} );
		std::vector<void const *> const want{ static_cast<void const *>( &std::get<Is>( t ) )... };
		CHECK( seen == want );
		seen.clear( );
		daw::tuple::apply( t, [&]( auto &v ) {
			CHECK_STATIC( not std::is_const_v<std::remove_reference_t<decltype( v )>> );
			seen.push_back( &v );
		} );
		CHECK( seen == want );
		// the element at an index known at run time
		if constexpr( sizeof...( Ts ) > 0 ) {
			auto const idx = s.below( sizeof...( Ts ) );
			auto const take = [&]( auto &&v ) {
				seen.push_back( static_cast<void const *>( &v ) );
			};
			seen.clear( );
			daw::tuple::apply_at( t, idx, take );
			daw::tuple::apply_at( std::as_const( t ), idx, take );
			daw::tuple::apply_at( std::move( t ), idx, take );
			CHECK_EQ( seen.size( ), 3u );
			CHECK( seen[0] == want[idx] and seen[1] == want[idx] and seen[2] == want[idx] );
			auto const at = []( auto &&v ) -> void const * {
				return std::visit(
				  []( auto r ) -> void const * {
					  return &r.get( );
				  },
				  v );
			};
			auto const v = daw::get( t, idx );
			CHECK_EQ( v.index( ), idx );
			CHECK( at( v ) == want[idx] );
			auto const cv = daw::get( std::as_const( t ), idx );
			CHECK_EQ( cv.index( ), idx );
			CHECK( at( cv ) == want[idx] );
		}
		CHECK_STATIC( daw::tuple_size_v<std::tuple<Ts...>> == sizeof...( Ts ) );
		CHECK_STATIC( daw::is_empty_tuple_v<std::tuple<Ts...>> == ( sizeof...( Ts ) == 0 ) );
		// forwarded: lvalues are referred to, rvalues are kept
		auto const fwd = daw::forward_nonrvalue_as_tuple( std::get<Is>( t )..., dup<Ts>( std::get<Is>( ref ) )... );
		CHECK_STATIC( std::is_same_v<decltype( fwd ), std::tuple<Ts &..., Ts...> const> );
		( XCHECK( &std::get<Is>( fwd ) == &std::get<Is>( t ) ), ... );
		( XCHECK( same<Ts>( std::get<sizeof...( Ts ) + Is>( fwd ), std::get<Is>( ref ) ) ), ... );
		auto const fwd2 = daw::forward_nontemp_as_tuple( std::get<Is>( t )..., dup<Ts>( std::get<Is>( ref ) )... );
		CHECK_STATIC( std::is_same_v<decltype( fwd2 ), std::tuple<Ts &..., Ts...> const> );
		( XCHECK( &std::get<Is>( fwd2 ) == &std::get<Is>( t ) ), ... );
		( XCHECK( same<Ts>( std::get<sizeof...( Ts ) + Is>( fwd2 ), std::get<Is>( ref ) ) ), ... );
		( XCHECK( &daw::forward_nth_pack_element<Is>( std::get<Is>( t )... ) == &std::get<Is>( t ) ), ... );
		( XCHECK( same<Ts>( daw::nth_pack_element<Is>( dup<Ts>( std::get<Is>( ref ) )... ), std::get<Is>( ref ) ) ), ... );
		CHECK_STATIC( ( std::is_same_v<daw::pack_element_t<Is, std::tuple<Ts...>>, Ts> and ... ) );
		CHECK_STATIC( daw::pack_size_v<std::tuple<Ts...>> == sizeof...( Ts ) );
	}
	template<typename... Ts>
	void shape3( Src &s ) {
		helper_case<Ts...>( s, std::index_sequence_for<Ts...>{ } );
	}
} // namespace

PROP( std_tuple_helpers, ( { .cases = 30000 } ) ) {
	switch( s.below( 6 ) ) {
	case 0:
		return shape3<int>( s );
	case 1:
		return shape3<Own, Tracked, Own>( s );
	case 2:
		return shape3<int, int, int, int, int, int, int, int>( s );
	case 3:
		return shape3<unsigned char, double, short, long, char>( s );
	case 4:
		return shape3<std::string, std::string, Tracked, int, double>( s );
	default:
		return shape3<Own, int, Own, std::string>( s );
	}
}

namespace {
	struct Agg {
		int a;
		std::string b;
		Own c;
	};
	struct Ctor {
		std::string b;
		int a;
		Ctor( int x, std::string y, Own z ) : b( std::move( y ) ), a( x + *z.p ) {}
	};
} // namespace

PROP( tuple_arithmetic, ( { .cases = 30000 } ) ) {
	using T = std::tuple<int, double, long>;
	auto const g = [&]( int lo ) {
		return T{ s.range<int>( lo, 50 ), s.range<int>( lo, 50 ) / 4.0, s.range<long>( lo, 50 ) };
	};
	T const a = g( -50 );
	T const b = g( 1 );
	s.nontrivial( a != b );
	auto const [a0, a1, a2] = a;
	auto const [b0, b1, b2] = b;
	int const k = s.range<int>( 1, 20 );
	{
		using namespace daw::tuple::operators;
		CHECK( a + b == ( T{ a0 + b0, a1 + b1, a2 + b2 } ) );
		CHECK( a - b == ( T{ a0 - b0, a1 - b1, a2 - b2 } ) );
		CHECK( a * b == ( T{ a0 * b0, a1 * b1, a2 * b2 } ) );
		CHECK( a / b == ( T{ a0 / b0, a1 / b1, a2 / b2 } ) );
		CHECK( a + k == ( T{ a0 + k, a1 + k, a2 + k } ) );
		CHECK( a - k == ( T{ a0 - k, a1 - k, a2 - k } ) );
		CHECK( a * k == ( T{ a0 * k, a1 * k, a2 * k } ) );
		CHECK( a / k == ( T{ a0 / k, a1 / k, a2 / k } ) );
		CHECK( k + b == ( T{ k + b0, k + b1, k + b2 } ) );
		CHECK( k - b == ( T{ k - b0, k - b1, k - b2 } ) );
		CHECK( k * b == ( T{ k * b0, k * b1, k * b2 } ) );
		CHECK( k / b == ( T{ k / b0, k / b1, k / b2 } ) );
	}
	CHECK( daw::tuple::min( a, b ) == ( T{ std::min( a0, b0 ), std::min( a1, b1 ), std::min( a2, b2 ) } ) );
	CHECK( daw::tuple::max( a, b ) == ( T{ std::max( a0, b0 ), std::max( a1, b1 ), std::max( a2, b2 ) } ) );
	std::ostringstream os, want;
	{
		using daw::tuple::operator<<;
		os << a;
	}
	want << "{ " << a0 << ", " << a1 << ", " << a2 << " }";
	CHECK_EQ( os.str( ), want.str( ) );
	std::string const t( s.len( 30 ), 'm' );
	auto const agg = daw::make_from_tuple2<Agg>( std::tuple<int, std::string, Own>{ a0, t, Own( b0 ) } );
	CHECK_EQ( agg.a, a0 );
	CHECK_EQ( agg.b, t );
	CHECK_EQ( *agg.c.p, b0 );
	auto const c = daw::make_from_tuple2<Ctor>( std::tuple<int, std::string, Own>{ a0, t, Own( b0 ) } );
	CHECK_EQ( c.a, a0 + b0 );
	CHECK_EQ( c.b, t );
	auto lv = std::tuple<int, std::string>{ a0, t };
	struct Two {
		int x;
		std::string y;
	};
	CHECK_EQ( daw::make_from_tuple2<Two>( lv ).y, t );
	CHECK_EQ( std::get<1>( lv ), t );
	// members and references called through apply and invoke
	Member m{ a0 };
	CHECK_EQ( daw::apply( &Member::plus, std::tuple( m, b0 ) ), a0 + b0 );
	CHECK_EQ( daw::apply( &Member::plus, std::tuple( &m, b0 ) ), a0 + b0 );
	CHECK_EQ( daw::apply( &Member::plus, std::tuple( std::ref( m ), b0 ) ), a0 + b0 );
	CHECK_EQ( daw::apply( &Member::x, std::tuple( m ) ), a0 );
	CHECK_EQ( daw::apply( &Member::x, std::tuple( &m ) ), a0 );
	CHECK_EQ( daw::apply(
	            [] {
		            return 42;
	            },
	            std::tuple<>{ } ),
	          42 );
}
#endif

#if PBT_PART == 2
namespace {
	template<typename... Ts, std::size_t... Is>
	void pack_case( Src &s, std::index_sequence<Is...> ) {
		std::tuple<Ts...> const ref{ gen<Ts>( s )... };
		std::tuple<Ts...> t{ dup<Ts>( std::get<Is>( ref ) )... };
		s.nontrivial( sizeof...( Ts ) > 1 );
		// rvalues and lvalues by turns
		std::size_t calls = 0;
		auto const r = daw::apply(
		  [&]( auto &&...as ) {
			  static_assert( ( std::is_same_v<decltype( as ), Ts &> and ... ) );
			  ++calls;
			  ( XCHECK( &as == &std::get<Is>( t ) ), ... );
			  return sizeof...( as );
		  },
		  daw::fwd_pack{ std::get<Is>( t )... } );
		CHECK_EQ( r, sizeof...( Ts ) );
		daw::apply(
		  [&]( auto &&...as ) {
			  static_assert( ( std::is_same_v<decltype( as ), Ts const &> and ... ) );
			  ++calls;
			  ( XCHECK( &as == &std::get<Is>( t ) ), ... );
		  },
		  daw::fwd_pack{ std::as_const( std::get<Is>( t ) )... } );
		daw::apply(
		  [&]( auto &&...as ) {
			  static_assert( ( std::is_same_v<decltype( as ), Ts &&> and ... ) );
			  ++calls;
			  ( XCHECK( &as == &std::get<Is>( t ) ), ... );
			  std::tuple<Ts...> const got{ std::move( as )... };
			  ( XCHECK( same<Ts>( std::get<Is>( got ), std::get<Is>( ref ) ) ), ... );
		  },
		  daw::fwd_pack{ std::move( std::get<Is>( t ) )... } );
		CHECK_EQ( calls, 3u );
		( XCHECK( moved_from<Ts>( std::get<Is>( t ) ) ), ... );
		t = std::tuple<Ts...>{ dup<Ts>( std::get<Is>( ref ) )... };
		daw::fwd_pack p{ std::get<Is>( t )..., std::move( std::get<Is>( t ) )... };
		using P = decltype( p );
		constexpr std::size_t N = sizeof...( Ts );
		CHECK_STATIC( std::is_same_v<P, daw::fwd_pack<Ts &..., Ts &&...>> );
		CHECK_STATIC( std::tuple_size_v<P> == 2 * N and daw::is_fwd_pack_v<P> and not daw::is_fwd_pack_v<int> );
		CHECK_STATIC( ( std::is_same_v<std::tuple_element_t<Is, P>, Ts &> and ... ) );
		CHECK_STATIC( ( std::is_same_v<std::tuple_element_t<N + Is, P>, Ts &&> and ... ) );
		CHECK_STATIC( ( std::is_same_v<decltype( daw::get<Is>( std::move( p ) ) ), Ts &> and ... ) );
		CHECK_STATIC( ( std::is_same_v<decltype( daw::get<N + Is>( std::move( p ) ) ), Ts &&> and ... ) );
		( XCHECK( &p.template get<Is>( ) == &std::get<Is>( t ) ), ... );
		P const cp = p;
		( XCHECK( &cp.template get<Is>( ) == &std::get<Is>( t ) ), ... );
		( XCHECK( same<Ts>( dup<Ts>( p.template get<N + Is>( ) ), std::get<Is>( ref ) ) ), ... );
	}
	template<typename... Ts>
	void pshape( Src &s ) {
		pack_case<Ts...>( s, std::index_sequence_for<Ts...>{ } );
	}
} // namespace

PROP( forwarded_packs, ( { .cases = 30000 } ) ) {
	switch( s.below( 5 ) ) {
	case 0:
		return pshape<int>( s );
	case 1:
		return pshape<Own, Tracked, Own>( s );
	case 2:
		return pshape<int, int, int, int, int, int, int, int>( s );
	case 3:
		return pshape<std::string, std::string, Tracked, int, double>( s );
	default:
		return pshape<Own, int, Own, std::string>( s );
	}
}

namespace {
	struct Made {
		int a;
		std::string b;
		double c;
		std::string d;
	};
	struct MadeOwn {
		Own a;
		std::string b;
		Own c;
	};
	template<typename V>
	auto with_index( std::size_t i, V v ) {
		switch( i ) {
		case 0:
			return v( std::integral_constant<std::size_t, 0>{ } );
		case 1:
			return v( std::integral_constant<std::size_t, 1>{ } );
		case 2:
			return v( std::integral_constant<std::size_t, 2>{ } );
		default:
			return v( std::integral_constant<std::size_t, 3>{ } );
		}
	}
} // namespace

// arguments set one at a time, in any order, by position in the type or at run
// time, as values or (late) as functions
PROP( piecewise, ( { .cases = 30000 } ) ) {
	daw::piecewise_factory_t<Made, int, std::string, double, std::string> now{ };
	daw::piecewise_factory_late_t<Made, int, std::string, double, std::string> late{ };
	Made want{ };
	int evaluated = 0, functions = 0;
	bool is_function[4]{ };
	bool set[4]{ };
	auto const put = [&]( std::size_t i ) {
		set[i] = true;
		is_function[i] = false;
		bool const rt = s.boolean( ), lv = s.boolean( ), fn = s.chance( 40 );
		with_index( i, [&]( auto ic ) {
			constexpr std::size_t I = decltype( ic )::value;
			using T = std::tuple_element_t<I, std::tuple<int, std::string, double, std::string>>;
			T const v = gen<T>( s );
			if constexpr( I == 0 ) {
				want.a = v;
			} else if constexpr( I == 1 ) {
				want.b = v;
			} else if constexpr( I == 2 ) {
				want.c = v;
			} else {
				want.d = v;
			}
			if( rt ) {
				if( lv ) {
					now.set( I, v );
					late.set( I, v );
				} else {
					now.set( I, T( v ) );
					late.set( I, T( v ) );
				}
			} else {
				if( lv ) {
					now.template set<I>( v );
				} else {
					now.template set<I>( T( v ) );
				}
				if( fn ) {
					late.template set<I>( [v, &evaluated] {
						++evaluated;
						return v;
					} );
					is_function[I] = true;
				} else {
					late.template set<I>( v );
				}
			}
		} );
	};
	auto const more = s.len( 6 );
	for( std::size_t i = 0; i < more; ++i ) {
		put( s.below( 4 ) );
	}
	for( std::size_t i = 4; i-- > 0; ) {
		if( not set[i] ) {
			put( i );
		}
	}
	for( bool f : is_function ) {
		functions += f;
	}
	s.nontrivial( more > 1 );
	auto const eq = [&]( Made const &m ) {
		CHECK_EQ( m.a, want.a );
		CHECK_EQ( m.b, want.b );
		CHECK_EQ( m.c, want.c );
		CHECK_EQ( m.d, want.d );
	};
	eq( now( ) );
	eq( now( ) );
	eq( std::as_const( now )( ) );
	CHECK_EQ( evaluated, 0 );
	eq( late( ) );
	CHECK_EQ( evaluated, functions );
	eq( std::as_const( late )( ) );
	CHECK_EQ( evaluated, 2 * functions );
	eq( std::move( now )( ) );
	eq( std::move( late )( ) );
	CHECK_EQ( evaluated, 3 * functions );
	CHECK_THROWS( std::out_of_range, now.set( 4 + s.below( 5 ), 1 ) );
	// arguments that are only moved
	daw::piecewise_factory_t<MadeOwn, Own, std::string, Own> own{ };
	own.set<2>( Own( want.a ) );
	own.set<0>( Own( want.a + 1 ) );
	own.set<1>( want.b );
	auto const m = std::move( own )( );
	CHECK_EQ( *m.a.p, want.a + 1 );
	CHECK_EQ( m.b, want.b );
	CHECK_EQ( *m.c.p, want.a );
}

namespace {
	inline constexpr auto width = DAW_MAKE_NAMED_OPTION( int, width, 80 );
	inline constexpr auto height = DAW_MAKE_NAMED_OPTION( int, height, 25 );
	inline constexpr auto scale = DAW_MAKE_NAMED_OPTION( double, scale, 1.5 );
	inline auto const title = DAW_MAKE_NAMED_OPTION( std::string, title, "none" );

	template<typename... Opts>
	std::tuple<int, int, double, std::string> options( Opts &&...opts ) {
		return { daw::nparam::get_opt( width, opts... ), daw::nparam::get_opt( height, opts... ),
		         daw::nparam::get_opt( scale, opts... ), daw::nparam::get_opt( title, opts... ) };
	}
	template<typename... Chosen>
	auto choose( Src &s, std::tuple<int, int, double, std::string> &want, unsigned left, Chosen... chosen ) {
		if constexpr( sizeof...( Chosen ) < 4 ) {
			auto const i = left ? s.below( 5 ) : 4;
			if( i < 4 and ( left >> i & 1u ) ) {
				auto const rest = left & ~( 1u << i );
				switch( i ) {
				case 0:
					std::get<0>( want ) = s.range<int>( 0, 99 );
					if constexpr( not( std::is_same_v<Chosen, std::remove_const_t<decltype( width )>> or ... ) ) {
						return choose( s, want, rest, chosen..., width = int( std::get<0>( want ) ) );
					}
					break;
				case 1:
					std::get<1>( want ) = s.range<int>( 0, 99 );
					if constexpr( not( std::is_same_v<Chosen, std::remove_const_t<decltype( height )>> or ... ) ) {
						return choose( s, want, rest, chosen..., height = std::get<1>( want ) );
					}
					break;
				case 2:
					std::get<2>( want ) = s.range<int>( 0, 99 ) / 2.0;
					if constexpr( not( std::is_same_v<Chosen, std::remove_const_t<decltype( scale )>> or ... ) ) {
						return choose( s, want, rest, chosen..., scale = std::get<2>( want ) );
					}
					break;
				default:
					std::get<3>( want ) = std::string( s.len( 30 ), 't' );
					if constexpr( not( std::is_same_v<Chosen, std::remove_const_t<decltype( title )>> or ... ) ) {
						return choose( s, want, rest, chosen..., title = std::get<3>( want ) );
					}
					break;
				}
			}
		}
		s.nontrivial( sizeof...( Chosen ) > 1 );
		return options( chosen... );
	}
} // namespace

PROP( named_options, ( { .cases = 20000 } ) ) {
	std::tuple<int, int, double, std::string> want{ 80, 25, 1.5, "none" };
	auto const got = choose( s, want, 15u );
	CHECK( got == want );
	// the defaults are not changed by using them
	CHECK( options( ) == ( std::tuple<int, int, double, std::string>{ 80, 25, 1.5, "none" } ) );
	auto const w = width = 5;
	CHECK( w == ( width = 5 ) );
	CHECK( w < ( width = 6 ) );
	CHECK_STATIC( daw::nparam::Options<decltype( width ), decltype( height )> );
	CHECK_STATIC( not daw::nparam::Options<decltype( width ), decltype( width )> );
	CHECK_STATIC( not daw::nparam::Options<int> );
}

PROP( zip_container, ( { .cases = 20000 } ) ) {
	auto const n = s.len( 12 );
	std::vector<int> a;
	std::list<std::string> b;
	std::vector<double> c;
	for( std::size_t i = 0; i < n; ++i ) {
		a.push_back( s.range<int>( 0, 99 ) );
		b.push_back( gen<std::string>( s ) );
		c.push_back( gen<double>( s ) );
	}
	s.nontrivial( n > 1 );
	auto z = daw::zip_container( a, b, c );
	std::size_t k = 0;
	auto bi = b.begin( );
	for( auto it = z.begin( ); it != z.end( ); ++it ) {
		CHECK( k < n );
		auto &&e = *it;
		CHECK( &std::get<0>( e ) == &a[k] );
		CHECK( &std::get<1>( e ) == &*bi );
		CHECK( &std::get<2>( e ) == &c[k] );
		++k;
		++bi;
	}
	CHECK_EQ( k, n );
	auto const m = daw::make_zipcontainer( a, c );
	k = 0;
	for( auto it = m.cbegin( ); it != m.cend( ); ++it ) {
		CHECK( k < n );
		CHECK_EQ( std::get<0>( *it ), a[k] );
		CHECK_EQ( std::get<1>( *it ), c[k] );
		++k;
	}
	CHECK_EQ( k, n );
}

PROP( binding, ( { .cases = 20000 } ) ) {
	int const a = s.range<int>( 0, 99 ), b = s.range<int>( 0, 99 );
	std::string const t = gen<std::string>( s );
	s.nontrivial( a != b );
	int calls = 0;
	auto const f = [&calls]( int x, std::string y, int z, Own w ) {
		++calls;
		return std::to_string( x ) + y + std::to_string( z ) + std::to_string( *w.p );
	};
	auto const want = std::to_string( a ) + t + std::to_string( b ) + "7";
	CHECK_EQ( daw::bind_front( f )( a, t, b, Own( 7 ) ), want );
	CHECK_EQ( daw::bind_front( f, a )( t, b, Own( 7 ) ), want );
	auto bf = daw::bind_front( f, a, t );
	CHECK_EQ( bf( b, Own( 7 ) ), want );
	CHECK_EQ( std::as_const( bf )( b, Own( 7 ) ), want );
	CHECK_EQ( daw::bind_front( f, a, t, b )( Own( 7 ) ), want );
	auto const g = [&calls]( int x, std::string const &y, int z, double d ) {
		++calls;
		return std::to_string( x ) + y + std::to_string( z ) + std::to_string( d );
	};
	auto const want2 = std::to_string( a ) + t + std::to_string( b ) + std::to_string( 2.5 );
	CHECK_EQ( ( daw::bind_args_at<0>( g, a, t )( b, 2.5 ) ), want2 );
	CHECK_EQ( ( daw::bind_args_at<1>( g, t, b )( a, 2.5 ) ), want2 );
	CHECK_EQ( ( daw::bind_args_at<2>( g, b )( a, t, 2.5 ) ), want2 );
	CHECK_EQ( ( daw::bind_args_at<3>( g, 2.5 )( a, t, b ) ), want2 );
	auto ba = daw::bind_args_at<1>( g, t );
	CHECK_EQ( ba( a, b, 2.5 ), want2 );
	CHECK_EQ( ba( a, b, 2.5 ), want2 );
	CHECK_EQ( std::as_const( ba )( a, b, 2.5 ), want2 );
	CHECK_EQ( calls, 12 );
}

PROP( compressed, ( { .cases = 20000 } ) ) {
	int const a = s.range<int>( 0, 99 ), b = s.range<int>( 0, 99 );
	s.nontrivial( a != b );
	using P = daw::compressed_pair<Empty, Tracked>;
	CHECK_STATIC( sizeof( P ) == sizeof( Tracked ) );
	P p( Empty{ }, Tracked( a ) );
	CHECK_EQ( p.second( ).v, a );
	P q( p );
	CHECK_EQ( std::as_const( q ).second( ).v, a );
	q.second( ).v = b;
	CHECK_EQ( p.second( ).v, a );
	p.swap( q );
	CHECK_EQ( p.second( ).v, b );
	CHECK_EQ( q.second( ).v, a );
	swap( p, q );
	CHECK_EQ( p.second( ).v, a );
	daw::compressed_pair<std::string, Own> o( std::string( 20, 'x' ), Own( b ) );
	CHECK_EQ( o.first( ), std::string( 20, 'x' ) );
	CHECK_EQ( *o.second( ).p, b );
	auto o2 = std::move( o );
	CHECK_EQ( o2.first( ), std::string( 20, 'x' ) );
	CHECK_EQ( *o2.second( ).p, b );
	daw::compressed_pair<std::string, std::vector<int>> pc( std::piecewise_construct, std::forward_as_tuple( 5, 'c' ), std::forward_as_tuple( 3, a ) );
	CHECK_EQ( pc.first( ), std::string( "ccccc" ) );
	CHECK_EQ( pc.second( ), std::vector<int>( 3, a ) );
	daw::compressed_pair<int, long> const z{ };
	CHECK_EQ( z.first( ), 0 );
	CHECK_EQ( z.second( ), 0 );
}

PROP( packs, ( { .cases = 20000 } ) ) {
	int a = s.range<int>( 0, 99 );
	std::string t( s.draw( 20 ), 'k' );
	Own o( a );
	int const c = s.range<int>( 0, 99 );
	s.nontrivial( a != c );
	// by position, with the category kept
	CHECK_STATIC( std::is_same_v<decltype( daw::pack_get<0>( a, t, std::move( o ), c ) ), int &> );
	CHECK_STATIC( std::is_same_v<decltype( daw::pack_get<2>( a, t, std::move( o ), c ) ), Own &&> );
	CHECK_STATIC( std::is_same_v<decltype( daw::pack_get<3>( a, t, std::move( o ), c ) ), int const &> );
	CHECK( &daw::pack_get<0>( a, t, o, c ) == &a );
	CHECK( &daw::pack_get<1>( a, t, o, c ) == &t );
	CHECK( &daw::pack_get<2>( a, t, o, c ) == &o );
	CHECK( &daw::pack_get<3>( a, t, o, c ) == &c );
	Own moved = daw::pack_get<1>( c, std::move( o ), t );
	CHECK( not o.p and *moved.p == a );
	auto const at = s.draw( 4 );
	void const *seen = nullptr;
	int calls = 0;
	daw::pack_apply(
	  at, [&]( auto &v ) { seen = &v; ++calls; }, a, t, moved, c );
	void const *const addr[] = { &a, &t, &moved, &c, nullptr };
	CHECK( seen == addr[at] );
	CHECK_EQ( calls, at < 4 ? 1 : 0 );
	// forward_like takes its category and const from the first type
	struct Tag {};
	CHECK_STATIC( std::is_same_v<decltype( daw::forward_like<Tag &>( t ) ), std::string &> );
	CHECK_STATIC( std::is_same_v<decltype( daw::forward_like<Tag const &>( t ) ), std::string const &> );
	CHECK_STATIC( std::is_same_v<decltype( daw::forward_like<Tag>( t ) ), std::string &&> );
	CHECK_STATIC( std::is_same_v<decltype( daw::forward_like<Tag const>( t ) ), std::string const &&> );
	CHECK_STATIC( std::is_same_v<daw::forward_like_t<Tag &, std::string>, std::string &> and std::is_same_v<daw::forward_like_t<Tag const &, std::string>, std::string const &> and std::is_same_v<daw::forward_like_t<Tag, std::string>, std::string &&> and std::is_same_v<daw::forward_like_t<Tag const, std::string>, std::string const &&> );
	CHECK( &daw::forward_like<Tag &>( t ) == &t and &daw::forward_like<Tag const &>( t ) == &t );
	std::string u = t;
	std::string const w = daw::forward_like<Tag>( u );
	CHECK( w == t );
	std::string const keep = daw::forward_like<Tag const>( t );
	CHECK( keep == w and t == w );
	// position of a type
	CHECK_STATIC( daw::pack_index_of_v<char, int, char, long> == 1 and daw::pack_index_of_v<int, int, char, long> == 0 and daw::pack_index_of_v<long, int, char, long> == 2 and daw::pack_index_of_v<float, int, char, long> == 3 );
	CHECK_STATIC( daw::param_pack_index_of_v<std::tuple<int, char, long>, long> == 2 );
}

PROP( pack_logic, ( { .cases = 20000 } ) ) {
	bool v[4];
	for( bool &x : v ) {
		x = s.boolean( );
	}
	s.nontrivial( v[0] != v[1] or v[1] != v[2] or v[2] != v[3] );
	bool const any = v[0] or v[1] or v[2] or v[3];
	bool const all = v[0] and v[1] and v[2] and v[3];
	// its test has it that all must hold; no predicate after the first that does
	// not is called
	std::vector<int> called;
	auto pred = [&]( int n ) { return [&called, &v, n] { called.push_back( n ); return v[n]; }; };
	CHECK_EQ( daw::any_if( pred( 0 ), pred( 1 ), pred( 2 ), pred( 3 ) ), all );
	std::vector<int> want;
	for( int n = 0; n < 4 and ( n == 0 or v[n - 1] ); ++n ) {
		want.push_back( n );
	}
	CHECK_EQ( called, want );
	called.clear( );
	CHECK_EQ( daw::any_if( v[0], pred( 1 ), v[2], pred( 3 ) ), all );
	CHECK_EQ( daw::any_if( pred( 2 ) ), v[2] );
	CHECK_EQ( daw::any_if( v[3] ), v[3] );
	CHECK_EQ( daw::nsc_and( v[0], v[1], v[2], v[3] ), all );
	CHECK_EQ( daw::nsc_or( v[0], v[1], v[2], v[3] ), any );
	CHECK_EQ( daw::nsc_and( v[1] ), v[1] );
	CHECK_EQ( daw::nsc_or( v[1] ), v[1] );
	int const k = v[0] ? s.range<int>( 1, 255 ) * 2 : 0; // true, with the low bit clear
	CHECK_EQ( daw::nsc_and( k, v[1] ), v[0] and v[1] );
	CHECK_EQ( daw::nsc_or( k, v[1] ), v[0] or v[1] );
	CHECK_EQ( daw::nsc_and( v[1], k ), v[0] and v[1] );
	CHECK_STATIC( daw::is_any_of_v<3, 1, 2, 3> and daw::is_any_of_v<1, 1, 2, 3> and not daw::is_any_of_v<4, 1, 2, 3> and not daw::is_any_of_v<4> );
	// a lifted name forwards what it is called with
	auto const lift = DAW_LIFT( std::get<1> );
	std::tuple<int, std::string> t{ 3, std::string( s.draw( 30 ), 'q' ) };
	CHECK( &lift( t ) == &std::get<1>( t ) );
	CHECK_STATIC( std::is_same_v<decltype( lift( std::move( t ) ) ), std::string &&> );
	std::string const keep = std::get<1>( t );
	CHECK_EQ( lift( std::move( t ) ), keep );
}
#endif
