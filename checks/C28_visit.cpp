// C28: visitation of variants of 1 to 40 alternatives (std::variant and a
// variant-like type), variant casts, overload sets and visiting another
// representation, against the alternative and value that was put in.
// nontrivial: the alternative held is not the first one (visit), the value is
// converted or cannot be (cast).
// pbt-parts: 4
// pbt-scale: 3
#include "pbt.h"
#include <array>
#include <bit>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>

#include "daw/daw_overload.h"
#include "daw/daw_variant_cast.h"
#include "daw/daw_visit.h"
#include "daw/daw_visit_as.h"
using namespace pbt;

namespace {
	struct Boom {
		std::size_t i;
	};
	template<std::size_t I>
	struct Alt {
		static constexpr std::size_t index = I;
		std::unique_ptr<int> p{ };
		int v = 0;
		Alt( ) = default;
		explicit Alt( int x ) : p( new int( x ) ), v( x ) {}
	};
	struct ThrowsOnCopy {
		ThrowsOnCopy( ) = default;
		ThrowsOnCopy( ThrowsOnCopy const & ) {
			throw Boom{ 0 };
		}
		ThrowsOnCopy( ThrowsOnCopy && ) {
			throw Boom{ 0 };
		}
		ThrowsOnCopy &operator=( ThrowsOnCopy const & ) = default;
	};

	// A type that is visited through index and its own get_if
	template<typename... Ts>
	struct Mine {
		static constexpr int variant_npos = -1;
		std::variant<Ts...> v;
		bool empty = false;
		int index( ) const {
			return empty ? variant_npos : static_cast<int>( v.index( ) );
		}
		template<std::size_t I>
		void emplace( int x ) {
			v.template emplace<I>( x );
			empty = false;
		}
		template<std::size_t I>
		friend auto *get_if( Mine *m ) {
			return std::get_if<I>( &m->v );
		}
		template<std::size_t I>
		friend auto const *get_if( Mine const *m ) {
			return std::get_if<I>( &m->v );
		}
	};
	// One with only get
	template<typename... Ts>
	struct OnlyGet {
		std::variant<Ts...> v;
		std::size_t index( ) const {
			return v.index( );
		}
		template<std::size_t I>
		void emplace( int x ) {
			v.template emplace<I>( x );
		}
		template<std::size_t I>
		friend auto &get( OnlyGet &m ) {
			return std::get<I>( m.v );
		}
		template<std::size_t I>
		friend auto const &get( OnlyGet const &m ) {
			return std::get<I>( m.v );
		}
		template<std::size_t I>
		friend auto &&get( OnlyGet &&m ) {
			return std::get<I>( std::move( m.v ) );
		}
	};

	struct Out {
		std::size_t index;
		int value;
		bool operator==( Out const & ) const = default;
	};
} // namespace
namespace pbt {
	template<>
	inline std::string show<Out>( Out const &o ) {
		return "alternative " + std::to_string( o.index ) + " value " + std::to_string( o.value );
	}
} // namespace pbt
namespace {
	template<std::size_t I>
	struct Handler {
		int *calls;
		Out operator( )( Alt<I> const &a ) const {
			++*calls;
			return { I, *a.p };
		}
	};

	template<template<typename...> class V, std::size_t... Is>
	void visit_case( Src &s, std::index_sequence<Is...> ) {
		using Var = V<Alt<Is>...>;
		constexpr std::size_t N = sizeof...( Is );
		auto const idx = s.below( N );
		int const val = s.range<int>( 0, 1000 );
		s.nontrivial( idx > 0 );
		Var var{ };
		using Put = void ( * )( Var &, int );
		static constexpr Put puts[N]{ +[]( Var &x, int y ) {
			x.template emplace<Is>( y );
		}... };
		puts[idx]( var, val );
		Out const want{ idx, val };
		s.note( [&] {
			return std::to_string( N ) + " alternatives, " + show( want );
		} );
		int calls = 0;
		auto const get_out = [&]( auto const &a ) {
			++calls;
			return Out{ std::remove_cvref_t<decltype( a )>::index, *a.p };
		};
		switch( s.below( 11 ) ) {
		case 0:
			CHECK_EQ( daw::visit_nt( var, get_out ), want );
			break;
		case 1:
			CHECK_EQ( daw::visit( var, get_out ), want );
			break;
		case 2:
			CHECK_EQ( daw::visit_nt( std::as_const( var ), [&]( auto &a ) {
				CHECK_STATIC( std::is_const_v<std::remove_reference_t<decltype( a )>> );
				return get_out( a );
			} ),
			          want );
			break;
		case 3:
			CHECK_EQ( daw::visit( std::as_const( var ), Handler<Is>{ &calls }... ), want );
			break;
		case 4: {
			// an rvalue is visited as an rvalue: its value can be taken out
			auto const p = daw::visit_nt( std::move( var ), [&]( auto &&a ) {
				CHECK_STATIC( std::is_rvalue_reference_v<decltype( a )> );
				++calls;
				CHECK_EQ( std::remove_cvref_t<decltype( a )>::index, idx );
				return std::unique_ptr<int>( std::move( a.p ) );
			} );
			CHECK( p != nullptr );
			CHECK_EQ( *p, val );
			break;
		}
		case 5: { // a reference result refers into the variant
			int &r = daw::visit_nt( var, [&]( auto &a ) -> int & {
				++calls;
				return *a.p;
			} );
			r = val + 1;
			CHECK_EQ( daw::visit_nt( var, get_out ), ( Out{ idx, val + 1 } ) );
			--calls;
			break;
		}
		case 6: { // results are converted to the result type asked for
			auto const r = daw::visit<long long>( var, [&]( auto const &a ) {
				++calls;
				if constexpr( std::remove_cvref_t<decltype( a )>::index % 2 == 0 ) {
					return static_cast<short>( *a.p );
				} else {
					return static_cast<double>( *a.p );
				}
			} );
			CHECK_STATIC( std::is_same_v<decltype( r ), long long const> );
			CHECK_EQ( r, val );
			break;
		}
		case 7: {
			auto const r = daw::visit_nt<std::string>( var, [&]( auto const &a ) {
				++calls;
				if constexpr( std::remove_cvref_t<decltype( a )>::index % 2 == 0 ) {
					return "even";
				} else {
					return std::string( "odd" );
				}
			} );
			CHECK_EQ( r, std::string( idx % 2 == 0 ? "even" : "odd" ) );
			break;
		}
		case 8: { // no result, changes what is held
			(void)daw::visit_nt<void>( var, [&]( auto &a ) {
				++calls;
				a.v = val + 7;
				*a.p = val + 9;
			} );
			CHECK_EQ( daw::visit_nt( var, get_out ), ( Out{ idx, val + 9 } ) );
			--calls;
			break;
		}
		case 9: {
			std::size_t thrown = N;
			try {
				(void)daw::visit( var, [&]( auto const &a ) -> int {
					++calls;
					throw Boom{ std::remove_cvref_t<decltype( a )>::index };
				} );
			} catch( Boom const &b ) { thrown = b.i; }
			CHECK_EQ( thrown, idx );
			break;
		}
		default: { // handlers in any order
			auto const ov = daw::overload( Handler<N - 1 - Is>{ &calls }... );
			CHECK_EQ( daw::visit_nt( var, ov ), want );
			break;
		}
		}
		CHECK_EQ( calls, 1 );
	}

	template<template<typename...> class V, std::size_t Lo, std::size_t... Ns>
	void any_size( Src &s, std::index_sequence<Ns...> ) {
		using F = void ( * )( Src & );
		static constexpr F fs[]{ +[]( Src &x ) {
			visit_case<V>( x, std::make_index_sequence<Lo + Ns>{ } );
		}... };
		fs[s.below( sizeof...( Ns ) )]( s );
	}
} // namespace

#if PBT_PART == 0
PROP( visit_small, ( { .cases = 40000 } ) ) {
	any_size<std::variant, 1>( s, std::make_index_sequence<16>{ } );
}
#elif PBT_PART == 1
PROP( visit_middle, ( { .cases = 30000 } ) ) {
	any_size<std::variant, 17>( s, std::make_index_sequence<8>{ } );
}
PROP( visit_like, ( { .cases = 30000 } ) ) {
	switch( s.below( 6 ) ) {
	case 0:
		return visit_case<Mine>( s, std::make_index_sequence<3>{ } );
	case 1:
		return visit_case<Mine>( s, std::make_index_sequence<11>{ } );
	case 2:
		return visit_case<Mine>( s, std::make_index_sequence<20>{ } );
	case 3:
		return visit_case<OnlyGet>( s, std::make_index_sequence<2>{ } );
	case 4:
		return visit_case<OnlyGet>( s, std::make_index_sequence<10>{ } );
	default:
		return visit_case<OnlyGet>( s, std::make_index_sequence<17>{ } );
	}
}
#elif PBT_PART == 2
PROP( visit_large, ( { .cases = 30000 } ) ) {
	switch( s.below( 6 ) ) {
	case 0:
		return visit_case<std::variant>( s, std::make_index_sequence<27>{ } );
	case 1:
		return visit_case<std::variant>( s, std::make_index_sequence<28>{ } );
	case 2:
		return visit_case<std::variant>( s, std::make_index_sequence<31>{ } );
	case 3:
		return visit_case<std::variant>( s, std::make_index_sequence<32>{ } );
	case 4:
		return visit_case<std::variant>( s, std::make_index_sequence<33>{ } );
	default:
		return visit_case<std::variant>( s, std::make_index_sequence<50>{ } );
	}
}
#else

PROP( valueless, ( { .cases = 20000 } ) ) {
	std::variant<int, ThrowsOnCopy, std::string> v( s.range<int>( 0, 9 ) );
	bool const broken = s.boolean( );
	if( broken ) {
		ThrowsOnCopy const t{ };
		try {
			v.emplace<1>( t );
		} catch( Boom const & ) {}
		CHECK( v.valueless_by_exception( ) );
	} else if( s.boolean( ) ) {
		v = "text";
	}
	s.nontrivial( broken );
	auto const f = []( auto const &a ) -> int {
		if constexpr( std::is_same_v<decltype( a ), int const &> ) {
			return 0;
		} else if constexpr( std::is_same_v<decltype( a ), std::string const &> ) {
			return 2;
		} else {
			return 1;
		}
	};
	if( broken ) {
		CHECK_THROWS( std::bad_variant_access, (void)daw::visit( v, f ) );
		CHECK_THROWS( std::bad_variant_access, (void)daw::visit( std::as_const( v ), f ) );
		CHECK_THROWS( std::bad_variant_access, (void)daw::visit<long>( v, f ) );
		CHECK_THROWS( std::bad_variant_access, (void)daw::visit<long>( std::move( v ), f ) );
	} else {
		CHECK_EQ( daw::visit( v, f ), static_cast<int>( v.index( ) ) );
		CHECK_EQ( daw::visit<long>( v, f ), static_cast<long>( v.index( ) ) );
	}
	Mine<Alt<0>, Alt<1>> m{ };
	m.emplace<1>( 3 );
	m.empty = broken;
	auto const g = []( auto const &a ) {
		return std::remove_cvref_t<decltype( a )>::index;
	};
	if( broken ) {
		CHECK_THROWS( std::bad_variant_access, (void)daw::visit( m, g ) );
		CHECK_THROWS( std::bad_variant_access, (void)daw::visit<long>( m, g ) );
	} else {
		CHECK_EQ( daw::visit( m, g ), 1u );
		CHECK_EQ( daw::visit<long>( m, g ), 1 );
	}
}

namespace {
	struct FromInt {
		long v;
		FromInt( int x ) : v( x * 2L ) {}
	};
	struct Nothing {
		friend bool operator==( Nothing, Nothing ) {
			return true;
		}
	};
	using Cv = std::variant<Nothing, int, double, std::string, char const *, unsigned char, std::uint64_t>;

	template<typename T>
	void cast_case( Src &s, Cv const &v ) {
		bool can = false;
		std::function<void( T const & )> same;
		std::visit(
		  [&]( auto const &x ) {
			  using X = std::remove_cvref_t<decltype( x )>;
			  if constexpr( std::is_convertible_v<X, T> ) {
				  can = true;
				  auto const want = std::make_shared<T>( static_cast<T>( x ) );
				  same = [want]( T const &got ) {
					  if constexpr( std::is_same_v<T, FromInt> ) {
						  CHECK_EQ( got.v, want->v );
					  } else {
						  CHECK_EQ( got, *want );
					  }
				  };
			  }
			  CHECK_EQ( daw::can_extract<T>( v ), ( std::is_same_v<X, T> ) );
			  CHECK_EQ( daw::can_extract<T>( Cv( v ) ), ( std::is_same_v<X, T> ) );
			  s.nontrivial( not std::is_same_v<X, T> );
		  },
		  v );
		Cv copy( v );
		if( can ) {
			same( daw::variant_cast<T>( v ) );
			same( daw::variant_cast<T>( copy ) );
			CHECK( copy == v );
			same( daw::variant_cast<T>( std::move( copy ) ) );
		} else {
			CHECK_THROWS( std::bad_variant_access, (void)daw::variant_cast<T>( v ) );
			CHECK_THROWS( std::bad_variant_access, (void)daw::variant_cast<T>( copy ) );
			CHECK( copy == v );
			CHECK_THROWS( std::bad_variant_access, (void)daw::variant_cast<T>( std::move( copy ) ) );
		}
	}
} // namespace

PROP( variant_cast, ( { .cases = 60000 } ) ) {
	Cv v;
	switch( s.below( 7 ) ) {
	case 0:
		v = Nothing{ };
		break;
	case 1:
		v = s.range<int>( -100000, 100000 );
		break;
	case 2:
		v = s.range<int>( 0, 1000 ) / 8.0;
		break;
	case 3:
		v = std::string( s.len( 40 ), 'x' );
		break;
	case 4:
		v = static_cast<char const *>( s.boolean( ) ? "some text" : "a text that is longer than what fits in place" );
		break;
	case 5:
		v = static_cast<unsigned char>( s.below( 256 ) );
		break;
	default:
		v = s.integer<std::uint64_t>( );
		break;
	}
	switch( s.below( 6 ) ) {
	case 0:
		return cast_case<int>( s, v );
	case 1:
		return cast_case<double>( s, v );
	case 2:
		return cast_case<std::string>( s, v );
	case 3:
		return cast_case<FromInt>( s, v );
	case 4:
		return cast_case<std::uint64_t>( s, v );
	default:
		return cast_case<unsigned char>( s, v );
	}
}

namespace {
	int twice( int x ) {
		return x * 2;
	}
	long add( int x, int y ) {
		return static_cast<long>( x ) + y;
	}
	std::string join( std::string const &a, std::string const &b, std::string const &c ) {
		return a + b + c;
	}
	// not convertible to int, wrapped functions take whatever converts
	struct Real {
		double d;
	};
	struct Count {
		int n = 0;
		int operator( )( Real d ) {
			n += static_cast<int>( d.d );
			return n;
		}
	};
} // namespace

PROP( overload, ( { .cases = 30000 } ) ) {
	int const a = s.range<int>( -1000, 1000 ), b = s.range<int>( -1000, 1000 );
	s.nontrivial( a != b );
	std::string const t( s.len( 30 ), 'q' );
	auto own = std::make_unique<int>( a );
	auto ov = daw::overload( twice, add, Count{ },
	                         [p = std::move( own )]( std::string const &x ) {
		                         return x + std::to_string( *p );
	                         },
	                         &join );
	CHECK_EQ( ov( b ), b * 2 );
	CHECK_EQ( ov( a, b ), static_cast<long>( a ) + b );
	CHECK_EQ( ov( Real{ 2.0 } ), 2 );
	CHECK_EQ( ov( Real{ 3.0 } ), 5 );
	CHECK_EQ( ov( t ), t + std::to_string( a ) );
	CHECK_EQ( ov( t, std::string( "," ), t ), t + "," + t );
	auto ov2 = std::move( ov );
	CHECK_EQ( ov2( Real{ 1.0 } ), 6 );
	CHECK_EQ( ov2( t ), t + std::to_string( a ) );
	auto const lifted = daw::overload( daw::lift<twice>, daw::lift<add>, daw::lift<join> );
	CHECK_EQ( lifted( a ), a * 2 );
	CHECK_EQ( lifted( a, b ), static_cast<long>( a ) + b );
	CHECK_EQ( lifted( t, t, std::to_string( b ) ), t + t + std::to_string( b ) );
	// an lvalue callable is copied into the set
	Count c{ };
	auto set = daw::overload( c, []( std::string const & ) {
		return -1;
	} );
	CHECK_EQ( set( Real{ 4.0 } ), 4 );
	CHECK_EQ( set( t ), -1 );
	CHECK_EQ( c.n, 0 );
	CHECK_STATIC( not std::is_invocable_v<decltype( lifted ), std::string> );
	CHECK_STATIC( not std::is_invocable_v<decltype( set ), Nothing> );
	CHECK_STATIC( daw::is_visitable_v<Real, Count> and daw::is_visitable_v<std::string, Count, decltype( set )> and
	               not daw::is_visitable_v<Nothing, Count, decltype( set )> );
	// function pointers and callables in a visit
	std::variant<int, std::string, double> v;
	switch( s.below( 3 ) ) {
	case 0:
		v = a;
		break;
	case 1:
		v = t;
		break;
	default:
		v = b / 4.0;
		break;
	}
	auto const r = daw::visit<double>( v, twice, []( std::string const &x ) {
		return static_cast<double>( x.size( ) );
	}, []( double d ) {
		return d;
	} );
	double const want = v.index( ) == 0 ? a * 2.0 : v.index( ) == 1 ? static_cast<double>( t.size( ) ) : b / 4.0;
	CHECK_EQ( r, want );
}

namespace {
	struct Bytes {
		std::uint16_t lo, hi;
	};
	template<typename To, typename From>
	void visit_as_case( From const orig, To const change ) {
		CHECK_STATIC( sizeof( To ) == sizeof( From ) );
		auto const same = []( auto const &x, auto const &y ) {
			CHECK_STATIC( sizeof( x ) == sizeof( y ) );
			return std::memcmp( &x, &y, sizeof( x ) ) == 0;
		};
		From v = orig;
		// the visitor sees the bytes of the value, and what it writes comes back
		daw::visit_as<To>( v, [&]( To &t ) {
			CHECK( same( t, orig ) );
			t = change;
		} );
		CHECK( same( v, change ) );
		v = orig;
		auto const r = daw::visit_as<To>( v, [&]( To &t ) {
			CHECK( same( t, orig ) );
			To const old = t;
			t = change;
			return old;
		} );
		CHECK_STATIC( std::is_same_v<decltype( r ), To const> );
		CHECK( same( r, orig ) );
		CHECK( same( v, change ) );
		From const c = orig;
		bool called = false;
		auto const n = daw::visit_as<To>( c, [&]( auto &t ) {
			CHECK_STATIC( std::is_same_v<decltype( t ), To const &> );
			called = same( t, orig );
			return 42;
		} );
		CHECK( called );
		CHECK_EQ( n, 42 );
		CHECK( same( c, orig ) );
		called = false;
		daw::visit_as<To>( c, [&]( To const &t ) {
			called = same( t, orig );
		} );
		CHECK( called );
	}
} // namespace
PROP( visit_as, ( { .cases = 30000 } ) ) {
	auto const a = s.integer<std::uint32_t>( );
	auto const b = s.integer<std::uint32_t>( );
	auto const l = s.integer<std::uint64_t>( );
	auto const m = s.integer<std::uint64_t>( );
	s.nontrivial( a != b );
	using A4 = std::array<unsigned char, 4>;
	using A8 = std::array<unsigned char, 8>;
	visit_as_case<Bytes>( a, std::bit_cast<Bytes>( b ) );
	visit_as_case<A4>( a, std::bit_cast<A4>( b ) );
	visit_as_case<std::int32_t>( std::bit_cast<Bytes>( a ), std::bit_cast<std::int32_t>( b ) );
	visit_as_case<std::uint64_t>( static_cast<double>( static_cast<std::int64_t>( l ) ), m );
	visit_as_case<double>( l, static_cast<double>( m ) );
	visit_as_case<A8>( l, std::bit_cast<A8>( m ) );
}
#endif
