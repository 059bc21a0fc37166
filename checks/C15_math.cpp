// C15: numeric functions against exact integer arithmetic or libm.
// nontrivial: the argument is not one of 0, 1, -1.
// pbt-scale: 40
#include "pbt.h"
#include "daw/daw_cxmath.h"
#include "daw/daw_math.h"
#include <bit>
#include <cfloat>
#include <cmath>
#include <cstring>
#include <limits>
using namespace pbt;
namespace X = daw::cxmath;
namespace M = daw::math;

namespace {
	template<typename R>
	using bits_t = std::conditional_t<sizeof( R ) == 8, std::uint64_t, std::uint32_t>;
	template<typename R>
	bits_t<R> bits( R r ) {
		return std::bit_cast<bits_t<R>>( r );
	}
	template<typename R>
	bool same_bits( R a, R b ) {
		return bits( a ) == bits( b ) or ( std::isnan( a ) and std::isnan( b ) );
	}
	// distance in representable numbers, both finite and of one sign
	template<typename R>
	std::uint64_t ulps( R a, R b ) {
		if( a == b ) {
			return 0;
		}
		if( not( std::isfinite( a ) and std::isfinite( b ) ) or std::signbit( a ) != std::signbit( b ) ) {
			return ~0ull;
		}
		auto x = bits( a ), y = bits( b );
		return x > y ? x - y : y - x;
	}
	template<typename R>
	R gen( Src &s ) {
		using B = bits_t<R>;
		constexpr int mant = std::numeric_limits<R>::digits - 1;
		constexpr B emax = ( B( 1 ) << ( sizeof( B ) * 8 - 1 - mant ) ) - 1;
		switch( s.draw( 7 ) ) {
		case 0:
			return R( s.integer<std::int8_t>( ) );
		case 1:
			return R( s.integer<std::int32_t>( ) );
		case 2:
			return R( s.integer<std::int32_t>( ) ) / R( 1 << s.draw( 20 ) );
		case 3: { // powers of two and their neighbours
			R v = std::ldexp( R( 1 ), int( s.draw( unsigned( emax ) ) ) - int( emax / 2 ) );
			for( unsigned k = s.draw( 2 ); k > 0; --k ) {
				v = std::nextafter( v, s.boolean( ) ? R( 0 ) : std::numeric_limits<R>::infinity( ) );
			}
			return s.boolean( ) ? -v : v;
		}
		case 4: // extremes
			return s.pick<R>( { std::numeric_limits<R>::max( ), std::numeric_limits<R>::lowest( ), std::numeric_limits<R>::min( ), -std::numeric_limits<R>::min( ), std::numeric_limits<R>::denorm_min( ), -std::numeric_limits<R>::denorm_min( ), R( 0 ), R( -0.0 ), std::numeric_limits<R>::infinity( ), -std::numeric_limits<R>::infinity( ), std::numeric_limits<R>::quiet_NaN( ), std::nextafter( std::numeric_limits<R>::min( ), R( 0 ) ), std::numeric_limits<R>::epsilon( ) } );
		case 5: { // subnormals
			B m = B( s.integer<std::uint64_t>( ) ) & ( ( B( 1 ) << mant ) - 1 );
			return std::bit_cast<R>( B( m | ( B( s.draw( 1 ) ) << ( sizeof( B ) * 8 - 1 ) ) ) );
		}
		case 6: { // infinities and NaNs of every kind
			B m = B( s.integer<std::uint64_t>( ) ) & ( ( B( 1 ) << mant ) - 1 );
			if( s.boolean( ) ) {
				m &= B( 1 ) << s.draw( mant - 1 );
			}
			return std::bit_cast<R>( B( m | ( emax << mant ) | ( B( s.draw( 1 ) ) << ( sizeof( B ) * 8 - 1 ) ) ) );
		}
		default:
			return std::bit_cast<R>( B( s.integer<std::uint64_t>( ) ) );
		}
	}
	template<typename R>
	std::string fshow( R r ) {
		char b[80];
		std::snprintf( b, sizeof b, "%.17g (%a)", double( r ), double( r ) );
		return b;
	}
	template<typename R>
	R arg( Src &s ) {
		R r = gen<R>( s );
		s.note( [=] { return fshow( r ); } );
		if( r != 0 and r != 1 and r != -1 ) {
			s.nontrivial( );
		}
		return r;
	}

	template<typename R>
	void sqrt_case( Src &s ) {
		R const x = arg<R>( s );
		R const got = X::sqrt( x );
		if( std::isnan( x ) or x < 0 ) {
			s.label( "not a number" );
			CHECK( std::isnan( got ) );
		} else if( x == 0 or std::isinf( x ) ) {
			s.label( "zero or infinite" );
			CHECK_EQ( double( got ), double( x ) );
		} else {
			s.label( std::fpclassify( x ) == FP_SUBNORMAL ? "subnormal" : "normal" );
			CHECK( ulps( got, std::sqrt( x ) ) <= 2 );
		}
	}
	template<typename R>
	void class_case( Src &s ) {
		R const x = arg<R>( s );
		X::fp_classes want = X::fp_classes::normal;
		switch( std::fpclassify( x ) ) {
		case FP_NAN:
			want = X::fp_classes::nan;
			break;
		case FP_INFINITE:
			want = X::fp_classes::infinity;
			break;
		case FP_ZERO:
			want = X::fp_classes::zero;
			break;
		case FP_SUBNORMAL:
			want = X::fp_classes::subnormal;
			break;
		default:
			break;
		}
		CHECK( X::fp_classify( x ) == want );
		CHECK_EQ( X::is_nan( x ), std::isnan( x ) );
		CHECK_EQ( X::is_inf( x ), std::isinf( x ) );
		CHECK_EQ( X::is_finite( x ), std::isfinite( x ) );
		CHECK( same_bits( X::abs( x ), std::fabs( x ) ) );
		R const y = gen<R>( s );
		if( not std::isnan( x ) ) {
			CHECK( same_bits( X::copy_sign( x, y ), std::copysign( x, y ) ) );
			CHECK_EQ( X::signbit( x ), x < 0 );
			CHECK( M::abs( x ) == std::fabs( x ) );
			CHECK( daw::float_abs( x ) == std::fabs( x ) );
		}
		constexpr int mant = std::numeric_limits<R>::digits - 1;
		CHECK( std::uint64_t( X::get_significand( x ) ) == ( std::uint64_t( bits( x ) ) & ( ( 1ull << mant ) - 1 ) ) );
		if constexpr( sizeof( R ) == 8 ) {
			CHECK_EQ( X::get_exponent_raw( x ), ( bits( x ) >> 52 ) & 0x7ff );
		}
		if( want == X::fp_classes::normal ) {
			int const e = std::ilogb( x );
			CHECK_EQ( X::get_exponent( x ), e );
			auto ie = X::intxp( x );
			CHECK( ie.has_value( ) );
			CHECK_EQ( *ie, e );
			constexpr int lo = std::numeric_limits<R>::min_exponent - 1, hi = std::numeric_limits<R>::max_exponent - 1;
			int const t = s.range<int>( lo, hi );
			CHECK( same_bits( X::set_exponent( x, t ), std::ldexp( x, t - e ) ) );
			CHECK( same_bits( X::adjust_exponent( x, t - e ), std::ldexp( x, t - e ) ) );
			if constexpr( sizeof( R ) == 8 ) {
				if( t - e > -1023 and t - e < 1024 ) {
					CHECK( same_bits( X::ldexp( x, t - e ), std::ldexp( x, t - e ) ) );
				}
			}
		}
		if constexpr( sizeof( R ) == 8 ) {
			if( std::isfinite( x ) and x != 0 ) {
				int n = s.range<int>( -20, 20 );
				R w = x;
				bool ok = true;
				for( int i = 0; i < std::abs( n ); ++i ) {
					w = std::nextafter( w, n > 0 ? std::copysign( std::numeric_limits<R>::infinity( ), x ) : R( 0 ) );
					ok = ok and w != 0 and std::isfinite( w );
				}
				if( ok ) {
					CHECK( same_bits( X::adj_ulp( x, n ), w ) );
				}
			}
		}
	}

	// round, floor and ceil with integer results
	template<typename R>
	void rounding_case( Src &s ) {
		R x{};
		switch( s.draw( 3 ) ) {
		case 0:
			x = R( s.range<int>( -40, 40 ) ) / 4;
			break;
		case 1:
			x = R( s.integer<std::int32_t>( ) ) / R( 1 << s.draw( 12 ) );
			break;
		case 2:
			x = std::nextafter( R( s.range<int>( -20, 20 ) ) / 2, s.boolean( ) ? R( -1e9 ) : R( 1e9 ) );
			break;
		default:
			x = gen<R>( s );
		}
		R const lim = sizeof( R ) == 4 ? R( 2147483000 ) : R( 9.2e18 );
		if( not( x > -lim and x < lim ) ) {
			return;
		}
		s.note( [=] { return fshow( x ); } );
		if( x != std::trunc( x ) ) {
			s.nontrivial( );
			s.label( x < 0 ? "negative" : "positive" );
		}
		CHECK_EQ( std::int64_t( M::round( x ) ), std::int64_t( std::llround( x ) ) );
		CHECK_EQ( std::int64_t( M::floor( x ) ), std::int64_t( std::floor( x ) ) );
		CHECK_EQ( std::int64_t( M::ceil( x ) ), std::int64_t( std::ceil( x ) ) );
		if( std::fabs( x ) < 2e9 ) {
			CHECK_EQ( ( M::round<long long>( x ) ), std::llround( x ) );
			CHECK_EQ( ( M::floor<std::int64_t>( x ) ), std::int64_t( std::floor( x ) ) );
			CHECK_EQ( ( M::ceil<std::int64_t>( x ) ), std::int64_t( std::ceil( x ) ) );
		}
	}
	template<typename I>
	void int_math( Src &s ) {
		I const v = s.integer<I>( );
		s.note( [=] { return std::to_string( v ); } );
		if( v > 1 or I( v + 1 ) < I( 0 ) ) {
			s.nontrivial( );
		}
		unsigned __int128 const a = v < 0 ? (unsigned __int128)( -(__int128)v ) : (unsigned __int128)v;
		CHECK( M::abs( v ) == std::uintmax_t( a ) );
		CHECK( M::abs( I( v ) ) == std::uintmax_t( a ) );
		CHECK_EQ( X::is_odd( v ), a % 2 == 1 );
		CHECK_EQ( X::is_even( v ), a % 2 == 0 );
		CHECK_EQ( X::signbit( v ), v < 0 );
		CHECK( X::to_unsigned( v ) == std::make_unsigned_t<I>( v ) );
		CHECK( X::to_signed( v ) == std::make_signed_t<I>( v ) );
		// powers: multiply until it would leave the type
		int const b = s.range<int>( std::is_signed_v<I> ? -12 : 0, 12 );
		__int128 p = 1;
		int n = 0;
		int const want_n = int( s.draw( 70 ) );
		while( n < want_n ) {
			__int128 q = p * b;
			if( q > std::numeric_limits<I>::max( ) or q < std::numeric_limits<I>::min( ) ) {
				break;
			}
			p = q;
			++n;
		}
		CHECK( X::pow( I( b ), n ) == I( p ) );
		{ // pow_n squares its base once more than the result needs, so keep the base unsigned
			unsigned __int128 up = 1;
			for( int i = 0; i < n; ++i ) {
				up = up * (unsigned)( b < 0 ? -b : b );
			}
			CHECK( X::pow_n( std::uint64_t( b < 0 ? -b : b ), unsigned( n ) ) == std::uint64_t( up ) );
		}
		if( not( b == 0 and n == 0 ) ) {
			CHECK( M::pow( I( b ), std::size_t( n ) ) == I( p ) );
		}
		// smallest and largest of several
		I const w = s.integer<I>( ), x = s.integer<I>( ), y = s.integer<I>( );
		CHECK( ( daw::min )( v, w ) == std::min( v, w ) );
		CHECK( ( daw::max )( v, w ) == std::max( v, w ) );
		CHECK( ( daw::min )( v, w, x ) == std::min( { v, w, x } ) );
		CHECK( ( daw::max )( v, w, x ) == std::max( { v, w, x } ) );
		CHECK( ( daw::min )( v, w, x, y ) == std::min( { v, w, x, y } ) );
		CHECK( ( daw::max )( v, w, x, y ) == std::max( { v, w, x, y } ) );
		CHECK( daw::min_comp( v, w ) == std::min( v, w ) );
		CHECK( daw::max_comp( v, w ) == std::max( v, w ) );
		CHECK( daw::min_comp( v, w, std::greater<>{ } ) == std::max( v, w ) );
		CHECK( daw::max_comp( v, w, std::greater<>{ } ) == std::min( v, w ) );
		CHECK( M::value_or_min( v, w ) == std::max( v, w ) );
		CHECK_EQ( M::nearly_equal( v, w ), v == w );
		CHECK( M::nearly_equal( v, v ) );
	}
} // namespace

PROP( sqrt_double, { .cases = 20000 } ) {
	sqrt_case<double>( s );
}
PROP( sqrt_float, { .cases = 20000 } ) {
	sqrt_case<float>( s );
}
PROP( classify_double, { .cases = 20000 } ) {
	class_case<double>( s );
}
PROP( classify_float, { .cases = 20000 } ) {
	class_case<float>( s );
}
PROP( rounding, { .cases = 20000 } ) {
	if( s.boolean( ) ) {
		rounding_case<double>( s );
	} else {
		rounding_case<float>( s );
	}
}
PROP( integers, { .cases = 20000 } ) {
	switch( s.draw( 7 ) ) {
	case 0:
		return int_math<signed char>( s );
	case 1:
		return int_math<unsigned char>( s );
	case 2:
		return int_math<short>( s );
	case 3:
		return int_math<unsigned short>( s );
	case 4:
		return int_math<int>( s );
	case 5:
		return int_math<unsigned>( s );
	case 6:
		return int_math<long>( s );
	default:
		return int_math<unsigned long>( s );
	}
}

// rounding to a multiple
PROP( multiples, { .cases = 15000 } ) {
	int const by = s.range<int>( 1, 50 );
	if( s.boolean( ) ) {
		int const v = s.range<int>( -100000, 100000 );
		s.note( [=] { return std::to_string( v ) + " by " + std::to_string( by ); } );
		if( v % by != 0 ) {
			s.nontrivial( );
		}
		auto fl = [&]( long a ) { return a / by - ( a % by < 0 ); };
		CHECK_EQ( long( M::floor_by( v, by ) ), fl( v ) * by );
		CHECK_EQ( long( M::ceil_by( v, by ) ), -fl( -v ) * by );
		// half away from zero
		long const a = std::labs( v ), q = ( 2 * a + by ) / ( 2 * by );
		CHECK_EQ( long( M::round_by( v, by ) ), ( v < 0 ? -q : q ) * by );
	} else {
		// quarters are exact
		double const v = double( s.range<int>( -4000, 4000 ) ) / 4;
		double const m = double( s.range<int>( 1, 64 ) ) / 8;
		s.note( [=] { return fshow( v ) + " by " + fshow( m ); } );
		s.nontrivial( );
		CHECK( M::floor_by( v, m ) == std::floor( v / m ) * m );
		CHECK( M::ceil_by( v, m ) == std::ceil( v / m ) * m );
		CHECK( M::round_by( v, m ) == std::round( v / m ) * m );
	}
}

// tables and small functions, over their whole domain
PROP( powers, ( { .cases = 1, .exhaustive = true } ) ) {
	s.nontrivial( );
	for( int e = -1200; e <= 1100; ++e ) {
		CHECK_EQ( X::pow2<double>( e ), std::ldexp( 1.0, e ) );
		CHECK_EQ( X::dpow2( e ), std::ldexp( 1.0, e ) );
		CHECK_EQ( X::pow2<float>( e ), std::ldexp( 1.0f, e ) );
		CHECK_EQ( X::fpow2( e ), std::ldexp( 1.0f, e ) );
	}
	for( int e = -307; e <= 308; ++e ) {
		double const w = std::strtod( ( "1e" + std::to_string( e ) ).c_str( ), nullptr );
		CHECK( std::fabs( X::dpow10( e ) / w - 1 ) < 1e-14 );
		if( e >= 0 and e <= 22 ) {
			CHECK_EQ( X::dpow10( e ), w );
		}
	}
	for( int e = -37; e <= 38; ++e ) {
		float const w = std::strtof( ( "1e" + std::to_string( e ) ).c_str( ), nullptr );
		CHECK( ulps( X::fpow10( e ), w ) <= 1 );
	}
	std::uint64_t p = 1, f = 1, d = 1;
	for( unsigned e = 0; e <= 19; ++e ) {
		CHECK_EQ( X::pow10( e ), p );
		p *= 10;
	}
	for( unsigned e = 0; e < 64; ++e ) {
		CHECK_EQ( M::pow2( std::uint64_t( e ) ), std::uint64_t( 1 ) << e );
	}
	for( int n = 0; n <= 20; ++n ) {
		if( n > 0 ) {
			f *= std::uint64_t( n );
		}
		CHECK_EQ( M::factorial( n ), f );
		CHECK_EQ( M::factorial( unsigned( n ) ), f );
	}
	(void)d;
	CHECK_EQ( ( X::pow10_v<7> ), std::uintmax_t( 10000000 ) );
	CHECK_EQ( ( X::dpow2_v<-20> ), std::ldexp( 1.0, -20 ) );
	CHECK_EQ( ( X::fpow2_v<100> ), std::ldexp( 1.0f, 100 ) );
	CHECK_EQ( ( X::dpow10_v<20> ), 1e20 );
}
PROP( digits, { .cases = 10000 } ) {
	std::uint64_t v = s.integer<std::uint64_t>( );
	if( s.boolean( ) ) {
		std::uint64_t p = 1;
		for( unsigned k = s.draw( 19 ); k > 0; --k ) {
			p *= 10;
		}
		v = p + s.draw( 2 ) - 1;
	}
	s.note( [=] { return std::to_string( v ); } );
	s.nontrivial( );
	CHECK_EQ( std::size_t( X::count_digits( v ) ), std::to_string( v ).size( ) );
	auto up = [&]<typename U>( U u ) {
		U w = 1;
		if( u > ( U( 1 ) << ( sizeof( U ) * 8 - 1 ) ) ) {
			return;
		}
		while( w < u ) {
			w = U( w * 2 );
		}
		CHECK( X::round_up_pow2( u ) == ( u == 0 ? U( 0 ) : w ) );
	};
	up( v );
	up( std::uint32_t( v ) );
	up( v >> s.draw( 63 ) );
}
// sine and cosine within 3e-6 in |x| <= 2 pi, as the recursion cuts off at 0.001
PROP( trigonometry, { .cases = 400 } ) {
	double x{};
	switch( s.draw( 2 ) ) {
	case 0:
		x = double( s.range<int>( -628318, 628318 ) ) / 100000;
		break;
	case 1:
		x = double( s.range<int>( -8, 8 ) ) * M_PI / 4;
		break;
	default:
		x = std::ldexp( double( s.integer<std::int32_t>( ) ), -40 );
	}
	s.note( [=] { return fshow( x ); } );
	s.nontrivial( );
	CHECK( std::fabs( M::sin( x ) - std::sin( x ) ) < 3e-6 );
	CHECK( std::fabs( M::cos( x ) - std::cos( x ) ) < 3e-6 );
	float const f = float( x );
	CHECK( std::fabs( M::sin( f ) - std::sin( f ) ) < 1e-4f );
	CHECK( std::fabs( M::cos( f ) - std::cos( f ) ) < 1e-4f );
	CHECK( M::sqr( x ) == x * x );
}
namespace {
	template<typename R>
	void near_case( Src &s ) {
		R const a = gen<R>( s );
		R b = gen<R>( s );
		if( s.boolean( ) ) {
			b = a;
			for( unsigned k = s.draw( 6 ); k > 0; --k ) {
				b = std::nextafter( b, s.boolean( ) ? R( 0 ) : std::numeric_limits<R>::infinity( ) );
			}
		}
		s.note( [=] { return fshow( a ) + " ~ " + fshow( b ); } );
		constexpr R eps = std::numeric_limits<R>::epsilon( );
		constexpr R mn = std::numeric_limits<R>::min( );
		bool const got = M::nearly_equal( a, b );
		CHECK_EQ( got, M::nearly_equal( b, a ) );
		if( std::isnan( a ) or std::isnan( b ) ) {
			CHECK_EQ( got, std::isnan( a ) and std::isnan( b ) );
			return;
		}
		if( a == b ) {
			CHECK( got );
			return;
		}
		s.nontrivial( );
		if( std::isinf( a ) or std::isinf( b ) ) {
			CHECK( not got );
			return;
		}
		long double const d = std::fabs( (long double)a - (long double)b ), sum = std::fabs( (long double)a ) + std::fabs( (long double)b );
		if( a == 0 or b == 0 or d < mn ) {
			// indistinguishable near zero
			if( d == 0 ) {
				CHECK( got );
			} else if( d >= 2 * mn ) {
				CHECK( not got );
			}
			return;
		}
		s.label( got ? "near" : "apart" );
		if( d < 0.4L * eps * sum ) {
			CHECK( got );
		} else if( d > 2.5L * eps * sum ) {
			CHECK( not got );
		}
	}
} // namespace
PROP( nearly_equal, { .cases = 15000 } ) {
	if( s.boolean( ) ) {
		near_case<double>( s );
	} else {
		near_case<float>( s );
	}
}
