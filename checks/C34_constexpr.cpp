// C34: the constexpr functions give the same results at compile time and at run time.
// Every site is a constexpr function that draws arguments (or a whole history of
// operations on a container) from a generator and records what the library
// answers. The compiler evaluates it for N generator seeds (derived from
// VERIF_SEED) into a table; the run-time case draws an index, runs the same site
// with a seed the optimiser cannot see, and compares the records.
// nontrivial: the record has at least four entries that are not all equal.
// pbt-constexpr
// pbt-flags: -fconstexpr-steps=500000000
// pbt-parts: 8
#include "pbt.h"
#include <array>
#include <bit>
#include <cstdint>
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>
using namespace pbt;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i64 = std::int64_t;

namespace {
	constexpr u64 mix( u64 z ) {
		z += 0x9E3779B97F4A7C15ull;
		z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
		z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
		return z ^ ( z >> 31 );
	}
	struct Rng {
		u64 st;
		constexpr u64 next( ) {
			return mix( st++ );
		}
		constexpr u64 below( u64 n ) {
			return next( ) % n;
		}
		constexpr bool coin( ) {
			return next( ) & 1u;
		}
		template<typename T>
		constexpr T range( T lo, T hi ) {
			return static_cast<T>( lo + static_cast<T>( below( u64( hi - lo ) + 1 ) ) );
		}
		// boundary-heavy integer of type T
		template<typename T>
		constexpr T integer( ) {
			using U = std::make_unsigned_t<T>;
			U v = static_cast<U>( next( ) );
			switch( below( 5 ) ) {
			case 0:
				v = static_cast<U>( v % 10 );
				break;
			case 1:
				v = static_cast<U>( U( 0 ) - static_cast<U>( v % 10 ) );
				break;
			case 2: {
				auto k = below( sizeof( T ) * 8 );
				v = static_cast<U>( static_cast<U>( U( 1 ) << k ) + static_cast<U>( next( ) % 3 ) - U( 1 ) );
				break;
			}
			case 3:
				v = static_cast<U>( v >> below( sizeof( T ) * 8 ) );
				break;
			default:
				break;
			}
			return static_cast<T>( v );
		}
		// a finite number
		template<typename R>
		constexpr R real( ) {
			switch( below( 4 ) ) {
			case 0:
				return R( int( below( 2001 ) ) - 1000 );
			case 1:
				return R( integer<std::int32_t>( ) ) / R( 1 << below( 20 ) );
			default: {
				using B = std::conditional_t<sizeof( R ) == 8, u64, u32>;
				constexpr int mant = std::numeric_limits<R>::digits - 1;
				constexpr B em = ( ( B( 1 ) << ( sizeof( B ) * 8 - 1 - mant ) ) - 1 );
				B b = static_cast<B>( next( ) );
				if( ( ( b >> mant ) & em ) == em ) {
					b ^= B( 1 ) << mant;
				}
				if( below( 3 ) == 0 ) { // around one
					b = ( b & ~( em << mant ) ) | ( ( em / 2 + below( 5 ) - 2 ) << mant );
				}
				return std::bit_cast<R>( b );
			}
			}
		}
		// text over a small alphabet
		template<typename Ch = char>
		constexpr std::basic_string<Ch> text( std::size_t max, std::basic_string_view<char> alpha = "aab,b c" ) {
			std::basic_string<Ch> v{ };
			auto n = below( max + 1 );
			for( u64 k = 0; k < n; ++k ) {
				v.push_back( static_cast<Ch>( alpha[below( alpha.size( ) )] ) );
			}
			return v;
		}
	};

	// what a site observed
	struct Out {
		u64 d[20]{ };
		u64 rest = 0;
		unsigned n = 0;
		constexpr void raw( u64 v ) {
			if( n < 20 ) {
				d[n] = v;
			} else {
				rest = mix( rest ^ v );
			}
			++n;
		}
		template<typename T>
		constexpr void put( T const &v ) {
			if constexpr( std::is_enum_v<T> ) {
				raw( static_cast<u64>( v ) );
			} else if constexpr( std::is_same_v<T, float> ) {
				raw( std::bit_cast<u32>( v ) );
			} else if constexpr( std::is_same_v<T, double> ) {
				raw( std::bit_cast<u64>( v ) );
			} else if constexpr( std::is_arithmetic_v<T> ) {
				raw( static_cast<u64>( v ) );
			} else {
				u64 h = 0, c = 0;
				for( auto const &e : v ) {
					Out o{ };
					o.put( e );
					h = mix( h ^ o.d[0] ) + o.n;
					++c;
				}
				raw( c );
				raw( h );
			}
		}
		constexpr Out &operator<<( auto const &v ) {
			put( v );
			return *this;
		}
		constexpr bool operator==( Out const & ) const = default;
		std::string show( ) const {
			std::string s = "[";
			for( unsigned k = 0; k < n and k < 20; ++k ) {
				char b[32];
				std::snprintf( b, sizeof b, k ? " %llx" : "%llx", static_cast<unsigned long long>( d[k] ) );
				s += b;
			}
			return s + ( n > 20 ? " ... " + std::to_string( n ) + " entries]" : "]" );
		}
	};
	constexpr u64 name_hash( char const *p ) {
		u64 h = 0;
		while( *p ) {
			h = mix( h ^ static_cast<unsigned char>( *p++ ) );
		}
		return h;
	}
	template<auto Fn, unsigned N>
	constexpr std::array<Out, N> table( u64 seed ) {
		std::array<Out, N> t{ };
		for( unsigned k = 0; k < N; ++k ) {
			Rng r{ mix( seed ^ k ) };
			Fn( r, t[k] );
		}
		return t;
	}
	template<typename T>
	T launder( T v ) {
		T volatile x = v;
		return x;
	}
	void compare( char const *name, Out const &ct, Out const &rt, Src &s, u64 k ) {
		s.note( [&] { return std::string( name ) + " case " + std::to_string( k ) + ": " + rt.show( ); } );
		bool varied = false;
		for( unsigned j = 1; j < rt.n and j < 20; ++j ) {
			varied = varied or rt.d[j] != rt.d[0];
		}
		if( varied and rt.n >= 4 ) {
			s.nontrivial( );
		}
		for( unsigned j = 0; j < 20 and j < ct.n and j < rt.n; ++j ) {
			if( ct.d[j] != rt.d[j] ) {
				throw Fail{ std::string( name ) + " case " + std::to_string( k ) + ": entry " + std::to_string( j ) + " differs: compile time " + ct.show( ) + ", run time " + rt.show( ) };
			}
		}
		CHECK( ct == rt );
	}
} // namespace
#ifndef PBT_CT_SCALE
#define PBT_CT_SCALE 1
#define PBT_SEED 1
#endif
#ifdef PBT_NO_CT
#define TABLE( fn, N ) static std::array<Out, N> const ct{ };
#else
#define TABLE( fn, N ) static constexpr std::array<Out, N> ct = table<fn, N>( name_hash( #fn ) ^ mix( PBT_SEED ) );
#endif
#define CT( fn, cases_ )                                                                          \
	PROP( fn##_agrees, ( { .cases = 1, .exhaustive = ( cases_ ) * PBT_CT_SCALE } ) ) {              \
		constexpr unsigned N = ( cases_ ) * PBT_CT_SCALE;                                            \
		TABLE( fn, N )                                                                               \
		auto k = s.below( N );                                                                       \
		Rng r{ launder( mix( name_hash( #fn ) ^ mix( PBT_SEED ) ^ k ) ) };                           \
		Out o{ };                                                                                    \
		fn( r, o );                                                                                  \
		compare( #fn, ct[k], o, s, k );                                                              \
	}

#if PBT_PART == 0
#include "daw/daw_string_view.h"
namespace {
	template<typename Ch>
	constexpr void sv_queries_of( Rng &r, Out &o ) {
		auto a = r.text<Ch>( 12 );
		auto b = r.text<Ch>( 3 );
		using V = daw::basic_string_view<Ch>;
		V v( a.data( ), a.size( ) ), w( b.data( ), b.size( ) );
		auto pos = r.below( a.size( ) + 1 );
		Ch c = static_cast<Ch>( "ab, x"[r.below( 5 )] );
		o << a << b << pos << u64( c );
		o << v.find( w, pos ) << v.find( c, pos ) << v.rfind( w, pos ) << v.rfind( c, pos );
		o << v.find_first_of( w, pos ) << v.find_first_not_of( w, pos ) << v.find_last_not_of( w, pos );
		o << v.find_first_of( c, pos ) << v.find_first_not_of( c, pos ) << v.find_last_not_of( c, pos );
		o << ( v.compare( w ) < 0 ) << ( v.compare( w ) > 0 ) << ( v == w ) << ( v < w );
		o << v.starts_with( w ) << v.ends_with( w ) << v.starts_with( c ) << v.ends_with( c );
		o << v.contains( w ) << v.contains( c );
		if( pos <= a.size( ) ) {
			auto n = r.below( 8 );
			auto sub = v.substr( pos, n );
			o << sub.size( ) << std::basic_string<Ch>( sub.begin( ), sub.end( ) );
			Ch buf[16]{ };
			auto m = v.copy( buf, r.below( 12 ), pos );
			o << m << std::basic_string<Ch>( buf, buf + m );
		}
		if( not v.empty( ) ) {
			o << v.front( ) << v.back( ) << v[r.below( v.size( ) )];
		}
	}
	constexpr void sv_queries( Rng &r, Out &o ) {
		sv_queries_of<char>( r, o );
	}
	constexpr void sv_queries16( Rng &r, Out &o ) {
		sv_queries_of<char16_t>( r, o );
	}
	constexpr void sv_consume( Rng &r, Out &o ) {
		auto a = r.text( 24 );
		daw::string_view v( a.data( ), a.size( ) );
		o << a;
		auto rec = [&]( daw::string_view p ) {
			o << std::string( p.data( ), p.size( ) );
		};
		for( int k = 0; k < 6; ++k ) {
			auto b = r.text( 2, "ab, " );
			daw::string_view d( b.data( ), b.size( ) );
			char c = "ab, x"[r.below( 5 )];
			auto is = [c]( char x ) {
				return x == c;
			};
			switch( r.below( 16 ) ) {
			case 0:
				rec( v.pop_front_until( c ) );
				break;
			case 1:
				rec( v.pop_back_until( c ) );
				break;
			case 2:
				if( not d.empty( ) ) {
					rec( v.pop_front_until( d ) );
				}
				break;
			case 3:
				if( not d.empty( ) ) {
					rec( v.pop_back_until( d ) );
				}
				break;
			case 4:
				rec( v.pop_front_while( c ) );
				break;
			case 5:
				rec( v.pop_front_while( is ) );
				break;
			case 6:
				rec( v.try_pop_front_until( c ) );
				break;
			case 7:
				rec( v.try_pop_back_until( c ) );
				break;
			case 8:
				v.remove_prefix( r.below( v.size( ) + 1 ) );
				break;
			case 9:
				v.remove_suffix( r.below( v.size( ) + 1 ) );
				break;
			case 10:
				v.trim( );
				break;
			case 11:
				rec( v.pop_front_until( is ) );
				break;
			case 12:
				v.remove_prefix_until( c );
				break;
			case 13:
				rec( v.pop_front( r.below( v.size( ) + 1 ) ) );
				break;
			case 14:
				rec( v.pop_back( r.below( v.size( ) + 1 ) ) );
				break;
			default:
				v.resize( r.below( v.size( ) + 1 ) );
				break;
			}
			o << v.size( );
			rec( v );
		}
	}
	constexpr void sv_zero_term( Rng &r, Out &o ) {
		auto a = r.text( 10 );
		daw::string_view v = r.coin( ) ? daw::string_view( a.data( ), a.size( ) ) : daw::string_view( a );
		for( int k = 0; k < 4; ++k ) {
			switch( r.below( 4 ) ) {
			case 0:
				v.remove_prefix( r.below( v.size( ) + 1 ) );
				break;
			case 1:
				v.remove_suffix( r.below( 2 ) > v.size( ) ? 0 : ( v.empty( ) ? 0 : r.below( 2 ) ) );
				break;
			case 2:
				v = v.substr( 0, r.below( v.size( ) + 2 ) );
				break;
			default:
				v = v.substr( r.below( v.size( ) + 1 ) );
				break;
			}
			o << v.size( ) << bool( v.is_zero_terminated( ) );
		}
		o << std::string( v.data( ), v.size( ) );
	}
} // namespace
CT( sv_queries, 400 )
CT( sv_queries16, 200 )
CT( sv_consume, 400 )
CT( sv_zero_term, 200 )
#endif

#if PBT_PART == 1
#include "daw/daw_bit_count.h"
#include "daw/daw_cxmath.h"
#include "daw/daw_math.h"
namespace {
	namespace X = daw::cxmath;
	namespace M = daw::math;
	template<typename R>
	constexpr void floats( Rng &r, Out &o ) {
		R a = r.real<R>( );
		R p = a < 0 ? -a : a;
		o << a << X::abs( a ) << X::signbit( a ) << X::is_nan( a ) << X::is_inf( a ) << X::is_finite( a );
		o << X::copy_sign( a, r.real<R>( ) );
		if( a != 0 ) {
			o << X::intxp( a ).value_or( -9999 );
		}
		if( p >= std::numeric_limits<R>::min( ) ) {
			o << X::sqrt( p ) << X::get_exponent( a ) << X::get_significand( a );
		}
		if constexpr( std::is_same_v<R, double> ) {
			o << X::get_exponent_raw( a ) << X::adj_ulp( a, int( r.below( 5 ) ) - 2 );
		} else {
			auto f = X::cxmath_impl::bits( a );
			o << f.raw_value( ) << f.sign_bit( ) << f.raw_exponent( ) << f.exponent( ) << f.raw_significand( ) << f.is_inf( ) << f.is_nan( );
		}
		if( p < R( 1e6 ) ) {
			o << M::round<i64>( a ) << M::floor<i64>( a ) << M::ceil<i64>( a );
			R x = a - R( 6 ) * R( i64( a / R( 6 ) ) );
			o << M::sin( x ) << M::cos( x ) << M::sqr( a );
			R by = R( 1 + r.below( 20 ) ) / R( 4 );
			o << M::round_by( a, by ) << M::floor_by( a, by ) << M::ceil_by( a, by );
		}
	}
	constexpr void float_math( Rng &r, Out &o ) {
		floats<float>( r, o );
	}
	constexpr void double_math( Rng &r, Out &o ) {
		floats<double>( r, o );
	}
	constexpr void powers( Rng &r, Out &o ) {
		int e = int( r.below( 60 ) ) - 30;
		o << e << X::pow2<double>( e * 30 ) << X::pow2<float>( e * 4 ) << X::fpow2( e * 4 ) << X::dpow2( e * 30 );
		o << X::fpow10( e ) << X::dpow10( e * 10 ) << X::pow10( r.below( 20 ) ) << X::pow_n( 1.25, unsigned( r.below( 40 ) ) );
		o << X::pow( 0.75, e ) << X::pow( 3.0f, e ) << M::pow( 3, r.below( 19 ) ) << M::factorial( int( r.below( 21 ) ) );
		o << X::set_exponent( 1.5, e ) << X::ldexp( 1.75, e );
		auto d = r.real<double>( );
		if( d != 0 and e > -20 and e < 20 ) {
			o << X::set_exponent( d > 0 ? d : -d, e );
		}
	}
	template<typename T>
	constexpr void ints_of( Rng &r, Out &o ) {
		T v = r.integer<T>( );
		using U = std::make_unsigned_t<T>;
		U u = static_cast<U>( v );
		o << v << X::is_odd( v ) << X::is_even( v ) << X::popcount( u );
		if constexpr( sizeof( T ) >= 4 ) {
			if( u != 0 ) {
				o << X::count_leading_zeroes( u ) << X::count_trailing_zeros( u );
			}
		}
		o << X::count_digits( u64( u ) ) << X::to_unsigned( v ) << X::to_signed( u );
		if( v != std::numeric_limits<T>::min( ) ) {
			o << M::abs( v );
		}
		T w = r.integer<T>( );
		o << daw::min( v, w ) << daw::max( v, w ) << M::value_or_min( v, w );
	}
	constexpr void int_math( Rng &r, Out &o ) {
		ints_of<std::int32_t>( r, o );
		ints_of<std::int64_t>( r, o );
	}
	constexpr void small_int_math( Rng &r, Out &o ) {
		ints_of<std::int8_t>( r, o );
		ints_of<std::int16_t>( r, o );
	}
} // namespace
CT( float_math, 400 )
CT( double_math, 400 )
CT( powers, 300 )
CT( int_math, 400 )
CT( small_int_math, 300 )
#endif

#if PBT_PART == 2
#include "daw/daw_bit.h"
#include "daw/daw_bit_cast.h"
#include "daw/daw_bitset.h"
#include "daw/daw_bitset_helper.h"
#include "daw/daw_endian.h"
#include "daw/daw_integer_reverse.h"
#include "daw/daw_static_bitset.h"
namespace {
	template<typename T>
	constexpr void bits_of( Rng &r, Out &o ) {
		T v = r.integer<T>( );
		unsigned const w = sizeof( T ) * 8;
		unsigned b = unsigned( r.below( w ) ), c = unsigned( r.below( w ) );
		o << v << daw::mask_msb<T>( b ) << daw::mask_lsb<T>( b ) << daw::are_set( v, b ) << daw::are_set( v, b, c );
		o << daw::set_bits( v, b, c ) << daw::unset_bits( v, b, c ) << daw::get_bits( v, b, c ) << daw::make_mask<T>( b, c );
		o << daw::to_little_endian( v ) << daw::to_big_endian( v ) << daw::network_to_host_endian( v );
		o << daw::to_native_endian<daw::endian::big>( v ) << daw::to_native_endian<daw::endian::little>( v );
		o << daw::integers::reverse_bits( v );
	}
	constexpr void bit_helpers( Rng &r, Out &o ) {
		bits_of<u16>( r, o );
		bits_of<u32>( r, o );
	}
	constexpr void bit_helpers64( Rng &r, Out &o ) {
		bits_of<u64>( r, o );
		bits_of<u8>( r, o );
	}
	constexpr void bitsets( Rng &r, Out &o ) {
		daw::bitset<100> a{ };
		auto n = 1 + r.below( 20 );
		for( u64 k = 0; k < n; ++k ) {
			auto p = r.below( 100 );
			switch( r.below( 3 ) ) {
			case 0:
				a.unset( p );
				break;
			case 1:
				a.set( p );
				break;
			default:
				a.set( p, r.coin( ) );
				break;
			}
		}
		u64 h = 0;
		for( unsigned k = 0; k < 100; ++k ) {
			h = mix( h ^ u64( a.test( k ) ) );
		}
		o << n << h << r.below( 9 );
		daw::static_bitset<70> x{ }, y{ };
		for( u64 k = 0; k < n; ++k ) {
			x.set_bit( r.below( 70 ) );
			y.set_bit( r.below( 70 ) );
			if( r.below( 4 ) == 0 ) {
				x.clear_bit( r.below( 70 ) );
			}
		}
		auto rec = [&]( auto const &z ) {
			u64 q = 0;
			for( unsigned k = 0; k < 70; ++k ) {
				q = mix( q ^ u64( z.get_bit( k ) ) );
			}
			o << q << z.one_count( ) << z.zero_count( );
		};
		rec( x );
		rec( y );
		rec( x | y );
		rec( x & y );
		rec( ~x );
		auto s = r.below( 70 );
		auto l = x;
		l <<= s;
		rec( l );
		auto m = y;
		m >>= s;
		rec( m );
	}
	constexpr void reversals( Rng &r, Out &o ) {
		for( int k = 0; k < 4; ++k ) {
			o << daw::integers::reverse_bits( r.integer<u8>( ) ) << daw::integers::reverse_bits( r.integer<u16>( ) );
			o << daw::integers::reverse_bits( r.integer<u32>( ) ) << daw::integers::reverse_bits( r.integer<u64>( ) );
		}
	}
} // namespace
CT( bit_helpers, 400 )
CT( bit_helpers64, 400 )
CT( bitsets, 150 )
CT( reversals, 200 )
#endif

#if PBT_PART == 3
#include "daw/daw_fnv1a_hash.h"
#include "daw/daw_from_string.h"
#include "daw/daw_generic_hash.h"
#include "daw/daw_metro_hash.h"
#include "daw/daw_parse_to.h"
#include "daw/daw_parser_helper.h"
#include "daw/daw_parser_helper_sv.h"
#include "daw/daw_sip_hash.h"
namespace {
	constexpr void hashes( Rng &r, Out &o ) {
		auto a = r.text( 45, std::string_view( "abc\0\x7f\x80\xff ", 8 ) );
		daw::string_view v( a.data( ), a.size( ) );
		o << a << daw::fnv1a_hash( a.data( ), a.size( ) ) << daw::fnv1a_hash( a.c_str( ) );
		o << daw::fnv1a_hash( r.integer<u64>( ) ) << daw::fnv1a_hash( r.integer<int>( ) ) << daw::fnv1a_hash( r.integer<i64>( ) );
		o << daw::generic_hash<8>( a.data( ), a.size( ) ) << daw::generic_hash<4>( a.data( ), a.data( ) + a.size( ) );
		o << daw::generic_hash<8>( r.integer<u32>( ) ) << daw::generic_hash<4>( r.integer<u64>( ) );
		o << daw::metro::hash64( v, r.next( ) );
		std::vector<u8> b( a.begin( ), a.end( ) );
		b.resize( b.size( ) + 1 );
		u8 key[16]{ };
		for( auto &e : key ) {
			e = u8( r.next( ) );
		}
		o << daw::siphash24( b.data( ), a.size( ), key );
	}
	constexpr std::string digits( Rng &r, u64 v, bool neg ) {
		std::string s{ };
		do {
			s.insert( s.begin( ), char( '0' + v % 10 ) );
			v /= 10;
		} while( v );
		while( r.below( 4 ) == 0 ) {
			s.insert( s.begin( ), '0' );
		}
		if( neg ) {
			s.insert( s.begin( ), '-' );
		}
		return s;
	}
	template<typename T>
	constexpr void parse_of( Rng &r, Out &o ) {
		T v = r.integer<T>( );
		auto t = digits( r, v < 0 ? u64( 0 ) - u64( i64( v ) ) : u64( v ), v < 0 );
		daw::string_view sv( t.data( ), t.size( ) );
		o << v << t;
		o << daw::parser::parse_int<T>( sv ) << daw::parser::converters::parse_to_value( sv, daw::tag<T> );
		auto tail = t + r.text( 3, " ,x9" );
		auto f = daw::from_string( daw::tag<T>, daw::string_view( tail.data( ), tail.size( ) ) );
		o << f.has_value( ) << f.value_or( T( 77 ) );
		if( v >= 0 ) {
			o << daw::parser::parse_unsigned_int<T>( t.data( ), t.data( ) + t.size( ) );
		}
	}
	constexpr void parse_numbers( Rng &r, Out &o ) {
		parse_of<std::int32_t>( r, o );
		parse_of<u64>( r, o );
		parse_of<std::int16_t>( r, o );
	}
	constexpr void parse_fields( Rng &r, Out &o ) {
		int a = r.integer<std::int32_t>( );
		u16 b = r.integer<u16>( );
		i64 c = r.range<i64>( -100000, 100000 );
		char w = "abxy"[r.below( 4 )];
		auto da = digits( r, a < 0 ? u64( -i64( a ) ) : u64( a ), a < 0 );
		auto t = da + "," + digits( r, b, false ) + "," + digits( r, u64( c < 0 ? -c : c ), c < 0 ) + "," + w;
		daw::string_view sv( t.data( ), t.size( ) );
		auto x = daw::parser::parse_to<int, u16, i64, char>( sv, "," );
		o << t << std::get<0>( x ) << std::get<1>( x ) << std::get<2>( x ) << std::get<3>( x );
		o << daw::apply_string<int, u16>( []( int p, u16 q ) {
			return p / 2 + q;
		}, sv, "," );
	}
	constexpr void char_classes( Rng &r, Out &o ) {
		namespace P = daw::parser;
		char c = static_cast<char>( r.below( 128 ) );
		o << c << P::is_number( c ) << P::in_range( c, '3', 'p' ) << P::is_unicode_whitespace( c );
	}
} // namespace
CT( hashes, 300 )
CT( parse_numbers, 200 )
CT( parse_fields, 200 )
CT( char_classes, 128 )
#endif

#if PBT_PART == 4
#include "daw/daw_int_cmp.h"
#include "daw/daw_natural.h"
#include "daw/daw_uint_buffer.h"
#include "daw/daw_utility.h"
namespace {
	template<typename T, typename U>
	constexpr void cmp_of( Rng &r, Out &o ) {
		T a = r.integer<T>( );
		U b = r.coin( ) ? static_cast<U>( a ) : r.integer<U>( );
		o << a << b << daw::cmp_equal( a, b ) << daw::cmp_not_equal( a, b ) << daw::cmp_less( a, b ) << daw::cmp_greater( a, b );
		o << daw::cmp_less_equal( a, b ) << daw::cmp_greater_equal( a, b ) << daw::in_range<U>( a ) << daw::in_range<T>( b );
	}
	constexpr void int_cmps( Rng &r, Out &o ) {
		cmp_of<int, unsigned>( r, o );
		cmp_of<u64, i64>( r, o );
		cmp_of<std::int8_t, u16>( r, o );
		cmp_of<u8, std::int32_t>( r, o );
		cmp_of<i64, std::int8_t>( r, o );
	}
	constexpr void uints( Rng &r, Out &o ) {
		auto w = r.integer<u64>( );
		daw::UInt64 x{ w }, y{ r.integer<u64>( ) };
		daw::UInt32 p{ r.integer<u32>( ) }, q{ r.integer<u32>( ) };
		daw::UInt8 a{ r.integer<u8>( ) }, b{ r.integer<u8>( ) };
		daw::UInt16 c{ r.integer<u16>( ) }, d{ r.integer<u16>( ) };
		auto put = [&]( auto z ) {
			o << static_cast<u64>( z );
		};
		put( x );
		put( x | y );
		put( x & y );
		put( x ^ y );
		put( p | q );
		put( p & q );
		put( p ^ q );
		put( a | b );
		put( a ^ b );
		put( c & d );
		put( x << ( w % 64 ) );
		put( x >> ( w % 64 ) );
		put( p << ( w % 32 ) );
		put( p >> ( w % 32 ) );
		put( daw::to_uint8( x ) );
		put( daw::to_uint16( x ) );
		put( daw::to_uint32( x ) );
		put( daw::to_uint64( a ) );
		o << ( x == y ) << ( p == q );
	}
	constexpr void naturals( Rng &r, Out &o ) {
		using N = daw::natural_t<u64>;
		N a{ 1 + r.below( 100000 ) }, b{ 1 + r.below( 1000 ) };
		o << a.value( ) << b.value( ) << ( a + b ).value( ) << ( a * b ).value( );
		if( a.value( ) > b.value( ) ) {
			o << ( a - b ).value( ) << ( a / b ).value( );
			if( a.value( ) % b.value( ) ) {
				o << ( a % b ).value( );
			}
		}
		auto c = a;
		c += b;
		o << c.value( ) << ( c++ ).value( ) << ( ++c ).value( ) << ( --c ).value( );
		o << ( a < b ) << ( a == b ) << ( a >= b ) << ( a != b );
	}
	constexpr void casts( Rng &r, Out &o ) {
		auto v = r.range<i64>( -128, 127 );
		o << v << daw::narrow_cast<std::int8_t>( v ) << daw::narrow_cast<std::int32_t>( v ) << daw::can_fit<u8>( int( r.below( 600 ) ) );
	}
} // namespace
CT( int_cmps, 500 )
CT( uints, 400 )
CT( naturals, 300 )
#endif

#if PBT_PART == 4
#include "daw/daw_cx_atomic.h"
#include "daw/daw_exchange.h"
#include "daw/daw_scope_guard.h"
namespace {
	constexpr void atomics( Rng &r, Out &o ) {
		daw::atomic<u32> a{ r.integer<u32>( ) };
		for( int k = 0; k < 8; ++k ) {
			u32 v = r.integer<u32>( );
			auto op = r.below( 18 );
			o << op;
			switch( op ) {
			case 0:
				a.store( v );
				break;
			case 1:
				o << a.exchange( v );
				break;
			case 2: {
				u32 e = r.coin( ) ? a.load( ) : v;
				o << a.compare_exchange_strong( e, v + 1, std::memory_order_seq_cst ) << e;
				break;
			}
			case 3: {
				u32 e = r.coin( ) ? a.load( ) : v;
				o << a.compare_exchange_strong( e, v + 1, std::memory_order_seq_cst, std::memory_order_relaxed ) << e;
				break;
			}
			case 4:
				o << a.fetch_add( v );
				break;
			case 5:
				o << a.fetch_sub( v );
				break;
			case 6:
				o << a.fetch_and( v );
				break;
			case 7:
				o << a.fetch_or( v );
				break;
			case 8:
				o << a.fetch_xor( v );
				break;
			case 9:
				o << u32( a += v );
				break;
			case 10:
				o << u32( a -= v );
				break;
			case 11:
				o << u32( a &= v );
				break;
			case 12:
				o << u32( a |= v );
				break;
			case 13:
				o << u32( a ^= v );
				break;
			case 14:
				o << u32( ++a );
				break;
			case 15:
				o << u32( a++ );
				break;
			case 16:
				o << u32( --a );
				break;
			default:
				o << u32( a-- );
				break;
			}
			o << a.load( );
		}
		// a weak exchange that has to fail does so at both times
		u32 e = a.load( ) + 1;
		o << a.compare_exchange_weak( e, 5, std::memory_order_seq_cst ) << e;
		e = a.load( ) + 1;
		o << a.compare_exchange_weak( e, 5, std::memory_order_seq_cst, std::memory_order_relaxed ) << e << u32( a );
		// one that may succeed does so in the end
		u32 const w = r.integer<u32>( );
		e = a.load( );
		while( not a.compare_exchange_weak( e, w + 3, std::memory_order_seq_cst ) ) {}
		o << e << a.load( );
		e = a.load( );
		while( not a.compare_exchange_weak( e, w, std::memory_order_acq_rel, std::memory_order_acquire ) ) {}
		o << e << a.load( );
		daw::atomic<double> d{ 1.5 };
		o << u64( d.fetch_add( 2.25 ) * 4 ) << u64( d.fetch_sub( 0.5 ) * 4 ) << u64( ( d += 1.0 ) * 4 ) << u64( ( d -= 0.25 ) * 4 ) << u64( d.load( ) * 4 );
		double x = 4.0;
		o << d.compare_exchange_strong( x, 9.0 ) << u64( x * 4 ) << u64( d.load( ) * 4 );
		auto a2 = a;
		a2 = w / 2;
		a = a2;
		auto a3 = std::move( a2 );
		a3 = std::move( a );
		o << a3.load( );
		daw::atomic<bool> b{ r.coin( ) };
		o << b.exchange( r.coin( ) ) << b.load( );
		auto c = a;
		c = r.integer<u32>( );
		o << c.load( ) << a.load( );
	}
	constexpr void guards( Rng &r, Out &o ) {
		u64 log = 1;
		auto say = [&]( u64 x ) {
			return [&log, x] {
				log = log * 10 + x;
			};
		};
		auto n = r.below( 4 );
		for( u64 k = 0; k <= n; ++k ) {
			auto a = daw::on_scope_exit( say( 1 ) );
			daw::on_exit_success b( say( 2 ) );
			if( r.coin( ) ) {
				a.dismiss( );
			} else if( r.coin( ) ) {
				auto c = std::move( a );
				log = log * 10 + 3;
			}
			log = log * 10 + 4;
		}
		int x = int( r.below( 50 ) );
		auto old = daw::exchange( x, int( r.below( 50 ) ) );
		o << log << n << x << old;
	}
} // namespace
CT( atomics, 400 )
CT( guards, 200 )
#endif

#if PBT_PART == 5
#include "daw/daw_algorithm.h"
#include "daw/daw_algorithm_cx.h"
#include "daw/daw_container_algorithm.h"
#include "daw/daw_sort_n.h"
namespace {
	constexpr std::vector<int> ints( Rng &r, std::size_t max, int lim ) {
		std::vector<int> v( r.below( max + 1 ) );
		for( auto &e : v ) {
			e = int( r.below( u64( lim ) ) );
		}
		return v;
	}
	constexpr void algorithms( Rng &r, Out &o ) {
		auto v = ints( r, 14, 6 );
		auto w = ints( r, 4, 6 );
		int x = int( r.below( 7 ) );
		auto b = v.begin( ), e = v.end( );
		auto is = [x]( int y ) {
			return y >= x;
		};
		auto at = [&]( auto it ) {
			o << ( it - v.begin( ) );
		};
		o << v << w << x;
		at( daw::algorithm::find( b, e, x ) );
		at( daw::algorithm::find_if_not( b, e, is ) );
		at( daw::algorithm::find_last_of( b, e, is ) );
		o << daw::algorithm::all_of( b, e, is ) << daw::algorithm::any_of( b, e, is ) << daw::algorithm::none_of( b, e, is );
		o << daw::algorithm::find_index_of( b, e, x ) << daw::algorithm::contains( b, e, x ) << daw::algorithm::count_if( b, e, is );
		o << daw::algorithm::is_sorted( b, e ) << daw::algorithm::lexicographical_compare( b, e, w.begin( ), w.end( ), std::less<>{ } );
		o << daw::algorithm::equal( b, e, w.begin( ), w.end( ), std::equal_to<>{ } );
		if( not v.empty( ) ) {
			at( daw::algorithm::max_element( b, e ) );
			o << daw::algorithm::reduce( b, e, 3, []( int p, int q ) {
				return ( p * 5 + q ) % 1000;
			} );
		}
		std::vector<int> t( v.size( ) );
		o << ( daw::algorithm::copy_if( b, e, t.begin( ), is ) - t.begin( ) ) << t;
		daw::algorithm::map( b, e, t.begin( ), []( int q ) {
			return q * 3;
		} );
		o << t;
		auto u = v;
		daw::algorithm::reverse( u.begin( ), u.end( ) );
		o << u;
		auto last = daw::algorithm::remove( u.begin( ), u.end( ), x );
		u.erase( last, u.end( ) );
		o << u;
		daw::algorithm::iota( t.begin( ), t.end( ), x );
		o << t << x << daw::algorithm::min_item( x, 3, 2 ) << daw::algorithm::max_item( x, 3, 4 );
		o << daw::algorithm::satisfies_one( x, is ) << daw::algorithm::are_equal( x, 3, 3 );
		daw::algorithm::fill( u.begin( ), u.end( ), x );
		o << u;
	}
	constexpr void searches( Rng &r, Out &o ) {
		auto v = ints( r, 16, 8 );
		int x = int( r.below( 9 ) );
		auto u = v;
		daw::sort( u.begin( ), u.end( ) );
		o << v << u << ( daw::algorithm::lower_bound( u.begin( ), u.end( ), x ) - u.begin( ) ) << ( daw::algorithm::upper_bound( u.begin( ), u.end( ), x ) - u.begin( ) );
		auto d = v;
		daw::sort( d.begin( ), d.end( ), std::greater<>{ } );
		o << d;
		std::vector<int> i( 32 );
		auto w = ints( r, 10, 8 );
		daw::sort( w.begin( ), w.end( ) );
		o << ( daw::algorithm::set_intersection( u.begin( ), u.end( ), w.begin( ), w.end( ), i.begin( ) ) - i.begin( ) ) << i;
	}
	constexpr void networks( Rng &r, Out &o ) {
		std::vector<int> v( 64 );
		for( auto &e : v ) {
			e = int( r.below( 40 ) );
		}
		auto go = [&]( auto f ) {
			auto u = v;
			f( u.begin( ) );
			o << u;
		};
		go( []( auto f ) { daw::sort_3( f ); } );
		go( []( auto f ) { daw::sort_5( f ); } );
		go( []( auto f ) { daw::sort_8( f ); } );
		go( []( auto f ) { daw::sort_7( f ); } );
		go( []( auto f ) { daw::sort_16( f ); } );
		go( []( auto f ) { daw::sort_32( f ); } );
		go( []( auto f ) { daw::sort( f, f + 64 ); } );
	}
	constexpr void partitions( Rng &r, Out &o ) {
		auto v = ints( r, 16, 8 );
		if( v.empty( ) ) {
			v.push_back( 1 );
		}
		int x = int( r.below( 9 ) );
		auto u = v;
		o << v << ( daw::algorithm::partition( u.begin( ), u.end( ), [x]( int y ) {
			return y < x;
		} ) - u.begin( ) ) << u;
		auto w = v;
		auto k = r.below( v.size( ) );
		daw::algorithm::nth_element( w.begin( ), w.begin( ) + std::ptrdiff_t( k ), w.end( ) );
		o << w[k];
		auto z = v;
		o << ( daw::algorithm::rotate( z.begin( ), z.begin( ) + std::ptrdiff_t( k ), z.end( ) ) - z.begin( ) ) << z;
	}
} // namespace
CT( algorithms, 200 )
CT( searches, 200 )
CT( networks, 25 )
CT( partitions, 200 )
#endif

#if PBT_PART == 6
#include "daw/daw_bit_queues.h"
#include "daw/daw_bounded_vector.h"
#include "daw/daw_contiguous_view.h"
#include "daw/daw_fnv1a_hash.h"
#include "daw/daw_min_perfect_hash.h"
#include "daw/daw_span.h"
#include "daw/daw_span_writer.h"
#include "daw/daw_string_view.h"
#include "daw/daw_view.h"
#include "daw/deprecated/daw_bounded_hash_map.h"
#include "daw/static_hash_table.h"
#include "daw/vector.h"
namespace {
	constexpr void bounded_vectors( Rng &r, Out &o ) {
		daw::bounded_vector_t<int, 10> v{ };
		for( int k = 0; k < 14; ++k ) {
			int x = int( r.below( 90 ) );
			switch( r.below( 9 ) ) {
			case 0:
			case 1:
			case 2:
				if( not v.full( ) ) {
					v.push_back( x );
				}
				break;
			case 3:
				if( not v.full( ) ) {
					v.emplace_back( x );
				}
				break;
			case 4:
				if( not v.empty( ) ) {
					o << v.pop_back( );
				}
				break;
			case 5:
				if( not v.empty( ) ) {
					o << v.pop_front( );
				}
				break;
			case 6:
				if( not v.empty( ) ) {
					auto p = r.below( v.size( ) );
					o << ( v.erase( v.begin( ) + std::ptrdiff_t( p ) ) - v.begin( ) );
				}
				break;
			case 7:
				v.resize( r.below( 11 ) );
				break;
			default:
				if( not v.empty( ) ) {
					auto a = r.below( v.size( ) + 1 ), b = r.below( v.size( ) + 1 );
					v.erase( v.begin( ) + std::ptrdiff_t( std::min( a, b ) ), v.begin( ) + std::ptrdiff_t( std::max( a, b ) ) );
				}
				break;
			}
			o << v.size( ) << v << v.full( );
		}
	}
	constexpr void vectors( Rng &r, Out &o ) {
		daw::vector<int> v{ };
		for( int k = 0; k < 12; ++k ) {
			int x = int( r.below( 90 ) );
			auto p = std::ptrdiff_t( r.below( v.size( ) + 1 ) );
			switch( r.below( 10 ) ) {
			case 0:
			case 1:
				v.push_back( x );
				break;
			case 2:
				v.emplace_back( x );
				break;
			case 3:
				if( not v.empty( ) ) {
					v.pop_back( );
				}
				break;
			case 4:
				o << ( v.insert( v.begin( ) + p, int( x ) ) - v.begin( ) );
				break;
			case 5:
				v.assign( r.below( 9 ), x );
				break;
			case 6:
				if( p < std::ptrdiff_t( v.size( ) ) ) {
					o << ( v.erase( v.begin( ) + p ) - v.begin( ) );
				}
				break;
			case 7:
				v.resize( r.below( 12 ) );
				break;
			case 8:
				v.reserve( r.below( 20 ) );
				break;
			default: {
				auto w = v;
				w.push_back( 1 );
				o << ( w < v ) << ( w == v );
				v = std::move( w );
				break;
			}
			}
			o << v.size( ) << v << ( v.capacity( ) >= v.size( ) );
		}
	}
	constexpr void views( Rng &r, Out &o ) {
		std::vector<int> d( 1 + r.below( 14 ) );
		for( auto &e : d ) {
			e = int( r.below( 99 ) );
		}
		o << d;
		daw::span<int> s( d.data( ), d.size( ) );
		daw::contiguous_view<int> c( d.data( ), d.size( ) );
		daw::view<int *> w( d.data( ), d.data( ) + d.size( ) );
		for( int k = 0; k < 5; ++k ) {
			auto n = r.below( s.size( ) + 1 );
			switch( r.below( 5 ) ) {
			case 0:
				s.remove_prefix( n );
				c.remove_prefix( n );
				w.remove_prefix( n );
				break;
			case 1:
				s.remove_suffix( n / 2 );
				c.remove_suffix( n / 2 );
				w.remove_suffix( n / 2 );
				break;
			case 2:
				if( not s.empty( ) ) {
					s[n % s.size( )] = 100 + k;
				}
				break;
			case 3:
				s = s.subspan( n / 2, n );
				c.remove_prefix( n / 2 );
				c.remove_suffix( c.size( ) - s.size( ) );
				w = daw::view<int *>( s.data( ), s.data( ) + s.size( ) );
				break;
			default:
				o << s.pop_front( n );
				c.remove_prefix( n );
				w.remove_prefix( n );
				break;
			}
			o << s << c << w << s.size( ) << c.size( ) << w.size( );
		}
		o << d;
		std::array<char, 40> buff{ };
		daw::span_writer<char> wr( buff );
		for( int k = 0; k < 4; ++k ) {
			wr.write( r.text( 6, "abcxyz" ) );
			if( r.coin( ) ) {
				wr.remove_prefix( r.below( 3 ) );
			}
			o << wr.size( );
		}
		o << buff;
	}
	constexpr void bit_queue( Rng &r, Out &o ) {
		daw::basic_bit_queue<u32> q{ };
		daw::basic_nibble_queue<u32> nq{ };
		for( int k = 0; k < 10; ++k ) {
			auto n = 1 + r.below( 12 );
			switch( r.below( 4 ) ) {
			case 0:
			case 1:
				if( q.size( ) + n <= 32 ) {
					q.push_back( u32( r.next( ) ), n );
				}
				break;
			case 2:
				if( q.can_pop( n ) ) {
					o << q.pop_front( n );
				}
				break;
			default:
				if( q.can_pop( n ) ) {
					o << q.pop_back( n );
				}
				break;
			}
			if( not nq.full( ) and r.coin( ) ) {
				nq.push_back( u32( r.below( 16 ) ) );
			}
			o << q.size( ) << q.value( ) << q.empty( ) << q.full( ) << nq.size( ) << nq.value( );
		}
	}
	struct IntHash {
		constexpr std::size_t operator( )( int i ) const {
			return mix( u64( i ) );
		}
	};
	constexpr void hash_tables( Rng &r, Out &o ) {
		std::array<std::pair<int, int>, 9> a{ };
		int x = int( r.below( 100 ) ) - 50;
		for( auto &e : a ) {
			e = { x, int( r.below( 1000 ) ) };
			x += 1 + int( r.below( 20 ) );
		}
		daw::perfect_hash_table<9, int, int, IntHash> t( a.begin( ), a.end( ) );
		for( auto const &e : a ) {
			o << t.contains( e.first ) << *t.find( e.first ) << t[e.first];
		}
		daw::static_hash_t<int, 15> st( { a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8] } );
		for( int k = -60; k < 60; k += 7 ) {
			auto p = st.find( k );
			o << ( p < 15 );
		}
		for( auto const &e : a ) {
			o << st[e.first];
		}
	}
	struct Mod {
		constexpr std::size_t operator( )( int k ) const {
			return std::size_t( k % 4 ) * 0x4000000000000000ull;
		}
	};
	constexpr void bounded_maps( Rng &r, Out &o ) {
		daw::bounded_hash_map<int, int, 8, Mod> m{ };
		for( int k = 0; k < 14; ++k ) {
			int key = int( r.below( 8 ) );
			switch( r.below( 4 ) ) {
			case 0:
				m.insert( key, k );
				break;
			case 1:
				m[key] = k;
				break;
			case 2:
				m.erase( key );
				break;
			default:
				break;
			}
			o << m.size( ) << m.exists( key ) << m.count( key ) << m.empty( );
			if( m.exists( key ) ) {
				o << m.find( key )->value;
			}
		}
	}
} // namespace
CT( bounded_vectors, 200 )
CT( vectors, 150 )
CT( views, 150 )
CT( bit_queue, 200 )
CT( hash_tables, 25 )
CT( bounded_maps, 100 )
#endif

#if PBT_PART == 7
#include "daw/daw_apply.h"
#include "daw/daw_ascii.h"
#include "daw/daw_expected.h"
#include "daw/daw_optional.h"
#include "daw/daw_overload.h"
#include "daw/daw_pipelines.h"
#include "daw/daw_string_concat.h"
#include "daw/daw_tuple_helper.h"
#include "daw/daw_unique_ptr.h"
#include "daw/daw_visit.h"
#include "daw/iterator/daw_chunk_iterator.h"
#include "daw/iterator/daw_circular_iterator.h"
#include "daw/iterator/daw_indexed_iterator.h"
#include "daw/iterator/daw_iota_iterator.h"
#include "daw/iterator/daw_reverse_iterator.h"
#include "daw/iterator/daw_zipiter.h"
#include <numeric>
#include <variant>
namespace {
	constexpr void optionals( Rng &r, Out &o ) {
		daw::optional<int> a{ }, b{ };
		for( int k = 0; k < 8; ++k ) {
			int x = int( r.below( 90 ) );
			switch( r.below( 6 ) ) {
			case 0:
				a = daw::optional<int>( x );
				break;
			case 1:
				a = daw::optional<int>( );
				break;
			case 2:
				b = a;
				break;
			case 3:
				a = std::move( b );
				break;
			case 4:
				a = daw::optional<int>( x );
				break;
			default:
				b = daw::optional<int>( x );
				break;
			}
			o << a.has_value( ) << b.has_value( ) << ( a ? *a : -1 ) << ( b ? *b : -2 );
		}
	}
	constexpr void owners( Rng &r, Out &o ) {
		auto p = daw::make_unique<int>( int( r.below( 50 ) ) );
		daw::unique_ptr<int> q{ };
		for( int k = 0; k < 6; ++k ) {
			switch( r.below( 5 ) ) {
			case 0:
				q = std::move( p );
				break;
			case 1:
				p.swap( q );
				break;
			case 2:
				p.reset( new int( int( r.below( 50 ) ) ) );
				break;
			case 3: {
				std::unique_ptr<int> z( q.release( ) );
				o << bool( z );
				break;
			}
			default:
				q.reset( );
				break;
			}
			o << bool( p ) << bool( q ) << ( p ? *p : -1 ) << ( q ? *q : -1 );
		}
	}
	constexpr void visits( Rng &r, Out &o ) {
		using V = std::variant<int, unsigned, char, i64, bool>;
		int x = int( r.below( 99 ) );
		auto make = [&]( u64 k ) -> V {
			switch( k ) {
			case 0:
				return x;
			case 1:
				return unsigned( x );
			case 2:
				return char( x );
			case 3:
				return i64( x );
			default:
				return x > 50;
			}
		};
		for( int k = 0; k < 4; ++k ) {
			V v = make( r.below( 5 ) );
			o << v.index( ) << daw::visit_nt( v, []( auto y ) {
				return long( sizeof( y ) ) * 1000 + long( y );
			} );
			o << daw::visit_nt( v, daw::overload( []( int y ) { return y; }, []( unsigned y ) { return int( y ) + 1; }, []( char y ) { return y + 2; }, []( i64 y ) { return int( y ) + 3; }, []( bool y ) { return y + 4; } ) );
		}
		auto t = std::tuple( x, char( x ), u64( x ) * 3 );
		o << daw::apply( []( auto... e ) {
			return ( u64( e ) + ... );
		}, t );
	}
	constexpr void iterators( Rng &r, Out &o ) {
		std::vector<int> v( 1 + r.below( 12 ) );
		for( auto &e : v ) {
			e = int( r.below( 99 ) );
		}
		auto n = std::ptrdiff_t( v.size( ) );
		auto i = std::ptrdiff_t( r.below( v.size( ) ) ), j = std::ptrdiff_t( r.below( v.size( ) ) );
		o << v << i << j;
		daw::indexed_iterator<std::vector<int>> a( &v, 0 );
		auto b = a + i, c = a + j;
		o << *b << *c << ( c - b ) << ( b < c ) << ( b == c );
		auto z = daw::make_circular_iterator( v, v.begin( ) + i );
		for( int k = 0; k < 5; ++k ) {
			o << *z;
			if( r.coin( ) ) {
				++z;
			} else {
				--z;
			}
		}
		auto rb = daw::make_reverse_iterator( v.end( ) );
		o << rb[i] << *( rb + j ) << ( ( rb + j ) - ( rb + i ) );
		daw::iota_iterator<int> io{ static_cast<int>( i ) };
		o << *( io + j ) << *++io;
		auto zi = daw::zip_iterator( v.data( ), v.data( ) + ( n - 1 - i ) );
		o << std::get<0>( *zi ) << std::get<1>( *zi );
	}
	constexpr void pipes( Rng &r, Out &o ) {
		namespace dp = daw::pipelines;
		std::vector<int> v( r.below( 14 ) );
		for( auto &e : v ) {
			e = int( r.below( 30 ) );
		}
		int x = int( r.below( 30 ) );
		auto n = r.below( 8 ), m = r.below( 4 );
		auto fn = [x]( int y ) {
			return y * 3 - x;
		};
		auto is = [x]( int y ) {
			return y < x;
		};
		o << v << x << n << m;
		auto rec = [&]( auto &&p ) {
			u64 h = 0;
			for( auto const &e : p ) {
				h = mix( h ^ u64( e ) ) + 1;
			}
			o << h;
		};
		rec( dp::pipeline( v, dp::Map( fn ) ) );
		rec( dp::pipeline( v, dp::Filter( is ) ) );
		rec( dp::pipeline( v, dp::Take( n ) ) );
		rec( dp::pipeline( v, dp::Skip( m ) ) );
		rec( dp::pipeline( v, dp::Filter( is ), dp::Map( fn ), dp::Take( n ) ) );
		o << dp::pipeline( v, dp::Map( fn ), dp::Sum ) << dp::pipeline( v, dp::Filter( is ), dp::Count ) << dp::pipeline( v, dp::Contains( x ) );
		u64 h = 0;
		for( auto const &e : dp::pipeline( v, dp::Enumerate ) ) {
			h = mix( h ^ u64( std::get<0>( e ) ) ) + u64( std::get<1>( e ) );
		}
		o << h;
	}
	constexpr void ascii( Rng &r, Out &o ) {
		for( int k = 0; k < 3; ++k ) {
			char c = char( r.below( 128 ) );
			o << c << daw::to_lower_ascii( c ) << daw::to_upper_ascii( c ) << daw::is_ascii_alphanum( c ) << daw::is_ascii_printable( c );
		}
	}
} // namespace
CT( optionals, 200 )
CT( owners, 200 )
CT( visits, 200 )
CT( iterators, 200 )
CT( pipes, 150 )
CT( ascii, 100 )
#endif
