// C16: bit helpers against a bit-by-bit reference; bitsets against std::vector<bool> after any history.
// nontrivial: the value has both ones and zeros (bit helpers); at least two mutations (bitsets).
// pbt-scale: 30
#include "pbt.h"
#include "daw/daw_bit.h"
#include "daw/daw_bit_cast.h"
#include "daw/daw_bit_cast_util.h"
#include "daw/daw_bit_count.h"
#include "daw/daw_bitset.h"
#include "daw/daw_bitset_helper.h"
#include "daw/daw_cxmath.h"
#include "daw/daw_endian.h"
#include "daw/daw_integer_reverse.h"
#include "daw/daw_static_bitset.h"
#include <bitset>
#include <cstring>
#include <sstream>
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
using namespace pbt;

namespace {
	template<typename U>
	constexpr unsigned W = sizeof( U ) * 8;

	template<typename U>
	bool bit( U u, unsigned n ) {
		std::make_unsigned_t<U> v{ };
		std::memcpy( &v, &u, sizeof v );
		return ( static_cast<std::uint64_t>( v ) / ( std::uint64_t{ 1 } << n ) ) % 2 == 1;
	}
	template<typename U, typename F>
	U from_bits( F f ) {
		unsigned char b[sizeof( U )]{ };
		for( unsigned n = 0; n < W<U>; ++n ) {
			if( f( n ) ) {
				b[n / 8] = static_cast<unsigned char>( b[n / 8] + ( 1u << ( n % 8 ) ) );
			}
		}
		U r{ };
		std::memcpy( &r, b, sizeof r );
		return r;
	}
	// The path taken during constant evaluation, for every answer
	template<typename U>
	struct TrailCase {
		U in{ };
		unsigned got = 0;
	};
	template<typename U>
	constexpr auto make_trailing( ) {
		std::array<TrailCase<U>, W<U> * 4> r{ };
		for( unsigned n = 0; n < W<U>; ++n ) {
			U const one = U( U( 1 ) << n );
			U const in[4] = { one, U( ~U( one - 1 ) ), U( one | ( U( 1 ) << ( W<U> - 1 ) ) ),
			                  U( one | ( U( 0xA5A5A5A5A5A5A5A5ULL ) & U( ~U( U( one - 1 ) | one ) ) ) ) };
			for( unsigned k = 0; k < 4; ++k ) {
				r[n * 4 + k] = { in[k], unsigned( daw::cxmath::count_trailing_zeros( in[k] ) ) };
			}
		}
		return r;
	}
	template<typename U>
	bool constant_trailing( std::size_t n ) {
		static constexpr auto table = make_trailing<U>( );
		return table[n * 4].got == n and table[n * 4 + 1].got == n and table[n * 4 + 2].got == n and table[n * 4 + 3].got == n;
	}
	template<typename U>
	U gen( Src &s ) {
		switch( s.draw( 4 ) ) {
		case 0:
			return s.integer<U>( );
		case 1: { // a run of ones
			unsigned a = unsigned( s.draw( W<U> - 1 ) ), b = unsigned( s.draw( W<U> - 1 ) );
			if( a > b ) {
				std::swap( a, b );
			}
			return from_bits<U>( [&]( unsigned n ) { return n >= a and n <= b; } );
		}
		case 2: { // few bits set or clear
			std::uint64_t m = 0;
			for( unsigned k = unsigned( s.draw( 3 ) ); k > 0; --k ) {
				m |= std::uint64_t{ 1 } << s.draw( W<U> - 1 );
			}
			if( s.boolean( ) ) {
				m = ~m;
			}
			return from_bits<U>( [&]( unsigned n ) { return ( m >> n ) & 1; } );
		}
		case 3: { // distinct bytes
			unsigned k = unsigned( s.draw( 255 ) );
			return from_bits<U>( [&]( unsigned n ) { return ( ( k + 17 * ( n / 8 ) ) >> ( n % 8 ) ) & 1; } );
		}
		default:
			return s.pick<U>( { U( 0 ), U( 1 ), std::numeric_limits<U>::max( ), std::numeric_limits<U>::min( ), U( std::numeric_limits<U>::max( ) - 1 ) } );
		}
	}

	template<typename U>
	void one_value( Src &s, U v ) {
		using S = std::make_signed_t<U>;
		unsigned ones = 0, lead = W<U>, trail = W<U>;
		for( unsigned n = 0; n < W<U>; ++n ) {
			if( bit( v, n ) ) {
				++ones;
				lead = W<U> - 1 - n;
				if( trail == W<U> ) {
					trail = n;
				}
			}
		}
		if( ones != 0 and ones != W<U> ) {
			s.nontrivial( );
		}
		CHECK_EQ( daw::cxmath::popcount( v ), int( ones ) );
		CHECK_EQ( daw::cxmath::popcount( static_cast<S>( v ) ), int( ones ) );
		if constexpr( sizeof( U ) >= 4 ) {
			CHECK_EQ( daw::cxmath::count_leading_zeroes( v ), lead );
			CHECK_EQ( daw::cxmath::count_trailing_zeros( v ), trail );
			CHECK( constant_trailing<U>( s.below( W<U> ) ) );
			using I = std::conditional_t<sizeof( U ) == 4, daw::UInt32, daw::UInt64>;
			CHECK_EQ( daw::cxmath::count_leading_zeroes( I( v ) ), lead );
			if( v <= ( U( 1 ) << ( W<U> - 1 ) ) ) {
				U p = daw::cxmath::round_up_pow2( v );
				U want = 0;
				if( v != 0 ) {
					want = 1;
					while( want < v ) {
						want = U( want * 2 );
					}
				}
				CHECK_EQ( p, want );
			}
		}
		// reversal
		U r = daw::integers::reverse_bits( v );
		CHECK_EQ( r, from_bits<U>( [&]( unsigned n ) { return bit( v, W<U> - 1 - n ); } ) );
		CHECK_EQ( daw::integers::reverse_bits( r ), v );
		// byte order
		auto endians = [&]( auto x ) {
			using T = decltype( x );
			unsigned char b[sizeof( T )], rb[sizeof( T )];
			std::memcpy( b, &x, sizeof x );
			for( unsigned n = 0; n < sizeof( T ); ++n ) {
				rb[n] = b[sizeof( T ) - 1 - n];
			}
			T sw;
			std::memcpy( &sw, rb, sizeof sw );
			bool const le = daw::endian::native == daw::endian::little;
			CHECK( le == ( std::endian::native == std::endian::little ) );
			CHECK_EQ( daw::to_little_endian( x ), le ? x : sw );
			CHECK_EQ( daw::to_big_endian( x ), le ? sw : x );
			CHECK_EQ( daw::to_big_endian( daw::to_big_endian( x ) ), x );
			CHECK_EQ( daw::network_to_host_endian( x ), le ? sw : x );
			CHECK_EQ( daw::network_to_host_endian( daw::to_big_endian( x ) ), x );
			CHECK_EQ( daw::to_native_endian<daw::endian::big>( x ), le ? sw : x );
			CHECK_EQ( daw::to_native_endian<daw::endian::little>( x ), le ? x : sw );
			CHECK_EQ( daw::to_native_endian<daw::endian::native>( x ), x );
		};
		endians( v );
		endians( static_cast<S>( v ) );
		// bit casts
		CHECK_EQ( daw::bit_cast<U>( daw::bit_cast<S>( v ) ), v );
		using A = std::array<unsigned char, sizeof( U )>;
		auto arr = daw::bit_cast<A>( v );
		CHECK( std::memcmp( arr.data( ), &v, sizeof v ) == 0 );
		CHECK_EQ( daw::bit_cast<U>( arr ), v );
		CHECK_EQ( DAW_BIT_CAST( U, arr ), v );
		if constexpr( sizeof( U ) == 4 ) {
			CHECK_EQ( daw::bit_cast<U>( daw::bit_cast<A>( v ) ), v );
			float f = daw::bit_cast<float>( v );
			CHECK( std::memcmp( &f, &v, sizeof v ) == 0 );
		}
	}

	template<typename U>
	void masks( Src &s, U v ) {
		using S = std::make_signed_t<U>;
		if( v != 0 and v != std::numeric_limits<U>::max( ) ) {
			s.nontrivial( );
		}
		std::size_t n = s.chance( 1, 6 ) ? W<U> + s.draw( 70 ) : s.draw( W<U> );
		U msb = daw::mask_msb<U>( n ), lsb = daw::mask_lsb<U>( n );
		CHECK_EQ( msb, ( from_bits<U>( [&]( unsigned k ) { return k + n < W<U>; } ) ) );
		CHECK_EQ( lsb, ( from_bits<U>( [&]( unsigned k ) { return k >= n; } ) ) );
		if( n < W<U> ) {
			CHECK_EQ( daw::get_left_mask<U>( n ), msb );
			CHECK_EQ( daw::get_right_mask<U>( n ), lsb );
		}
		U m1 = gen<U>( s ), m2 = gen<U>( s ), m3 = gen<U>( s );
		CHECK_EQ( daw::make_mask( m1 ), m1 );
		CHECK_EQ( daw::make_mask( m1, m2, m3 ), U( m1 | m2 | m3 ) );
		CHECK_EQ( daw::are_set( v, m1 ), ( v & m1 ) != 0 );
		CHECK_EQ( daw::are_set( v, m1, m2 ), ( v & ( m1 | m2 ) ) != 0 );
		CHECK_EQ( daw::are_set( v, m1, m2, m3 ), ( v & ( m1 | m2 | m3 ) ) != 0 );
		auto pos = [&] { return unsigned( s.draw( W<U> - 1 ) ); };
		unsigned a = pos( ), b = pos( ), c = pos( );
		auto check = [&]( auto x, auto A, auto B, auto C ) {
			using T = decltype( x );
			auto in1 = [&]( unsigned k ) { return k == a; };
			auto in2 = [&]( unsigned k ) { return k == a or k == b; };
			auto in3 = [&]( unsigned k ) { return k == a or k == b or k == c; };
			auto want = [&]( auto in, int how ) {
				return from_bits<T>( [&]( unsigned k ) {
					bool o = bit( x, k );
					return how == 0 ? o or in( k ) : how == 1 ? o and not in( k ) : o and in( k );
				} );
			};
			CHECK_EQ( daw::set_bits( x, A ), want( in1, 0 ) );
			CHECK_EQ( daw::set_bits( x, A, B ), want( in2, 0 ) );
			CHECK_EQ( daw::set_bits( x, A, B, C ), want( in3, 0 ) );
			CHECK_EQ( daw::unset_bits( x, A ), want( in1, 1 ) );
			CHECK_EQ( daw::unset_bits( x, A, B ), want( in2, 1 ) );
			CHECK_EQ( daw::unset_bits( x, A, B, C ), want( in3, 1 ) );
			CHECK_EQ( daw::get_bits( x, A ), want( in1, 2 ) );
			CHECK_EQ( daw::get_bits( x, A, B ), want( in2, 2 ) );
			CHECK_EQ( daw::get_bits( x, A, B, C ), want( in3, 2 ) );
		};
		check( v, a, b, c );
		check( v, a, static_cast<unsigned char>( b ), static_cast<long long>( c ) );
		check( static_cast<S>( v ), a, b, c );
	}
	// mixed-width are_set compares in the common type
	template<typename A, typename B>
	void mixed( Src &s ) {
		A v = gen<A>( s );
		B m = gen<B>( s );
		if( v != 0 and m != 0 ) {
			s.nontrivial( );
		}
		using C = std::common_type_t<A, B>;
		bool any = false;
		for( unsigned n = 0; n < W<C>; ++n ) {
			any = any or ( bit( C( v ), n ) and bit( C( m ), n ) );
		}
		CHECK_EQ( daw::are_set( v, m ), any );
	}
} // namespace

PROP( bits8_all, ( { .cases = 1, .exhaustive = true } ) ) {
	for( unsigned v = 0; v < 256; ++v ) {
		one_value<std::uint8_t>( s, std::uint8_t( v ) );
	}
}
PROP( bits16_all, ( { .cases = 1, .exhaustive = true } ) ) {
	for( unsigned v = 0; v < 65536; ++v ) {
		one_value<std::uint16_t>( s, std::uint16_t( v ) );
	}
}
PROP( bits32, { } ) {
	one_value<std::uint32_t>( s, gen<std::uint32_t>( s ) );
}
PROP( bits64, { } ) {
	one_value<std::uint64_t>( s, gen<std::uint64_t>( s ) );
}
PROP( masks8, { } ) {
	masks<std::uint8_t>( s, gen<std::uint8_t>( s ) );
}
PROP( masks16, { } ) {
	masks<std::uint16_t>( s, gen<std::uint16_t>( s ) );
}
PROP( masks32, { } ) {
	masks<std::uint32_t>( s, gen<std::uint32_t>( s ) );
}
PROP( masks64, { } ) {
	masks<std::uint64_t>( s, gen<std::uint64_t>( s ) );
}
PROP( masks_mixed, { } ) {
	switch( s.draw( 5 ) ) {
	case 0:
		return mixed<std::uint8_t, std::uint64_t>( s );
	case 1:
		return mixed<std::uint64_t, std::uint8_t>( s );
	case 2:
		return mixed<std::int8_t, std::uint32_t>( s );
	case 3:
		return mixed<std::int32_t, std::int64_t>( s );
	case 4:
		return mixed<std::uint16_t, std::int32_t>( s );
	default:
		return mixed<std::uint32_t, std::int16_t>( s );
	}
}

PROP( bit_cast_ranges, { } ) {
	std::vector<std::uint32_t> in( s.len( 12 ) );
	for( auto &x : in ) {
		x = gen<std::uint32_t>( s );
	}
	if( in.size( ) > 1 ) {
		s.nontrivial( );
	}
	std::vector<std::int32_t> seen;
	daw::bit_cast_for_each<std::int32_t>( in.begin( ), in.end( ), [&]( std::int32_t i ) { seen.push_back( i ); } );
	CHECK( seen.size( ) == in.size( ) );
	std::vector<float> out( in.size( ) + 2, 1.5f );
	daw::bit_cast_copy( in.begin( ), in.end( ), out.begin( ) + 1 );
	CHECK( out.front( ) == 1.5f and out.back( ) == 1.5f );
	std::vector<std::int32_t> out2( in.size( ) + 2, 77 );
	daw::bit_cast_transform<std::int32_t>( in.begin( ), in.end( ), out2.begin( ) + 1, []( std::int32_t i ) { return static_cast<std::uint32_t>( i ) ^ 5u; } );
	CHECK( out2.front( ) == 77 and out2.back( ) == 77 );
	for( std::size_t n = 0; n < in.size( ); ++n ) {
		CHECK_EQ( static_cast<std::uint32_t>( seen[n] ), in[n] );
		CHECK( std::memcmp( &out[n + 1], &in[n], 4 ) == 0 );
		CHECK_EQ( static_cast<std::uint32_t>( out2[n + 1] ), in[n] ^ 5u );
	}
}

namespace {
	template<std::size_t N>
	void fixed_bitset( Src &s ) {
		struct {
			std::uint32_t before = 0xA5A5A5A5u;
			daw::bitset<N> b{ };
			std::uint32_t after = 0x5A5A5A5Au;
		} g;
		std::vector<bool> m( N, false );
		CHECK_STATIC( daw::bitset<N>::size( ) == N );
		std::string hist;
		unsigned muts = 0;
		auto pos = [&] { return s.chance( 1, 4 ) ? std::size_t( N - 1 ) : std::size_t( s.draw( N - 1 ) ); };
		for( std::size_t k = s.len( 24 ); k > 0; --k ) {
			auto p = pos( );
			++muts;
			switch( s.draw( 3 ) ) {
			case 0:
				g.b.set( p );
				m[p] = true;
				hist += " set " + std::to_string( p );
				break;
			case 1:
				g.b.unset( p );
				m[p] = false;
				hist += " unset " + std::to_string( p );
				break;
			case 2: {
				bool v = s.boolean( );
				g.b.set( p, v );
				m[p] = v;
				hist += v ? " set1 " : " set0 ";
				hist += std::to_string( p );
				break;
			}
			default: // fill
				for( std::size_t n = 0; n < N; ++n ) {
					g.b.set( n );
					m[n] = true;
				}
				hist += " fill";
			}
			auto const &cb = g.b;
			for( std::size_t n = 0; n < N; ++n ) {
				CHECK_EQ( cb.test( n ), bool( m[n] ) );
			}
			auto copy = g.b;
			CHECK_EQ( copy.test( p ), bool( m[p] ) );
		}
		s.note( [&] { return "bitset<" + std::to_string( N ) + ">" + hist; } );
		if( muts > 1 ) {
			s.nontrivial( );
		}
		CHECK( g.before == 0xA5A5A5A5u and g.after == 0x5A5A5A5Au );
	}

	template<std::size_t N>
	daw::static_bitset<N> make_sb( std::bitset<N> const &m, Src &s ) {
		if( s.boolean( ) ) {
			auto t = m.to_string( );
			while( s.boolean( ) and not t.empty( ) and t[0] == '0' ) {
				t.erase( 0, 1 );
			}
			return daw::static_bitset<N>( daw::string_view( t.data( ), t.size( ) ) );
		}
		daw::static_bitset<N> r{ };
		for( std::size_t n = 0; n < N; ++n ) {
			if( m[n] ) {
				r.set_bit( n );
			}
		}
		return r;
	}
	template<std::size_t N>
	std::bitset<N> gen_bits( Src &s ) {
		std::bitset<N> m;
		switch( s.draw( 3 ) ) {
		case 0:
			for( std::size_t k = s.draw( 4 ); k > 0; --k ) {
				m.set( s.draw( N - 1 ) );
			}
			break;
		case 1:
			m.set( );
			break;
		case 2: {
			auto x = s.integer<std::uint64_t>( );
			for( std::size_t n = 0; n < N; ++n ) {
				m[n] = ( x >> ( n % 61 ) ) & 1;
			}
			break;
		}
		default:
			m.set( N - 1 );
			m.set( s.draw( N - 1 ) );
		}
		return m;
	}
	template<std::size_t N>
	void same( daw::static_bitset<N> const &b, std::bitset<N> const &m ) {
		for( std::size_t n = 0; n < N; ++n ) {
			CHECK_EQ( b.get_bit( n ), bool( m[n] ) );
		}
		CHECK_EQ( b.one_count( ), m.count( ) );
		CHECK_EQ( b.zero_count( ), N - m.count( ) );
		CHECK_EQ( b.to_string( ), m.to_string( ) );
	}
	// two widths
	template<std::size_t N, std::size_t M>
	void wide_bitset( Src &s ) {
		constexpr std::size_t X = N > M ? N : M;
		auto ma = gen_bits<N>( s );
		auto mb = gen_bits<M>( s );
		auto a = make_sb<N>( ma, s );
		auto b = make_sb<M>( mb, s );
		same( a, ma );
		same( b, mb );
		unsigned muts = 0;
		auto widen = []<std::size_t K>( std::bitset<K> const &m ) {
			std::bitset<X> r;
			for( std::size_t n = 0; n < K; ++n ) {
				r[n] = m[n];
			}
			return r;
		};
		auto cut = []( std::bitset<X> const &m ) {
			std::bitset<N> r;
			for( std::size_t n = 0; n < N; ++n ) {
				r[n] = m[n];
			}
			return r;
		};
		for( std::size_t k = s.len( 8 ); k > 0; --k ) {
			++muts;
			std::size_t p = s.chance( 1, 4 ) ? N - 1 : s.draw( N - 1 );
			std::size_t sh = s.chance( 1, 3 ) ? s.pick<std::size_t>( { 0, 1, 63, 64, 65, 127, 128, 129, N - 1, N, N + 1 } ) : s.draw( N + 3 );
			switch( s.draw( 10 ) ) {
			case 0:
				a.set_bit( p );
				ma.set( p );
				break;
			case 1:
				a.clear_bit( p );
				ma.reset( p );
				break;
			case 2:
				a.clear( );
				ma.reset( );
				break;
			case 3:
				CHECK( &( a <<= sh ) == &a );
				ma = sh >= N ? std::bitset<N>{ } : ma << sh;
				break;
			case 4:
				CHECK( &( a >>= sh ) == &a );
				ma = sh >= N ? std::bitset<N>{ } : ma >> sh;
				break;
			case 5:
				a = ~a;
				ma.flip( );
				break;
			case 6:
				CHECK( &( a |= b ) == &a );
				ma = cut( widen( ma ) | widen( mb ) );
				break;
			case 7:
				CHECK( &( a &= b ) == &a );
				ma = cut( widen( ma ) & widen( mb ) );
				break;
			case 8:
				same<X>( a | b, widen( ma ) | widen( mb ) );
				same<X>( b | a, widen( ma ) | widen( mb ) );
				same<X>( a ^ b, widen( ma ) ^ widen( mb ) );
				same<N>( a & b, cut( widen( ma ) & widen( mb ) ) );
				break;
			case 9:
				mb = gen_bits<M>( s );
				b = make_sb<M>( mb, s );
				break;
			default:
				if constexpr( N > M ) {
					a = b;
					ma = cut( widen( mb ) );
				} else {
					a = daw::static_bitset<N>( a );
				}
			}
			same( a, ma );
			CHECK_EQ( a == b, widen( ma ) == widen( mb ) );
			CHECK_EQ( a != b, widen( ma ) != widen( mb ) );
			CHECK( a == a and not( a != a ) );
		}
		if( muts > 1 ) {
			s.nontrivial( );
		}
		std::ostringstream os;
		os << a;
		CHECK_EQ( os.str( ), ma.to_string( ) );
		CHECK_EQ( daw::to_string( a ), ma.to_string( ) );
		// hex: every stored word, most significant nibble first
		std::string hex( ( N + 63 ) / 64 * 16, '0' );
		for( std::size_t n = 0; n < hex.size( ); ++n ) {
			unsigned d = 0;
			for( unsigned j = 0; j < 4; ++j ) {
				std::size_t i = ( hex.size( ) - 1 - n ) * 4 + j;
				d += i < N and ma[i] ? 1u << j : 0u;
			}
			hex[n] = "0123456789ABCDEF"[d];
		}
		CHECK_EQ( a.to_string( daw::fmt_hex ), hex );
	}
	template<std::size_t N>
	void word_ctor( Src &s ) {
		auto lo = gen<std::uint64_t>( s ), hi = gen<std::uint64_t>( s ), top = gen<std::uint64_t>( s );
		std::bitset<N> m;
		std::uint64_t w[3] = { lo, hi, top };
		for( std::size_t n = 0; n < N; ++n ) {
			m[n] = bit( w[n / 64], unsigned( n % 64 ) );
		}
		s.nontrivial( );
		if constexpr( N <= 64 ) {
			same( daw::static_bitset<N>( lo ), m );
		} else if constexpr( N <= 128 ) {
			same( daw::static_bitset<N>( lo, hi ), m );
		} else {
			same( daw::static_bitset<N>( lo, hi, top ), m );
		}
	}
} // namespace

PROP( fixed_bitset, { .cases = 2000 } ) {
	switch( s.draw( 8 ) ) {
	case 0:
		return fixed_bitset<3>( s );
	case 1:
		return fixed_bitset<5>( s );
	case 2:
		return fixed_bitset<31>( s );
	case 3:
		return fixed_bitset<32>( s );
	case 4:
		return fixed_bitset<33>( s );
	case 5:
		return fixed_bitset<63>( s );
	case 6:
		return fixed_bitset<64>( s );
	case 7:
		return fixed_bitset<65>( s );
	default:
		return fixed_bitset<100>( s );
	}
}
PROP( static_bitset, { .cases = 2000 } ) {
	switch( s.draw( 9 ) ) {
	case 0:
		return wide_bitset<1, 7>( s );
	case 1:
		return wide_bitset<16, 16>( s );
	case 2:
		return wide_bitset<63, 64>( s );
	case 3:
		return wide_bitset<64, 63>( s );
	case 4:
		return wide_bitset<64, 130>( s );
	case 5:
		return wide_bitset<65, 64>( s );
	case 6:
		return wide_bitset<100, 70>( s );
	case 7:
		return wide_bitset<128, 64>( s );
	case 8:
		return wide_bitset<130, 100>( s );
	default:
		return wide_bitset<192, 65>( s );
	}
}
PROP( static_bitset_words, { } ) {
	switch( s.draw( 7 ) ) {
	case 0:
		return word_ctor<1>( s );
	case 1:
		return word_ctor<16>( s );
	case 2:
		return word_ctor<63>( s );
	case 3:
		return word_ctor<64>( s );
	case 4:
		return word_ctor<65>( s );
	case 5:
		return word_ctor<128>( s );
	case 6:
		return word_ctor<130>( s );
	default:
		return word_ctor<192>( s );
	}
}
PROP( static_bitset_bad_text, { .cases = 200 } ) {
	std::string t( s.range<std::size_t>( 1, 20 ), '0' );
	for( auto &c : t ) {
		c = s.boolean( ) ? '1' : '0';
	}
	bool bad = s.boolean( );
	if( bad ) {
		t[s.below( t.size( ) )] = s.pick( { '2', ' ', 'a', '/', ':' } );
		s.nontrivial( );
	}
	using B = daw::static_bitset<12>;
	if( t.size( ) > 12 ) {
		CHECK_THROWS( std::overflow_error, B( daw::string_view( t.data( ), t.size( ) ) ) );
	} else if( bad ) {
		CHECK_THROWS( std::invalid_argument, B( daw::string_view( t.data( ), t.size( ) ) ) );
	} else {
		CHECK_EQ( B( daw::string_view( t.data( ), t.size( ) ) ).to_string( ), std::bitset<12>( t ).to_string( ) );
	}
}
PROP( bitset_from_positions, { } ) {
	constexpr std::size_t N = 70;
	std::vector<int> p( s.len( 8 ) );
	std::bitset<N> m;
	for( auto &x : p ) {
		x = int( s.draw( N - 1 ) );
		m.set( std::size_t( x ) );
	}
	if( p.size( ) > 1 ) {
		s.nontrivial( );
	}
	CHECK( daw::create_bitset_from_set_positions<N>( p ) == m );
	std::vector<std::uint8_t> q( p.begin( ), p.end( ) );
	CHECK( daw::create_bitset_from_set_positions<N>( q ) == m );
	enum class E : unsigned short {};
	std::vector<E> e;
	for( int x : p ) {
		e.push_back( E( x ) );
	}
	CHECK( daw::create_bitset_from_set_positions<N>( e ) == m );
	if( p.size( ) >= 3 ) {
		std::bitset<N> k;
		k.set( std::size_t( p[0] ) );
		k.set( std::size_t( p[1] ) );
		k.set( std::size_t( p[2] ) );
		CHECK( daw::create_bitset_from_set_positions<N>( p[0], static_cast<unsigned char>( p[1] ), E( p[2] ) ) == k );
		CHECK( daw::create_bitset_from_set_positions<N>( { p[0], p[1], p[2] } ) == k );
		CHECK( daw::create_bitset_from_set_positions<N>( { E( p[0] ), E( p[2] ), E( p[1] ) } ) == k );
	}
}
