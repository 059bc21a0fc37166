// C17: integer comparison, range tests, narrowing, natural numbers and the UIntN types against 128 bit arithmetic.
// nontrivial: the operands differ in sign or width, or lie within 2 of a boundary of one of the types.
// pbt-scale: 40
#include "pbt.h"
#include "daw/daw_alias_cast.h"
#include "daw/daw_cxmath.h"
#include "daw/daw_int_cmp.h"
#include "daw/daw_natural.h"
#include "daw/daw_ordering_to_integer.h"
#include "daw/daw_size_literals.h"
#include "daw/daw_uint_buffer.h"
#include "daw/daw_uint_buffer_ios.h"
#include "daw/daw_utility.h"
#include <sstream>
#pragma clang diagnostic ignored "-Wsign-compare"
using namespace pbt;
using i128 = __int128;
using u64 = std::uint64_t;

namespace {
	// values crowd the limits of every width
	template<typename T>
	T gen( Src &s ) {
		switch( s.draw( 3 ) ) {
		case 0:
			return s.integer<T>( );
		case 1:
			return T( s.range<int>( 0, 5 ) );
		case 2: {
			i128 base = s.boolean( ) ? i128( 1 ) << s.draw( 64 ) : -( i128( 1 ) << s.draw( 63 ) );
			return static_cast<T>( base + int( s.draw( 4 ) ) - 2 );
		}
		default:
			return s.pick<T>( { std::numeric_limits<T>::max( ), std::numeric_limits<T>::min( ), T( 0 ), T( std::numeric_limits<T>::max( ) - 1 ), T( std::numeric_limits<T>::min( ) + 1 ), T( -1 ) } );
		}
	}
	template<typename T>
	constexpr bool fits( i128 v ) {
		return v >= i128( std::numeric_limits<T>::min( ) ) and v <= i128( std::numeric_limits<T>::max( ) );
	}
	template<typename T>
	bool edge( i128 v ) {
		i128 lo = std::numeric_limits<T>::min( ), hi = std::numeric_limits<T>::max( );
		auto near = [&]( i128 x ) { return v - x <= 2 and x - v <= 2; };
		return near( lo ) or near( hi );
	}
	template<typename T>
	std::string str( T v ) {
		return std::is_signed_v<T> ? std::to_string( (long long)v ) : std::to_string( (unsigned long long)v );
	}
	template<typename T, typename U>
	void pair( Src &s ) {
		T a = gen<T>( s );
		U b = s.chance( 1, 4 ) ? static_cast<U>( a ) : gen<U>( s );
		i128 A = a, B = b;
		s.note( [&] { return str( a ) + " (" + std::to_string( sizeof( T ) ) + ( std::is_signed_v<T> ? "s" : "u" ) + ") " + str( b ) + " (" + std::to_string( sizeof( U ) ) + ( std::is_signed_v<U> ? "s" : "u" ) + ")"; } );
		if( std::is_signed_v<T> != std::is_signed_v<U> or sizeof( T ) != sizeof( U ) or edge<U>( A ) or edge<T>( B ) ) {
			s.nontrivial( );
		}
		CHECK_EQ( daw::cmp_equal( a, b ), A == B );
		CHECK_EQ( daw::cmp_not_equal( a, b ), A != B );
		CHECK_EQ( daw::cmp_less( a, b ), A < B );
		CHECK_EQ( daw::cmp_greater( a, b ), A > B );
		CHECK_EQ( daw::cmp_less_equal( a, b ), A <= B );
		CHECK_EQ( daw::cmp_greater_equal( a, b ), A >= B );
		namespace X = daw::cxmath;
		CHECK_EQ( X::cmp_equal( a, b ), A == B );
		CHECK_EQ( X::cmp_not_equal( a, b ), A != B );
		CHECK_EQ( X::cmp_less( a, b ), A < B );
		CHECK_EQ( X::cmp_greater( a, b ), A > B );
		CHECK_EQ( X::cmp_less_equal( a, b ), A <= B );
		CHECK_EQ( X::cmp_greater_equal( a, b ), A >= B );
		CHECK_EQ( daw::in_range<U>( a ), fits<U>( A ) );
		CHECK_EQ( daw::in_range<T>( b ), fits<T>( B ) );
		CHECK_EQ( daw::can_fit<U>( a ), fits<U>( A ) );
		CHECK_EQ( daw::signbit( a ), A < 0 );
		if( fits<U>( A ) ) {
			CHECK_EQ( i128( daw::narrow_cast<U>( a ) ) == A, true );
		} else {
			CHECK_THROWS( std::out_of_range, (void)daw::narrow_cast<U>( a ) );
		}
		if constexpr( std::is_signed_v<T> == std::is_signed_v<U> and sizeof( U ) >= sizeof( T ) ) {
			CHECK( i128( daw::cast<U>( a ) ) == A );
		}
	}
	template<typename T>
	void first( Src &s ) {
		switch( s.draw( 9 ) ) {
		case 0:
			return pair<T, std::int8_t>( s );
		case 1:
			return pair<T, std::uint8_t>( s );
		case 2:
			return pair<T, std::int16_t>( s );
		case 3:
			return pair<T, std::uint16_t>( s );
		case 4:
			return pair<T, std::int32_t>( s );
		case 5:
			return pair<T, std::uint32_t>( s );
		case 6:
			return pair<T, std::int64_t>( s );
		case 7:
			return pair<T, std::uint64_t>( s );
		case 8:
			return pair<T, long long>( s );
		default:
			return pair<T, unsigned long long>( s );
		}
	}
} // namespace

PROP( compare_signed, { } ) {
	switch( s.draw( 3 ) ) {
	case 0:
		return first<std::int8_t>( s );
	case 1:
		return first<std::int16_t>( s );
	case 2:
		return first<std::int32_t>( s );
	default:
		return first<std::int64_t>( s );
	}
}
PROP( compare_unsigned, { } ) {
	switch( s.draw( 3 ) ) {
	case 0:
		return first<std::uint8_t>( s );
	case 1:
		return first<std::uint16_t>( s );
	case 2:
		return first<std::uint32_t>( s );
	default:
		return first<std::uint64_t>( s );
	}
}
// every pair of 8 bit values, both signs
PROP( compare_all_8, ( { .cases = 1, .exhaustive = true } ) ) {
	auto each = [&]<typename T, typename U>( T a, U b ) {
		int A = a, B = b;
		CHECK( daw::cmp_equal( a, b ) == ( A == B ) and daw::cmp_not_equal( a, b ) == ( A != B ) and daw::cmp_less( a, b ) == ( A < B ) and daw::cmp_greater( a, b ) == ( A > B ) and daw::cmp_less_equal( a, b ) == ( A <= B ) and daw::cmp_greater_equal( a, b ) == ( A >= B ) );
		CHECK( daw::in_range<U>( a ) == fits<U>( A ) and daw::can_fit<U>( a ) == fits<U>( A ) );
	};
	for( int x = 0; x < 256; ++x ) {
		for( int y = 0; y < 256; ++y ) {
			auto a = std::int8_t( x ), b = std::int8_t( y );
			auto c = std::uint8_t( x ), d = std::uint8_t( y );
			each( a, b );
			each( a, d );
			each( c, b );
			each( c, d );
		}
	}
	s.nontrivial( );
}
PROP( half_open_range, { } ) {
	int v = gen<int>( s ), lo = gen<int>( s ), hi = gen<int>( s );
	if( s.boolean( ) ) {
		v = s.boolean( ) ? lo : hi;
	}
	s.nontrivial( );
	CHECK_EQ( daw::in_range( v, lo, hi ), lo <= v and v < hi );
	CHECK_EQ( daw::value_is( v ).one_of( lo, hi ), v == lo or v == hi );
	CHECK_EQ( daw::value_is( v ).none_of( lo, hi ), v != lo and v != hi );
}

// bytes to big-endian values
PROP( values_from_bytes, { } ) {
	unsigned char b[8];
	u64 v = 0;
	for( auto &c : b ) {
		c = s.integer<std::uint8_t>( );
	}
	s.nontrivial( );
	for( unsigned n = 1; n <= 8; ++n ) {
		v = v * 256 + b[n - 1];
		switch( n ) {
		case 1:
			CHECK_EQ( unsigned( daw::value_from_chars<std::uint8_t>( b, std::integral_constant<std::size_t, 1>{ } ) ), unsigned( v ) );
			break;
		case 2:
			CHECK_EQ( unsigned( daw::value_from_chars<std::uint16_t>( b, std::integral_constant<std::size_t, 2>{ } ) ), unsigned( v ) );
			break;
		case 4:
			CHECK_EQ( u64( daw::value_from_chars<std::uint32_t>( b, std::integral_constant<std::size_t, 4>{ } ) ), v );
			break;
		case 8:
			CHECK_EQ( u64( daw::value_from_chars<std::uint64_t>( b, std::integral_constant<std::size_t, 8>{ } ) ), v );
			break;
		default:;
		}
	}
	auto arr = daw::as_char_array( v );
	CHECK( arr.size( ) == 8 and std::memcmp( arr.data( ), &v, 8 ) == 0 );
}

// bitcount lives in daw_utility.h
PROP( bitcount, { } ) {
	auto a = gen<int>( s );
	auto b = gen<u64>( s );
	auto c = gen<signed char>( s );
	if( a < 0 or c < 0 ) {
		s.nontrivial( );
	}
	auto n = [&]( u64 v, unsigned bits ) {
		std::size_t r = 0;
		for( unsigned k = 0; k < bits; ++k ) {
			r += ( v >> k ) & 1;
		}
		return r;
	};
	CHECK_EQ( daw::bitcount( a ), n( u64( a ), 32 ) );
	CHECK_EQ( daw::bitcount( b ), n( b, 64 ) );
	CHECK_EQ( daw::bitcount( a, b, c ), n( u64( a ), 32 ) + n( b, 64 ) + n( u64( c ), 8 ) );
}

// --- natural numbers -------------------------------------------------------
namespace {
	template<typename T, typename U>
	void naturals( Src &s ) {
		using N = daw::natural_t<T>;
		using M = daw::natural_t<U>;
		CHECK( i128( N{ }.value( ) ) == 1 );
		T a = gen<T>( s );
		U b = gen<U>( s );
		i128 A = a, B = b;
		s.note( [&] { return str( a ) + ", " + str( b ); } );
		if( a < 1 ) {
			CHECK_THROWS( daw::invalid_natural_number, N( a ) );
			N n( T( 3 ) );
			CHECK_THROWS( daw::invalid_natural_number, n = a );
			CHECK( i128( n.value( ) ) == 3 );
			return;
		}
		N n( a );
		CHECK( i128( n.value( ) ) == A and i128( T( n ) ) == A );
		if( b < 1 ) {
			CHECK_THROWS( daw::invalid_natural_number, M( b ) );
			return;
		}
		s.nontrivial( );
		M m( b );
		// same-sign comparisons only: mixed naturals are >= 1, so the usual conversions are exact
		CHECK_EQ( n == m, A == B );
		CHECK_EQ( n != m, A != B );
		CHECK_EQ( n < m, A < B );
		CHECK_EQ( n <= m, A <= B );
		CHECK_EQ( n > m, A > B );
		CHECK_EQ( n >= m, A >= B );
		using P = decltype( a + b );
		using D = decltype( a - b );
		if( fits<P>( A + B ) ) {
			CHECK( i128( ( n + m ).value( ) ) == A + B );
			CHECK_STATIC( std::is_same_v<decltype( n + m ), daw::natural_t<P>> );
		}
		if( fits<T>( A + B ) and fits<P>( A + B ) ) {
			N x = n;
			CHECK( &( x += m ) == &x );
			CHECK( i128( x.value( ) ) == A + B );
		}
		if( A <= B ) {
			CHECK_THROWS( daw::invalid_natural_number, (void)( n - m ) );
			N x = n;
			CHECK_THROWS( daw::invalid_natural_number, x -= m );
			CHECK( i128( x.value( ) ) == A );
		} else {
			CHECK_STATIC( std::is_same_v<decltype( n - m ), daw::natural_t<D>> );
			CHECK( i128( ( n - m ).value( ) ) == A - B );
			N x = n;
			CHECK( &( x -= m ) == &x );
			CHECK( i128( x.value( ) ) == A - B );
		}
		i128 prod = A > ( i128( 1 ) << 63 ) and B > ( i128( 1 ) << 62 ) ? i128( 1 ) << 100 : A * B;
		if( fits<P>( prod ) ) {
			CHECK( i128( ( n * m ).value( ) ) == prod );
			if( fits<T>( prod ) ) {
				N x = n;
				CHECK( &( x *= m ) == &x );
				CHECK( i128( x.value( ) ) == prod );
			}
		}
		// a quotient or remainder of zero is not a natural number: see the known finding
		if( A / B >= 1 ) {
			if constexpr( std::is_same_v<P, T> ) {
				CHECK( i128( ( n / m ).value( ) ) == A / B );
			}
			N x = n;
			CHECK( &( x /= m ) == &x );
			CHECK( i128( x.value( ) ) == A / B );
		}
		if( A % B >= 1 ) {
			if constexpr( std::is_same_v<P, T> ) {
				CHECK( i128( ( n % m ).value( ) ) == A % B );
			}
			N x = n;
			CHECK( &( x %= m ) == &x );
			CHECK( i128( x.value( ) ) == A % B );
		}
		if( fits<T>( A + 1 ) ) {
			N x = n;
			CHECK( &++x == &x );
			CHECK( i128( x.value( ) ) == A + 1 );
			N y = n;
			CHECK( i128( ( y++ ).value( ) ) == A );
			CHECK( i128( y.value( ) ) == A + 1 );
		}
		N x = n;
		if( A == 1 ) {
			CHECK_THROWS( daw::invalid_natural_number, --x );
			CHECK_THROWS( daw::invalid_natural_number, x-- );
			CHECK( i128( x.value( ) ) == 1 );
		} else {
			CHECK( &--x == &x );
			CHECK( i128( x.value( ) ) == A - 1 );
			N y = n;
			CHECK( i128( ( y-- ).value( ) ) == A );
			CHECK( i128( y.value( ) ) == A - 1 );
		}
		// assignment
		N z( T( 7 ) );
		z = n;
		CHECK( i128( z.value( ) ) == A );
		if( fits<T>( B ) ) {
			z = m;
			CHECK( i128( z.value( ) ) == B );
			z = b;
			CHECK( i128( z.value( ) ) == B );
			CHECK( i128( N( m ).value( ) ) == B );
		}
	}
} // namespace
PROP( naturals, { } ) {
	switch( s.draw( 7 ) ) {
	case 0:
		return naturals<int, int>( s );
	case 1:
		return naturals<unsigned, unsigned>( s );
	case 2:
		return naturals<long long, long long>( s );
	case 3:
		return naturals<u64, u64>( s );
	case 4:
		return naturals<short, short>( s );
	case 5:
		return naturals<int, long long>( s );
	case 6:
		return naturals<u64, unsigned>( s );
	default:
		return naturals<unsigned char, int>( s );
	}
}
KNOWN( natural_zero, "natural_t / and % give a natural_t holding 0 (1/2, 4%2)" ) {
	daw::natural_t<int> a( 1 ), b( 2 ), c( 4 );
	return ( a / b ).value( ) < 1 or ( c % b ).value( ) < 1;
}

// --- UIntN -----------------------------------------------------------------
namespace {
	template<typename T>
	constexpr bool is_uint = std::is_enum_v<T>;
	template<typename T>
	u64 val( T t ) {
		return static_cast<u64>( t );
	}
	template<typename T>
	u64 trunc( u64 v ) {
		return sizeof( T ) == 8 ? v : v & ( ( u64( 1 ) << ( 8 * ( sizeof( T ) % 8 ) ) ) - 1 );
	}

#define BIN( OP, PRE, EXPR )                                            \
	if constexpr( requires { a OP b; } ) {                                 \
		constexpr bool exact = requires { static_cast<decltype( a OP b ) ( * )( L, R )>( &daw::operator OP ); }; \
		if( ( exact or fit ) and ( PRE ) ) {                                 \
			auto r = a OP b;                                                   \
			u64 want = ( EXPR );                                               \
			if constexpr( std::is_same_v<decltype( r ), bool> ) {              \
				CHECK_EQ( u64( r ), want );                                      \
			} else {                                                           \
				CHECK_EQ( val( r ), trunc<decltype( r )>( want ) );              \
			}                                                                  \
			++ops;                                                             \
		}                                                                    \
	}
#define ASSIGN( OP, PRE, EXPR )                                         \
	if constexpr( requires( L &l ) { l OP b; } ) {                         \
		constexpr bool exact = requires { static_cast<L &(*)( L &, R )>( &daw::operator OP ); }; \
		if( ( exact or fit ) and ( PRE ) ) {                                 \
			L l = a;                                                           \
			CHECK( &( l OP b ) == &l );                                        \
			CHECK_EQ( val( l ), trunc<L>( EXPR ) );                            \
			CHECK_EQ( val( b ), B );                                           \
			++ops;                                                             \
		}                                                                    \
	}

	template<typename L, typename R>
	void uint_pair( Src &s, unsigned &ops ) {
		if constexpr( is_uint<L> or is_uint<R> ) {
			auto A = trunc<L>( gen<u64>( s ) ), B = trunc<R>( s.chance( 1, 4 ) ? A : gen<u64>( s ) );
			L a = static_cast<L>( A );
			R b = static_cast<R>( B );
			s.note( [&] { return std::to_string( A ) + "/" + std::to_string( sizeof( L ) * 8 ) + ( is_uint<L> ? "e " : " " ) + std::to_string( B ) + "/" + std::to_string( sizeof( R ) * 8 ) + ( is_uint<R> ? "e" : "" ); } );
			if( sizeof( L ) != sizeof( R ) or edge<u64>( i128( A ) ) or B > A ) {
				s.nontrivial( );
			}
			auto w = sizeof( L ) * 8;
			// a builtin operand wider than the only matching overload is converted by the language first
			bool const fit = ( is_uint<L> or trunc<R>( A ) == A ) and ( is_uint<R> or trunc<L>( B ) == B );
			BIN( +, true, A + B )
			BIN( -, true, A - B )
			BIN( *, true, A *B )
			BIN( /, B != 0, A / B )
			BIN( |, true, A | B )
			BIN( &, true, A & B )
			BIN( ^, true, A ^ B )
			BIN( ==, true, A == B )
			BIN( !=, true, A != B )
			BIN( <, true, A < B )
			BIN( <=, true, A <= B )
			BIN( >, true, A > B )
			BIN( >=, true, A >= B )
			ASSIGN( +=, true, A + B )
			ASSIGN( -=, true, A - B )
			ASSIGN( *=, true, A *B )
			ASSIGN( /=, B != 0, A / B )
			ASSIGN( |=, true, A | B )
			ASSIGN( &=, true, A & B )
			ASSIGN( ^=, true, A ^ B )
			{ // shifts below the width
				u64 keep = B;
				B %= w;
				b = static_cast<R>( B );
				BIN( <<, true, A << B )
				BIN( >>, true, A >> B )
				ASSIGN( <<=, true, A << B )
				ASSIGN( >>=, true, A >> B )
				B = keep;
				b = static_cast<R>( B );
			}
		}
	}
	template<typename L>
	void uint_one( Src &s, unsigned &ops ) {
		auto A = trunc<L>( gen<u64>( s ) );
		L a = static_cast<L>( A );
		if constexpr( requires { ~a; } ) {
			CHECK_EQ( val( ~a ), trunc<decltype( ~a )>( ~A ) );
			++ops;
		}
		if constexpr( requires { +a; } ) {
			CHECK_EQ( val( +a ), A );
		}
		if constexpr( requires { -a; } ) {
			CHECK_EQ( val( -a ), trunc<decltype( -a )>( 0 - A ) );
			++ops;
		}
		if constexpr( requires { !a; } ) {
			CHECK_EQ( !a, A == 0 );
		}
		if constexpr( requires( L &l ) { ++l; } ) {
			L l = a;
			CHECK( &++l == &l );
			CHECK_EQ( val( l ), trunc<L>( A + 1 ) );
			++ops;
		}
		if constexpr( requires( L &l ) { l++; } ) {
			L l = a;
			CHECK_EQ( val( l++ ), A );
			CHECK_EQ( val( l ), trunc<L>( A + 1 ) );
			++ops;
		}
		if constexpr( requires( L &l ) { --l; } ) {
			L l = a;
			CHECK( &--l == &l );
			CHECK_EQ( val( l ), trunc<L>( A - 1 ) );
			++ops;
		}
		if constexpr( requires( L &l ) { l--; } ) {
			L l = a;
			CHECK_EQ( val( l-- ), A );
			CHECK_EQ( val( l ), trunc<L>( A - 1 ) );
			++ops;
		}
		// rotation, single bits and masks
		constexpr unsigned W = sizeof( L ) * 8;
		auto rot = [&]( unsigned k ) {
			k %= W;
			return k == 0 ? A : trunc<L>( ( A << k ) | ( A >> ( W - k ) ) );
		};
		auto const k = unsigned( s.draw( W ) );
		CHECK_EQ( val( rotate_left( a, k ) ), rot( k ) );
		CHECK_EQ( val( rotate_right( a, k ) ), rot( W - k ) );
		bool const state = s.boolean( );
		[&]<unsigned... N>( std::integer_sequence<unsigned, N...> ) {
			( (void)[&] {
				CHECK_EQ( val( daw::rotate_left<N>( a ) ), rot( N ) );
				CHECK_EQ( val( daw::rotate_right<N>( a ) ), rot( W - N ) );
				if constexpr( N < W ) {
					CHECK_EQ( val( daw::get_bit<N>( a ) ), ( A >> N ) & 1 );
					L l = a;
					daw::set_bit<N>( l, state );
					CHECK_EQ( val( l ), state ? ( A | ( u64( 1 ) << N ) ) : ( A & ~( u64( 1 ) << N ) ) );
				}
			}( ),
			  ... );
		}( std::integer_sequence<unsigned, 0, 1, 3, W / 2 - 1, W / 2, W - 3, W - 1, W>{ } );
		[&]<unsigned... N>( std::integer_sequence<unsigned, N...> ) {
			auto ones = []( unsigned n ) {
				return n == 64 ? ~u64( 0 ) : ( u64( 1 ) << n ) - 1;
			};
			if constexpr( W == 64 ) {
				( (void)[&] { CHECK_EQ( val( daw::mask_from_lsb64<N> ), ones( N ) ); }( ), ... );
			} else if constexpr( W == 32 ) {
				( (void)[&] { CHECK_EQ( val( daw::mask_from_lsb32<N> ), ones( N ) ); }( ), ... );
			} else if constexpr( W == 16 ) {
				( (void)[&] { CHECK_EQ( val( daw::mask_from_lsb16<N> ), ones( N ) ); }( ), ... );
			} else {
				( (void)[&] { CHECK_EQ( val( daw::mask_from_lsb8<N> ), ones( N ) ); }( ), ... );
			}
		}( std::integer_sequence<unsigned, 0, 1, 2, 5, W / 2, W - 1, W>{ } );
		// little endian bytes
		{
			Exact<unsigned char> buf( W / 8 );
			for( unsigned i = 0; i < W / 8; ++i ) {
				buf.data( )[i] = static_cast<unsigned char>( A >> ( 8 * i ) );
			}
			if constexpr( W == 64 ) {
				CHECK_EQ( val( daw::to_uint64_buffer( buf.data( ) ) ), A );
			} else if constexpr( W == 32 ) {
				CHECK_EQ( val( daw::to_uint32_buffer( reinterpret_cast<char const *>( buf.data( ) ) ) ), A );
			} else if constexpr( W == 16 ) {
				CHECK_EQ( val( daw::to_uint16_buffer( reinterpret_cast<signed char const *>( buf.data( ) ) ) ), A );
			}
		}
		using Lim = std::numeric_limits<L>;
		using Ref = std::numeric_limits<std::conditional_t<W == 64, std::uint64_t, std::conditional_t<W == 32, std::uint32_t, std::conditional_t<W == 16, std::uint16_t, std::uint8_t>>>>;
		CHECK( Lim::digits10 == Ref::digits10 and Lim::max_digits10 == Ref::max_digits10 and Lim::radix == Ref::radix and Lim::is_exact == Ref::is_exact and Lim::is_bounded == Ref::is_bounded and Lim::is_modulo == Ref::is_modulo and Lim::is_iec559 == Ref::is_iec559 );
		CHECK( Lim::min_exponent == 0 and Lim::max_exponent == 0 and Lim::min_exponent10 == 0 and Lim::max_exponent10 == 0 );
		CHECK( not Lim::has_infinity and not Lim::has_quiet_NaN and not Lim::has_signaling_NaN );
		CHECK( val( Lim::epsilon( ) ) == 0 and val( Lim::round_error( ) ) == 0 and val( Lim::infinity( ) ) == 0 and val( Lim::quiet_NaN( ) ) == 0 and val( Lim::denorm_min( ) ) == 0 );
		CHECK_EQ( val( Lim::max( ) ), trunc<L>( ~u64( 0 ) ) );
		CHECK_EQ( val( Lim::min( ) ), u64( 0 ) );
		CHECK_EQ( val( Lim::lowest( ) ), u64( 0 ) );
		CHECK( Lim::is_specialized and Lim::is_integer and not Lim::is_signed and Lim::digits == int( sizeof( L ) * 8 ) );
		std::ostringstream os;
		{
			using daw::operator<<;
			os << a;
		}
		CHECK_EQ( os.str( ), std::to_string( A ) );
		// conversions from every builtin width
		auto x = gen<u64>( s );
		CHECK_EQ( val( daw::to_uint64( x ) ), x );
		CHECK_EQ( val( daw::to_uint32( x ) ), trunc<daw::UInt32>( x ) );
		CHECK_EQ( val( daw::to_uint16( x ) ), trunc<daw::UInt16>( x ) );
		CHECK_EQ( val( daw::to_uint8( x ) ), trunc<daw::UInt8>( x ) );
		CHECK_EQ( val( daw::operator""_u64( x ) ), x );
		CHECK_EQ( val( daw::operator""_u32( trunc<daw::UInt32>( x ) ) ), trunc<daw::UInt32>( x ) );
		CHECK_EQ( val( daw::operator""_u16( trunc<daw::UInt16>( x ) ) ), trunc<daw::UInt16>( x ) );
		CHECK_EQ( val( daw::operator""_u8( trunc<daw::UInt8>( x ) ) ), trunc<daw::UInt8>( x ) );
		CHECK_STATIC( std::is_same_v<daw::UInt<8>, daw::UInt8> and std::is_same_v<daw::UInt<16>, daw::UInt16> and std::is_same_v<daw::UInt<32>, daw::UInt32> and std::is_same_v<daw::UInt<64>, daw::UInt64> );
	}
	template<typename L>
	unsigned uint_row( Src &s ) {
		unsigned ops = 0;
		switch( s.draw( 7 ) ) {
		case 0:
			uint_pair<L, daw::UInt64>( s, ops );
			break;
		case 1:
			uint_pair<L, daw::UInt32>( s, ops );
			break;
		case 2:
			uint_pair<L, daw::UInt16>( s, ops );
			break;
		case 3:
			uint_pair<L, daw::UInt8>( s, ops );
			break;
		case 4:
			uint_pair<L, std::uint64_t>( s, ops );
			break;
		case 5:
			uint_pair<L, std::uint32_t>( s, ops );
			break;
		case 6:
			uint_pair<L, std::uint16_t>( s, ops );
			break;
		default:
			uint_pair<L, std::uint8_t>( s, ops );
		}
		return ops;
	}
} // namespace
PROP( uint_binary, { } ) {
	unsigned ops = 0;
	switch( s.draw( 7 ) ) {
	case 0:
		ops = uint_row<daw::UInt64>( s );
		break;
	case 1:
		ops = uint_row<daw::UInt32>( s );
		break;
	case 2:
		ops = uint_row<daw::UInt16>( s );
		break;
	case 3:
		ops = uint_row<daw::UInt8>( s );
		break;
	case 4:
		ops = uint_row<std::uint64_t>( s );
		break;
	case 5:
		ops = uint_row<std::uint32_t>( s );
		break;
	case 6:
		ops = uint_row<std::uint16_t>( s );
		break;
	default:
		ops = uint_row<std::uint8_t>( s );
	}
	s.label( ops == 0 ? "no operators" : "operators" );
}
PROP( uint_unary, { } ) {
	unsigned ops = 0;
	s.nontrivial( );
	switch( s.draw( 3 ) ) {
	case 0:
		return uint_one<daw::UInt64>( s, ops );
	case 1:
		return uint_one<daw::UInt32>( s, ops );
	case 2:
		return uint_one<daw::UInt16>( s, ops );
	default:
		return uint_one<daw::UInt8>( s, ops );
	}
}

PROP( size_literals, { .cases = 2000 } ) {
	using namespace daw::size_literals;
	u64 v = s.draw( s.boolean( ) ? 5 : 16000 );
	if( v > 1 ) {
		s.nontrivial( );
	}
	u64 k = 1, d = 1;
	auto next = [&] {
		k *= 1024;
		d *= 1000;
	};
	next( );
	CHECK_EQ( u64( operator""_KB( v ) ), v * k );
	CHECK_EQ( u64( operator""_KiB( v ) ), v * d );
	next( );
	CHECK_EQ( u64( operator""_MB( v ) ), v * k );
	CHECK_EQ( u64( operator""_MiB( v ) ), v * d );
	next( );
	CHECK_EQ( u64( operator""_GB( v ) ), v * k );
	CHECK_EQ( u64( operator""_GiB( v ) ), v * d );
	next( );
	CHECK_EQ( u64( operator""_TB( v ) ), v * k );
	CHECK_EQ( u64( operator""_TiB( v ) ), v * d );
	next( );
	CHECK_EQ( u64( operator""_PB( v ) ), v * k );
	CHECK_EQ( u64( operator""_PiB( v ) ), v * d );
	if( v > 0 ) {
		using namespace daw::literals;
		CHECK_EQ( u64( daw::literals::operator""_N( v ) ), v );
	}
}
PROP( orderings, { .cases = 3000 } ) {
	int a = s.range( -3, 3 ), b = s.range( -3, 3 );
	double x = s.chance( 1, 5 ) ? __builtin_nan( "" ) : a, y = b;
	s.nontrivial( );
	auto so = a <=> b;
	CHECK_EQ( daw::equal_or_equivalent( so ), a == b );
	CHECK_EQ( daw::equal_or_equivalent( daw::order_to_enum( so ) ), a == b );
	CHECK( daw::order_to_enum( so ) == ( a < b ? daw::strong_ordering::less : a > b ? daw::strong_ordering::greater : daw::strong_ordering::equal ) );
	auto po = x <=> y;
	CHECK_EQ( daw::equal_or_equivalent( po ), x == y );
	CHECK( daw::order_to_enum( po ) == ( x < y ? daw::partial_ordering::less : x > y ? daw::partial_ordering::greater : x == y ? daw::partial_ordering::equivalent : daw::partial_ordering::unordered ) );
	std::weak_ordering wo = so;
	CHECK_EQ( daw::equal_or_equivalent( wo ), a == b );
	CHECK( daw::order_to_enum( wo ) == ( a < b ? daw::weak_ordering::less : a > b ? daw::weak_ordering::greater : daw::weak_ordering::equivalent ) );
}
PROP( fixed_cast, { .cases = 500 } ) {
	u64 v = s.integer<u64>( );
	s.nontrivial( );
	constexpr daw::fixed_cast<unsigned char, u64> fc{ };
	u64 *p = &v;
	auto *c = fc.template operator( )<unsigned char>( +p );
	unsigned char want[8];
	std::memcpy( want, &v, 8 );
	CHECK( std::memcmp( c, want, 8 ) == 0 );
	CHECK( fc.template operator( )<u64>( +c ) == p );
}
