// C13: number text.  Oracle: the text is read digit by digit into a 128 bit
// accumulator that sticks once it leaves the range of every tested type; a
// parser must return exactly that value, or report an error.
// nontrivial: at least two digits, or an error was due.
// pbt-scale: 8
#include "pbt.h"
#include "daw/daw_from_string.h"
#include "daw/daw_parse_to.h"
#include "daw/daw_parser_addons.h"
#include "daw/daw_parser_helper.h"
#include "daw/daw_parser_helper_sv.h"
#include "daw/daw_constant.h"
#include <charconv>
#include <cmath>
#include <cstring>
#include <limits>
#include <list>
using namespace pbt;

namespace {
	using I128 = __int128;
	constexpr I128 big = I128( 1 ) << 100;

	// -?[0-9]+
	bool denotes( std::string const &t, I128 &v ) {
		std::size_t i = 0;
		bool neg = false;
		if( not t.empty( ) and t[0] == '-' ) {
			neg = true;
			++i;
		}
		if( i == t.size( ) ) {
			return false;
		}
		v = 0;
		for( ; i < t.size( ); ++i ) {
			if( t[i] < '0' or t[i] > '9' ) {
				return false;
			}
			v = v * 10 + ( t[i] - '0' );
			if( v > big ) {
				v = big;
			}
		}
		if( neg ) {
			v = -v;
		}
		return true;
	}
	template<typename T>
	bool fits( I128 v ) {
		return v >= I128( std::numeric_limits<T>::min( ) ) and v <= I128( std::numeric_limits<T>::max( ) );
	}
	std::string dec( I128 v ) {
		bool neg = v < 0;
		std::string r;
		if( neg ) {
			v = -v;
		}
		do {
			r.insert( r.begin( ), char( '0' + int( v % 10 ) ) );
			v /= 10;
		} while( v != 0 );
		return neg ? "-" + r : r;
	}
	char junk( Src &s ) {
		switch( s.draw( 3 ) ) {
		case 0:
			return s.pick<char>( { '/', ':', '+', '-', '.', 'e', 'x', 'a', 'F', '_' } );
		case 1:
			return s.pick<char>( { ' ', '\t', '\n', '\0' } );
		default:
			return char( s.draw( 255 ) );
		}
	}
	template<typename T>
	std::string gen_text( Src &s ) {
		std::string t;
		switch( s.draw( 6 ) ) {
		case 0: { // any value of the type
			t = dec( I128( s.integer<T>( ) ) );
			break;
		}
		case 1: { // around the limits
			I128 v = s.boolean( ) ? I128( std::numeric_limits<T>::max( ) ) : I128( std::numeric_limits<T>::min( ) );
			t = dec( v + I128( s.draw( 24 ) ) - 12 );
			break;
		}
		case 2: { // a limit with one more or one fewer digit, or another digit
			I128 v = s.boolean( ) ? I128( std::numeric_limits<T>::max( ) ) : I128( std::numeric_limits<T>::min( ) );
			t = dec( v );
			switch( s.draw( 2 ) ) {
			case 0:
				t += char( '0' + s.draw( 9 ) );
				break;
			case 1:
				t.pop_back( );
				break;
			default: {
				std::size_t i = s.below( t.size( ) );
				t[i] = char( '0' + s.draw( 9 ) );
			}
			}
			break;
		}
		case 3: { // digits
			if( s.boolean( ) ) {
				t = "-";
			}
			std::size_t n = s.len( 45 );
			for( std::size_t i = 0; i < n; ++i ) {
				t += char( '0' + s.draw( 9 ) );
			}
			break;
		}
		case 4: { // leading zeros
			I128 v = I128( s.integer<T>( ) );
			t = dec( v < 0 ? -v : v );
			t.insert( 0, std::string( s.len( 30 ), '0' ) );
			if( v < 0 ) {
				t.insert( 0, "-" );
			}
			break;
		}
		case 5: { // damaged
			t = dec( I128( s.integer<T>( ) ) );
			std::size_t i = s.below( t.size( ) + 1 );
			t.insert( t.begin( ) + long( i ), junk( s ) );
			break;
		}
		default: {
			std::size_t n = s.len( 6 );
			for( std::size_t i = 0; i < n; ++i ) {
				t += s.boolean( ) ? char( '0' + s.draw( 9 ) ) : junk( s );
			}
		}
		}
		return t;
	}
	std::string show( std::string const &t ) {
		std::string r = "\"";
		for( char c : t ) {
			if( c >= 0x20 and c < 0x7f ) {
				r += c;
			} else {
				char b[8];
				std::snprintf( b, sizeof b, "\\x%02x", unsigned( (unsigned char)c ) );
				r += b;
			}
		}
		return r + "\"";
	}
	template<typename T>
	void note( Src &s, std::string const &t ) {
		s.note( [=] {
			return std::string( std::is_signed_v<T> ? "i" : "u" ) + std::to_string( sizeof( T ) * 8 ) + " " + show( t );
		} );
	}
	enum class Got { value, empty, bad, range, other };

	// daw::parser::converters through parse_to and friends
	template<typename T, typename F>
	Got run_conv( F f, T &out ) {
		try {
			out = f( );
			return Got::value;
		} catch( daw::parser::empty_input_exception const & ) {
			return Got::empty;
		} catch( daw::parser::numeric_overflow_exception const & ) {
			return Got::range;
		} catch( daw::parser::invalid_input_exception const & ) {
			return Got::bad;
		}
	}
	// daw::parser::parse_int
	template<typename T, typename F>
	Got run_helper( F f, T &out ) {
		try {
			out = f( );
			return Got::value;
		} catch( daw::parser::ParserEmptyException const & ) {
			return Got::empty;
		} catch( daw::parser::ParserOutOfRangeException const & ) {
			return Got::range;
		} catch( daw::parser::ParserException const & ) {
			return Got::bad;
		}
	}

	template<typename T>
	void conv_case( Src &s ) {
		std::string const t = gen_text<T>( s );
		note<T>( s, t );
		I128 want = 0;
		bool const num = denotes( t, want );
		bool const ok = num and fits<T>( want ) and not( std::is_unsigned_v<T> and t[0] == '-' );
		if( t.size( ) > 1 or not ok ) {
			s.nontrivial( );
		}
		s.label( ok ? "value" : num ? "out of range" : t.empty( ) ? "empty" : "not a number" );
		Exact<char> buf = Exact<char>::from( t );
		daw::string_view sv( buf.data( ), t.size( ) );
		T got{};
		Got r{};
		switch( s.draw( 3 ) ) {
		case 0:
			r = run_conv<T>( [&] { return daw::parser::converters::parse_to_value( sv, daw::tag<T> ); }, got );
			break;
		case 1:
			r = run_conv<T>( [&] { return std::get<0>( daw::parser::parse_to<T>( sv, ";" ) ); }, got );
			if( t.find( ';' ) != std::string::npos ) {
				return;
			}
			break;
		case 2:
			r = run_conv<T>( [&] { return daw::apply_string<T>( []( T v ) { return v; }, sv, ";" ); }, got );
			if( t.find( ';' ) != std::string::npos ) {
				return;
			}
			break;
		default:
			struct X {
				T v;
			};
			r = run_conv<T>( [&] { return daw::construct_from<X, T>( sv, ";" ).v; }, got );
			if( t.find( ';' ) != std::string::npos ) {
				return;
			}
		}
		if( ok ) {
			CHECK( r == Got::value );
			CHECK_EQ( dec( got ), dec( want ) );
		} else {
			CHECK( r != Got::value );
			if( t.empty( ) ) {
				CHECK( r == Got::empty );
			} else if( num and t[0] != '-' ) {
				CHECK( r == Got::range );
			}
		}
	}

	template<typename T>
	void helper_case( Src &s ) {
		std::string const t = gen_text<T>( s );
		note<T>( s, t );
		bool const uns = s.boolean( );
		I128 want = 0;
		bool const num = denotes( t, want );
		bool const minus = not t.empty( ) and t[0] == '-';
		bool const ok = num and fits<T>( want ) and not( minus and ( uns or std::is_unsigned_v<T> ) );
		if( t.size( ) > 1 or not ok ) {
			s.nontrivial( );
		}
		s.label( ok ? "value" : num ? "out of range" : t.empty( ) ? "empty" : "not a number" );
		Exact<char> buf = Exact<char>::from( t );
		char const *f = buf.data( );
		char const *l = f + t.size( );
		std::list<char> lst( f, l );
		namespace P = daw::parser;
		daw::string_view sv( f, t.size( ) );
		T got{};
		Got r{};
		auto way = s.draw( 4 );
		switch( way ) {
		case 0:
			r = run_helper<T>( [&] { return uns ? P::parse_unsigned_int<T>( f, l ) : P::parse_int<T>( f, l ); }, got );
			break;
		case 1:
			r = run_helper<T>(
			  [&] {
				  T v = T( 77 );
				  if( uns ) {
					  P::parse_unsigned_int( lst.begin( ), lst.end( ), v );
				  } else {
					  P::parse_int( lst.begin( ), lst.end( ), v );
				  }
				  return v;
			  },
			  got );
			break;
		case 2:
			r = run_helper<T>( [&] { return uns ? P::parse_unsigned_int<T>( sv ) : P::parse_int<T>( sv ); }, got );
			break;
		case 3: {
			std::u16string w( t.begin( ), t.end( ) );
			bool ascii = true;
			for( char c : t ) {
				ascii = ascii and c >= 0;
			}
			if( not ascii ) {
				return;
			}
			std::wstring ww( t.begin( ), t.end( ) );
			std::string nul = t;
			r = run_helper<T>( [&] { return uns ? P::parse_unsigned_int<T>( nul.begin( ), nul.end( ) ) : P::parse_int<T>( nul.begin( ), nul.end( ) ); }, got );
			break;
		}
		default:
			// a zero terminated text
			if( not uns or t.find( '\0' ) != std::string::npos ) {
				return;
			}
			Exact<char> z = Exact<char>::from( t + std::string( 1, '\0' ) );
			r = run_helper<T>( [&] { return P::parse_unsigned_int<T>( daw::not_null<char const *>( z.data( ) ) ); }, got );
		}
		if( ok ) {
			CHECK( r == Got::value );
			CHECK_EQ( dec( got ), dec( want ) );
		} else {
			CHECK( r != Got::value );
			if( t.empty( ) ) {
				CHECK( r == Got::empty );
			} else if( num ) {
				CHECK( r == Got::range );
			}
		}
	}

	// daw::from_string: the number at the start of the text, as std::from_chars reads it
	template<typename T>
	void from_case( Src &s ) {
		std::string const t = gen_text<T>( s );
		note<T>( s, t );
		std::size_t n = 0;
		if( std::is_signed_v<T> and not t.empty( ) and t[0] == '-' ) {
			n = 1;
		}
		while( n < t.size( ) and t[n] >= '0' and t[n] <= '9' ) {
			++n;
		}
		std::string head = t.substr( 0, n );
		I128 want = 0;
		bool const ok = denotes( head, want ) and fits<T>( want );
		if( t.size( ) > 1 or not ok ) {
			s.nontrivial( );
		}
		s.label( ok ? ( n == t.size( ) ? "value" : "value then junk" ) : "nothing" );
		Exact<char> buf = Exact<char>::from( t );
		auto got = daw::from_string( daw::tag<T>, daw::string_view( buf.data( ), t.size( ) ) );
		CHECK_EQ( got.has_value( ), ok );
		if( ok ) {
			CHECK_EQ( dec( *got ), dec( want ) );
		}
	}

	template<template<typename> class F>
	void each( Src &s ) {
		switch( s.draw( 9 ) ) {
		case 0:
			return F<signed char>{}( s );
		case 1:
			return F<unsigned char>{}( s );
		case 2:
			return F<short>{}( s );
		case 3:
			return F<unsigned short>{}( s );
		case 4:
			return F<int>{}( s );
		case 5:
			return F<unsigned>{}( s );
		case 6:
			return F<long>{}( s );
		case 7:
			return F<unsigned long>{}( s );
		case 8:
			return F<long long>{}( s );
		default:
			return F<unsigned long long>{}( s );
		}
	}
	template<typename T>
	struct FConv {
		void operator( )( Src &s ) {
			conv_case<T>( s );
		}
	};
	template<typename T>
	struct FHelp {
		void operator( )( Src &s ) {
			helper_case<T>( s );
		}
	};
	template<typename T>
	struct FFrom {
		void operator( )( Src &s ) {
			from_case<T>( s );
		}
	};
	template<typename T>
	T gen_float( Src &s ) {
		for( ;; ) {
			T v{};
			switch( s.draw( 3 ) ) {
			case 0:
				v = T( s.integer<int>( ) );
				break;
			case 1:
				v = T( s.integer<int>( ) ) / T( 1 + s.draw( 9999 ) );
				break;
			case 2:
				v = std::ldexp( T( s.integer<int>( ) ), int( s.draw( 200 ) ) - 100 );
				break;
			default: {
				std::uint64_t b = s.integer<std::uint64_t>( );
				if constexpr( sizeof( T ) == 4 ) {
					std::uint32_t c = std::uint32_t( b );
					std::memcpy( &v, &c, 4 );
				} else if constexpr( sizeof( T ) == 8 ) {
					std::memcpy( &v, &b, 8 );
				} else {
					double d;
					std::memcpy( &d, &b, 8 );
					v = d;
				}
			}
			}
			if( std::isfinite( v ) ) {
				return v;
			}
			v = T( 1.5 );
			return v;
		}
	}
	template<typename T>
	struct FFloat {
		void operator( )( Src &s ) {
			T const v = gen_float<T>( s );
			char b[200];
			int n = s.boolean( ) ? std::snprintf( b, sizeof b, "%.*Lg", std::numeric_limits<T>::max_digits10, (long double)v )
			                     : std::snprintf( b, sizeof b, "%.*Le", std::numeric_limits<T>::max_digits10, (long double)v );
			std::string t( b, std::size_t( n ) );
			s.note( [=] { return t; } );
			s.nontrivial( );
			Exact<char> buf = Exact<char>::from( t );
			daw::string_view sv( buf.data( ), t.size( ) );
			switch( s.draw( 2 ) ) {
			case 0:
				CHECK( std::get<0>( daw::parser::parse_to<T>( sv, ";" ) ) == v );
				break;
			case 1:
				CHECK( daw::parser::converters::parse_to_value( sv, daw::tag<T> ) == v );
				break;
			default: {
				auto r = daw::from_string( daw::tag<T>, sv );
				CHECK( r.has_value( ) );
				CHECK( *r == v );
			}
			}
		}
	};


	constexpr bool literals( ) {
		using namespace daw;
		return true;
	}
} // namespace

PROP( converters, { .cases = 40000 } ) {
	CHECK_STATIC( daw::parser::parse_int<int>( daw::string_view( "-2147483648" ) ) == std::numeric_limits<int>::min( ) );
	CHECK_STATIC( std::get<0>( daw::parser::parse_to<short>( "-32768", "," ) ) == -32768 );
	CHECK_STATIC( literals( ) );
	each<FConv>( s );
}
PROP( parser_ints, { .cases = 40000 } ) {
	each<FHelp>( s );
}
PROP( from_string, { .cases = 30000 } ) {
	each<FFrom>( s );
}
PROP( floats, { .cases = 15000 } ) {
	switch( s.draw( 2 ) ) {
	case 0:
		return FFloat<float>{}( s );
	case 1:
		return FFloat<double>{}( s );
	default:
		return FFloat<long double>{}( s );
	}
}
// every value of the narrow types goes out and comes back
PROP( narrow_round_trip, ( { .cases = 1, .exhaustive = true } ) ) {
	s.nontrivial( );
	for( int v = -40000; v <= 70000; ++v ) {
		std::string t = std::to_string( v );
		daw::string_view sv( t.data( ), t.size( ) );
		auto one = [&]<typename T>( daw::tag_t<T> ) {
			bool fit = v >= std::numeric_limits<T>::min( ) and v <= std::numeric_limits<T>::max( );
			if( fit ) {
				CHECK_EQ( int( daw::parser::converters::parse_to_value( sv, daw::tag<T> ) ), v );
				CHECK_EQ( int( daw::parser::parse_int<T>( sv ) ), v );
				CHECK_EQ( int( *daw::from_string( daw::tag<T>, sv ) ), v );
			} else {
				CHECK( not daw::from_string( daw::tag<T>, sv ).has_value( ) );
				if( ( v & 15 ) == 0 or v == -129 or v == 128 or v == 256 or v == 32768 or v == -32769 or v == 65536 ) {
					T x{};
					CHECK( run_conv<T>( [&] { return daw::parser::converters::parse_to_value( sv, daw::tag<T> ); }, x ) != Got::value );
					CHECK( run_helper<T>( [&] { return daw::parser::parse_int<T>( sv ); }, x ) != Got::value );
				}
			}
		};
		one( daw::tag<signed char> );
		one( daw::tag<unsigned char> );
		one( daw::tag<short> );
		one( daw::tag<unsigned short> );
	}
}
// character classes, over every code point of every character type
PROP( classes, ( { .cases = 1, .exhaustive = true } ) ) {
	s.nontrivial( );
	namespace P = daw::parser;
	auto one = []<typename C>( C c ) {
		auto u = std::int64_t( c );
		bool d = u >= '0' and u <= '9';
		bool a = ( u >= 'a' and u <= 'z' ) or ( u >= 'A' and u <= 'Z' );
		bool h = d or ( u >= 'a' and u <= 'f' ) or ( u >= 'A' and u <= 'F' );
		if( P::is_number( c ) != d or P::is_alpha( C( c ) ) != a or P::is_hex( c ) != h or P::is_alphanumeric( C( c ) ) != ( a or d ) ) {
			CHECK_EQ( std::int64_t( c ), std::int64_t( -1000 ) );
		}
	};
	for( int c = -128; c < 128; ++c ) {
		one( char( c ) );
		one( (signed char)c );
	}
	for( int c = 0; c < 65536; ++c ) {
		one( char16_t( c ) );
		if( c < 256 ) {
			one( (unsigned char)c );
			one( char8_t( c ) );
		}
	}
	for( char32_t c = 0; c < 0x110000; ++c ) {
		one( c );
	}
}
// find_number: the first number in a text
PROP( find_number, { .cases = 20000 } ) {
	std::string pre, num, post;
	for( std::size_t n = s.len( 6 ); n > 0; --n ) {
		char c = junk( s );
		if( c != '-' and not( c >= '0' and c <= '9' ) ) {
			pre += c;
		}
	}
	if( s.boolean( ) ) {
		num += '-';
	}
	for( std::size_t n = 1 + s.len( 5 ); n > 0; --n ) {
		num += char( '0' + s.draw( 9 ) );
	}
	bool dot = s.boolean( );
	if( dot ) {
		num += '.';
		for( std::size_t n = 1 + s.len( 5 ); n > 0; --n ) {
			num += char( '0' + s.draw( 9 ) );
		}
	}
	if( s.boolean( ) ) {
		char c = junk( s );
		if( not( c >= '0' and c <= '9' ) and ( dot or c != '.' ) ) {
			post += c;
			for( std::size_t n = s.len( 4 ); n > 0; --n ) {
				post += s.boolean( ) ? junk( s ) : char( '0' + s.draw( 9 ) );
			}
		}
	}
	std::string t = pre + num + post;
	s.note( [=] { return show( t ); } );
	s.nontrivial( );
	Exact<char> buf = Exact<char>::from( t );
	char const *f = buf.data( );
	auto r = daw::parser::find_number( f, f + t.size( ) );
	CHECK_EQ( std::size_t( r.first - f ), pre.size( ) );
	CHECK_EQ( std::size_t( r.last - f ), pre.size( ) + num.size( ) );
}
