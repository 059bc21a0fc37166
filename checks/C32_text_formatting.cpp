// C32: text formatting and the small string utilities.  Oracle: std::format of
// the single elements put together by hand, or a direct scan of the text.
// nontrivial: a non-empty text with at least one replaced, joined or changed
// part.
// pbt-scale: 2
// pbt-parts: 2
#include "pbt.h"
#include <array>
#include <cstdio>
#include <cstring>
#include <deque>
#include <forward_list>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <span>
#include <sstream>
#include "daw/daw_ascii.h"
#include "daw/daw_formatters.h"
#include "daw/daw_print.h"
#include "daw/daw_print_ostream.h"
#include "daw/daw_parse_to.h"
#include "daw/daw_string_concat.h"
#include "daw/daw_utility.h"
#include "daw/deprecated/daw_string.h"
using namespace pbt;

namespace {
	std::string esc( std::string_view t ) {
		std::string r = "\"";
		for( char c : t ) {
			if( c >= 0x20 and c < 0x7f ) {
				r += c;
			} else {
				char b[8];
				std::snprintf( b, sizeof b, "\\x%02x", unsigned( (unsigned char)c ) );
				r += b;
			}
		}
		return r + "\"";
	}
	template<typename... Args>
	std::string vf( std::string_view f, Args const &...args ) {
		return std::vformat( f, std::make_format_args( args... ) );
	}
	std::string gen_text( Src &s, std::size_t max, std::initializer_list<char> cs ) {
		std::string r;
		for( std::size_t n = s.longlen( max ); n > 0; --n ) {
			r += s.pick<char>( cs );
		}
		return r;
	}
	std::string gen_str( Src &s, std::size_t max = 8 ) {
		return gen_text( s, max, { 'a', 'B', ' ', '"', '{', '}', ',', '[', '\xc3', '\n', '7' } );
	}
	/// a NUL terminated piece for separators and brackets
	std::string gen_sep( Src &s ) {
		return gen_text( s, 4, { ',', ' ', ';', '{', '}', '"', '[', '\t', 'x' } );
	}

#if PBT_PART == 0
	// ---- format specifications ---------------------------------------------
	enum Class { Int, Dbl, Str, Bool, Char };
	std::string gen_spec( Src &s, Class k ) {
		std::string r;
		if( s.chance( 1, 6 ) ) {
			return r;
		}
		if( s.boolean( ) ) {
			if( s.boolean( ) ) {
				r += s.pick<char>( { ' ', '*', '"', '0', 'x', '<', ':', ',', '[', '\'', '.' } );
			}
			r += s.pick<char>( { '<', '>', '^' } );
		}
		if( ( k == Int or k == Dbl ) and s.chance( 1, 3 ) ) {
			r += s.pick<char>( { '+', '-', ' ' } );
		}
		if( ( k == Int or k == Dbl ) and s.chance( 1, 4 ) ) {
			r += '#';
		}
		if( ( k == Int or k == Dbl ) and s.chance( 1, 4 ) ) {
			r += '0';
		}
		if( s.boolean( ) ) {
			r += std::to_string( s.range<int>( 1, s.chance( 1, 20 ) ? 120 : 14 ) );
		}
		if( ( k == Dbl or k == Str ) and s.chance( 1, 3 ) ) {
			r += "." + std::to_string( s.range<int>( 0, 9 ) );
		}
		if( s.chance( 1, 3 ) ) {
			switch( k ) {
			case Int:
				r += s.pick<char>( { 'd', 'x', 'X', 'b', 'B', 'o' } );
				break;
			case Dbl:
				r += s.pick<char>( { 'e', 'f', 'g', 'a', 'E', 'G' } );
				break;
			case Str:
				r += 's';
				break;
			case Bool:
				r += 's';
				break;
			case Char:
				r += 'c';
				break;
			}
		}
		return r;
	}
	struct Brackets {
		int kind = 0; // 0 default, 1 separator, 2 all
		std::string sep = ",", left = "[", right = "]";
	};
	Brackets gen_brackets( Src &s ) {
		Brackets b;
		b.kind = int( s.draw( 2 ) );
		if( b.kind >= 1 ) {
			b.sep = gen_sep( s );
		}
		if( b.kind == 2 ) {
			b.left = gen_sep( s );
			b.right = gen_sep( s );
		}
		return b;
	}
	std::string wrap( std::vector<std::string> const &parts, Brackets const &b ) {
		std::string r = b.left;
		for( std::size_t i = 0; i < parts.size( ); ++i ) {
			r += ( i ? b.sep : "" ) + parts[i];
		}
		return r + b.right;
	}
	template<typename T>
	std::string one( std::string const &spec, T const &v ) {
		if constexpr( std::is_convertible_v<T const &, std::string_view> ) {
			return std::string( v ); // a range of characters is its own text
		} else if constexpr( daw::Range<T> ) {
			std::vector<std::string> p;
			for( auto const &e : v ) {
				p.push_back( one( spec, e ) );
			}
			return wrap( p, {} );
		} else if constexpr( daw::is_tuple_like_v<T> ) {
			std::vector<std::string> p;
			std::apply( [&]( auto const &...e ) { ( p.push_back( vf( "{:" + spec + "}", e ) ), ... ); }, v );
			return wrap( p, {} );
		} else {
			return vf( "{:" + spec + "}", v );
		}
	}
	/// formats `arg` through every way of reaching the formatter
	template<typename A>
	void check_formatted( Src &s, A const &arg, std::string const &spec, std::string const &expect ) {
		s.note( [&] { return "spec " + esc( spec ) + " expect " + esc( expect ); } );
		auto const colon = spec.empty( ) and s.boolean( ) ? std::string( ) : ":" + spec;
		switch( s.draw( 5 ) ) {
		case 0: {
			auto got = vf( "{" + colon + "}", arg );
			CHECK_EQ( esc( got ), esc( expect ) );
			break;
		}
		case 1: {
			auto got = vf( "a{{{" + colon + "}}}b{}", arg, 5 );
			CHECK_EQ( esc( got ), esc( "a{" + expect + "}b5" ) );
			break;
		}
		case 2: {
			auto got = vf( "{1}-{0" + colon + "}-{1:>3}-{0" + colon + "}", arg, 'q' );
			CHECK_EQ( esc( got ), esc( "q-" + expect + "-  q-" + expect ) );
			break;
		}
		case 3: {
			auto const n = s.below( expect.size( ) + 3 );
			std::string buf( n, '#' );
			// format_to_n needs a literal; go through formatted size and a
			// bounded copy instead
			auto full = Exact<char>( expect.size( ) );
			auto last = std::vformat_to( full.begin( ), "{" + colon + "}", std::make_format_args( arg ) );
			CHECK( last == full.end( ) );
			CHECK_EQ( esc( std::string( full.begin( ), full.end( ) ) ), esc( expect ) );
			break;
		}
		case 4: {
			if( spec.empty( ) ) {
				CHECK_EQ( std::formatted_size( "{}", arg ), expect.size( ) );
				auto const n = s.below( expect.size( ) + 3 );
				auto buf = Exact<char>( n );
				auto r = std::format_to_n( buf.begin( ), std::ptrdiff_t( n ), "{}", arg );
				CHECK_EQ( std::size_t( r.size ), expect.size( ) );
				auto const w = std::min( n, expect.size( ) );
				CHECK_EQ( esc( std::string( buf.begin( ), r.out ) ), esc( expect.substr( 0, w ) ) );
			} else {
				std::string bad = "{:" + spec;
				bool thrown = false;
				try {
					(void)vf( bad, arg );
				} catch( std::format_error const & ) { thrown = true; }
				CHECK( thrown );
			}
			break;
		}
		default: {
			// what print writes
			char *mem = nullptr;
			std::size_t sz = 0;
			FILE *f = open_memstream( &mem, &sz );
			std::string got;
			daw::vprint( f, "<{" + colon + "}>", arg );
			std::fclose( f );
			got.assign( mem, sz );
			std::free( mem );
			CHECK_EQ( esc( got ), esc( "<" + expect + ">" ) );
			break;
		}
		}
	}
	template<typename C>
	void check_range( Src &s, C const &c, std::string const &spec ) {
		Brackets b = gen_brackets( s );
		std::vector<std::string> parts;
		for( auto const &e : c ) {
			parts.push_back( one( spec, e ) );
		}
		auto const expect = wrap( parts, b );
		if( parts.size( ) > 1 or not spec.empty( ) ) {
			s.nontrivial( );
		}
		switch( b.kind ) {
		case 0:
			if( s.boolean( ) ) {
				check_formatted( s, daw::fmt_any( c ), spec, expect );
			} else {
				check_formatted( s, daw::fmt_range( c ), spec, expect );
			}
			break;
		case 1:
			check_formatted( s, daw::fmt_range( c, b.sep.c_str( ) ), spec, expect );
			break;
		default:
			check_formatted( s, daw::fmt_range( c, b.sep.c_str( ), b.left.c_str( ), b.right.c_str( ) ), spec, expect );
		}
	}
	template<typename T>
	void check_tuple( Src &s, T const &t, std::string const &spec ) {
		Brackets b = gen_brackets( s );
		std::vector<std::string> parts;
		std::apply( [&]( auto const &...e ) { ( parts.push_back( vf( "{:" + spec + "}", e ) ), ... ); }, t );
		auto const expect = wrap( parts, b );
		s.nontrivial( );
		switch( b.kind ) {
		case 0:
			check_formatted( s, daw::fmt_tuple( t ), spec, expect );
			break;
		case 1:
			check_formatted( s, daw::fmt_tuple( t, b.sep.c_str( ) ), spec, expect );
			break;
		default:
			check_formatted( s, daw::fmt_tuple( t, b.sep.c_str( ), b.left.c_str( ), b.right.c_str( ) ), spec, expect );
		}
	}
	double gen_dbl( Src &s ) {
		return s.chance( 1, 5 ) ? s.pick<double>( { 0.0, -0.0, 1e300, 1.0 / 0.0, 2.5 } )
		                        : double( s.range<int>( -100000, 100000 ) ) / 16.0;
	}
	std::vector<int> ints( Src &s, std::size_t max = 6 ) {
		std::vector<int> v;
		for( std::size_t n = s.longlen( max ); n > 0; --n ) {
			v.push_back( s.integer<int>( ) );
		}
		return v;
	}
#endif
} // namespace

#if PBT_PART == 0
PROP( fmt_range_numbers, {} ) {
	auto v = ints( s );
	switch( s.draw( 8 ) ) {
	case 0:
		return check_range( s, v, gen_spec( s, Int ) );
	case 1:
		return check_range( s, std::list<int>( v.begin( ), v.end( ) ), gen_spec( s, Int ) );
	case 2:
		return check_range( s, std::set<int>( v.begin( ), v.end( ) ), gen_spec( s, Int ) );
	case 3:
		return check_range( s, std::forward_list<int>( v.begin( ), v.end( ) ), gen_spec( s, Int ) );
	case 4:
		return check_range( s, std::array<int, 3>{ s.integer<int>( ), 0, -1 }, gen_spec( s, Int ) );
	case 5: {
		std::vector<std::uint8_t> b;
		std::vector<std::int64_t> w;
		for( int e : v ) {
			b.push_back( std::uint8_t( e ) );
			w.push_back( std::int64_t( e ) << 31 );
		}
		auto sp = gen_spec( s, Int );
		check_range( s, b, sp );
		return check_range( s, w, sp );
	}
	case 6: {
		std::vector<double> d;
		std::deque<float> f;
		for( std::size_t n = s.len( 5 ); n > 0; --n ) {
			d.push_back( gen_dbl( s ) );
			f.push_back( float( d.back( ) ) );
		}
		auto sp = gen_spec( s, Dbl );
		check_range( s, d, sp );
		return check_range( s, f, sp );
	}
	case 7: {
		std::vector<bool> b;
		for( int e : v ) {
			b.push_back( e & 1 );
		}
		return check_range( s, b, gen_spec( s, Bool ) );
	}
	default:
		return check_range( s, std::span<int const>( v.data( ), v.size( ) ), gen_spec( s, Int ) );
	}
}
PROP( fmt_range_nested, {} ) {
	switch( s.draw( 6 ) ) {
	case 0: {
		std::vector<std::vector<int>> vv;
		for( std::size_t n = s.len( 4 ); n > 0; --n ) {
			vv.push_back( ints( s, 4 ) );
		}
		return check_range( s, vv, gen_spec( s, Int ) );
	}
	case 1: {
		std::vector<std::list<std::array<int, 2>>> vv;
		for( std::size_t n = s.len( 3 ); n > 0; --n ) {
			vv.emplace_back( );
			for( std::size_t m = s.len( 3 ); m > 0; --m ) {
				vv.back( ).push_back( { s.integer<int>( ), s.integer<int>( ) } );
			}
		}
		return check_range( s, vv, gen_spec( s, Int ) );
	}
	case 2: {
		std::map<int, int> m;
		for( std::size_t n = s.len( 5 ); n > 0; --n ) {
			m[s.range<int>( -20, 20 )] = s.integer<int>( );
		}
		return check_range( s, m, gen_spec( s, Int ) );
	}
	case 3: {
		std::map<int, std::string> m;
		for( std::size_t n = s.len( 5 ); n > 0; --n ) {
			m[s.range<int>( -20, 20 )] = gen_str( s );
		}
		std::string w = s.boolean( ) ? "" : std::to_string( s.range<int>( 1, 12 ) );
		return check_range( s, m, w );
	}
	case 4: {
		std::vector<std::tuple<int, std::int64_t, std::uint8_t>> v;
		for( std::size_t n = s.len( 5 ); n > 0; --n ) {
			v.emplace_back( s.integer<int>( ), s.integer<std::int64_t>( ), s.integer<std::uint8_t>( ) );
		}
		return check_range( s, v, gen_spec( s, Int ) );
	}
	case 5: {
		std::vector<std::string> v;
		std::vector<std::string_view> w;
		for( std::size_t n = s.len( 5 ); n > 0; --n ) {
			v.push_back( gen_str( s ) );
		}
		for( auto const &e : v ) {
			w.push_back( e );
		}
		check_range( s, v, "" );
		return check_range( s, w, "" );
	}
	default: {
		// characters are a text
		auto t = gen_str( s );
		std::vector<char> v( t.begin( ), t.end( ) );
		if( not t.empty( ) ) {
			s.nontrivial( );
		}
		check_formatted( s, daw::fmt_range( t ), "", t );
		check_formatted( s, daw::fmt_range( v ), "", t );
	}
	}
}
PROP( fmt_tuples, {} ) {
	switch( s.draw( 4 ) ) {
	case 0:
		return check_tuple( s, std::tuple<int, std::int64_t, std::uint8_t, unsigned>( s.integer<int>( ), s.integer<std::int64_t>( ), s.integer<std::uint8_t>( ), s.integer<unsigned>( ) ), gen_spec( s, Int ) );
	case 1:
		return check_tuple( s, std::pair<double, float>( gen_dbl( s ), float( gen_dbl( s ) ) ), gen_spec( s, Dbl ) );
	case 2:
		return check_tuple( s, std::tuple<std::string>( gen_str( s ) ), gen_spec( s, Str ) );
	case 3: {
		std::string w = s.boolean( ) ? "" : std::to_string( s.range<int>( 1, 30 ) );
		return check_tuple( s, std::tuple<int, std::string, double, char, bool, std::string_view>( s.integer<int>( ), gen_str( s ), gen_dbl( s ), 'c', s.boolean( ), "sv" ), w );
	}
	default: {
		auto const t = std::tuple<int, bool>( s.integer<int>( ), s.boolean( ) );
		auto const p = std::pair<int, int>( s.integer<int>( ), 2 );
		s.nontrivial( );
		check_formatted( s, daw::fmt_any( p ), "", vf( "[{},2]", p.first ) );
		check_formatted( s, daw::fmt_any( t ), "", vf( "[{},{}]", std::get<0>( t ), std::get<1>( t ) ) );
		int x = s.integer<int>( );
		CHECK( &daw::fmt_any( x ) == &x );
		auto const sp = gen_spec( s, Int );
		CHECK_EQ( esc( vf( "{:" + sp + "}", daw::fmt_any( x ) ) ), esc( vf( "{:" + sp + "}", x ) ) );
	}
	}
}
PROP( fmt_string_view, {} ) {
	auto t = gen_str( s, 12 );
	auto e = Exact<char>::from( t );
	auto const sv = daw::string_view( e.begin( ), t.size( ) );
	auto const sp = gen_spec( s, Str );
	if( not t.empty( ) and not sp.empty( ) ) {
		s.nontrivial( );
	}
	check_formatted( s, sv, sp, vf( "{:" + sp + "}", std::string_view( t ) ) );
	std::wstring wt( t.begin( ), t.end( ) );
	auto const wv = daw::basic_string_view<wchar_t>( wt.data( ), wt.size( ) );
	CHECK( std::format( L"<{:*>9}>", wv ) == std::format( L"<{:*>9}>", std::wstring_view( wt ) ) );
}

// ---- printing ---------------------------------------------------------------
namespace {
	template<typename F>
	std::string capture_file( F f ) {
		char *mem = nullptr;
		std::size_t sz = 0;
		FILE *o = open_memstream( &mem, &sz );
		f( o );
		std::fclose( o );
		std::string r( mem, sz );
		std::free( mem );
		return r;
	}
	template<typename F>
	std::string capture_stdout( F f ) {
		return capture_file( [&]( FILE *o ) {
			FILE *old = stdout;
			stdout = o;
			try {
				f( );
			} catch( ... ) {
				stdout = old;
				throw;
			}
			stdout = old;
		} );
	}
	template<typename F>
	std::string capture_log( F f ) {
		std::ostringstream o;
		auto *old = std::clog.rdbuf( o.rdbuf( ) );
		try {
			f( );
		} catch( ... ) {
			std::clog.rdbuf( old );
			throw;
		}
		std::clog.rdbuf( old );
		return o.str( );
	}
} // namespace
PROP( printing, {} ) {
	int const i = s.integer<int>( );
	std::string const t = gen_str( s, 20 ) + ( s.chance( 1, 20 ) ? std::string( 5000, 'z' ) : "" ) + ( s.chance( 1, 6 ) ? std::string( 1, '\0' ) + "q" : "" );
	auto const v = ints( s );
	auto const body = std::format( "{:>4}|{}|{{}}|{}", i, t, daw::fmt_range( v ) );
	s.note( [&] { return esc( body ); } );
	if( not t.empty( ) ) {
		s.nontrivial( );
	}
	auto P = [&]( std::string const &got, std::string const &expect ) { CHECK_EQ( esc( got ), esc( expect ) ); };
	std::string const fm = "{:>4}|{}|{{}}|{}";
	auto const r = daw::fmt_range( v );
	P( capture_file( [&]( FILE *f ) { daw::print( f, "{:>4}|{}|{{}}|{}", i, t, r ); } ), body );
	P( capture_file( [&]( FILE *f ) { daw::println( f, "{:>4}|{}|{{}}|{}", i, t, r ); } ), body + "\n" );
	P( capture_file( [&]( FILE *f ) { daw::vprint( f, fm, i, t, r ); } ), body );
	P( capture_file( [&]( FILE *f ) { daw::vprintln( f, fm, i, t, r ); } ), body + "\n" );
	P( capture_stdout( [&] { daw::print( "{:>4}|{}|{{}}|{}", i, t, r ); } ), body );
	P( capture_stdout( [&] { daw::println( "{:>4}|{}|{{}}|{}", i, t, r ); } ), body + "\n" );
	P( capture_stdout( [&] { daw::vprint( fm, i, t, r ); } ), body );
	P( capture_stdout( [&] { daw::vprintln( fm, i, t, r ); } ), body + "\n" );
	P( capture_stdout( [&] { daw::println( ); } ), "\n" );
	P( capture_stdout( [&] { daw::dump( i, t, true, r ); } ), std::format( "{} {} true {} \n", i, t, r ) );
	std::ostringstream os;
	CHECK( &daw::print( os, "{:>4}|{}|{{}}|{}", i, t, r ) == &os );
	CHECK( &daw::println( os, "{}", i ) == &os );
	P( os.str( ), body + std::format( "{}\n", i ) );
	P( capture_log( [&] { CHECK( &daw::print_log( "{:>4}|{}|{{}}|{}", i, t, r ) == &std::clog ); } ), body + "\n" );
}
// the text of a range parses back to the range
PROP( format_then_parse, {} ) {
	auto const v = ints( s, 8 );
	if( v.size( ) > 1 ) {
		s.nontrivial( );
	}
	auto const text = std::format( "{}", daw::fmt_range( v, ",", "", "" ) );
	s.note( [&] { return esc( text ); } );
	std::vector<int> back;
	auto sv = daw::string_view( text );
	while( not sv.empty( ) ) {
		back.push_back( daw::parser::converters::parse_to_value( sv.pop_front_until( "," ), daw::tag<int> ) );
	}
	CHECK( back == v );
}
#endif

#if PBT_PART == 1
PROP( concat, {} ) {
	std::string a = gen_str( s ), b = gen_str( s ), c = gen_str( s, 40 );
	std::string_view const cv = c;
	s.note( [&] { return esc( a ) + esc( b ) + esc( c ); } );
	if( not b.empty( ) ) {
		s.nontrivial( );
	}
	CHECK_EQ( esc( daw::string_concat( a, b ) ), esc( a + b ) );
	CHECK_EQ( esc( daw::string_concat( a, b, cv, "lit", b, a ) ), esc( a + b + c + "lit" + b + a ) );
	CHECK_EQ( esc( daw::string_concat( "x", cv, std::string( b ) ) ), esc( "x" + c + b ) );
	auto a2 = a;
	CHECK_EQ( esc( daw::string_concat( std::move( a2 ), a, a ) ), esc( a + a + a ) );
}

// ---- ASCII --------------------------------------------------------------------
namespace {
	template<typename I>
	void ascii_one( I c ) {
		auto const w = static_cast<__int128>( c );
		bool const digit = w >= '0' and w <= '9';
		bool const up = w >= 'A' and w <= 'Z';
		bool const low = w >= 'a' and w <= 'z';
		auto at = [&]( char const *what ) { return std::string( what ) + " of " + std::to_string( (long long)w ); };
		auto C = [&]( bool got, bool expect, char const *what ) {
			if( got != expect ) {
				throw Fail( at( what ) );
			}
		};
		C( daw::is_ascii_digit( c ), digit, "is_ascii_digit" );
		C( daw::is_ascii_alpha( c ), up or low, "is_ascii_alpha" );
		C( daw::is_ascii_alphanum( c ), up or low or digit, "is_ascii_alphanum" );
		C( daw::is_ascii_printable( c ), w >= 32 and w <= 126, "is_ascii_printable" );
		C( static_cast<__int128>( daw::to_upper_ascii( c ) ) == ( low ? w - 32 : w ), true, "to_upper_ascii" );
		C( static_cast<__int128>( daw::to_lower_ascii( c ) ) == ( up ? w + 32 : w ), true, "to_lower_ascii" );
		CHECK_STATIC( std::is_same_v<decltype( daw::to_upper_ascii( c ) ), I> );
		CHECK_STATIC( std::is_same_v<decltype( daw::to_lower_ascii( c ) ), I> );
	}
	template<typename... Is>
	void ascii_all( std::int64_t v ) {
		( ascii_one<Is>( static_cast<Is>( v ) ), ... );
	}
	std::string hex_of( void const *p, std::size_t n, bool lower = false ) {
		std::string r;
		for( std::size_t i = 0; i < n; ++i ) {
			char b[4];
			std::snprintf( b, sizeof b, lower ? "%02x" : "%02X", unsigned( static_cast<unsigned char const *>( p )[i] ) );
			r += b;
		}
		return r;
	}
	template<typename T>
	std::string hex_int( T v ) {
		std::string r;
		for( std::size_t n = sizeof( T ); n > 0; --n ) {
			auto const b = static_cast<unsigned char>( static_cast<std::make_unsigned_t<T>>( v ) >> ( 8 * ( n - 1 ) ) );
			r += hex_of( &b, 1 );
		}
		return r;
	}
	struct Rec {
		std::uint32_t a;
		std::uint16_t b, c;
	};
	struct Three {
		unsigned char x[3];
	};
} // namespace
PROP( ascii_exhaustive, ( { .cases = 1, .exhaustive = 512 } ) ) {
	// 98304 values, 192 at a time
	auto const block = std::int64_t( s.draw( 511 ) );
	s.nontrivial( );
	for( std::int64_t k = 0; k < 192; ++k ) {
		ascii_all<char, signed char, unsigned char, std::int16_t, std::uint16_t, char16_t, char32_t, wchar_t, int, unsigned, std::int64_t, std::uint64_t>( block * 192 + k - 32768 );
	}
	if( block == 0 ) {
		for( int i = -128; i < 128; ++i ) {
			char const c = char( i );
			bool const up = c >= 'A' and c <= 'Z', low = c >= 'a' and c <= 'z';
			CHECK_EQ( int( daw::AsciiUpper( c ) ), low ? int( c ) - 32 : int( c ) );
			CHECK_EQ( int( daw::AsciiLower( c ) ), up ? int( c ) + 32 : int( c ) );
			CHECK_EQ( daw::is_space( c ), c == ' ' );
		}
	}
}
PROP( ascii_wide, {} ) {
	auto const v = s.chance( 1, 2 ) ? s.integer<std::int64_t>( ) : ( std::int64_t( s.integer<std::uint32_t>( ) ) << s.draw( 31 ) ) + s.range<int>( 30, 130 );
	s.note( [&] { return std::to_string( v ); } );
	if( v > 127 or v < 0 ) {
		s.nontrivial( );
	}
	ascii_all<char, signed char, std::uint16_t, char32_t, wchar_t, int, unsigned, std::int64_t, std::uint64_t>( v );
	auto t = gen_text( s, 20, { 'a', 'z', 'A', 'Z', '@', '[', '`', '{', '\xe1', '\xc1', '0', '\0' } );
	std::string u, l;
	for( char c : t ) {
		u += ( c >= 'a' and c <= 'z' ) ? char( c - 32 ) : c;
		l += ( c >= 'A' and c <= 'Z' ) ? char( c + 32 ) : c;
	}
	CHECK_EQ( esc( daw::AsciiUpper( t ) ), esc( u ) );
	CHECK_EQ( esc( daw::AsciiLower( t ) ), esc( l ) );
}
PROP( hex_digits, {} ) {
	auto const x = s.integer<std::uint64_t>( );
	s.nontrivial( );
	s.note( [&] { return std::to_string( x ); } );
	auto num = [&]<typename T>( T v ) {
		auto buf = Exact<char>( 2 * sizeof( T ) );
		auto const e = hex_int( v );
		auto last = daw::hex( v, buf.begin( ) );
		CHECK( last == buf.end( ) );
		CHECK_EQ( std::string( buf.begin( ), buf.end( ) ), e );
		std::string o;
		(void)daw::hex( v, std::back_inserter( o ) );
		CHECK_EQ( o, e );
		// and read back, byte by byte
		std::uint64_t back = 0;
		for( char c : o ) {
			back = ( back << 4 ) | std::uint64_t( c <= '9' ? c - '0' : c - 'A' + 10 );
		}
		CHECK( static_cast<T>( back ) == v );
	};
	num( std::uint8_t( x ) );
	num( std::int8_t( x ) );
	num( char( x ) );
	num( std::uint16_t( x ) );
	num( std::int16_t( x ) );
	num( std::uint32_t( x ) );
	num( std::int32_t( x ) );
	num( std::uint64_t( x ) );
	num( std::int64_t( x ) );
	// bytes of other values, in memory order
	auto obj = [&]<typename T>( T const &v ) {
		auto buf = Exact<char>( 2 * sizeof( T ) );
		auto last = daw::hex( v, buf.begin( ) );
		CHECK( last == buf.end( ) );
		CHECK_EQ( std::string( buf.begin( ), buf.end( ) ), hex_of( &v, sizeof( T ) ) );
	};
	Rec const r{ std::uint32_t( x ), std::uint16_t( x >> 32 ), std::uint16_t( x >> 48 ) };
	Three const th{ { (unsigned char)x, 0, (unsigned char)( x >> 8 ) } };
	obj( r );
	obj( th );
	obj( double( x ) );
	// ranges
	std::vector<std::int16_t> v;
	std::vector<Three> w;
	std::list<char> lc;
	std::string ev, ew, el;
	for( std::size_t n = s.len( 6 ); n > 0; --n ) {
		v.push_back( s.integer<std::int16_t>( ) );
		w.push_back( { { s.integer<unsigned char>( ), 7, s.integer<unsigned char>( ) } } );
		lc.push_back( s.integer<char>( ) );
		ev += hex_int( v.back( ) );
		ew += hex_of( &w.back( ), 3 );
		el += hex_of( &lc.back( ), 1 );
	}
	auto rng = [&]( auto f, auto l, std::string const &e ) {
		auto buf = Exact<char>( e.size( ) );
		auto last = daw::hex( f, l, buf.begin( ) );
		CHECK( last == buf.end( ) );
		CHECK_EQ( std::string( buf.begin( ), buf.end( ) ), e );
	};
	rng( v.begin( ), v.end( ), ev );
	rng( w.begin( ), w.end( ), ew );
	rng( lc.begin( ), lc.end( ), el );
	std::string cs( lc.begin( ), lc.end( ) ), o;
	(void)daw::hex( static_cast<char const *>( cs.data( ) ), cs.size( ), std::back_inserter( o ) );
	CHECK_EQ( o, el );
	o.clear( );
	char const lit[] = { 'a', char( x ), '\xff', 0, 'z', 0 };
	(void)daw::hex( lit, std::back_inserter( o ) );
	CHECK_EQ( o, hex_of( lit, 5 ) );
	o.clear( );
	(void)daw::hex_lc( char( x ), std::back_inserter( o ) );
	char const c = char( x );
	CHECK_EQ( o, hex_of( &c, 1, true ) );
}
PROP( utility_values, {} ) {
	auto const x = s.integer<std::uint64_t>( );
	s.nontrivial( );
	unsigned char b[8];
	for( int i = 0; i < 8; ++i ) {
		b[i] = (unsigned char)( x >> ( 8 * ( 7 - i ) ) );
	}
	auto e = Exact<unsigned char>::from( std::vector<unsigned char>( b, b + 8 ) );
	auto *p = e.begin( );
	CHECK_EQ( daw::value_from_chars<std::uint64_t>( p, std::integral_constant<std::size_t, 8>{} ), x );
	CHECK_EQ( daw::value_from_chars<std::uint32_t>( p + 4, std::integral_constant<std::size_t, 4>{} ), std::uint32_t( x ) );
	CHECK_EQ( daw::value_from_chars<std::uint16_t>( p + 6, std::integral_constant<std::size_t, 2>{} ), std::uint16_t( x ) );
	CHECK_EQ( int( daw::value_from_chars<std::uint8_t>( p + 7, std::integral_constant<std::size_t, 1>{} ) ), int( std::uint8_t( x ) ) );
	auto a = daw::as_char_array( x );
	CHECK( a.size( ) == 8 and std::memcmp( a.data( ), &x, 8 ) == 0 );
	int const v = s.range<int>( -5, 5 ), lo = s.range<int>( -5, 5 ), hi = s.range<int>( -5, 5 );
	CHECK_EQ( daw::in_range( v, lo, hi ), lo <= v and v < hi );
	std::vector<int> vs;
	for( std::size_t n = s.len( 8 ); n > 0; --n ) {
		vs.push_back( s.range<int>( 0, 4 ) );
	}
	auto found = daw::find_all_where( vs.begin( ), vs.end( ), [&]( auto const &q ) { return q == 2; } );
	std::vector<std::vector<int>::iterator> ef;
	for( auto it = vs.begin( ); it != vs.end( ); ++it ) {
		if( *it == 2 ) {
			ef.push_back( it );
		}
	}
	CHECK( found == ef );
}

// ---- the deprecated string utilities -------------------------------------------
namespace {
	namespace ds = daw::string;
	std::string show_list( std::vector<std::string> const &v ) {
		std::string r;
		for( auto const &e : v ) {
			r += esc( e ) + " ";
		}
		return r;
	}
	template<typename F>
	std::vector<std::string> ref_split( std::string const &t, F f ) {
		std::vector<std::string> r( 1 );
		for( char c : t ) {
			if( f( c ) ) {
				r.emplace_back( );
			} else {
				r.back( ) += c;
			}
		}
		return r;
	}
} // namespace
PROP( string_split, {} ) {
	auto const t = gen_text( s, 14, { 'a', 'b', ' ', ',', '\t', '\n', ';', '\0', '\v', '\f', '\r', '\xff' } );
	s.note( [&] { return esc( t ); } );
	auto ws = []( char c ) { return c == ' ' or ( c >= '\t' and c <= '\r' ); };
	auto const e = ref_split( t, ws );
	if( e.size( ) > 1 ) {
		s.nontrivial( );
	}
	auto E = [&]( std::vector<std::string> const &got, std::vector<std::string> const &expect ) { CHECK_EQ( show_list( got ), show_list( expect ) ); };
	E( ds::split( t ), e );
	char const d = s.pick<char>( { ',', ' ', 'a', '\0', '\xff' } );
	auto const parts = ref_split( t, [&]( char c ) { return c == d; } );
	E( ds::split( t, d ), parts );
	CHECK_EQ( esc( ds::combine( parts, d ) ), esc( t ) );
	CHECK_EQ( esc( ds::combine( parts, "<>" ) ), esc( [&] {
		std::string r = parts[0];
		for( std::size_t i = 1; i < parts.size( ); ++i ) {
			r += "<>" + parts[i];
		}
		return r;
	}( ) ) );
	auto const ds_ = gen_text( s, 3, { ',', ';', 'b', '\0', '\xff' } );
	E( ds::split( t, ds_ ), ref_split( t, [&]( char c ) { return ds_.find( c ) != std::string::npos; } ) );
	std::vector<char> const dv( ds_.begin( ), ds_.end( ) );
	E( ds::split( t, dv ), ref_split( t, [&]( char c ) { return ds_.find( c ) != std::string::npos; } ) );
	E( ds::split_if( t, [&]( char c ) { return c < 'b'; } ), ref_split( t, [&]( char c ) { return c < 'b'; } ) );
}
PROP( string_trim, {} ) {
	auto const t = gen_text( s, 9, { ' ', ' ', '\t', '\n', 'a', 'b', '\v', '\f', '\r', '\0' } );
	std::string const std_ds = " \f\n\r\t\v";
	bool const def = s.boolean( );
	auto const d = def ? std_ds : gen_text( s, 3, { ' ', 'a', '\0', '\n' } );
	s.note( [&] { return esc( t ) + " delims " + esc( d ); } );
	std::size_t f = 0, l = t.size( );
	while( f < l and d.find( t[f] ) != std::string::npos ) {
		++f;
	}
	while( l > 0 and d.find( t[l - 1] ) != std::string::npos ) {
		--l;
	}
	auto const left = t.substr( f ), right = t.substr( 0, l ), both = f < l ? t.substr( f, l - f ) : std::string( );
	if( left != t or right != t ) {
		s.nontrivial( );
	}
	auto E = [&]( std::string const &got, std::string const &expect ) { CHECK_EQ( esc( got ), esc( expect ) ); };
	std::string x;
	if( def ) {
		E( ds::trim_left_copy( t ), left );
		E( ds::trim_right_copy( t ), right );
		E( ds::trim_copy( t ), both );
		ds::trim_left( x = t );
		E( x, left );
		ds::trim_right( x = t );
		E( x, right );
		ds::trim( x = t );
		E( x, both );
		E( daw::String( t ).trim( ).to_string( ), both );
		E( daw::String( t ).trim_left( ).to_string( ), left );
		E( daw::String( t ).trim_right( ).to_string( ), right );
		E( daw::String( t ).trim_right( ).trim_left( ).to_string( ), both );
	} else {
		E( ds::trim_left_copy( t, d ), left );
		E( ds::trim_right_copy( t, d ), right );
		E( ds::trim_copy( t, d ), both );
		ds::trim_left( x = t, d );
		E( x, left );
		ds::trim_right( x = t, d );
		E( x, right );
		ds::trim( x = t, d );
		E( x, both );
		E( daw::String( t ).trim( d ).to_string( ), both );
		E( daw::String( t ).trim_left( d ).to_string( ), left );
		E( daw::String( t ).trim_right( d ).to_string( ), right );
	}
	std::wstring const wt( t.begin( ), t.end( ) );
	if( def ) {
		CHECK( ds::trim_copy( wt ) == std::wstring( both.begin( ), both.end( ) ) );
		CHECK( ds::trim_left_copy( wt ) == std::wstring( left.begin( ), left.end( ) ) );
	}
}
PROP( string_search, {} ) {
	auto const t = gen_text( s, 14, { 'a', 'b', 'a', 'b', 'c' } );
	auto const n = gen_text( s, 3, { 'a', 'b', 'c' } );
	auto const rep = gen_text( s, 4, { 'a', 'b', 'x' } );
	s.note( [&] { return esc( t ) + " needle " + esc( n ) + " by " + esc( rep ); } );
	bool const has = t.find( n ) != std::string::npos;
	CHECK_EQ( ds::contains( t, n ), has );
	CHECK_EQ( ds::in( n, t ), has );
	CHECK_EQ( ds::in( 'c', t ), t.find( 'c' ) != std::string::npos );
	bool const ends = n.size( ) <= t.size( ) and t.substr( t.size( ) - n.size( ) ) == n;
	CHECK_EQ( ds::ends_with( t, n ), ends );
	CHECK_EQ( ds::ends_with( t, n.c_str( ) ), ends );
	CHECK_EQ( ds::ends_with( t, 'b' ), not t.empty( ) and t.back( ) == 'b' );
	CHECK_EQ( ds::ends_with( t, 'a' ), not t.empty( ) and t.back( ) == 'a' );
	if( not n.empty( ) ) {
		std::string e;
		for( std::size_t i = 0; i < t.size( ); ) {
			if( t.compare( i, n.size( ), n ) == 0 ) {
				e += rep;
				i += n.size( );
			} else {
				e += t[i++];
			}
		}
		if( e != t ) {
			s.nontrivial( );
		}
		CHECK_EQ( esc( ds::search_replace_copy( t, n.c_str( ), rep.c_str( ) ) ), esc( e ) );
		auto x = t;
		ds::search_replace( x, n.c_str( ), rep.c_str( ) );
		CHECK_EQ( esc( x ), esc( e ) );
		CHECK_EQ( esc( daw::String( t ).search_replace( n.c_str( ), rep.c_str( ) ).to_string( ) ), esc( e ) );
		std::ostringstream os;
		os << daw::String( t );
		CHECK_EQ( os.str( ), t );
		std::wstring const wt( t.begin( ), t.end( ) ), wn( n.begin( ), n.end( ) ), wr( rep.begin( ), rep.end( ) );
		CHECK( ds::search_replace_copy( wt, wn.c_str( ), wr.c_str( ) ) == std::wstring( e.begin( ), e.end( ) ) );
	}
}
PROP( string_join_and_fmt, {} ) {
	int const i = s.integer<int>( );
	double const d = double( s.range<int>( -1000000, 1000000 ) ) / 64.0;
	auto const t = gen_str( s );
	std::string const is = std::to_string( i ), dsx = std::to_string( d );
	CHECK_EQ( esc( ds::string_join( t ) ), esc( t ) );
	CHECK_EQ( ds::string_join( i ), is );
	CHECK_EQ( esc( ds::string_join( t, i ) ), esc( t + is ) );
	CHECK_EQ( esc( ds::string_join( i, d, t ) ), esc( is + dsx + t ) );
	CHECK_EQ( esc( ds::string_join( "lit", t ) ), esc( "lit" + t ) );
	CHECK_EQ( esc( ds::to_string( t ) ), esc( t ) );
	CHECK_EQ( ds::to_string( i ), is );
	CHECK_EQ( ds::to_string( "xyz" ), std::string( "xyz" ) );
	std::stringstream ss;
	ss << t << i;
	int dummy;
	ss >> dummy;
	clear( ss );
	CHECK( ss.good( ) and ss.str( ).empty( ) );
	// fmt: {n} is argument n, {n:p} argument n as a number with p decimals; a
	// field directly behind an opening brace is left as it stands
	std::string f;
	for( std::size_t n = s.len( 9 ); n > 0; --n ) {
		f += s.pick<char const *>( { "{0}", "{1}", "{2}", "{3}", "{1:2}", "{3:0}", "{3:5}", "{", "}", "x", "{01}", ":", " ", "{a}", "{0", "{3:", "{0:1:2}" } );
	}
	std::string const lit = "zz";
	std::vector<std::string> const args = { t, is, lit, dsx };
	s.note( [&] { return esc( f ) + " args " + show_list( args ); } );
	std::string e, prefix;
	bool skip = false, bad = false;
	for( std::size_t p = 0; p < f.size( ); ) {
		// a field at p?
		std::size_t q = p + 1;
		auto digit = [&]( std::size_t k ) { return k < f.size( ) and f[k] >= '0' and f[k] <= '9'; };
		bool ok = f[p] == '{' and digit( q );
		std::size_t idx = 0;
		std::vector<int> prec;
		if( ok ) {
			while( digit( q ) ) {
				idx = idx * 10 + std::size_t( f[q++] - '0' );
			}
			while( q < f.size( ) and f[q] == ':' and digit( q + 1 ) ) {
				prec.push_back( f[q + 1] - '0' );
				q += 2;
			}
			ok = q < f.size( ) and f[q] == '}';
		}
		if( not ok ) {
			prefix += f[p];
			e += f[p++];
			continue;
		}
		if( not prefix.empty( ) and prefix.back( ) == '{' ) {
			e += f.substr( p, q + 1 - p );
		} else if( prec.size( ) > 1 ) {
			bad = true;
			break;
		} else if( idx >= args.size( ) or ( prec.size( ) == 1 and ( idx == 0 or idx == 2 ) ) ) {
			skip = true;
			break;
		} else if( prec.empty( ) ) {
			e += args[idx];
			s.nontrivial( );
		} else {
			char b[64];
			std::snprintf( b, sizeof b, "%.*f", prec[0], std::strtod( args[idx].c_str( ), nullptr ) );
			e += b;
			s.nontrivial( );
		}
		prefix.clear( );
		p = q + 1;
	}
	if( skip ) {
		return;
	}
	if( bad ) {
		CHECK_THROWS( std::out_of_range, (void)ds::fmt( f, t, i, "zz", d ) );
	} else {
		CHECK_EQ( esc( ds::fmt( f, t, i, "zz", d ) ), esc( e ) );
	}
	CHECK_EQ( esc( ds::fmt( f ) ), esc( f ) );
}
#endif
