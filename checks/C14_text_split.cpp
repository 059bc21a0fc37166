// C14: splitting text into typed fields, program arguments, and the iterator
// based text helpers.  Oracle: the field list the text was made from, or a
// direct scan of the text.
// nontrivial: at least two fields, or a match was found.
// pbt-scale: 12
#include "pbt.h"
#include "daw/daw_parse_args.h"
#include "daw/daw_parse_to.h"
#include "daw/daw_parser_addons.h"
#include "daw/daw_parser_helper.h"
#include "daw/daw_parser_helper_sv.h"
#include <list>
#include <set>
#include <sstream>
#include <string_view>
using namespace pbt;
namespace P = daw::parser;

namespace {
	std::string show( std::string_view t ) {
		std::string r = "\"";
		for( char c : t ) {
			if( c >= 0x20 and c < 0x7f ) {
				r += c;
			} else {
				char b[8];
				std::snprintf( b, sizeof b, "\\x%02x", unsigned( (unsigned char)c ) );
				r += b;
			}
		}
		return r + "\"";
	}
	std::string str( daw::string_view v ) {
		return std::string( v.data( ), v.size( ) );
	}
	daw::string_view view( std::string const &v ) {
		return daw::string_view( v.data( ), v.size( ) );
	}

	// ---- fields -------------------------------------------------------------
	enum Kind { Int, Uns, Quoted, Bare, Dbl, Chr };
	struct Field {
		Kind k;
		std::string text;    // as written
		std::string content; // strings
		std::int64_t i = 0;
		double d = 0;
	};
	char bare_char( Src &s ) {
		return s.pick<char>( { 'a', 'b', 'z', '0', '7', '_', '(', '%', '\x01', '\x7f', '\xc3', '\xa9' } );
	}
	Field gen_field( Src &s, Kind k, bool spaces ) {
		Field f{ k, "", "", 0, 0 };
		switch( k ) {
		case Int:
			f.i = s.chance( 20 ) ? s.pick<std::int64_t>( { INT32_MAX, INT32_MIN, 0, -1 } ) : std::int64_t( s.integer<int>( ) );
			f.text = std::to_string( f.i );
			break;
		case Uns:
			f.i = std::int64_t( s.integer<std::uint32_t>( ) );
			f.text = std::to_string( f.i );
			break;
		case Quoted: {
			std::size_t n = 1 + s.len( 6 );
			for( std::size_t i = 0; i < n; ++i ) {
				switch( s.draw( 7 ) ) {
				case 0:
					f.content += "\\\"";
					break;
				case 1:
					f.content += spaces ? ' ' : '.';
					break;
				case 2:
					f.content += '\0';
					break;
				default:
					f.content += bare_char( s );
				}
			}
			f.text = "\"" + f.content + "\"";
			break;
		}
		case Bare: {
			std::size_t n = 1 + s.len( 6 );
			for( std::size_t i = 0; i < n; ++i ) {
				f.content += s.chance( 10 ) ? '"' : bare_char( s );
			}
			f.text = f.content;
			break;
		}
		case Dbl:
			f.d = double( s.integer<int>( ) ) / double( 1 << s.draw( 10 ) );
			{
				char b[64];
				std::snprintf( b, sizeof b, "%.17g", f.d );
				f.text = b;
			}
			break;
		case Chr:
			f.content = std::string( 1, bare_char( s ) );
			f.text = f.content;
			for( std::size_t n = s.len( 3 ); n > 0; --n ) {
				f.text += bare_char( s );
			}
		}
		return f;
	}
	struct unq {};
	template<Kind K>
	struct type_of;
	template<>
	struct type_of<Int> {
		using type = int;
	};
	template<>
	struct type_of<Uns> {
		using type = std::uint32_t;
	};
	template<>
	struct type_of<Quoted> {
		using type = daw::string_view;
	};
	template<>
	struct type_of<Bare> {
		using type = P::converters::unquoted_string;
	};
	template<>
	struct type_of<Dbl> {
		using type = double;
	};
	template<>
	struct type_of<Chr> {
		using type = char;
	};
	void same( Field const &f, std::int64_t v ) {
		CHECK_EQ( v, f.i );
	}
	void same( Field const &f, int v ) {
		CHECK_EQ( std::int64_t( v ), f.i );
	}
	void same( Field const &f, std::uint32_t v ) {
		CHECK_EQ( std::int64_t( v ), f.i );
	}
	void same( Field const &f, double v ) {
		CHECK( v == f.d );
	}
	void same( Field const &f, char v ) {
		CHECK_EQ( int( v ), int( f.content[0] ) );
	}
	void same( Field const &f, daw::string_view v ) {
		CHECK_EQ( show( str( v ) ), show( f.content ) );
	}
	void same( Field const &f, std::string const &v ) {
		CHECK_EQ( show( v ), show( f.content ) );
	}

	template<Kind... Ks>
	struct Line {
		static constexpr std::size_t N = sizeof...( Ks );
		template<std::size_t... Is, typename T>
		static void compare( std::vector<Field> const &fs, T const &t, std::index_sequence<Is...> ) {
			( same( fs[Is], std::get<Is>( t ) ), ... );
		}

		static void run( Src &s ) {
			// the delimiter shares no character with any field
			int const mode = int( s.weighted( { 5, 2, 2, 2 } ) );
			std::string d;
			switch( mode ) {
			case 0:
				d = s.pick<std::string>( { ",", "::", ";", "<>", ",,;", "<<<>", " | " } );
				break;
			case 1:
				d = " ";
				break;
			default:
				d = " ";
			}
			bool const spaces = mode == 0 and d.find( ' ' ) == std::string::npos;
			Kind ks[] = { Ks... };
			std::vector<Field> fs;
			for( Kind k : ks ) {
				fs.push_back( gen_field( s, k, spaces ) );
			}
			std::string t;
			auto ws = [&] { return s.pick<char>( { ' ', '\t', '\n', '\r', '\v', '\f' } ); };
			for( std::size_t i = 0; i < N; ++i ) {
				if( i > 0 ) {
					switch( mode ) {
					case 0: case 1:
						t += d;
						break;
					case 2: // runs of white space
						for( std::size_t n = 1 + s.len( 3 ); n > 0; --n ) {
							t += ws( );
						}
						break;
					default:
						t += ws( );
					}
				}
				t += fs[i].text;
			}
			bool const more = s.chance( 30 );
			if( more ) { // fields beyond those asked for are left alone
				t += mode >= 2 ? std::string( 1, ws( ) ) : d;
				t += gen_field( s, Bare, spaces ).text;
			}
			s.note( [=] { return show( t ) + " on " + show( d ) + " mode " + std::to_string( mode ); } );
			if( N > 1 ) {
				s.nontrivial( );
			}
			s.label( mode == 0 ? "delimiter" : mode == 1 ? "space" : mode == 2 ? "white space" : "single white space" );
			Exact<char> buf = Exact<char>::from( t );
			daw::string_view sv( buf.data( ), t.size( ) );
			auto idx = std::make_index_sequence<N>{ };
			auto cmp = [&]( auto const &tp ) { compare( fs, tp, idx ); };
			auto app = [&]( auto const &...v ) {
				compare( fs, std::tie( v... ), idx );
				return 42;
			};
			auto with = [&]( auto sp ) {
				switch( s.draw( 3 ) ) {
				case 0:
					cmp( P::parse_to<typename type_of<Ks>::type...>( sv, sp ) );
					break;
				case 1: {
					int r = daw::apply_string<typename type_of<Ks>::type...>( app, sv, sp );
					CHECK_EQ( r, 42 );
					break;
				}
				case 2: {
					struct Made {
						std::tuple<std::decay_t<decltype( P::converters::parse_to_value( sv, daw::tag<typename type_of<Ks>::type> ) )>...> v;
						Made( std::decay_t<decltype( P::converters::parse_to_value( sv, daw::tag<typename type_of<Ks>::type> ) )>... a )
						  : v( a... ) {}
					};
					cmp( daw::construct_from<Made, typename type_of<Ks>::type...>( sv, sp ).v );
					break;
				}
				default: {
					if constexpr( ( ( Ks != Quoted ) and ... ) ) { // views would refer to the drained stream
						std::stringstream ss( t );
						cmp( daw::values_from_stream<typename type_of<Ks>::type...>( ss, sp ) );
					} else {
						cmp( P::parse_to<typename type_of<Ks>::type...>( sv, sp ) );
					}
				}
				}
			};
			switch( mode ) {
			case 0:
				if( s.boolean( ) ) {
					with( view( d ) );
				} else {
					// any callable that returns the divider's range
					with( [&]( daw::string_view v ) {
						struct R {
							std::size_t first, last;
						};
						std::string x = str( v );
						std::size_t p = x.find( d );
						return p == std::string::npos ? R{ daw::string_view::npos, daw::string_view::npos } : R{ p, p + d.size( ) };
					} );
				}
				break;
			case 1:
				if( s.boolean( ) ) {
					with( view( d ) );
				} else {
					cmp( P::parse_to<typename type_of<Ks>::type...>( sv ) );
				}
				break;
			case 2:
				with( P::whitespace_splitter{ } );
				break;
			default:
				with( P::single_whitespace_splitter{ } );
			}
		}
	};
} // namespace

PROP( typed_fields, { .cases = 30000 } ) {
	switch( s.draw( 7 ) ) {
	case 0:
		return Line<Int, Quoted, Int>::run( s );
	case 1:
		return Line<Bare, Int, Bare, Uns>::run( s );
	case 2:
		return Line<Dbl, Dbl, Int>::run( s );
	case 3:
		return Line<Quoted, Quoted, Chr, Quoted>::run( s );
	case 4:
		return Line<Int, Int, Int, Int, Int, Int>::run( s );
	case 5:
		return Line<Chr, Bare>::run( s );
	case 6:
		return Line<Bare>::run( s );
	default:
		return Line<Bare, Bare, Bare, Bare, Bare>::run( s );
	}
}

// fewer fields than asked for, or empty ones, are reported
PROP( missing_fields, { .cases = 10000 } ) {
	std::string d = s.pick<std::string>( { ",", "::", " " } );
	std::size_t n = s.len( 4 );
	std::string t;
	std::vector<std::string> fs;
	for( std::size_t i = 0; i < n; ++i ) {
		fs.push_back( s.chance( 25 ) ? "" : std::to_string( s.integer<int>( ) ) );
		if( i > 0 ) {
			t += d;
		}
		t += fs[i];
	}
	bool bad = n < 3 or fs[0].empty( ) or fs[1].empty( ) or fs[2].empty( );
	s.note( [=] { return show( t ) + " on " + show( d ); } );
	s.nontrivial( );
	s.label( bad ? "missing" : "complete" );
	Exact<char> buf = Exact<char>::from( t );
	daw::string_view sv( buf.data( ), t.size( ) );
	if( bad ) {
		CHECK_THROWS( P::empty_input_exception, ( P::parse_to<int, int, int>( sv, view( d ) ) ) );
	} else {
		auto r = P::parse_to<int, int, int>( sv, view( d ) );
		CHECK_EQ( std::to_string( std::get<0>( r ) ), fs[0] );
		CHECK_EQ( std::to_string( std::get<1>( r ) ), fs[1] );
		CHECK_EQ( std::to_string( std::get<2>( r ) ), fs[2] );
	}
}

// a quoted string field: the text between the quotes, or an error
PROP( quoted_string, { .cases = 20000 } ) {
	std::string t;
	std::size_t n = s.len( 9 );
	for( std::size_t i = 0; i < n; ++i ) {
		t += s.pick<char>( { '"', '"', 'a', 'b', '\\', ' ', '\0' } );
	}
	if( s.chance( 70 ) ) {
		t.insert( 0, "\"" );
	}
	s.note( [=] { return show( t ); } );
	// an escape is a backslash before the quote
	std::size_t close = std::string::npos;
	if( t.size( ) > 2 and t[0] == '"' ) {
		for( std::size_t i = 2; i < t.size( ); ++i ) {
			if( t[i] == '"' and t[i - 1] != '\\' ) {
				close = i;
				break;
			}
		}
	}
	if( t.size( ) > 1 and t[0] == '"' and t[1] == '"' ) {
		return; // an empty quoted string is not supported
	}
	Exact<char> buf = Exact<char>::from( t );
	daw::string_view sv( buf.data( ), t.size( ) );
	bool threw = false;
	std::string got;
	try {
		if( s.boolean( ) ) {
			auto v = P::converters::parse_to_value( sv, daw::tag<daw::string_view> );
			CHECK( v.data( ) == buf.data( ) + 1 );
			got = str( v );
		} else {
			got = P::converters::parse_to_value( sv, daw::tag<std::string> );
		}
	} catch( Fail const & ) {
		throw;
	} catch( ... ) {
		threw = true;
	}
	if( close != std::string::npos ) {
		s.nontrivial( );
		CHECK( not threw );
		CHECK_EQ( show( got ), show( t.substr( 1, close - 1 ) ) );
	} else {
		CHECK( threw );
	}
}

// the splitters themselves, over any text
PROP( splitters, { .cases = 20000 } ) {
	std::string t;
	std::size_t n = s.len( 12 );
	for( std::size_t i = 0; i < n; ++i ) {
		t += s.pick<char>( { 'a', 'b', ',', ',', ' ', ' ', '\t', '\n', '\r', '\v', '\f', '\x1f', '\x21', '\x0e', '\x08', '\0' } );
	}
	auto is_ws = []( char c ) { return c == ' ' or ( c >= 9 and c <= 13 ); };
	Exact<char> buf = Exact<char>::from( t );
	daw::string_view sv( buf.data( ), t.size( ) );
	s.note( [=] { return show( t ); } );
	std::size_t f = 0;
	while( f < t.size( ) and not is_ws( t[f] ) ) {
		++f;
	}
	std::size_t l = f;
	while( l < t.size( ) and is_ws( t[l] ) ) {
		++l;
	}
	auto r = P::whitespace_splitter{ }( sv );
	auto q = P::single_whitespace_splitter{ }( sv );
	if( f == t.size( ) ) {
		CHECK( r.first == daw::string_view::npos and r.last == daw::string_view::npos );
		CHECK( q.first == daw::string_view::npos and q.last == daw::string_view::npos );
	} else {
		s.nontrivial( );
		CHECK_EQ( r.first, f );
		CHECK_EQ( r.last, l );
		CHECK_EQ( q.first, f );
		CHECK_EQ( q.last, f + 1 );
	}
	std::string d;
	for( std::size_t k = 1 + s.draw( 2 ); k > 0; --k ) {
		d += s.pick<char>( { 'a', ',', ' ' } );
	}
	auto e = P::default_splitter{ view( d ) }( sv );
	std::size_t p = t.find( d );
	CHECK_EQ( std::size_t( e.first ), p );
	CHECK_EQ( std::size_t( e.last ), p == std::string::npos ? p : p + d.size( ) );
}

// program arguments
PROP( arguments, { .cases = 15000 } ) {
	std::vector<std::string> args;
	struct A {
		std::string name, value;
	};
	std::vector<A> want;
	std::size_t n = s.len( 6 );
	auto word = [&]( std::size_t min ) {
		std::string r;
		for( std::size_t k = min + s.len( 4 ); k > 0; --k ) {
			r += s.pick<char>( { 'a', 'b', 'c', ' ', '-', '.' } );
		}
		return r;
	};
	auto name = [&] {
		return s.pick<std::string>( { "a", "b", "ab", "name", "a-b", "x y" } );
	};
	args.push_back( s.boolean( ) ? "/bin/prog" : "" );
	for( std::size_t i = 0; i < n; ++i ) {
		std::string v = word( 0 );
		switch( s.draw( 6 ) ) {
		case 0: {
			std::string k = name( );
			args.push_back( "--" + k + "=" + v );
			want.push_back( { k, v } );
			break;
		}
		case 1: {
			std::string k = name( );
			args.push_back( "--" + k + "=\"" + v + "\"" );
			want.push_back( { k, v } );
			break;
		}
		case 2: {
			std::string k = name( );
			args.push_back( "--" + k );
			want.push_back( { k, "" } );
			break;
		}
		case 3:
			args.push_back( "\"" + v + "\"" );
			want.push_back( { "", v } );
			break;
		case 4: {
			std::string k = name( );
			args.push_back( "--" + k + "=" + v + "=" + v );
			want.push_back( { k, v + "=" + v } );
			break;
		}
		case 5:
			v = "x" + v + "=1";
			args.push_back( v );
			want.push_back( { "", v } );
			break;
		default:
			v = "-" + s.pick<std::string>( { "a", "b=1", "" } );
			args.push_back( v );
			want.push_back( { "", v } );
		}
	}
	std::vector<Exact<char>> hold;
	std::vector<char *> argv;
	for( auto &a : args ) {
		hold.push_back( Exact<char>::from( a + std::string( 1, '\0' ) ) );
	}
	for( auto &h : hold ) {
		argv.push_back( h.data( ) );
	}
	s.note( [=] {
		std::string r;
		for( auto &a : args ) {
			r += show( a ) + " ";
		}
		return r;
	} );
	if( n > 1 ) {
		s.nontrivial( );
	}
	daw::Arguments a( int( argv.size( ) ), argv.data( ) );
	CHECK_EQ( str( a.program_name( ) ), args[0] );
	CHECK_EQ( a.size( ), want.size( ) );
	CHECK_EQ( a.empty( ), want.empty( ) );
	std::size_t i = 0;
	std::optional<std::size_t> named;
	for( daw::Argument const &x : a ) {
		CHECK_EQ( str( x.name ), want[i].name );
		CHECK_EQ( str( x.value ), want[i].value );
		CHECK( &x == &a[i] );
		if( not named and not want[i].name.empty( ) ) {
			named = i;
		}
		++i;
	}
	CHECK_EQ( i, want.size( ) );
	CHECK( a.cend( ) - a.cbegin( ) == std::ptrdiff_t( i ) );
	CHECK( a.first_named_argument( ) == named );
	CHECK_EQ( a.has_named_argument( ), named.has_value( ) );
	for( std::string k : { "a", "b", "ab", "name", "a-b", "x y", "zz", "nam" } ) {
		std::optional<std::size_t> at;
		for( std::size_t j = 0; j < want.size( ) and not at; ++j ) {
			if( want[j].name == k ) {
				at = j;
			}
		}
		CHECK( a.find_argument_position( view( k ) ) == at );
		auto v = a[view( k )];
		CHECK_EQ( v.has_value( ), at.has_value( ) );
		if( at ) {
			CHECK_EQ( str( *v ), want[*at].value );
		}
	}
}

// ---- the iterator based helpers ---------------------------------------------
namespace {
	struct Text {
		std::string t;
		std::list<char> l;
		explicit Text( Src &s, std::initializer_list<char> alpha, std::size_t max = 12 ) {
			std::size_t n = s.longlen( max );
			for( std::size_t i = 0; i < n; ++i ) {
				t += *( alpha.begin( ) + long( s.below( alpha.size( ) ) ) );
			}
			l.assign( t.begin( ), t.end( ) );
		}
		template<typename R>
		std::pair<std::size_t, std::size_t> at( R const &r ) const {
			auto f = std::distance( l.begin( ), std::list<char>::const_iterator( r.first ) );
			auto e = std::distance( l.begin( ), std::list<char>::const_iterator( r.last ) );
			return { std::size_t( f ), std::size_t( e ) };
		}
	};
#define CHECK_RANGE( R, F, L, FOUND )            \
	do {                                           \
		auto r_ = ( R );                             \
		auto p_ = x.at( r_ );                        \
		CHECK_EQ( p_.first, std::size_t( F ) );      \
		CHECK_EQ( p_.second, std::size_t( L ) );     \
		CHECK_EQ( bool( r_ ), bool( FOUND ) );       \
	} while( false )
} // namespace

PROP( until_functions, { .cases = 15000 } ) {
	Text x( s, { 'a', 'b', 'c', ',', ';' } );
	std::string const &t = x.t;
	std::size_t const n = t.size( );
	s.note( [=] { return show( t ); } );
	auto b = x.l.cbegin( ), e = x.l.cend( );
	auto pos = [&]( auto pred ) {
		std::size_t i = 0;
		while( i < n and not pred( t[i] ) ) {
			++i;
		}
		return i;
	};
	auto c1 = s.pick<char>( { 'a', ',', 'z' } );
	auto c2 = s.pick<char>( { 'b', ';' } );
	std::size_t p1 = pos( [&]( char c ) { return c == c1; } );
	std::size_t p2 = pos( [&]( char c ) { return c == c1 or c == c2; } );
	std::size_t np1 = pos( [&]( char c ) { return c != c1; } );
	if( p2 < n ) {
		s.nontrivial( );
	}
	auto eq1 = [&]( char c ) { return c == c1; };
	CHECK_RANGE( P::until( b, e, eq1 ), 0, p1, p1 < n );
	CHECK_RANGE( P::until( b, e, eq1, false ), 0, p1, p1 < n );
	if( p1 < n ) {
		CHECK_RANGE( P::until( b, e, eq1, true ), 0, p1, true );
	} else {
		CHECK_THROWS( P::ParserException, P::until( b, e, eq1, true ) );
	}
	CHECK_RANGE( P::until_false( b, e, eq1 ), 0, np1, np1 < n );
	CHECK_RANGE( P::until_value( b, e, c1 ), 0, p1, p1 < n );
	CHECK_RANGE( P::until_value( b, e, c1, c2 ), 0, p2, p2 < n );
	std::string set{ c1, c2 };
	CHECK_RANGE( P::until_values( b, e, set ), 0, p2, p2 < n );
	std::vector<char> vset( set.begin( ), set.end( ) );
	CHECK_RANGE( P::until_values( b, e, vset ), 0, p2, p2 < n );
	char aset[2] = { c1, c2 };
	CHECK_RANGE( P::until_values( b, e, aset ), 0, p2, p2 < n );
	CHECK_RANGE( P::until( b, e, P::one_of( c1, c2 ) ), 0, p2, p2 < n );
	CHECK_RANGE( P::until( b, e, P::in( view( set ) ) ), 0, p2, p2 < n );
	CHECK_RANGE( P::until( b, e, P::negate( P::in( view( set ) ) ) ), 0, pos( [&]( char c ) { return c != c1 and c != c2; } ), pos( [&]( char c ) { return c != c1 and c != c2; } ) < n );
	std::size_t last = t.rfind( c1 );
	if( last != std::string::npos ) {
		// up to the last divider, or a text with none: everything
		auto r = P::until_last_of( b, e, c1 );
		CHECK( bool( r ) );
		CHECK_EQ( x.at( r ).second, last );
	} else {
		CHECK_RANGE( P::until_last_of( b, e, c1 ), 0, n, false );
	}
	for( char c : t ) {
		CHECK_EQ( P::is_space( c ), c == ' ' );
		CHECK_EQ( P::not_space( c ), c != ' ' );
		CHECK_EQ( P::is_cr( c ), c == '\n' );
		CHECK_EQ( P::pred_true( c ), true );
		CHECK_EQ( P::pred_false( c ), false );
		CHECK_EQ( P::is_a( c, c1, c2 ), c == c1 or c == c2 );
		CHECK_EQ( P::is_true( c, eq1, [&]( char v ) { return v == c2; } ), c == c1 or c == c2 );
		CHECK_EQ( P::value_in( c, set ), c == c1 or c == c2 );
		bool threw = false;
		try {
			P::expect( c, c1, c2 );
		} catch( P::ParserException const & ) {
			threw = true;
		}
		CHECK_EQ( threw, not( c == c1 or c == c2 ) );
		threw = false;
		try {
			P::expect_true( c, eq1, [&]( char v ) { return v == c2; } );
		} catch( P::ParserException const & ) {
			threw = true;
		}
		CHECK_EQ( threw, not( c == c1 or c == c2 ) );
		threw = false;
		try {
			P::assert_equal( c, c1 );
		} catch( P::ParserException const & ) {
			threw = true;
		}
		CHECK_EQ( threw, c != c1 );
		threw = false;
		try {
			P::assert_not_equal( c, c1 );
		} catch( P::ParserException const & ) {
			threw = true;
		}
		CHECK_EQ( threw, c == c1 );
	}
	// a needle
	std::string m;
	for( std::size_t k = 1 + s.draw( 2 ); k > 0; --k ) {
		m += s.pick<char>( { 'a', 'b', ',' } );
	}
	std::size_t mp = t.find( m );
	CHECK_RANGE( P::matcher( m )( b, e ), 0, mp == std::string::npos ? n : mp, mp != std::string::npos );
	char am[2] = { m.front( ), m.back( ) };
	auto const ap = t.find( std::string( am, 2 ) );
	CHECK_RANGE( P::matcher( am )( b, e ), 0, ap == std::string::npos ? n : ap, ap != std::string::npos );
	CHECK_EQ( P::starts_with( b, e, m.begin( ), m.end( ), []( char l, char r ) { return l == r; } ), t.compare( 0, m.size( ), m ) == 0 );
	// from one character to another
	if( p1 < n ) {
		std::size_t q = p1;
		while( q < n and t[q] != c2 ) {
			++q;
		}
		auto r = P::from_to( b, e, c1, c2 );
		CHECK_EQ( x.at( r ).first, p1 );
		CHECK_EQ( x.at( r ).second, q );
		auto r2 = P::from_to_pred( b, e, eq1, [&]( char c ) { return c == c2; } );
		CHECK_EQ( x.at( r2 ).first, p1 );
		CHECK_EQ( x.at( r2 ).second, q );
		if( q == n ) {
			CHECK_THROWS( P::ParserException, P::from_to( b, e, c1, c2, true ) );
			CHECK_THROWS( P::ParserException, P::from_to_pred( b, e, eq1, [&]( char c ) { return c == c2; }, true ) );
		}
	} else {
		CHECK_THROWS( P::ParserException, P::from_to( b, e, c1, c2 ) );
		CHECK_THROWS( P::ParserException, P::from_to_pred( b, e, eq1, eq1 ) );
	}
}

PROP( find_result, { .cases = 6000 } ) {
	Text x( s, { 'a', 'b', 'c' } );
	std::string const &t = x.t;
	std::size_t const i = s.below( t.size( ) + 1 );
	std::size_t const j = i + s.below( t.size( ) + 1 - i );
	s.note( [=] { return show( t ) + " " + std::to_string( i ) + ".." + std::to_string( j ); } );
	char const *d = t.data( );
	auto r = P::make_find_result( d + i, d + j, true );
	CHECK_EQ( r.empty( ), i == j );
	CHECK_EQ( r.empty( false ), i == j );
	if( i == j ) {
		CHECK_THROWS( P::ParserEmptyException, (void)r.empty( true ) );
	} else {
		s.nontrivial( );
		CHECK( not r.empty( true ) );
		CHECK_EQ( r.to_string( ), t.substr( i, j - i ) );
	}
	CHECK_EQ( str( r.to_string_view( ) ), t.substr( i, j - i ) );
	CHECK_EQ( r.as<std::string>( ), t.substr( i, j - i ) );
	CHECK( r.begin( ) == d + i and r.end( ) == d + j );
}

// every end of a piece, in order: joining the pieces gives the text back
PROP( split_on, { .cases = 15000 } ) {
	Text x( s, { 'a', 'b', ',', ';' } );
	std::string const &t = x.t;
	s.note( [=] { return show( t ); } );
	auto b = x.l.cbegin( ), e = x.l.cend( );
	bool const two = s.boolean( );
	std::vector<std::size_t> want;
	std::size_t start = 0;
	for( std::size_t i = 0; i < t.size( ); ++i ) {
		if( t[i] == ',' or ( two and t[i] == ';' ) ) {
			want.push_back( i );
			start = i + 1;
		}
	}
	if( want.size( ) > 1 ) {
		s.nontrivial( );
	}
	if( start < t.size( ) ) {
		want.push_back( t.size( ) );
	}
	auto chk = [&]( auto const &r ) {
		std::vector<std::size_t> got;
		for( auto it : r ) {
			got.push_back( std::size_t( std::distance( b, it ) ) );
		}
		CHECK( got == want );
	};
	chk( two ? P::split_on( b, e, ',', ';' ) : P::split_on( b, e, ',' ) );
	chk( P::split_if( b, e, [&]( char c ) { return c == ',' or ( two and c == ';' ); } ) );
}

PROP( trims, { .cases = 20000 } ) {
	Text x( s, { 'a', 'b', '.', ' ', ' ', '\t', '\n', '\r', '\v', '\f', '\x1f', '\0' } );
	std::string const &t = x.t;
	s.note( [=] { return show( t ); } );
	auto b = x.l.cbegin( ), e = x.l.cend( );
	auto is_ws = []( char c ) { return c == ' ' or ( c >= 9 and c <= 13 ); };
	std::size_t f = 0, n = t.size( );
	while( f < n and is_ws( t[f] ) ) {
		++f;
	}
	std::size_t l = n;
	while( l > f and is_ws( t[l - 1] ) ) {
		--l;
	}
	if( f < n ) { // iterator versions say "not found" for a text of white space
		if( f > 0 or l < n ) {
			s.nontrivial( );
		}
		CHECK_EQ( x.at( P::trim_left( b, e ) ).first, f );
		CHECK_EQ( x.at( P::trim_left( b, e ) ).second, n );
		CHECK_EQ( x.at( P::trim_right( b, e ) ).first, 0u );
		CHECK_EQ( x.at( P::trim_right( b, e ) ).second, l );
		CHECK_EQ( x.at( P::trim( b, e ) ).first, f );
		CHECK_EQ( x.at( P::trim( b, e ) ).second, l );
	}
	CHECK_EQ( x.at( P::skip_ws( b, e ) ).first, f );
	CHECK_EQ( x.at( P::skip_ws( b, e ) ).second, n );
	Exact<char> buf = Exact<char>::from( t );
	daw::string_view sv( buf.data( ), n );
	CHECK_EQ( show( str( P::trim_left( sv ) ) ), show( t.substr( f ) ) );
	std::size_t rl = n;
	while( rl > 0 and is_ws( t[rl - 1] ) ) {
		--rl;
	}
	CHECK_EQ( show( str( P::trim_right( sv ) ) ), show( t.substr( 0, rl ) ) );
	CHECK_EQ( show( str( P::trim( sv ) ) ), show( t.substr( f, l - f ) ) );
	// first of, in views
	std::size_t p = t.find( '.' );
	CHECK_EQ( std::size_t( P::find_first_of( sv, '.' ) - sv.cbegin( ) ), p == std::string::npos ? n : p );
	std::size_t w = 0;
	while( w < n and not is_ws( t[w] ) ) {
		++w;
	}
	CHECK_EQ( std::size_t( P::find_first_of_when( sv, is_ws ) - sv.cbegin( ) ), w );
}

// white space, over every code point
PROP( white_space, ( { .cases = 1, .exhaustive = true } ) ) {
	s.nontrivial( );
	std::set<char32_t> ws{ 9, 10, 11, 12, 13, 0x20, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000 };
	for( char32_t c = 0x2000; c <= 0x200A; ++c ) {
		ws.insert( c );
	}
	for( char32_t c = 0; c < 0x110000; ++c ) {
		bool w = ws.count( c ) != 0;
		if( P::is_unicode_whitespace( c ) != w or P::not_unicode_whitespace( c ) == w ) {
			CHECK_EQ( std::uint32_t( c ), 0xFFFFFFFFu );
		}
	}
}

PROP( string_literal, { .cases = 15000 } ) {
	Text x( s, { 'a', '"', '"', '\\', ' ' }, 8 );
	std::string t = x.t;
	if( s.chance( 75 ) ) {
		t = std::string( s.draw( 2 ), ' ' ) + "\"" + t;
	}
	s.note( [=] { return show( t ); } );
	std::list<char> l( t.begin( ), t.end( ) );
	std::size_t f = 0;
	while( f < t.size( ) and t[f] == ' ' ) {
		++f;
	}
	std::size_t close = std::string::npos;
	if( f < t.size( ) and t[f] == '"' ) {
		for( std::size_t i = f + 1; i < t.size( ); ++i ) {
			if( t[i] == '"' and t[i - 1] != '\\' ) {
				close = i;
				break;
			}
		}
	}
	if( close == std::string::npos ) {
		CHECK_THROWS( P::ParserException, P::parse_string_literal( l.cbegin( ), l.cend( ) ) );
	} else {
		s.nontrivial( );
		auto r = P::parse_string_literal( l.cbegin( ), l.cend( ) );
		CHECK( bool( r ) );
		CHECK_EQ( std::size_t( std::distance( l.cbegin( ), r.first ) ), f + 1 );
		CHECK_EQ( std::size_t( std::distance( l.cbegin( ), r.last ) ), close );
	}
}

PROP( crlf, { .cases = 10000 } ) {
	Text x( s, { 'a', '\r', '\n', '\r', '\n' }, 14 );
	std::string const &t = x.t;
	std::size_t cnt = 1 + s.draw( 2 );
	s.note( [=] { return show( t ) + " x" + std::to_string( cnt ); } );
	P::is_crlf<char> p( cnt );
	std::string m;
	for( std::size_t i = 0; i < cnt; ++i ) {
		m += "\r\n";
	}
	for( std::size_t i = 0; i < t.size( ); ++i ) {
		bool want = i + 1 >= m.size( ) and t.compare( i + 1 - m.size( ), m.size( ), m ) == 0;
		if( want ) {
			s.nontrivial( );
		}
		CHECK_EQ( p( t[i] ), want );
	}
}

// floating point fields come out as the nearest number of their own type
PROP( float_fields, { .cases = 20000 } ) {
	auto text = [&] {
		std::string t = s.chance( 1, 3 ) ? "-" : "";
		std::size_t const whole = s.below( 4 ), frac = s.below( 22 );
		for( std::size_t n = 0; n < whole; ++n ) {
			t += char( '0' + s.below( 10 ) );
		}
		t += whole == 0 ? "0" : "";
		if( frac > 0 ) {
			t += '.';
			for( std::size_t n = 0; n < frac; ++n ) {
				t += char( '0' + s.below( 10 ) );
			}
		}
		if( s.chance( 1, 3 ) ) {
			t += 'e';
			t += std::to_string( s.range( -30, 30 ) );
		}
		return t;
	};
	std::string const a = text( ), b = text( ), c = text( );
	std::string const all = a + ',' + b + ',' + c;
	s.note( [=] { return all; } );
	s.nontrivial( a.find( '.' ) != std::string::npos and c.find( '.' ) != std::string::npos );
	float const fa = std::strtof( a.c_str( ), nullptr );
	double const db = std::strtod( b.c_str( ), nullptr );
	long double const lc = std::strtold( c.c_str( ), nullptr );
	auto const r = daw::parser::parse_to<float, double, long double>( all, "," );
	CHECK( std::get<0>( r ) == fa );
	CHECK( std::get<1>( r ) == db );
	CHECK( std::get<2>( r ) == lc );
	int called = 0;
	daw::apply_string<long double, float, double>(
	  [&]( long double x, float y, double z ) {
		  ++called;
		  CHECK( x == lc and y == fa and z == db );
	  },
	  c + ',' + a + ',' + b, "," );
	CHECK_EQ( called, 1 );
}
