// C02: consuming string_view operations.  A view is modelled as an index range
// [b, e) of a fixed text; after every operation the view and the returned
// piece must be exactly the modelled ranges (same addresses).
// nontrivial: at least one delimiter-driven operation found its delimiter.
// pbt-scale: 6
#include "pbt.h"
#include "daw/daw_string_view.h"
#include <algorithm>
using namespace pbt;

namespace {
	template<typename C>
	using Str = std::basic_string<C>;
	constexpr std::size_t npos = std::size_t( -1 );

	template<typename C>
	C gen_char( Src &s ) {
		switch( s.draw( 9 ) ) {
		case 0: case 1:
			return C( 'a' );
		case 2:
			return C( 'b' );
		case 3: case 4:
			return C( ',' );
		case 5:
			return C( ' ' );
		case 6:
			return s.pick<C>( { C( '\t' ), C( '\n' ), C( '\v' ), C( '\f' ), C( '\r' ) } );
		case 7:
			return s.pick<C>( { C( 0 ), C( 0xA0 ), C( 0x85 ), C( 0x1F ), C( 0x0E ), C( 0x08 ) } );
		case 8:
			return C( ':' );
		default:
			return C( s.draw( sizeof( C ) == 1 ? 255 : 0xFFFF ) );
		}
	}
	template<typename C>
	Str<C> gen_text( Src &s, std::size_t max ) {
		Str<C> r;
		std::size_t n = s.longlen( max );
		for( std::size_t i = 0; i < n; ++i ) {
			r += gen_char<C>( s );
		}
		return r;
	}
	template<typename C>
	bool is_space( C c ) {
		return c == C( ' ' ) or c == C( '\t' ) or c == C( '\n' ) or c == C( '\v' ) or c == C( '\f' ) or c == C( '\r' );
	}

	template<typename C>
	struct M {
		Str<C> text;
		Exact<C> buf;
		std::size_t b, e;
		daw::basic_string_view<C> sv;
		bool has_null = false; // model of data( ) == nullptr after reset
		M( Src &s, std::size_t max )
		  : text( gen_text<C>( s, max ) )
		  , buf( Exact<C>::from( text ) )
		  , b( 0 )
		  , e( text.size( ) )
		  , sv( buf.data( ), buf.size( ) ) {}
		Str<C> cur( ) const {
			return text.substr( b, e - b );
		}
		std::size_t size( ) const {
			return e - b;
		}
		void same( daw::basic_string_view<C> x, std::size_t xb, std::size_t xe, char const *op ) {
			if( x.size( ) != xe - xb or Str<C>( x.data( ), x.size( ) ) != text.substr( xb, xe - xb ) ) {
				fail( std::string( op ) + ": got " + show( Str<C>( x.data( ), x.size( ) ) ) + ", expected " + show( text.substr( xb, xe - xb ) ) );
			}
			if( x.data( ) != buf.data( ) + xb ) {
				fail( std::string( op ) + ": right text, wrong position" );
			}
		}
		void state( char const *op ) {
			same( sv, b, e, ( std::string( "view after " ) + op ).c_str( ) );
		}
		void none( daw::basic_string_view<C> x, char const *op ) {
			if( not x.empty( ) ) {
				fail( std::string( op ) + ": delimiter absent, but a non-empty piece was returned" );
			}
		}
	};

	template<typename C>
	void history( Src &s ) {
		M<C> m( s, 48 );
		s.note( [&] {
			return "text " + show( m.text );
		} );
		std::size_t steps = 1 + s.len( 14 );
		for( std::size_t k = 0; k < steps; ++k ) {
			auto const cur = m.cur( );
			std::size_t const n = cur.size( );
			// delimiter: often a piece of what is viewed
			C const d = n and s.boolean( ) ? s.pick_of( cur ) : gen_char<C>( s );
			Str<C> ds;
			if( n and s.chance( 2, 3 ) ) {
				std::size_t p = s.below( n );
				ds = cur.substr( p, 1 + s.below( 3 ) );
			} else {
				for( std::size_t i = 0, c = 1 + s.below( 3 ); i < c; ++i ) {
					ds += gen_char<C>( s );
				}
			}
			auto dbuf = Exact<C>::from( ds );
			daw::basic_string_view<C> dsv( dbuf.data( ), dbuf.size( ) );
			C const p1 = n and s.boolean( ) ? s.pick_of( cur ) : gen_char<C>( s ), p2 = gen_char<C>( s );
			auto pred = [=]( C c ) {
				return c == p1 or c == p2;
			};
			std::size_t const cnt = s.chance( 1, 10 ) ? npos : s.below( n + 3 );
			std::size_t const in = s.below( n + 1 );
			auto find_if = [&]( auto f ) {
				auto it = std::find_if( cur.begin( ), cur.end( ), f );
				return it == cur.end( ) ? npos : static_cast<std::size_t>( it - cur.begin( ) );
			};
			auto rfind_if = [&]( auto f ) {
				auto it = std::find_if( cur.rbegin( ), cur.rend( ), f );
				return it == cur.rend( ) ? npos : static_cast<std::size_t>( cur.rend( ) - it - 1 );
			};
			std::size_t const op = s.draw( 53 );
			s.note( [&] {
				return "op " + show( op ) + " view " + show( cur ) + " char " + show( Str<C>( 1, d ) ) + " str " + show( ds ) + " pred {" + show( Str<C>{ p1, p2 } ) + "} count " + show( cnt );
			} );
			// front, split at found position p (npos: whole view), delimiter of dl
			auto front = [&]( daw::basic_string_view<C> r, std::size_t p, std::size_t dl, char const *nm ) {
				s.nontrivial( p != npos );
				std::size_t q = std::min( p, n );
				m.same( r, m.b, m.b + q, nm );
				m.b += q;
				m.b += std::min( dl, m.size( ) );
			};
			auto try_front = [&]( daw::basic_string_view<C> r, std::size_t p, std::size_t dl, char const *nm ) {
				if( p == npos ) {
					m.none( r, nm );
				} else {
					front( r, p, dl, nm );
				}
			};
			// back: piece after the delimiter at p (length dl), keep keeps it
			auto back = [&]( daw::basic_string_view<C> r, std::size_t p, std::size_t dl, bool keep, char const *nm ) {
				s.nontrivial( p != npos );
				if( p == npos ) {
					m.same( r, m.b, m.e, nm );
					if( not m.sv.empty( ) ) {
						fail( std::string( nm ) + ": view not empty after the delimiter was absent" );
					}
					m.b = m.e; // everything consumed
					if( m.sv.data( ) == m.buf.data( ) + m.b - n ) {
						m.e = m.b = m.b - n;
					}
				} else {
					m.same( r, m.b + p + dl, m.e, nm );
					m.e = m.b + p + ( keep ? dl : 0 );
				}
			};
			auto try_back = [&]( daw::basic_string_view<C> r, std::size_t p, std::size_t dl, bool keep, char const *nm ) {
				if( p == npos ) {
					m.none( r, nm );
				} else {
					back( r, p, dl, keep, nm );
				}
			};
			auto &v = m.sv;
			char const *nm = "?";
#define OP( N, NAME ) break; case N: nm = NAME;
			switch( op ) {
			case 0: nm = "pop_front( )";
				if( n ) {
					CHECK_EQ( v.pop_front( ), cur.front( ) );
					m.b++;
				}
			OP( 1, "pop_front_unsafe( )" )
				if( n ) {
					CHECK_EQ( v.pop_front_unsafe( ), cur.front( ) );
					m.b++;
				}
			OP( 2, "pop_front( n )" )
				front( v.pop_front( cnt ), cnt > n ? n : cnt, 0, nm );
			OP( 3, "pop_front_unsafe( n )" )
				front( v.pop_front_unsafe( in ), in, 0, nm );
			OP( 4, "pop_front_until( sv, nodiscard )" )
				front( v.pop_front_until( dsv, daw::nodiscard ), cur.find( ds ), 0, nm );
			OP( 5, "pop_front_until( sv )" )
				front( v.pop_front_until( dsv ), cur.find( ds ), ds.size( ), nm );
			OP( 6, "pop_front_until( char, nodiscard )" )
				front( v.pop_front_until( d, daw::nodiscard ), cur.find( d ), 0, nm );
			OP( 7, "pop_front_until( char )" )
				front( v.pop_front_until( d ), cur.find( d ), 1, nm );
			OP( 8, "pop_front_until( pred, nodiscard )" )
				front( v.pop_front_until( pred, daw::nodiscard ), find_if( pred ), 0, nm );
			OP( 9, "pop_front_until( pred )" )
				front( v.pop_front_until( pred ), find_if( pred ), 1, nm );
			OP( 10, "pop_front_while( char )" )
				front( v.pop_front_while( d ), cur.find_first_not_of( d ), 0, nm );
			OP( 11, "pop_front_while( set )" )
				front( v.pop_front_while( dsv ), cur.find_first_not_of( ds ), 0, nm );
			OP( 12, "pop_front_while( pred )" )
				front( v.pop_front_while( pred ), find_if( [&]( C c ) { return not pred( c ); } ), 0, nm );
			OP( 13, "pop_back( )" )
				if( n ) {
					CHECK_EQ( v.pop_back( ), cur.back( ) );
					m.e--;
				}
			OP( 14, "pop_back_unsafe( )" )
				if( n ) {
					CHECK_EQ( v.pop_back_unsafe( ), cur.back( ) );
					m.e--;
				}
			OP( 15, "pop_back( n )" ) {
				std::size_t c = std::min( cnt, n );
				m.same( v.pop_back( cnt ), m.e - c, m.e, nm );
				m.e -= c;
			}
			OP( 16, "pop_back_unsafe( n )" )
				m.same( v.pop_back_unsafe( in ), m.e - in, m.e, nm );
				m.e -= in;
			OP( 17, "pop_back_until( sv, nodiscard )" )
				back( v.pop_back_until( dsv, daw::nodiscard ), cur.rfind( ds ), ds.size( ), true, nm );
			OP( 18, "pop_back_until( sv )" )
				back( v.pop_back_until( dsv ), cur.rfind( ds ), ds.size( ), false, nm );
			OP( 19, "pop_back_until( char, nodiscard )" )
				back( v.pop_back_until( d, daw::nodiscard ), cur.rfind( d ), 1, true, nm );
			OP( 20, "pop_back_until( char )" )
				back( v.pop_back_until( d ), cur.rfind( d ), 1, false, nm );
			OP( 21, "pop_back_until( pred )" )
				back( v.pop_back_until( pred ), rfind_if( pred ), 1, false, nm );
			OP( 22, "pop_back_until( pred, nodiscard )" )
				back( v.pop_back_until( pred, daw::nodiscard ), rfind_if( pred ), 1, true, nm );
			OP( 23, "try_pop_front_until( sv )" )
				try_front( v.try_pop_front_until( dsv ), cur.find( ds ), ds.size( ), nm );
			OP( 24, "try_pop_front_until( sv, nodiscard )" )
				try_front( v.try_pop_front_until( dsv, daw::nodiscard ), cur.find( ds ), 0, nm );
			OP( 25, "try_pop_front_until( char )" )
				try_front( v.try_pop_front_until( d ), cur.find( d ), 1, nm );
			OP( 26, "try_pop_front_until( char, nodiscard )" )
				try_front( v.try_pop_front_until( d, daw::nodiscard ), cur.find( d ), 0, nm );
			OP( 27, "try_pop_front_until( pred )" )
				try_front( v.try_pop_front_until( pred ), find_if( pred ), 1, nm );
			OP( 28, "try_pop_front_until( pred, nodiscard )" )
				try_front( v.try_pop_front_until( pred, daw::nodiscard ), find_if( pred ), 0, nm );
			OP( 29, "try_pop_back_until( sv )" )
				try_back( v.try_pop_back_until( dsv ), cur.rfind( ds ), ds.size( ), false, nm );
			OP( 30, "try_pop_back_until( sv, nodiscard )" )
				try_back( v.try_pop_back_until( dsv, daw::nodiscard ), cur.rfind( ds ), ds.size( ), true, nm );
			OP( 31, "try_pop_back_until( char )" )
				try_back( v.try_pop_back_until( d ), cur.rfind( d ), 1, false, nm );
			OP( 32, "try_pop_back_until( char, nodiscard )" )
				try_back( v.try_pop_back_until( d, daw::nodiscard ), cur.rfind( d ), 1, true, nm );
			OP( 33, "try_pop_back_until( pred )" )
				try_back( v.try_pop_back_until( pred ), rfind_if( pred ), 1, false, nm );
			OP( 34, "try_pop_back_until( pred, nodiscard )" )
				try_back( v.try_pop_back_until( pred, daw::nodiscard ), rfind_if( pred ), 1, true, nm );
			OP( 35, "remove_prefix( n )" ) {
				auto &r = v.remove_prefix( cnt );
				CHECK( &r == &v );
				m.b += std::min( cnt, n );
			}
			OP( 36, "remove_prefix( )" )
				v.remove_prefix( );
				m.b += std::min<std::size_t>( 1, n );
			OP( 37, "remove_suffix( n )" )
				v.remove_suffix( cnt );
				m.e -= std::min( cnt, n );
			OP( 38, "remove_suffix( )" )
				v.remove_suffix( );
				m.e -= std::min<std::size_t>( 1, n );
			OP( 39, "remove_prefix_unsafe( n )" )
				v.remove_prefix_unsafe( in );
				m.b += in;
			OP( 40, "remove_suffix_unsafe( n )" )
				v.remove_suffix_unsafe( in );
				m.e -= in;
			OP( 41, "remove_prefix_until( char )" )
				v.remove_prefix_until( d );
				m.b += std::min( n, cur.find( d ) );
				m.b += std::min<std::size_t>( 1, m.size( ) );
			OP( 42, "remove_prefix_until( char, nodiscard )" )
				v.remove_prefix_until( d, daw::nodiscard );
				m.b += std::min( n, cur.find( d ) );
			OP( 43, "remove_prefix_until( sv )" )
				v.remove_prefix_until( dsv );
				m.b += std::min( n, cur.find( ds ) );
				m.b += std::min( ds.size( ), m.size( ) );
			OP( 44, "remove_prefix_until( sv, nodiscard )" )
				v.remove_prefix_until( dsv, daw::nodiscard );
				m.b += std::min( n, cur.find( ds ) );
			OP( 45, "remove_prefix_until( pred )" )
				v.remove_prefix_until( pred );
				m.b += std::min( n, find_if( pred ) );
				m.b += std::min<std::size_t>( 1, m.size( ) );
			OP( 46, "remove_prefix_until( pred, nodiscard )" )
				v.remove_prefix_until( pred, daw::nodiscard );
				m.b += std::min( n, find_if( pred ) );
			OP( 47, "remove_prefix_while" )
				if( s.boolean( ) ) {
					v.remove_prefix_while( d );
					m.b += std::min( n, cur.find_first_not_of( d ) );
				} else {
					v.remove_prefix_while( pred );
					m.b += std::min( n, find_if( [&]( C c ) { return not pred( c ); } ) );
				}
			OP( 48, "remove_suffix_while" )
				if( s.boolean( ) ) {
					v.remove_suffix_while( d );
					m.e = m.b + ( cur.find_last_not_of( d ) + 1 );
				} else {
					v.remove_suffix_while( pred );
					m.e = m.b + ( rfind_if( [&]( C c ) { return not pred( c ); } ) + 1 );
				}
			OP( 49, "resize" )
				v.resize( in );
				m.e = m.b + in;
			OP( 50, "trim family" ) {
				std::size_t f = std::min( n, find_if( [&]( C c ) { return not is_space( c ); } ) );
				std::size_t l = rfind_if( [&]( C c ) { return not is_space( c ); } ) + 1;
				std::size_t l2 = l < f ? f : l;
				m.same( v.trim_prefix_copy( ), m.b + f, m.e, "trim_prefix_copy" );
				m.same( v.trim_suffix_copy( ), m.b, m.b + l, "trim_suffix_copy" );
				m.same( v.trim_copy( ), m.b + f, m.b + l2, "trim_copy" );
				m.state( "trim copies" );
				switch( s.draw( 2 ) ) {
				case 0:
					CHECK( &v.trim_prefix( ) == &v );
					m.b += f;
					break;
				case 1:
					CHECK( &v.trim_suffix( ) == &v );
					m.e = m.b + l;
					break;
				default:
					CHECK( &v.trim( ) == &v );
					m.e = m.b + l2;
					m.b += f;
				}
			}
			OP( 51, "expand_prefix/expand_suffix" )
				// grow back over characters consumed before
				if( v.data( ) and s.boolean( ) and m.b > 0 ) {
					std::size_t g = 1 + s.below( m.b );
					if( g == 1 and s.boolean( ) ) {
						v.expand_prefix( );
					} else {
						v.expand_prefix( g );
					}
					m.b -= g;
				} else if( v.data( ) and m.e < m.text.size( ) ) {
					std::size_t g = 1 + s.below( m.text.size( ) - m.e );
					if( g == 1 and s.boolean( ) ) {
						v.expand_suffix( );
					} else {
						v.expand_suffix( g );
					}
					m.e += g;
				}
			OP( 52, "remove_prefix_unsafe/suffix_unsafe( )" )
				if( n ) {
					if( s.boolean( ) ) {
						v.remove_prefix_unsafe( );
						m.b++;
					} else {
						v.remove_suffix_unsafe( );
						m.e--;
					}
				}
			OP( 53, "clear" )
				if( s.chance( 1, 4 ) ) {
					v.clear( );
					m.e = m.b;
				}
			}
#undef OP
			m.state( nm );
		}
	}

	// splitting visits every field exactly once, in order, and ends; the fields
	// joined with the delimiter rebuild the text
	template<typename C>
	void split( Src &s ) {
		Str<C> text;
		std::size_t const n_fields = 1 + s.len( 12 );
		std::vector<Str<C>> fields;
		Str<C> delim( 1, C( ',' ) );
		std::size_t const kind = s.draw( 2 );
		if( kind == 1 ) {
			delim += s.boolean( ) ? C( ',' ) : C( ':' );
		}
		for( std::size_t i = 0; i < n_fields; ++i ) {
			Str<C> f;
			for( std::size_t k = s.below( 5 ); k > 0; --k ) {
				C c = gen_char<C>( s );
				if( c == C( ',' ) or c == C( ':' ) ) {
					c = C( 'x' );
				}
				f += c;
			}
			if( i + 1 == n_fields and f.empty( ) ) {
				f += C( 'z' ); // `while( not empty )` cannot see a trailing empty field
			}
			fields.push_back( f );
			text += f;
			if( i + 1 < n_fields ) {
				text += delim;
			}
		}
		s.note( [&] {
			return "text " + show( text ) + " delim " + show( delim );
		} );
		s.nontrivial( n_fields > 1 );
		auto buf = Exact<C>::from( text );
		daw::basic_string_view<C> v( buf.data( ), buf.size( ) );
		auto db = Exact<C>::from( delim );
		daw::basic_string_view<C> dsv( db.data( ), db.size( ) );
		std::vector<Str<C>> got;
		while( not v.empty( ) ) {
			daw::basic_string_view<C> part =
			  kind == 0   ? v.pop_front_until( C( ',' ) )
			  : kind == 1 ? v.pop_front_until( dsv )
			              : v.pop_front_until( []( C c ) { return c == C( ',' ); } );
			got.push_back( Str<C>( part.data( ), part.size( ) ) );
			CHECK( got.size( ) <= fields.size( ) );
		}
		CHECK( got == fields );
		// from the back: same fields, reversed; here the *first* field must not
		// be empty
		if( not fields.front( ).empty( ) ) {
			daw::basic_string_view<C> w( buf.data( ), buf.size( ) );
			std::vector<Str<C>> rgot;
			while( not w.empty( ) ) {
				daw::basic_string_view<C> part =
				  kind == 0   ? w.pop_back_until( C( ',' ) )
				  : kind == 1 ? w.pop_back_until( dsv )
				              : w.pop_back_until( []( C c ) { return c == C( ',' ); } );
				rgot.push_back( Str<C>( part.data( ), part.size( ) ) );
				CHECK( rgot.size( ) <= fields.size( ) );
			}
			std::reverse( rgot.begin( ), rgot.end( ) );
			CHECK( rgot == fields );
		}
	}
} // namespace

PROP_T( history_char, history<char>, { .cases = 200000 } );
PROP_T( history_char16, history<char16_t>, { .cases = 60000 } );
PROP_T( history_char32, history<char32_t>, { .cases = 60000 } );
PROP_T( history_wchar, history<wchar_t>, { .cases = 60000 } );
PROP_T( split_char, split<char>, { .cases = 60000 } );
PROP_T( split_char32, split<char32_t>, { .cases = 30000 } );
