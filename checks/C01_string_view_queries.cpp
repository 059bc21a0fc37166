// C01: every read-only string_view operation answers like the character
// sequence it views.  Oracle: std::basic_string_view, or a naive scan for what
// std lacks.  The viewed buffer is allocated exactly, so a read outside it is
// an AddressSanitizer report.
// pbt-scale: 4
#include "pbt.h"
#include "daw/daw_string_view.h"
#include <algorithm>
#include <iomanip>
#include <sstream>
#include <compare>
using namespace pbt;

namespace {
	template<typename C>
	using Str = std::basic_string<C>;

	template<typename C>
	C gen_char( Src &s ) {
		// a small alphabet makes partial matches likely
		switch( s.draw( 11 ) ) {
		case 0: case 1: case 2:
			return C( 'a' );
		case 3: case 4: case 5:
			return C( 'b' );
		case 6:
			return C( 'c' );
		case 7:
			return C( ' ' );
		case 8:
			return C( 0 );
		case 9:
			return C( 0x80 );
		case 10:
			if constexpr( sizeof( C ) >= 2 ) {
				return s.pick<C>( { C( 0x161 ), C( 0x6100 ), C( 0x100 ), C( 0xFF61 ), C( 0xFFFF ) } );
			} else {
				return C( 0xFF );
			}
		default:
			if constexpr( sizeof( C ) == 4 ) {
				return s.pick<C>( { C( 0x10061 ), C( 0x10FFFF ), C( 0x61000000 ), C( 0x7FFFFFFF ) } );
			} else if constexpr( sizeof( C ) == 2 ) {
				return C( 0x8061 );
			} else {
				return C( s.draw( 255 ) );
			}
		}
	}
	template<typename C>
	Str<C> gen_str( Src &s, std::size_t max ) {
		Str<C> r;
		std::size_t n = s.longlen( max );
		if( s.chance( 1, 4 ) ) {
			// repetitive: many overlapping near matches
			Str<C> unit;
			std::size_t u = 1 + s.below( 3 );
			for( std::size_t i = 0; i < u; ++i ) {
				unit += gen_char<C>( s );
			}
			while( r.size( ) < n ) {
				r += unit;
			}
			r.resize( n );
			if( n and s.boolean( ) ) {
				r[s.below( n )] = gen_char<C>( s );
			}
			return r;
		}
		for( std::size_t i = 0; i < n; ++i ) {
			r += gen_char<C>( s );
		}
		return r;
	}
	// a needle: often a piece of the haystack, sometimes slightly changed
	template<typename C>
	Str<C> gen_needle( Src &s, Str<C> const &h ) {
		if( not h.empty( ) and s.chance( 3, 4 ) ) {
			std::size_t p = s.chance( 1, 4 ) ? h.size( ) - 1 - s.below( std::min<std::size_t>( h.size( ), 4 ) ) : s.below( h.size( ) );
			Str<C> r = h.substr( p, 1 + s.below( s.chance( 1, 6 ) ? h.size( ) - p : std::min<std::size_t>( 5, h.size( ) - p ) ) );
			if( s.chance( 1, 5 ) ) {
				r[s.below( r.size( ) )] = gen_char<C>( s );
			}
			if( s.chance( 1, 8 ) ) {
				r += gen_char<C>( s );
			}
			return r;
		}
		return gen_str<C>( s, 6 );
	}
	// case context: haystack in an exactly sized buffer plus std view of it
	template<typename C>
	struct Ctx {
		Str<C> h;
		Exact<C> buf;
		daw::basic_string_view<C> sv;
		std::basic_string_view<C> st;
		Ctx( Src &s, std::size_t max = 40 )
		  : h( gen_str<C>( s, max ) )
		  , buf( Exact<C>::from( h ) )
		  , sv( buf.data( ), buf.size( ) )
		  , st( buf.data( ), buf.size( ) ) {
			s.note( [&] {
				return "view " + show( h );
			} );
			if( h.empty( ) and s.boolean( ) ) {
				// the empty view without storage
				switch( s.draw( 2 ) ) {
				case 0:
					sv = daw::basic_string_view<C>( );
					break;
				case 1:
					sv = daw::basic_string_view<C>( nullptr );
					break;
				default:
					sv = daw::basic_string_view<C>( static_cast<C const *>( nullptr ) );
				}
				st = std::basic_string_view<C>( );
				s.label( "null view" );
			}
		}
		void unchanged( ) const {
			CHECK( sv.data( ) == st.data( ) );
			CHECK_EQ( sv.size( ), st.size( ) );
		}
	};
	template<typename C>
	struct Needle {
		Str<C> n;
		Exact<C> buf;
		daw::basic_string_view<C> sv;
		std::basic_string_view<C> st;
		Needle( Src &s, Str<C> const &h )
		  : n( gen_needle<C>( s, h ) )
		  , buf( Exact<C>::from( n ) )
		  , sv( buf.data( ), buf.size( ) )
		  , st( buf.data( ), buf.size( ) ) {
			s.note( [&] {
				return "needle " + show( n );
			} );
		}
	};
	// position within [0, size]
	std::size_t gen_pos( Src &s, std::size_t n ) {
		return s.below( n + 1 );
	}
	template<typename C>
	Str<C> no_nul( Str<C> v ) {
		for( auto &c : v ) {
			if( c == C( 0 ) ) {
				c = C( 'a' );
			}
		}
		return v;
	}

	// ---- find a character or a substring, forwards
	template<typename C>
	void find_fwd( Src &s ) {
		Ctx<C> c( s );
		Needle<C> n( s, c.h );
		std::size_t pos = gen_pos( s, c.h.size( ) );
		C ch = s.boolean( ) and not c.h.empty( ) ? s.pick_of( c.h ) : gen_char<C>( s );
		s.note( [&] {
			return "pos " + show( pos ) + " char " + std::to_string( (long)ch );
		} );
		auto const want = c.st.find( n.st, pos );
		s.nontrivial( want != c.st.npos and n.n.size( ) > 0 );
		s.label( "substring found", want != c.st.npos );
		s.label( "pos > 0", pos > 0 );
		CHECK_EQ( c.sv.find( n.sv, pos ), want );
		CHECK_EQ( c.sv.find( n.sv ), c.st.find( n.st ) );
		CHECK_EQ( c.sv.find( n.st.data( ), pos, n.st.size( ) ), want );
		CHECK_EQ( c.sv.find( ch, pos ), c.st.find( ch, pos ) );
		CHECK_EQ( c.sv.find( ch ), c.st.find( ch ) );
		CHECK_EQ( c.sv.find_first_match( n.sv, pos ), want );
		Str<C> z = no_nul( n.n );
		CHECK_EQ( c.sv.find( z.c_str( ), pos ), c.st.find( z, pos ) );
		CHECK_EQ( c.sv.find( z.c_str( ) ), c.st.find( z ) );
		// containment
		CHECK_EQ( c.sv.contains( n.sv ), c.st.find( n.st ) != c.st.npos );
		CHECK_EQ( c.sv.contains( ch, pos ), c.st.find( ch, pos ) != c.st.npos );
		CHECK_EQ( c.sv.contains( ch ), c.st.find( ch ) != c.st.npos );
		CHECK_EQ( c.sv.contains( n.st.data( ), pos, n.st.size( ) ), want != c.st.npos );
		CHECK_EQ( c.sv.contains( z.c_str( ), pos ), c.st.find( z, pos ) != c.st.npos );
		CHECK_EQ( c.sv.contains( z.c_str( ) ), c.st.find( z ) != c.st.npos );
		// search/search_last: an empty needle is never found
		if( n.n.empty( ) ) {
			CHECK_EQ( c.sv.search( n.sv, pos ), c.sv.npos );
			CHECK_EQ( c.sv.search_last( n.sv, pos ), c.sv.npos );
		} else {
			CHECK_EQ( c.sv.search( n.sv, pos ), want );
			CHECK_EQ( c.sv.search( n.sv ), c.st.find( n.st ) );
			CHECK_EQ( c.sv.search_last( n.sv ), c.st.rfind( n.st ) );
			auto last = c.st.rfind( n.st );
			CHECK_EQ( c.sv.search_last( n.sv, pos ), last != c.st.npos and last >= pos ? last : c.st.npos );
			if( not z.empty( ) ) {
				CHECK_EQ( c.sv.search( z.c_str( ), pos ), c.st.find( z, pos ) );
				CHECK_EQ( c.sv.search( z.c_str( ) ), c.st.find( z ) );
				CHECK_EQ( c.sv.search_last( z.c_str( ) ), c.st.rfind( z ) );
			}
		}
		c.unchanged( );
	}
	// ---- backwards
	template<typename C>
	void find_back( Src &s ) {
		Ctx<C> c( s );
		Needle<C> n( s, c.h );
		std::size_t pos = s.chance( 1, 5 ) ? std::size_t( -1 ) : s.below( c.h.size( ) + 3 );
		C ch = s.boolean( ) and not c.h.empty( ) ? s.pick_of( c.h ) : gen_char<C>( s );
		s.note( [&] {
			return "pos " + show( pos ) + " char " + std::to_string( (long)ch );
		} );
		auto const want = c.st.rfind( n.st, pos );
		s.nontrivial( want != c.st.npos and n.n.size( ) > 0 );
		CHECK_EQ( c.sv.rfind( n.sv, pos ), want );
		CHECK_EQ( c.sv.rfind( n.sv ), c.st.rfind( n.st ) );
		CHECK_EQ( c.sv.rfind( n.st.data( ), pos, n.st.size( ) ), want );
		CHECK_EQ( c.sv.rfind( ch, pos ), c.st.rfind( ch, pos ) );
		CHECK_EQ( c.sv.rfind( ch ), c.st.rfind( ch ) );
		Str<C> z = no_nul( n.n );
		CHECK_EQ( c.sv.rfind( z.c_str( ), pos ), c.st.rfind( z, pos ) );
		CHECK_EQ( c.sv.rfind( z.c_str( ) ), c.st.rfind( z ) );
		c.unchanged( );
	}
	// ---- character sets
	template<typename C>
	void find_set( Src &s ) {
		Ctx<C> c( s );
		Needle<C> n( s, c.h );
		std::size_t pos = gen_pos( s, c.h.size( ) );
		std::size_t rpos = s.chance( 1, 5 ) ? std::size_t( -1 ) : s.below( c.h.size( ) + 3 );
		C ch = s.boolean( ) and not c.h.empty( ) ? s.pick_of( c.h ) : gen_char<C>( s );
		s.note( [&] {
			return "pos " + show( pos ) + " rpos " + show( rpos ) + " char " + std::to_string( (long)ch );
		} );
		s.nontrivial( n.n.size( ) > 1 and c.h.size( ) > 1 );
		Str<C> z = no_nul( n.n );
		CHECK_EQ( c.sv.find_first_of( n.sv, pos ), c.st.find_first_of( n.st, pos ) );
		CHECK_EQ( c.sv.find_first_of( n.sv ), c.st.find_first_of( n.st ) );
		CHECK_EQ( c.sv.find_first_of( n.st.data( ), pos, n.st.size( ) ), c.st.find_first_of( n.st, pos ) );
		CHECK_EQ( c.sv.find_first_of( z.c_str( ), pos ), c.st.find_first_of( z, pos ) );
		CHECK_EQ( c.sv.find_first_of( z.c_str( ) ), c.st.find_first_of( z ) );
		CHECK_EQ( c.sv.find_first_of( ch, pos ), c.st.find_first_of( ch, pos ) );
		CHECK_EQ( c.sv.find_first_not_of( n.sv, pos ), c.st.find_first_not_of( n.st, pos ) );
		CHECK_EQ( c.sv.find_first_not_of( n.sv ), c.st.find_first_not_of( n.st ) );
		CHECK_EQ( c.sv.find_first_not_of( n.st.data( ), pos, n.st.size( ) ), c.st.find_first_not_of( n.st, pos ) );
		CHECK_EQ( c.sv.find_first_not_of( z.c_str( ), pos ), c.st.find_first_not_of( z, pos ) );
		CHECK_EQ( c.sv.find_first_not_of( ch, pos ), c.st.find_first_not_of( ch, pos ) );
		CHECK_EQ( c.sv.find_first_not_of( ch ), c.st.find_first_not_of( ch ) );
		CHECK_EQ( c.sv.find_last_not_of( n.sv, rpos ), c.st.find_last_not_of( n.st, rpos ) );
		CHECK_EQ( c.sv.find_last_not_of( n.sv ), c.st.find_last_not_of( n.st ) );
		CHECK_EQ( c.sv.find_last_not_of( n.st.data( ), rpos, n.st.size( ) ), c.st.find_last_not_of( n.st, rpos ) );
		CHECK_EQ( c.sv.find_last_not_of( z.c_str( ), rpos ), c.st.find_last_not_of( z, rpos ) );
		CHECK_EQ( c.sv.find_first_not_of( z.c_str( ) ), c.st.find_first_not_of( z ) );
		CHECK_EQ( c.sv.find_last_not_of( z.c_str( ) ), c.st.find_last_not_of( z ) );
		CHECK_EQ( c.sv.find_last_not_of( ch, rpos ), c.st.find_last_not_of( ch, rpos ) );
		CHECK_EQ( c.sv.find_last_not_of( ch ), c.st.find_last_not_of( ch ) );
		// the position argument of find_last_of is a known finding: only the
		// whole-view form is decided here
		CHECK_EQ( c.sv.find_last_of( n.sv ), c.st.find_last_of( n.st ) );
		CHECK_EQ( c.sv.find_last_of( ch ), c.st.find_last_of( ch ) );
		CHECK_EQ( c.sv.find_last_of( z.c_str( ) ), c.st.find_last_of( z ) );
		CHECK_EQ( c.sv.find_last_of( n.st.data( ), c.h.size( ), n.st.size( ) ), c.st.find_last_of( n.st ) );
		// a character array stands for all of it but its last element
		C arr[4] = { ch, n.st.empty( ) ? C( 0 ) : n.st.front( ), n.st.empty( ) ? ch : n.st.back( ), C( 0 ) };
		auto const whole = std::basic_string_view<C>( arr, 3 );
		auto view = c.sv;
		CHECK_EQ( view.find_last_of( arr ), c.st.find_last_of( whole ) );
		if( whole.find( C( 0 ) ) == whole.npos ) {
			CHECK_EQ( view == arr, c.st == whole );
			CHECK_EQ( arr == view, c.st == whole );
			CHECK_EQ( view != arr, c.st != whole );
			CHECK_EQ( view.find( arr ), c.st.find( whole ) );
			CHECK_EQ( view.starts_with( arr ), c.st.starts_with( whole ) );
			CHECK_EQ( view.ends_with( arr ), c.st.ends_with( whole ) );
			CHECK_EQ( view.contains( arr ), c.st.find( whole ) != c.st.npos );
			CHECK_EQ( c.sv.find_first_not_of( std::move( arr ) ), c.st.find_first_not_of( whole ) );
		}
		CHECK_EQ( c.sv.compare( arr ) == 0, c.st == whole );
		CHECK_EQ( c.sv.compare( arr ) < 0, std::lexicographical_compare( c.st.begin( ), c.st.end( ), arr, arr + 3 ) );
		c.unchanged( );
	}
	// ---- predicates and several needles: naive scans
	template<typename C>
	void find_pred( Src &s ) {
		Ctx<C> c( s );
		std::size_t const size = c.h.size( );
		std::size_t pos = gen_pos( s, size );
		std::size_t rpos = s.chance( 1, 5 ) ? std::size_t( -1 ) : s.below( size + 3 );
		Str<C> set;
		for( std::size_t i = 0, k = s.below( 4 ); i < k; ++i ) {
			set += gen_char<C>( s );
		}
		std::size_t calls = 0;
		auto pred = [&]( C x ) {
			++calls;
			return set.find( x ) != set.npos;
		};
		s.note( [&] {
			return "pos " + show( pos ) + " rpos " + show( rpos ) + " set " + show( set );
		} );
		auto fwd = [&]( bool want ) {
			for( std::size_t i = pos; i < size; ++i ) {
				if( ( set.find( c.h[i] ) != set.npos ) == want ) {
					return i;
				}
			}
			return std::size_t( -1 );
		};
		auto back = [&]( bool want, std::size_t from ) { // from inclusive
			for( std::size_t i = std::min( from, size - 1 ) + 1; size and i-- > 0; ) {
				if( ( set.find( c.h[i] ) != set.npos ) == want ) {
					return i;
				}
			}
			return std::size_t( -1 );
		};
		s.nontrivial( fwd( true ) != std::size_t( -1 ) );
		CHECK_EQ( c.sv.find_first_of_if( pred, pos ), fwd( true ) );
		CHECK_EQ( c.sv.find_first_not_of_if( pred, pos ), fwd( false ) );
		CHECK_EQ( c.sv.find_last_of_if( pred ), back( true, size ) );
		pos = 0;
		CHECK_EQ( c.sv.find_first_of_if( pred ), fwd( true ) );
		CHECK_EQ( c.sv.find_first_not_of_if( pred ), fwd( false ) );
		CHECK_EQ( c.sv.find_last_not_of_if( pred ), back( false, size ) );
		CHECK_EQ( c.sv.find_last_not_of_if( pred, rpos ), back( false, rpos ) );
		// several needles: the first position where one of them matches
		Needle<C> a( s, c.h ), b( s, c.h ), d( s, c.h );
		std::size_t want = size + 1;
		for( auto const *n : { &a, &b, &d } ) {
			want = std::min( want, c.st.find( n->st, pos ) );
		}
		bool any_empty = a.n.empty( ) or b.n.empty( ) or d.n.empty( );
		s.label( "several needles, found", want <= size and not any_empty );
		CHECK_EQ( c.sv.find_first_match( { a.sv, b.sv, d.sv }, pos ), want > size ? c.sv.npos : want );
		want = std::min( { c.st.find( a.st ), c.st.find( b.st ) } );
		CHECK_EQ( c.sv.find_first_match( { a.sv, b.sv } ), want );
		c.unchanged( );
	}
	// ---- compare, order, prefix/suffix tests
	template<typename C>
	void compare( Src &s ) {
		Ctx<C> a( s );
		Str<C> o;
		switch( s.draw( 3 ) ) {
		case 0:
			o = gen_str<C>( s, 40 );
			break;
		case 1:
			o = a.h;
			break;
		case 2:
			o = a.h.substr( 0, s.below( a.h.size( ) + 1 ) );
			break;
		default:
			o = a.h;
			if( not o.empty( ) ) {
				o[s.below( o.size( ) )] = gen_char<C>( s );
			}
			if( s.boolean( ) ) {
				o += gen_char<C>( s );
			}
		}
		auto ob = Exact<C>::from( o );
		daw::basic_string_view<C> b( ob.data( ), ob.size( ) );
		s.note( [&] {
			return "other " + show( o );
		} );
		auto sign = []( int x ) {
			return ( x > 0 ) - ( x < 0 );
		};
		// ordering uses the character type's own <
		auto cmp3 = []( auto const &x, auto const &y ) {
			return std::lexicographical_compare( x.begin( ), x.end( ), y.begin( ), y.end( ) )   ? -1
			       : std::lexicographical_compare( y.begin( ), y.end( ), x.begin( ), x.end( ) ) ? 1
			                                                                                   : 0;
		};
		int const want = cmp3( a.h, o );
		s.nontrivial( not a.h.empty( ) and not o.empty( ) and a.h[0] == o[0] );
		s.label( "equal", want == 0 );
		CHECK_EQ( sign( a.sv.compare( b ) ), want );
		CHECK_EQ( sign( b.compare( a.sv ) ), -want );
		CHECK_EQ( sign( a.sv.compare( o ) ), want );
		CHECK_EQ( a.sv == b, want == 0 );
		CHECK_EQ( a.sv != b, want != 0 );
		CHECK_EQ( a.sv < b, want < 0 );
		CHECK_EQ( a.sv <= b, want <= 0 );
		CHECK_EQ( a.sv > b, want > 0 );
		CHECK_EQ( a.sv >= b, want >= 0 );
		CHECK_EQ( ( a.sv <=> b ) == 0, want == 0 );
		CHECK_EQ( ( a.sv <=> b ) < 0, want < 0 );
		CHECK_EQ( o == a.sv, want == 0 );
		CHECK_EQ( o != a.sv, want != 0 );
		if( want == 0 ) {
			CHECK_EQ( std::hash<daw::basic_string_view<C>>{ }( a.sv ), std::hash<daw::basic_string_view<C>>{ }( b ) );
		}
		// an ordering supplied by the caller
		auto rev = []( C x, C y ) {
			return y < x;
		};
		int wrev = std::lexicographical_compare( a.h.begin( ), a.h.end( ), o.begin( ), o.end( ), rev )   ? -1
		           : std::lexicographical_compare( o.begin( ), o.end( ), a.h.begin( ), a.h.end( ), rev ) ? 1
		                                                                                                 : 0;
		CHECK_EQ( sign( a.sv.compare( b, rev ) ), wrev );
		// partial comparisons
		std::size_t p1 = gen_pos( s, a.h.size( ) ), c1 = s.below( a.h.size( ) + 3 ), p2 = gen_pos( s, o.size( ) ), c2 = s.below( o.size( ) + 3 );
		s.note( [&] {
			return "p1 " + show( p1 ) + " c1 " + show( c1 ) + " p2 " + show( p2 ) + " c2 " + show( c2 );
		} );
		CHECK_EQ( sign( a.sv.compare( p1, c1, b ) ), cmp3( a.h.substr( p1, c1 ), o ) );
		CHECK_EQ( sign( a.sv.compare( p1, c1, b, p2, c2 ) ), cmp3( a.h.substr( p1, c1 ), o.substr( p2, c2 ) ) );
		std::size_t c3 = std::min( c2, o.size( ) );
		CHECK_EQ( sign( a.sv.compare( p1, c1, static_cast<C const *>( ob.data( ) ), c3 ) ), cmp3( a.h.substr( p1, c1 ), o.substr( 0, c3 ) ) );
		Str<C> z = no_nul( o );
		CHECK_EQ( sign( a.sv.compare( p1, c1, z.c_str( ) ) ), cmp3( a.h.substr( p1, c1 ), z ) );
		CHECK_EQ( z.c_str( ) == a.sv, z == a.h );
		CHECK_EQ( a.sv == z.c_str( ), z == a.h );
		CHECK_EQ( z.c_str( ) != a.sv, z != a.h );
		// prefix and suffix
		CHECK_EQ( a.sv.starts_with( b ), a.st.starts_with( o ) );
		CHECK_EQ( a.sv.ends_with( b ), a.st.ends_with( o ) );
		auto pre = a.sv.substr( 0, c1 );
		auto suf = a.sv.substr( p1 );
		CHECK( a.sv.starts_with( pre ) );
		CHECK( a.sv.ends_with( suf ) );
		C ch = gen_char<C>( s );
		CHECK_EQ( a.sv.starts_with( ch ), a.st.starts_with( ch ) );
		CHECK_EQ( a.sv.ends_with( ch ), a.st.ends_with( ch ) );
		CHECK_EQ( a.sv.starts_with( z.c_str( ) ), a.st.starts_with( z ) );
		CHECK_EQ( a.sv.ends_with( z.c_str( ) ), a.st.ends_with( z ) );
		a.unchanged( );
	}
	// ---- element access, iteration, sub-views, copying out
	template<typename C>
	void access( Src &s ) {
		Ctx<C> a( s );
		auto const &h = a.h;
		s.nontrivial( h.size( ) > 1 );
		CHECK_EQ( a.sv.size( ), h.size( ) );
		CHECK_EQ( a.sv.length( ), h.size( ) );
		CHECK_EQ( a.sv.empty( ), h.empty( ) );
		CHECK_EQ( Str<C>( a.sv.begin( ), a.sv.end( ) ), h );
		CHECK_EQ( Str<C>( a.sv.cbegin( ), a.sv.cend( ) ), h );
		CHECK_EQ( Str<C>( a.sv.rbegin( ), a.sv.rend( ) ), Str<C>( h.rbegin( ), h.rend( ) ) );
		CHECK_EQ( Str<C>( a.sv.crbegin( ), a.sv.crend( ) ), Str<C>( h.rbegin( ), h.rend( ) ) );
		CHECK( a.sv.data_end( ) == a.st.data( ) + h.size( ) );
		for( std::size_t i = 0; i < h.size( ); ++i ) {
			CHECK_EQ( a.sv[i], h[i] );
			CHECK_EQ( a.sv.at( i ), h[i] );
		}
		std::size_t over = h.size( ) + s.below( 3 );
		CHECK_THROWS( std::out_of_range, a.sv.at( over ) );
		if( not h.empty( ) ) {
			CHECK_EQ( a.sv.front( ), h.front( ) );
			CHECK_EQ( a.sv.back( ), h.back( ) );
		}
		CHECK_EQ( static_cast<Str<C>>( a.sv ), h );
		CHECK_EQ( static_cast<std::basic_string_view<C>>( a.sv ), a.st );
		std::size_t pos = gen_pos( s, h.size( ) );
		std::size_t cnt = s.chance( 1, 8 ) ? std::size_t( -1 ) : s.below( h.size( ) + 3 );
		s.note( [&] {
			return "pos " + show( pos ) + " count " + show( cnt );
		} );
		auto same = [&]( daw::basic_string_view<C> x, std::basic_string_view<C> w ) {
			CHECK( x.data( ) == w.data( ) );
			CHECK_EQ( x.size( ), w.size( ) );
		};
		same( a.sv.substr( pos, cnt ), a.st.substr( pos, cnt ) );
		same( a.sv.substr( pos ), a.st.substr( pos ) );
		same( a.sv.substr( ), a.st );
		same( a.sv.substr_unsafe( pos ), a.st.substr( pos ) );
		std::size_t ucnt = std::min( cnt, h.size( ) - pos );
		same( a.sv.substr_unsafe( pos, ucnt ), a.st.substr( pos, ucnt ) );
		// copying out writes exactly the reported number of characters
		std::size_t ccnt = s.below( h.size( ) + 4 );
		std::size_t n = std::min( ccnt, h.size( ) - pos );
		Exact<C> out( n );
		CHECK_EQ( a.sv.copy( out.data( ), ccnt, pos ), n );
		CHECK_EQ( Str<C>( out.begin( ), out.end( ) ), h.substr( pos, n ) );
		std::size_t n0 = std::min( ccnt, h.size( ) );
		Exact<C> out0( n0 );
		CHECK_EQ( a.sv.copy( out0.data( ), ccnt ), n0 );
		CHECK_EQ( Str<C>( out0.begin( ), out0.end( ) ), h.substr( 0, n0 ) );
		// construction
		Str<C> z = no_nul( h );
		daw::basic_string_view<C> fz( z.c_str( ) );
		CHECK( fz.data( ) == z.data( ) and fz.size( ) == z.size( ) );
		daw::basic_string_view<C> fs( h );
		CHECK( fs.data( ) == h.data( ) and fs.size( ) == h.size( ) );
		daw::basic_string_view<C> fr( a.st.data( ), a.st.data( ) + a.st.size( ) );
		same( fr, a.st );
		daw::basic_string_view<C> fc( h, cnt );
		CHECK( fc.data( ) == h.data( ) and fc.size( ) == std::min( cnt, h.size( ) ) );
		daw::basic_string_view<C> fv( a.st );
		same( fv, a.st );
		a.unchanged( );
	}
	template<typename C>
	void stream( Src &s ) {
		Ctx<C> a( s, 30 );
		std::basic_ostringstream<C> x, y;
		int items = 1 + static_cast<int>( s.below( 3 ) );
		bool padded = false;
		for( int i = 0; i < items; ++i ) {
			int w = static_cast<int>( s.below( 60 ) );
			C fill = s.pick<C>( { C( ' ' ), C( '*' ), C( '0' ) } );
			auto al = s.below( 4 );
			bool set_w = s.chance( 3, 4 );
			padded |= set_w and w > static_cast<int>( a.h.size( ) );
			for( auto *o : { &x, &y } ) {
				if( set_w ) {
					o->width( w );
				}
				o->fill( fill );
				switch( al ) {
				case 0: *o << std::left; break;
				case 1: *o << std::right; break;
				case 2: *o << std::internal; break;
				default: o->unsetf( std::ios_base::adjustfield ); break;
				}
			}
			s.note( [&] {
				return "width " + show( set_w ? w : 0 ) + " align " + show( al );
			} );
			x << a.sv;
			y << a.st;
			CHECK_EQ( x.width( ), y.width( ) );
		}
		s.nontrivial( padded );
		CHECK_EQ( x.str( ), y.str( ) );
		a.unchanged( );
	}
} // namespace

// nontrivial: the needle is non-empty and occurs in the view
PROP_T( find_fwd_char, find_fwd<char>, { .cases = 60000 } );
PROP_T( find_fwd_char8, find_fwd<char8_t>, { .cases = 20000 } );
PROP_T( find_fwd_char16, find_fwd<char16_t>, { .cases = 30000 } );
PROP_T( find_fwd_char32, find_fwd<char32_t>, { .cases = 30000 } );
PROP_T( find_fwd_wchar, find_fwd<wchar_t>, { .cases = 30000 } );
PROP_T( find_back_char, find_back<char>, { .cases = 60000 } );
PROP_T( find_back_char16, find_back<char16_t>, { .cases = 30000 } );
PROP_T( find_back_char32, find_back<char32_t>, { .cases = 30000 } );
PROP_T( find_back_wchar, find_back<wchar_t>, { .cases = 20000 } );
// nontrivial: view and set both have more than one character
PROP_T( find_set_char, find_set<char>, { .cases = 60000 } );
PROP_T( find_set_char16, find_set<char16_t>, { .cases = 30000 } );
PROP_T( find_set_char32, find_set<char32_t>, { .cases = 30000 } );
PROP_T( find_set_wchar, find_set<wchar_t>, { .cases = 20000 } );
// nontrivial: the predicate holds somewhere
PROP_T( find_pred_char, find_pred<char>, { .cases = 50000 } );
PROP_T( find_pred_char16, find_pred<char16_t>, { .cases = 20000 } );
PROP_T( find_pred_char32, find_pred<char32_t>, { .cases = 20000 } );
PROP_T( find_pred_wchar, find_pred<wchar_t>, { .cases = 20000 } );
// nontrivial: both sides are non-empty and begin alike
PROP_T( compare_char, compare<char>, { .cases = 60000 } );
PROP_T( compare_char16, compare<char16_t>, { .cases = 20000 } );
PROP_T( compare_char32, compare<char32_t>, { .cases = 20000 } );
PROP_T( compare_wchar, compare<wchar_t>, { .cases = 20000 } );
// nontrivial: more than one character
PROP_T( access_char, access<char>, { .cases = 40000 } );
PROP_T( access_char16, access<char16_t>, { .cases = 20000 } );
PROP_T( access_char32, access<char32_t>, { .cases = 20000 } );
PROP_T( access_wchar, access<wchar_t>, { .cases = 20000 } );
// nontrivial: at least one padded item
PROP_T( stream_char, stream<char>, { .cases = 30000 } );
PROP_T( stream_wchar, stream<wchar_t>, { .cases = 20000 } );

KNOWN( find_last_of_position, "string_view( \"abca\" ).find_last_of( \"a\", 2 ) is 3: the position argument is ignored (pinned by daw_string_view_find_last_of_004)" ) {
	daw::string_view v = "abca";
	return v.find_last_of( daw::string_view( "a" ), 2 ) != 0;
}
