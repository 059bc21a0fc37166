// C37: the legacy string view (daw::sv1) against std::basic_string_view, for
// both ways of keeping its bounds.  Queries, consuming operations (as a history
// over an index range), comparison, concatenation, splitting and output.  The
// viewed buffer is allocated exactly, so a read outside it is caught.
// nontrivial: something non-empty was found, consumed, compared or split.
// pbt-scale: 3
// pbt-parts: 3
#include "pbt.h"
#include "daw/deprecated/daw_string_view1.h"
#include <algorithm>
#include <iomanip>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
using namespace pbt;

namespace {
	namespace sv1 = daw::sv1;
	using BP = sv1::StringViewBoundsPointer;
	using BS = sv1::StringViewBoundsSize;
	constexpr std::size_t npos = std::size_t( -1 );
	template<typename C>
	using Str = std::basic_string<C>;

	template<typename C>
	C gen_char( Src &s ) {
		// a small alphabet makes partial matches likely
		switch( s.draw( 11 ) ) {
		case 0: case 1: case 2:
			return C( 'a' );
		case 3: case 4: case 5:
			return C( 'b' );
		case 6:
			return C( 'c' );
		case 7:
			return C( ' ' );
		case 8:
			return C( 0 );
		case 9:
			return C( 0x80 );
		case 10:
			if constexpr( sizeof( C ) >= 2 ) {
				return s.pick<C>( { C( 0x161 ), C( 0x6100 ), C( 0x100 ), C( 0xFF61 ), C( 0xFFFF ) } );
			} else {
				return C( 0xFF );
			}
		default:
			if constexpr( sizeof( C ) == 4 ) {
				return s.pick<C>( { C( 0x10061 ), C( 0x10FFFF ), C( 0x61000000 ), C( 0x7FFFFFFF ) } );
			} else if constexpr( sizeof( C ) == 2 ) {
				return C( 0x8061 );
			} else {
				return C( s.draw( 255 ) );
			}
		}
	}
	template<typename C>
	Str<C> gen_str( Src &s, std::size_t max ) {
		Str<C> r;
		std::size_t n = s.longlen( max );
		if( s.chance( 1, 4 ) ) {
			// repetitive: many overlapping near matches
			Str<C> unit;
			std::size_t u = 1 + s.below( 3 );
			for( std::size_t i = 0; i < u; ++i ) {
				unit += gen_char<C>( s );
			}
			while( r.size( ) < n ) {
				r += unit;
			}
			r.resize( n );
			if( n and s.boolean( ) ) {
				r[s.below( n )] = gen_char<C>( s );
			}
			return r;
		}
		for( std::size_t i = 0; i < n; ++i ) {
			r += gen_char<C>( s );
		}
		return r;
	}
	// a needle: often a piece of the haystack, sometimes slightly changed
	template<typename C>
	Str<C> gen_needle( Src &s, Str<C> const &h ) {
		if( not h.empty( ) and s.chance( 3, 4 ) ) {
			std::size_t p = s.chance( 1, 4 ) ? h.size( ) - 1 - s.below( std::min<std::size_t>( h.size( ), 4 ) ) : s.below( h.size( ) );
			Str<C> r = h.substr( p, 1 + s.below( s.chance( 1, 6 ) ? h.size( ) - p : std::min<std::size_t>( 5, h.size( ) - p ) ) );
			if( s.chance( 1, 5 ) ) {
				r[s.below( r.size( ) )] = gen_char<C>( s );
			}
			if( s.chance( 1, 8 ) ) {
				r += gen_char<C>( s );
			}
			return r;
		}
		return gen_str<C>( s, 6 );
	}
	template<typename C>
	Str<C> no_nul( Str<C> v ) {
		for( auto &c : v ) {
			if( c == C( 0 ) ) {
				c = C( 'a' );
			}
		}
		return v;
	}
	template<typename C, typename B>
	struct Ctx {
		Str<C> h;
		Exact<C> buf;
		sv1::basic_string_view<C, B> sv;
		std::basic_string_view<C> st;
		Ctx( Src &s, Str<C> text )
		  : h( std::move( text ) )
		  , buf( Exact<C>::from( h ) )
		  , sv( buf.data( ), buf.size( ) )
		  , st( buf.data( ), buf.size( ) ) {
			s.note( [&] {
				return "view " + show( h );
			} );
			if( h.empty( ) and s.boolean( ) ) {
				switch( s.draw( 2 ) ) {
				case 0:
					sv = sv1::basic_string_view<C, B>( );
					break;
				case 1:
					sv = sv1::basic_string_view<C, B>( nullptr );
					break;
				default:
					sv = sv1::basic_string_view<C, B>( nullptr, std::size_t{ 0 } );
				}
				st = std::basic_string_view<C>( );
			}
		}
		explicit Ctx( Src &s, std::size_t max = 40 )
		  : Ctx( s, gen_str<C>( s, max ) ) {}
		void unchanged( ) const {
			CHECK( sv.data( ) == st.data( ) );
			CHECK_EQ( sv.size( ), st.size( ) );
		}
	};
	template<typename C, typename B>
	void same( sv1::basic_string_view<C, B> x, std::basic_string_view<C> w ) {
		CHECK_EQ( x.size( ), w.size( ) );
		CHECK( x.data( ) == w.data( ) );
		CHECK( x.end( ) == w.data( ) + w.size( ) );
	}

	template<typename C, typename B>
	void find_text( Src &s ) {
		Ctx<C, B> const c( s );
		// the needle may keep its bounds the other way
		Ctx<C, BP> const n( s, gen_needle<C>( s, c.h ) );
		Ctx<C, BS> const m( s, n.h );
		std::size_t const pos = s.chance( 1, 8 ) ? npos - s.below( 3 ) : s.below( c.h.size( ) + 3 );
		C const ch = s.boolean( ) and not c.h.empty( ) ? s.pick_of( c.h ) : gen_char<C>( s );
		s.note( [&] {
			return "pos " + show( pos ) + " char " + std::to_string( static_cast<long>( ch ) );
		} );
		auto const want = c.st.find( n.st, pos );
		auto const rwant = c.st.rfind( n.st, pos );
		if( not n.h.empty( ) and ( want != npos or rwant != npos ) ) {
			s.nontrivial( );
		}
		Str<C> const z = no_nul( n.h );
		CHECK_EQ( c.sv.find( n.sv, pos ), want );
		CHECK_EQ( c.sv.find( m.sv, pos ), want );
		CHECK_EQ( c.sv.find( n.sv ), c.st.find( n.st ) );
		CHECK_EQ( c.sv.find( n.buf.size( ) ? n.st.data( ) : z.data( ), pos, n.st.size( ) ), want );
		CHECK_EQ( c.sv.find( ch, pos ), c.st.find( ch, pos ) );
		CHECK_EQ( c.sv.find( ch ), c.st.find( ch ) );
		CHECK_EQ( c.sv.find( z.c_str( ), pos ), c.st.find( z, pos ) );
		CHECK_EQ( c.sv.find( z.c_str( ) ), c.st.find( z ) );
		CHECK_EQ( c.sv.rfind( n.sv, pos ), rwant );
		CHECK_EQ( c.sv.rfind( m.sv, pos ), rwant );
		CHECK_EQ( c.sv.rfind( n.sv ), c.st.rfind( n.st ) );
		CHECK_EQ( c.sv.rfind( z.data( ), pos, n.st.size( ) ), c.st.rfind( z, pos ) );
		CHECK_EQ( c.sv.rfind( ch, pos ), c.st.rfind( ch, pos ) );
		CHECK_EQ( c.sv.rfind( ch ), c.st.rfind( ch ) );
		CHECK_EQ( c.sv.rfind( z.c_str( ), pos ), c.st.rfind( z, pos ) );
		CHECK_EQ( c.sv.rfind( z.c_str( ) ), c.st.rfind( z ) );
		// an empty text is not searched for
		auto const last = n.h.empty( ) ? npos : c.st.rfind( n.st );
		CHECK_EQ( c.sv.search( n.sv, pos ), n.h.empty( ) ? npos : want );
		CHECK_EQ( c.sv.search( m.sv ), n.h.empty( ) ? npos : c.st.find( n.st ) );
		CHECK_EQ( c.sv.search_last( n.sv ), last );
		CHECK_EQ( c.sv.search_last( m.sv, pos ), last != npos and last >= pos ? last : npos );
		CHECK_EQ( c.sv.search( z.c_str( ), pos ), z.empty( ) ? npos : c.st.find( z, pos ) );
		CHECK_EQ( c.sv.search( z.c_str( ) ), z.empty( ) ? npos : c.st.find( z ) );
		CHECK_EQ( c.sv.search_last( z.c_str( ) ), z.empty( ) ? npos : c.st.rfind( z ) );
		c.unchanged( );
	}

	template<typename C, typename B>
	void find_set( Src &s ) {
		Ctx<C, B> c( s );
		auto const &k = c;
		Ctx<C, BP> const n( s, gen_needle<C>( s, c.h ) );
		Ctx<C, BS> const m( s, n.h );
		std::size_t const pos = s.chance( 1, 6 ) ? npos - s.below( 3 ) : s.below( c.h.size( ) + 3 );
		C const ch = s.boolean( ) and not c.h.empty( ) ? s.pick_of( c.h ) : gen_char<C>( s );
		s.note( [&] {
			return "pos " + show( pos ) + " char " + std::to_string( static_cast<long>( ch ) );
		} );
		if( n.h.size( ) > 1 and c.h.size( ) > 1 ) {
			s.nontrivial( );
		}
		Str<C> const z = no_nul( n.h );
		CHECK_EQ( k.sv.find_first_of( n.sv, pos ), c.st.find_first_of( n.st, pos ) );
		CHECK_EQ( k.sv.find_first_of( m.sv ), c.st.find_first_of( n.st ) );
		CHECK_EQ( k.sv.find_first_of( z.data( ), pos, z.size( ) ), c.st.find_first_of( z, pos ) );
		CHECK_EQ( k.sv.find_first_of( z.c_str( ), pos ), c.st.find_first_of( z, pos ) );
		CHECK_EQ( k.sv.find_first_of( z.c_str( ) ), c.st.find_first_of( z ) );
		CHECK_EQ( k.sv.find_first_of( ch, pos ), c.st.find_first_of( ch, pos ) );
		CHECK_EQ( k.sv.find_first_of( ch ), c.st.find_first_of( ch ) );
		CHECK_EQ( k.sv.find_first_not_of( n.sv, pos ), c.st.find_first_not_of( n.st, pos ) );
		CHECK_EQ( k.sv.find_first_not_of( m.sv ), c.st.find_first_not_of( n.st ) );
		CHECK_EQ( k.sv.find_first_not_of( z.data( ), pos, z.size( ) ), c.st.find_first_not_of( z, pos ) );
		CHECK_EQ( k.sv.find_first_not_of( z.c_str( ), pos ), c.st.find_first_not_of( z, pos ) );
		CHECK_EQ( k.sv.find_first_not_of( z.c_str( ) ), c.st.find_first_not_of( z ) );
		CHECK_EQ( k.sv.find_first_not_of( ch, pos ), c.st.find_first_not_of( ch, pos ) );
		CHECK_EQ( k.sv.find_first_not_of( ch ), c.st.find_first_not_of( ch ) );
		CHECK_EQ( k.sv.find_last_of( n.sv, pos ), c.st.find_last_of( n.st, pos ) );
		CHECK_EQ( k.sv.find_last_of( m.sv ), c.st.find_last_of( n.st ) );
		CHECK_EQ( k.sv.find_last_of( z.data( ), pos, z.size( ) ), c.st.find_last_of( z, pos ) );
		CHECK_EQ( k.sv.find_last_of( z.c_str( ), pos ), c.st.find_last_of( z, pos ) );
		CHECK_EQ( k.sv.find_last_of( z.c_str( ) ), c.st.find_last_of( z ) );
		CHECK_EQ( k.sv.find_last_of( ch, pos ), c.st.find_last_of( ch, pos ) );
		CHECK_EQ( k.sv.find_last_of( ch ), c.st.find_last_of( ch ) );
		C const lit[4] = { ch, C( 'a' ), C( ' ' ), C( 0 ) };
		CHECK_EQ( c.sv.find_last_of( lit, pos ), c.st.find_last_of( Str<C>( lit, 3 ), pos ) );
		CHECK_EQ( c.sv.find_last_of( lit ), c.st.find_last_of( Str<C>( lit, 3 ) ) );
		// which place find_last_not_of finds is a known finding; it is one of the
		// view's up to pos, or none
		sv1::basic_string_view<C, B> const own( n.st.data( ), n.st.size( ) );
		for( auto const r : { k.sv.find_last_not_of( own, pos ), k.sv.find_last_not_of( ch, pos ),
		                      k.sv.find_last_not_of( z.c_str( ), pos ), k.sv.find_last_not_of( z.data( ), pos, z.size( ) ) } ) {
			CHECK( r == npos or ( r < c.h.size( ) and r <= pos ) );
		}
		// by predicate
		auto const in = [&]( C x ) {
			return n.h.find( x ) != n.h.npos;
		};
		CHECK_EQ( k.sv.find_first_of_if( in, pos ), c.st.find_first_of( n.st, pos ) );
		CHECK_EQ( k.sv.find_first_of_if( in ), c.st.find_first_of( n.st ) );
		CHECK_EQ( k.sv.find_first_not_of_if( in, pos ), c.st.find_first_not_of( n.st, pos ) );
		CHECK_EQ( k.sv.find_first_not_of_if( in ), c.st.find_first_not_of( n.st ) );
		CHECK_EQ( k.sv.find_last_of_if( in, pos ), c.st.find_last_of( n.st, pos ) );
		CHECK_EQ( k.sv.find_last_of_if( in ), c.st.find_last_of( n.st ) );
		c.unchanged( );
	}

	template<typename C, typename B>
	void compare( Src &s ) {
		using SV = sv1::basic_string_view<C, B>;
		using ST = std::basic_string_view<C>;
		Ctx<C, B> const a( s );
		Str<C> o = a.h;
		switch( s.draw( 3 ) ) {
		case 0:
			o = gen_str<C>( s, 40 );
			break;
		case 1:
			o.resize( s.below( o.size( ) + 1 ) );
			break;
		case 2:
			if( not o.empty( ) ) {
				o[s.below( o.size( ) )] = gen_char<C>( s );
			}
			break;
		default:
			break;
		}
		Ctx<C, BP> const b( s, o );
		Ctx<C, BS> const d( s, o );
		if( not a.h.empty( ) and not o.empty( ) ) {
			s.nontrivial( );
		}
		auto const sign = []( int x ) {
			return ( x > 0 ) - ( x < 0 );
		};
		// ordering uses the character type's own <
		auto const cmp3 = []( ST x, ST y ) {
			return std::lexicographical_compare( x.begin( ), x.end( ), y.begin( ), y.end( ) )   ? -1
			       : std::lexicographical_compare( y.begin( ), y.end( ), x.begin( ), x.end( ) ) ? 1
			                                                                                   : 0;
		};
		int const want = cmp3( a.h, o );
		auto const six = [&]( auto const &x, auto const &y, int w ) {
			CHECK_EQ( x == y, w == 0 );
			CHECK_EQ( x != y, w != 0 );
			CHECK_EQ( x < y, w < 0 );
			CHECK_EQ( x <= y, w <= 0 );
			CHECK_EQ( x > y, w > 0 );
			CHECK_EQ( x >= y, w >= 0 );
		};
		CHECK_EQ( sign( a.sv.compare( b.sv ) ), want );
		CHECK_EQ( sign( a.sv.compare( d.sv ) ), want );
		CHECK_EQ( sign( d.sv.compare( a.sv ) ), -want );
		CHECK_EQ( sign( SV::compare( b.sv, d.sv ) ), 0 );
		six( a.sv, b.sv, want );
		six( a.sv, d.sv, want );
		six( b.sv, a.sv, -want );
		six( a.sv, o, want );
		six( o, a.sv, -want );
		Str<C> const z = no_nul( o );
		int const wz = cmp3( a.h, z );
		six( a.sv, z.c_str( ), wz );
		six( z.c_str( ), a.sv, -wz );
		CHECK_EQ( sign( a.sv.compare( z.c_str( ) ) ), wz );
		auto const p1 = s.below( a.h.size( ) + 1 );
		auto const n1 = s.chance( 1, 6 ) ? npos : s.below( a.h.size( ) + 3 );
		auto const p2 = s.below( o.size( ) + 1 );
		auto const n2 = s.chance( 1, 6 ) ? npos : s.below( o.size( ) + 3 );
		auto const sub = a.h.substr( p1, n1 );
		Ctx<C, B> const e( s, o );
		CHECK_EQ( sign( a.sv.compare( p1, n1, e.sv ) ), cmp3( sub, o ) );
		CHECK_EQ( sign( a.sv.compare( p1, n1, d.sv, p2, n2 ) ), cmp3( sub, o.substr( p2, n2 ) ) );
		CHECK_EQ( sign( a.sv.compare( p1, n1, z.c_str( ) ) ), cmp3( sub, z ) );
		auto const n3 = s.below( z.size( ) + 1 );
		CHECK_EQ( sign( a.sv.compare( p1, n1, z.data( ), n3 ) ), cmp3( sub, z.substr( 0, n3 ) ) );
		CHECK_THROWS( std::out_of_range, (void)a.sv.compare( a.h.size( ) + 1 + s.below( 2 ), n1, e.sv ) );
		// prefix and suffix
		CHECK_EQ( a.sv.starts_with( d.sv ), a.st.starts_with( o ) );
		CHECK_EQ( a.sv.ends_with( b.sv ), a.st.ends_with( o ) );
		CHECK( a.sv.starts_with( a.sv.substr( 0, p1 ) ) );
		CHECK( a.sv.ends_with( a.sv.substr( p1 ) ) );
		C const ch = not a.h.empty( ) and s.boolean( ) ? s.pick_of( a.h ) : gen_char<C>( s );
		CHECK_EQ( a.sv.starts_with( ch ), a.st.starts_with( ch ) );
		CHECK_EQ( a.sv.ends_with( ch ), a.st.ends_with( ch ) );
		CHECK_EQ( a.sv.starts_with( z.c_str( ) ), a.st.starts_with( z ) );
		CHECK_EQ( a.sv.ends_with( z.c_str( ) ), a.st.ends_with( z ) );
		// joined with strings
		CHECK_EQ( a.sv + o, a.h + o );
		CHECK_EQ( o + a.sv, o + a.h );
		CHECK_EQ( a.sv + z.c_str( ), a.h + z );
		CHECK_EQ( z.c_str( ) + a.sv, z + a.h );
		a.unchanged( );
	}

	template<typename C, typename B>
	void access( Src &s ) {
		using SV = sv1::basic_string_view<C, B>;
		Ctx<C, B> const a( s );
		auto const &h = a.h;
		if( h.size( ) > 1 ) {
			s.nontrivial( );
		}
		CHECK_EQ( a.sv.size( ), h.size( ) );
		CHECK_EQ( a.sv.length( ), h.size( ) );
		CHECK_EQ( a.sv.empty( ), h.empty( ) );
		CHECK_EQ( static_cast<bool>( a.sv ), not h.empty( ) );
		CHECK_EQ( Str<C>( a.sv.begin( ), a.sv.end( ) ), h );
		CHECK_EQ( Str<C>( a.sv.cbegin( ), a.sv.cend( ) ), h );
		CHECK_EQ( Str<C>( a.sv.rbegin( ), a.sv.rend( ) ), Str<C>( h.rbegin( ), h.rend( ) ) );
		CHECK_EQ( Str<C>( a.sv.crbegin( ), a.sv.crend( ) ), Str<C>( h.rbegin( ), h.rend( ) ) );
		CHECK( a.sv.data_end( ) == a.st.data( ) + h.size( ) );
		for( std::size_t i = 0; i < h.size( ); ++i ) {
			CHECK_EQ( a.sv[i], h[i] );
			CHECK_EQ( a.sv.at( i ), h[i] );
		}
		CHECK_THROWS( std::out_of_range, (void)a.sv.at( h.size( ) + s.below( 3 ) ) );
		CHECK_THROWS( std::out_of_range, (void)a.sv.at( npos - s.below( 3 ) ) );
		if( not h.empty( ) ) {
			CHECK_EQ( a.sv.front( ), h.front( ) );
			CHECK_EQ( a.sv.back( ), h.back( ) );
		}
		CHECK_EQ( a.sv.to_string( ), h );
		CHECK_EQ( sv1::to_string( a.sv ), h );
		CHECK_EQ( static_cast<Str<C>>( a.sv ), h );
		CHECK_EQ( static_cast<std::basic_string_view<C>>( a.sv ), a.st );
		auto const pos = s.below( h.size( ) + 1 );
		auto const cnt = s.chance( 1, 8 ) ? npos : s.below( h.size( ) + 3 );
		s.note( [&] {
			return "pos " + show( pos ) + " count " + show( cnt );
		} );
		same( a.sv.substr( pos, cnt ), a.st.substr( pos, cnt ) );
		same( a.sv.substr( pos ), a.st.substr( pos ) );
		same( a.sv.substr( ), a.st );
		CHECK_THROWS( std::out_of_range, (void)a.sv.substr( h.size( ) + 1 + s.below( 3 ), cnt ) );
		auto const n = std::min( cnt, h.size( ) - pos );
		Exact<C> out( n );
		CHECK_EQ( a.sv.copy( out.data( ), cnt, pos ), n );
		CHECK_EQ( Str<C>( out.begin( ), out.end( ) ), h.substr( pos, n ) );
		Exact<C> all( std::min( cnt, h.size( ) ) );
		CHECK_EQ( a.sv.copy( all.data( ), cnt ), all.size( ) );
		CHECK_EQ( Str<C>( all.begin( ), all.end( ) ), h.substr( 0, cnt ) );
		CHECK_THROWS( std::out_of_range, (void)a.sv.copy( out.data( ), cnt, h.size( ) + 1 + s.below( 3 ) ) );
		// built from other things
		auto const whole = std::basic_string_view<C>( h );
		same( SV( h ), whole );
		same( SV( whole ), whole );
		Str<C> const z = no_nul( h );
		same( SV( z.c_str( ) ), std::basic_string_view<C>( z ) );
		same( SV( h.data( ), n ), whole.substr( 0, n ) );
		same( SV( h.data( ), h.data( ) + n ), whole.substr( 0, n ) );
		same( SV( a.sv, cnt ), a.st.substr( 0, cnt ) );
		same( sv1::basic_string_view<C, BS>( a.sv, cnt ), a.st.substr( 0, cnt ) );
		std::vector<C> const v( h.begin( ), h.end( ) );
		same( sv1::make_string_view<C, B>( v ), std::basic_string_view<C>( v.data( ), v.size( ) ) );
		same( sv1::make_string_view<B>( h ), whole );
		same( sv1::make_string_view( a.sv ), a.st );
		same( sv1::make_string_view_it<C, B>( h.data( ), h.data( ) + h.size( ) ), whole );
		if( not h.empty( ) ) {
			same( sv1::make_string_view_it( h.begin( ), h.end( ) ), whole );
			same( sv1::make_string_view_it( h.begin( ) + static_cast<std::ptrdiff_t>( std::min( pos, h.size( ) - 1 ) ), h.end( ) ),
			      whole.substr( std::min( pos, h.size( ) - 1 ) ) );
		}
		C const lit[6] = { gen_char<C>( s ), C( 'x' ), gen_char<C>( s ), C( 'a' ), C( 'b' ), C( 0 ) };
		same( sv1::make_string_view( lit ), std::basic_string_view<C>( lit, 5 ) );
		SV t = a.sv;
		t = h;
		same( t, whole );
		SV u( lit, std::size_t{ 3 } );
		if( s.boolean( ) ) {
			t.swap( u );
		} else {
			using sv1::swap;
			swap( t, u );
		}
		same( u, whole );
		same( t, std::basic_string_view<C>( lit, 3 ) );
		t.clear( );
		CHECK( t.empty( ) );
		CHECK_EQ( t.size( ), 0U );
		CHECK( t.begin( ) == t.end( ) );
		a.unchanged( );
	}

	// a history of consuming operations over the index range [b, e)
	template<typename C, typename B>
	void consume( Src &s ) {
		using SV = sv1::basic_string_view<C, B>;
		Str<C> const h = gen_str<C>( s, 30 );
		auto buf = Exact<C>::from( h );
		SV sv( buf.data( ), buf.size( ) );
		std::basic_string_view<C> st( buf.data( ), buf.size( ) );
		s.note( [&] {
			return "text " + show( h );
		} );
		bool hit = false;
		for( auto steps = s.range<int>( 1, 8 ); steps > 0; --steps ) {
			Str<C> const nd = gen_needle<C>( s, Str<C>( st ) );
			auto nb = Exact<C>::from( nd );
			SV const where( nb.data( ), nb.size( ) );
			auto const n = s.chance( 1, 8 ) ? npos - s.below( 2 ) : s.below( st.size( ) + 3 );
			auto const k = std::min( n, st.size( ) );
			auto const pred = [&]( C x ) {
				return nd.find( x ) != nd.npos;
			};
			auto const op = s.below( 17 );
			s.note( [&] {
				return "op " + std::to_string( op ) + " n " + show( n ) + " needle " + show( nd );
			} );
			auto const fwd = st.find( nd );
			auto const rev = st.rfind( nd );
			switch( op ) {
			case 0:
				sv.remove_prefix( n );
				st.remove_prefix( k );
				break;
			case 1:
				sv.remove_suffix( n );
				st.remove_suffix( k );
				break;
			case 2:
				sv.remove_prefix( );
				st.remove_prefix( std::min<std::size_t>( 1, st.size( ) ) );
				break;
			case 3:
				sv.remove_suffix( );
				st.remove_suffix( std::min<std::size_t>( 1, st.size( ) ) );
				break;
			case 4:
				if( not st.empty( ) ) {
					CHECK_EQ( sv.pop_front( ), st.front( ) );
					st.remove_prefix( 1 );
				}
				break;
			case 5:
				if( not st.empty( ) ) {
					CHECK_EQ( sv.pop_back( ), st.back( ) );
					st.remove_suffix( 1 );
				}
				break;
			case 6:
				same( sv.pop_front( n ), st.substr( 0, k ) );
				st.remove_prefix( k );
				break;
			case 7:
				same( sv.pop_back( n ), st.substr( st.size( ) - k ) );
				st.remove_suffix( k );
				break;
			case 8: {
				auto const p = std::min( fwd, st.size( ) );
				hit = hit or ( fwd != npos and not nd.empty( ) );
				same( sv.pop_front( where ), st.substr( 0, p ) );
				st.remove_prefix( fwd == npos ? st.size( ) : p + nd.size( ) );
				break;
			}
			case 9: {
				hit = hit or ( rev != npos and not nd.empty( ) );
				auto const r = sv.pop_back( where );
				if( rev == npos ) {
					same( r, st );
					st.remove_prefix( st.size( ) );
				} else {
					same( r, st.substr( rev + nd.size( ) ) );
					st.remove_suffix( st.size( ) - rev );
				}
				break;
			}
			case 10: {
				auto const p = st.find_first_of( nd );
				hit = hit or p != npos;
				same( sv.pop_front( pred ), st.substr( 0, p ) );
				st.remove_prefix( p == npos ? st.size( ) : p + 1 );
				break;
			}
			case 11: {
				auto const p = st.find_last_of( nd );
				hit = hit or p != npos;
				auto const r = sv.pop_back( pred );
				if( p == npos ) {
					same( r, st );
					st.remove_prefix( st.size( ) );
				} else {
					same( r, st.substr( p + 1 ) );
					st.remove_suffix( st.size( ) - p );
				}
				break;
			}
			case 12: {
				auto const r = sv.try_pop_front( where );
				if( fwd == npos ) {
					CHECK( r.empty( ) );
				} else {
					hit = hit or not nd.empty( );
					same( r, st.substr( 0, fwd ) );
					st.remove_prefix( fwd + nd.size( ) );
				}
				break;
			}
			case 13: {
				auto const r = sv.try_pop_back( where );
				if( rev == npos ) {
					CHECK( r.empty( ) );
				} else {
					hit = hit or not nd.empty( );
					same( r, st.substr( rev + nd.size( ) ) );
					st.remove_suffix( st.size( ) - rev );
				}
				break;
			}
			case 14:
				CHECK( &sv.consume_front( where ) == &sv );
				hit = hit or ( fwd != npos and not nd.empty( ) );
				st.remove_prefix( fwd == npos ? st.size( ) : fwd + nd.size( ) );
				break;
			case 15:
				sv.resize( k );
				st = st.substr( 0, k );
				break;
			default:
				CHECK_THROWS( std::out_of_range, sv.resize( st.size( ) + 1 + s.below( 3 ) ) );
				break;
			}
			same( sv, st );
		}
		if( hit ) {
			s.nontrivial( );
		}
	}

	// the fields between delimiters; a final empty field is not reported
	template<typename C>
	std::vector<std::basic_string_view<C>> fields( std::basic_string_view<C> t, Str<C> const &delim ) {
		std::vector<std::basic_string_view<C>> r;
		while( not t.empty( ) ) {
			auto const p = t.find_first_of( delim );
			r.push_back( t.substr( 0, p ) );
			if( p == npos ) {
				break;
			}
			t.remove_prefix( p + 1 );
		}
		return r;
	}
	template<typename C, typename B>
	void split_text( Src &s ) {
		Ctx<C, B> const a( s );
		Str<C> delim( 1, not a.h.empty( ) and s.chance( 2, 3 ) ? s.pick_of( a.h ) : gen_char<C>( s ) );
		auto const check = [&]( auto const &got, std::vector<std::basic_string_view<C>> const &want, bool by_address ) {
			CHECK_EQ( got.size( ), want.size( ) );
			CHECK_EQ( got.empty( ), want.empty( ) );
			std::size_t i = 0;
			for( auto const &f : got ) {
				CHECK( i < want.size( ) );
				CHECK_EQ( Str<C>( f.begin( ), f.end( ) ), Str<C>( want[i] ) );
				CHECK_EQ( got[i].size( ), want[i].size( ) );
				if( by_address ) {
					CHECK( f.data( ) == want[i].data( ) );
				}
				++i;
			}
			CHECK_EQ( i, want.size( ) );
			std::vector<Str<C>> rev;
			for( auto it = got.rbegin( ); it != got.rend( ); ++it ) {
				rev.push_back( it->to_string( ) );
			}
			std::reverse( rev.begin( ), rev.end( ) );
			CHECK_EQ( rev.size( ), want.size( ) );
			CHECK( got.as_strings( ) == rev );
		};
		auto const want = fields<C>( a.st, delim );
		if( want.size( ) > 1 ) {
			s.nontrivial( );
		}
		check( sv1::split( a.sv, delim[0] ), want, true );
		C const lit[2] = { delim[0], C( 0 ) };
		check( sv1::split( a.sv, lit ), want, true );
		check( sv1::split<B>( a.h, delim[0] ), fields<C>( a.h, delim ), true );
		delim += gen_char<C>( s );
		auto const pred = [&]( C x ) {
			return delim.find( x ) != delim.npos;
		};
		check( sv1::split( a.sv, pred ), fields<C>( a.st, delim ), true );
		C text[9] = { };
		for( std::size_t i = 0; i < 8; ++i ) {
			text[i] = s.boolean( ) ? delim[s.below( 2 )] : gen_char<C>( s );
		}
		auto const w = fields<C>( std::basic_string_view<C>( text, 8 ), delim );
		check( sv1::split<B>( text, pred ), w, true );
		a.unchanged( );
	}

	// written like a std::string_view, padded as asked, and hashed by content
	template<typename B>
	void written( Src &s ) {
		Ctx<char, B> const a( s );
		std::ostringstream x;
		std::ostringstream y;
		auto const w = s.range<int>( 0, 50 );
		auto const fill = s.pick<char>( { ' ', '*', '\0', '\x80' } );
		auto const how = s.below( 3 );
		for( auto *o : { &x, &y } ) {
			*o << std::setw( w ) << std::setfill( fill );
			if( how == 1 ) {
				*o << std::left;
			} else if( how == 2 ) {
				*o << std::right;
			}
		}
		if( static_cast<std::size_t>( w ) > a.h.size( ) and not a.h.empty( ) ) {
			s.nontrivial( );
		}
		x << a.sv << '|' << a.sv;
		y << a.st << '|' << a.st;
		CHECK_EQ( x.str( ), y.str( ) );
		CHECK_EQ( x.width( ), 0 );
		auto b = Exact<char>::from( a.h );
		sv1::basic_string_view<char, B> const other( b.data( ), b.size( ) );
		CHECK_EQ( sv1::fnv1a_hash( a.sv ), daw::fnv1a_hash( b.data( ), b.size( ) ) );
		CHECK_EQ( sv1::fnv1a_hash( a.sv ), sv1::fnv1a_hash( other ) );
		CHECK_EQ( sv1::generic_hash( a.sv ), sv1::generic_hash( other ) );
		std::hash<sv1::basic_string_view<char, B>> const hs{ };
		CHECK_EQ( hs( a.sv ), hs( other ) );
	}
	using Fn = void ( * )( Src & );
	void any( Src &s, std::initializer_list<Fn> fs ) {
		fs.begin( )[s.below( fs.size( ) )]( s );
	}
} // namespace

#define ALL_KINDS( F )                                                                         \
	any( s, { F<char, BP>, F<char, BS>, F<char, BP>, F<char16_t, BP>, F<char32_t, BS>, F<wchar_t, BP> } )
#if PBT_PART == 0
PROP( find_text, {} ) {
	ALL_KINDS( find_text );
}
PROP( find_set, {} ) {
	ALL_KINDS( find_set );
}
KNOWN( legacy_find_last_not_of, "sv1::string_view( \"abcabfghijklm\" ).find_last_not_of( \"abc\" ) is 3, the last place of the set's first character (pinned by daw_string_view_find_last_not_of_001)" ) {
	sv1::string_view const v( "abcabfghijklm" );
	return v.find_last_not_of( "abc" ) != 12;
}
#endif
#if PBT_PART == 1
PROP( compare, {} ) {
	ALL_KINDS( compare );
}
PROP( access, {} ) {
	ALL_KINDS( access );
}
#endif
#if PBT_PART == 2
PROP( consume, {} ) {
	ALL_KINDS( consume );
}
PROP( split_text, {} ) {
	ALL_KINDS( split_text );
}
PROP( written, {} ) {
	any( s, { written<BP>, written<BS> } );
}
#endif
