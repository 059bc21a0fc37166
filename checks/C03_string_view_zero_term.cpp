// C03: the zero-terminated flag and C strings of string_view.
// Texts contain no NUL inside, but the buffers contain NULs between segments,
// so that both "really terminated" and "not terminated" views are common.
// Model: view = [b, e) of a buffer; "really terminated" = buffer[e] is NUL.
// nontrivial: the history saw a view flagged zero terminated after a mutation.
// pbt-scale: 6
#include "pbt.h"
#include "daw/daw_string_view.h"
#include <cstring>
using namespace pbt;

namespace {
	template<typename C>
	using Str = std::basic_string<C>;

	template<typename C>
	struct View {
		daw::basic_string_view<C> sv;
		Str<C> const *buf = nullptr; // owning buffer (with its final NUL)
		std::size_t b = 0, e = 0;
		bool null = true;
	};
	template<typename C>
	void check( Src &s, View<C> const &v, char const *op ) {
		if( v.null ) {
			CHECK( v.sv.empty( ) );
			CHECK( not static_cast<bool>( v.sv.is_zero_terminated( ) ) );
		}
		std::size_t const n = v.e - v.b;
		CHECK_EQ( v.sv.size( ), n );
		if( not v.null ) {
			CHECK( v.sv.data( ) == v.buf->data( ) + v.b );
		}
		bool const flag = static_cast<bool>( v.sv.is_zero_terminated( ) );
		bool const real = not v.null and v.buf->data( )[v.e] == C( 0 );
		if( flag and not real ) {
			fail( std::string( op ) + ": view claims to be zero terminated but is not" );
		}
		s.label( "flagged", flag );
		s.label( "not flagged", not flag );
		auto p = v.sv.get_c_str( );
		CHECK_EQ( p.size( ), n );
		C const *c = p.c_str( );
		CHECK( c != nullptr );
		CHECK( c[n] == C( 0 ) );
		if( n ) {
			CHECK( Str<C>( c, n ) == Str<C>( v.buf->data( ) + v.b, n ) );
			CHECK( Str<C>( c ) == Str<C>( v.buf->data( ) + v.b, n ) );
		}
		CHECK( static_cast<C const *>( p ) == c );
		CHECK( p.data( ) == c );
		CHECK( p.string( ) == Str<C>( c, n ) );
		CHECK( std::as_const( p ).string( ) == Str<C>( c, n ) );
		CHECK( v.sv.get_c_str( ).string( ) == Str<C>( c, n ) );
	}

	template<typename C>
	void history( Src &s ) {
		// segments separated by NULs; std::string adds the last one
		std::vector<Str<C>> bufs;
		std::size_t nb = 1 + s.below( 2 );
		for( std::size_t i = 0; i < nb; ++i ) {
			Str<C> t;
			std::size_t len = s.len( 20 );
			for( std::size_t k = 0; k < len; ++k ) {
				t += s.chance( 1, 6 ) ? C( 0 ) : C( 'a' + s.below( 3 ) );
			}
			bufs.push_back( t );
		}
		s.note( [&] {
			std::string r = "buffers";
			for( auto &b : bufs ) {
				r += " " + show( b );
			}
			return r;
		} );
		View<C> vs[3];
		// is there a NUL inside [b, e)?
		auto clean = [&]( View<C> const &v ) {
			for( std::size_t i = v.b; i < v.e; ++i ) {
				if( v.buf->data( )[i] == C( 0 ) ) {
					return false;
				}
			}
			return true;
		};
		std::size_t steps = 2 + s.len( 14 );
		for( std::size_t k = 0; k < steps; ++k ) {
			auto &v = vs[s.below( 3 )];
			auto &o = vs[s.below( 3 )];
			std::size_t const n = v.e - v.b;
			std::size_t const op = s.draw( 23 );
			char const *nm = "?";
			auto fresh = [&]( std::size_t &b, std::size_t &e ) -> Str<C> const & {
				auto const &t = bufs[s.below( nb )];
				b = s.below( t.size( ) + 1 );
				e = b;
				while( e < t.size( ) and t[e] != C( 0 ) ) {
					++e;
				}
				return t;
			};
			std::size_t b = 0, e = 0;
			switch( op ) {
			case 0: case 1: { // from pointer
				nm = "from pointer";
				auto const &t = fresh( b, e );
				v.sv = daw::basic_string_view<C>( t.data( ) + b );
				v.buf = &t; v.b = b; v.e = e; v.null = false;
				CHECK( static_cast<bool>( v.sv.is_zero_terminated( ) ) );
				break;
			}
			case 2: { // pointer and size, not flagged
				nm = "from pointer, size";
				auto const &t = fresh( b, e );
				e = b + s.below( e - b + 1 );
				v.sv = daw::basic_string_view<C>( t.data( ) + b, e - b );
				v.buf = &t; v.b = b; v.e = e; v.null = false;
				break;
			}
			case 3: { // pointer and size, promised terminated
				nm = "from pointer, size, zero_terminated";
				auto const &t = fresh( b, e );
				if( s.boolean( ) ) {
					v.sv = daw::basic_string_view<C>( t.data( ) + b, e - b, daw::zero_terminated );
				} else {
					v.sv = daw::basic_string_view<C>( t.data( ) + b, t.data( ) + e, daw::zero_terminated );
				}
				v.buf = &t; v.b = b; v.e = e; v.null = false;
				break;
			}
			case 4: { // two pointers
				nm = "from two pointers";
				auto const &t = fresh( b, e );
				e = b + s.below( e - b + 1 );
				v.sv = daw::basic_string_view<C>( t.data( ) + b, t.data( ) + e );
				v.buf = &t; v.b = b; v.e = e; v.null = false;
				break;
			}
			case 5: { // whole std::string
				nm = "from std::string";
				auto const &t = bufs[s.below( nb )];
				if( t.find( C( 0 ) ) == t.npos ) {
					v.sv = t;
					v.buf = &t; v.b = 0; v.e = t.size( ); v.null = false;
				}
				break;
			}
			case 6: { // std::string clipped to a count
				nm = "from std::string, count";
				auto const &t = bufs[s.below( nb )];
				std::size_t cnt = s.below( t.size( ) + 3 );
				std::size_t m = std::min( cnt, t.size( ) );
				if( t.substr( 0, m ).find( C( 0 ) ) == t.npos ) {
					if( s.boolean( ) or cnt > t.size( ) ) {
						v.sv = daw::basic_string_view<C>( t, cnt );
					} else {
						v.sv = daw::basic_string_view<C>( t, cnt, daw::dont_clip_to_bounds );
					}
					v.buf = &t; v.b = 0; v.e = m; v.null = false;
				}
				break;
			}
			case 7: { // std::string_view: never known to be terminated
				nm = "from std::string_view";
				auto const &t = fresh( b, e );
				e = b + s.below( e - b + 1 );
				v.sv = std::basic_string_view<C>( t.data( ) + b, e - b );
				v.buf = &t; v.b = b; v.e = e; v.null = false;
				break;
			}
			case 8:
				nm = "copy";
				v = o;
				break;
			case 9: {
				nm = "remove_prefix";
				std::size_t c = s.below( n + 2 );
				v.sv.remove_prefix( c );
				v.b += std::min( c, n );
				break;
			}
			case 10: {
				nm = "remove_suffix";
				std::size_t c = s.below( n + 2 );
				v.sv.remove_suffix( c );
				v.e -= std::min( c, n );
				break;
			}
			case 11: {
				nm = "resize";
				std::size_t c = s.below( n + 1 );
				v.sv.resize( c );
				v.e = v.b + c;
				break;
			}
			case 12: { // keep only growth that stays inside the segment
				nm = "expand_suffix";
				if( not v.null ) {
					View<C> w = v;
					std::size_t room = v.buf->size( ) - v.e;
					std::size_t g = 1 + s.below( 3 );
					if( g <= room ) {
						w.e += g;
						if( clean( w ) ) {
							if( g == 1 and s.boolean( ) ) {
								w.sv.expand_suffix( );
							} else {
								w.sv.expand_suffix( g );
							}
							v = w;
						}
					}
				}
				break;
			}
			case 13: {
				nm = "expand_prefix";
				if( not v.null and v.b > 0 ) {
					View<C> w = v;
					std::size_t g = 1 + s.below( std::min<std::size_t>( 3, v.b ) );
					w.b -= g;
					if( clean( w ) ) {
						if( g == 1 and s.boolean( ) ) {
							w.sv.expand_prefix( );
						} else {
							w.sv.expand_prefix( g );
						}
						v = w;
					}
				}
				break;
			}
			case 14: case 15: {
				nm = "substr";
				std::size_t p = s.below( n + 1 ), c = s.below( n + 2 );
				View<C> w = v;
				switch( s.draw( 3 ) ) {
				case 0:
					w.sv = v.sv.substr( p, c );
					w.b = v.b + p; w.e = w.b + std::min( c, n - p );
					break;
				case 1:
					w.sv = v.sv.substr( p );
					w.b = v.b + p;
					break;
				case 2:
					w.sv = v.sv.substr( );
					break;
				default:
					if( p + c <= n ) {
						w.sv = v.sv.substr_unsafe( p, c );
						w.b = v.b + p; w.e = w.b + c;
					} else {
						w.sv = v.sv.substr_unsafe( p );
						w.b = v.b + p;
					}
				}
				check( s, w, nm );
				if( s.boolean( ) ) {
					v = w;
				}
				break;
			}
			case 16: {
				nm = "pop_front( n )";
				std::size_t c = s.below( n + 2 );
				View<C> w = v;
				w.sv = v.sv.pop_front( c );
				w.e = w.b + std::min( c, n );
				v.b += std::min( c, n );
				check( s, w, nm );
				break;
			}
			case 17: {
				nm = "pop_back( n )";
				std::size_t c = s.below( n + 2 ), q = std::min( c, n );
				View<C> w = v;
				w.sv = s.boolean( ) ? v.sv.pop_back( c ) : v.sv.pop_back_unsafe( c = q );
				w.b = v.e - q;
				v.e -= q;
				check( s, w, nm );
				break;
			}
			case 18: {
				nm = "pop_front_until / pop_back_until";
				C d = C( 'a' + s.below( 3 ) );
				Str<C> cur( v.sv.data( ), n );
				View<C> w = v;
				if( s.boolean( ) ) {
					auto p = std::min( n, cur.find( d ) );
					w.sv = v.sv.pop_front_until( d );
					w.e = w.b + p;
					v.b += std::min( n, p + 1 );
				} else {
					auto p = cur.rfind( d );
					w.sv = v.sv.pop_back_until( d );
					if( p == cur.npos ) {
						v.b = static_cast<std::size_t>( v.null ? 0 : v.sv.data( ) - v.buf->data( ) );
						v.e = v.b;
					} else {
						w.b = v.b + p + 1;
						v.e = v.b + p;
					}
				}
				check( s, w, nm );
				break;
			}
			case 19:
				nm = "clear/reset/default/null";
				if( s.boolean( ) ) {
					v.sv.clear( );
					v.e = v.b;
				} else {
					v = View<C>{ };
					switch( s.draw( 2 ) ) {
					case 0: v.sv.reset( ); break;
					case 1: v.sv = nullptr; break;
					default: v.sv = daw::basic_string_view<C>( static_cast<C const *>( nullptr ) );
					}
				}
				break;
			case 20:
				nm = "set_zero_terminated";
				// documented use: the caller knows a NUL follows
				if( not v.null and v.buf->data( )[v.e] == C( 0 ) ) {
					v.sv.set_zero_terminated( );
					CHECK( static_cast<bool>( v.sv.is_zero_terminated( ) ) );
				}
				break;
			case 21: {
				nm = "trim / while";
				C d = C( 'a' + s.below( 3 ) );
				Str<C> cur( v.sv.data( ), n );
				if( s.boolean( ) ) {
					v.sv.remove_suffix_while( d );
					v.e = v.b + ( cur.find_last_not_of( d ) + 1 );
				} else {
					v.sv.remove_prefix_while( d );
					v.b += std::min( n, cur.find_first_not_of( d ) );
				}
				break;
			}
			case 22: {
				nm = "literal";
				static constexpr C lit[] = { C( 'a' ), C( 'b' ), C( 'c' ), C( 0 ) };
				static constexpr C raw[] = { C( 'a' ), C( 'b' ), C( 'c' ) };
				daw::basic_string_view<C> l( lit );
				CHECK_EQ( l.size( ), std::size_t{ 3 } );
				CHECK( static_cast<bool>( l.is_zero_terminated( ) ) );
				daw::basic_string_view<C> r( raw );
				CHECK_EQ( r.size( ), std::size_t{ 3 } );
				CHECK( not static_cast<bool>( r.is_zero_terminated( ) ) );
				daw::basic_string_view<C> q( lit, daw::not_zero_terminated );
				CHECK_EQ( q.size( ), std::size_t{ 4 } );
				CHECK( not static_cast<bool>( q.is_zero_terminated( ) ) );
				break;
			}
			default:
				nm = "remove_*_unsafe";
				if( n ) {
					if( s.boolean( ) ) {
						v.sv.remove_prefix_unsafe( );
						v.b++;
					} else {
						v.sv.remove_suffix_unsafe( );
						v.e--;
					}
				}
			}
			s.note( [&] {
				return std::string( nm ) + " -> view [" + show( v.b ) + "," + show( v.e ) + ")";
			} );
			s.nontrivial( k > 0 and static_cast<bool>( v.sv.is_zero_terminated( ) ) );
			check( s, v, nm );
		}
	}
} // namespace

PROP_T( history_char, history<char>, { .cases = 150000 } );
PROP_T( history_char16, history<char16_t>, { .cases = 60000 } );
PROP_T( history_char32, history<char32_t>, { .cases = 60000 } );
PROP_T( history_wchar, history<wchar_t>, { .cases = 60000 } );
