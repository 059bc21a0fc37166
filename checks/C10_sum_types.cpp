// C10: optional, expected, checked expected, union pair, polymorphic optional
// and uninitialized storage against std::optional / std::variant models.
// nontrivial: a transition between two different non-empty states, or between
// a non-empty state and the empty one, with a tracked value.
// pbt-flags: -Wno-self-move -Wno-self-assign-overloaded -Wno-deprecated-declarations
// pbt-scale: 2
// pbt-parts: 2
#include "pbt.h"
#include <array>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <system_error>
#include <variant>
#include <vector>

#include "daw/daw_expected.h"
#include "daw/daw_optional.h"
#include "daw/daw_uninitialized_storage.h"
#include "daw/daw_union_pair.h"
#include "daw/deprecated/daw_checked_expected.h"
#include "daw/deprecated/daw_optional_poly.h"
using namespace pbt;

namespace {
	struct Val { // all comparisons, tracked
		TrackedPlain t;
		Val( int x = 0 ) : t( x ) {}
		friend bool operator==( Val const &a, Val const &b ) { return a.t == b.t; }
		friend bool operator!=( Val const &a, Val const &b ) { return not( a.t == b.t ); }
		friend bool operator<( Val const &a, Val const &b ) { return a.t < b.t; }
		friend bool operator>( Val const &a, Val const &b ) { return b.t < a.t; }
		friend bool operator<=( Val const &a, Val const &b ) { return not( b.t < a.t ); }
		friend bool operator>=( Val const &a, Val const &b ) { return not( a.t < b.t ); }
	};
	template<typename A, typename B>
	void six( A const &a, B const &b, bool eq, bool lt, bool gt ) {
		CHECK_EQ( a == b, eq );
		CHECK_EQ( a != b, not eq );
		CHECK_EQ( a < b, lt );
		CHECK_EQ( a > b, gt );
		CHECK_EQ( a <= b, not gt );
		CHECK_EQ( a >= b, not lt );
	}

#if PBT_PART == 0
	PROP( optional, { .cases = 80000 } ) {
		{
			using O = daw::optional<Val>;
			using M = std::optional<int>;
			std::array<O, 3> h{ };
			std::array<M, 3> m{ };
			std::size_t ops = 1 + s.len( 16 );
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( 3 ), j = s.below( 3 );
				int x = static_cast<int>( s.below( 4 ) );
				auto op = s.below( 12 );
				auto before = m[i];
				s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + " " + std::to_string( x ) + "; "; } );
				switch( op ) {
				case 0:
					CHECK_EQ( h[i].emplace( x ).t.v, x );
					m[i] = x;
					break;
				case 1:
					h[i] = Val( x );
					m[i] = x;
					break;
				case 2: {
					Val const v( x );
					h[i] = v;
					m[i] = x;
					break;
				}
				case 3:
					h[i] = std::nullopt;
					m[i].reset( );
					break;
				case 4:
					h[i].reset( );
					m[i].reset( );
					break;
				case 5:
					h[i] = h[j];
					m[i] = m[j];
					break;
				case 6:
					h[i] = std::move( h[j] );
					if( i != j ) {
						m[i] = m[j];
						if( m[j] ) {
							m[j] = -1; // moved from, still engaged
						}
					} else if( m[i] ) {
						m[i] = ( *h[i] ).t.v;
					}
					break;
				case 7:
					h[i].swap( h[j] );
					if( i == j and m[i] ) {
						m[i] = ( *h[i] ).t.v;
					}
					std::swap( m[i], m[j] );
					break;
				case 8: {
					O t( h[i] );
					CHECK_EQ( t.has_value( ), m[i].has_value( ) );
					if( m[i] ) {
						t.value( ).t.v = 50;
						CHECK_EQ( h[i].value( ).t.v, *m[i] );
						Val r = std::move( t ).value( );
						CHECK_EQ( r.t.v, 50 );
						CHECK_EQ( t->t.v, -1 );
					}
					break;
				}
				case 9:
					h[i] = O( x );
					m[i] = x;
					break;
				case 10:
					if( m[i] ) {
						switch( s.below( 3 ) ) {
						case 0: ( *h[i] ).t.v = x; break;
						case 1: h[i]->t.v = x; break;
						default: h[i].value( ).t.v = x;
						}
						m[i] = x;
					}
					break;
				default:
					if( m[i] ) {
						Val r = *std::move( h[i] );
						CHECK_EQ( r.t.v, *m[i] );
						m[i] = -1;
					}
				}
				s.nontrivial( before != m[i] );
				long want = 0;
				for( std::size_t q = 0; q < 3; ++q ) {
					auto const &c = h[q];
					CHECK_EQ( c.has_value( ), m[q].has_value( ) );
					CHECK_EQ( static_cast<bool>( c ), m[q].has_value( ) );
					if( m[q] ) {
						++want;
						CHECK_EQ( ( *c ).t.v, *m[q] );
						CHECK_EQ( c->t.v, *m[q] );
						CHECK_EQ( c.value( ).t.v, *m[q] );
						CHECK_EQ( h[q].value( ).t.v, *m[q] );
						CHECK_EQ( ( *std::move( c ) ).t.v, *m[q] );
						CHECK_EQ( std::move( c ).value( ).t.v, *m[q] );
					}
				}
				CHECK_EQ( g_live, want );
				six( h[i], h[j], m[i] == m[j], m[i] < m[j], m[i] > m[j] );
				six( h[i], Val( x ), m[i] == x, m[i] < x, m[i] > x );
				six( Val( x ), h[i], m[i] == x, m[i] > x, m[i] < x );
				six( h[i], std::nullopt, not m[i], false, m[i].has_value( ) );
				six( std::nullopt, h[i], not m[i], m[i].has_value( ), false );
			}
			if( not m[0] ) {
				CHECK_THROWS( std::bad_optional_access, h[0].value( ) );
				CHECK_THROWS( std::bad_optional_access, std::as_const( h[0] ).value( ) );
			}
		}
		CHECK_EQ( g_live, 0 );
	}

	PROP( optional_ref, { .cases = 40000 } ) {
		int a[4] = { 10, 20, 30, 40 };
		using O = daw::optional<int &>;
		std::array<O, 3> h{ };
		std::array<int *, 3> m{ };
		std::size_t ops = 1 + s.len( 16 );
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( 3 ), j = s.below( 3 ), q = s.below( 4 );
			switch( s.below( 7 ) ) {
			case 0:
				s.nontrivial( m[i] and m[i] != a + q );
				h[i] = O( a[q] ); // rebinds
				m[i] = a + q;
				break;
			case 1:
				h[i] = std::nullopt;
				m[i] = nullptr;
				break;
			case 2:
				h[i].reset( );
				m[i] = nullptr;
				break;
			case 3:
				s.nontrivial( m[i] and m[j] and m[i] != m[j] );
				h[i] = h[j];
				m[i] = m[j];
				break;
			case 4:
				h[i].swap( h[j] );
				std::swap( m[i], m[j] );
				break;
			default:
				if( m[i] ) {
					int v = static_cast<int>( s.below( 100 ) );
					if( s.boolean( ) ) {
						*h[i] = v;
					} else {
						h[i].value( ) = v;
					}
					CHECK_EQ( *m[i], v );
				}
			}
			for( std::size_t z = 0; z < 3; ++z ) {
				CHECK_EQ( h[z].has_value( ), m[z] != nullptr );
				CHECK_EQ( static_cast<bool>( h[z] ), m[z] != nullptr );
				if( m[z] ) {
					CHECK( &*h[z] == m[z] );
					CHECK( &*std::as_const( h[z] ) == m[z] );
					CHECK( &h[z].value( ) == m[z] );
					CHECK( &std::as_const( h[z] ).value( ) == m[z] );
					CHECK( h[z].operator->( ) == m[z] );
				}
			}
			auto mi = m[i] ? std::optional<int>( *m[i] ) : std::nullopt;
			auto mj = m[j] ? std::optional<int>( *m[j] ) : std::nullopt;
			six( h[i], h[j], mi == mj, mi < mj, mi > mj );
			six( h[i], std::nullopt, not mi, false, mi.has_value( ) );
			six( std::nullopt, h[i], not mi, mi.has_value( ), false );
			int x = static_cast<int>( s.below( 50 ) );
			six( h[i], x, mi == x, mi < x, mi > x );
			six( x, h[i], mi == x, mi > x, mi < x );
		}
		if( not m[0] ) {
			CHECK_THROWS( std::bad_optional_access, h[0].value( ) );
		}
	}

	// ---- union pair
	struct Other {
		TrackedPlain t;
		std::string pad;
		explicit Other( int x ) : t( x ), pad( "some text that is long enough to be on the heap " + std::to_string( x ) ) {}
	};
	PROP( union_pair, { .cases = 80000 } ) {
		{
			using U = daw::union_pair_t<Val, Other>;
			using M = std::variant<std::monostate, int, std::string>; // nothing, Val, Other
			auto mo = []( int x ) { return M( std::in_place_index<2>, std::to_string( x ) ); };
			auto mv = []( int x ) { return M( std::in_place_index<1>, x ); };
			std::array<U, 3> h{ };
			std::array<M, 3> m{ };
			std::size_t ops = 1 + s.len( 16 );
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( 3 ), j = s.below( 3 );
				int x = static_cast<int>( s.below( 9 ) );
				auto op = s.below( 9 );
				auto before = m[i];
				s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + "; "; } );
				switch( op ) {
				case 0:
					h[i] = Val( x );
					m[i] = mv( x );
					break;
				case 1: {
					Val const v( x );
					h[i] = v;
					m[i] = mv( x );
					break;
				}
				case 2:
					h[i] = Other( x );
					m[i] = mo( x );
					break;
				case 3: {
					Other const v( x );
					h[i] = v;
					m[i] = mo( x );
					break;
				}
				case 4:
					h[i] = h[j];
					m[i] = m[j];
					break;
				case 5:
					h[i] = std::move( h[j] );
					if( i != j ) {
						m[i] = m[j];
						if( m[j].index( ) == 1 ) {
							m[j] = mv( -1 );
						} else if( m[j].index( ) == 2 ) {
							m[j] = mo( -1 );
						}
					}
					break;
				case 6: {
					U t( h[i] );
					CHECK_EQ( t.which( ), h[i].which( ) );
					U t2( std::move( t ) );
					CHECK_EQ( t2.which( ), h[i].which( ) );
					h[j] = t2;
					m[j] = m[i];
					break;
				}
				case 7:
					h[i] = U( Val( x ) );
					m[i] = mv( x );
					break;
				default:
					h[i] = U( Other( x ) );
					m[i] = mo( x );
				}
				s.nontrivial( before.index( ) != m[i].index( ) and before.index( ) != 0 );
				long want = 0;
				for( std::size_t q = 0; q < 3; ++q ) {
					want += m[q].index( ) != 0;
					unsigned which = m[q].index( ) == 0 ? 2 : static_cast<unsigned>( m[q].index( ) ) - 1;
					CHECK_EQ( static_cast<unsigned>( h[q].which( ) ), which );
					if( which != 2 ) {
						int calls = 0;
						auto vis = [&]( auto const &v ) {
							++calls;
							v.t.chk( "visited value" );
							CHECK_EQ( ( std::is_same_v<std::decay_t<decltype( v )>, Val> ), which == 0 );
							if constexpr( std::is_same_v<std::decay_t<decltype( v )>, Other> ) {
								CHECK( v.t.v == -1 or v.pad == "some text that is long enough to be on the heap " + std::to_string( v.t.v ) );
							}
							return v.t.v;
						};
						int want_v = which == 0 ? std::get<1>( m[q] ) : std::stoi( std::get<2>( m[q] ) );
						CHECK_EQ( h[q].visit( vis ), want_v );
						CHECK_EQ( std::as_const( h[q] ).visit( vis ), want_v );
						CHECK_EQ( calls, 2 );
					}
				}
				CHECK_EQ( g_live, want );
			}
			if( m[0].index( ) == 0 ) {
				CHECK_THROWS( daw::visit_null_union_pair_exception, h[0].visit( []( auto const &v ) { return v.t.v; } ) );
			}
		}
		CHECK_EQ( g_live, 0 );
	}

	// ---- uninitialized storage
	PROP( uninitialized_storage, { .cases = 20000 } ) {
		{
			struct alignas( 32 ) Aligned {
				TrackedPlain t;
				explicit Aligned( int x ) : t( x ) {}
			};
			struct Agg {
				TrackedPlain t;
				int y;
			};
			using S0 = daw::uninitialized_storage<Aligned>;
			CHECK_STATIC( sizeof( S0 ) >= sizeof( Aligned ) and alignof( S0 ) >= alignof( Aligned ) );
			S0 a;
			daw::uninitialized_storage<Agg> g;
			daw::uninitialized_storage<int> n;
			bool la = false, lg = false;
			int va = 0, vg = 0;
			std::size_t ops = 1 + s.len( 10 );
			for( std::size_t k = 0; k < ops; ++k ) {
				int x = static_cast<int>( s.below( 99 ) );
				switch( s.below( 4 ) ) {
				case 0:
					if( la ) {
						a.destruct( );
					} else {
						a.construct( x );
						va = x;
					}
					la = not la;
					break;
				case 1:
					if( lg ) {
						g.destruct( );
					} else {
						g.construct( x, x + 1 );
						vg = x;
						s.nontrivial( la );
					}
					lg = not lg;
					break;
				case 2:
					if( la ) {
						a->t.v = x;
						va = x;
					}
					break;
				default:
					if( la ) {
						Aligned r = a.rref( );
						CHECK_EQ( r.t.v, va );
						CHECK_EQ( ( *a ).t.v, -1 );
						va = -1;
					}
				}
				n.construct( x );
				CHECK_EQ( *n, x );
				CHECK_EQ( g_live, static_cast<long>( la ) + static_cast<long>( lg ) );
				CHECK_EQ( reinterpret_cast<std::uintptr_t>( a.raw_data( ) ) % alignof( Aligned ), 0u );
				if( la ) {
					auto const &c = a;
					CHECK_EQ( a.ref( ).t.v, va );
					CHECK_EQ( c.cref( ).t.v, va );
					CHECK_EQ( ( *c ).t.v, va );
					CHECK_EQ( c->t.v, va );
					CHECK( static_cast<void const *>( a.ptr( ) ) == a.raw_data( ) );
					CHECK( c.ptr( ) == c.cptr( ) );
				}
				if( lg ) {
					CHECK_EQ( g->t.v, vg );
					CHECK_EQ( g->y, vg + 1 );
				}
			}
			if( la ) {
				a.destruct( );
			}
			if( lg ) {
				g.destruct( );
			}
		}
		CHECK_EQ( g_live, 0 );
	}
#endif
#if PBT_PART == 1
	// ---- expected
	struct E1 : std::runtime_error {
		int id;
		explicit E1( int i ) : std::runtime_error( "e1-" + std::to_string( i ) ), id( i ) {}
	};
	struct E2 : std::logic_error {
		int id;
		explicit E2( int i ) : std::logic_error( "e2-" + std::to_string( i ) ), id( i ) {}
	};
	struct E3 {
		int id;
	};
	// 0 empty, 1 value, 2.. exception of kind st-2
	struct St {
		int st = 0;
		int v = 0;
		bool operator==( St const & ) const = default;
	};
	[[noreturn]] void raise( int kind, int id ) {
		switch( kind ) {
		case 0: throw E1( id );
		case 1: throw E2( id );
		case 2: throw std::system_error( std::make_error_code( std::errc::invalid_argument ), "sys" + std::to_string( id ) );
		default: throw E3{ id };
		}
	}
	std::exception_ptr eptr( int kind, int id ) {
		try {
			raise( kind, id );
		} catch( ... ) { return std::current_exception( ); }
	}
	template<typename F>
	St caught( F f ) {
		try {
			f( );
			return { };
		} catch( E1 const &e ) {
			return { 2, e.id };
		} catch( E2 const &e ) {
			return { 3, e.id };
		} catch( std::system_error const &e ) {
			CHECK( e.code( ) == std::make_error_code( std::errc::invalid_argument ) );
			return { 4, std::stoi( std::string( e.what( ) ).substr( 3 ) ) };
		} catch( E3 const &e ) { return { 5, e.id }; }
	}
	template<typename X>
	void check_state( X &h, St const &m, bool sysmsg ) {
		CHECK_EQ( h.empty( ), m.st == 0 );
		CHECK_EQ( h.has_value( ), m.st == 1 );
		CHECK_EQ( h.has_exception( ), m.st >= 2 );
		CHECK_EQ( static_cast<bool>( std::as_const( h ) ), m.st != 0 );
		if constexpr( not std::is_void_v<decltype( h.get( ) )> ) {
			if( m.st == 1 ) {
				CHECK_EQ( h.get( ).t.v, m.v );
				CHECK_EQ( std::as_const( h ).get( ).t.v, m.v );
				CHECK( &std::as_const( h ).get( ) == &h.get( ) );
				if constexpr( requires { std::move( std::as_const( h ) ).get( ); } ) {
					CHECK_EQ( Val( std::move( std::as_const( h ) ).get( ) ).t.v, m.v );
				}
				CHECK_EQ( ( *h ).t.v, m.v );
				CHECK_EQ( ( *std::as_const( h ) ).t.v, m.v );
				CHECK_EQ( h->t.v, m.v );
				CHECK_EQ( std::as_const( h )->t.v, m.v );
			}
		}
		(void)sysmsg;
	}
	template<typename X>
	void check_throw( X &h, St const &m, bool sysmsg ) { // slow: last
		if( m.st >= 2 ) {
			CHECK( caught( [&] { h.throw_if_exception( ); } ) == m );
			CHECK( caught( [&] { (void)h.get( ); } ) == m );
			CHECK( caught( [&] { (void)std::as_const( h ).get( ); } ) == m );
			CHECK( caught( [&] { std::rethrow_exception( h.get_exception_ptr( ) ); } ) == m );
			std::string want;
			if( m.st == 2 ) {
				want = "e1-" + std::to_string( m.v );
			} else if( m.st == 3 ) {
				want = "e2-" + std::to_string( m.v );
			} else if( m.st == 4 ) {
				std::system_error e( std::make_error_code( std::errc::invalid_argument ), "sys" + std::to_string( m.v ) );
				want = sysmsg ? e.code( ).message( ) + ": " + e.what( ) : e.what( );
			}
			CHECK_EQ( h.get_exception_message( ), want );
		} else {
			CHECK( caught( [&] { h.throw_if_exception( ); } ).st == 0 );
			CHECK_EQ( h.get_exception_message( ), std::string( ) );
		}
	}

	PROP( expected, { .cases = 20000 } ) {
		{
			using X = daw::expected_t<Val>;
			std::array<X, 3> h{ };
			std::array<St, 3> m{ };
			std::size_t ops = 1 + s.len( 14 );
			int id = 0;
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( 3 ), j = s.below( 3 );
				int x = static_cast<int>( s.below( 9 ) );
				int kind = static_cast<int>( s.below( 4 ) );
				auto op = s.below( 14 );
				St before = m[i];
				s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + "; "; } );
				switch( op ) {
				case 0:
					h[i] = Val( x );
					m[i] = { 1, x };
					break;
				case 1: {
					Val const v( x );
					if( s.boolean( ) ) {
						h[i] = v;
					} else {
						h[i].set_value( v );
					}
					m[i] = { 1, x };
					break;
				}
				case 2:
					h[i].set_value( Val( x ) );
					m[i] = { 1, x };
					break;
				case 3:
					h[i] = eptr( kind, ++id );
					m[i] = { 2 + kind, id };
					break;
				case 4:
					h[i].set_exception( eptr( kind, ++id ) );
					m[i] = { 2 + kind, id };
					break;
				case 5:
					try {
						raise( kind, ++id );
					} catch( ... ) {
						if( s.boolean( ) ) {
							h[i].set_exception( );
						} else if( s.boolean( ) ) {
							h[i] = X( typename X::exception_tag{ } );
						} else {
							h[i] = daw::expected_from_exception<Val>( );
						}
					}
					m[i] = { 2 + kind, id };
					break;
				case 6:
					h[i].clear( );
					m[i] = { };
					break;
				case 7:
					h[i] = h[j];
					m[i] = m[j];
					break;
				case 8:
					h[i] = std::move( h[j] );
					if( i != j ) {
						m[i] = m[j];
						if( m[j].st == 1 ) {
							m[j].v = -1;
						} else if( m[j].st >= 2 ) { // exception_ptr may be null after a move
							h[j].clear( );
							m[j] = { };
						}
					}
					break;
				case 9: { // run code that may throw
					bool thr = s.boolean( );
					++id;
					auto code = [&]( int a, int b ) -> Val {
						if( thr ) {
							raise( kind, id );
						}
						return Val( a * b );
					};
					switch( s.below( 4 ) ) {
					case 0: h[i] = X::from_code( code, x, 3 ); break;
					case 1: h[i] = X( code, x, 3 ); break;
					case 2: h[i] = daw::expected_from_code( code, x, 3 ); break;
					default: h[i] = daw::expected_from_code<Val>( code, x, 3 );
					}
					m[i] = thr ? St{ 2 + kind, id } : St{ 1, x * 3 };
					break;
				}
				case 10:
					h[i] = X( typename X::exception_tag{ }, E1( ++id ) );
					m[i] = { 2, id };
					break;
				case 11: {
					X t( h[i] );
					CHECK_EQ( t.has_value( ), m[i].st == 1 );
					CHECK_EQ( t == h[i], true );
					if( m[i].st == 1 ) {
						Val r = std::move( t ).get( );
						CHECK_EQ( r.t.v, m[i].v );
						CHECK_EQ( h[i].get( ).t.v, m[i].v );
					}
					break;
				}
				case 12:
					h[i] = daw::expected_from_exception<Val>( eptr( kind, ++id ) );
					m[i] = { 2 + kind, id };
					break;
				default:
					std::swap( h[i], h[j] );
					std::swap( m[i], m[j] );
					if( i == j and m[i].st == 1 ) {
						m[i].v = h[i].get( ).t.v;
					}
					if( i == j and m[i].st >= 2 ) {
						h[i].clear( );
						m[i] = { };
					}
				}
				s.nontrivial( before.st != m[i].st );
				long want = 0;
				for( std::size_t q = 0; q < 3; ++q ) {
					check_state( h[q], m[q], true );
					want += m[q].st == 1;
				}
				CHECK_EQ( g_live, want );
				if( m[i].st < 2 or m[j].st < 2 ) {
					bool eq = m[i].st == m[j].st and ( m[i].st == 0 or m[i].v == m[j].v );
					CHECK_EQ( h[i] == h[j], eq );
					CHECK_EQ( h[i] != h[j], not eq );
				}
			}
			check_throw( h[0], m[0], true );
		}
		CHECK_EQ( g_live, 0 );
	}

	PROP( expected_void, { .cases = 12000 } ) {
		using X = daw::expected_t<void>;
		std::array<X, 3> h{ };
		std::array<St, 3> m{ };
		std::size_t ops = 1 + s.len( 14 );
		int id = 0;
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( 3 ), j = s.below( 3 );
			int kind = static_cast<int>( s.below( 4 ) );
			St before = m[i];
			switch( s.below( 9 ) ) {
			case 0:
				if( s.boolean( ) ) {
					h[i].set_value( );
				} else {
					h[i] = true;
				}
				m[i] = { 1, 0 };
				break;
			case 1:
				if( s.boolean( ) ) {
					h[i] = eptr( kind, ++id );
				} else {
					h[i].set_exception( eptr( kind, ++id ) );
				}
				m[i] = { 2 + kind, id };
				break;
			case 2:
				try {
					raise( kind, ++id );
				} catch( ... ) {
					if( s.boolean( ) ) {
						h[i].set_exception( );
					} else {
						h[i] = X( typename X::exception_tag{ } );
					}
				}
				m[i] = { 2 + kind, id };
				break;
			case 3:
				h[i].clear( );
				m[i] = { };
				break;
			case 4:
				h[i] = h[j];
				m[i] = m[j];
				break;
			case 5: {
				X t( h[i] );
				h[j] = t;
				m[j] = m[i];
				break;
			}
			case 6: {
				bool thr = s.boolean( );
				++id;
				int calls = 0;
				auto code = [&]( int a ) {
					++calls;
					CHECK_EQ( a, 4 );
					if( thr ) {
						raise( kind, id );
					}
				};
				switch( s.below( 3 ) ) {
				case 0: h[i] = X::from_code( code, 4 ); break;
				case 1: h[i] = X( code, 4 ); break;
				default: h[i] = daw::expected_from_code( code, 4 );
				}
				CHECK_EQ( calls, 1 );
				m[i] = thr ? St{ 2 + kind, id } : St{ 1, 0 };
				break;
			}
			case 7:
				h[i] = X( typename X::exception_tag{ }, E2( ++id ) );
				m[i] = { 3, id };
				break;
			default:
				h[i] = X( eptr( kind, ++id ) );
				m[i] = { 2 + kind, id };
			}
			s.nontrivial( before.st != m[i].st and before.st != 0 );
			for( std::size_t q = 0; q < 3; ++q ) {
				check_state( h[q], m[q], false );
			}
			if( m[i].st < 2 or m[j].st < 2 ) {
				CHECK_EQ( h[i] == h[j], m[i].st == m[j].st );
				CHECK_EQ( h[i] != h[j], m[i].st != m[j].st );
			}
		}
		check_throw( h[0], m[0], false );
	}

	PROP( checked_expected, { .cases = 12000 } ) {
		{
			using X = daw::checked_expected_t<Val, E1, E2>;
			std::array<X, 3> h{ };
			std::array<St, 3> m{ };
			std::size_t ops = 1 + s.len( 12 );
			int id = 0;
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( 3 ), j = s.below( 3 );
				int x = static_cast<int>( s.below( 9 ) );
				int kind = static_cast<int>( s.below( 2 ) );
				St before = m[i];
				switch( s.below( 8 ) ) {
				case 0:
					h[i] = Val( x );
					m[i] = { 1, x };
					break;
				case 1:
					h[i] = X( Val( x ) );
					m[i] = { 1, x };
					break;
				case 2:
					h[i] = eptr( kind, ++id );
					m[i] = { 2 + kind, id };
					break;
				case 3:
					h[i] = X( eptr( kind, ++id ) );
					m[i] = { 2 + kind, id };
					break;
				case 4:
					h[i] = h[j];
					m[i] = m[j];
					break;
				case 5: {
					X t( h[i] );
					h[j] = std::move( t );
					m[j] = m[i];
					break;
				}
				case 6: {
					bool thr = s.boolean( );
					++id;
					auto code = [&]( int a, int b ) -> Val {
						if( thr ) {
							raise( kind, id );
						}
						return Val( a + b );
					};
					switch( s.below( 4 ) ) {
					case 0: h[i] = X::from_code( code, x, 3 ); break;
					case 1: h[i] = X( code, x, 3 ); break;
					case 2: h[i] = daw::checked_from_code<E1, E2>( code, x, 3 ); break;
					default: h[i] = daw::make_checked_function<Val, E1, E2>( auto( code ) )( x, 3 );
					}
					m[i] = thr ? St{ 2 + kind, id } : St{ 1, x + 3 };
					break;
				}
				default:
					h[i] = X( typename X::exception_tag{ }, E1( ++id ) );
					m[i] = { 2, id };
				}
				s.nontrivial( before.st != m[i].st and before.st != 0 );
				long want = 0;
				for( std::size_t q = 0; q < 3; ++q ) {
					check_state( h[q], m[q], false );
					want += m[q].st == 1;
				}
				CHECK_EQ( g_live, want );
			}
			check_throw( h[0], m[0], false );
			if( s.chance( 1, 8 ) ) { // an exception that was not declared is not stored
				bool stored = true;
				try {
					auto r = X::from_code( [&]( ) -> Val { raise( 3, 1 ); } );
					(void)r;
				} catch( ... ) { stored = false; }
				CHECK( not stored );
			}
		}
		CHECK_EQ( g_live, 0 );
	}

	PROP( checked_expected_void, { .cases = 12000 } ) {
		using X = daw::checked_expected_t<void, E1, E2>;
		std::array<X, 3> h{ };
		std::array<St, 3> m{ };
		std::size_t ops = 1 + s.len( 12 );
		int id = 0;
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( 3 ), j = s.below( 3 );
			int kind = static_cast<int>( s.below( 2 ) );
			St before = m[i];
			switch( s.below( 7 ) ) {
			case 0:
				h[i] = true;
				m[i] = { 1, 0 };
				break;
			case 1:
				h[i] = eptr( kind, ++id );
				m[i] = { 2 + kind, id };
				break;
			case 2:
				h[i] = X( eptr( kind, ++id ) );
				m[i] = { 2 + kind, id };
				break;
			case 3:
				h[i] = h[j];
				m[i] = m[j];
				break;
			case 4: {
				X t( h[i] );
				X const &c = t;
				X t2( c );
				h[j] = t2;
				m[j] = m[i];
				break;
			}
			case 5: {
				bool thr = s.boolean( );
				++id;
				int calls = 0;
				auto code = [&]( int a ) {
					++calls;
					CHECK_EQ( a, 4 );
					if( thr ) {
						raise( kind, id );
					}
				};
				switch( s.below( 3 ) ) {
				case 0: h[i] = X::from_code( code, 4 ); break;
				case 1: h[i] = X::from_code( [&] { code( 4 ); } ); break;
				default: h[i] = X( code, 4 );
				}
				CHECK_EQ( calls, 1 );
				m[i] = thr ? St{ 2 + kind, id } : St{ 1, 0 };
				break;
			}
			default:
				h[i] = X( typename X::exception_tag{ }, E2( ++id ) );
				m[i] = { 3, id };
			}
			s.nontrivial( before.st != m[i].st and before.st != 0 );
			for( std::size_t q = 0; q < 3; ++q ) {
				check_state( h[q], m[q], false );
			}
		}
		check_throw( h[0], m[0], false );
	}

	// ---- polymorphic optional
	struct PB {
		TrackedPlain t;
		PB( int x = 0 ) : t( x ) {}
		PB( PB const & ) = default;
		PB &operator=( PB const & ) = default;
		virtual ~PB( ) = default;
		virtual int who( ) const { return 1; }
		friend bool operator==( PB const &a, PB const &b ) { return a.t == b.t; }
		friend bool operator!=( PB const &a, PB const &b ) { return not( a.t == b.t ); }
		friend bool operator<( PB const &a, PB const &b ) { return a.t < b.t; }
		friend bool operator>( PB const &a, PB const &b ) { return b.t < a.t; }
		friend bool operator<=( PB const &a, PB const &b ) { return not( b.t < a.t ); }
		friend bool operator>=( PB const &a, PB const &b ) { return not( a.t < b.t ); }
	};
	struct PD : PB {
		using PB::PB;
		int who( ) const override { return 2; }
	};
	PROP( optional_poly, { .cases = 60000 } ) {
		{
			using O = daw::optional_poly<PB>;
			struct M {
				int v, who;
			};
			std::array<O, 3> h{ };
			std::array<std::optional<M>, 3> m{ };
			std::size_t ops = 1 + s.len( 16 );
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( 3 ), j = s.below( 3 );
				int x = static_cast<int>( s.below( 5 ) );
				bool had = m[i].has_value( );
				switch( s.below( 13 ) ) {
				case 0:
					h[i] = PB( x );
					m[i] = { x, 1 };
					break;
				case 1: {
					PD const d( x );
					h[i] = d;
					m[i] = { x, 2 };
					s.nontrivial( );
					break;
				}
				case 2:
					h[i] = O( PD( x ) );
					m[i] = { x, 2 };
					s.nontrivial( );
					break;
				case 3:
					h[i].emplace( x );
					m[i] = { x, 1 };
					break;
				case 4:
					h[i].reset( );
					m[i].reset( );
					break;
				case 5:
					h[i] = h[j];
					m[i] = m[j];
					if( m[i] ) { // copies as the static type
						m[i]->who = 1;
					}
					break;
				case 6:
					h[i] = std::move( h[j] );
					if( i != j ) {
						m[i] = m[j];
						m[j].reset( );
					} else {
						m[i].reset( );
						h[i].reset( );
					}
					break;
				case 7:
					h[i].swap( h[j] );
					std::swap( m[i], m[j] );
					break;
				case 8:
					swap( h[i], h[j] );
					std::swap( m[i], m[j] );
					break;
				case 9: {
					daw::optional_poly<PD> d( PD{ x } );
					switch( s.below( 4 ) ) {
					case 0: h[i] = d; break;
					case 1: h[i] = std::move( d ); break;
					case 2: h[i] = O( d ); break;
					default: h[i] = O( std::move( d ) );
					}
					m[i] = { x, 2 };
					break;
				}
				case 10: {
					O t( h[i] );
					CHECK_EQ( t.has_value( ), m[i].has_value( ) );
					if( m[i] ) {
						t->t.v = 99;
						CHECK_EQ( h[i]->t.v, m[i]->v );
					}
					break;
				}
				case 11:
					h[i] = daw::make_optional_poly<PB>( x );
					m[i] = { x, 1 };
					break;
				default:
					if( m[i] ) {
						( *h[i] ).t.v = x;
						m[i]->v = x;
					}
				}
				s.nontrivial( had != m[i].has_value( ) );
				long want = 0;
				for( std::size_t q = 0; q < 3; ++q ) {
					auto const &c = h[q];
					CHECK_EQ( c.has_value( ), m[q].has_value( ) );
					CHECK_EQ( c.empty( ), not m[q].has_value( ) );
					CHECK_EQ( static_cast<bool>( c ), m[q].has_value( ) );
					if( m[q] ) {
						++want;
						CHECK_EQ( c->t.v, m[q]->v );
						CHECK_EQ( ( *c ).who( ), m[q]->who );
						CHECK_EQ( h[q].get( ).t.v, m[q]->v );
						CHECK_EQ( c.get( ).t.v, m[q]->v );
					}
				}
				CHECK_EQ( g_live, want );
				auto mi = m[i] ? std::optional<int>( m[i]->v ) : std::nullopt;
				auto mj = m[j] ? std::optional<int>( m[j]->v ) : std::nullopt;
				six( h[i], h[j], mi == mj, mi < mj, mi > mj );
			}
		}
		CHECK_EQ( g_live, 0 );
	}
#endif
} // namespace
