// C11: function wrappers against a model of which target each wrapper holds.
// nontrivial: a wrapper holding a target was overwritten, copied, moved or
// swapped, or a call went through a copy (per property: see the bodies).
// pbt-flags: -Wno-self-move -Wno-self-assign-overloaded
// pbt-parts: 2
// pbt-scale: 5
#include "pbt.h"
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <atomic>
#include <vector>

#include "daw/daw_bind_args_at.h"
#include "daw/daw_bind_front.h"
#include "daw/daw_function.h"
#include "daw/daw_function_ref.h"
#include "daw/daw_function_table.h"
#include "daw/daw_function_view.h"
#include "daw/daw_identity_function.h"
#include "daw/daw_shared_function.h"
#include "daw/daw_stack_function.h"
using namespace pbt;

namespace {
	struct Boom {
		int v;
	};
	// the reference behaviour of every target: id and argument to result
	int expect_call( int id, int x ) {
		return id * 1000 + x;
	}
	// Call f(x), where the target has this id: multiples of 7 as argument throw.
	template<typename F>
	void check_call( F &&f, int id, int x ) {
		int got = -1, thrown = -1;
		try {
			got = std::forward<F>( f )( x );
		} catch( Boom const &b ) { thrown = b.v; }
		if( x == 77 ) {
			CHECK_EQ( thrown, id );
		} else {
			CHECK_EQ( got, expect_call( id, x ) );
			CHECK_EQ( thrown, -1 );
		}
	}
	int body( int id, int x ) {
		if( x == 77 ) {
			throw Boom{ id };
		}
		return expect_call( id, x );
	}
	template<typename T, std::size_t Pad>
	struct Fn {
		T t;
		std::array<unsigned char, Pad> pad;
		explicit Fn( int id ) : t( id ) {
			for( std::size_t i = 0; i < Pad; ++i ) {
				pad[i] = static_cast<unsigned char>( id * 7 + static_cast<int>( i ) );
			}
		}
		int operator( )( int x ) const {
			t.chk( "target called" );
			for( std::size_t i = 0; i < Pad; ++i ) {
				if( pad[i] != static_cast<unsigned char>( t.v * 7 + static_cast<int>( i ) ) ) {
					fail( "bytes of the target changed" );
				}
			}
			return body( t.v, x );
		}
	};
	struct Plain { // trivially copyable target
		int id;
		int operator( )( int x ) const {
			return body( id, x );
		}
	};
	struct Stateless {
		int operator( )( int x ) const {
			return body( 9999, x );
		}
	};
	int fp_a( int x ) {
		return body( 5001, x );
	}
	int fp_b( int x ) {
		return body( 5002, x );
	}
	int gen_arg( Src &s ) {
		return s.chance( 1, 12 ) ? 77 : s.range( -50, 200 );
	}

#if PBT_PART == 0
	// ---------------------------------------------------------- daw::function
	template<typename F>
	int make_target( Src &s, F &f, int &next ) {
		int id = ++next;
		switch( s.below( 9 ) ) {
		case 0:
			f = Fn<Tracked, 1>( id );
			return id;
		case 1:
			f = Fn<Tracked, 40>( id );
			return id;
		case 2: { // fills the buffer: vtable pointer included
			f = Fn<Tracked, 128 - 8 - sizeof( Tracked )>( id );
			return id;
		}
		case 3: { // lvalue: must be copied
			Fn<Tracked, 8> l( id );
			f = l;
			return id;
		}
		case 4:
			f = Plain{ id };
			return id;
		case 5:
			f = s.boolean( ) ? &fp_a : &fp_b;
			return f( 0 ) / 1000;
		case 6: {
			std::function<int( int )> g;
			if( s.boolean( ) ) {
				g = Fn<Tracked, 16>( id );
				f = g;
				return id;
			}
			f = g;
			return -1;
		}
		case 7: {
			int ( *np )( int ) = nullptr;
			f = np;
			return -1;
		}
		default:
			f = [p = std::make_shared<std::string>( "a string longer than the small buffer" ), id]( int x ) {
				return body( p->size( ) == 37 ? id : 0, x );
			};
			return id;
		}
	}
	void stack_function( Src &s ) {
		using F = daw::function<128, int( int )>;
		constexpr std::size_t N = 4;
		std::array<F, N> h{ F{ }, F{ }, F{ nullptr }, F{ } };
		std::array<int, N> m;
		m.fill( -1 );
		int next = 0;
		std::size_t ops = 1 + s.len( 24 );
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( N ), j = s.below( N );
			auto op = s.below( 9 );
			s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + "; "; } );
			s.nontrivial( op != 5 and m[i] >= 0 );
			switch( op ) {
			case 0:
				m[i] = make_target( s, h[i], next );
				break;
			case 1: // copy assign
				h[i] = h[j];
				m[i] = m[j];
				break;
			case 2: // copy construct, then move in
			{
				F c( std::as_const( h[j] ) );
				if( m[j] >= 0 ) {
					check_call( c, m[j], gen_arg( s ) );
				}
				h[i] = std::move( c );
				m[i] = m[j];
				break;
			}
			case 3: // move assign; the source is valid but unspecified
				if( i != j ) {
					h[i] = std::move( h[j] );
					m[i] = m[j];
					h[j] = F{ };
					m[j] = -1;
				} else {
					auto &r = h[i];
					h[i] = std::move( r );
				}
				break;
			case 4: {
				std::swap( h[i], h[j] );
				std::swap( m[i], m[j] );
				break;
			}
			case 5:
				if( m[i] >= 0 ) {
					int x = gen_arg( s );
					if( s.boolean( ) ) {
						check_call( h[i], m[i], x );
					} else {
						check_call( std::as_const( h[i] ), m[i], x );
					}
				}
				break;
			case 6:
				h[i] = F{ };
				m[i] = -1;
				break;
			case 7: { // from a smaller buffer
				daw::function<64, int( int )> small{ };
				int id = -1;
				if( s.boolean( ) ) {
					id = ++next;
					small = Fn<Tracked, 20>( id );
				}
				if( s.boolean( ) ) {
					h[i] = std::as_const( small );
				} else {
					F c( std::as_const( small ) );
					h[i] = c;
				}
				if( id >= 0 ) {
					check_call( small, id, 3 );
				}
				m[i] = id;
				break;
			}
			default: { // a copy that throws leaves the wrapper as it was
				if( m[j] >= 0 ) {
					g_throw_after = static_cast<long>( s.below( 3 ) );
					bool done = false;
					try {
						F c( std::as_const( h[j] ) );
						g_throw_after = -1;
						done = true;
						h[i] = std::move( c );
					} catch( Injected const & ) { s.label( "copy threw" ); }
					g_throw_after = -1;
					if( done ) {
						m[i] = m[j];
					}
				}
				break;
			}
			}
			for( std::size_t x = 0; x < N; ++x ) {
				CHECK_EQ( h[x].empty( ), m[x] < 0 );
				CHECK_EQ( static_cast<bool>( h[x] ), m[x] >= 0 );
				if( m[x] >= 0 ) {
					check_call( h[x], m[x], 1 );
				}
			}
		}
		for( std::size_t x = 0; x < N; ++x ) {
			if( m[x] < 0 ) {
				CHECK_THROWS( std::bad_function_call, (void)h[x]( 1 ) );
				break;
			}
		}
	}
	PROP_T( stack_function, stack_function, { .cases = 12000 } );

	// arguments and results of other types go through unchanged
	PROP( stack_function_args, { .cases = 6000 } ) {
		int a = s.range( -1000, 1000 ), b = s.range( -1000, 1000 );
		std::string str( s.len( 40 ), static_cast<char>( 'a' + s.below( 26 ) ) );
		s.nontrivial( str.size( ) > 15 );
		daw::function<64, std::string( std::string, int )> f = [b]( std::string const &x, int y ) {
			return x + std::to_string( y + b );
		};
		auto g = f;
		CHECK_EQ( g( str, a ), str + std::to_string( a + b ) );
		CHECK_EQ( f( str, a ), str + std::to_string( a + b ) );
		daw::function<64, void( int &, std::string & )> v = [b]( int &x, std::string &y ) {
			x += b;
			y += '!';
		};
		int x = a;
		std::string y = str;
		auto const w = v;
		w( x, y );
		CHECK_EQ( x, a + b );
		CHECK_EQ( y, str + "!" );
		daw::function<64, int const &( std::vector<int> const & )> e = []( std::vector<int> const &v ) -> int const & { return v.back( ); };
		std::vector<int> vec{ a, b };
		CHECK( &e( vec ) == &vec[1] );
		auto e2 = std::move( e );
		CHECK( &e2( vec ) == &vec[1] );
	}
	// a move only target can be moved around and called
	PROP( stack_function_move_only, { .cases = 4000 } ) {
		int id = s.range( 1, 1000 );
		using F = daw::function<64, int( int )>;
		F f = [p = std::make_unique<int>( id )]( int x ) { return body( *p, x ); };
		F g = std::move( f );
		check_call( g, id, gen_arg( s ) );
		F h{ };
		h = std::move( g );
		check_call( h, id, gen_arg( s ) );
		s.nontrivial( s.boolean( ) );
		std::swap( h, g );
		check_call( g, id, gen_arg( s ) );
	}

	// ------------------------------------------------- function_ref, _view
	template<typename W>
	void refs( Src &s ) {
		std::vector<std::unique_ptr<Fn<Tracked, 4>>> pool;
		Plain plain{ 777 };
		auto cap = s.range( 100, 200 );
		auto lam = [&cap]( int x ) { return body( cap, x ); };
		Stateless st;
		for( int i = 0; i < 4; ++i ) {
			pool.push_back( std::make_unique<Fn<Tracked, 4>>( 10 + i ) );
		}
		long live = g_live;
		constexpr std::size_t N = 3;
		std::array<W, N> h{ W{ *pool[0] }, W{ &fp_a }, W{ plain } };
		std::array<std::function<int( )>, N> m{ [&] { return pool[0]->t.v; }, [] { return 5001; }, [&] { return plain.id; } };
		auto assign = [&]( std::size_t i, auto &f, std::function<int( )> id ) {
			// assignment, or assignment of a fresh wrapper
			if( s.boolean( ) ) {
				h[i] = f;
			} else {
				h[i] = W{ f };
			}
			m[i] = id;
		};
		std::size_t ops = 1 + s.len( 24 );
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( N ), j = s.below( N );
			auto op = s.below( 9 );
			s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + "; "; } );
			s.nontrivial( op >= 5 );
			switch( op ) {
			case 0: {
				auto n = s.below( pool.size( ) );
				assign( i, *pool[n], [&pool, n] { return pool[n]->t.v; } );
				break;
			}
			case 1:
				assign( i, plain, [&plain] { return plain.id; } );
				break;
			case 2:
				assign( i, lam, [&cap] { return cap; } );
				break;
			case 3: {
				bool b = s.boolean( );
				int ( *fp )( int ) = b ? &fp_a : &fp_b;
				assign( i, fp, [b] { return b ? 5001 : 5002; } );
				break;
			}
			case 4:
				assign( i, st, [] { return 9999; } );
				break;
			case 5: // wrappers are views: a change of the target shows
				cap = s.range( 300, 400 );
				plain.id = s.range( 500, 600 );
				break;
			case 6:
				h[i] = h[j];
				m[i] = m[j];
				break;
			case 7: {
				W c( h[j] ); // copy of a non const wrapper
				h[j] = W{ plain };
				auto mm = m[j];
				m[j] = [&plain] { return plain.id; };
				check_call( c, mm( ), gen_arg( s ) );
				W d = std::move( c );
				check_call( d, mm( ), gen_arg( s ) );
				h[i] = d;
				m[i] = mm;
				break;
			}
			default:
				std::swap( h[i], h[j] );
				std::swap( m[i], m[j] );
			}
			for( std::size_t x = 0; x < N; ++x ) {
				check_call( h[x], m[x]( ), 2 );
			}
			check_call( std::as_const( h[i] ), m[i]( ), gen_arg( s ) );
		}
		CHECK_EQ( g_live, live );
	}
	PROP_T( function_ref, refs<daw::function_ref<int( int )>>, { .cases = 12000 } );
	PROP_T( function_view, refs<daw::function_view<int( int )>>, { .cases = 12000 } );

	template<template<typename> typename W>
	void refs_args( Src &s ) {
		int a = s.range( -1000, 1000 );
		std::string str( s.len( 40 ), static_cast<char>( 'a' + s.below( 26 ) ) );
		s.nontrivial( str.size( ) > 15 );
		int calls = 0;
		auto mod = [&]( int &x, std::string &y, std::string const &z ) {
			++calls;
			x += a;
			y += z;
		};
		W<void( int &, std::string &, std::string const & )> v{ mod };
		int x = 5;
		std::string y = str;
		v( x, y, str );
		CHECK_EQ( x, a + 5 );
		CHECK_EQ( y, str + str );
		v( x, y, y );
		CHECK_EQ( y, str + str + str + str );
		CHECK_EQ( calls, 2 );
		auto val = []( std::string p, int q ) { return p + std::to_string( q ); };
		W<std::string( std::string, int )> f{ val };
		CHECK_EQ( f( str, a ), str + std::to_string( a ) );
		auto ret = [&]( std::size_t ) -> std::string & { return y; };
		W<std::string &( std::size_t )> r{ ret };
		CHECK( &r( 0 ) == &y );
		// result converted, and dropped for void
		auto ch = [&]( int q ) -> short {
			++calls;
			return static_cast<short>( q );
		};
		W<long long( int )> c{ ch };
		CHECK_EQ( c( a ), static_cast<long long>( a ) );
		W<void( int )> d{ ch };
		d( a );
		CHECK_EQ( calls, 4 );
		std::size_t ( *fp )( std::string const & ) = []( std::string const &q ) { return q.size( ); };
		W<std::size_t( std::string const & )> g{ fp };
		CHECK_EQ( g( str ), str.size( ) );
		void ( *vp )( int & ) = []( int &q ) { q = -q; };
		W<void( int & )> n{ vp };
		n( x );
		CHECK_EQ( x, -2 * a - 5 );
		auto thr = []( int q ) { throw Boom{ q }; };
		W<void( int )> t{ thr };
		if( s.chance( 1, 20 ) ) {
			int got = -1;
			try {
				t( a );
			} catch( Boom const &b ) { got = b.v; }
			CHECK_EQ( got, a );
		}
	}
	PROP_T( function_ref_args, refs_args<daw::function_ref>, { .cases = 5000 } );
	PROP_T( function_view_args, refs_args<daw::function_view>, { .cases = 5000 } );
#endif

#if PBT_PART == 1
	// ------------------------------------------------ shared / weak function
	template<typename F>
	void build( Src &s, F &f, int &id, int &next ) {
		switch( s.below( 4 ) ) {
		case 0:
			id = ++next;
			f = F( Fn<Tracked, 8>( id ) );
			break;
		case 1: {
			id = ++next;
			Fn<Tracked, 3> l( id );
			f = F( l );
			break;
		}
		case 2:
			id = ++next;
			f = F( Plain{ id } );
			break;
		default:
			id = s.boolean( ) ? 5001 : 5002;
			f = F( id == 5001 ? &fp_a : &fp_b );
		}
	}
	template<typename Sig, bool RV = false>
	void shared( Src &s ) {
		using F = daw::shared_function<Sig>;
		using W = daw::weak_shared_function<Sig>;
		constexpr std::size_t N = 4;
		// a group is one stored target; -1 is empty
		struct G {
			int id, owners, tracked;
		};
		std::vector<G> g;
		std::array<F, N> h{ };
		std::array<int, N> m;
		m.fill( -1 );
		std::array<std::optional<W>, N> w{ };
		std::array<int, N> wm;
		wm.fill( -2 ); // -2: no weak handle
		auto callable = []( auto &f ) -> decltype( auto ) {
			if constexpr( RV ) {
				return std::move( f );
			} else {
				return ( f );
			}
		};
		int next = 0;
		long base = g_live;
		auto drop = [&]( int o ) {
			if( o >= 0 ) {
				g[static_cast<std::size_t>( o )].owners--;
			}
		};
		auto hold = [&]( int o ) {
			if( o >= 0 ) {
				g[static_cast<std::size_t>( o )].owners++;
			}
		};
		auto alive = [&]( int o ) { return o >= 0 and g[static_cast<std::size_t>( o )].owners > 0; };
		std::size_t ops = 1 + s.len( 30 );
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( N ), j = s.below( N );
			auto op = s.below( 12 );
			s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + "; "; } );
			s.nontrivial( op != 0 and m[i] >= 0 and g[static_cast<std::size_t>( m[i] )].owners > 1 );
			switch( op ) {
			case 0: {
				int id = 0;
				long before = g_live;
				F f;
				build( s, f, id, next );
				g.push_back( { id, 1, g_live > before } );
				drop( m[i] );
				m[i] = static_cast<int>( g.size( ) ) - 1;
				h[i] = std::move( f );
				CHECK( not f );
				break;
			}
			case 1:
				hold( m[j] );
				drop( m[i] );
				h[i] = h[j];
				m[i] = m[j];
				break;
			case 2: {
				F c( h[j] );
				CHECK( static_cast<bool>( c ) == ( m[j] >= 0 ) );
				hold( m[j] );
				drop( m[i] );
				m[i] = m[j];
				h[i] = std::move( c );
				CHECK( not c );
				break;
			}
			case 3:
				if( i != j ) {
					drop( m[i] );
					m[i] = m[j];
					m[j] = -1;
				}
				{
					auto &r = h[j];
					h[i] = std::move( r );
				}
				break;
			case 4:
				std::swap( h[i], h[j] );
				std::swap( m[i], m[j] );
				break;
			case 5:
				drop( m[i] );
				m[i] = -1;
				h[i] = s.boolean( ) ? F( nullptr ) : F( );
				break;
			case 6: // weak handle of a (possibly empty) function
				w[i].emplace( h[j].get_weak( ) );
				wm[i] = m[j];
				break;
			case 7:
				if( w[i] ) {
					F l = w[i]->lock( );
					CHECK_EQ( static_cast<bool>( l ), alive( wm[i] ) );
					s.label( "lock of a dead target", wm[i] >= 0 and not l );
					if( l ) {
						check_call( callable( l ), g[static_cast<std::size_t>( wm[i] )].id, gen_arg( s ) );
						if( s.boolean( ) ) {
							hold( wm[i] );
							drop( m[j] );
							m[j] = wm[i];
							h[j] = l;
						}
					}
				}
				break;
			case 8:
				if( w[j] ) {
					if( w[i] and s.boolean( ) ) {
						*w[i] = *w[j];
					} else {
						W c( *w[j] );
						w[i].emplace( c );
					}
					wm[i] = wm[j];
				}
				break;
			case 9:
				if( w[j] and i != j ) {
					if( w[i] and s.boolean( ) ) {
						*w[i] = std::move( *w[j] );
					} else {
						w[i].emplace( std::move( *w[j] ) );
					}
					wm[i] = wm[j];
					wm[j] = -1;
				} else if( w[j] ) {
					auto &r = *w[j];
					*w[j] = std::move( r );
				}
				break;
			case 10:
				w[i].reset( );
				wm[i] = -2;
				break;
			default:
				if( m[i] >= 0 ) {
					check_call( callable( h[i] ), g[static_cast<std::size_t>( m[i] )].id, gen_arg( s ) );
				}
			}
			long expect = 0;
			for( auto const &x : g ) {
				expect += x.tracked and x.owners > 0;
			}
			CHECK_EQ( g_live - base, expect );
			for( std::size_t x = 0; x < N; ++x ) {
				CHECK_EQ( static_cast<bool>( h[x] ), m[x] >= 0 );
				if( m[x] >= 0 ) {
					check_call( callable( h[x] ), g[static_cast<std::size_t>( m[x] )].id, 4 );
				}
			}
		}
	}
	template<typename Sig>
	void shared_rv( Src &s ) {
		shared<Sig, true>( s );
	}
	PROP_T( shared_function, shared<int( int )>, { .cases = 8000 } );
	PROP_T( shared_function_const, shared<int( int ) const>, { .cases = 4000 } );
	PROP_T( shared_function_ref, shared<int( int ) &>, { .cases = 4000 } );
	PROP_T( shared_function_cref, shared<int( int ) const &>, { .cases = 4000 } );
	PROP_T( shared_function_rref, shared_rv<int( int ) &&>, { .cases = 4000 } );
	PROP_T( shared_function_crref, shared_rv<int( int ) const &&>, { .cases = 4000 } );

	// copies share one target, so state is shared; arguments are forwarded
	PROP( shared_function_state, { .cases = 5000 } ) {
		struct Counter {
			Tracked t;
			int operator( )( int x ) {
				t.chk( "call" );
				return t.v += x;
			}
		};
		daw::shared_function<int( int )> a( Counter{ Tracked( 0 ) } );
		std::vector<daw::shared_function<int( int )>> v{ a };
		int sum = 0;
		std::size_t n = s.len( 10 );
		for( std::size_t k = 0; k < n; ++k ) {
			v.push_back( v[s.below( v.size( ) )] );
			int x = s.range( -10, 10 );
			sum += x;
			CHECK_EQ( v[s.below( v.size( ) )]( x ), sum );
		}
		s.nontrivial( n > 2 );
		daw::shared_function<void( std::string &, std::string, std::string const & )> f(
		  []( std::string &p, std::string q, std::string const &r ) { p = q + r + p; } );
		std::string p = "p", q( s.len( 40 ), 'q' ), q0 = q;
		f( p, q, p );
		CHECK_EQ( p, q0 + "pp" );
		CHECK_EQ( q, q0 );
		daw::shared_function<std::size_t( std::unique_ptr<int> )> u( []( std::unique_ptr<int> x ) { return static_cast<std::size_t>( *x ); } );
		CHECK_EQ( u( std::make_unique<int>( 9 ) ), 9u );
		daw::shared_function<int( int )> mo( [p = std::make_unique<int>( sum )]( int x ) { return *p + x; } );
		auto mo2 = mo;
		CHECK_EQ( mo2( 1 ), sum + 1 );
		// a qualified call reaches the matching overload of the target
		struct Q {
			int operator( )( ) & { return 1; }
			int operator( )( ) const & { return 2; }
			int operator( )( ) && { return 3; }
			int operator( )( ) const && { return 4; }
		};
		daw::shared_function<int( )> q1{ Q{ } };
		daw::shared_function<int( ) const> q2{ Q{ } };
		daw::shared_function<int( ) &> q3{ Q{ } };
		daw::shared_function<int( ) &&> q4{ Q{ } };
		daw::shared_function<int( ) const noexcept> q5{ []( ) noexcept { return 6; } };
		CHECK_EQ( q1( ), 1 );
		CHECK_EQ( q2( ), 2 );
		CHECK_EQ( std::as_const( q2 )( ), 2 );
		CHECK_EQ( q3( ), 1 );
		CHECK_EQ( std::move( q4 )( ), 3 );
		CHECK_EQ( q5( ), 6 );
	}
	PROP( shared_function_empty, { .cases = 24 } ) {
		s.nontrivial( );
		daw::shared_function<int( int )> e{ };
		int ( *np )( int ) = nullptr;
		auto k = s.below( 3 );
		if( k == 1 ) {
			e = daw::shared_function<int( int )>( np );
		} else if( k == 2 ) {
			daw::shared_function<int( int )> x( Plain{ 1 } );
			e = std::move( x );
			std::swap( e, x );
		}
		CHECK( not e );
		CHECK( aborts( [&] {
			try {
				(void)e( 1 );
			} catch( ... ) { std::abort( ); }
		} ) );
		CHECK( not e.get_weak( ).lock( ) );
	}
	// threads share, copy, lock and drop one target
	PROP( shared_function_threads, { .cases = 150, .nondet = true } ) {
		int nt = s.range( 2, 4 ), rounds = s.range( 50, 400 );
		s.nontrivial( rounds > 100 );
		struct T {
			std::atomic<int> *calls;
			std::shared_ptr<int> tok;
			T( std::atomic<int> *c, std::atomic<int> *d )
			  : calls( c )
			  , tok( new int( 3 ), [d]( int *p ) {
				  ++*d;
				  delete p;
			  } ) {}
			int operator( )( int x ) const {
				++*calls;
				return *tok + x;
			}
		};
		std::atomic<int> calls{ 0 }, dtors{ 0 }, locked{ 0 }, bad{ 0 };
		{
			std::optional<daw::shared_function<int( int ) const>> f( std::in_place, T( &calls, &dtors ) );
			auto weak = f->get_weak( );
			std::vector<std::thread> th;
			std::atomic<int> ready{ 0 };
			for( int t = 0; t < nt; ++t ) {
				th.emplace_back( [&, weak, mine = *f]( ) mutable {
					std::optional<daw::shared_function<int( int ) const>> own( std::move( mine ) );
					++ready;
					while( ready < nt ) {
					}
					for( int r = 0; r < rounds; ++r ) {
						auto l = weak.lock( );
						if( l ) {
							++locked;
							if( l( r ) != r + 3 ) {
								++bad;
							}
							auto c = l;
							l = daw::shared_function<int( int ) const>( );
							if( c( 1 ) != 4 ) {
								++bad;
							}
						} else if( own ) {
							++bad;
						}
						if( r == rounds / 2 ) {
							own.reset( );
						}
					}
				} );
			}
			f.reset( );
			for( auto &t : th ) {
				t.join( );
			}
			CHECK( not weak.lock( ) );
			CHECK_EQ( dtors.load( ), 1 );
		}
		CHECK_EQ( bad.load( ), 0 );
		CHECK_EQ( calls.load( ), 2 * locked.load( ) );
	}

	// -------------------------------------------------------- function_table
	struct Add {
		int k = 0;
		int operator( )( int x ) const { return x + k; }
	};
	struct Mul {
		int k = 0;
		int operator( )( int x ) const { return x * k; }
	};
	struct None {
		int k = 0;
		int operator( )( ) const { return k; }
	};
	// takes any number of arguments, none as well, and tells how they came
	struct Any {
		int k = 0;
		template<typename... A>
		int operator( )( A &&...as ) const {
			return ( k + ... + ( as + ( std::is_lvalue_reference_v<A> ? 10 : 20 ) ) );
		}
	};
	PROP( function_table_any, { .cases = 12000 } ) {
		auto d = [&] {
			return s.range( -1000, 1000 );
		};
		int const k0 = d( );
		int const k1 = d( );
		int const k2 = d( );
		auto const t = daw::make_function_table<int>( None{ k0 }, Any{ k1 }, Add{ k2 }, Any{ k2 } );
		int const x = d( );
		int const y = d( );
		auto const i = s.below( 4 );
		s.nontrivial( i % 2 == 1 );
		int const want = i == 0 ? k0 : i == 1 ? k1 + x + 10 : i == 2 ? x + k2 : k2 + x + 10;
		CHECK_EQ( t.call<true>( i, x ), want );
		if( i != 0 ) {
			CHECK_EQ( t.call( i, x ), want );
		}
		if( i % 2 == 1 ) {
			int const k = i == 1 ? k1 : k2;
			CHECK_EQ( t.call<true>( i ), k );
			CHECK_EQ( t.call( i ), k );
			CHECK_EQ( t( i, x, int( y ) ), k + x + 10 + y + 20 );
			CHECK_EQ( t.call<true>( i, int( x ), y ), k + x + 20 + y + 10 );
		}
	}
	PROP( function_table, { .cases = 12000 } ) {
		auto d = [&] { return s.range( -1000, 1000 ); };
		int k0 = d( ), k1 = d( ), k2 = d( ), k3 = d( );
		auto t = daw::make_function_table<int>( Add{ k0 }, Mul{ k1 }, Add{ k2 }, None{ k3 } );
		CHECK_EQ( t.size( ), 4u );
		auto arr = daw::make_function_table<int>( Add{ k0 }, Add{ k1 }, Add{ k2 } );
		CHECK_EQ( arr.size( ), 3u );
		auto fps = daw::make_function_table<int>( &fp_a, &fp_b );
		std::size_t ops = 1 + s.len( 12 );
		std::array<int, 3> a{ k0, k1, k2 };
		for( std::size_t k = 0; k < ops; ++k ) {
			int x = d( );
			auto i = s.below( 4 );
			s.note( [&] { return std::to_string( i ) + "(" + std::to_string( x ) + ") "; } );
			int e = i == 0 ? x + k0 : i == 1 ? x * k1 : i == 2 ? x + k2 : k3;
			CHECK_EQ( ( t.call<true>( i, x ) ), e );
			CHECK_EQ( ( t.operator( )<true>( i, x ) ), e );
			if( i < 3 ) {
				CHECK_EQ( t( i, x ), e );
				CHECK_EQ( arr( i, x ), x + a[i] );
				CHECK_EQ( arr.call( i, x ), x + a[i] );
			} else {
				CHECK_EQ( t( 3 ), k3 );
			}
			CHECK_EQ( fps( i % 2, 3 ), expect_call( i % 2 ? 5002 : 5001, 3 ) );
			int nk = d( );
			auto j = s.below( 4 );
			if( j == 1 ) {
				t.set( j, Mul{ nk } );
				k1 = nk;
			} else if( j == 3 ) {
				t.set( j, None{ nk } );
				k3 = nk;
			} else {
				t.set( j, Add{ nk } );
				( j == 0 ? k0 : k2 ) = nk;
			}
			auto q = s.below( 3 );
			arr.set( q, Add{ nk } );
			a[q] = nk;
			s.nontrivial( k > 2 );
		}
	}
	PROP( function_table_abort, { .cases = 30 } ) {
		auto t = daw::make_function_table<int>( Add{ 1 }, Mul{ 2 }, None{ 3 } );
		s.nontrivial( );
		switch( s.below( 4 ) ) {
		case 0: {
			std::size_t i = 3 + s.below( 100 );
			CHECK( aborts( [&] { (void)t( i, 1 ); } ) );
			break;
		}
		case 1:
			CHECK( aborts( [&] { (void)t( 2, 1 ); } ) );
			break;
		case 2: {
			std::size_t i = s.boolean( ) ? 1 : 3;
			CHECK( aborts( [&] { t.set( i, Add{ 1 } ); } ) );
			break;
		}
		default:
			CHECK( aborts( [&] { (void)t( 0 ); } ) );
		}
	}

	// ------------------------------------------------------------- binders
	PROP( binders, { .cases = 12000 } ) {
		auto f = []( auto const &...xs ) {
			std::string r;
			( ( r += std::to_string( xs ) + "," ), ... );
			return r;
		};
		auto d = [&] { return s.range( -1000, 1000 ); };
		int a = d( ), b = d( ), x = d( ), y = d( ), z = d( );
		s.nontrivial( a != b and x != y and y != z );
		auto front = daw::bind_front( f, a, b );
		CHECK_EQ( front( ), f( a, b ) );
		CHECK_EQ( front( x ), f( a, b, x ) );
		CHECK_EQ( std::as_const( front )( x, y, z ), f( a, b, x, y, z ) );
		auto b0 = daw::bind_args_at<0>( f, a, b );
		CHECK_EQ( b0( x, y ), f( a, b, x, y ) );
		auto b1 = daw::bind_args_at<1>( f, a, b );
		CHECK_EQ( b1( x ), f( x, a, b ) );
		CHECK_EQ( b1( x, y, z ), f( x, a, b, y, z ) );
		auto const b2 = daw::bind_args_at<2>( f, a );
		CHECK_EQ( b2( x, y ), f( x, y, a ) );
		CHECK_EQ( b2( x, y, z ), f( x, y, a, z ) );
		auto nested = daw::bind_args_at<1>( b2, b );
		CHECK_EQ( nested( x, y ), f( x, b, a, y ) );
		// bound values are copies, and calls do not consume them
		std::string str( s.len( 40 ), 's' ), str0 = str;
		auto g = []( std::string p, std::string q ) { return p + "|" + q; };
		auto gb = daw::bind_args_at<1>( g, str );
		auto gf = daw::bind_front( g, str );
		str += "changed";
		CHECK_EQ( gb( "x" ), "x|" + str0 );
		CHECK_EQ( gb( "y" ), "y|" + str0 );
		CHECK_EQ( gf( "x" ), str0 + "|x" );
		CHECK_EQ( gf( "y" ), str0 + "|y" );
		// references go through bind_front's trailing arguments
		auto inc = []( int k, int &r ) { r += k; };
		auto bi = daw::bind_front( inc, a );
		int r = x;
		bi( r );
		CHECK_EQ( r, x + a );
		// make_callable and identity
		auto mc = daw::make_callable( fp_a );
		CHECK_EQ( mc( 4 ), expect_call( 5001, 4 ) );
		auto ml = daw::make_callable( Add{ a } );
		CHECK_EQ( ml( x ), x + a );
		CHECK( &daw::identity_function( r ) == &r );
		std::string str1 = str;
		CHECK( &static_cast<std::string const &>( daw::identity_function( std::move( str1 ) ) ) == &str1 );
	}
#endif
} // namespace
