// C09: rc_ptr histories over several holders against a model of which holder
// refers to which object; observer_ptr against a raw pointer.
// nontrivial: an object had two or more owners when a holder was reset,
// overwritten, moved or swapped.
// pbt-flags: -Wno-self-move -Wno-self-assign-overloaded
// pbt-scale: 4
#include "pbt.h"
#include <array>
#include <map>
#include <string>
#include <vector>

#include "daw/daw_observer_ptr.h"
#include "daw/daw_ref_counted_pointer.h"
using namespace pbt;

namespace {
	std::vector<int> g_del; // deleter calls per object
	struct Obj {
		TrackedPlain t;
		std::size_t id;
		Obj( ) : t( 0 ), id( 0 ) {}
		explicit Obj( int x ) : t( x ), id( g_del.size( ) ) { g_del.push_back( 0 ); }
		~Obj( ) { g_del[id]++; }
	};
	std::size_t g_deleter_calls = 0;
	struct CountDel {
		void operator( )( Obj *p ) const noexcept {
			++g_deleter_calls;
			delete p;
		}
	};
	struct Agg {
		TrackedPlain a;
		int b;
	};
	template<typename P>
	void rc( Src &s ) {
		g_del.clear( );
		g_deleter_calls = 0;
		{
			constexpr std::size_t N = 4;
			std::array<P, N> h{ };
			std::array<int, N> m; // object or -1
			m.fill( -1 );
			std::vector<Obj *> obj;
			auto owners = [&]( int o ) {
				std::size_t n = 0;
				for( int x : m ) {
					n += o >= 0 and x == o;
				}
				return n;
			};
			std::size_t ops = 1 + s.len( 30 );
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( N ), j = s.below( N );
				auto op = s.below( 10 );
				s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + "; "; } );
				s.nontrivial( op != 0 and owners( m[i] ) > 1 );
				switch( op ) {
				case 0: {
					int v = static_cast<int>( obj.size( ) );
					if constexpr( std::is_same_v<P, daw::rc_ptr<Obj>> ) {
						h[i] = s.boolean( ) ? daw::make_rc_ptr<Obj>( v ) : P( new Obj( v ) );
					} else {
						h[i] = P( new Obj( v ) );
					}
					obj.push_back( h[i].get( ) );
					m[i] = v;
					break;
				}
				case 1:
				case 2: // copy assignment
					s.label( "self copy", i == j and m[i] >= 0 );
					s.label( "overwrite a shared holder with an empty one", m[j] < 0 and owners( m[i] ) > 1 );
					h[i] = h[j];
					m[i] = m[j];
					break;
				case 3: // move assignment
					h[i] = std::move( h[j] );
					if( i != j ) {
						m[i] = m[j];
						m[j] = -1;
					}
					break;
				case 4: { // copy construction
					P t( h[i] );
					CHECK( t.get( ) == h[i].get( ) );
					if( m[i] >= 0 ) {
						CHECK_EQ( t.ref_count( ), owners( m[i] ) + 1 );
						CHECK_EQ( std::as_const( h[i] ).ref_count( ), owners( m[i] ) + 1 );
						if( s.boolean( ) ) {
							t.reset( );
							CHECK( t.get( ) == nullptr );
							CHECK( not t );
							CHECK_EQ( h[i].ref_count( ), owners( m[i] ) );
							t.reset( );
						}
					}
					break;
				}
				case 5: { // move construction
					P t( std::move( h[i] ) );
					CHECK( h[i].get( ) == nullptr );
					if( m[i] >= 0 ) {
						CHECK_EQ( t.ref_count( ), owners( m[i] ) );
					}
					if( s.boolean( ) ) {
						h[j] = std::move( t );
						auto o = m[i];
						m[i] = -1;
						m[j] = o;
					} else {
						m[i] = -1;
					}
					break;
				}
				case 6:
					h[i].reset( );
					m[i] = -1;
					break;
				case 7:
					h[i].swap( h[j] );
					std::swap( m[i], m[j] );
					break;
				case 8: {
					using daw::swap;
					swap( h[i], h[j] );
					std::swap( m[i], m[j] );
					break;
				}
				default:
					h[i] = P( );
					m[i] = -1;
				}
				CHECK_EQ( g_del.size( ), obj.size( ) );
				for( std::size_t o = 0; o < obj.size( ); ++o ) {
					int want = owners( static_cast<int>( o ) ) == 0;
					if( g_del[o] != want ) {
						fail( "object " + std::to_string( o ) + " destroyed " + std::to_string( g_del[o] ) + " times, expected " + std::to_string( want ) );
					}
				}
				for( std::size_t q = 0; q < N; ++q ) {
					CHECK_EQ( static_cast<bool>( h[q] ), m[q] >= 0 );
					CHECK_EQ( h[q] == nullptr, m[q] < 0 );
					CHECK_EQ( h[q] != nullptr, m[q] >= 0 );
					CHECK_EQ( h[q] > nullptr, m[q] >= 0 );
					CHECK_EQ( h[q] <= nullptr, m[q] < 0 );
					CHECK_EQ( h[q] < nullptr, false );
					CHECK_EQ( h[q] >= nullptr, true );
					if( m[q] >= 0 ) {
						CHECK( h[q].get( ) == obj[static_cast<std::size_t>( m[q] )] );
						CHECK_EQ( h[q].ref_count( ), owners( m[q] ) );
						CHECK_EQ( h[q]->t.v, m[q] );
						CHECK_EQ( ( *h[q] ).t.v, m[q] );
					} else {
						CHECK( h[q].get( ) == nullptr );
					}
				}
				auto pa = h[i].get( ), pb = h[j].get( );
				std::less<Obj *> lt{ };
				CHECK_EQ( h[i] == h[j], pa == pb );
				CHECK_EQ( h[i] != h[j], pa != pb );
				CHECK_EQ( h[i] < h[j], lt( pa, pb ) );
				CHECK_EQ( h[i] > h[j], lt( pb, pa ) );
				CHECK_EQ( h[i] <= h[j], not lt( pb, pa ) );
				CHECK_EQ( h[i] >= h[j], not lt( pa, pb ) );
			}
		}
		for( int d : g_del ) {
			CHECK_EQ( d, 1 );
		}
		CHECK_EQ( g_live, 0 );
		CHECK_EQ( g_deleter_calls, ( std::is_same_v<P, daw::rc_ptr<Obj, CountDel>> ? g_del.size( ) : 0 ) );
		{
			int const x = s.range<int>( -9, 9 );
			auto agg = daw::make_rc_ptr<Agg>( x, x + 1 );
			auto const other = agg;
			agg.reset( );
			CHECK_EQ( other->a.v, x );
			CHECK_EQ( other->b, x + 1 );
			CHECK_EQ( g_live, 1 );
		}
		CHECK_EQ( g_live, 0 );
	}
	PROP_T( rc_ptr, ( rc<daw::rc_ptr<Obj>> ), { .cases = 100000 } );
	PROP_T( rc_ptr_custom_deleter, ( rc<daw::rc_ptr<Obj, CountDel>> ), { .cases = 100000 } );

	PROP( rc_ptr_array, { .cases = 80000 } ) {
		{
			using P = daw::rc_ptr<TrackedPlain[]>;
			struct M {
				int id = -1;
			};
			constexpr std::size_t N = 4;
			std::array<P, N> h{ };
			std::array<int, N> m;
			m.fill( -1 );
			std::vector<std::vector<int>> val;
			auto owners = [&]( int o ) {
				std::size_t n = 0;
				for( int x : m ) {
					n += o >= 0 and x == o;
				}
				return n;
			};
			std::size_t ops = 1 + s.len( 30 );
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( N ), j = s.below( N );
				auto op = s.below( 8 );
				s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + "; "; } );
				s.nontrivial( op != 0 and owners( m[i] ) > 1 );
				switch( op ) {
				case 0: {
					std::size_t n = 1 + s.below( 5 );
					switch( s.below( 3 ) ) {
					case 0:
						h[i] = daw::make_rc_ptr<TrackedPlain[]>( n );
						break;
					case 1:
						h[i] = daw::make_rc_ptr_for_overwrite<TrackedPlain[]>( n );
						break;
					default:
						h[i] = P( new TrackedPlain[n]{ } );
					}
					m[i] = static_cast<int>( val.size( ) );
					val.emplace_back( n, 0 );
					break;
				}
				case 1:
				case 2:
					h[i] = h[j];
					m[i] = m[j];
					break;
				case 3:
					h[i] = std::move( h[j] );
					if( i != j ) {
						m[i] = m[j];
						m[j] = -1;
					}
					break;
				case 4: {
					P t( h[i] );
					CHECK( t.get( ) == h[i].get( ) );
					if( m[i] >= 0 ) {
						CHECK_EQ( t.ref_count( ), owners( m[i] ) + 1 );
						t.reset( );
						CHECK( t.get( ) == nullptr );
						CHECK_EQ( h[i].ref_count( ), owners( m[i] ) );
					}
					break;
				}
				case 5:
					h[i].reset( );
					m[i] = -1;
					break;
				case 6:
					if( s.boolean( ) ) {
						h[i].swap( h[j] );
					} else {
						daw::swap( h[i], h[j] );
					}
					std::swap( m[i], m[j] );
					break;
				default:
					if( m[i] >= 0 ) {
						auto &v = val[static_cast<std::size_t>( m[i] )];
						auto q = s.below( v.size( ) );
						v[q] = static_cast<int>( k + 1 );
						h[i][q] = static_cast<int>( k + 1 );
					}
				}
				long want = 0;
				for( std::size_t o = 0; o < val.size( ); ++o ) {
					want += owners( static_cast<int>( o ) ) ? static_cast<long>( val[o].size( ) ) : 0;
				}
				CHECK_EQ( g_live, want );
				for( std::size_t q = 0; q < N; ++q ) {
					CHECK_EQ( static_cast<bool>( h[q] ), m[q] >= 0 );
					CHECK_EQ( h[q] == nullptr, m[q] < 0 );
					CHECK_EQ( h[q] != nullptr, m[q] >= 0 );
					CHECK_EQ( h[q] > nullptr, m[q] >= 0 );
					CHECK_EQ( h[q] <= nullptr, m[q] < 0 );
					CHECK_EQ( h[q] < nullptr, false );
					CHECK_EQ( h[q] >= nullptr, true );
					if( m[q] >= 0 and not val[static_cast<std::size_t>( m[q] )].empty( ) ) {
						CHECK( h[q].operator->( ) == h[q].get( ) and &*h[q] == h[q].get( ) );
					}
					if( m[q] >= 0 ) {
						auto const &v = val[static_cast<std::size_t>( m[q] )];
						CHECK_EQ( h[q].ref_count( ), owners( m[q] ) );
						for( std::size_t e = 0; e < v.size( ); ++e ) {
							CHECK_EQ( h[q][e].v, v[e] );
						}
					}
				}
				std::less<> lt{ };
				auto pa = h[i].get( ), pb = h[j].get( );
				CHECK_EQ( h[i] == h[j], m[i] == m[j] );
				CHECK_EQ( h[i] != h[j], m[i] != m[j] );
				CHECK_EQ( h[i] < h[j], lt( pa, pb ) );
				CHECK_EQ( h[i] > h[j], lt( pb, pa ) );
				CHECK_EQ( h[i] <= h[j], not lt( pb, pa ) );
				CHECK_EQ( h[i] >= h[j], not lt( pa, pb ) );
			}
		}
		CHECK_EQ( g_live, 0 );
	}

	struct B {
		int x = 1;
	};
	struct D : B {};
	PROP( observer_ptr, { .cases = 60000 } ) {
		D arr[4];
		for( int i = 0; i < 4; ++i ) {
			arr[i].x = i;
		}
		using P = daw::observer_ptr<D>;
		std::array<P, 3> h{ P( nullptr ), P( nullptr ), P( nullptr ) };
		std::array<D *, 3> m{ };
		std::size_t ops = 1 + s.len( 16 );
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( 3 ), j = s.below( 3 );
			D *q = s.chance( 1, 5 ) ? nullptr : arr + s.below( 4 );
			switch( s.below( 9 ) ) {
			case 0:
				h[i] = q;
				m[i] = q;
				break;
			case 1:
				h[i].reset( q );
				m[i] = q;
				break;
			case 2:
				CHECK( h[i].release( ) == m[i] );
				m[i] = nullptr;
				break;
			case 3:
				h[i].reset( );
				m[i] = nullptr;
				break;
			case 4:
				*h[i].get_out( ) = q;
				m[i] = q;
				break;
			case 5:
				s.nontrivial( m[j] != nullptr );
				h[i] = h[j];
				m[i] = m[j];
				break;
			case 6: {
				daw::observer_ptr<B> b( h[i] );
				daw::observer_ptr<D const> c( h[i] );
				CHECK( b.get( ) == m[i] );
				CHECK( c.get( ) == m[i] );
				break;
			}
			case 7: {
				int called = 0;
				auto r = h[i].and_then( [&]( P p ) {
					++called;
					CHECK( p.get( ) == m[i] );
					return P( q );
				} );
				CHECK_EQ( called, m[i] ? 1 : 0 );
				CHECK( r.get( ) == ( m[i] ? q : nullptr ) );
				called = 0;
				auto o = h[i].or_else( [&] {
					++called;
					return P( q );
				} );
				CHECK_EQ( called, m[i] ? 0 : 1 );
				CHECK( o.get( ) == ( m[i] ? m[i] : q ) );
				break;
			}
			default: {
				D *r = h[i].transform( []( P p ) { return p.get( ); } );
				CHECK( r == m[i] );
				CHECK( std::as_const( h[i] ).transform( []( P p ) { return p.get( ); } ) == m[i] );
			}
			}
			for( std::size_t z = 0; z < 3; ++z ) {
				CHECK( h[z].get( ) == m[z] );
				CHECK( static_cast<D *>( h[z] ) == m[z] );
				CHECK_EQ( static_cast<bool>( h[z] ), m[z] != nullptr );
				if( m[z] ) {
					CHECK( &*h[z] == m[z] );
					CHECK( &h[z].value( ) == m[z] );
					CHECK_EQ( h[z]->x, m[z]->x );
				}
			}
			CHECK_EQ( h[i] == h[j], m[i] == m[j] );
			CHECK_EQ( h[i] != h[j], m[i] != m[j] );
			CHECK_EQ( h[i] == q, m[i] == q );
			CHECK_EQ( h[i] != q, m[i] != q );
			std::less<D *> lt{ };
			CHECK_EQ( h[i] < h[j], lt( m[i], m[j] ) );
			CHECK_EQ( h[i] > h[j], lt( m[j], m[i] ) );
			CHECK_EQ( h[i] <= h[j], not lt( m[j], m[i] ) );
			CHECK_EQ( h[i] >= h[j], not lt( m[i], m[j] ) );
			CHECK_EQ( h[i] < q, lt( m[i], q ) );
			CHECK_EQ( h[i] > q, lt( q, m[i] ) );
			CHECK_EQ( h[i] <= q, not lt( q, m[i] ) );
			CHECK_EQ( h[i] >= q, not lt( m[i], q ) );
		}
	}
	// a list whose nodes own the next one, edited through the holder inside a node
	template<template<typename> class P>
	struct Link {
		TrackedPlain t{ 0 };
		P<Link> next{ };
		Link( ) = default;
		~Link( ) noexcept {} // the holder's exception specification needs it
	};
	template<template<typename> class P, bool Copies, typename Make>
	void chain( Src &s, Make make ) {
		{
			using L = Link<P>;
			P<L> head{ };
			std::vector<int> m;
			auto push = [&]( int x ) {
				P<L> n = make( static_cast<L *>( nullptr ) );
				n->t.v = x;
				n->next = std::move( head );
				head = std::move( n );
				m.insert( m.begin( ), x );
			};
			auto ops = 1 + s.len( 24 );
			for( std::size_t k = 0; k < ops; ++k ) {
				switch( s.below( 5 ) ) {
				case 0:
				case 1: push( static_cast<int>( s.below( 100 ) ) ); break;
				case 2:
					if( not m.empty( ) ) {
						s.nontrivial( m.size( ) > 1 );
						head = std::move( head->next );
						m.erase( m.begin( ) );
					}
					break;
				case 3:
					if( m.size( ) > 1 ) {
						s.nontrivial( );
						auto at = s.below( m.size( ) - 1 );
						auto *p = &head;
						for( std::size_t q = 0; q < at; ++q ) {
							p = &( *p )->next;
						}
						( *p )->next = std::move( ( *p )->next->next );
						m.erase( m.begin( ) + static_cast<std::ptrdiff_t>( at ) + 1 );
					}
					break;
				default:
					if constexpr( Copies ) {
						if( not m.empty( ) ) {
							s.nontrivial( m.size( ) > 1 );
							head = std::as_const( head->next );
							m.erase( m.begin( ) );
						}
					}
				}
				std::vector<int> g;
				for( auto *p = &head; *p; p = &( *p )->next ) {
					g.push_back( ( *p )->t.v );
				}
				CHECK_EQ( g, m );
				CHECK_EQ( g_live, static_cast<long>( m.size( ) ) );
			}
		}
		CHECK_EQ( g_live, 0 );
	}
	template<typename T>
	using rcp = daw::rc_ptr<T>;
	template<typename T>
	using rca = daw::rc_ptr<T[]>;
	PROP( list_rc_ptr, { .cases = 20000 } ) {
		chain<rcp, true>( s, []<typename L>( L * ) { return daw::rc_ptr<L>( new L( ) ); } );
	}
	PROP( list_rc_ptr_array, { .cases = 20000 } ) {
		struct L {
			TrackedPlain t{ 0 };
			daw::rc_ptr<L[]> next{ };
			~L( ) noexcept {}
		};
		{
			daw::rc_ptr<L[]> head{ };
			std::size_t depth = 0;
			auto ops = 1 + s.len( 16 );
			for( std::size_t k = 0; k < ops; ++k ) {
				if( depth == 0 or s.boolean( ) ) {
					daw::rc_ptr<L[]> n( new L[2] );
					n[0].t.v = static_cast<int>( ++depth );
					n[0].next = std::move( head );
					head = std::move( n );
				} else {
					s.nontrivial( );
					if( s.boolean( ) ) {
						head = std::move( head[0].next );
					} else {
						head = std::as_const( head[0].next );
					}
					--depth;
				}
				CHECK_EQ( static_cast<bool>( head ), depth > 0 );
				if( depth > 0 ) {
					CHECK_EQ( head[0].t.v, static_cast<int>( depth ) );
					CHECK_EQ( head.ref_count( ), std::size_t{ 1 } );
				}
				CHECK_EQ( g_live, static_cast<long>( 2 * depth ) );
			}
		}
		CHECK_EQ( g_live, 0 );
	}
} // namespace
