// C08: owning pointers under ownership histories over several holders, against
// a model that maps each holder to the object it must own.
// nontrivial: the history moved or swapped between holders, or onto itself,
// after an object was owned.
// pbt-flags: -Wno-deprecated-declarations -Wno-self-move -Wno-self-assign-overloaded
// pbt-scale: 3
#include "pbt.h"
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "daw/daw_maybe_unique_ptr.h"
#include "daw/daw_prop_const_ptr.h"
#include "daw/daw_unique_array.h"
#include "daw/daw_unique_ptr.h"
#include "daw/daw_value_ptr.h"
#include "daw/deprecated/daw_copiable_unique_ptr.h"
#include "daw/deprecated/daw_heap_value.h"
using namespace pbt;

namespace {
	// how often each object was destroyed, and through which deleter
	std::vector<int> g_dead;
	std::vector<int> g_tag;
	struct Node {
		int v;
		int id;
		explicit Node( int x ) : v( x ), id( static_cast<int>( g_dead.size( ) ) ) {
			g_dead.push_back( 0 );
			g_tag.push_back( -1 );
		}
		Node( Node const & ) = delete;
		virtual ~Node( ) {
			g_dead[static_cast<std::size_t>( id )]++;
		}
	};
	struct Leaf : Node {
		int pad[3] = { 1, 2, 3 };
		explicit Leaf( int x ) : Node( x ) {}
	};
	struct TagDel {
		int tag = 0;
		TagDel( ) = default;
		TagDel( int t ) : tag( t ) {}
		void operator( )( Node *p ) const {
			g_tag[static_cast<std::size_t>( p->id )] = tag;
			delete p;
		}
	};
	struct Slot {
		Node *p = nullptr;
		bool owned = true;
		int tag = 0;
	};
	struct World {
		std::vector<int> want; // 1: must have been destroyed
		std::vector<int> want_tag;
		std::vector<Node *> free_; // released or never owned
		World( ) {
			g_dead.clear( );
			g_tag.clear( );
		}
		template<typename T = Node>
		T *make( int v ) {
			auto *r = new T( v );
			want.resize( g_dead.size( ), 0 );
			want_tag.resize( g_dead.size( ), -1 );
			return r;
		}
		void kill( Slot &s, bool tagged ) {
			if( s.p and s.owned ) {
				auto i = static_cast<std::size_t>( s.p->id );
				want[i]++;
				if( tagged ) {
					want_tag[i] = s.tag;
				}
			}
		}
		void check( ) {
			CHECK_EQ( g_dead.size( ), want.size( ) );
			for( std::size_t i = 0; i < want.size( ); ++i ) {
				if( g_dead[i] != want[i] ) {
					fail( "object " + std::to_string( i ) + " was destroyed " + std::to_string( g_dead[i] ) + " times, expected " + std::to_string( want[i] ) );
				}
				CHECK_EQ( g_tag[i], want_tag[i] );
			}
		}
	};
	template<typename H>
	void order( H const &a, H const &b, Node const *pa, Node const *pb ) {
		std::less<Node const *> lt{ };
		CHECK_EQ( a == b, pa == pb );
		CHECK_EQ( a != b, pa != pb );
		CHECK_EQ( a < b, lt( pa, pb ) );
		CHECK_EQ( a > b, lt( pb, pa ) );
		CHECK_EQ( a <= b, not lt( pb, pa ) );
		CHECK_EQ( a >= b, not lt( pa, pb ) );
	}

	template<typename Del, bool Maybe>
	void uptr( Src &s ) {
		constexpr bool Tagged = std::is_same_v<Del, TagDel>;
		using P = std::conditional_t<Maybe, daw::maybe_unique_ptr<Node, Del>, daw::unique_ptr<Node, Del>>;
		World w;
		constexpr std::size_t N = 3;
		{
			std::vector<Node *> pool; // never owned
			if( Maybe ) {
				for( int i = 0; i < 3; ++i ) {
					pool.push_back( w.make( 900 + i ) );
				}
			}
			{
				std::array<P, N> h{ };
				std::array<Slot, N> m{ };
				int val = 0;
				auto fresh = [&]( Slot &n ) { // new object or (maybe) a borrowed one
					if( Maybe and s.chance( 1, 3 ) ) {
						n.p = pool[s.below( pool.size( ) )];
						n.owned = false;
					} else if( not w.free_.empty( ) and s.chance( 1, 3 ) ) {
						n.p = w.free_.back( );
						w.free_.pop_back( );
						n.owned = true;
					} else {
						n.p = s.boolean( ) ? w.make<Leaf>( ++val ) : w.make( ++val );
						n.owned = true;
					}
				};
				std::size_t ops = 1 + s.len( 24 );
				for( std::size_t k = 0; k < ops; ++k ) {
					std::size_t i = s.below( N ), j = s.below( N );
					auto op = s.below( 17 );
					s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + "; "; } );
					switch( op ) {
					case 0: { // reset( p )
						Slot n = m[i];
						fresh( n );
						w.kill( m[i], Tagged );
						if constexpr( Maybe ) {
							if( n.owned and s.boolean( ) ) {
								h[i].reset( n.p );
							} else {
								h[i].reset( n.p, n.owned );
							}
						} else {
							h[i].reset( n.p );
						}
						m[i] = n;
						break;
					}
					case 1: // reset()
						w.kill( m[i], Tagged );
						h[i].reset( );
						m[i].p = nullptr;
						m[i].owned = true;
						break;
					case 2: { // release
						Node *r = h[i].release( );
						CHECK( r == m[i].p );
						if( r and m[i].owned ) {
							w.free_.push_back( r );
						}
						m[i].p = nullptr;
						m[i].owned = true;
						break;
					}
					case 3:
					case 4: // move assignment
						s.nontrivial( m[i].p or m[j].p );
						s.label( "self move", i == j and m[i].p );
						s.label( "move from a borrowed pointer", not m[j].owned );
						if( i != j ) {
							w.kill( m[i], Tagged );
						}
						h[i] = std::move( h[j] );
						if( i != j ) {
							m[i] = m[j];
							m[j].p = nullptr;
							m[j].owned = true;
						}
						break;
					case 5: { // move construction
						s.nontrivial( m[i].p != nullptr );
						P t( std::move( h[i] ) );
						CHECK( t.get( ) == m[i].p );
						CHECK( h[i].get( ) == nullptr );
						w.check( );
						if( s.boolean( ) ) {
							h[i] = std::move( t );
						} else {
							w.kill( m[i], Tagged );
							m[i].p = nullptr;
							m[i].owned = true;
						}
						break;
					}
					case 6: // swap
						s.nontrivial( m[i].p or m[j].p );
						if( s.boolean( ) ) {
							h[i].swap( h[j] );
						} else {
							using std::swap;
							swap( h[i], h[j] );
						}
						std::swap( m[i], m[j] );
						break;
					case 7: { // from a raw pointer
						Slot n = m[i];
						fresh( n );
						w.kill( m[i], Tagged );
						if constexpr( Tagged ) {
							n.tag = 1 + static_cast<int>( s.below( 50 ) );
							if constexpr( Maybe ) {
								h[i] = P( n.p, TagDel( n.tag ), n.owned );
							} else {
								h[i] = P( n.p, TagDel( n.tag ) );
							}
						} else if constexpr( Maybe ) {
							h[i] = n.owned and s.boolean( ) ? P( n.p ) : P( n.p, n.owned );
						} else {
							h[i] = P( n.p );
						}
						m[i] = n;
						break;
					}
					case 8: // nullptr
						w.kill( m[i], Tagged );
						h[i] = P( nullptr );
						m[i] = Slot{ };
						break;
					case 9: // object of a derived type, converting construction
					case 10:
						if constexpr( not Tagged ) {
							auto *q = w.make<Leaf>( ++val );
							w.kill( m[i], Tagged );
							bool own = true;
							if constexpr( Maybe ) {
								own = s.boolean( );
								if( not own ) {
									pool.push_back( q );
								}
								daw::maybe_unique_ptr<Leaf> l( q, own );
								if( op == 9 ) {
									h[i] = P( std::move( l ) );
								} else {
									h[i] = std::move( l );
								}
								CHECK( not l );
								if( s.boolean( ) ) { // an emptied holder owns what it is given next
									auto *q2 = w.make<Leaf>( ++val );
									*l.get_out( ) = q2;
									w.want[static_cast<std::size_t>( q2->id )] = 1;
								}
							} else {
								daw::unique_ptr<Leaf> l( q );
								if( op == 9 ) {
									h[i] = P( std::move( l ) );
								} else {
									h[i] = std::move( l );
								}
								CHECK( not l );
							}
							m[i].p = q;
							m[i].owned = own;
						} else {
							auto *q = w.make<Leaf>( ++val );
							w.kill( m[i], Tagged );
							int t = 60 + static_cast<int>( s.below( 9 ) );
							using Q = std::conditional_t<Maybe, daw::maybe_unique_ptr<Leaf, Del>, daw::unique_ptr<Leaf, Del>>;
							auto l = [&] {
								if constexpr( Maybe ) {
									return Q( q, TagDel( t ), true );
								} else {
									return Q( q, TagDel( t ) );
								}
							}( );
							if( op == 9 ) {
								h[i] = P( std::move( l ) );
							} else {
								h[i] = std::move( l );
							}
							m[i].p = q;
							m[i].owned = true;
							m[i].tag = t;
						}
						break;
					case 11: // unique_ptr into maybe_unique_ptr
						if constexpr( Maybe and not Tagged ) {
							auto *q = w.make<Leaf>( ++val );
							w.kill( m[i], Tagged );
							daw::unique_ptr<Leaf> l( q );
							if( s.boolean( ) ) {
								h[i] = P( std::move( l ) );
							} else {
								h[i] = std::move( l );
							}
							CHECK( not l );
							m[i].p = q;
							m[i].owned = true;
						}
						break;
					case 12: // get_out
						if( not m[i].p ) {
							auto *q = w.make( ++val );
							*h[i].get_out( ) = q;
							m[i].p = q;
							m[i].owned = true;
						}
						break;
					case 13: { // and_then
						bool called = false;
						h[i] = std::move( h[i] ).and_then( [&]( P p ) {
							called = true;
							CHECK( p.get( ) == m[i].p );
							return p;
						} );
						CHECK_EQ( called, m[i].p != nullptr );
						if( not called and Tagged ) {
							m[i].tag = 0;
						}
						break;
					}
					case 14: { // or_else
						bool called = false;
						Node *q = nullptr;
						h[i] = std::move( h[i] ).or_else( [&] {
							called = true;
							q = w.make( ++val );
							return P( q );
						} );
						CHECK_EQ( called, m[i].p == nullptr );
						if( called ) {
							m[i] = Slot{ };
							m[i].p = q;
						}
						break;
					}
					case 15: { // transform
						Node *r = h[i].transform( []( auto const &p ) { return p.get( ); } );
						CHECK( r == m[i].p );
						break;
					}
					default: // make
						if constexpr( not Tagged ) {
							w.kill( m[i], Tagged );
							if constexpr( Maybe ) {
								h[i] = daw::make_maybe_unique<Node>( ++val );
							} else {
								h[i] = daw::make_unique<Node>( ++val );
							}
							w.want.resize( g_dead.size( ), 0 );
							w.want_tag.resize( g_dead.size( ), -1 );
							CHECK_EQ( h[i]->v, val );
							m[i].p = h[i].get( );
							m[i].owned = true;
						}
					}
					w.check( );
					for( std::size_t q = 0; q < N; ++q ) {
						CHECK( h[q].get( ) == m[q].p );
						CHECK_EQ( static_cast<bool>( h[q] ), m[q].p != nullptr );
						if( m[q].p ) {
							CHECK( &*h[q] == m[q].p );
							CHECK_EQ( h[q]->id, m[q].p->id );
							CHECK_EQ( ( *h[q] ).v, m[q].p->v );
						}
						if constexpr( Tagged ) {
							CHECK( not m[q].p or h[q].get_deleter( ).tag == m[q].tag );
							m[q].tag = h[q].get_deleter( ).tag;
						}
					}
					order( h[i], h[j], m[i].p, m[j].p );
				}
				for( auto &x : m ) {
					w.kill( x, Tagged );
				}
			}
			w.check( );
			for( auto *p : pool ) {
				delete p;
			}
			for( auto *p : w.free_ ) {
				delete p;
			}
		}
		for( int d : g_dead ) {
			CHECK_EQ( d, 1 );
		}
	}
	PROP_T( unique_ptr, ( uptr<daw::default_deleter<Node>, false> ), { .cases = 60000 } );
	PROP_T( unique_ptr_stateful_deleter, ( uptr<TagDel, false> ), { .cases = 60000 } );
	PROP_T( maybe_unique_ptr, ( uptr<daw::default_deleter<Node>, true> ), { .cases = 60000 } );
	PROP_T( maybe_unique_ptr_stateful_deleter, ( uptr<TagDel, true> ), { .cases = 60000 } );

	// handles that are not pointers: a deleter that names its own pointer type
	std::array<int, 32> g_open;
	struct HandleDel {
		using pointer = int;
		static constexpr int default_pointer_value = -1;
		using does_validity_check = void;
		void operator( )( int h ) const {
			if( h >= 0 ) {
				g_open[static_cast<std::size_t>( h )]--;
			}
		}
	};
	PROP( unique_ptr_handles, { .cases = 30000 } ) {
		g_open.fill( 0 );
		using P = daw::unique_ptr<int, HandleDel>;
		std::array<int, 3> m{ -1, -1, -1 };
		std::vector<int> rel;
		int next = 0;
		{
			std::array<P, 3> h{ };
			std::size_t ops = 1 + s.len( 20 );
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( 3 ), j = s.below( 3 );
				switch( s.below( 5 ) ) {
				case 0:
					if( next < 32 ) {
						g_open[static_cast<std::size_t>( next )] = 1;
						m[i] = next;
						h[i].reset( next++ );
					}
					break;
				case 1:
					s.nontrivial( i != j and m[j] >= 0 );
					h[i] = std::move( h[j] );
					if( i != j ) {
						m[i] = m[j];
						m[j] = -1;
					}
					break;
				case 2:
					CHECK_EQ( h[i].release( ), m[i] );
					if( m[i] >= 0 ) {
						rel.push_back( m[i] );
					}
					m[i] = -1;
					break;
				case 3:
					h[i].swap( h[j] );
					std::swap( m[i], m[j] );
					break;
				default:
					h[i].reset( );
					m[i] = -1;
				}
				std::array<int, 32> want{ };
				for( int x : m ) {
					if( x >= 0 ) {
						want[static_cast<std::size_t>( x )] = 1;
					}
				}
				for( int x : rel ) {
					want[static_cast<std::size_t>( x )] = 1;
				}
				CHECK_EQ( g_open, want );
				for( std::size_t q = 0; q < 3; ++q ) {
					CHECK_EQ( h[q].get( ), m[q] );
				}
			}
		}
		for( int x : rel ) {
			g_open[static_cast<std::size_t>( x )]--;
		}
		for( int x : g_open ) {
			CHECK_EQ( x, 0 );
		}
	}

	// arrays
	template<typename P, typename Make, typename Elems>
	void arr( Src &s, Make make, Elems elems ) {
		std::array<P, 3> h{ };
		std::array<std::optional<std::vector<int>>, 3> m;
		std::size_t ops = 1 + s.len( 16 );
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( 3 ), j = s.below( 3 );
			switch( s.below( 11 ) ) {
			case 6: { // released
				TrackedPlain *p = h[i].release( );
				CHECK_EQ( p != nullptr, m[i].has_value( ) );
				CHECK( not h[i] );
				delete[] p;
				m[i].reset( );
				break;
			}
			case 7: { // given on, when there is one
				bool called = false;
				h[i] = std::move( h[i] ).and_then( [&]( P p ) {
					called = true;
					return p;
				} );
				CHECK_EQ( called, m[i].has_value( ) );
				break;
			}
			case 8: { // replaced, when there is none
				bool called = false;
				h[i] = std::move( h[i] ).or_else( [&] {
					called = true;
					return elems( );
				} );
				CHECK_EQ( called, not m[i].has_value( ) );
				if( not m[i] ) {
					m[i] = std::vector<int>{ 7, 8, 9 };
				}
				break;
			}
			case 9: { // looked at, always
				auto const look = []( P const &p ) { return p.get( ); };
				CHECK_EQ( h[i].transform( look ), h[i].get( ) );
				CHECK_EQ( std::as_const( h[i] ).transform( look ), h[i].get( ) );
				CHECK_EQ( std::move( std::as_const( h[i] ) ).transform( look ), h[i].get( ) );
				h[i] = std::move( h[i] ).transform( []( P p ) { return p; } );
				if( m[i] and not m[i]->empty( ) ) {
					if constexpr( std::is_same_v<typename P::reference, TrackedPlain &> ) {
						CHECK_EQ( ( *h[i] ).v, m[i]->front( ) );
					}
					CHECK_EQ( h[i]->v, m[i]->front( ) );
				}
				break;
			}
			case 10: { // moved through a new owner
				P t( std::move( h[i] ) );
				CHECK( not h[i] );
				CHECK_EQ( static_cast<bool>( t ), m[i].has_value( ) );
				if( s.boolean( ) ) {
					h[j] = std::move( t );
					auto v = m[i];
					m[i].reset( );
					m[j] = v;
				} else {
					m[i].reset( );
				}
				break;
			}
			case 0: {
				std::size_t n = s.longlen( 5 );
				h[i] = make( n );
				m[i].emplace( n, 0 );
				break;
			}
			case 1:
				h[i] = elems( );
				m[i] = std::vector<int>{ 7, 8, 9 };
				break;
			case 2:
				s.nontrivial( m[j].has_value( ) );
				h[i] = std::move( h[j] );
				if( i != j ) {
					m[i] = m[j];
					m[j].reset( );
				}
				break;
			case 3:
				h[i].reset( );
				m[i].reset( );
				break;
			case 4:
				h[i].swap( h[j] );
				std::swap( m[i], m[j] );
				break;
			default:
				if( m[i] and not m[i]->empty( ) ) {
					auto q = s.below( m[i]->size( ) );
					int x = static_cast<int>( s.below( 100 ) );
					h[i][q] = TrackedPlain( x );
					( *m[i] )[q] = x;
				}
			}
			long want = 0;
			for( std::size_t q = 0; q < 3; ++q ) {
				CHECK_EQ( static_cast<bool>( h[q] ), m[q].has_value( ) );
				if( m[q] ) {
					want += static_cast<long>( m[q]->size( ) );
					for( std::size_t e = 0; e < m[q]->size( ); ++e ) {
						h[q][e].chk( "array element" );
						CHECK_EQ( h[q][e].v, ( *m[q] )[e] );
					}
				}
			}
			CHECK_EQ( g_live, want );
		}
	}
	void uarr( Src &s ) {
		arr<daw::unique_ptr<TrackedPlain[]>>(
		  s, []( std::size_t n ) { return daw::make_unique<TrackedPlain[]>( n ); },
		  [] { return daw::make_unique_array<TrackedPlain[]>( 7, 8, 9 ); } );
		CHECK_EQ( g_live, 0 );
	}
	void muarr( Src &s ) {
		arr<daw::maybe_unique_ptr<TrackedPlain[]>>(
		  s, []( std::size_t n ) { return daw::make_maybe_unique<TrackedPlain[]>( n ); },
		  [] { return daw::make_maybe_unique_array<TrackedPlain[]>( 7, 8, 9 ); } );
		CHECK_EQ( g_live, 0 );
	}
	PROP_T( unique_ptr_array, uarr, { .cases = 30000 } );
	PROP_T( maybe_unique_ptr_array, muarr, { .cases = 30000 } );

	PROP( unique_array, { .cases = 30000 } ) {
		{
			using A = daw::unique_array_t<TrackedPlain>;
			std::array<A, 3> h{ };
			std::array<std::vector<int>, 3> m;
			std::size_t ops = 1 + s.len( 16 );
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( 3 ), j = s.below( 3 );
				switch( s.below( 4 ) ) {
				case 0: {
					std::size_t n = s.longlen( 5 );
					int x = static_cast<int>( s.below( 50 ) );
					h[i] = A( n, x );
					m[i].assign( n, x );
					break;
				}
				case 1:
					s.nontrivial( not m[j].empty( ) );
					h[i] = std::move( h[j] );
					if( i != j ) {
						m[i] = m[j];
						m[j].clear( );
					}
					break;
				case 2: {
					A t( std::move( h[i] ) );
					CHECK_EQ( h[i].size( ), std::size_t{ 0 } );
					CHECK( h[i].empty( ) );
					std::vector<int> g;
					for( auto const &e : t ) {
						g.push_back( e.v );
					}
					CHECK_EQ( g, m[i] );
					if( s.boolean( ) ) {
						h[i] = std::move( t );
					} else {
						m[i].clear( );
					}
					break;
				}
				default:
					if( not m[i].empty( ) ) {
						auto q = s.below( m[i].size( ) );
						h[i][q] = 99;
						m[i][q] = 99;
					}
				}
				long want = 0;
				for( std::size_t q = 0; q < 3; ++q ) {
					CHECK_EQ( h[q].size( ), m[q].size( ) );
					want += static_cast<long>( m[q].size( ) );
					for( std::size_t e = 0; e < m[q].size( ); ++e ) {
						CHECK_EQ( h[q].at( e ).v, m[q][e] );
					}
				}
				CHECK_EQ( g_live, want );
			}
		}
		CHECK_EQ( g_live, 0 );
	}

	// value semantics: copies are deep
	struct Poly {
		TrackedPlain t;
		Poly( int x = 0 ) : t( x ) {}
		friend bool operator==( Poly const &a, Poly const &b ) { return a.t == b.t; }
		friend bool operator!=( Poly const &a, Poly const &b ) { return not( a.t == b.t ); }
		friend bool operator<( Poly const &a, Poly const &b ) { return a.t < b.t; }
		friend bool operator>( Poly const &a, Poly const &b ) { return b.t < a.t; }
		friend bool operator<=( Poly const &a, Poly const &b ) { return not( b.t < a.t ); }
		friend bool operator>=( Poly const &a, Poly const &b ) { return not( a.t < b.t ); }
		int operator( )( int a, int b ) { return t.v + a * b; }
		int &operator[]( int ) { return t.v; }
		int const &operator[]( int ) const { return t.v; }
	};
	enum class Kind { value, copiable, heap };
	template<typename H, Kind K>
	void deep( Src &s ) {
		using O = std::optional<int>;
		{
			auto mk = []( int x ) {
				if constexpr( K == Kind::copiable ) {
					return daw::make_copiable_unique_ptr<Poly>( x );
				} else {
					return H( x );
				}
			};
			auto empty = [] {
				if constexpr( K == Kind::value ) {
					return H( std::nullopt );
				} else {
					return H( );
				}
			};
			std::array<H, 3> h{ empty( ), empty( ), empty( ) };
			std::array<O, 3> m{ };
			if( K == Kind::heap ) {
				m = { 0, 0, 0 };
			}
			auto ptr = []( auto &x ) {
				if constexpr( K == Kind::heap ) {
					return x.ptr( );
				} else {
					return x.get( );
				}
			};
			std::size_t ops = 1 + s.len( 20 );
			for( std::size_t k = 0; k < ops; ++k ) {
				auto i = s.below( 3 ), j = s.below( 3 );
				auto op = s.below( 12 );
				s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + "; "; } );
				switch( op ) {
				case 0: {
					int x = static_cast<int>( s.below( 5 ) );
					h[i] = mk( x );
					m[i] = x;
					break;
				}
				case 1: // copy assignment
					s.nontrivial( m[i].has_value( ) or m[j].has_value( ) );
					s.label( "copy between empty and full", m[i].has_value( ) != m[j].has_value( ) );
					h[i] = h[j];
					m[i] = m[j];
					break;
				case 2: { // copy construction
					s.nontrivial( m[i].has_value( ) );
					H t( h[i] );
					CHECK_EQ( ptr( t ) != nullptr, m[i].has_value( ) );
					if( m[i] ) {
						CHECK( ptr( t ) != ptr( h[i] ) );
						CHECK_EQ( ptr( t )->t.v, *m[i] );
						ptr( t )->t.v = 77;
						CHECK_EQ( ptr( h[i] )->t.v, *m[i] );
					}
					break;
				}
				case 3: // move assignment
					s.nontrivial( m[j].has_value( ) );
					h[i] = std::move( h[j] );
					if( i != j ) {
						if( K == Kind::copiable and ptr( h[j] ) ) {
							// implemented as a swap, the old value lives on in the source
							CHECK( m[i].has_value( ) );
							std::swap( m[i], m[j] );
						} else {
							m[i] = m[j];
							m[j].reset( );
						}
					} else if( not ptr( h[i] ) ) {
						m[i].reset( ); // self move: valid but unspecified
					}
					break;
				case 4: { // move construction
					H t( std::move( h[i] ) );
					CHECK( ptr( h[i] ) == nullptr );
					CHECK_EQ( ptr( t ) != nullptr, m[i].has_value( ) );
					if( s.boolean( ) ) {
						h[i] = std::move( t );
					} else {
						m[i].reset( );
					}
					break;
				}
				case 5:
					h[i].swap( h[j] );
					std::swap( m[i], m[j] );
					break;
				case 6: {
					using std::swap;
					swap( h[i], h[j] );
					std::swap( m[i], m[j] );
					break;
				}
				case 7: // write through
					if( m[i] ) {
						int x = static_cast<int>( s.below( 5 ) );
						switch( s.below( 3 ) ) {
						case 0: h[i]->t.v = x; break;
						case 1: ( *h[i] ).t.v = x; break;
						default: ptr( h[i] )->t.v = x;
						}
						m[i] = x;
					}
					break;
				case 8:
					if constexpr( K == Kind::value ) {
						int x = static_cast<int>( s.below( 5 ) );
						s.label( "assign a value to an empty holder", not m[i] );
						if( s.boolean( ) ) {
							h[i] = Poly( x );
						} else {
							Poly const p( x );
							h[i] = p;
						}
						m[i] = x;
					} else if constexpr( K == Kind::heap ) {
						if( m[i] ) {
							int x = static_cast<int>( s.below( 5 ) );
							h[i][0] = x;
							m[i] = x;
							CHECK_EQ( std::as_const( h[i] )[0], x );
						}
					}
					break;
				case 9:
					if constexpr( K != Kind::heap ) {
						h[i].reset( );
						m[i].reset( );
					}
					break;
				case 10:
					if constexpr( K != Kind::heap ) {
						Poly *p = h[i].release( );
						CHECK_EQ( p != nullptr, m[i].has_value( ) );
						delete p;
						m[i].reset( );
					}
					break;
				default:
					if constexpr( K != Kind::copiable ) {
						if( m[i] ) {
							CHECK_EQ( h[i]( 2, 3 ), *m[i] + 6 );
						}
					}
				}
				long want = 0;
				for( std::size_t q = 0; q < 3; ++q ) {
					CHECK_EQ( ptr( h[q] ) != nullptr, m[q].has_value( ) );
					if constexpr( K != Kind::heap ) {
						CHECK_EQ( static_cast<bool>( std::as_const( h[q] ) ), m[q].has_value( ) );
					}
					if( m[q] ) {
						++want;
						CHECK_EQ( ptr( h[q] )->t.v, *m[q] );
						CHECK_EQ( std::as_const( h[q] )->t.v, *m[q] );
						CHECK_EQ( ( *std::as_const( h[q] ) ).t.v, *m[q] );
						CHECK( &*h[q] == ptr( h[q] ) );
						for( std::size_t r = 0; r < q; ++r ) {
							CHECK( ptr( h[r] ) != ptr( h[q] ) );
						}
					}
				}
				CHECK_EQ( g_live, want );
				auto const &a = h[i];
				auto const &b = h[j];
				if constexpr( K == Kind::value ) { // empty sorts first
					CHECK_EQ( a == b, m[i] == m[j] );
					CHECK_EQ( a != b, m[i] != m[j] );
					CHECK_EQ( a < b, m[i] < m[j] );
					CHECK_EQ( a > b, m[i] > m[j] );
					CHECK_EQ( a <= b, m[i] <= m[j] );
					CHECK_EQ( a >= b, m[i] >= m[j] );
					int c = m[i] < m[j] ? -1 : ( m[j] < m[i] ? 1 : 0 );
					CHECK_EQ( a.compare( b ), c );
				} else if constexpr( K == Kind::heap ) {
					if( m[i] and m[j] ) {
						CHECK_EQ( a == b, *m[i] == *m[j] );
						CHECK_EQ( a != b, *m[i] != *m[j] );
						CHECK_EQ( a < b, *m[i] < *m[j] );
						CHECK_EQ( a > b, *m[i] > *m[j] );
						CHECK_EQ( a <= b, *m[i] <= *m[j] );
						CHECK_EQ( a >= b, *m[i] >= *m[j] );
					}
				} else {
					auto pa = a.get( ), pb = b.get( );
					std::less<Poly const *> lt{ };
					CHECK_EQ( a == b, pa == pb );
					CHECK_EQ( a != b, pa != pb );
					CHECK_EQ( a < b, lt( pa, pb ) );
					CHECK_EQ( a > b, lt( pb, pa ) );
					CHECK_EQ( a <= b, not lt( pb, pa ) );
					CHECK_EQ( a >= b, not lt( pa, pb ) );
					CHECK_EQ( a == nullptr, pa == nullptr );
					CHECK_EQ( nullptr == a, pa == nullptr );
					CHECK_EQ( a != nullptr, pa != nullptr );
					CHECK_EQ( nullptr != a, pa != nullptr );
					CHECK_EQ( a < nullptr, lt( pa, nullptr ) );
					CHECK_EQ( nullptr < a, lt( nullptr, pa ) );
					CHECK_EQ( a <= nullptr, not lt( nullptr, pa ) );
					CHECK_EQ( nullptr <= a, not lt( pa, nullptr ) );
					CHECK_EQ( a > nullptr, lt( nullptr, pa ) );
					CHECK_EQ( nullptr > a, lt( pa, nullptr ) );
					CHECK_EQ( a >= nullptr, not lt( pa, nullptr ) );
					CHECK_EQ( nullptr >= a, not lt( nullptr, pa ) );
					CHECK_EQ( std::hash<H>{ }( a ), std::hash<Poly const *>{ }( pa ) );
				}
			}
		}
		CHECK_EQ( g_live, 0 );
	}
	PROP_T( value_ptr, ( deep<daw::value_ptr<Poly>, Kind::value> ), { .cases = 60000 } );
	PROP_T( copiable_unique_ptr, ( deep<daw::copiable_unique_ptr<Poly>, Kind::copiable> ), { .cases = 60000 } );
	PROP_T( heap_value, ( deep<daw::heap_value<Poly>, Kind::heap> ), { .cases = 60000 } );

	struct Big {
		virtual ~Big( ) = default;
		virtual int who( ) const { return 1; }
	};
	struct Bigger : Big {
		TrackedPlain t;
		Bigger( int x ) : t( x ) {}
		int who( ) const override { return t.v; }
	};
	PROP( value_ptr_emplace, { .cases = 2000 } ) {
		{
			int x = static_cast<int>( s.below( 1000 ) );
			std::hash<daw::value_ptr<int>> hs{ };
			daw::value_ptr<int> vi( x );
			CHECK_EQ( hs( vi ), std::hash<int>{ }( x ) );
			CHECK_EQ( static_cast<int &>( vi ), x );
			daw::value_ptr<int> const vd{ };
			CHECK_EQ( *vd, 0 );
			s.nontrivial( );
		}
		CHECK_EQ( g_live, 0 );
	}

	// a pointer whose constness is that of the holder, as a random access iterator
	PROP( prop_const_ptr, { .cases = 20000 } ) {
		int a[16];
		for( int i = 0; i < 16; ++i ) {
			a[i] = i * 3;
		}
		using P = daw::prop_const_ptr<int>;
		using C = daw::prop_const_ptr<int const>;
		CHECK_STATIC( std::is_same_v<decltype( *std::declval<P const &>( ) ), int const &> );
		CHECK_STATIC( std::is_same_v<decltype( *std::declval<P &>( ) ), int &> );
		CHECK_STATIC( std::is_same_v<decltype( std::declval<P const &>( )[0] ), int const &> );
		CHECK_STATIC( std::is_same_v<decltype( std::declval<P const &>( ).get( ) ), int const *> );
		CHECK_STATIC( std::is_same_v<decltype( std::declval<P const &>( ).operator->( ) ), int const *> );
		P p( a ), q( a );
		long ip = 0, iq = 0;
		std::size_t ops = 1 + s.len( 20 );
		for( std::size_t k = 0; k < ops; ++k ) {
			bool up = ip < 15, down = ip > 0;
			switch( s.below( 9 ) ) {
			case 0:
				if( up ) {
					CHECK( ( ++p ).get( ) == a + ++ip );
				}
				break;
			case 1:
				if( up ) {
					s.nontrivial( );
					auto o = p++;
					CHECK( o.get( ) == a + ip++ );
				}
				break;
			case 2:
				if( down ) {
					CHECK( ( --p ).get( ) == a + --ip );
				}
				break;
			case 3:
				if( down ) {
					s.nontrivial( );
					auto o = p--;
					CHECK( o.get( ) == a + ip-- );
				}
				break;
			case 4: {
				auto t = static_cast<long>( s.below( 16 ) );
				CHECK( &( p += t - ip ) == &p );
				ip = t;
				break;
			}
			case 5: {
				auto t = static_cast<long>( s.below( 16 ) );
				CHECK( &( p -= ip - t ) == &p );
				ip = t;
				break;
			}
			case 6: {
				auto t = static_cast<long>( s.below( 16 ) );
				CHECK( ( p + ( t - ip ) ).get( ) == a + t );
				CHECK( ( std::as_const( p ) + ( t - ip ) ).get( ) == a + t );
				break;
			}
			case 7:
				std::swap( p, q );
				std::swap( ip, iq );
				break;
			default: {
				C c( p );
				CHECK( c.get( ) == a + ip );
				c = q;
				CHECK( c.get( ) == a + iq );
				a[ip] = static_cast<int>( s.below( 100 ) );
				*p += 1;
				CHECK_EQ( a[ip], *std::as_const( p ) );
			}
			}
			CHECK( p.get( ) == a + ip );
			CHECK( std::as_const( p ).get( ) == a + ip );
			CHECK_EQ( p - q, ip - iq );
			CHECK_EQ( p == q, ip == iq );
			CHECK_EQ( p != q, ip != iq );
			CHECK_EQ( p < q, ip < iq );
			CHECK_EQ( p > q, ip > iq );
			CHECK_EQ( p <= q, ip <= iq );
			CHECK_EQ( p >= q, ip >= iq );
			auto t = static_cast<long>( s.below( 16 ) );
			CHECK( &p[t - ip] == a + t );
			CHECK( &std::as_const( p )[t - ip] == a + t );
		}
	}
	// a list whose nodes own the next one, edited through the holder inside a node
	template<template<typename> class P>
	struct Link {
		TrackedPlain t{ 0 };
		P<Link> next{ };
	};
	template<template<typename> class P, bool Copies, typename Make>
	void chain( Src &s, Make make ) {
		{
			using L = Link<P>;
			P<L> head{ };
			std::vector<int> m;
			auto push = [&]( int x ) {
				P<L> n = make( static_cast<L *>( nullptr ) );
				n->t.v = x;
				n->next = std::move( head );
				head = std::move( n );
				m.insert( m.begin( ), x );
			};
			auto ops = 1 + s.len( 24 );
			for( std::size_t k = 0; k < ops; ++k ) {
				switch( s.below( 5 ) ) {
				case 0:
				case 1: push( static_cast<int>( s.below( 100 ) ) ); break;
				case 2:
					if( not m.empty( ) ) {
						s.nontrivial( m.size( ) > 1 );
						head = std::move( head->next );
						m.erase( m.begin( ) );
					}
					break;
				case 3:
					if( m.size( ) > 1 ) {
						s.nontrivial( );
						auto at = s.below( m.size( ) - 1 );
						auto *p = &head;
						for( std::size_t q = 0; q < at; ++q ) {
							p = &( *p )->next;
						}
						( *p )->next = std::move( ( *p )->next->next );
						m.erase( m.begin( ) + static_cast<std::ptrdiff_t>( at ) + 1 );
					}
					break;
				default:
					if constexpr( Copies ) {
						if( not m.empty( ) ) {
							s.nontrivial( m.size( ) > 1 );
							head = std::as_const( head->next );
							m.erase( m.begin( ) );
						}
					}
				}
				std::vector<int> g;
				for( auto *p = &head; *p; p = &( *p )->next ) {
					g.push_back( ( *p )->t.v );
				}
				CHECK_EQ( g, m );
				CHECK_EQ( g_live, static_cast<long>( m.size( ) ) );
			}
		}
		CHECK_EQ( g_live, 0 );
	}
	template<typename T>
	struct CountDel {
		int n = 0;
		void operator( )( T *p ) const { delete p; }
	};
	template<typename T>
	using up_def = daw::unique_ptr<T>;
	template<typename T>
	using up_del = daw::unique_ptr<T, CountDel<T>>;
	template<typename T>
	using mup = daw::maybe_unique_ptr<T>;
	template<typename T>
	using cup = daw::copiable_unique_ptr<T>;
	constexpr auto by_new = []<typename L>( L * ) { return new L( ); };
	PROP( list_unique_ptr, { .cases = 10000 } ) { chain<up_def, false>( s, by_new ); }
	PROP( list_unique_ptr_deleter, { .cases = 10000 } ) { chain<up_del, false>( s, by_new ); }
	PROP( list_maybe_unique_ptr, { .cases = 10000 } ) {
		chain<mup, false>( s, []<typename L>( L * ) { return daw::make_maybe_unique<L>( ); } );
	}
	PROP( list_copiable_unique_ptr, { .cases = 10000 } ) { chain<cup, false>( s, by_new ); }
	PROP( list_value_ptr, { .cases = 10000 } ) {
		{
			struct L {
				TrackedPlain t{ 0 };
				std::vector<daw::value_ptr<L>> next{ };
			};
			// value_ptr constructs its T, so the end of the list is an empty vector
			L head{ };
			std::vector<int> m;
			auto ops = 1 + s.len( 16 );
			for( std::size_t k = 0; k < ops; ++k ) {
				if( s.boolean( ) or m.empty( ) ) {
					L n{ };
					n.t.v = static_cast<int>( s.below( 100 ) );
					n.next = std::move( head.next );
					m.insert( m.begin( ), n.t.v );
					head.next.clear( );
					head.next.emplace_back( std::move( n ) );
				} else if( m.size( ) > 1 ) {
					s.nontrivial( );
					auto &h = head.next[0];
					h = std::move( h->next[0] );
					m.erase( m.begin( ) );
				}
				std::vector<int> g;
				for( auto *p = &head; not p->next.empty( ); ) {
					p = p->next[0].get( );
					g.push_back( p->t.v );
				}
				CHECK_EQ( g, m );
			}
		}
		CHECK_EQ( g_live, 0 );
	}
	PROP( tree_unique_array, { .cases = 10000 } ) {
		{
			struct T {
				TrackedPlain t{ 0 };
				daw::unique_array_t<T> kids{ };
				~T( ) noexcept {}
			};
			using A = daw::unique_array_t<T>;
			A a( s.below( 4 ) );
			auto ops = 1 + s.len( 12 );
			for( std::size_t k = 0; k < ops; ++k ) {
				if( a.size( ) == 0 or s.boolean( ) ) {
					A b( 1 + s.below( 3 ) );
					for( auto &e : b ) {
						e.t.v = static_cast<int>( s.below( 50 ) );
					}
					auto at = s.below( b.size( ) );
					b[at].kids = std::move( a );
					a = std::move( b );
				} else {
					s.nontrivial( );
					auto at = s.below( a.size( ) );
					std::vector<int> want, got;
					for( auto const &e : a[at].kids ) {
						want.push_back( e.t.v );
					}
					a = std::move( a[at].kids );
					for( auto const &e : a ) {
						got.push_back( e.t.v );
					}
					CHECK_EQ( got, want );
				}
			}
			auto count = []( auto const &self, A const &x ) -> long {
				long n = static_cast<long>( x.size( ) );
				for( auto const &e : x ) {
					n += self( self, e.kids );
				}
				return n;
			};
			CHECK_EQ( g_live, count( count, a ) );
		}
		CHECK_EQ( g_live, 0 );
	}
} // namespace
