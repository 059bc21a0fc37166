// C23: graph_t (and the deprecated bounded_graph_t) against a reference graph:
// a random history of node and edge edits, with the whole observable state
// compared as it goes.
// nontrivial: at least one node or edge was removed from a graph with edges.
// pbt-parts: 2
// pbt-scale: 4
#include "pbt.h"
#if PBT_PART == 0
#include "daw/daw_graph.h"
#else
#define node_id_t bounded_node_id_t
#define const_graph_node_t const_bounded_graph_node_t
#define invalid_node_exception bounded_invalid_node_exception
#include "daw/deprecated/daw_bounded_graph.h"
#endif
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace pbt;

namespace {
	using Id = daw::node_id_t;

	template<typename T>
	T make_value( int n ) {
		if constexpr( std::is_same_v<T, std::string> ) {
			return std::string( n % 3 == 0 ? 30 : 2, static_cast<char>( 'a' + n % 26 ) ) +
			       std::to_string( n );
		} else if constexpr( std::is_same_v<T, std::unique_ptr<int>> ) {
			return std::make_unique<int>( n );
		} else {
			return static_cast<T>( n );
		}
	}
	template<typename T>
	int read( T const &v ) {
		if constexpr( std::is_same_v<T, std::string> ) {
			return std::stoi( v.substr( v.find_first_of( "0123456789" ) ) );
		} else if constexpr( std::is_same_v<T, std::unique_ptr<int>> ) {
			return *v;
		} else {
			return static_cast<int>( v );
		}
	}

	struct Node {
		int value;
		std::set<std::size_t> in{ }, out{ };
	};

	struct Model {
		std::map<std::size_t, Node> nodes{ };
		void link( std::size_t a, std::size_t b ) {
			nodes[a].out.insert( b );
			nodes[b].in.insert( a );
		}
		void unlink( std::size_t a, std::size_t b ) {
			nodes[a].out.erase( b );
			nodes[b].in.erase( a );
		}
		void drop( std::size_t a ) {
			nodes.erase( a );
			for( auto &n : nodes ) {
				n.second.in.erase( a );
				n.second.out.erase( a );
			}
		}
		std::size_t degree( std::size_t a ) const {
			return std::max( nodes.at( a ).in.size( ), nodes.at( a ).out.size( ) );
		}
	};

	template<typename Edges>
	void same_edges( Edges const &edges, std::vector<Id> const &ids,
	                 std::set<std::size_t> const &want ) {
		std::set<std::size_t> got{ };
		std::size_t count = 0;
		for( auto id : edges ) {
			auto const pos = std::find( ids.begin( ), ids.end( ), id );
			CHECK( pos != ids.end( ) );
			got.insert( static_cast<std::size_t>( pos - ids.begin( ) ) );
			++count;
		}
		CHECK_EQ( got, want );
		CHECK_EQ( count, want.size( ) );
		CHECK_EQ( edges.size( ), want.size( ) );
		CHECK_EQ( edges.empty( ), want.empty( ) );
	}

	template<typename Range>
	std::set<std::size_t> places( Range const &found, std::vector<Id> const &ids ) {
		std::set<std::size_t> got{ };
		for( auto id : found ) {
			auto const pos = std::find( ids.begin( ), ids.end( ), id );
			CHECK( pos != ids.end( ) );
			CHECK( got.insert( static_cast<std::size_t>( pos - ids.begin( ) ) ).second );
		}
		return got;
	}

	// the whole observable state.  ids: every id ever handed out
	template<typename T, typename G>
	void same( G &g, Model const &m, std::vector<Id> const &ids ) {
		G const &cg = g;
		CHECK_EQ( cg.size( ), m.nodes.size( ) );
#if PBT_PART == 0
		CHECK_EQ( cg.empty( ), m.nodes.empty( ) );
#endif
		std::set<std::size_t> all{ }, roots{ }, leaves{ }, odd{ };
		std::map<int, std::set<std::size_t>> by_value{ };
		for( std::size_t n = 0; n < ids.size( ); ++n ) {
			auto const pos = m.nodes.find( n );
			CHECK_EQ( cg.has_node( ids[n] ), pos != m.nodes.end( ) );
			CHECK( static_cast<bool>( ids[n] ) );
			for( std::size_t k = 0; k < n; ++k ) {
				CHECK( ids[k] != ids[n] );
				CHECK( not( ids[k] == ids[n] ) );
				CHECK( ( ids[k] < ids[n] ) != ( ids[n] < ids[k] ) );
			}
			if( pos == m.nodes.end( ) ) {
				continue;
			}
			Node const &want = pos->second;
			auto node = g.get_node( ids[n] );
			auto const cnode = cg.get_node( ids[n] );
			CHECK( node.id( ) == ids[n] and cnode.id( ) == ids[n] );
			CHECK( static_cast<bool>( node ) and static_cast<bool>( cnode ) );
			CHECK( not node.empty( ) and not cnode.empty( ) );
			CHECK( node.graph( ) == &g and cnode.graph( ) == &g );
			CHECK_EQ( read<T>( node.value( ) ), want.value );
			CHECK_EQ( read<T>( cnode.value( ) ), want.value );
			CHECK_EQ( read<T>( std::as_const( node ).value( ) ), want.value );
			CHECK( &node.value( ) == &cnode.value( ) );
			same_edges( node.incoming_edges( ), ids, want.in );
			same_edges( node.outgoing_edges( ), ids, want.out );
			same_edges( cnode.incoming_edges( ), ids, want.in );
			same_edges( cnode.outgoing_edges( ), ids, want.out );
			auto const &raw = cg.get_raw_node( ids[n] );
			CHECK( raw.id( ) == ids[n] );
			CHECK( not raw.empty( ) and static_cast<bool>( raw ) );
			CHECK_EQ( read<T>( raw.value( ) ), want.value );
			same_edges( raw.incoming_edges( ), ids, want.in );
			same_edges( raw.outgoing_edges( ), ids, want.out );
			CHECK( &raw == &g.get_raw_node( ids[n] ) );
			all.insert( n );
			if( want.in.empty( ) ) {
				roots.insert( n );
			}
			if( want.out.empty( ) ) {
				leaves.insert( n );
			}
			if( want.value % 2 != 0 ) {
				odd.insert( n );
			}
			by_value[want.value].insert( n );
		}
		CHECK_EQ( places( cg.find_roots( ), ids ), roots );
		CHECK_EQ( places( cg.find_leaves( ), ids ), leaves );
		CHECK_EQ( places( cg.find( []( auto const &n ) {
			          return read<T>( n.value( ) ) % 2 != 0;
		          } ),
		                  ids ),
		          odd );
		for( auto const &v : by_value ) {
			if constexpr( std::is_copy_constructible_v<T> ) {
				CHECK_EQ( places( cg.find_by_value( make_value<T>( v.first ) ), ids ), v.second );
			}
			CHECK_EQ( places( cg.find_by_value( make_value<T>( v.first ),
			                                    []( T const &a, T const &b ) {
				                                    return read<T>( a ) == read<T>( b );
			                                    } ),
			                  ids ),
			          v.second );
		}
		CHECK_EQ( places( cg.find_by_value( make_value<T>( 7 ),
		                                    []( T const &a, T const &b ) {
			                                    return read<T>( a ) < read<T>( b );
		                                    } ),
		                  ids )
		            .size( ),
		          static_cast<std::size_t>(
		            std::count_if( m.nodes.begin( ), m.nodes.end( ), []( auto const &n ) {
			            return n.second.value < 7;
		            } ) ) );
		std::vector<Id> seen{ };
		cg.visit( []( auto const &n ) { return read<T>( n.value( ) ) % 2 != 0; },
		          [&]( auto const &n ) { seen.push_back( n.id( ) ); } );
		CHECK_EQ( places( seen, ids ), odd );
#if PBT_PART == 0
		seen.clear( );
		cg.visit( [&]( auto const &n ) { seen.push_back( n.id( ) ); } );
		CHECK_EQ( places( seen, ids ), all );
		seen.clear( );
		g.visit( [&]( auto &&n ) { seen.push_back( n.id( ) ); } );
		CHECK_EQ( places( seen, ids ), all );
#endif
	}

	// max: bound on nodes and on edges per node (0: none)
	template<typename T, typename G, std::size_t Max>
	void history( Src &s ) {
		auto g = std::make_unique<G>( );
		Model m{ };
		std::vector<Id> ids{ };
		auto const steps = s.len( 40 );
		bool removed = false;
		int next_value = 0;
		auto any = [&] {
			auto it = m.nodes.begin( );
			std::advance( it, s.range<int>( 0, static_cast<int>( m.nodes.size( ) ) - 1 ) );
			return it->first;
		};
		auto has_edges = [&] {
			return std::any_of( m.nodes.begin( ), m.nodes.end( ), []( auto const &n ) {
				return not n.second.in.empty( );
			} );
		};
		if( Max == 0 and s.chance( 1, 200 ) ) {
			for( std::size_t more = 200 + s.below( 200 ); more > 0; --more ) {
				int const v = next_value++;
				m.nodes[ids.size( )] = Node{ v };
				ids.push_back( g->add_node( make_value<T>( v ) ) );
			}
		}
		for( std::size_t i = 0; i < steps; ++i ) {
			auto const op = m.nodes.empty( )
			                  ? 0
			                  : s.weighted( { 4, 6, 3, 2, 2, 2, 1, 1, 1 } );
			switch( op ) {
			case 0: {
				if( Max != 0 and m.nodes.size( ) >= Max ) {
					break;
				}
				int const v = s.chance( 4 ) ? s.range<int>( 0, 5 ) : next_value++;
				Id id{ };
				if( s.boolean( ) ) {
					id = g->add_node( make_value<T>( v ) );
				} else {
					T x = make_value<T>( v );
					id = g->add_node( std::move( x ) );
				}
				CHECK( std::find( ids.begin( ), ids.end( ), id ) == ids.end( ) );
				CHECK( g->has_node( id ) );
				m.nodes[ids.size( )] = Node{ v };
				ids.push_back( id );
				break;
			}
			case 1: {
				auto const a = any( ), b = any( );
				if( Max != 0 and ( m.degree( a ) >= Max or m.degree( b ) >= Max ) ) {
					break;
				}
				g->add_directed_edge( ids[a], ids[b] );
				m.link( a, b );
				break;
			}
			case 2: {
				auto const a = any( ), b = any( );
				if( Max != 0 and ( m.degree( a ) >= Max or m.degree( b ) >= Max ) ) {
					break;
				}
				g->add_undirected_edge( ids[a], ids[b] );
				m.link( a, b );
				m.link( b, a );
				break;
			}
			case 3: {
				auto const a = any( ), b = any( );
				removed = removed or m.nodes[a].out.count( b ) > 0;
				g->remove_directed_edge( ids[a], ids[b] );
				m.unlink( a, b );
				break;
			}
			case 4: {
				auto const a = any( ), b = any( );
				removed = removed or m.nodes[a].out.count( b ) > 0;
				g->remove_edges( ids[a], ids[b] );
				m.unlink( a, b );
				m.unlink( b, a );
				break;
			}
			case 5: {
				auto const a = any( );
				removed = removed or has_edges( );
				g->remove_node( ids[a] );
				m.drop( a );
				break;
			}
			case 6: {
				auto const a = any( );
				int const v = s.range<int>( 0, 50 );
				if( s.boolean( ) ) {
					g->get_node( ids[a] ).value( ) = make_value<T>( v );
				} else {
					g->get_raw_node( ids[a] ).value( ) = make_value<T>( v );
				}
				m.nodes[a].value = v;
				break;
			}
			case 7: {
				// edit through a predicated visit
				g->visit( []( auto const &n ) { return read<T>( n.value( ) ) % 3 == 0; },
				          []( auto &&n ) { n.value( ) = make_value<T>( read<T>( n.value( ) ) + 1 ); } );
				for( auto &n : m.nodes ) {
					if( n.second.value % 3 == 0 ) {
						++n.second.value;
					}
				}
				break;
			}
			default:
				if constexpr( std::is_copy_constructible_v<T> ) {
					// a copy is independent and equal
					auto h = std::make_unique<G>( *g );
					auto const a = any( );
					Model m2 = m;
					h->remove_node( ids[a] );
					m2.drop( a );
					same<T>( *h, m2, ids );
					same<T>( *g, m, ids );
					if( s.boolean( ) ) {
						*h = *g;
						g = std::move( h );
					} else {
						g = std::make_unique<G>( std::move( *g ) );
					}
				} else {
					g = std::make_unique<G>( std::move( *g ) );
				}
				break;
			}
			if( s.chance( 3 ) ) {
				same<T>( *g, m, ids );
			}
		}
		same<T>( *g, m, ids );
		if( removed ) {
			s.nontrivial( );
		}
		// node handles
		if( m.nodes.size( ) >= 2 ) {
			auto const a = any( ), b = any( );
			auto x = g->get_node( ids[a] );
			auto y = g->get_node( ids[b] );
			auto const cx = std::as_const( *g ).get_node( ids[a] );
			typename G::const_node_t const conv = x;
			CHECK( conv.id( ) == ids[a] and conv.graph( ) == g.get( ) );
			CHECK_EQ( x == y, a == b );
			CHECK_EQ( x != y, a != b );
			CHECK_EQ( cx == conv, true );
			CHECK_EQ( cx != conv, false );
			CHECK_EQ( conv == std::as_const( *g ).get_node( ids[b] ), a == b );
			CHECK_EQ( x < y, ids[a] < ids[b] );
			CHECK_EQ( cx < conv, false );
			if constexpr( std::is_copy_constructible_v<T> ) {
				auto h = std::make_unique<G>( *g );
				CHECK( x != h->get_node( ids[a] ) );
				CHECK( not( x == h->get_node( ids[a] ) ) );
			}
		}
		typename G::node_t const none{ };
		typename G::const_node_t const cnone{ };
		CHECK( none.empty( ) and not none and cnone.empty( ) and not cnone );
		CHECK( not static_cast<bool>( Id{ } ) );
		CHECK( Id{ } == Id{ } );
	}

#if PBT_PART == 0
	PROP_T( graph_int, ( history<int, daw::graph_t<int>, 0> ), { .cases = 6000 } );
	PROP_T( graph_string, ( history<std::string, daw::graph_t<std::string>, 0> ), { .cases = 3000 } );
	PROP_T( graph_move_only, ( history<std::unique_ptr<int>, daw::graph_t<std::unique_ptr<int>>, 0> ), { .cases = 3000 } );

	// node ids as keys
	PROP( node_ids, { .cases = 500 } ) {
		std::unordered_map<Id, int> u{ };
		std::map<Id, int> o{ };
		auto const n = s.range<int>( 2, 60 );
		for( int i = 0; i < n; ++i ) {
			u[Id( static_cast<std::size_t>( i ) )] = i;
			o[Id( static_cast<std::size_t>( i ) )] = i;
		}
		CHECK_EQ( u.size( ), static_cast<std::size_t>( n ) );
		CHECK_EQ( o.size( ), static_cast<std::size_t>( n ) );
		for( int i = 0; i < n; ++i ) {
			Id const id( static_cast<std::size_t>( i ) );
			CHECK_EQ( u.at( id ), i );
			CHECK_EQ( o.at( id ), i );
			CHECK_EQ( id.hash( ), Id( id ).hash( ) );
		}
		s.nontrivial( );
	}
#else
	PROP_T( bounded_graph_int, ( history<int, daw::bounded_graph_t<int, 8>, 8> ), { .cases = 4000 } );
	PROP_T( bounded_graph_small, ( history<int, daw::bounded_graph_t<int, 3>, 3> ), { .cases = 3000 } );
#endif
} // namespace
