// C24: graph walks on random directed graphs (sparse, dense, layered, with
// self loops and cycles where the walk allows them) against reference
// traversals computed on an adjacency matrix.
// nontrivial: the graph has a node with several parents, or a cycle.
// pbt-scale: 4
#include "pbt.h"
#include "daw/daw_graph.h"
#include <memory>
#include <optional>
#include <unordered_set>
#include "daw/daw_graph_algorithm.h"
#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace pbt;

namespace {
	using Graph = daw::graph_t<int>;
	using Id = daw::node_id_t;
	using Ints = std::vector<int>;

	struct G {
		Graph g{ };
		std::vector<Id> ids{ };      // ids[n] has value n
		std::vector<Ints> out{ };    // adjacency by value, ascending
		std::vector<int> in{ };      // in degree
		int n = 0;
		bool interesting = false;

		void edge( int a, int b ) {
			auto &o = out[static_cast<std::size_t>( a )];
			auto const pos = std::lower_bound( o.begin( ), o.end( ), b );
			g.add_directed_edge( ids[static_cast<std::size_t>( a )], ids[static_cast<std::size_t>( b )] );
			if( pos == o.end( ) or *pos != b ) {
				o.insert( pos, b );
				if( ++in[static_cast<std::size_t>( b )] > 1 or a == b ) {
					interesting = true;
				}
			}
		}
		Ints const &children( int a ) const {
			return out[static_cast<std::size_t>( a )];
		}
		std::set<int> reach( int a ) const {
			std::set<int> r{ };
			Ints todo{ a };
			while( not todo.empty( ) ) {
				int const x = todo.back( );
				todo.pop_back( );
				if( r.insert( x ).second ) {
					todo.insert( todo.end( ), children( x ).begin( ), children( x ).end( ) );
				}
			}
			return r;
		}
		Ints roots( ) const {
			Ints r{ };
			for( int i = 0; i < n; ++i ) {
				if( in[static_cast<std::size_t>( i )] == 0 ) {
					r.push_back( i );
				}
			}
			return r;
		}
	};

	// values are a permutation of 0..n-1 relative to insertion order; some
	// nodes are added and removed again so that ids have gaps
	std::unique_ptr<G> make( Src &s, int max_nodes, bool cyclic ) {
		auto r = std::make_unique<G>( );
		r->n = s.range<int>( 1, max_nodes );
		if( max_nodes > 12 and s.chance( 1, 40 ) ) {
			r->n += 300;
		}
		auto const n = static_cast<std::size_t>( r->n );
		r->ids.resize( n );
		r->out.resize( n );
		r->in.resize( n );
		Ints order( n );
		for( std::size_t i = 0; i < n; ++i ) {
			order[i] = static_cast<int>( i );
		}
		if( s.boolean( ) ) {
			for( std::size_t i = n; i > 1; --i ) {
				std::swap( order[i - 1], order[s.range<std::size_t>( 0, i - 1 )] );
			}
		}
		for( int v : order ) {
			if( s.chance( 8 ) ) {
				auto const gone = r->g.add_node( 999 );
				r->g.remove_node( gone );
			}
			r->ids[static_cast<std::size_t>( v )] = r->g.add_node( v );
		}
		// topological rank for acyclic graphs
		Ints rank( n );
		for( std::size_t i = 0; i < n; ++i ) {
			rank[i] = static_cast<int>( i );
		}
		if( s.boolean( ) ) {
			for( std::size_t i = n; i > 1; --i ) {
				std::swap( rank[i - 1], rank[s.range<std::size_t>( 0, i - 1 )] );
			}
		}
		auto const kind = s.weighted( { 4, 2, 1 } );
		int const edges = kind == 1 ? r->n * 3 : s.range<int>( 0, 2 * r->n );
		if( kind == 2 ) {
			// layers of width w, each fully joined to the next
			int const w = s.range<int>( 1, 3 );
			for( int a = 0; a < r->n; ++a ) {
				for( int b = 0; b < r->n; ++b ) {
					if( b / w == a / w + 1 ) {
						r->edge( rank[static_cast<std::size_t>( a )], rank[static_cast<std::size_t>( b )] );
					}
				}
			}
			s.label( "layers" );
		} else {
			for( int e = 0; e < edges; ++e ) {
				int a = s.range<int>( 0, r->n - 1 ), b = s.range<int>( 0, r->n - 1 );
				if( not cyclic ) {
					if( a == b ) {
						continue;
					}
					if( b < a ) {
						std::swap( a, b );
					}
				}
				r->edge( rank[static_cast<std::size_t>( a )], rank[static_cast<std::size_t>( b )] );
			}
		}
		if( r->interesting ) {
			s.nontrivial( );
		}
		s.note( [&] {
			std::string t = "n=" + std::to_string( r->n ) + " edges:";
			for( int a = 0; a < r->n; ++a ) {
				for( int b : r->children( a ) ) {
					t += " " + std::to_string( a ) + ">" + std::to_string( b );
				}
			}
			return t;
		} );
		return r;
	}

	std::set<int> as_set( Ints const &v ) {
		return std::set<int>( v.begin( ), v.end( ) );
	}

	// the walk changed nothing
	void untouched( G const &m ) {
		CHECK_EQ( m.g.size( ), static_cast<std::size_t>( m.n ) );
		for( int i = 0; i < m.n; ++i ) {
			auto const node = m.g.get_node( m.ids[static_cast<std::size_t>( i )] );
			CHECK_EQ( node.value( ), i );
			Ints o{ };
			for( auto id : node.outgoing_edges( ) ) {
				o.push_back( m.g.get_node( id ).value( ) );
			}
			std::sort( o.begin( ), o.end( ) );
			CHECK_EQ( o, m.children( i ) );
		}
	}

	template<typename Ord>
	Ints bfs_ref( G const &m, int start, Ord ord ) {
		Ints r{ };
		std::set<int> seen{ start };
		std::deque<int> q{ start };
		while( not q.empty( ) ) {
			int const x = q.front( );
			q.pop_front( );
			r.push_back( x );
			Ints c = m.children( x );
			std::sort( c.begin( ), c.end( ), ord );
			for( int y : c ) {
				if( seen.insert( y ).second ) {
					q.push_back( y );
				}
			}
		}
		return r;
	}

	template<typename Ord>
	void dfs_ref( G const &m, int x, Ord ord, std::set<int> &seen, Ints &r ) {
		if( not seen.insert( x ).second ) {
			return;
		}
		r.push_back( x );
		Ints c = m.children( x );
		std::sort( c.begin( ), c.end( ), ord );
		for( int y : c ) {
			dfs_ref( m, y, ord, seen, r );
		}
	}

	Ints firsts( Ints const &v ) {
		Ints r{ };
		std::set<int> seen{ };
		for( int x : v ) {
			if( seen.insert( x ).second ) {
				r.push_back( x );
			}
		}
		return r;
	}

	// distance of every node from start
	std::map<int, int> distances( G const &m, int start ) {
		std::map<int, int> d{ { start, 0 } };
		std::deque<int> q{ start };
		while( not q.empty( ) ) {
			int const x = q.front( );
			q.pop_front( );
			for( int y : m.children( x ) ) {
				if( d.emplace( y, d[x] + 1 ).second ) {
					q.push_back( y );
				}
			}
		}
		return d;
	}

	// is the sequence a depth first visit under some child order: every new
	// node is a child of the deepest node on the current path that still has
	// unvisited children
	void valid_dfs( G const &m, Ints const &v ) {
		std::set<int> seen{ };
		Ints path{ };
		for( int x : v ) {
			while( not path.empty( ) ) {
				auto const &c = m.children( path.back( ) );
				bool const more = std::any_of( c.begin( ), c.end( ), [&]( int y ) { return seen.count( y ) == 0; } );
				if( more ) {
					break;
				}
				path.pop_back( );
			}
			if( not path.empty( ) ) {
				auto const &c = m.children( path.back( ) );
				CHECK( std::find( c.begin( ), c.end( ), x ) != c.end( ) );
			}
			CHECK( seen.insert( x ).second );
			path.push_back( x );
		}
	}

	auto const start_of = []( Src &s, G const &m ) {
		if( s.chance( 3 ) ) {
			return s.range<int>( 0, m.n - 1 );
		}
		// the node that reaches most
		int best = 0;
		std::size_t most = 0;
		for( int i = 0; i < m.n; ++i ) {
			if( auto const k = m.reach( i ).size( ); k > most ) {
				most = k;
				best = i;
			}
		}
		return best;
	};

	// ---- breadth first -----------------------------------------------------------
	// A node may be reported again while it is queued by several parents (the
	// repository's own test expects that): see known finding bfs_repeats.  What
	// must hold is the order of first reports, and that a node is reported at
	// most once per edge into it.
	void bfs_reports( G const &m, int start, Ints const &got ) {
		std::map<int, int> times{ };
		for( int x : got ) {
			++times[x];
		}
		CHECK_EQ( got.front( ), start );
		for( auto const &t : times ) {
			CHECK( t.second <= std::max( 1, m.in[static_cast<std::size_t>( t.first )] ) );
		}
	}

	PROP( bfs_ordered, { .cases = 6000 } ) {
		auto const m = make( s, s.chance( 8 ) ? 60 : 12, true );
		int const start = start_of( s, *m );
		auto const id = m->ids[static_cast<std::size_t>( start )];
		Ints got{ };
		auto const visit = [&]( auto &&n ) { got.push_back( n.value( ) ); };
		if( s.boolean( ) ) {
			bool const constant = s.boolean( );
			if( constant ) {
				daw::bfs_walk( std::as_const( m->g ), id, visit, std::less<>{ } );
			} else {
				daw::bfs_walk( m->g, id, visit, std::less<>{ } );
			}
			CHECK_EQ( firsts( got ), bfs_ref( *m, start, std::less<>{ } ) );
		} else {
			daw::bfs_walk( m->g, id, visit, std::greater<int>{ } );
			CHECK_EQ( firsts( got ), bfs_ref( *m, start, std::greater<>{ } ) );
		}
		bfs_reports( *m, start, got );
		untouched( *m );
	}

	PROP( bfs_unordered, { .cases = 4000 } ) {
		auto const m = make( s, s.chance( 8 ) ? 60 : 12, true );
		int const start = start_of( s, *m );
		auto const id = m->ids[static_cast<std::size_t>( start )];
		Ints got{ };
		auto const visit = [&]( auto &&n ) { got.push_back( n.value( ) ); };
		if( s.boolean( ) ) {
			daw::bfs_walk( std::as_const( m->g ), id, visit );
		} else {
			daw::bfs_walk( m->g, id, visit );
		}
		CHECK_EQ( as_set( got ), m->reach( start ) );
		auto const d = distances( *m, start );
		auto const f = firsts( got );
		for( std::size_t i = 1; i < f.size( ); ++i ) {
			CHECK( d.at( f[i - 1] ) <= d.at( f[i] ) );
		}
		// a child is first reported no earlier than the other nodes' children
		// whose parent came earlier
		std::map<int, std::size_t> at{ };
		for( std::size_t i = 0; i < f.size( ); ++i ) {
			at[f[i]] = i;
		}
		auto earliest_parent = [&]( int x ) {
			std::size_t best = f.size( );
			for( int p : f ) {
				auto const &c = m->children( p );
				if( std::find( c.begin( ), c.end( ), x ) != c.end( ) ) {
					best = std::min( best, at[p] );
				}
			}
			return best;
		};
		for( std::size_t i = 2; i < f.size( ); ++i ) {
			CHECK( earliest_parent( f[i - 1] ) <= earliest_parent( f[i] ) );
		}
		bfs_reports( *m, start, got );
		untouched( *m );
	}

	// the repository's example: E has two parents
	KNOWN( bfs_repeats, "bfs_walk reports a node once per parent that queued it before its first visit (a diamond reports its last node twice, as tests/daw_graph_algorithm_test.cpp expects)" ) {
		Graph g{ };
		auto const a = g.add_node( 0 ), b = g.add_node( 1 ), c = g.add_node( 2 ), d = g.add_node( 3 );
		g.add_directed_edge( a, b );
		g.add_directed_edge( a, c );
		g.add_directed_edge( b, d );
		g.add_directed_edge( c, d );
		Ints got{ };
		daw::bfs_walk( g, a, [&]( auto &&n ) { got.push_back( n.value( ) ); }, std::less<>{ } );
		return got == Ints{ 0, 1, 2, 3, 3 };
	}

	// ---- depth first ---------------------------------------------------------------
	PROP( dfs_ordered, { .cases = 6000 } ) {
		auto const m = make( s, s.chance( 8 ) ? 60 : 12, true );
		int const start = start_of( s, *m );
		auto const id = m->ids[static_cast<std::size_t>( start )];
		Ints got{ }, want{ };
		std::set<int> seen{ };
		auto const visit = [&]( auto &&n ) { got.push_back( n.value( ) ); };
		if( s.boolean( ) ) {
			if( s.boolean( ) ) {
				daw::dfs_walk( std::as_const( m->g ), id, visit, std::less<>{ } );
			} else {
				daw::dfs_walk( m->g, id, visit, std::less<>{ } );
			}
			dfs_ref( *m, start, std::less<>{ }, seen, want );
		} else {
			daw::dfs_walk( m->g, id, visit, std::greater<int>{ } );
			dfs_ref( *m, start, std::greater<>{ }, seen, want );
		}
		CHECK_EQ( got, want );
		untouched( *m );
	}

	PROP( dfs_unordered, { .cases = 4000 } ) {
		auto const m = make( s, s.chance( 8 ) ? 60 : 12, true );
		int const start = start_of( s, *m );
		auto const id = m->ids[static_cast<std::size_t>( start )];
		Ints got{ };
		auto const visit = [&]( auto &&n ) { got.push_back( n.value( ) ); };
		if( s.boolean( ) ) {
			daw::dfs_walk( std::as_const( m->g ), id, visit );
		} else {
			daw::dfs_walk( m->g, id, visit );
		}
		CHECK_EQ( as_set( got ), m->reach( start ) );
		CHECK_EQ( got.size( ), m->reach( start ).size( ) );
		CHECK_EQ( got.front( ), start );
		valid_dfs( *m, got );
		untouched( *m );
	}

	// many children that compare equal: the order must stay usable
	PROP( equal_children, { .cases = 600 } ) {
		Graph g{ };
		auto const k = s.range<int>( 2, 80 );
		auto const distinct = s.range<int>( 1, 3 );
		auto const root = g.add_node( -1 );
		std::map<Id, int> value{ };
		for( int i = 0; i < k; ++i ) {
			int const v = s.range<int>( 0, distinct - 1 );
			auto const id = g.add_node( v );
			value[id] = v;
			g.add_directed_edge( root, id );
		}
		auto const all = [&]( std::vector<Id> const &ids, bool ascending ) {
			CHECK_EQ( ids.size( ), static_cast<std::size_t>( k + 1 ) );
			CHECK( ids.front( ) == root );
			CHECK_EQ( std::set<Id>( ids.begin( ), ids.end( ) ).size( ), ids.size( ) );
			for( std::size_t i = 2; i < ids.size( ); ++i ) {
				CHECK( ascending ? value[ids[i - 1]] <= value[ids[i]] : value[ids[i - 1]] >= value[ids[i]] );
			}
		};
		std::vector<Id> got{ };
		auto const visit = [&]( auto const &n ) { got.push_back( n.id( ) ); };
		daw::dfs_walk( g, root, visit, std::less<>{ } );
		all( got, true );
		got.clear( );
		daw::bfs_walk( g, root, visit, std::less<>{ } );
		all( got, true );
		got.clear( );
		daw::topological_sorted_walk( g, visit, []( auto const &a, auto const &b ) { return a.value( ) < b.value( ); } );
		all( got, false );
		s.nontrivial( );
	}

	// ---- topological -----------------------------------------------------------------
	void valid_topological( G const &m, Ints const &got, bool whole ) {
		std::map<int, std::size_t> at{ };
		for( std::size_t i = 0; i < got.size( ); ++i ) {
			CHECK( at.emplace( got[i], i ).second );
		}
		if( whole ) {
			CHECK_EQ( got.size( ), static_cast<std::size_t>( m.n ) );
		}
		for( int a = 0; a < m.n; ++a ) {
			for( int b : m.children( a ) ) {
				if( at.count( b ) > 0 ) {
					CHECK( at.count( a ) > 0 );
					CHECK( at[a] < at[b] );
				}
			}
		}
	}

	// the ready node that sorts last comes next
	template<typename Ord>
	Ints topo_ref( G const &m, Ord ord ) {
		Ints r{ };
		std::vector<int> in = m.in;
		auto const less = [&]( int a, int b ) { return ord( a, b ); };
		std::set<int, std::function<bool( int, int )>> ready( less );
		for( int x : m.roots( ) ) {
			ready.insert( x );
		}
		while( not ready.empty( ) ) {
			int const x = *std::prev( ready.end( ) );
			ready.erase( x );
			r.push_back( x );
			for( int y : m.children( x ) ) {
				if( --in[static_cast<std::size_t>( y )] == 0 ) {
					ready.insert( y );
				}
			}
		}
		return r;
	}

	auto const by_value_less = []( auto const &a, auto const &b ) { return a.value( ) < b.value( ); };
	auto const by_value_greater = []( auto const &a, auto const &b ) { return a.value( ) > b.value( ); };

	PROP( topological, { .cases = 5000 } ) {
		bool const cyclic = s.chance( 4 );
		auto const m = make( s, s.chance( 8 ) ? 60 : 12, cyclic );
		// nodes that no cycle leads to
		auto const full = topo_ref( *m, std::less<>{ } );
		Ints got{ };
		auto const visit = [&]( auto const &n ) { got.push_back( n.value( ) ); };
		bool const reverse = s.boolean( );
		bool const constant = s.boolean( );
		auto const walk = [&]( auto &g, auto... comp ) {
			if( reverse ) {
				daw::reverse_topological_sorted_walk( g, visit, comp... );
				std::reverse( got.begin( ), got.end( ) );
			} else {
				daw::topological_sorted_walk( g, visit, comp... );
			}
		};
		switch( s.below( 3 ) ) {
		case 0:
			if( constant ) {
				walk( std::as_const( m->g ) );
			} else {
				walk( m->g );
			}
			CHECK_EQ( as_set( got ), as_set( full ) );
			break;
		case 1:
			if( constant ) {
				walk( std::as_const( m->g ), by_value_less );
			} else {
				walk( m->g, by_value_less );
			}
			CHECK_EQ( got, full );
			break;
		default:
			if( constant ) {
				walk( std::as_const( m->g ), by_value_greater );
			} else {
				walk( m->g, by_value_greater );
			}
			CHECK_EQ( got, topo_ref( *m, std::greater<>{ } ) );
			break;
		}
		valid_topological( *m, got, not cyclic );
		untouched( *m );
	}

	template<typename Rng>
	Ints values( Rng const &rng ) {
		Ints r{ };
		for( auto it = rng.begin( ); it != rng.end( ); ++it ) {
			r.push_back( it->value( ) );
			CHECK_EQ( ( *it ).value( ), r.back( ) );
		}
		return r;
	}

	template<typename Gr>
	void ranges( Src &s, G &m, Gr &g ) {
		auto const want = topo_ref( m, std::less<>{ } );
		Ints back( want.rbegin( ), want.rend( ) );
		auto const rng = daw::make_topological_sorted_range( g, by_value_less );
		CHECK_EQ( rng.size( ), want.size( ) );
		CHECK_EQ( rng.empty( ), want.empty( ) );
		CHECK_EQ( values( rng ), want );
		Ints got{ };
		for( auto it = rng.rbegin( ); it != rng.rend( ); ++it ) {
			got.push_back( ( *it ).value( ) );
		}
		CHECK_EQ( got, back );
		auto const rev = daw::make_reverse_topological_sorted_range( g, by_value_less );
		CHECK_EQ( rev.size( ), want.size( ) );
		CHECK_EQ( rev.empty( ), want.empty( ) );
		got.clear( );
		for( auto it = rev.begin( ); it != rev.end( ); ++it ) {
			got.push_back( ( *it ).value( ) );
		}
		CHECK_EQ( got, back );
		got.clear( );
		for( auto it = rev.rbegin( ); it != rev.rend( ); ++it ) {
			got.push_back( ( *it ).value( ) );
		}
		CHECK_EQ( got, want );
		// without a comparator
		valid_topological( m, values( daw::make_topological_sorted_range( g ) ), true );
		Ints rev2 = values( daw::make_topological_sorted_range( g ) );
		Ints rev1{ };
		for( auto n : daw::make_reverse_topological_sorted_range( g ) ) {
			rev1.push_back( n.value( ) );
		}
		CHECK_EQ( rev1, Ints( rev2.rbegin( ), rev2.rend( ) ) );
		// movement of the iterator against positions
		auto it = rng.begin( );
		std::ptrdiff_t pos = 0;
		auto const n = static_cast<std::ptrdiff_t>( want.size( ) );
		auto const cit = it;
		CHECK( cit.end( ) == rng.end( ) );
		for( int k = 0; k < 8; ++k ) {
			std::ptrdiff_t const to = s.range<std::ptrdiff_t>( 0, n );
			switch( s.below( 6 ) ) {
			case 0:
				it += to - pos;
				pos = to;
				break;
			case 1:
				it -= pos - to;
				pos = to;
				break;
			case 2:
				it = it + ( to - pos );
				pos = to;
				break;
			case 3:
				it = it - ( pos - to );
				pos = to;
				break;
			case 4:
				if( pos < n ) {
					auto const old = it++;
					CHECK_EQ( old->value( ), want[static_cast<std::size_t>( pos )] );
					++pos;
				}
				break;
			default:
				if( pos > 0 ) {
					auto const old = it--;
					CHECK_EQ( old.size( ), static_cast<std::size_t>( n - pos ) );
					--pos;
				}
				break;
			}
			CHECK_EQ( it.size( ), static_cast<std::size_t>( n - pos ) );
			CHECK_EQ( it.empty( ), pos == n );
			auto const other = rng.begin( ) + to;
			CHECK_EQ( it == other, pos == to );
			CHECK_EQ( it != other, pos != to );
			CHECK_EQ( it < other, pos < to );
			CHECK_EQ( it <= other, pos <= to );
			CHECK_EQ( it > other, pos > to );
			CHECK_EQ( it >= other, pos >= to );
			if( pos < n ) {
				CHECK_EQ( ( *it ).value( ), want[static_cast<std::size_t>( pos )] );
				CHECK_EQ( it->value( ), want[static_cast<std::size_t>( pos )] );
			}
		}
	}

	PROP( topological_ranges, { .cases = 3000 } ) {
		auto const m = make( s, 12, false );
		if( s.boolean( ) ) {
			ranges( s, *m, m->g );
		} else {
			ranges( s, *m, std::as_const( m->g ) );
		}
		untouched( *m );
	}

	// nodes handed to the visitor of a mutable graph can be written
	PROP( writes, { .cases = 1500 } ) {
		auto const m = make( s, 12, false );
		switch( s.below( 4 ) ) {
		case 0:
			daw::topological_sorted_walk( m->g, []( auto n ) { n.value( ) += 100; } );
			break;
		case 1:
			daw::reverse_topological_sorted_walk( m->g, []( auto n ) { n.value( ) += 100; } );
			break;
		case 2:
			for( auto n : daw::make_topological_sorted_range( m->g ) ) {
				n.value( ) += 100;
			}
			break;
		default:
			for( int r : m->roots( ) ) {
				daw::dfs_walk( m->g, m->ids[static_cast<std::size_t>( r )], []( auto n ) {
					if( n.value( ) < 100 ) {
						n.value( ) += 100;
					}
				} );
			}
			break;
		}
		for( int i = 0; i < m->n; ++i ) {
			CHECK_EQ( m->g.get_node( m->ids[static_cast<std::size_t>( i )] ).value( ), i + 100 );
		}
	}

	// ---- spanning tree -----------------------------------------------------------------
	PROP( spanning_tree, { .cases = 5000 } ) {
		auto const m = make( s, s.chance( 8 ) ? 40 : 10, true );
		auto const roots = m->roots( );
		std::set<int> before{ };
		for( int r : roots ) {
			auto const k = m->reach( r );
			before.insert( k.begin( ), k.end( ) );
		}
		daw::mst( m->g );
		CHECK_EQ( m->g.size( ), static_cast<std::size_t>( m->n ) );
		// what is left
		std::vector<Ints> out( static_cast<std::size_t>( m->n ) );
		for( int i = 0; i < m->n; ++i ) {
			auto const node = m->g.get_node( m->ids[static_cast<std::size_t>( i )] );
			CHECK_EQ( node.value( ), i );
			for( auto id : node.outgoing_edges( ) ) {
				int const c = m->g.get_node( id ).value( );
				auto const &was = m->children( i );
				CHECK( std::find( was.begin( ), was.end( ), c ) != was.end( ) );
				CHECK( m->g.get_node( id ).incoming_edges( ).count( node.id( ) ) == 1 );
				out[static_cast<std::size_t>( i )].push_back( c );
			}
			// nodes no root leads to keep their edges to each other
			if( before.count( i ) == 0 ) {
				Ints o = out[static_cast<std::size_t>( i )];
				std::sort( o.begin( ), o.end( ) );
				CHECK_EQ( o, m->children( i ) );
			}
		}
		std::set<int> after{ };
		for( int r : roots ) {
			// one path from a root to each node it still reaches
			std::set<int> seen{ };
			Ints todo{ r };
			while( not todo.empty( ) ) {
				int const x = todo.back( );
				todo.pop_back( );
				CHECK( seen.insert( x ).second );
				for( int y : out[static_cast<std::size_t>( x )] ) {
					todo.push_back( y );
				}
			}
			after.insert( seen.begin( ), seen.end( ) );
			if( roots.size( ) == 1 ) {
				CHECK_EQ( seen, before );
			}
		}
		CHECK_EQ( after, before );
	}
} // namespace
