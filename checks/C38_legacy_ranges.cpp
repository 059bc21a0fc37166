// C38: the legacy ranges (collection, reference and iterator ranges and the
// range operators).  Oracle: a std::vector edited with the std algorithms.
// Elements compare by key and carry a tag, so that stability and identity show.
// nontrivial: at least one edit of a range of two or more elements.
// pbt-parts: 2
#include "pbt.h"
#include <algorithm>
#include <functional>
#include <list>
#include <numeric>
#include <random>
#include <sstream>
#include <vector>
#include "daw/deprecated/daw_range.h"
#include "daw/deprecated/daw_range_collection.h"
#include "daw/deprecated/daw_range_operators.h"
#include "daw/deprecated/daw_range_reference.h"
#include "daw/deprecated/daw_range_type.h"
using namespace pbt;
namespace dr = daw::range;

namespace {
	struct E {
		int k = 0;
		int t = 0;
		friend bool operator==( E a, E b ) {
			return a.k == b.k;
		}
		friend bool operator!=( E a, E b ) {
			return a.k != b.k;
		}
		friend bool operator<( E a, E b ) {
			return a.k < b.k;
		}
		friend int operator+( int a, E b ) {
			return ( a * 3 + b.k * 7 + b.t ) % 1000;
		}
		friend std::ostream &operator<<( std::ostream &o, E e ) {
			return o << e.k << '.' << e.t;
		}
	};
	using V = std::vector<E>;
	bool same( E a, E b ) {
		return a.k == b.k and a.t == b.t;
	}
	template<typename A, typename B>
	bool exact( A const &a, B const &b ) {
		return std::equal( std::begin( a ), std::end( a ), std::begin( b ), std::end( b ), []( E x, E y ) { return same( x, y ); } );
	}
	template<typename A>
	V plain( A const &a ) {
		V r;
		for( auto const &e : a ) {
			if constexpr( requires { e.get( ); } ) {
				r.push_back( e.get( ) );
			} else {
				r.push_back( e );
			}
		}
		return r;
	}
	bool permuted( V a, V b ) {
		auto const lt = []( E x, E y ) { return x.k != y.k ? x.k < y.k : x.t < y.t; };
		std::sort( a.begin( ), a.end( ), lt );
		std::sort( b.begin( ), b.end( ), lt );
		return exact( a, b );
	}
	std::string text( V const &v ) {
		std::ostringstream o;
		for( auto e : v ) {
			o << ' ' << e;
		}
		return o.str( );
	}
	struct Pred {
		int what = 0;
		int bound = 0;
		bool operator( )( E e ) const {
			switch( what ) {
			case 0:
				return e.k < bound;
			case 1:
				return e.k % 2 == 0;
			case 2:
				return e.t % 3 == bound % 3;
			default:
				return e.k != bound;
			}
		}
	};
	Pred gen_pred( Src &s ) {
		return { int( s.draw( 4 ) ), s.range<int>( -1, 6 ) };
	}
	// a strict weak order; by key up or down, or by the tag's last digit
	struct Order {
		int what = 0;
		bool operator( )( E a, E b ) const {
			return what == 0 ? a.k < b.k : what == 1 ? b.k < a.k : a.t % 4 < b.t % 4;
		}
	};
	struct Near {
		bool operator( )( E a, E b ) const {
			return a.k / 2 == b.k / 2;
		}
	};
	V gen( Src &s, std::size_t most = 24 ) {
		V v( s.longlen( most ) );
		int t = 0;
		for( auto &e : v ) {
			e = E{ s.range<int>( 0, 5 ), t++ };
		}
		return v;
	}
	template<typename O>
	bool ordered( V const &v, O o ) {
		return std::is_sorted( v.begin( ), v.end( ), o );
	}
	// does `got` hold what sorting `m` may give
	template<typename O>
	bool sorted_from( V const &got, V const &m, O o ) {
		return ordered( got, o ) and permuted( got, m );
	}
} // namespace

#if PBT_PART == 0
PROP( collection_history, {} ) {
	V m = gen( s );
	dr::CollectionRange<E> c = dr::from( m );
	std::string log = text( m );
	s.note( [&] { return log; } );
	int tag = 100;
	for( std::size_t n = 1 + s.len( 12 ); n > 0; --n ) {
		auto const op = s.draw( 22 );
		auto const p = gen_pred( s );
		auto const o = Order{ int( s.draw( 3 ) ) };
		auto const val = E{ s.range<int>( 0, 5 ), 0 };
		log += " | " + std::to_string( op ) + "," + std::to_string( p.what ) + "," + std::to_string( p.bound ) + "," + std::to_string( o.what ) + "," + std::to_string( val.k );
		if( m.size( ) > 1 ) {
			s.nontrivial( );
		}
		bool adopt = false; // several results are right; go on from the one given
		switch( op ) {
		case 0:
		case 1: {
			E const e{ val.k, tag++ };
			c.push_back( e );
			m.push_back( e );
			break;
		}
		case 2:
			CHECK( &c.sort( ) == &c );
			CHECK( sorted_from( plain( c ), m, std::less<>{ } ) );
			adopt = true;
			break;
		case 3:
			CHECK( &c.sort( o ) == &c );
			CHECK( sorted_from( plain( c ), m, o ) );
			adopt = true;
			break;
		case 4:
			CHECK( &c.stable_sort( ) == &c );
			std::stable_sort( m.begin( ), m.end( ) );
			break;
		case 5:
			CHECK( &c.stable_sort( o ) == &c );
			std::stable_sort( m.begin( ), m.end( ), o );
			break;
		case 6:
			CHECK( &c.unique( ) == &c );
			m.erase( std::unique( m.begin( ), m.end( ) ), m.end( ) );
			break;
		case 7:
			CHECK( &c.unique( Near{ } ) == &c );
			m.erase( std::unique( m.begin( ), m.end( ), Near{ } ), m.end( ) );
			break;
		case 8: {
			CHECK( &c.partition( p ) == &c );
			auto const g = plain( c );
			CHECK( permuted( g, m ) );
			CHECK( std::is_partitioned( g.begin( ), g.end( ), p ) );
			adopt = true;
			break;
		}
		case 9:
			CHECK( &c.stable_partition( p ) == &c );
			std::stable_partition( m.begin( ), m.end( ), p );
			break;
		case 10:
			CHECK( &c.erase( p ) == &c );
			std::erase_if( m, p );
			break;
		case 11:
			c.erase_where_equal_to( val );
			std::erase( m, val );
			break;
		case 12:
			c.where( p );
			std::erase_if( m, std::not_fn( p ) );
			break;
		case 13:
			c.where_equal_to( val );
			std::erase_if( m, [&]( E e ) { return e != val; } );
			break;
		case 14: {
			V seen;
			CHECK( &c.for_each( [&]( E &e ) {
				seen.push_back( e );
				e.k += val.k % 2;
			} ) == &c );
			CHECK( exact( seen, m ) );
			for( auto &e : m ) {
				e.k += val.k % 2;
			}
			break;
		}
		case 15: {
			auto g = std::mt19937( s.range<unsigned>( 0, 9 ) );
			CHECK( &c.shuffle( g ) == &c );
			CHECK( permuted( plain( c ), m ) );
			adopt = true;
			break;
		}
		case 16:
			CHECK( &c.shuffle( ) == &c );
			CHECK( permuted( plain( c ), m ) );
			adopt = true;
			break;
		case 17: {
			auto d = c;
			CHECK( d == c and not( d != c ) );
			d.push_back( val );
			CHECK( not( d == c ) and d != c );
			CHECK( exact( c, m ) );
			auto e = std::move( d );
			CHECK_EQ( e.size( ), m.size( ) + 1 );
			c = e;
			m.push_back( val );
			break;
		}
		case 18:
			if( not m.empty( ) ) {
				auto const i = s.below( m.size( ) );
				c[i] = val;
				m[i] = val;
				c.front( ).t += 1;
				m.front( ).t += 1;
				c.back( ).k = 0;
				m.back( ).k = 0;
			}
			break;
		case 19: {
			auto const r = c.transform( []( E e ) { return e.k * 10 + e.t; } );
			CHECK_EQ( r.size( ), m.size( ) );
			for( std::size_t i = 0; i < m.size( ); ++i ) {
				CHECK_EQ( r[i], m[i].k * 10 + m[i].t );
			}
			break;
		}
		case 20: {
			auto const d = dr::make_range_collection( m.begin( ), m.end( ) );
			CHECK( exact( d, m ) );
			CHECK( d == c );
			auto const f = dr::from_mutable( m );
			CHECK( exact( f, m ) );
			CHECK( exact( dr::make_range_collection( dr::make_range_reference( m ) ), m ) );
			break;
		}
		default: {
			std::ostringstream a;
			a << c;
			CHECK_EQ( a.str( ), "{" + text( m ) + " }" );
		}
		}
		if( adopt ) {
			m = plain( c );
		}
		auto const &cc = c;
		CHECK( exact( cc, m ) );
		CHECK( exact( V( cc.cbegin( ), cc.cend( ) ), m ) );
		CHECK_EQ( cc.size( ), m.size( ) );
		CHECK_EQ( cc.empty( ), m.empty( ) );
		CHECK_EQ( cc.at_end( ), m.empty( ) );
		if( not m.empty( ) ) {
			auto const i = s.below( m.size( ) );
			CHECK( same( cc[i], m[i] ) and same( cc.front( ), m.front( ) ) and same( cc.back( ), m.back( ) ) );
		}
		CHECK_EQ( cc.find( val ) - cc.begin( ), std::find( m.begin( ), m.end( ), val ) - m.begin( ) );
		CHECK_EQ( cc.find_if( p ) - cc.begin( ), std::find_if( m.begin( ), m.end( ), p ) - m.begin( ) );
		CHECK_EQ( cc.contains( val ), std::find( m.begin( ), m.end( ), val ) != m.end( ) );
		CHECK_EQ( cc.contains( val, o ), std::any_of( m.begin( ), m.end( ), [&]( E e ) { return o( val, e ); } ) );
		CHECK_EQ( cc.accumulate( 5 ), std::accumulate( m.begin( ), m.end( ), 5 ) );
		auto const fold = []( int a, E b ) { return ( a * 5 - b.t ) % 1000; };
		CHECK_EQ( cc.accumulate( 2, fold ), std::accumulate( m.begin( ), m.end( ), 2, fold ) );
		CHECK( exact( cc.as_vector( ), m ) );
		CHECK( exact( cc.template as<std::list<E>>( ), m ) );
		V seen;
		CHECK( &cc.for_each( [&]( E const &e ) { seen.push_back( e ); } ) == &cc );
		CHECK( exact( seen, m ) );
	}
}

// the constant forms give references to the elements and leave the object alone
PROP( constant_forms, {} ) {
	V const m = gen( s );
	dr::CollectionRange<E> const c( m );
	s.note( [&] { return text( m ); } );
	auto const p = gen_pred( s );
	auto const o = Order{ int( s.draw( 3 ) ) };
	auto const val = E{ s.range<int>( 0, 5 ), 0 };
	if( m.size( ) > 1 ) {
		s.nontrivial( );
	}
	auto const inside = [&]( auto const &r ) {
		for( auto const &e : r ) {
			E const *const a = &e.get( );
			if( std::less<>{ }( a, &*c.begin( ) ) or not std::less<>{ }( a, &*c.begin( ) + c.size( ) ) ) {
				return false;
			}
		}
		return true;
	};
	auto const result = [&]( auto const &r, V const &want ) {
		CHECK( inside( r ) );
		CHECK( exact( plain( r ), want ) );
		CHECK( exact( r.as_vector( ), want ) );
	};
	V w = m;
	switch( s.draw( 12 ) ) {
	case 0: {
		auto const r = c.sort( );
		CHECK( inside( r ) and sorted_from( plain( r ), m, std::less<>{ } ) );
		break;
	}
	case 1: {
		auto const r = c.sort( o );
		CHECK( inside( r ) and sorted_from( plain( r ), m, o ) );
		break;
	}
	case 2:
		std::stable_sort( w.begin( ), w.end( ) );
		result( c.stable_sort( ), w );
		break;
	case 3:
		std::stable_sort( w.begin( ), w.end( ), o );
		result( c.stable_sort( o ), w );
		break;
	case 4:
		w.erase( std::unique( w.begin( ), w.end( ) ), w.end( ) );
		result( c.unique( ), w );
		break;
	case 5:
		w.erase( std::unique( w.begin( ), w.end( ), Near{ } ), w.end( ) );
		result( c.unique( Near{ } ), w );
		break;
	case 6: {
		auto const r = c.partition( p );
		auto const g = plain( r );
		CHECK( inside( r ) and permuted( g, m ) and std::is_partitioned( g.begin( ), g.end( ), p ) );
		break;
	}
	case 7:
		std::stable_partition( w.begin( ), w.end( ), p );
		result( c.stable_partition( p ), w );
		break;
	case 8:
		std::erase_if( w, p );
		result( c.erase( p ), w );
		break;
	case 9:
		std::erase( w, val );
		result( c.erase_where_equal_to( val ), w );
		break;
	case 10:
		std::erase_if( w, std::not_fn( p ) );
		result( c.where( p ), w );
		break;
	default: {
		std::erase_if( w, [&]( E e ) { return e != val; } );
		result( c.where_equal_to( val ), w );
		auto g = std::mt19937( s.range<unsigned>( 0, 9 ) );
		auto const r = c.shuffle( g );
		CHECK( inside( r ) and permuted( plain( r ), m ) );
		CHECK( permuted( plain( c.shuffle( ) ), m ) );
	}
	}
	CHECK( exact( c, m ) );
}
#endif

#if PBT_PART == 1
PROP( reference_history, {} ) {
	V const base = gen( s );
	V m = base;
	auto r = dr::make_range_reference( base );
	std::string log = text( base );
	s.note( [&] { return log; } );
	for( std::size_t n = 1 + s.len( 10 ); n > 0; --n ) {
		auto const op = s.draw( 16 );
		auto const p = gen_pred( s );
		auto const o = Order{ int( s.draw( 3 ) ) };
		auto const val = E{ s.range<int>( 0, 5 ), 0 };
		bool const as_const = s.boolean( );
		log += " | " + std::to_string( op ) + "," + std::to_string( p.what ) + "," + std::to_string( p.bound ) + "," + std::to_string( o.what ) + "," + std::to_string( val.k ) + ( as_const ? "c" : "" );
		if( m.size( ) > 1 ) {
			s.nontrivial( );
		}
		// a constant range must stay as it is; the result takes its place
		auto const edit = [&]( auto f ) {
			if( as_const ) {
				auto const &cr = r;
				auto const before = plain( cr );
				auto x = f( cr );
				CHECK( exact( plain( cr ), before ) );
				r = x;
			} else {
				(void)f( r );
			}
		};
		bool adopt = false;
		switch( op ) {
		case 0:
			edit( [&]( auto &x ) { return x.sort( ); } );
			CHECK( sorted_from( plain( r ), m, std::less<>{ } ) );
			adopt = true;
			break;
		case 1:
			edit( [&]( auto &x ) { return x.sort( o ); } );
			CHECK( sorted_from( plain( r ), m, o ) );
			adopt = true;
			break;
		case 2:
			edit( [&]( auto &x ) { return x.stable_sort( ); } );
			std::stable_sort( m.begin( ), m.end( ) );
			break;
		case 3:
			edit( [&]( auto &x ) { return x.stable_sort( o ); } );
			std::stable_sort( m.begin( ), m.end( ), o );
			break;
		case 4:
			edit( [&]( auto &x ) { return x.unique( ); } );
			m.erase( std::unique( m.begin( ), m.end( ) ), m.end( ) );
			break;
		case 5:
			edit( [&]( auto &x ) { return x.unique( Near{ } ); } );
			m.erase( std::unique( m.begin( ), m.end( ), Near{ } ), m.end( ) );
			break;
		case 6: {
			edit( [&]( auto &x ) { return x.partition( p ); } );
			auto const g = plain( r );
			CHECK( permuted( g, m ) and std::is_partitioned( g.begin( ), g.end( ), p ) );
			adopt = true;
			break;
		}
		case 7:
			edit( [&]( auto &x ) { return x.stable_partition( p ); } );
			std::stable_partition( m.begin( ), m.end( ), p );
			break;
		case 8: {
			auto const &cr = r;
			auto const q = s.boolean( ) ? cr.partition_it( p ) : cr.stable_partition_it( p );
			CHECK( exact( plain( cr ), m ) );
			auto const g = plain( q.second );
			CHECK( permuted( g, m ) and std::is_partitioned( g.begin( ), g.end( ), p ) );
			CHECK_EQ( q.first - q.second.begin( ), std::count_if( m.begin( ), m.end( ), p ) );
			auto const st = cr.stable_partition_it( p );
			V w = m;
			std::stable_partition( w.begin( ), w.end( ), p );
			CHECK( exact( plain( st.second ), w ) );
			auto const mid = r.stable_partition_it( p ).first;
			CHECK_EQ( mid - r.begin( ), std::count_if( m.begin( ), m.end( ), p ) );
			m = w;
			break;
		}
		case 9:
			edit( [&]( auto &x ) { return x.erase( p ); } );
			std::erase_if( m, p );
			break;
		case 10:
			edit( [&]( auto &x ) { return x.erase_where_equal_to( val ); } );
			std::erase( m, val );
			break;
		case 11:
			edit( [&]( auto &x ) { return x.where( p ); } );
			std::erase_if( m, std::not_fn( p ) );
			break;
		case 12:
			edit( [&]( auto &x ) { return x.where_equal_to( val ); } );
			std::erase_if( m, [&]( E e ) { return e != val; } );
			break;
		case 13: {
			auto g = std::mt19937( s.range<unsigned>( 0, 9 ) );
			edit( [&]( auto &x ) { return s.boolean( ) ? x.shuffle( g ) : x.shuffle( ); } );
			CHECK( permuted( plain( r ), m ) );
			adopt = true;
			break;
		}
		case 14: {
			V seen;
			edit( [&]( auto &x ) { return x.for_each( [&]( E const &e ) { seen.push_back( e ); } ); } );
			CHECK( exact( seen, m ) );
			auto const t = r.transform( []( E e ) { return e.k * 10 + e.t; } );
			CHECK_EQ( t.size( ), m.size( ) );
			for( std::size_t i = 0; i < m.size( ); ++i ) {
				CHECK_EQ( t[i], m[i].k * 10 + m[i].t );
			}
			break;
		}
		default: {
			std::ostringstream a;
			a << r;
			CHECK_EQ( a.str( ), "{" + text( m ) + " }" );
			auto const d = r.copy( );
			CHECK( d == r and not( d != r ) );
		}
		}
		if( adopt ) {
			m = plain( r );
		}
		auto const &cr = r;
		CHECK( exact( plain( cr ), m ) );
		for( auto const &e : cr ) {
			// still the elements themselves
			CHECK( &e.get( ) == &base[std::size_t( e.get( ).t )] );
		}
		CHECK_EQ( cr.size( ), m.size( ) );
		CHECK_EQ( cr.empty( ), m.empty( ) );
		CHECK_EQ( cr.at_end( ), m.empty( ) );
		if( not m.empty( ) ) {
			auto const i = s.below( m.size( ) );
			CHECK( same( cr[i], m[i] ) and same( cr.front( ).get( ), m.front( ) ) and same( cr.back( ).get( ), m.back( ) ) );
		}
		CHECK_EQ( cr.find( val ) - cr.begin( ), std::find( m.begin( ), m.end( ), val ) - m.begin( ) );
		CHECK_EQ( cr.find_if( p ) - cr.begin( ), std::find_if( m.begin( ), m.end( ), p ) - m.begin( ) );
		CHECK_EQ( cr.contains( val ), std::find( m.begin( ), m.end( ), val ) != m.end( ) );
		CHECK_EQ( cr.contains( val, o ), std::any_of( m.begin( ), m.end( ), [&]( E e ) { return o( val, e ); } ) );
		CHECK_EQ( cr.accumulate( 5 ), std::accumulate( m.begin( ), m.end( ), 5 ) );
		auto const fold = []( int a, E b ) { return ( a * 5 - b.t ) % 1000; };
		CHECK_EQ( cr.accumulate( 2, fold ), std::accumulate( m.begin( ), m.end( ), 2, fold ) );
		CHECK( exact( cr.as_vector( ), m ) );
		CHECK( exact( cr.template as<std::list<E>>( ), m ) );
	}
}

PROP( iterator_range, {} ) {
	V base = gen( s );
	std::size_t lo = 0, hi = base.size( );
	auto r = s.boolean( ) ? dr::make_range( base ) : dr::make_range( base.begin( ), base.end( ) );
	std::string log = text( base );
	s.note( [&] { return log; } );
	for( std::size_t n = 1 + s.len( 10 ); n > 0; --n ) {
		auto const op = s.draw( 12 );
		auto const a = lo + s.below( hi - lo + 1 );
		auto const b = a + s.below( hi - a + 1 );
		auto const p = gen_pred( s );
		auto const o = Order{ int( s.draw( 3 ) ) };
		auto const val = E{ s.range<int>( 0, 5 ), 0 };
		log += " | " + std::to_string( op ) + "," + std::to_string( a ) + "," + std::to_string( b );
		if( hi - lo > 1 ) {
			s.nontrivial( );
		}
		V m( base.begin( ) + std::ptrdiff_t( lo ), base.begin( ) + std::ptrdiff_t( hi ) );
		switch( op ) {
		case 0:
			if( lo < hi ) {
				CHECK( &r.move_next( ) == &r );
				++lo;
			}
			break;
		case 1:
			if( lo > 0 ) {
				if( s.boolean( ) ) {
					CHECK( &r.move_back( ) == &r );
				} else {
					CHECK( &r.move_back( base.begin( ) ) == &r );
				}
				--lo;
			}
			break;
		case 2:
			r.advance( std::ptrdiff_t( a - lo ) );
			lo = a;
			break;
		case 3:
			r.set( base.begin( ) + std::ptrdiff_t( a ), base.begin( ) + std::ptrdiff_t( b ) );
			lo = a;
			hi = b;
			break;
		case 4:
			r.set_begin( base.begin( ) + std::ptrdiff_t( a ) );
			lo = a;
			r.set_end( base.begin( ) + std::ptrdiff_t( b ) );
			hi = b;
			break;
		case 5: {
			auto const far = s.range<std::ptrdiff_t>( 0, std::ptrdiff_t( hi - lo ) + 3 );
			dr::safe_advance( r, far );
			lo = std::min( hi, lo + std::size_t( far ) );
			break;
		}
		case 6: {
			auto const &c = r;
			auto const x = s.boolean( ) ? r.slice( a - lo, b - lo ) : c.slice( a - lo, b - lo );
			CHECK( x.begin( ) == base.begin( ) + std::ptrdiff_t( a ) and x.end( ) == base.begin( ) + std::ptrdiff_t( b ) );
			auto const y = s.boolean( ) ? r.slice( a - lo ) : c.slice( a - lo );
			CHECK( y.begin( ) == base.begin( ) + std::ptrdiff_t( a ) and y.end( ) == base.begin( ) + std::ptrdiff_t( hi ) );
			auto const z = s.boolean( ) ? r.shrink( a - lo ) : c.shrink( a - lo );
			CHECK( z.begin( ) == r.begin( ) );
			CHECK_EQ( z.size( ), a - lo );
			auto const nx = dr::next( r, a - lo );
			CHECK( nx.begin( ) == x.begin( ) and nx.end( ) == r.end( ) );
			break;
		}
		case 7: {
			auto const before = base;
			CHECK( sorted_from( plain( r.sort( ) ), m, std::less<>{ } ) );
			CHECK( sorted_from( plain( r.sort( o ) ), m, o ) );
			V w = m;
			std::stable_sort( w.begin( ), w.end( ) );
			CHECK( exact( plain( r.stable_sort( ) ), w ) );
			w = m;
			std::stable_sort( w.begin( ), w.end( ), o );
			CHECK( exact( plain( r.stable_sort( o ) ), w ) );
			w = m;
			w.erase( std::unique( w.begin( ), w.end( ) ), w.end( ) );
			CHECK( exact( plain( r.unique( ) ), w ) );
			w = m;
			w.erase( std::unique( w.begin( ), w.end( ), Near{ } ), w.end( ) );
			CHECK( exact( plain( r.unique( Near{ } ) ), w ) );
			CHECK( exact( base, before ) );
			break;
		}
		case 8: {
			auto const before = base;
			V w = m;
			std::erase_if( w, p );
			CHECK( exact( plain( r.erase( p ) ), w ) );
			w = m;
			std::erase( w, val );
			CHECK( exact( plain( r.erase_where_equal_to( val ) ), w ) );
			w = m;
			std::erase_if( w, std::not_fn( p ) );
			CHECK( exact( plain( r.where( p ) ), w ) );
			w = m;
			std::erase_if( w, [&]( E e ) { return e != val; } );
			CHECK( exact( plain( r.where_equal_to( val ) ), w ) );
			w = m;
			std::stable_partition( w.begin( ), w.end( ), p );
			CHECK( exact( plain( r.stable_partition( p ) ), w ) );
			auto const g = plain( r.partition( p ) );
			CHECK( permuted( g, m ) and std::is_partitioned( g.begin( ), g.end( ), p ) );
			CHECK( permuted( plain( r.shuffle( ) ), m ) );
			auto eng = std::mt19937( 3 );
			CHECK( permuted( plain( r.shuffle( eng ) ), m ) );
			CHECK( exact( base, before ) );
			break;
		}
		case 9: {
			auto const v = r.map( []( E e ) { return e.k * 10 + e.t; } );
			CHECK_EQ( v.size( ), m.size( ) );
			for( std::size_t i = 0; i < m.size( ); ++i ) {
				CHECK_EQ( v[i], m[i].k * 10 + m[i].t );
			}
			auto const fold = []( int x, E y ) { return ( x * 5 - y.t ) % 1000; };
			CHECK_EQ( r.accumulate( 5 ), std::accumulate( m.begin( ), m.end( ), 5 ) );
			CHECK_EQ( r.accumulate( 2, fold ), std::accumulate( m.begin( ), m.end( ), 2, fold ) );
			CHECK_EQ( r.contains( val, o ), std::any_of( m.begin( ), m.end( ), [&]( E e ) { return o( val, e ); } ) );
			break;
		}
		case 10: {
			auto const q = dr::make_crange( base );
			CHECK_EQ( q.size( ), base.size( ) );
			CHECK( exact( q, base ) );
			auto const x = dr::make_range( base.begin( ) + std::ptrdiff_t( a ), base.begin( ) + std::ptrdiff_t( b ) );
			bool const eq = V( x.begin( ), x.end( ) ) == m;
			CHECK_EQ( r == x, eq );
			CHECK_EQ( r != x, not eq );
			break;
		}
		default:
			if( lo < hi ) {
				r.front( ).t += 1;
				r[hi - lo - 1].k = val.k;
				( *r ).t += 1;
				r.back( ).t += 2;
				base[lo].t += 0;
			}
		}
		// the range shows base[lo, hi)
		auto const &c = r;
		CHECK( r.begin( ) == base.begin( ) + std::ptrdiff_t( lo ) and r.end( ) == base.begin( ) + std::ptrdiff_t( hi ) );
		CHECK( c.begin( ) == r.begin( ) and c.end( ) == r.end( ) and c.cbegin( ) == r.begin( ) and c.cend( ) == r.end( ) );
		CHECK_EQ( c.size( ), hi - lo );
		CHECK_EQ( c.empty( ), lo == hi );
		CHECK_EQ( c.at_end( ), lo == hi );
		CHECK_EQ( dr::at_end( c ), lo == hi );
		CHECK_EQ( static_cast<bool>( c ), lo != hi );
		V now( base.begin( ) + std::ptrdiff_t( lo ), base.begin( ) + std::ptrdiff_t( hi ) );
		CHECK( exact( c.as_vector( ), now ) );
		if( lo < hi ) {
			auto const i = s.below( hi - lo );
			CHECK( &r[i] == &base[lo + i] and &c[i] == &base[lo + i] );
			CHECK( &r.front( ) == &base[lo] and &c.front( ) == &base[lo] and &*r == &base[lo] and &*c == &base[lo] );
			CHECK( &r.back( ) == &base[hi - 1] and &c.back( ) == &base[hi - 1] );
		}
		CHECK_EQ( c.find( val ) - c.begin( ), std::find( now.begin( ), now.end( ), val ) - now.begin( ) );
		CHECK_EQ( c.find_if( p ) - c.begin( ), std::find_if( now.begin( ), now.end( ), p ) - now.begin( ) );
		CHECK_EQ( c.contains( val ), std::find( now.begin( ), now.end( ), val ) != now.end( ) );
		CHECK_EQ( dr::contains( c, val ), std::find( now.begin( ), now.end( ), val ) != now.end( ) );
	}
}

// chains of range operators equal the calls one after another
namespace {
	template<typename F>
	void with_clause( int which, Pred p, E val, F f ) {
		namespace ops = daw::range::operators;
		switch( which ) {
		case 0:
			f( ops::stable_sort( ), []( V v ) {
				std::stable_sort( v.begin( ), v.end( ) );
				return v;
			} );
			break;
		case 1: {
			auto const o = Order{ 1 }; // a named argument
			f( ops::stable_sort( o ), [o]( V v ) {
				std::stable_sort( v.begin( ), v.end( ), o );
				return v;
			} );
			break;
		}
		case 2:
			f( ops::where( p ), [p]( V v ) {
				std::erase_if( v, std::not_fn( p ) );
				return v;
			} );
			break;
		case 3:
			f( ops::stable_partition( Pred( p ) ), [p]( V v ) {
				std::stable_partition( v.begin( ), v.end( ), p );
				return v;
			} );
			break;
		case 4:
			f( ops::unique( ), []( V v ) {
				v.erase( std::unique( v.begin( ), v.end( ) ), v.end( ) );
				return v;
			} );
			break;
		case 5:
			f( ops::erase_where_equal_to( val ), [val]( V v ) {
				std::erase( v, val );
				return v;
			} );
			break;
		default:
			f( ops::erase( p ), [p]( V v ) {
				std::erase_if( v, p );
				return v;
			} );
		}
	}
} // namespace

PROP( operator_chains, {} ) {
	namespace ops = daw::range::operators;
	V const base = gen( s );
	s.note( [&] { return text( base ); } );
	auto const p = gen_pred( s ), q = gen_pred( s );
	auto const val = E{ s.range<int>( 0, 5 ), 0 };
	auto const w1 = int( s.draw( 7 ) ), w2 = int( s.draw( 7 ) );
	if( base.size( ) > 1 ) {
		s.nontrivial( );
	}
	auto const coll = dr::from( base );
	with_clause( w1, p, val, [&]( auto c1, auto m1 ) {
		with_clause( w2, q, val, [&]( auto c2, auto m2 ) {
			V const want1 = m1( base );
			V const want = m2( want1 );
			CHECK( exact( plain( base << c1 ), want1 ) );
			CHECK( exact( plain( coll << c1 ), want1 ) );
			auto const a = base << c1 << c2;
			CHECK( exact( plain( a ), want ) );
			auto const b = dr::from( base ) << c1 << c2;
			CHECK( exact( plain( b ), want ) );
			auto const c = coll << c1 << c2;
			CHECK( exact( plain( c ), want ) );
			CHECK( exact( dr::from( base ) << c1 << c2 << ops::as_vector( ), want ) );
			auto const fold = []( int x, E y ) { return ( x * 5 - y.t ) % 1000; };
			CHECK_EQ( base << c1 << c2 << ops::accumulate( 3, fold ), std::accumulate( want.begin( ), want.end( ), 3, fold ) );
			auto const r = c1( dr::make_range_reference( base ) );
			CHECK( exact( plain( r ), want1 ) );
		} );
	} );
	CHECK( exact( base, coll ) );
}
#endif
