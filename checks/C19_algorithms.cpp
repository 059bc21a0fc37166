// C19: every algorithm against the std algorithm of that name, or a direct
// reading of its definition, on exact-size buffers and on list iterators, with
// the calls it makes recorded.
// nontrivial: the range has at least two elements and the answer is not the first or last position.
// pbt-scale: 12
#include "pbt.h"
#include "daw/algorithms/daw_algorithm_find_transform.h"
#include "daw/algorithms/daw_algorithm_partial_sum.h"
#include "daw/algorithms/daw_array_compare.h"
#include "daw/daw_algorithm.h"
#include "daw/daw_algorithm_cx.h"
#include "daw/daw_container_algorithm.h"
#include "daw/daw_do_n.h"
#include "daw/daw_keep_n.h"
#include "daw/daw_swap.h"
#include "daw/daw_utility.h"
#include "daw/daw_take.h"
#include <forward_list>
#include <deque>
#include <list>
#include <map>
#include <numeric>
#include <set>
#include <string>
#include <unordered_map>
#pragma clang diagnostic ignored "-Wdeprecated-declarations"
using namespace pbt;
namespace A = daw::algorithm;

namespace {
	using V = std::vector<int>;

	V gen( Src &s, std::size_t mx = 12 ) {
		V v( s.longlen( mx ) );
		int const k = int( s.pick<int>( { 2, 3, 6, 50 } ) );
		for( int &x : v ) {
			x = s.range<int>( 0, k );
		}
		return v;
	}
	V gen_sorted( Src &s, std::size_t mx = 14 ) {
		V v = gen( s, mx );
		std::sort( v.begin( ), v.end( ) );
		return v;
	}

	// f( first, last, tag ) on a buffer of exactly that size, a list or a deque;
	// the contents afterwards are stored back
	template<typename F>
	void on( Src &s, V &v, F f ) {
		switch( s.draw( 2 ) ) {
		case 0: {
			auto e = Exact<int>::from( v );
			f( e.data( ), e.data( ) + v.size( ) );
			v.assign( e.data( ), e.data( ) + v.size( ) );
			break;
		}
		case 1: {
			std::list<int> l( v.begin( ), v.end( ) );
			f( l.begin( ), l.end( ) );
			v.assign( l.begin( ), l.end( ) );
			break;
		}
		default: {
			std::deque<int> l( v.begin( ), v.end( ) );
			f( l.begin( ), l.end( ) );
			v.assign( l.begin( ), l.end( ) );
		}
		}
	}
	template<typename F>
	void on_ra( Src &s, V &v, F f ) {
		if( s.boolean( ) ) {
			auto e = Exact<int>::from( v );
			f( e.data( ), e.data( ) + v.size( ) );
			v.assign( e.data( ), e.data( ) + v.size( ) );
		} else {
			std::deque<int> l( v.begin( ), v.end( ) );
			f( l.begin( ), l.end( ) );
			v.assign( l.begin( ), l.end( ) );
		}
	}

	// a predicate over small ints given by a bit mask, and its call log
	struct Pred {
		std::uint64_t mask;
		std::shared_ptr<V> log = std::make_shared<V>( );
		bool operator( )( int x ) const {
			log->push_back( x );
			return ( mask >> ( x & 63 ) ) & 1;
		}
		bool is( int x ) const {
			return ( mask >> ( x & 63 ) ) & 1;
		}
	};
	Pred pred( Src &s ) {
		switch( s.draw( 3 ) ) {
		case 0:
			return Pred{ 0 };
		case 1:
			return Pred{ ~std::uint64_t{ } };
		case 2:
			return Pred{ std::uint64_t{ 1 } << s.draw( 6 ) };
		default:
			return Pred{ s.integer<std::uint64_t>( ) };
		}
	}
	struct Bin {
		int m;
		std::shared_ptr<std::vector<std::pair<int, int>>> log = std::make_shared<std::vector<std::pair<int, int>>>( );
		bool operator( )( int a, int b ) const {
			log->emplace_back( a, b );
			return ( a - b + 600 ) % m == 0;
		}
	};
	// a strict weak order with ties and direction
	struct Less {
		int kind;
		bool operator( )( int a, int b ) const {
			switch( kind ) {
			case 0:
				return a < b;
			case 1:
				return a > b;
			default:
				return a / 2 < b / 2;
			}
		}
	};
	template<typename It>
	std::size_t at( It first, It pos ) {
		return std::size_t( std::distance( first, pos ) );
	}
	void nt( Src &s, std::size_t n, std::size_t p ) {
		if( n >= 2 and p > 0 and p < n ) {
			s.nontrivial( );
		}
	}
} // namespace

PROP( find_family, {} ) {
	V v = gen( s );
	V const orig = v;
	auto const n = v.size( );
	int const x = s.range<int>( 0, 6 );
	Pred p = pred( s );
	auto first_where = [&]( auto q ) { return std::size_t( std::find_if( orig.begin( ), orig.end( ), q ) - orig.begin( ) ); };
	auto want_p = first_where( [&]( int y ) { return p.is( y ); } );
	auto want_np = first_where( [&]( int y ) { return not p.is( y ); } );
	auto want_x = first_where( [&]( int y ) { return y == x; } );
	auto calls = [&]( std::size_t pos ) { return V( orig.begin( ), orig.begin( ) + long( std::min( pos + 1, n ) ) ); };
	nt( s, n, want_p );
	on( s, v, [&]( auto f, auto l ) {
		switch( s.draw( 12 ) ) {
		case 0:
			CHECK_EQ( at( f, A::find( f, l, x ) ), want_x );
			break;
		case 1:
			CHECK_EQ( at( f, A::find_if( f, l, p ) ), want_p );
			CHECK_EQ( *p.log, calls( want_p ) );
			break;
		case 2:
			CHECK_EQ( at( f, A::find_if_not( f, l, p ) ), want_np );
			CHECK_EQ( *p.log, calls( want_np ) );
			break;
		case 3:
			CHECK_EQ( at( f, A::find_first_of( f, l, p ) ), want_p );
			break;
		case 4: {
			V set = gen( s, 4 );
			auto e = Exact<int>::from( set );
			CHECK_EQ( at( f, A::find_first_of( f, l, e.data( ), e.data( ) + set.size( ) ) ),
			          std::size_t( std::find_first_of( orig.begin( ), orig.end( ), set.begin( ), set.end( ) ) - orig.begin( ) ) );
			break;
		}
		case 5: {
			CHECK_EQ( A::all_of( f, l, p ), std::all_of( orig.begin( ), orig.end( ), [&]( int y ) { return p.is( y ); } ) );
			CHECK_EQ( *p.log, calls( want_np ) );
			p.log->clear( );
			CHECK_EQ( A::any_of( f, l, p ), want_p != n );
			CHECK_EQ( *p.log, calls( want_p ) );
			p.log->clear( );
			CHECK_EQ( A::none_of( f, l, p ), want_p == n );
			CHECK_EQ( *p.log, calls( want_p ) );
			break;
		}
		case 6: {
			auto r = A::find_index( f, l, x );
			CHECK_EQ( r.has_value( ), want_x != n );
			CHECK_EQ( r.value_or( n ), want_x );
			auto q = A::find_index_if( f, l, p );
			CHECK_EQ( q.has_value( ), want_p != n );
			CHECK_EQ( q.value_or( n ), want_p );
			break;
		}
		case 7:
			CHECK_EQ( A::find_index_of( f, l, x ), want_x );
			CHECK_EQ( A::find_index_of_if( f, l, p ), want_p );
			break;
		case 8:
			CHECK_EQ( A::contains( f, l, x ), want_x != n );
			CHECK_EQ( A::contains( f, l, x, Less{ 0 } ), std::any_of( orig.begin( ), orig.end( ), [&]( int y ) { return y < x; } ) );
			CHECK_EQ( A::contains_if( f, l, p ), want_p != n );
			break;
		case 9: {
			CHECK_EQ( A::count_if( f, l, p ), std::size_t( std::count_if( orig.begin( ), orig.end( ), [&]( int y ) { return p.is( y ); } ) ) );
			CHECK_EQ( *p.log, orig );
			break;
		}
		case 10: {
			Pred q = pred( s );
			Pred r = pred( s );
			auto any = first_where( [&]( int y ) { return p.is( y ) or q.is( y ) or r.is( y ); } );
			auto res = A::find_some( f, l, p, q, r );
			CHECK_EQ( at( f, res.position ), any );
			if( any < n ) {
				CHECK_EQ( bool( res.results[0] ), p.is( orig[any] ) );
				CHECK_EQ( bool( res.results[1] ), q.is( orig[any] ) );
				CHECK_EQ( bool( res.results[2] ), r.is( orig[any] ) );
			} else {
				CHECK( not res.results[0] and not res.results[1] and not res.results[2] );
			}
			auto one = A::find_one_of( f, l, p, q, r );
			CHECK_EQ( at( f, one.position ), any );
			CHECK_EQ( one.index, any == n              ? std::size_t( -1 )
			                     : p.is( orig[any] ) ? std::size_t( 0 )
			                     : q.is( orig[any] ) ? std::size_t( 1 )
			                                         : std::size_t( 2 ) );
			break;
		}
		case 11: {
			auto g = []( int y ) { return 100 - y; };
			auto want = first_where( [&]( int y ) { return p.is( 100 - y ); } );
			auto r = A::find_transform( f, l, g, p );
			CHECK_EQ( bool( r ), want != n );
			if( want != n ) {
				CHECK_EQ( at( f, r.iterator ), want );
				CHECK_EQ( *r.value, 100 - orig[want] );
			}
			break;
		}
		default: {
			// the leading run of elements that satisfy the predicate
			auto last_of_run = A::find_last_of( f, l, p );
			CHECK_EQ( at( f, last_of_run ), want_np == 0 ? n : want_np - 1 );
			auto rg = A::find_first_range_of( f, l, p );
			CHECK_EQ( at( f, rg.first ), want_p );
			std::size_t e = want_p;
			while( e < n and p.is( orig[e] ) ) {
				++e;
			}
			CHECK_EQ( at( f, rg.second ), e );
		}
		}
	} );
	CHECK_EQ( v, orig );
}

PROP( adjacent_and_search, {} ) {
	V v = gen( s );
	V const orig = v;
	V pat;
	if( s.boolean( ) and not v.empty( ) ) {
		auto i = s.draw( v.size( ) );
		auto j = i + s.draw( v.size( ) - i );
		pat.assign( v.begin( ) + long( i ), v.begin( ) + long( j ) );
	} else {
		pat = gen( s, 4 );
	}
	Bin b{ s.range<int>( 1, 3 ) };
	on( s, v, [&]( auto f, auto l ) {
		if( s.boolean( ) ) {
			Bin m{ b.m };
			auto w = std::size_t( std::adjacent_find( orig.begin( ), orig.end( ), m ) - orig.begin( ) );
			nt( s, v.size( ), w );
			CHECK_EQ( at( f, A::adjacent_find( f, l, b ) ), w );
			CHECK( *b.log == *m.log );
		} else {
			auto e = Exact<int>::from( pat );
			auto w = std::size_t( std::search( orig.begin( ), orig.end( ), pat.begin( ), pat.end( ) ) - orig.begin( ) );
			nt( s, v.size( ), w );
			CHECK_EQ( at( f, A::search( f, l, e.data( ), e.data( ) + pat.size( ) ) ), w );
			auto w2 = std::size_t( std::search( orig.begin( ), orig.end( ), pat.begin( ), pat.end( ), b ) - orig.begin( ) );
			CHECK_EQ( at( f, A::search( f, l, e.data( ), e.data( ) + pat.size( ), b ) ), w2 );
		}
	} );
	CHECK_EQ( v, orig );
}

PROP( find_unsorted, {} ) {
	V v = gen( s );
	Less c{ s.range<int>( 0, 2 ) };
	std::size_t want = v.size( );
	for( std::size_t i = 0; i + 1 < v.size( ); ++i ) {
		if( c( v[i + 1], v[i] ) ) {
			want = i;
			break;
		}
	}
	nt( s, v.size( ), want );
	on_ra( s, v, [&]( auto f, auto l ) { CHECK_EQ( at( f, A::find_unsorted( f, l, c ) ), want ); } );
}

PROP( satisfies, {} ) {
	Pred p = pred( s ), q = pred( s ), r = pred( s );
	V v = gen( s );
	auto one = [&]( int x ) { return p.is( x ) or q.is( x ) or r.is( x ); };
	auto all = [&]( int x ) { return p.is( x ) and q.is( x ) and r.is( x ); };
	int const x = s.range<int>( 0, 6 );
	CHECK_EQ( A::satisfies_one( x, p, q, r ), one( x ) );
	CHECK_EQ( A::satisfies_all( x, p, q, r ), all( x ) );
	CHECK_EQ( A::satisfies_one( x, p ), p.is( x ) );
	CHECK_EQ( A::satisfies_all( x, q ), q.is( x ) );
	auto e = Exact<int>::from( v );
	bool const o = std::any_of( v.begin( ), v.end( ), one ), a = std::all_of( v.begin( ), v.end( ), all );
	if( v.size( ) > 1 and o != a ) {
		s.nontrivial( );
	}
	CHECK_EQ( A::satisfies_one( e.data( ), e.data( ) + v.size( ), p, q, r ), o );
	CHECK_EQ( A::satisfies_all( e.data( ), e.data( ) + v.size( ), p, q, r ), a );
}

PROP( value_predicates, {} ) {
	int const a = s.range<int>( -4, 4 ), b = s.range<int>( -4, 4 ), x = s.range<int>( -5, 5 );
	if( a != b and x != a ) {
		s.nontrivial( );
	}
	CHECK_EQ( A::equal_to( a )( x ), x == a );
	CHECK_EQ( A::less_than( a )( x ), x < a );
	CHECK_EQ( A::greater_than( a )( x ), x > a );
	CHECK_EQ( A::less_than_or_equal_to( a )( x ), x <= a );
	CHECK_EQ( A::greater_than_or_equal_to( a )( x ), x >= a );
	auto str = []( int i ) { return std::string( 20, char( 'm' + i ) ); };
	CHECK_EQ( A::less_than( str( a ) )( str( x ) ), x < a );
	CHECK_EQ( A::greater_than_or_equal_to( str( a ) )( str( x ) ), x >= a );
	if( a <= b ) {
		CHECK_EQ( A::in_range( a, b )( x ), a <= x and x <= b );
		CHECK_EQ( A::in_range( str( a ), str( b ) )( str( x ) ), a <= x and x <= b );
	} else {
		CHECK_THROWS( std::out_of_range, (void)A::in_range( a, b ) );
		CHECK_THROWS( std::out_of_range, (void)A::in_range( str( a ), str( b ) ) );
	}
	CHECK_EQ( A::clamp( x, a ), std::min( x, a ) );
}

PROP( comparisons, {} ) {
	V a = gen( s, 8 ), b = a;
	switch( s.draw( 3 ) ) {
	case 0:
		b = gen( s, 8 );
		break;
	case 1:
		if( not b.empty( ) ) {
			b[s.below( b.size( ) )] += s.range<int>( -1, 1 );
		}
		break;
	case 2:
		b.resize( s.draw( 9 ), 1 );
		break;
	default:
		break;
	}
	if( a.size( ) > 1 and b.size( ) > 1 and a != b and a[0] == b[0] ) {
		s.nontrivial( );
	}
	Less c{ s.range<int>( 0, 2 ) };
	auto eqv = [&]( int x, int y ) { return not c( x, y ) and not c( y, x ); };
	auto ea = Exact<int>::from( a );
	auto eb = Exact<int>::from( b );
	auto af = ea.data( ), al = af + a.size( ), bf = eb.data( ), bl = bf + b.size( );
	std::list<int> la( a.begin( ), a.end( ) );
	bool const eq = std::equal( a.begin( ), a.end( ), b.begin( ), b.end( ) );
	CHECK_EQ( A::equal( af, al, bf, bl ), eq );
	CHECK_EQ( A::equal( la.begin( ), la.end( ), bf, bl ), eq );
	CHECK_EQ( A::not_equal( af, al, bf, bl ), not eq );
	bool const eq2 = std::equal( a.begin( ), a.end( ), b.begin( ), b.end( ), eqv );
	CHECK_EQ( A::equal( af, al, bf, bl, eqv ), eq2 );
	CHECK_EQ( A::not_equal( af, al, bf, bl, [&]( int x, int y ) { return not eqv( x, y ); } ), not eq2 );
	if( a.size( ) <= b.size( ) ) {
		bool const e3 = std::equal( a.begin( ), a.end( ), b.begin( ) );
		CHECK_EQ( A::equal( af, al, bf ), e3 );
		CHECK_EQ( A::not_equal( af, al, bf ), not e3 );
	}
	CHECK_EQ( A::lexicographical_compare( af, al, bf, bl ), std::lexicographical_compare( a.begin( ), a.end( ), b.begin( ), b.end( ) ) );
	CHECK_EQ( A::lexicographical_compare( la.begin( ), la.end( ), bf, bl, c ), std::lexicographical_compare( a.begin( ), a.end( ), b.begin( ), b.end( ), c ) );
	CHECK_EQ( A::compare_range( af, al, bf, bl ), a < b ? -1 : a == b ? 0 : 1 );
	bool const lt = std::lexicographical_compare( a.begin( ), a.end( ), b.begin( ), b.end( ), c );
	CHECK_EQ( A::compare_range( af, al, bf, bl, c, eqv ), lt ? -1 : eq2 ? 0 : 1 );
	bool const same = std::adjacent_find( a.begin( ), a.end( ), std::not_equal_to<>{ } ) == a.end( );
	CHECK_EQ( A::all_equal<>{ }( af, al ), same );
	CHECK_EQ( A::all_equal<>{ }( la.begin( ), la.end( ) ), same );
}

PROP( few_values, {} ) {
	int v[5];
	for( int &x : v ) {
		x = s.range<int>( 0, 3 );
	}
	bool const e3 = v[0] == v[1] and v[1] == v[2], e4 = e3 and v[2] == v[3], e5 = e4 and v[3] == v[4];
	if( v[0] == v[1] ) {
		s.nontrivial( );
	}
	CHECK( A::are_equal( v[0] ) );
	CHECK_EQ( A::are_equal( v[0], v[1] ), v[0] == v[1] );
	CHECK_EQ( A::are_equal( v[0], v[1], v[2] ), e3 );
	CHECK_EQ( A::are_equal( v[0], v[1], v[2], v[3] ), e4 );
	CHECK_EQ( A::are_equal( v[0], v[1], v[2], v[3], v[4] ), e5 );
	CHECK_EQ( A::min_item( v[0], v[1], v[2], v[3], v[4] ), *std::min_element( v, v + 5 ) );
	CHECK_EQ( A::max_item( v[0], v[1], v[2], v[3], v[4] ), *std::max_element( v, v + 5 ) );
	CHECK_EQ( A::min_item( v[0], v[1] ), std::min( v[0], v[1] ) );
	CHECK_EQ( A::max_item( v[0], v[1] ), std::max( v[0], v[1] ) );
	Less c{ s.range<int>( 0, 2 ) };
	auto mm = A::minmax_item( v[0], v[1], c );
	auto sm = std::minmax( v[0], v[1], c );
	CHECK_EQ( mm.first, sm.first );
	CHECK_EQ( mm.second, sm.second );
	auto ms = A::minmax_item( std::to_string( v[0] ), std::to_string( v[1] ) );
	CHECK_EQ( ms.first, std::to_string( std::min( v[0], v[1] ) ) );
	CHECK_EQ( ms.second, std::to_string( std::max( v[0], v[1] ) ) );
	int a[2][3], b[2][3];
	for( int i = 0; i < 6; ++i ) {
		a[i / 3][i % 3] = s.range<int>( 0, 1 );
		b[i / 3][i % 3] = s.chance( 70 ) ? a[i / 3][i % 3] : s.range<int>( 0, 1 );
	}
	CHECK_EQ( daw::array_cmp( a, b ), std::equal( &a[0][0], &a[0][0] + 6, &b[0][0] ) );
	CHECK_EQ( daw::array_cmp( a[1], b[1] ), std::equal( a[1], a[1] + 3, b[1] ) );
	auto three = daw::array_cmp( a, b, []( int x, int y ) { return x <=> y; } );
	CHECK( three == std::lexicographical_compare_three_way( &a[0][0], &a[0][0] + 6, &b[0][0], &b[0][0] + 6 ) );
}

PROP( extremes, {} ) {
	V v = gen( s );
	V const o = v;
	Less c{ s.range<int>( 0, 2 ) };
	on( s, v, [&]( auto f, auto l ) {
		auto mx = std::size_t( std::max_element( o.begin( ), o.end( ), c ) - o.begin( ) );
		nt( s, o.size( ), mx );
		CHECK_EQ( at( f, A::max_element( f, l, c ) ), mx );
		auto r = A::minmax_element( f, l, c );
		auto w = std::minmax_element( o.begin( ), o.end( ), c );
		CHECK_EQ( at( f, r.min_element ), std::size_t( w.first - o.begin( ) ) );
		CHECK_EQ( at( f, r.max_element ), std::size_t( w.second - o.begin( ) ) );
		auto d = A::minmax_element( f, l );
		auto wd = std::minmax_element( o.begin( ), o.end( ) );
		CHECK_EQ( at( f, d.min_element ), std::size_t( wd.first - o.begin( ) ) );
		CHECK_EQ( at( f, d.max_element ), std::size_t( wd.second - o.begin( ) ) );
		CHECK_EQ( at( f, A::is_sorted_until( f, l, c ) ), std::size_t( std::is_sorted_until( o.begin( ), o.end( ), c ) - o.begin( ) ) );
		CHECK_EQ( A::is_sorted( f, l, c ), std::is_sorted( o.begin( ), o.end( ), c ) );
		CHECK_EQ( A::is_sorted( f, l ), std::is_sorted( o.begin( ), o.end( ) ) );
	} );
	auto b = v;
	CHECK_EQ( daw::container::max_element( b ) - b.begin( ), std::max_element( o.begin( ), o.end( ) ) - o.begin( ) );
	CHECK_EQ( daw::container::max_element( o ) - o.begin( ), std::max_element( o.begin( ), o.end( ) ) - o.begin( ) );
	CHECK_EQ( daw::container::max_element( b, c ) - b.begin( ), std::max_element( o.begin( ), o.end( ), c ) - o.begin( ) );
	CHECK_EQ( daw::container::max_element( o, c ) - o.begin( ), std::max_element( o.begin( ), o.end( ), c ) - o.begin( ) );
}

PROP( is_sorted_sizes, {} ) {
	// mostly sorted ranges with at most one disturbance
	V v = gen_sorted( s );
	if( v.size( ) > 1 and s.boolean( ) ) {
		auto i = s.below( v.size( ) - 1 );
		std::swap( v[i], v[i + 1] );
	}
	V const o = v;
	on( s, v, [&]( auto f, auto l ) {
		auto w = std::size_t( std::is_sorted_until( o.begin( ), o.end( ) ) - o.begin( ) );
		nt( s, o.size( ), w );
		CHECK_EQ( at( f, A::is_sorted_until( f, l ) ), w );
		CHECK_EQ( A::is_sorted( f, l ), w == o.size( ) );
	} );
}

PROP( sorted_search, {} ) {
	Less c{ s.range<int>( 0, 2 ) };
	V v = gen( s, 14 );
	std::stable_sort( v.begin( ), v.end( ), c );
	V const o = v;
	int const x = s.range<int>( -1, 8 );
	auto lo = std::size_t( std::lower_bound( o.begin( ), o.end( ), x, c ) - o.begin( ) );
	auto hi = std::size_t( std::upper_bound( o.begin( ), o.end( ), x, c ) - o.begin( ) );
	nt( s, o.size( ), lo );
	on( s, v, [&]( auto f, auto l ) {
		CHECK_EQ( at( f, A::lower_bound( f, l, x, c ) ), lo );
		CHECK_EQ( at( f, A::upper_bound( f, l, x, c ) ), hi );
	} );
	if( not v.empty( ) ) {
		on_ra( s, v, [&]( auto f, auto l ) {
			auto r = A::binary_search( f, l, x, c );
			if( lo == hi ) {
				CHECK( r == l );
			} else {
				CHECK( at( f, r ) >= lo and at( f, r ) < hi );
			}
		} );
	}
	V b = gen_sorted( s );
	V a = v;
	std::sort( a.begin( ), a.end( ), c );
	std::sort( b.begin( ), b.end( ), c );
	V want;
	std::set_intersection( a.begin( ), a.end( ), b.begin( ), b.end( ), std::back_inserter( want ), c );
	Exact<int> out( want.size( ) );
	on( s, a, [&]( auto f, auto l ) {
		auto eb = Exact<int>::from( b );
		auto e = A::set_intersection( f, l, eb.data( ), eb.data( ) + b.size( ), out.data( ), c );
		CHECK_EQ( std::size_t( e - out.data( ) ), want.size( ) );
	} );
	CHECK( std::equal( want.begin( ), want.end( ), out.data( ) ) );
}

PROP( producing, {} ) {
	V v = gen( s );
	V const o = v;
	auto const n = v.size( );
	Pred p = pred( s );
	if( n > 1 ) {
		s.nontrivial( );
	}
	V log;
	auto op = [&]( int x ) {
		log.push_back( x );
		return x * 3 - 7;
	};
	V mapped, kept, kept_mapped;
	for( int x : o ) {
		mapped.push_back( x * 3 - 7 );
		if( p.is( x ) ) {
			kept.push_back( x );
			kept_mapped.push_back( x * 3 - 7 );
		}
	}
	auto to = [&]( V const &want, auto run ) {
		Exact<int> out( want.size( ) );
		int *e = run( out.data( ) );
		CHECK_EQ( std::size_t( e - out.data( ) ), want.size( ) );
		CHECK_EQ( V( out.data( ), out.data( ) + want.size( ) ), want );
	};
	on( s, v, [&]( auto f, auto l ) {
		switch( s.draw( 15 ) ) {
		case 0:
			to( o, [&]( int *out ) { return A::copy( f, l, out ); } );
			break;
		case 1: {
			auto k = s.draw( n );
			to( V( o.begin( ), o.begin( ) + long( k ) ), [&]( int *out ) {
				auto r = A::copy_n( f, out, k );
				CHECK_EQ( at( f, r.input ), k );
				return r.output;
			} );
			break;
		}
		case 2:
			to( kept, [&]( int *out ) { return A::copy_if( f, l, out, p ); } );
			CHECK_EQ( *p.log, o );
			break;
		case 3:
			to( mapped, [&]( int *out ) { return A::transform( f, l, out, op ); } );
			CHECK_EQ( log, o );
			break;
		case 4: {
			auto k = s.draw( n );
			to( V( mapped.begin( ), mapped.begin( ) + long( k ) ), [&]( int *out ) {
				auto r = A::transform_n( f, out, k, op );
				CHECK_EQ( at( f, r.input ), k );
				return r.output;
			} );
			CHECK_EQ( log, V( o.begin( ), o.begin( ) + long( k ) ) );
			break;
		}
		case 5: {
			V twice;
			for( int x : o ) {
				twice.insert( twice.end( ), std::size_t( x % 3 ), x );
			}
			to( twice, [&]( int *out ) {
				return A::transform_it( f, l, out, []( int x, int *d ) {
					for( int i = 0; i < x % 3; ++i ) {
						*d++ = x;
					}
					return d;
				} );
			} );
			break;
		}
		case 6:
			to( kept_mapped, [&]( int *out ) { return A::transform_if( f, l, out, p, op ); } );
			CHECK_EQ( log, kept );
			CHECK_EQ( *p.log, o );
			break;
		case 7:
			to( mapped, [&]( int *out ) { return A::map( f, l, out, op ); } );
			CHECK_EQ( log, o );
			break;
		case 8: {
			V b = gen( s );
			b.resize( n );
			auto eb = Exact<int>::from( b );
			V w;
			for( std::size_t i = 0; i < n; ++i ) {
				w.push_back( o[i] * 10 + b[i] );
			}
			to( w, [&]( int *out ) { return A::map( f, l, eb.data( ), out, []( int x, int y ) { return x * 10 + y; } ); } );
			to( w, [&]( int *out ) { return A::cartesian_product_map( []( int x, int y ) { return x * 10 + y; }, f, l, out, eb.data( ) ); } );
			to( w, [&]( int *out ) { return A::transform_many( f, l, eb.data( ), out, []( int x, int y ) { return x * 10 + y; } ); } );
			{ // three and four ranges side by side
				V b3 = gen( s ), b4 = gen( s );
				b3.resize( n );
				b4.resize( n );
				auto e3 = Exact<int>::from( b3 ), e4 = Exact<int>::from( b4 );
				auto g = []( auto... x ) { int r = 0; ( ( r = r * 100 + x ), ... ); return r; };
				V w3, w4;
				for( std::size_t i = 0; i < n; ++i ) {
					w3.push_back( g( o[i], b[i], b3[i] ) );
					w4.push_back( g( o[i], b[i], b3[i], b4[i] ) );
				}
				to( w3, [&]( int *out ) { return A::transform_many( f, l, eb.data( ), e3.data( ), out, g ); } );
				to( w4, [&]( int *out ) { return A::transform_many( f, l, eb.data( ), e3.data( ), e4.data( ), out, g ); } );
				to( w3, [&]( int *out ) { return A::cartesian_product_map( g, f, l, out, eb.data( ), e3.data( ) ); } );
			}
			V seen;
			A::cartesian_product( [&]( int x, int y ) { seen.push_back( x * 10 + y ); }, f, l, eb.data( ) );
			CHECK_EQ( seen, w );
			break;
		}
		case 9: {
			V w( n );
			std::partial_sum( o.begin( ), o.end( ), w.begin( ) );
			to( w, [&]( int *out ) { return A::partial_sum( f, l, out ); } );
			auto g = []( int x, int y ) { return x % 1000 * 2 - y; };
			std::partial_sum( o.begin( ), o.end( ), w.begin( ), g );
			to( w, [&]( int *out ) { return A::partial_sum( f, l, out, g ); } );
			break;
		}
		case 10: {
			V w;
			for( int x : o ) {
				w.push_back( int( static_cast<signed char>( x * 37 ) ) );
			}
			for( int &x : v ) {
				x *= 37;
			}
			auto e = Exact<int>::from( v );
			to( w, [&]( int *out ) { return A::convert_copy<signed char>( e.data( ), e.data( ) + n, out ); } );
			auto k = s.draw( n );
			w.resize( k );
			to( w, [&]( int *out ) { return A::convert_copy_n<signed char>( e.data( ), out, k ); } );
			v = o;
			break;
		}
		case 11: {
			auto init = s.range<long>( -5, 5 );
			auto g = []( long x, int y ) { return x % 1000 * 3 + y; };
			CHECK_EQ( A::accumulate( f, l, init ), std::accumulate( o.begin( ), o.end( ), init ) );
			CHECK_EQ( A::accumulate( f, l, init, g ), std::accumulate( o.begin( ), o.end( ), init, g ) );
			CHECK_EQ( A::reduce( f, l, init, g ), std::accumulate( o.begin( ), o.end( ), init, g ) );
			V b = gen( s );
			b.resize( n );
			auto eb = Exact<int>::from( b );
			long w = init;
			for( std::size_t i = 0; i < n; ++i ) {
				w = w % 1000 * 3 + ( o[i] * 7 - b[i] );
			}
			CHECK_EQ( A::map_reduce( f, l, eb.data( ), init, g, []( int x, int y ) { return x * 7 - y; } ), w );
			break;
		}
		case 12: {
			V seen;
			A::for_each_if( f, l, p, [&]( int x ) { seen.push_back( x ); } );
			CHECK_EQ( seen, kept );
			CHECK_EQ( *p.log, o );
			break;
		}
		case 13: {
			std::vector<std::string> strs;
			std::string all = "start";
			for( int x : o ) {
				strs.push_back( "element number " + std::to_string( x ) );
				all += strs.back( );
			}
			CHECK_EQ( A::accumulate( strs.begin( ), strs.end( ), std::string( "start" ) ), all );
			CHECK_EQ( A::accumulate( strs.begin( ), strs.end( ), std::string( "start" ), std::plus<>{ } ), all );
			std::vector<std::string> ps( strs.size( ) ), want( strs.size( ) );
			A::partial_sum( strs.begin( ), strs.end( ), ps.begin( ) );
			std::partial_sum( strs.begin( ), strs.end( ), want.begin( ) );
			CHECK( ps == want );
			break;
		}
		case 14: {
			auto src = o;
			std::vector<std::string> strs;
			for( int x : o ) {
				strs.push_back( "element number " + std::to_string( x ) );
			}
			auto const want = strs;
			std::vector<std::string> out( n );
			if( s.boolean( ) ) {
				CHECK( A::move( strs.begin( ), strs.end( ), out.begin( ) ) == out.end( ) );
				CHECK( out == want );
				for( auto const &q : strs ) {
					CHECK( q.empty( ) );
				}
			} else {
				auto k = s.draw( n );
				auto r = A::move_n( strs.begin( ), out.begin( ), k );
				CHECK( r.input == strs.begin( ) + long( k ) and r.output == out.begin( ) + long( k ) );
				for( std::size_t i = 0; i < n; ++i ) {
					CHECK_EQ( out[i], i < k ? want[i] : std::string{ } );
					CHECK_EQ( strs[i], i < k ? std::string{ } : want[i] );
				}
			}
			break;
		}
		default: {
			auto b = o;
			auto k = s.draw( n );
			auto e = Exact<int>::from( b );
			CHECK( A::fill_n( e.data( ), k, 77 ) == e.data( ) + k );
			std::fill_n( b.begin( ), k, 77 );
			CHECK_EQ( V( e.data( ), e.data( ) + n ), b );
			A::fill( e.data( ) + k, e.data( ) + n, 78 );
			std::fill( b.begin( ) + long( k ), b.end( ), 78 );
			CHECK_EQ( V( e.data( ), e.data( ) + n ), b );
			A::iota( e.data( ), e.data( ) + n, int( k ) );
			std::iota( b.begin( ), b.end( ), int( k ) );
			CHECK_EQ( V( e.data( ), e.data( ) + n ), b );
			A::iota( e.data( ), e.data( ) + n, int( k ), []( int &d, int x ) { d = -x; } );
			for( int &x : b ) {
				x = -x;
			}
			CHECK_EQ( V( e.data( ), e.data( ) + n ), b );
		}
		}
	} );
	CHECK_EQ( v, o );
}

PROP( rearranging, {} ) {
	V v = gen( s );
	V const o = v;
	V w = o;
	auto const n = v.size( );
	Pred p = pred( s );
	int const x = s.range<int>( 0, 4 );
	auto is = [&]( int y ) { return p.is( y ); };
	if( n > 2 ) {
		s.nontrivial( );
	}
	switch( s.draw( 8 ) ) {
	case 0:
		on( s, v, [&]( auto f, auto l ) { A::reverse( f, l ); } );
		std::reverse( w.begin( ), w.end( ) );
		CHECK_EQ( v, w );
		break;
	case 1: {
		std::size_t k = 0;
		on( s, v, [&]( auto f, auto l ) { k = at( f, A::remove( f, l, x ) ); } );
		CHECK_EQ( k, std::size_t( std::remove( w.begin( ), w.end( ), x ) - w.begin( ) ) );
		v.resize( k );
		w.resize( k );
		CHECK_EQ( v, w );
		break;
	}
	case 2: {
		std::size_t k = 0;
		bool const consume = s.boolean( );
		on( s, v, [&]( auto f, auto l ) { k = at( f, consume ? A::consume_if( f, l, p, []( int ) {} ) : A::remove_if( f, l, p ) ); } );
		CHECK_EQ( k, std::size_t( std::remove_if( w.begin( ), w.end( ), is ) - w.begin( ) ) );
		v.resize( k );
		w.resize( k );
		CHECK_EQ( v, w );
		CHECK_EQ( *p.log, o );
		break;
	}
	case 3: {
		auto m = s.draw( n );
		on( s, v, [&]( auto f, auto l ) {
			auto r = A::rotate( f, std::next( f, long( m ) ), l );
			CHECK_EQ( at( f, r ), n - m );
		} );
		std::rotate( w.begin( ), w.begin( ) + long( m ), w.end( ) );
		CHECK_EQ( v, w );
		break;
	}
	case 4: {
		// move the block [i, j) to t
		auto i = s.draw( n ), j = i + s.draw( n - i ), t = s.draw( n );
		on_ra( s, v, [&]( auto f, auto ) {
			auto r = A::slide( f + long( i ), f + long( j ), f + long( t ) );
			std::size_t b = t < i ? t : j < t ? t - ( j - i ) : i;
			CHECK_EQ( at( f, r.first ), b );
			CHECK_EQ( at( f, r.second ), b + ( j - i ) );
		} );
		if( t < i ) {
			std::rotate( w.begin( ) + long( t ), w.begin( ) + long( i ), w.begin( ) + long( j ) );
		} else if( j < t ) {
			std::rotate( w.begin( ) + long( i ), w.begin( ) + long( j ), w.begin( ) + long( t ) );
		}
		CHECK_EQ( v, w );
		break;
	}
	case 5: {
		auto t = s.draw( n );
		auto a = std::stable_partition( w.begin( ), w.begin( ) + long( t ), [&]( int y ) { return not p.is( y ); } );
		auto b = std::stable_partition( w.begin( ) + long( t ), w.end( ), is );
		on_ra( s, v, [&]( auto f, auto l ) {
			auto r = A::gather( f, l, f + long( t ), p );
			CHECK_EQ( at( f, r.first ), std::size_t( a - w.begin( ) ) );
			CHECK_EQ( at( f, r.second ), std::size_t( b - w.begin( ) ) );
		} );
		CHECK_EQ( v, w );
		break;
	}
	case 6: {
		on( s, v, [&]( auto f, auto l ) {
			auto k = at( f, A::partition( f, l, p ) );
			CHECK_EQ( k, std::size_t( std::count_if( o.begin( ), o.end( ), is ) ) );
			std::size_t i = 0;
			for( auto it = f; it != l; ++it, ++i ) {
				CHECK_EQ( p.is( *it ), i < k );
			}
		} );
		CHECK_EQ( p.log->size( ), n );
		CHECK( std::is_permutation( v.begin( ), v.end( ), o.begin( ), o.end( ) ) );
		break;
	}
	case 7: {
		Less c{ s.range<int>( 0, 2 ) };
		auto k = s.draw( n );
		on_ra( s, v, [&]( auto f, auto l ) { A::nth_element( f, f + long( k ), l, c ); } );
		CHECK( std::is_permutation( v.begin( ), v.end( ), o.begin( ), o.end( ) ) );
		if( k == n ) {
			CHECK_EQ( v, o );
			break;
		}
		std::sort( w.begin( ), w.end( ), c );
		CHECK( not c( v[k], w[k] ) and not c( w[k], v[k] ) );
		for( std::size_t i = 0; i < n; ++i ) {
			CHECK( i < k ? not c( v[k], v[i] ) : not c( v[i], v[k] ) );
		}
		break;
	}
	default: {
		std::vector<std::string> a;
		for( int y : o ) {
			a.push_back( "a fairly long string " + std::to_string( y ) );
		}
		auto b = a;
		auto q = [&]( std::string const &t ) { return p.is( std::stoi( t.substr( 21 ) ) ); };
		auto m = long( s.draw( n ) );
		switch( s.draw( 3 ) ) {
		case 0:
			A::reverse( a.begin( ), a.end( ) );
			std::reverse( b.begin( ), b.end( ) );
			break;
		case 1:
			A::rotate( a.begin( ), a.begin( ) + m, a.end( ) );
			std::rotate( b.begin( ), b.begin( ) + m, b.end( ) );
			break;
		case 2:
			a.erase( A::remove_if( a.begin( ), a.end( ), q ), a.end( ) );
			b.erase( std::remove_if( b.begin( ), b.end( ), q ), b.end( ) );
			break;
		default:
			a.erase( A::remove( a.begin( ), a.end( ), "a fairly long string 1" ), a.end( ) );
			b.erase( std::remove( b.begin( ), b.end( ), "a fairly long string 1" ), b.end( ) );
		}
		CHECK( a == b );
	}
	}
}

PROP( iterator_movement, {} ) {
	V v = gen( s );
	auto const n = long( v.size( ) );
	auto clampl = []( long x, long lo, long hi ) { return std::max( lo, std::min( x, hi ) ); };
	auto dist = [&] { return s.chance( 15 ) ? s.pick<long>( { 1000, -1000, 1L << 40, -( 1L << 40 ), LONG_MAX - 1000, LONG_MIN + 1000 } ) : s.range<long>( -14, 14 ); };
	long const p = s.range<long>( 0, n );
	long const d = dist( );
	if( n > 1 and ( p + d < 0 or p + d > n ) ) {
		s.nontrivial( );
	}
	auto e = Exact<int>::from( v );
	std::list<int> l( v.begin( ), v.end( ) );
	std::vector<int> const cv = v;
	{
		auto it = v.begin( ) + p;
		daw::safe_advance( v, it, d );
		CHECK_EQ( it - v.begin( ), clampl( p + d, 0, n ) );
		auto ci = cv.begin( ) + p;
		daw::safe_advance( cv, ci, d );
		CHECK_EQ( ci - cv.begin( ), clampl( p + d, 0, n ) );
		auto li = std::next( l.begin( ), p );
		daw::safe_advance( l, li, d );
		CHECK_EQ( std::distance( l.begin( ), li ), clampl( p + d, 0, n ) );
	}
	if( d >= 0 ) {
		CHECK_EQ( daw::safe_next( e.data( ) + p, e.data( ) + n, std::size_t( d ) ) - e.data( ), clampl( p + d, 0, n ) );
		CHECK_EQ( std::distance( l.begin( ), daw::safe_next( std::next( l.begin( ), p ), l.end( ), d ) ), clampl( p + d, 0, n ) );
		CHECK_EQ( daw::safe_prev( e.data( ) + p, e.data( ), std::size_t( d ) ) - e.data( ), clampl( p - d, 0, n ) );
		CHECK_EQ( std::distance( l.begin( ), daw::safe_prev( std::next( l.begin( ), p ), l.begin( ), d ) ), clampl( p - d, 0, n ) );
		CHECK_EQ( daw::begin_at( v, std::size_t( d ) ) - v.begin( ), clampl( d, 0, n ) );
		CHECK_EQ( daw::begin_at( cv, std::size_t( d ) ) - cv.begin( ), clampl( d, 0, n ) );
		CHECK_EQ( std::distance( l.begin( ), daw::begin_at( l, std::size_t( d ) ) ), clampl( d, 0, n ) );
	}
	{ // distances no range has
		auto const far = s.pick<std::size_t>( { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2 + 1, SIZE_MAX / 2 } );
		CHECK( daw::safe_next( e.data( ) + p, e.data( ) + n, far ) == e.data( ) + n );
		CHECK( daw::safe_prev( e.data( ) + p, e.data( ), far ) == e.data( ) );
		CHECK( daw::safe_next( std::next( l.begin( ), p ), l.end( ), far ) == l.end( ) );
		CHECK( daw::safe_prev( std::next( l.begin( ), p ), l.begin( ), far ) == l.begin( ) );
		CHECK( daw::begin_at( v, far ) == v.end( ) );
		CHECK( daw::begin_at( cv, far ) == cv.end( ) );
		CHECK( daw::begin_at( l, far ) == l.end( ) );
		auto it = v.begin( ) + p;
		daw::safe_advance( v, it, far );
		CHECK( it == v.end( ) );
		it = v.begin( ) + p;
		daw::safe_advance( v, it, PTRDIFF_MIN );
		CHECK( it == v.begin( ) );
		it = v.begin( ) + p;
		daw::safe_advance( v, it, static_cast<signed char>( -1 ) );
		CHECK_EQ( it - v.begin( ), clampl( p - 1, 0, n ) );
		it = v.begin( ) + p;
		daw::safe_advance( v, it, static_cast<unsigned char>( 255 ) );
		CHECK_EQ( it - v.begin( ), clampl( p + 255, 0, n ) );
	}
	CHECK_EQ( daw::safe_next( e.data( ) + p, e.data( ) + n ) - e.data( ), clampl( p + 1, 0, n ) );
	CHECK_EQ( daw::safe_prev( e.data( ) + p, e.data( ) ) - e.data( ), clampl( p - 1, 0, n ) );
	long const q = s.range<long>( 0, n );
	auto a = e.data( ) + p;
	auto b = l.begin( );
	auto c = v.begin( );
	std::advance( b, p );
	c += p;
	daw::advance_many( q - p, a, b, c );
	CHECK_EQ( a - e.data( ), q );
	CHECK_EQ( std::distance( l.begin( ), b ), q );
	CHECK_EQ( c - v.begin( ), q );
}

PROP( splitting, {} ) {
	V v = gen( s );
	int const x = s.range<int>( 0, 3 );
	V const o = v;
	std::vector<V> want( 1 );
	for( int y : o ) {
		if( y == x ) {
			want.emplace_back( );
		} else {
			want.back( ).push_back( y );
		}
	}
	if( want.size( ) > 1 ) {
		s.nontrivial( );
	}
	on( s, v, [&]( auto f, auto l ) {
		auto r = A::split( f, l, x );
		if( not o.empty( ) ) {
			CHECK( r == want );
		}
	} );
	std::size_t const cnt = s.range<std::size_t>( 1, 6 );
	on_ra( s, v, [&]( auto f, auto l ) {
		auto check = [&]( auto const &parts, std::size_t min ) {
			CHECK_EQ( parts.size( ), cnt );
			V all;
			std::size_t const sz = std::max( o.size( ) / cnt, min );
			for( std::size_t i = 0; i < parts.size( ); ++i ) {
				std::size_t k = 0;
				for( auto it = parts[i].begin( ); it != parts[i].end( ); ++it, ++k ) {
					all.push_back( *it );
				}
				if( i + 1 < cnt ) {
					CHECK_EQ( k, std::min( sz, o.size( ) - ( all.size( ) - k ) ) );
				}
			}
			CHECK_EQ( all, o );
		};
		check( A::partition_range( f, l, cnt ), 1 );
		check( A::partition_range<3>( f, l, cnt ), 3 );
		check( A::partition_range( daw::view( f, l ), cnt ), 1 );
	} );
}

PROP( node_moving, {} ) {
	V v = gen( s ), u = gen( s, 4 );
	Pred p = pred( s );
	int const k = s.range<int>( 0, 4 );
	auto run = [&]( auto from, bool all_of_key ) {
		using C = decltype( from );
		from.insert( v.begin( ), v.end( ) );
		std::multiset<int> f( from.begin( ), from.end( ) );
		C to( u.begin( ), u.end( ) );
		std::multiset<int> t( to.begin( ), to.end( ) );
		bool const uniq = std::is_same_v<C, std::set<int>>;
		auto mv = [&]( int x ) {
			f.erase( f.find( x ) );
			if( not uniq or not t.count( x ) ) {
				t.insert( x );
			}
		};
		V todo;
		switch( s.draw( 2 ) ) {
		case 0:
			A::extract_to( from, to, k );
			for( int x : f ) {
				if( x == k ) {
					todo.push_back( x );
				}
			}
			(void)all_of_key;
			break;
		case 1:
			A::extract_all( from, to );
			todo.assign( f.begin( ), f.end( ) );
			break;
		default:
			A::extract_matching( from, to, p );
			for( int x : f ) {
				if( p.is( x ) ) {
					todo.push_back( x );
				}
			}
		}
		for( int x : todo ) {
			mv( x );
		}
		if( not todo.empty( ) and not f.empty( ) ) {
			s.nontrivial( );
		}
		CHECK_EQ( V( from.begin( ), from.end( ) ), V( f.begin( ), f.end( ) ) );
		CHECK_EQ( V( to.begin( ), to.end( ) ), V( t.begin( ), t.end( ) ) );
	};
	if( s.boolean( ) ) {
		run( std::multiset<int>{ }, true );
	} else {
		run( std::set<int>{ }, false );
	}
	std::map<int, std::string> m;
	for( int x : v ) {
		m[x] = std::to_string( x );
	}
	auto r = daw::try_get( m, k );
	CHECK_EQ( r.has_value( ), m.count( k ) == 1 );
	if( r ) {
		CHECK_EQ( r->first, k );
		CHECK_EQ( r->second, std::to_string( k ) );
	}
	auto const &cm = m;
	CHECK_EQ( daw::try_get( cm, k ).has_value( ), m.count( k ) == 1 );
}

PROP( container_algorithms, {} ) {
	namespace C = daw::container;
	V v = gen( s );
	V const o = v;
	V w = o;
	Pred p = pred( s );
	auto is = [&]( int y ) { return p.is( y ); };
	int const x = s.range<int>( 0, 4 );
	Less c{ s.range<int>( 0, 2 ) };
	if( v.size( ) > 1 ) {
		s.nontrivial( );
	}
	switch( s.draw( 11 ) ) {
	case 0:
		C::sort( v );
		std::sort( w.begin( ), w.end( ) );
		CHECK_EQ( v, w );
		v = o;
		C::sort( v, c );
		CHECK( std::is_sorted( v.begin( ), v.end( ), c ) );
		CHECK( std::is_permutation( v.begin( ), v.end( ), o.begin( ), o.end( ) ) );
		break;
	case 1:
		C::stable_sort( v, c );
		std::stable_sort( w.begin( ), w.end( ), c );
		CHECK_EQ( v, w );
		C::stable_sort( v );
		std::stable_sort( w.begin( ), w.end( ) );
		CHECK_EQ( v, w );
		break;
	case 2:
		CHECK_EQ( C::find( v, x ) - v.begin( ), std::find( o.begin( ), o.end( ), x ) - o.begin( ) );
		CHECK_EQ( C::find( o, x ) - o.begin( ), std::find( o.begin( ), o.end( ), x ) - o.begin( ) );
		CHECK_EQ( C::find_if( v, p ) - v.begin( ), std::find_if( o.begin( ), o.end( ), is ) - o.begin( ) );
		CHECK_EQ( C::contains( o, x ), std::find( o.begin( ), o.end( ), x ) != o.end( ) );
		CHECK_EQ( C::contains( o, p ), std::find_if( o.begin( ), o.end( ), is ) != o.end( ) );
		CHECK_EQ( C::container_size( v ), o.size( ) );
		break;
	case 3:
		C::erase_remove( v, x );
		std::erase( w, x );
		CHECK_EQ( v, w );
		break;
	case 4:
		C::erase_remove_if( v, p );
		std::erase_if( w, is );
		CHECK_EQ( v, w );
		break;
	case 5: {
		auto r = C::partition( v, p ) - v.begin( );
		CHECK_EQ( r, std::count_if( o.begin( ), o.end( ), is ) );
		CHECK( std::all_of( v.begin( ), v.begin( ) + r, is ) and std::none_of( v.begin( ) + r, v.end( ), is ) );
		CHECK( std::is_permutation( v.begin( ), v.end( ), o.begin( ), o.end( ) ) );
		v = o;
		auto q = C::stable_partition( v, p ) - v.begin( );
		CHECK_EQ( q, std::stable_partition( w.begin( ), w.end( ), is ) - w.begin( ) );
		CHECK_EQ( v, w );
		break;
	}
	case 6: {
		auto g = []( int a, int b ) { return a % 1000 * 3 - b; };
		CHECK_EQ( C::accumulate( v, x ), std::accumulate( o.begin( ), o.end( ), x ) );
		CHECK_EQ( C::accumulate( v, x, g ), std::accumulate( o.begin( ), o.end( ), x, g ) );
		break;
	}
	case 7: {
		auto g = []( int a ) { return a * 3 - 1; };
		std::transform( w.begin( ), w.end( ), w.begin( ), g );
		auto e = Exact<int>( o.size( ) );
		int *d = e.data( );
		CHECK( C::transform( o, d, g ) == e.data( ) + o.size( ) );
		CHECK_EQ( V( e.data( ), e.data( ) + o.size( ) ), w );
		V out;
		C::transform( o, std::back_inserter( out ), g );
		CHECK_EQ( out, w );
		CHECK( C::transform( v, g ) == v.end( ) );
		CHECK_EQ( v, w );
		break;
	}
	case 8: {
		Exact<int> e( o.size( ) );
		C::copy( o, e.data( ) );
		CHECK_EQ( V( e.data( ), e.data( ) + o.size( ) ), o );
		auto k = s.draw( o.size( ) + 2 );
		auto m = std::min( k, o.size( ) );
		Exact<int> h( m );
		C::copy_n( o, k, h.data( ) );
		CHECK_EQ( V( h.data( ), h.data( ) + m ), V( o.begin( ), o.begin( ) + long( m ) ) );
		V kept;
		std::copy_if( o.begin( ), o.end( ), std::back_inserter( kept ), is );
		Exact<int> i( kept.size( ) );
		CHECK( C::copy_if( o, i.data( ), p ) == i.data( ) + kept.size( ) );
		CHECK_EQ( V( i.data( ), i.data( ) + kept.size( ) ), kept );
		break;
	}
	case 9: {
		std::vector<std::pair<int, std::size_t>> seen, want;
		auto a = s.draw( o.size( ) ), b = a + s.draw( o.size( ) - a );
		C::for_each_with_pos( v, a, b, [&]( int y, std::size_t i ) { seen.emplace_back( y, i ); } );
		for( auto i = a; i < b; ++i ) {
			want.emplace_back( o[i], i );
		}
		CHECK( seen == want );
		seen.clear( );
		want.clear( );
		C::for_each_with_pos( v, [&]( int y, std::size_t i ) { seen.emplace_back( y, i ); } );
		for( std::size_t i = 0; i < o.size( ); ++i ) {
			want.emplace_back( o[i], i );
		}
		CHECK( seen == want );
		break;
	}
	case 10: {
		std::vector<std::size_t> seen, want;
		auto a = s.draw( 6 ), b = s.draw( 6 );
		C::for_each_subset( v, a, b, [&]( V const &c2, std::size_t i ) {
			CHECK( &c2 == &v );
			seen.push_back( i );
		} );
		for( auto i = a; i < b; ++i ) {
			want.push_back( i );
		}
		CHECK( seen == want );
		break;
	}
	default: {
		V b = gen( s );
		C::append( b, v );
		w.insert( w.end( ), b.begin( ), b.end( ) );
		CHECK_EQ( v, w );
		V seen;
		for( int y : A::reverse( v ) ) {
			seen.push_back( y );
		}
		CHECK_EQ( seen, V( w.rbegin( ), w.rend( ) ) );
	}
	}
}

namespace {
	template<std::size_t N, daw::keep_n_order Ord>
	void keep( Src &s ) {
		std::string const dflt = Ord == daw::keep_n_order::ascending ? "z" : "";
		daw::keep_n<std::string, N, Ord> k( dflt );
		std::vector<std::string> all( N, dflt );
		auto const n = s.draw( 2 * N + 2 );
		if( n > N ) {
			s.nontrivial( );
		}
		for( std::size_t i = 0; i < n; ++i ) {
			std::string v( 1 + s.draw( 20 ), char( 'a' + s.draw( 5 ) ) );
			if( s.chance( 1, 5 ) ) { // one of the values kept
				auto const at = s.below( N );
				all.push_back( k[at] );
				k.insert( k[at] );
			} else if( all.push_back( v ); s.boolean( ) ) {
				k.insert( v );
			} else {
				k.insert( std::move( v ) );
			}
			if( Ord == daw::keep_n_order::ascending ) {
				std::sort( all.begin( ), all.end( ) );
			} else {
				std::sort( all.begin( ), all.end( ), std::greater<>{ } );
			}
			CHECK( std::equal( k.begin( ), k.end( ), all.begin( ), all.begin( ) + long( N ) ) );
		}
		CHECK_EQ( k.size( ), N );
		CHECK_EQ( k.front( ), all[0] );
		CHECK_EQ( k.back( ), all[N - 1] );
		CHECK_EQ( k[N / 2], all[N / 2] );
	}
	struct Pod {
		int a = 5;
		std::string b = "default string that is long";
		bool operator==( Pod const & ) const = default;
	};
} // namespace

PROP( keep_n, {} ) {
	switch( s.draw( 5 ) ) {
	case 0:
		return keep<1, daw::keep_n_order::ascending>( s );
	case 1:
		return keep<2, daw::keep_n_order::ascending>( s );
	case 2:
		return keep<5, daw::keep_n_order::ascending>( s );
	case 3:
		return keep<1, daw::keep_n_order::descending>( s );
	case 4:
		return keep<3, daw::keep_n_order::descending>( s );
	default:
		return keep<6, daw::keep_n_order::descending>( s );
	}
}

PROP( take_and_do_n, {} ) {
	int const x = s.integer<int>( );
	std::string const t( s.draw( 40 ), 'q' );
	if( x != 0 and not t.empty( ) ) {
		s.nontrivial( );
	}
	int a = x;
	CHECK_EQ( daw::take( a ), x );
	CHECK_EQ( a, 0 );
	Pod p{ x, t };
	Pod const q = p;
	CHECK( daw::take( p ) == q );
	CHECK( p == Pod{ } );
	using TP = daw::take_t<Pod>;
	using TI = daw::take_t<int>;
	TI ti( x );
	TI tj( std::move( ti ) );
	CHECK_EQ( *tj, x );
	CHECK_EQ( *ti, 0 );
	ti = std::move( tj );
	CHECK_EQ( ti.get( ), x );
	CHECK_EQ( tj.get( ), 0 );
	auto &alias = ti;
	ti = std::move( alias );
	CHECK_EQ( *ti, x );
	TI const tk = ti;
	CHECK_EQ( *tk, x );
	CHECK_EQ( *ti, x );
	CHECK( tk == ti );
	CHECK( ( tk <=> tj ) == ( x <=> 0 ) );
	CHECK_EQ( *std::move( ti ), x );
	CHECK_EQ( *ti, 0 );
	ti = TI( x );
	CHECK_EQ( std::move( ti ).get( ), x );
	CHECK_EQ( *ti, 0 );
	TP tp( x, t );
	CHECK( *tp == q and tp->a == x and tp.get( ) == q );
	TP tq;
	tq = std::move( tp );
	CHECK( *tq == q and *tp == Pod{ } );
	tq.reset( );
	CHECK( *tq == Pod{ } );

	std::size_t const n = s.draw( 9 );
	std::size_t calls = 0;
	A::do_n( n, [&] { ++calls; } );
	CHECK_EQ( calls, n );
	A::do_n( n, [&]( std::size_t d ) { calls -= d; }, std::size_t( 1 ) );
	CHECK_EQ( calls, std::size_t( 0 ) );
	std::vector<std::size_t> seen, want( n );
	std::iota( want.begin( ), want.end( ), std::size_t( 0 ) );
	A::do_n_arg( n, [&]( std::size_t i ) { seen.push_back( i ); } );
	CHECK( seen == want );
	seen.clear( );
	A::do_n<7>( [&] { seen.push_back( seen.size( ) ); } );
	CHECK_EQ( seen.size( ), std::size_t( 7 ) );
	A::do_n<0>( [&] { seen.clear( ); } );
	CHECK_EQ( seen.size( ), std::size_t( 7 ) );
	seen.clear( );
	A::do_n<4>( [&]( std::size_t k ) { seen.push_back( k ); }, n );
	CHECK( seen == std::vector<std::size_t>( 4, n ) );
	seen.clear( );
	A::do_n_arg<6>( [&]( std::size_t i ) { seen.push_back( i ); } );
	CHECK( seen == ( std::vector<std::size_t>{ 0, 1, 2, 3, 4, 5 } ) );
	seen.clear( );
	A::do_n_arg<6, 2>( [&]( std::size_t i ) { seen.push_back( i ); } );
	CHECK( seen == ( std::vector<std::size_t>{ 0, 2, 4 } ) );
	seen.clear( );
	std::tuple<int, std::string, char> tup{ x, t, 'c' };
	std::string got;
	auto vis = [&]( auto const &e ) {
		if constexpr( std::is_same_v<std::decay_t<decltype( e )>, std::string> ) {
			got += e;
		} else {
			got += std::to_string( e );
		}
	};
	auto const i = s.draw( 2 );
	A::tuple_functor<3>::run( i, tup, vis );
	CHECK_EQ( got, i == 0 ? std::to_string( x ) : i == 1 ? t : std::to_string( 'c' ) );
}

// ---- swapping ----------------------------------------------------------------
namespace swapping {
	struct Member {
		std::string v;
		int *swaps = nullptr;
		void swap( Member &o ) {
			std::swap( v, o.v );
			++*swaps;
		}
	};
	struct Adl {
		Tracked v;
		int *swaps = nullptr;
		friend void swap( Adl &a, Adl &b ) {
			std::swap( a.v, b.v );
			++*a.swaps;
		}
	};
	struct Plain {
		Tracked v;
	};
} // namespace swapping
PROP( swaps, ( { .leak = true } ) ) {
	int const a = s.range<int>( 0, 99 ), b = s.range<int>( 0, 99 );
	s.nontrivial( a != b );
	{
		int x = a, y = b;
		daw::cswap( x, y );
		CHECK( x == b and y == a );
		std::pair<char, double> const ip( 'a', a / 4.0 ), iq( 'b', b / 4.0 );
		struct Pod {
			char c;
			double d;
		} p{ 'a', a / 4.0 }, q{ 'b', b / 4.0 };
		daw::cswap( p, q );
		CHECK( p.c == iq.first and p.d == iq.second and q.c == ip.first and q.d == ip.second );
		int *px = &x, *py = &y;
		daw::cswap( px, py );
		CHECK( px == &y and py == &x );
		daw::cswap( px, px );
		CHECK( px == &y );
	}
	{
		int n = 0;
		swapping::Member x{ std::string( std::size_t( a ), 'x' ), &n }, y{ std::string( std::size_t( b ), 'y' ), &n };
		daw::cswap( x, y );
		CHECK( x.v == std::string( std::size_t( b ), 'y' ) and y.v == std::string( std::size_t( a ), 'x' ) and n == 1 );
		swapping::Adl u{ Tracked( a ), &n }, v{ Tracked( b ), &n };
		daw::cswap( u, v );
		CHECK( u.v.v == b and v.v.v == a and n == 2 );
		swapping::Plain k{ Tracked( a ) }, l{ Tracked( b ) };
		daw::cswap( k, l );
		CHECK( k.v.v == b and l.v.v == a );
		std::string s1( std::size_t( a ), 'p' ), s2( std::size_t( b ), 'q' );
		daw::cswap( s1, s2 );
		CHECK( s1.size( ) == std::size_t( b ) and s2.size( ) == std::size_t( a ) );
	}
	{
		std::array<Tracked, 3> x{ Tracked( a ), Tracked( b ), Tracked( 7 ) }, y{ Tracked( 1 ), Tracked( 2 ), Tracked( 3 ) };
		daw::cswap( x, y );
		CHECK( x[0].v == 1 and x[1].v == 2 and x[2].v == 3 and y[0].v == a and y[1].v == b and y[2].v == 7 );
		daw::iter_swap( x.begin( ), y.begin( ) + 1 );
		CHECK( x[0].v == b and y[1].v == 1 );
		std::list<Tracked> l;
		l.emplace_back( 50 );
		daw::iter_swap( l.begin( ), x.begin( ) + 2 );
		CHECK( l.front( ).v == 3 and x[2].v == 50 );
	}
	{
		V const v = gen( s );
		V w( v.size( ) );
		std::iota( w.begin( ), w.end( ), 1000 );
		auto e = Exact<int>::from( v );
		auto f = Exact<int>::from( w );
		auto r = daw::swap_ranges( e.data( ), e.data( ) + v.size( ), f.data( ) );
		CHECK( r == f.data( ) + v.size( ) );
		CHECK( std::equal( w.begin( ), w.end( ), e.data( ) ) and std::equal( v.begin( ), v.end( ), f.data( ) ) );
		std::list<int> l( v.begin( ), v.end( ) );
		auto r2 = daw::swap_ranges( l.begin( ), l.end( ), e.data( ) );
		CHECK( r2 == e.data( ) + v.size( ) );
		CHECK( std::equal( v.begin( ), v.end( ), e.data( ) ) and std::equal( w.begin( ), w.end( ), l.begin( ) ) );
	}
	{
		// exchange
		Tracked t( a );
		Tracked const old = daw::exchange( t, Tracked( b ) );
		CHECK( old.v == a and t.v == b );
		std::unique_ptr<int> u( new int( a ) );
		auto o = daw::exchange( u, nullptr );
		CHECK( o and *o == a and not u );
	}
}
// ---- searching helpers of daw_utility.h ----------------------------------------
PROP( utility_searches, { } ) {
	V const v = gen( s );
	int const x = s.range<int>( 0, 6 );
	auto const at = std::find( v.begin( ), v.end( ), x ) - v.begin( );
	s.nontrivial( at > 0 and at < std::ptrdiff_t( v.size( ) ) );
	CHECK_EQ( daw::index_of( v, x ), at );
	CHECK_EQ( daw::index_of( std::list<int>( v.begin( ), v.end( ) ), x ), at );
	auto const all = daw::find_all_where( v, [&]( int e ) { return e == x; } );
	std::vector<std::ptrdiff_t> got, want;
	for( auto it : all ) {
		got.push_back( it - v.begin( ) );
	}
	for( std::size_t n = 0; n < v.size( ); ++n ) {
		if( v[n] == x ) {
			want.push_back( std::ptrdiff_t( n ) );
		}
	}
	CHECK( got == want );
	std::size_t const n = s.draw( v.size( ) + 2 );
	if( n <= v.size( ) ) {
		CHECK( daw::copy_vector( v, n ) == V( v.begin( ), v.begin( ) + std::ptrdiff_t( n ) ) );
	} else {
		bool thrown = false;
		try {
			(void)daw::copy_vector( v, n );
		} catch( std::exception const & ) { thrown = true; }
		CHECK( thrown );
	}
	V sum;
	auto r = daw::make_range( v.begin( ), v.end( ) );
	for( int e : r ) {
		sum.push_back( e );
	}
	CHECK( sum == v );
	auto a = s.below( 16 ), b = s.below( 16 ), c = s.below( 16 );
	CHECK_EQ( daw::or_all( a ), a );
	CHECK_EQ( daw::or_all( a, b, c ), a | b | c );
	CHECK( not daw::or_all( ) );
	CHECK_EQ( daw::value_is( a ).one_of( b, c, std::size_t( 3 ) ), a == b or a == c or a == 3 );
	CHECK_EQ( daw::value_is( a ).none_of( b, c, std::size_t( 3 ) ), a != b and a != c and a != 3 );
}
PROP( utility_helpers, { } ) {
	V const v = gen( s );
	int const x = s.range<int>( 0, 6 );
	s.nontrivial( v.size( ) > 2 );
	// predicates made from values and from predicates
	{
		auto is_x = daw::equal_to( x );
		auto not_x = daw::Not( is_x );
		auto both = daw::Not( []( int a, int b ) { return a < b; } );
		for( std::size_t k = 0; k < v.size( ); ++k ) {
			CHECK_EQ( is_x( v[k] ), v[k] == x );
			CHECK_EQ( not_x( v[k] ), v[k] != x );
			CHECK_EQ( both( v[k], x ), v[k] >= x );
		}
		daw::equal_to_last<int> last{ };
		for( std::size_t k = 0; k < v.size( ); ++k ) {
			CHECK_EQ( last( v[k] ), ( k > 0 and v[k] == v[k - 1] ) );
		}
	}
	// copies and moves into another place
	{
		V out( v.size( ) + 1, -1 );
		CHECK( daw::cxpr_copy( v.begin( ), v.end( ), out.begin( ) ) == out.begin( ) + std::ptrdiff_t( v.size( ) ) );
		CHECK( std::equal( v.begin( ), v.end( ), out.begin( ) ) );
		CHECK_EQ( out.back( ), -1 );
		std::vector<std::unique_ptr<int>> from, to( v.size( ) );
		for( int e : v ) {
			from.push_back( std::make_unique<int>( e ) );
		}
		CHECK( daw::cxpr_move( from.begin( ), from.end( ), to.begin( ) ) == to.end( ) );
		for( std::size_t k = 0; k < v.size( ); ++k ) {
			CHECK( not from[k] );
			CHECK_EQ( *to[k], v[k] );
		}
	}
	// appended at the end
	{
		V w = v;
		int const y = s.range<int>( 0, 6 ), z = s.range<int>( 0, 6 );
		auto at = daw::append( w, x, y, z );
		V want = v;
		want.push_back( x );
		want.push_back( y );
		want.push_back( z );
		CHECK( w == want );
		CHECK_EQ( at - w.begin( ), std::ptrdiff_t( v.size( ) ) );
	}
	// a range that shrinks from either end
	{
		auto r = daw::make_range( v.begin( ), v.end( ) );
		std::size_t lo = 0, hi = v.size( );
		for( int k = 0; k < 4; ++k ) {
			auto const n = s.below( hi - lo + 1 );
			switch( s.below( 4 ) ) {
			case 0:
				r.remove_prefix( n );
				lo += n;
				break;
			case 1:
				r.remove_suffix( n );
				hi -= n;
				break;
			case 2:
				if( lo < hi ) {
					r.remove_prefix( );
					++lo;
				}
				break;
			default:
				if( lo < hi ) {
					r.remove_suffix( );
					--hi;
				}
			}
			CHECK_EQ( r.begin( ) - v.begin( ), std::ptrdiff_t( lo ) );
			CHECK_EQ( std::as_const( r ).end( ) - v.begin( ), std::ptrdiff_t( hi ) );
			CHECK( std::as_const( r ).begin( ) == r.begin( ) and std::as_const( r ).end( ) == r.end( ) );
		}
	}
	// run only while the object is there
	{
		auto owner = std::make_shared<int>( x );
		auto run = daw::RunIfValid( std::weak_ptr<int>( owner ) );
		if( s.boolean( ) ) {
			owner.reset( );
		}
		int seen = -1;
		bool const ran = run( [&]( auto const &p ) { seen = *p; } );
		CHECK_EQ( ran, owner != nullptr );
		CHECK_EQ( seen, owner ? x : -1 );
	}
	{
		std::unique_ptr<int> const p( daw::copy_ptr_value( &x ) );
		CHECK( p.get( ) != &x );
		CHECK_EQ( *p, x );
		CHECK_EQ( daw::copy( x ), x );
	}
	{
		auto const tp = std::tuple<int, std::string>( x, "abc" );
		using R = std::pair<int, std::string>;
		CHECK( ( daw::construct_from<R>( tp ) == R( x, "abc" ) ) );
		CHECK( ( daw::construct_from<R>( std::tuple<int, std::string>( tp ) ) == R( x, "abc" ) ) );
	}
}
