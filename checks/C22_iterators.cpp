// C22: iterator adaptors against positions in a reference sequence.  A random
// history of movements inside the range is applied to an iterator and to an
// index; after every step dereference (twice), distance to and from another
// iterator, equality and the orderings, copies and postfix results must be
// those of the indices.  The base ranges are exact-size heap buffers.
// nontrivial: the range has more than two positions.
// pbt-parts: 3
#include "pbt.h"
#include "daw/daw_exception.h"
#include "daw/daw_string_view.h"
#include "daw/iterator/InputIterator.h"
#include "daw/iterator/daw_argument_iterator.h"
#include "daw/iterator/daw_back_inserter.h"
#include "daw/iterator/daw_checked_iterator_proxy.h"
#include "daw/iterator/daw_chunk_iterator.h"
#include "daw/iterator/daw_circular_iterator.h"
#include "daw/iterator/daw_counting_iterators.h"
#include "daw/iterator/daw_end_inserter.h"
#include "daw/iterator/daw_find_iterator.h"
#include "daw/iterator/daw_find_one_iterator.h"
#include "daw/iterator/daw_function_iterator.h"
#include "daw/iterator/daw_indexed_iterator.h"
#include "daw/iterator/daw_inserter.h"
#include "daw/iterator/daw_integer_iterator.h"
#include "daw/iterator/daw_iota_iterator.h"
#include "daw/iterator/daw_output_stream_iterator.h"
#include "daw/iterator/daw_pointer_iterator.h"
#include "daw/iterator/daw_random_iterator.h"
#include "daw/iterator/daw_repeat_n_char_iterator.h"
#include "daw/iterator/daw_reverse_iterator.h"
#include "daw/iterator/daw_zipiter.h"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
using namespace pbt;

namespace {
	using V = std::vector<int>;
	using D = std::ptrdiff_t;

	V some( Src &s, std::size_t hi = 10 ) {
		V v( s.chance( 1, 150 ) ? 250 + s.below( 150 ) : s.range<std::size_t>( 0, hi ) );
		for( auto &x : v ) {
			x = s.range<int>( -9, 9 );
		}
		return v;
	}

	struct Opt {
		D lo = 0;             // first position
		D hi = 0;             // last position
		D lo_deref = 0;       // dereferenceable positions
		D hi_deref = -1;
		bool index_is_jump = true;
	};

	// `it` is at position `pos`; at( p ) makes one there; val( p ) is the value
	template<typename It, typename At, typename Val>
	void moves( Src &s, It it, D pos, Opt o, At &&at, Val &&val ) {
		if( o.hi - o.lo > 2 ) {
			s.nontrivial( );
		}
		auto const deref_ok = [&]( D p ) {
			return p >= o.lo_deref and p <= o.hi_deref;
		};
		auto const steps = s.range<int>( 0, 12 );
		for( int k = 0; k < steps; ++k ) {
			D const to = s.range<D>( o.lo, o.hi );
			D const d = to - pos;
			switch( s.below( 10 ) ) {
			case 0:
				if( pos < o.hi ) {
					if constexpr( std::is_same_v<decltype( ++it ), It &> ) {
						It &r = ++it;
						CHECK( &r == &it );
					} else {
						++it;
					}
					++pos;
				}
				break;
			case 1:
				if( pos < o.hi ) {
					It const old( it );
					auto r = it++;
					CHECK( r == old );
					if( deref_ok( pos ) ) {
						CHECK( *r == val( pos ) );
					}
					++pos;
				}
				break;
			case 2:
				if constexpr( requires { --it; } ) {
					if( pos > o.lo ) {
						--it;
						--pos;
					}
				}
				break;
			case 3:
				if constexpr( requires { it--; } ) {
					if( pos > o.lo ) {
						It const old( it );
						auto r = it--;
						CHECK( r == old );
						--pos;
					}
				}
				break;
			case 4:
				if constexpr( requires { it += d; } ) {
					it += d;
					pos = to;
				}
				break;
			case 5:
				if constexpr( requires { it -= d; } ) {
					it -= -d;
					pos = to;
				}
				break;
			case 6:
				if constexpr( requires { it + d; } ) {
					auto r = it + d;
					CHECK( r == at( to ) );
					if( deref_ok( to ) ) {
						CHECK( *r == val( to ) );
					}
					it = r;
					pos = to;
				}
				break;
			case 7:
				if constexpr( requires { it - d; } ) {
					auto r = it - ( -d );
					CHECK( r == at( to ) );
					it = r;
					pos = to;
				}
				break;
			case 8:
				if constexpr( requires { it[d]; } ) {
					if( deref_ok( to ) and o.index_is_jump ) {
						CHECK( it[d] == val( to ) );
					}
				}
				break;
			default: {
				// there and back
				if constexpr( requires { --it; } ) {
					auto r = it;
					auto const n = s.range<D>( 0, o.hi - pos );
					for( D i = 0; i < n; ++i ) {
						++r;
					}
					CHECK( r == at( pos + n ) );
					if constexpr( requires { it + n; } ) {
						CHECK( r == it + n );
					}
					for( D i = 0; i < n; ++i ) {
						--r;
					}
					CHECK( r == it );
				} else {
					auto r = it;
					auto const n = s.range<D>( 0, o.hi - pos );
					for( D i = 0; i < n; ++i ) {
						++r;
					}
					CHECK( r == at( pos + n ) );
				}
				break;
			}
			}
			if( deref_ok( pos ) ) {
				CHECK( *it == val( pos ) );
				CHECK( *it == val( pos ) );
				if constexpr( requires( It const &c ) { *c; } ) {
					CHECK( *std::as_const( it ) == val( pos ) );
				}
			}
			D const other = s.range<D>( o.lo, o.hi );
			auto const b = at( other );
			CHECK_EQ( it == b, pos == other );
			CHECK_EQ( it != b, pos != other );
			CHECK_EQ( b == it, pos == other );
			CHECK_EQ( b != it, pos != other );
			if constexpr( requires { it - b; } ) {
				CHECK_EQ( static_cast<D>( it - b ), pos - other );
				CHECK_EQ( static_cast<D>( b - it ), other - pos );
			}
			if constexpr( requires { it < b; } ) {
				CHECK_EQ( it < b, pos < other );
				CHECK_EQ( it > b, pos > other );
				CHECK_EQ( it <= b, pos <= other );
				CHECK_EQ( it >= b, pos >= other );
				CHECK_EQ( b < it, other < pos );
				CHECK_EQ( b > it, other > pos );
				CHECK_EQ( b <= it, other <= pos );
				CHECK_EQ( b >= it, other >= pos );
			}
			auto copy = it;
			CHECK( copy == it );
			copy = at( pos );
			CHECK( copy == it );
			auto moved = std::move( copy );
			CHECK( moved == it );
		}
	}
	Opt opt( std::size_t n ) {
		return Opt{ 0, static_cast<D>( n ), 0, static_cast<D>( n ) - 1, true };
	}
	struct Rec {
		int a;
		int b;
		bool operator==( Rec const & ) const = default;
	};
} // namespace

#if PBT_PART == 0
PROP( indexed, {} ) {
	auto v = some( s );
	auto const val = [&]( D p ) -> int & {
		return v[static_cast<std::size_t>( p )];
	};
	auto const start = s.range<D>( 0, static_cast<D>( v.size( ) ) );
	using It = daw::indexed_iterator<V>;
	moves( s, It( &v, static_cast<std::size_t>( start ) ), start, opt( v.size( ) ),
	       [&]( D p ) {
		       return It( &v, static_cast<std::size_t>( p ) );
	       },
	       val );
	CHECK( daw::ibegin( v ) == It( &v, 0 ) );
	CHECK( daw::iend( v ) == It( &v, v.size( ) ) );
	CHECK_EQ( daw::iend( v ) - daw::ibegin( v ), static_cast<D>( v.size( ) ) );
	CHECK_EQ( daw::ibegin( v ) - daw::iend( v ), -static_cast<D>( v.size( ) ) );
	V seen;
	for( auto it = daw::cibegin( v ); it != daw::ciend( v ); ++it ) {
		seen.push_back( *it );
		CHECK( it.operator->( ) == &v[seen.size( ) - 1] );
	}
	CHECK_EQ( seen, v );
	auto const to = s.range<D>( 0, static_cast<D>( v.size( ) ) );
	CHECK( It( &v, static_cast<std::size_t>( start ) ).next( to - start ) == It( &v, static_cast<std::size_t>( to ) ) );
	CHECK( It( &v, static_cast<std::size_t>( start ) ).prev( start - to ) == It( &v, static_cast<std::size_t>( to ) ) );
	It it( &v, static_cast<std::size_t>( start ) );
	CHECK( &it.advance( to - start ) == &it );
	CHECK( it == It( &v, static_cast<std::size_t>( to ) ) );
	V w = v;
	std::sort( daw::ibegin( v ), daw::iend( v ) );
	std::sort( w.begin( ), w.end( ) );
	CHECK_EQ( v, w );
	std::reverse( daw::ibegin( v ), daw::iend( v ) );
	std::reverse( w.begin( ), w.end( ) );
	CHECK_EQ( v, w );
	if( not v.empty( ) ) {
		*daw::ibegin( v ) = 1000;
		CHECK_EQ( v[0], 1000 );
	}
	// a container without iterators of its own
	struct Idx {
		using value_type = int;
		using reference = int &;
		using const_reference = int const &;
		using size_type = std::size_t;
		using difference_type = D;
		using pointer = int *;
		using const_pointer = int const *;
		using iterator = int *;
		using const_iterator = int const *;
		std::deque<int> d;
		int &operator[]( std::size_t n ) {
			return d[n];
		}
		int const &operator[]( std::size_t n ) const {
			return d[n];
		}
		std::size_t size( ) const {
			return d.size( );
		}
	};
	Idx x{ std::deque<int>( v.begin( ), v.end( ) ) };
	CHECK( std::equal( daw::ibegin( x ), daw::iend( x ), v.begin( ), v.end( ) ) );
	int arr[3] = { 1, 2, 3 };
	CHECK( daw::ibegin( arr ) == arr and daw::iend( arr ) == arr + 3 );
	CHECK( daw::cibegin( arr ) == arr and daw::ciend( arr ) == arr + 3 );
}

PROP( circular, {} ) {
	auto v = some( s );
	if( v.empty( ) ) {
		v.push_back( 5 );
	}
	for( std::size_t i = 0; i < v.size( ); ++i ) {
		v[i] = static_cast<int>( i ) * 7;
	}
	auto const n = static_cast<D>( v.size( ) );
	if( n > 2 ) {
		s.nontrivial( );
	}
	auto const md = [&]( D p ) {
		return ( ( p % n ) + n ) % n;
	};
	D pos = s.range<D>( 0, n - 1 );
	auto it = daw::make_circular_iterator( v, v.begin( ) + pos );
	daw::circular_iterator<V> const zero( v );
	for( int k = 0; k < 12; ++k ) {
		D const d = s.range<D>( -4 * n - 1, 4 * n + 1 );
		switch( s.below( 8 ) ) {
		case 0:
			++it;
			++pos;
			break;
		case 1:
			CHECK_EQ( *it++, v[static_cast<std::size_t>( md( pos ) )] );
			++pos;
			break;
		case 2:
			--it;
			--pos;
			break;
		case 3:
			CHECK_EQ( *it--, v[static_cast<std::size_t>( md( pos ) )] );
			--pos;
			break;
		case 4:
			it += d;
			pos += d;
			break;
		case 5:
			it -= d;
			pos -= d;
			break;
		case 6:
			it = it + d;
			pos += d;
			break;
		default: {
			auto j = it - d;
			it = std::move( j );
			pos -= d;
			break;
		}
		}
		pos = md( pos );
		CHECK_EQ( *it, v[static_cast<std::size_t>( pos )] );
		CHECK( &*it == &v[static_cast<std::size_t>( pos )] );
		CHECK_EQ( it - zero, pos );
		CHECK_EQ( zero - it, -pos );
		CHECK_EQ( it == zero, pos == 0 );
		CHECK_EQ( it != zero, pos != 0 );
		CHECK_EQ( it > zero, pos > 0 );
		CHECK_EQ( zero < it, pos > 0 );
		CHECK_EQ( it <= zero, pos == 0 );
		CHECK( it >= zero );
		CHECK( it != it.end( ) );
		auto last = it.end( );
		CHECK_EQ( last - it, n - pos );
		--last;
		CHECK_EQ( *last, v.back( ) );
		CHECK( it + n == it );
		CHECK( it - n == it );
	}
	// once around visits every element once
	V seen;
	auto it2 = it;
	do {
		seen.push_back( *it2 );
		++it2;
	} while( it2 != it and seen.size( ) < v.size( ) + 5 );
	V want( v.begin( ) + pos, v.end( ) );
	want.insert( want.end( ), v.begin( ), v.begin( ) + pos );
	CHECK_EQ( seen, want );
	// writes, members, other containers
	*it = -1;
	CHECK_EQ( v[static_cast<std::size_t>( pos )], -1 );
	std::deque<Rec> recs;
	for( int x : v ) {
		recs.push_back( Rec{ x, -x } );
	}
	daw::circular_iterator<std::deque<Rec>> r( recs );
	r += pos - n;
	CHECK_EQ( r->b, 1 );
	int arr[3] = { 1, 2, 3 };
	auto ai = daw::make_circular_iterator( arr );
	ai -= 4;
	CHECK_EQ( *ai, 3 );
	V const cv = v;
	daw::circular_iterator<V const> ci( &cv );
	ci += pos;
	CHECK_EQ( *ci, -1 );
	daw::circular_iterator<V const> ci2( &cv, cv.begin( ) + pos );
	CHECK( ci == ci2 );
}

PROP( chunks, {} ) {
	auto const size = s.range<std::size_t>( 1, 5 );
	auto const n = s.range<std::size_t>( 0, 8 );
	auto e = Exact<int>( n * size );
	for( std::size_t i = 0; i < n * size; ++i ) {
		e.data( )[i] = static_cast<int>( i ) * 3;
	}
	using It = daw::chunk_iterator<int *>;
	auto const at = [&]( D p ) {
		return It( e.data( ) + p * static_cast<D>( size ), size );
	};
	auto o = opt( n );
	o.index_is_jump = false;
	auto const start = s.range<D>( 0, static_cast<D>( n ) );
	moves( s, at( start ), start, o, at, [&]( D p ) {
		return e.data( )[static_cast<std::size_t>( p ) * size];
	} );
	std::size_t c = 0;
	for( auto it = at( 0 ); it != at( static_cast<D>( n ) ); ++it, ++c ) {
		for( std::size_t k = 0; k < size; ++k ) {
			CHECK_EQ( it[k], e.data( )[c * size + k] );
			CHECK( &std::as_const( it )[k] == e.data( ) + c * size + k );
		}
	}
	CHECK_EQ( c, n );
	if( n > 0 ) {
		auto const k = s.range<D>( 0, static_cast<D>( n ) );
		CHECK( k + at( 0 ) == at( k ) );
	}
	std::deque<int> d( e.data( ), e.data( ) + n * size );
	daw::chunk_iterator df( d.begin( ), size );
	daw::chunk_iterator dl( d.end( ), size );
	CHECK_EQ( dl - df, static_cast<D>( n ) );
}

PROP( reversed, {} ) {
	auto v = some( s );
	auto e = Exact<int>::from( v );
	auto const n = static_cast<D>( v.size( ) );
	auto const start = s.range<D>( 0, n );
	auto const val = [&]( D p ) {
		return v[static_cast<std::size_t>( n - 1 - p )];
	};
	using It = daw::reverse_iterator<int *>;
	moves( s, It( e.data( ) + ( n - start ) ), start, opt( v.size( ) ),
	       [&]( D p ) {
		       return It( e.data( ) + ( n - p ) );
	       },
	       val );
	std::list<int> l( v.begin( ), v.end( ) );
	auto const lat = [&]( D p ) {
		return daw::make_reverse_iterator( std::next( l.begin( ), n - p ) );
	};
	auto o = opt( v.size( ) );
	if( n > 0 ) {
		auto it = lat( start );
		D pos = start;
		for( int k = 0; k < 8; ++k ) {
			if( s.boolean( ) ? pos < n : pos == 0 ) {
				CHECK( s.boolean( ) ? ( ++it, true ) : ( it++, true ) );
				++pos;
			} else if( pos > 0 ) {
				CHECK( s.boolean( ) ? ( --it, true ) : ( it--, true ) );
				--pos;
			}
			CHECK( it == lat( pos ) );
			CHECK( it.base( ) == std::next( l.begin( ), n - pos ) );
			if( pos < n ) {
				CHECK_EQ( *it, val( pos ) );
				CHECK( it.operator->( ) == &*it );
			}
		}
	}
	(void)o;
	V w( v.rbegin( ), v.rend( ) );
	CHECK( std::equal( lat( 0 ), lat( n ), w.begin( ), w.end( ) ) );
	auto const k = s.range<D>( 0, n );
	CHECK( k + It( e.data( ) + n ) == It( e.data( ) + ( n - k ) ) );
	// orderings and distances across positions, and the element itself
	auto const q = s.range<D>( 0, n );
	auto const rk = It( e.data( ) + ( n - k ) );
	auto const rq = It( e.data( ) + ( n - q ) );
	CHECK_EQ( rk < rq, k < q );
	CHECK_EQ( rk <= rq, k <= q );
	CHECK_EQ( rk > rq, k > q );
	CHECK_EQ( rk >= rq, k >= q );
	CHECK_EQ( rq - rk, q - k );
	if( k < n ) {
		CHECK( rk.operator->( ) == e.data( ) + ( n - 1 - k ) );
		auto m = rk;
		CHECK( m.operator->( ) == &*m );
	}
	// reversing twice
	using VIt = V::iterator;
	auto const twice = daw::reverse_iterator<daw::reverse_iterator<VIt>>(
	  daw::reverse_iterator<VIt>( v.begin( ) + k ) );
	CHECK( twice.base( ).base( ) == v.begin( ) + k );
	if( k < n ) {
		CHECK( &*twice == &v[static_cast<std::size_t>( k )] );
	}
	std::sort( daw::make_reverse_iterator( v.end( ) ), daw::make_reverse_iterator( v.begin( ) ) );
	CHECK( std::is_sorted( v.rbegin( ), v.rend( ) ) );
	// writes
	if( n > 0 ) {
		*It( e.data( ) + n ) = 555;
		CHECK_EQ( e.data( )[n - 1], 555 );
	}
}

PROP( zipped, {} ) {
	auto const a = some( s );
	auto const n = static_cast<D>( a.size( ) );
	std::vector<long> b( a.size( ) );
	std::string c( a.size( ), 'a' );
	for( std::size_t i = 0; i < a.size( ); ++i ) {
		b[i] = a[i] * 100L + static_cast<long>( i );
		c[i] = static_cast<char>( 'a' + i );
	}
	auto ea = Exact<int>::from( a );
	auto eb = Exact<long>::from( b );
	std::list<char> lc( c.begin( ), c.end( ) );
	auto const at = [&]( D p ) {
		return daw::zip_iterator( ea.data( ) + p, eb.data( ) + p, std::next( lc.begin( ), p ) );
	};
	auto const start = s.range<D>( 0, n );
	moves( s, at( start ), start, opt( a.size( ) ), at, [&]( D p ) {
		auto const i = static_cast<std::size_t>( p );
		return std::tuple<int, long, char>( a[i], b[i], c[i] );
	} );
	auto it = at( start );
	auto const to = s.range<D>( 0, n );
	it.advance( to - start );
	CHECK( it == at( to ) );
	CHECK_EQ( it.size( ), 3U );
	CHECK( it.get<0>( ) == ea.data( ) + to );
	CHECK( daw::get<1>( it ) == eb.data( ) + to );
	CHECK( std::get<2>( it.as_tuple( ) ) == std::next( lc.begin( ), to ) );
	if( to < n ) {
		CHECK( &std::get<0>( *it ) == ea.data( ) + to );
		std::get<1>( *it ) = 12345;
		CHECK_EQ( eb.data( )[to], 12345 );
	}
}
#endif

#if PBT_PART == 1
namespace {
	template<typename T>
	void iota_case( Src &s, T lo, T step_lo, T step_hi ) {
		using It = daw::iota_iterator<T>;
		using Diff = typename It::difference_type;
		Diff step = static_cast<Diff>( s.range<long>( static_cast<long>( step_lo ), static_cast<long>( step_hi ) ) );
		if( step == 0 ) {
			step = 1;
		}
		auto const n = s.range<D>( 0, 12 );
		T const first = static_cast<T>( lo + static_cast<T>( s.range<int>( 0, 20 ) ) );
		auto const val = [&]( D p ) {
			return static_cast<T>( first + static_cast<T>( step * static_cast<Diff>( p ) ) );
		};
		auto const at = [&]( D p ) {
			return It( val( p ), step );
		};
		auto const start = s.range<D>( 0, n );
		Opt o{ 0, n, 0, n, true };
		moves( s, at( start ), start, o, at, val );
		auto const r = daw::iota_range<T>( first, val( n ), step );
		D k = 0;
		for( auto x : r ) {
			CHECK( k < n );
			CHECK_EQ( x, val( k ) );
			CHECK_EQ( r[static_cast<Diff>( k )], val( k ) );
			++k;
		}
		CHECK_EQ( k, n );
		CHECK_EQ( static_cast<D>( r.end( ) - r.begin( ) ), n );
		auto last = r.end( );
		while( k > 0 ) {
			--k;
			--last;
			CHECK_EQ( *last, val( k ) );
		}
		CHECK( last == r.cbegin( ) );
	}

	// an end that the steps do not hit: the range stops at the first value that
	// is not before it
	template<typename T>
	void iota_between( Src &s, T first, T last, typename daw::iota_iterator<T>::difference_type step ) {
		std::vector<T> want{ };
		for( D k = 0; k < 1000; ++k ) {
			T const v = static_cast<T>( first + static_cast<T>( static_cast<T>( k ) * static_cast<T>( step ) ) );
			if( step > 0 ? not( v < last ) : not( last < v ) ) {
				break;
			}
			want.push_back( v );
		}
		s.nontrivial( want.size( ) > 1 );
		auto const r = daw::iota_range<T>( first, last, step );
		std::size_t k = 0;
		for( auto x : r ) {
			CHECK( k < want.size( ) );
			if constexpr( std::is_floating_point_v<T> ) {
				CHECK( std::abs( x - want[k] ) < T( 1e-3 ) );
			} else {
				CHECK_EQ( x, want[k] );
			}
			++k;
		}
		CHECK_EQ( k, want.size( ) );
	}
} // namespace

PROP( iota_bounds, {} ) {
	switch( s.below( 5 ) ) {
	case 0: {
		auto const step = s.range<int>( 1, 7 );
		iota_between<int>( s, s.range<int>( -20, 20 ), s.range<int>( -20, 20 ), s.boolean( ) ? step : -step );
		break;
	}
	case 1:
		iota_between<std::size_t>( s, s.range<std::size_t>( 0, 20 ), s.range<std::size_t>( 0, 40 ), s.range<int>( 1, 7 ) );
		break;
	case 2: {
		// in eighths, so that no sum is rounded
		auto const step = s.range<int>( 1, 20 ) / 8.0;
		iota_between<double>( s, s.range<int>( -40, 40 ) / 8.0, s.range<int>( -40, 40 ) / 8.0, s.boolean( ) ? step : -step );
		break;
	}
	case 3: {
		// the sums are rounded; the end is half a step from any of them
		auto const n = s.range<int>( 0, 12 );
		auto const step = s.range<int>( 1, 30 ) * 0.1 * ( s.boolean( ) ? 1 : -1 );
		auto const first = s.range<int>( -40, 40 ) * 0.1;
		iota_between<double>( s, first, first + ( n + 0.5 ) * step, step );
		break;
	}
	default:
		iota_between<short>( s, s.range<short>( -20, 20 ), s.range<short>( -20, 20 ), s.range<short>( -5, -1 ) );
		break;
	}
}

PROP( iota, {} ) {
	switch( s.below( 5 ) ) {
	case 0:
		iota_case<int>( s, -50, -5, 5 );
		break;
	case 1:
		iota_case<unsigned>( s, 0, 1, 5 );
		break;
	case 2:
		iota_case<std::size_t>( s, 100, 1, 7 );
		break;
	case 3:
		iota_case<long>( s, -1000, -9, 9 );
		break;
	default:
		iota_case<short>( s, 0, -5, 5 );
		break;
	}
	auto const n = s.range<int>( 0, 10 );
	auto const lo = s.range<int>( -10, 0 );
	int k = 0;
	for( auto x : daw::iota_range( n ) ) {
		CHECK_EQ( x, k++ );
	}
	CHECK_EQ( k, n );
	k = lo;
	for( auto x : daw::iota_range( lo, n ) ) {
		CHECK_EQ( x, k++ );
	}
	CHECK_EQ( k, n );
	k = lo;
	for( auto x : daw::integer_range<int>( lo, n ) ) {
		CHECK_EQ( x, k++ );
	}
	CHECK_EQ( k, n );
	daw::integer_range_iterator<int> ii( lo );
	CHECK_EQ( *ii++, lo );
	CHECK_EQ( *ii, lo + 1 );
	CHECK( ii == daw::integer_range_iterator<int>( lo + 1 ) );
	CHECK( ii != daw::integer_range_iterator<int>( lo ) );
	CHECK_EQ( *++ii, lo + 2 );
}

PROP( pointers, {} ) {
	auto const v = some( s );
	auto e = Exact<int>::from( v );
	auto const n = static_cast<D>( v.size( ) );
	auto const start = s.range<D>( 0, n );
	auto const val = [&]( D p ) {
		return v[static_cast<std::size_t>( p )];
	};
	if( n > 0 ) {
		using P = daw::pointer_iterator<int>;
		auto const at = [&]( D p ) {
			return P( e.data( ) + p );
		};
		moves( s, at( start ), start, opt( v.size( ) ), at, val );
		daw::pointer_iterator<int const> c = at( start );
		CHECK( c.get( ) == e.data( ) + start );
		CHECK_EQ( at( n ) - at( start ), n - start );
	}
	using R = daw::RandomIterator<int>;
	auto const rat = [&]( D p ) {
		return R( e.data( ) + p );
	};
	moves( s, rat( start ), start, opt( v.size( ) ), rat, val );
	CHECK( daw::make_random_iterator( e.data( ) ).ptr( ) == e.data( ) );
	CHECK( daw::make_const_random_iterator( e.data( ) ).ptr( ) == e.data( ) );
	R r;
	CHECK( r.ptr( ) == nullptr );
	r = e.data( ) + start;
	CHECK( r == rat( start ) );
	V w = v;
	std::sort( rat( 0 ), rat( n ) );
	std::sort( w.begin( ), w.end( ) );
	CHECK( std::equal( w.begin( ), w.end( ), e.data( ) ) );
}

PROP( counting, {} ) {
	auto const v = some( s );
	auto const n = static_cast<D>( v.size( ) );
	auto const val = [&]( D p ) {
		return v[static_cast<std::size_t>( p )];
	};
	std::forward_list<int> const fl( v.begin( ), v.end( ) );
	std::list<int> const bl( v.begin( ), v.end( ) );
	using F = daw::forward_counting_iterator<std::forward_list<int>::const_iterator>;
	auto const fat = [&]( D p ) {
		return F( std::next( fl.begin( ), p ) );
	};
	auto const start = s.range<D>( 0, n );
	moves( s, fat( start ), start, opt( v.size( ) ), fat, val );
	using B = daw::bidirectional_counting_iterator<std::list<int>::const_iterator>;
	auto const bat = [&]( D p ) {
		return B( std::next( bl.begin( ), p ) );
	};
	moves( s, bat( start ), start, opt( v.size( ) ), bat, val );
	// the distance is the number of steps forward less those back
	F f( fl.begin( ) );
	D steps = 0;
	for( ; f != fl.end( ); ) {
		CHECK_EQ( f.distance( ), steps );
		CHECK_EQ( *f, val( steps ) );
		CHECK( not( f == fl.end( ) ) );
		CHECK( fl.end( ) != f );
		CHECK( not( fl.end( ) == f ) );
		if( s.boolean( ) ) {
			++f;
		} else {
			auto const old = f++;
			CHECK_EQ( old.distance( ), steps );
		}
		++steps;
	}
	CHECK( fl.end( ) == f );
	CHECK_EQ( f.distance( ), n );
	B b( bl.begin( ) );
	D pos = 0;
	for( int k = 0; k < 12; ++k ) {
		if( s.boolean( ) ) {
			if( pos < n ) {
				CHECK( s.boolean( ) ? ( ++b ).distance( ) == pos + 1 : ( b++ ).distance( ) == pos );
				++pos;
			}
		} else if( pos > 0 ) {
			CHECK( s.boolean( ) ? ( --b ).distance( ) == pos - 1 : ( b-- ).distance( ) == pos );
			--pos;
		}
		CHECK_EQ( b.distance( ), pos );
		CHECK( b == std::next( bl.begin( ), pos ) );
		CHECK( not( b != std::next( bl.begin( ), pos ) ) );
		CHECK( std::next( bl.begin( ), pos ) == b );
		CHECK( not( std::next( bl.begin( ), pos ) != b ) );
		CHECK_EQ( b == bl.end( ), pos == n );
		CHECK_EQ( bl.end( ) == b, pos == n );
		CHECK_EQ( bl.end( ) != b, pos != n );
	}
}

PROP( repeated_char, {} ) {
	auto const n = s.range<std::size_t>( 0, 12 );
	char const c = s.pick<char>( { 'a', '\0', ' ', '\xff' } );
	using It = daw::repeat_n_char_iterator<char>;
	auto const at = [&]( D p ) {
		return It( n - static_cast<std::size_t>( p ), c );
	};
	auto const start = s.range<D>( 0, static_cast<D>( n ) );
	moves( s, at( start ), start, opt( n ), at, [&]( D ) {
		return c;
	} );
	std::string t = "x";
	t.append( It( n, c ), daw::repeat_n_char_end( ) );
	CHECK_EQ( t, "x" + std::string( n, c ) );
	CHECK_EQ( static_cast<std::size_t>( std::distance( It( n, c ), daw::repeat_n_char_end( ) ) ), n );
	std::wstring w( daw::repeat_n_char_iterator<wchar_t>( n, L'z' ), daw::repeat_n_char_end<wchar_t>( ) );
	CHECK( w == std::wstring( n, L'z' ) );
}

PROP( arguments, {} ) {
	auto const n = s.range<int>( 0, 6 );
	std::vector<std::string> store;
	for( int i = 0; i < n; ++i ) {
		store.push_back( std::string( s.range<std::size_t>( 0, 3 ), static_cast<char>( 'a' + i ) ) + std::to_string( i ) );
	}
	std::unique_ptr<char const *[]> argv( new char const *[static_cast<std::size_t>( n ) + 1] );
	for( int i = 0; i < n; ++i ) {
		argv[static_cast<std::size_t>( i )] = store[static_cast<std::size_t>( i )].c_str( );
	}
	argv[static_cast<std::size_t>( n )] = nullptr;
	daw::arg_iterator_t const args( n, argv.get( ) );
	auto const at = [&]( D p ) {
		auto r = args;
		r += p;
		return r;
	};
	auto const val = [&]( D p ) {
		return std::string_view( store[static_cast<std::size_t>( p )] );
	};
	auto const start = s.range<D>( 0, n );
	moves( s, at( start ), start, opt( static_cast<std::size_t>( n ) ), at, val );
	CHECK_EQ( args.size( ), static_cast<std::size_t>( n ) );
	CHECK_EQ( at( start ).position( ), start );
	CHECK_EQ( at( start ).at_end( ), start == n );
	CHECK_EQ( static_cast<bool>( at( start ) ), start < n );
	std::vector<std::string> seen;
	for( auto a : args ) {
		seen.emplace_back( a );
	}
	CHECK( seen == store );
	auto const last = args.end( );
	auto const p = at( start );
	CHECK_EQ( p == last, start == n );
	CHECK_EQ( p != last, start != n );
	CHECK_EQ( last == p, start == n );
	CHECK_EQ( p < last, start < n );
	CHECK_EQ( p <= last, true );
	CHECK_EQ( p > last, false );
	CHECK_EQ( p >= last, start == n );
	CHECK_EQ( last > p, start < n );
	CHECK_EQ( last >= p, true );
	CHECK_EQ( last < p, false );
	CHECK_EQ( last <= p, start == n );
	CHECK_EQ( last - p, n - start );
	CHECK_EQ( p - last, start - n );
	CHECK_EQ( std::distance( p, last ), n - start );
	std::vector<std::string> const copy( args.begin( ), args.end( ) );
	CHECK( copy == store );
	D const idx = s.range<D>( -start - 2, n - start + 2 );
	if( start + idx >= 0 and start + idx < n ) {
		CHECK( p.at( idx ) == val( start + idx ) );
	} else {
		CHECK_THROWS( std::out_of_range, (void)p.at( idx ) );
	}
}
#endif

#if PBT_PART == 2
namespace {
	bool is_even( int x ) {
		return x % 2 == 0;
	}
	struct Even {
		bool operator( )( int x ) const {
			return x % 2 == 0;
		}
	};
	struct Below {
		int k;
		bool operator( )( int x ) const {
			return x < k;
		}
	};
	struct Above {
		int k;
		bool operator( )( int x ) const {
			return x > k;
		}
	};
} // namespace

PROP( finding, {} ) {
	auto const v = some( s );
	auto e = Exact<int>::from( v );
	int const k = s.range<int>( -9, 9 );
	V want;
	V wante;
	std::vector<std::pair<int, std::size_t>> one;
	for( int x : v ) {
		if( x < k ) {
			want.push_back( x );
		}
		if( is_even( x ) ) {
			wante.push_back( x );
		}
		if( x < k ) {
			one.emplace_back( x, 0 );
		} else if( x > k + 2 ) {
			one.emplace_back( x, 1 );
		} else if( is_even( x ) ) {
			one.emplace_back( x, 2 );
		}
	}
	if( want.size( ) > 1 ) {
		s.nontrivial( );
	}
	int const *const f = e.data( );
	int const *const l = e.data( ) + v.size( );
	auto const drain = [&]( auto it, V const &w ) {
		auto const last = it.end( );
		auto const keep = it.begin( );
		V got;
		while( it != last ) {
			CHECK( not( it == last ) );
			CHECK( got.size( ) < w.size( ) );
			CHECK_EQ( *it, w[got.size( )] );
			CHECK_EQ( *it.operator->( ), *it );
			if( s.boolean( ) ) {
				got.push_back( *it );
				++it;
			} else {
				got.push_back( *it++ );
			}
		}
		CHECK( it == last );
		CHECK_EQ( got, w );
		// multi-pass
		V again;
		for( auto i = keep; i != last; ++i ) {
			again.push_back( *i );
		}
		CHECK_EQ( again, w );
	};
	drain( daw::find_iterator( f, l, Below{ k } ), want );
	drain( daw::find_iterator( f, l, Even{ } ), wante );
	drain( daw::find_iterator( f, l, [&]( int x ) {
		       return x < k;
	       } ),
	       want );
	drain( daw::find_iterator( f, l, &is_even ), wante );
	std::forward_list<int> const fl( v.begin( ), v.end( ) );
	drain( daw::find_iterator( fl.begin( ), fl.end( ), Below{ k } ), want );
	{
		daw::find_iterator it( f, l, Below{ k } );
		CHECK( it.raw_begin( ) == std::find_if( f, l, Below{ k } ) );
		CHECK( it.raw_end( ) == l );
	}
	{
		std::string text;
		for( int x : v ) {
			text += std::to_string( x ) + ' ';
		}
		std::istringstream in( text );
		daw::find_iterator it( std::istream_iterator<int>( in ), Even{ } );
		V got;
		for( auto const last = it.end( ); it != last; ++it ) {
			got.push_back( *it );
		}
		CHECK_EQ( got, wante );
	}
	// the first of several filters
	daw::find_one_iterator<int const *, int const *, Below, Above, Even> it( f, l, Below{ k }, Above{ k + 2 }, Even{ } );
	std::size_t at = 0;
	auto const first = it;
	for( auto const last = it.end( ); it != last; ) {
		CHECK( at < one.size( ) );
		CHECK( not( it == last ) );
		CHECK_EQ( it == first, at == 0 );
		CHECK_EQ( it != first, at != 0 );
		CHECK( it.begin( ) == it );
		CHECK( it.raw_end( ) == l );
		CHECK_EQ( *it.raw_begin( ), one[at].first );
		auto const x = *it;
		CHECK_EQ( x.value, one[at].first );
		CHECK_EQ( x.index, one[at].second );
		CHECK_EQ( it->value, one[at].first );
		CHECK_EQ( it->index, one[at].second );
		if( s.boolean( ) ) {
			++it;
		} else {
			auto old = it++;
			CHECK_EQ( ( *old ).value, one[at].first );
			CHECK_EQ( ( *old ).index, one[at].second );
		}
		++at;
	}
	CHECK_EQ( at, one.size( ) );
	CHECK( it == it.end( ) );
	CHECK( it.raw_begin( ) == l );
}

PROP( checked, {} ) {
	auto const v = some( s, 6 );
	auto const n = static_cast<D>( v.size( ) );
	if( n > 2 ) {
		s.nontrivial( );
	}
	std::list<int> l( v.begin( ), v.end( ) );
	bool const plain = s.chance( 1, 3 );
	bool const ci = plain or s.chance( 3, 4 );
	bool const cd = plain or s.chance( 3, 4 );
	bool const cr = plain or s.chance( 3, 4 );
	auto it = plain ? daw::make_checked_iterator_proxy( l.begin( ), l.end( ) )
	                : daw::make_checked_iterator_proxy( l.begin( ), l.end( ), ci, cd, cr );
	D pos = 0;
	for( int k = 0; k < 14; ++k ) {
		bool const post = s.boolean( );
		if( s.boolean( ) ) {
			if( pos < n ) {
				if( post ) {
					auto old = it++;
					CHECK_EQ( *old, v[static_cast<std::size_t>( pos )] );
				} else {
					CHECK( &++it == &it );
				}
				++pos;
			} else if( ci ) {
				CHECK_THROWS( std::out_of_range, post ? (void)it++ : (void)++it );
			}
		} else {
			if( pos > 0 ) {
				if( post ) {
					auto old = it--;
					CHECK( old == std::next( l.begin( ), pos ) );
				} else {
					CHECK( &--it == &it );
				}
				--pos;
			} else if( cd ) {
				CHECK_THROWS( std::out_of_range, post ? (void)it-- : (void)--it );
			}
		}
		CHECK( it == std::next( l.begin( ), pos ) );
		CHECK_EQ( it != l.end( ), pos != n );
		auto const c = it;
		CHECK( c == it );
		CHECK( not( c != it ) );
		if( pos < n ) {
			CHECK_EQ( *it, v[static_cast<std::size_t>( pos )] );
			CHECK( &*c == &*std::next( l.begin( ), pos ) );
			CHECK( it.operator->( ) == &*c );
			CHECK( c.operator->( ) == &*c );
		} else if( cr ) {
			CHECK_THROWS( std::out_of_range, (void)*it );
			CHECK_THROWS( std::out_of_range, (void)*c );
			CHECK_THROWS( std::out_of_range, (void)it.operator->( ) );
			CHECK_THROWS( std::out_of_range, (void)c.operator->( ) );
		}
	}
}

PROP( erased, {} ) {
	auto const v = some( s );
	if( v.size( ) > 2 ) {
		s.nontrivial( );
	}
	auto const before = live_blocks( );
	{
		std::list<int> const l( v.begin( ), v.end( ) );
		std::deque<int> const d( v.rbegin( ), v.rend( ) );
		using I = daw::InputIterator<int>;
		I a( l.begin( ) );
		I const la( l.end( ) );
		I b( d.begin( ) );
		I const lb( d.end( ) );
		CHECK( not a.are_same_base_iterator_type( b ) );
		CHECK( a.are_same_base_iterator_type( la ) );
		std::size_t pa = 0;
		std::size_t pb = 0;
		bool swapped = false;
		for( int k = 0; k < 14; ++k ) {
			auto &x = s.boolean( ) ? a : b;
			bool const is_list = ( &x == &a ) != swapped;
			std::size_t &p = &x == &a ? pa : pb;
			switch( s.below( 7 ) ) {
			case 0:
				if( p < v.size( ) ) {
					++x;
					++p;
				}
				break;
			case 1:
				if( p < v.size( ) ) {
					auto const old = x++;
					CHECK_EQ( *old, is_list ? v[p] : v[v.size( ) - 1 - p] );
					++p;
				}
				break;
			case 2: {
				I tmp( x );
				CHECK( tmp == x );
				I tmp2( is_list ? la : lb );
				tmp2 = tmp;
				CHECK( tmp2 == x );
				tmp2 = std::move( tmp );
				CHECK( tmp2 == x );
				x = std::move( tmp2 );
				break;
			}
			case 3: {
				// exchange the two, of different origins
				I tmp( std::move( a ) );
				a = std::move( b );
				b = std::move( tmp );
				std::swap( pa, pb );
				swapped = not swapped;
				break;
			}
			case 4: {
				I tmp( a );
				a = b;
				b = tmp;
				std::swap( pa, pb );
				swapped = not swapped;
				break;
			}
			case 5: {
				auto &y = x;
				x = y;
				break;
			}
			default:
				break;
			}
			for( auto *i : { &a, &b } ) {
				bool const lst = ( i == &a ) != swapped;
				std::size_t const q = i == &a ? pa : pb;
				CHECK_EQ( *i == ( lst ? la : lb ), q == v.size( ) );
				CHECK_EQ( *i != ( lst ? la : lb ), q != v.size( ) );
				if( q < v.size( ) ) {
					CHECK_EQ( **i, lst ? v[q] : v[v.size( ) - 1 - q] );
					CHECK_EQ( *( i->operator->( ) ), **i );
				}
			}
		}
		daw::InputRange<int> r( l );
		CHECK_EQ( V( v ), [&] {
			V out;
			for( auto i = r.begin( ); i != r.end( ); ++i ) {
				out.push_back( *i );
			}
			return out;
		}( ) );
		daw::InputRange r2( v.data( ), v.data( ) + v.size( ) );
		CHECK_EQ( std::accumulate( r2.begin( ), r2.end( ), 0 ), std::accumulate( v.begin( ), v.end( ), 0 ) );
	}
	CHECK_EQ( live_blocks( ), before );
}

PROP( outputs, {} ) {
	auto const v = some( s );
	if( v.size( ) > 2 ) {
		s.nontrivial( );
	}
	V have = some( s, 4 );
	V want = have;
	want.insert( want.end( ), v.begin( ), v.end( ) );
	{
		V out = have;
		std::copy( v.begin( ), v.end( ), daw::back_inserter<V>( out ) );
		CHECK_EQ( out, want );
	}
	{
		V out = have;
		std::copy( v.begin( ), v.end( ), daw::end_inserter( out ) );
		CHECK_EQ( out, want );
		std::list<int> lo( have.begin( ), have.end( ) );
		auto it = daw::end_inserter( lo );
		for( int x : v ) {
			if( s.boolean( ) ) {
				*it++ = x;
			} else {
				*it = x;
				++it;
			}
		}
		CHECK( std::equal( lo.begin( ), lo.end( ), want.begin( ), want.end( ) ) );
	}
	{
		std::set<int> out( have.begin( ), have.end( ) );
		std::copy( v.begin( ), v.end( ), daw::inserter( out ) );
		CHECK( out == std::set<int>( want.begin( ), want.end( ) ) );
		std::multiset<int> mo( have.begin( ), have.end( ) );
		auto it = daw::inserter( mo );
		for( int x : v ) {
			*it++ = x;
		}
		CHECK( mo == std::multiset<int>( want.begin( ), want.end( ) ) );
	}
	{
		V out;
		auto it = daw::make_function_iterator( [&]( int x ) {
			out.push_back( x );
		} );
		std::copy( v.begin( ), v.end( ), it );
		CHECK_EQ( out, v );
		for( int x : v ) {
			*it++ = x;
		}
		CHECK_EQ( out.size( ), 2 * v.size( ) );
	}
	{
		std::ostringstream os;
		std::string text;
		std::copy( v.begin( ), v.end( ), daw::make_output_stream_iterator( os ) );
		for( int x : v ) {
			text += std::to_string( x );
		}
		CHECK_EQ( os.str( ), text );
		std::ostringstream os2;
		auto it = daw::make_output_stream_iterator( os2 );
		*it = 1;
		++it;
		*it++ = std::string( "b" );
		*it = 'c';
		CHECK_EQ( os2.str( ), std::string( "1bc" ) );
	}
	{
		// moves are kept as moves
		std::vector<std::unique_ptr<int>> src;
		for( int x : v ) {
			src.push_back( std::make_unique<int>( x ) );
		}
		std::vector<std::unique_ptr<int>> dst;
		auto b = daw::back_inserter<std::vector<std::unique_ptr<int>>>( dst );
		for( auto &p : src ) {
			*b++ = std::move( p );
		}
		CHECK_EQ( dst.size( ), v.size( ) );
		for( std::size_t i = 0; i < dst.size( ); ++i ) {
			CHECK_EQ( *dst[i], v[i] );
		}
	}
}

// ---- type erased input iterators -------------------------------------------------
#include "daw/iterator/InputIterator.h"
PROP( erased_input, ( { .leak = true } ) ) {
	std::vector<int> v( s.draw( 8 ) );
	for( int &x : v ) {
		x = s.range<int>( 0, 99 );
	}
	s.nontrivial( v.size( ) > 1 );
	s.note( [&] { return "size " + std::to_string( v.size( ) ); } );
	auto walk = [&]( auto const &c ) {
		using It = daw::InputIterator<int>;
		It const last{ c.end( ) };
		It it{ c.begin( ) };
		CHECK( it.are_same_base_iterator_type( last ) );
		CHECK_EQ( it == last, c.empty( ) );
		std::vector<std::pair<It, std::size_t>> kept; // copies stay where they were
		std::size_t at = 0;
		auto plain = c.begin( );
		for( std::size_t steps = s.draw( 20 ); steps > 0; --steps ) {
			switch( s.draw( 5 ) ) {
			case 0:
				if( at < v.size( ) ) {
					CHECK( &++it == &it );
					++at;
					++plain;
				}
				break;
			case 1:
				if( at < v.size( ) ) {
					It const old = it++;
					CHECK( old == It( plain ) );
					CHECK_EQ( *old, v[at] );
					++at;
					++plain;
				}
				break;
			case 2:
				kept.emplace_back( it, at );
				break;
			case 3: // copy assignment leaves the source in place
				if( not kept.empty( ) ) {
					auto const k = s.below( kept.size( ) );
					CHECK( &( it = kept[k].first ) == &it );
					at = kept[k].second;
					plain = std::next( c.begin( ), std::ptrdiff_t( at ) );
				}
				break;
			case 4: {
				It tmp = std::move( it );
				CHECK( tmp == It( plain ) );
				CHECK( &( it = std::move( tmp ) ) == &it );
				break;
			}
			default: {
				auto &self = it;
				it = self;
			}
			}
			CHECK( it == It( plain ) );
			CHECK_EQ( it == last, at == v.size( ) );
			CHECK_EQ( it != last, at != v.size( ) );
			if( at < v.size( ) ) {
				CHECK_EQ( *it, v[at] );
				CHECK( it.operator->( ) == &*plain );
			}
			for( auto const &k : kept ) {
				CHECK( k.first == It( std::next( c.begin( ), std::ptrdiff_t( k.second ) ) ) );
				if( k.second < v.size( ) ) {
					CHECK_EQ( *k.first, v[k.second] );
				}
			}
		}
	};
	walk( v );
	walk( std::list<int>( v.begin( ), v.end( ) ) );
	std::deque<int> const d( v.begin( ), v.end( ) );
	walk( d );
	auto rng = daw::InputRange<int>( d );
	CHECK( std::size_t( std::count_if( v.begin( ), v.end( ), []( int ) { return true; } ) ) == v.size( ) );
	std::vector<int> got;
	for( auto f = rng.begin( ); f != rng.end( ); ++f ) {
		got.push_back( *f );
	}
	CHECK( got == v );
	auto rng2 = daw::InputRange<int>( d.rbegin( ), d.rend( ) );
	got.clear( );
	auto const &crng2 = rng2;
	for( auto f = crng2.cbegin( ); f != crng2.cend( ); f++ ) {
		got.push_back( *f );
	}
	std::reverse( got.begin( ), got.end( ) );
	CHECK( got == v );
	auto e = daw::InputIterator<int>( Exact<int>::from( v ).data( ) );
	CHECK( not e.are_same_base_iterator_type( rng.begin( ) ) );
}
#endif
