// C30: histories of narrowing, slicing, popping, searching and writing on spans
// and views over buffers, against a window of indexes into the buffer: the
// elements a view exposes are compared by address, the buffer by value.
// nontrivial: at least three operations changed the window or the buffer.
// pbt-flags: -Wno-self-move
// pbt-parts: 3
// pbt-scale: 4
#include "pbt.h"
#include <array>
#include <forward_list>
#include <limits>
#include <list>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <vector>

#include "daw/impl/daw_view_tags.h"
#if PBT_PART == 0
#include "daw/daw_span.h"
#include "daw/daw_view.h"
#elif PBT_PART == 1
#include "daw/daw_contiguous_view.h"
#include "daw/daw_iter_view.h"
#else
#include "daw/daw_span_writer.h"
#endif
using namespace pbt;

namespace {
	template<typename T>
	T gen( Src &s ) {
		if constexpr( std::is_same_v<T, std::string> ) {
			return std::string( s.below( 3 ), 'x' );
		} else if constexpr( std::is_same_v<T, Tracked> ) {
			return Tracked( s.range<int>( 0, 5 ) );
		} else {
			return static_cast<T>( s.below( 4 ) );
		}
	}
	template<typename T>
	bool same( T const &a, T const &b ) {
		return a == b;
	}

	// The buffer, where its elements are and what they should be
	template<typename Cont>
	struct Buffer {
		using T = typename Cont::value_type;
		Cont c{ };
		std::vector<T *> addr{ };
		std::vector<T> want{ };
		explicit Buffer( Src &s, std::size_t n ) {
			for( std::size_t i = 0; i < n; ++i ) {
				want.push_back( gen<T>( s ) );
			}
			c = Cont( want.begin( ), want.end( ) );
			for( auto &e : c ) {
				addr.push_back( &e );
			}
		}
		auto it( std::size_t i ) {
			return std::next( c.begin( ), static_cast<std::ptrdiff_t>( i ) );
		}
		void check( ) {
			std::size_t i = 0;
			for( auto &e : c ) {
				CHECK( &e == addr[i] );
				CHECK( same<T>( e, want[i] ) );
				++i;
			}
			CHECK_EQ( i, want.size( ) );
		}
	};

	struct Kind {
		bool bidi = true;        // has a way back
		bool writes = true;      // elements can be assigned
		bool pop_takes_front = false;
		bool sub_throws = false; // subspan past the end throws, otherwise it is clipped
		bool pop_clips = false;  // popping more than there is pops all there is
	};

	template<Kind K, typename V, typename B>
	void exposes( V &v, B &buf, std::size_t b, std::size_t e ) {
		using T = typename B::T;
		auto const at = [&]( std::size_t i ) {
			return static_cast<T const *>( buf.addr[b + i] );
		};
		auto const n = e - b;
		CHECK_EQ( v.size( ), n );
		CHECK_EQ( v.empty( ), n == 0 );
		std::size_t i = 0;
		for( auto &&x : v ) {
			CHECK( i < n and &x == at( i ) );
			++i;
		}
		CHECK_EQ( i, n );
		V const &cv = v;
		i = 0;
		for( auto &&x : cv ) {
			CHECK( i < n and &x == at( i ) );
			++i;
		}
		CHECK_EQ( i, n );
		i = 0;
		for( auto p = v.cbegin( ); p != v.cend( ); ++p ) {
			CHECK( i < n and &*p == at( i ) );
			++i;
		}
		CHECK_EQ( i, n );
		if constexpr( K.bidi ) {
			auto const back = [&]( auto f, auto l ) {
				std::size_t k = 0;
				for( ; f != l; ++f ) {
					CHECK( k < n and &*f == at( n - 1 - k ) );
					++k;
				}
				CHECK_EQ( k, n );
			};
			back( v.rbegin( ), v.rend( ) );
			back( cv.rbegin( ), cv.rend( ) );
			back( v.crbegin( ), v.crend( ) );
		}
		if( n > 0 ) {
			if constexpr( requires { v.front( ); } ) {
				CHECK( &v.front( ) == at( 0 ) );
				CHECK( &cv.front( ) == at( 0 ) );
			}
			if constexpr( requires { v.back( ); } ) {
				CHECK( &v.back( ) == at( n - 1 ) );
				CHECK( &cv.back( ) == at( n - 1 ) );
			}
		}
		if constexpr( requires { v.size_bytes( ); } ) {
			CHECK_EQ( v.size_bytes( ), n * sizeof( T ) );
		}
		if constexpr( requires { v.ssize( ); } ) {
			CHECK_EQ( v.ssize( ), static_cast<std::ptrdiff_t>( n ) );
		}
		if constexpr( requires { { &*v.data( ) }; } ) {
			if( n > 0 ) {
				CHECK( &*v.data( ) == at( 0 ) );
				CHECK( &*cv.data( ) == at( 0 ) );
			}
		}
		if constexpr( requires { v.data_end( ); } ) {
			CHECK( v.data_end( ) - v.data( ) == static_cast<std::ptrdiff_t>( n ) );
			CHECK( cv.data_end( ) - cv.data( ) == static_cast<std::ptrdiff_t>( n ) );
		}
	}

	template<Kind K, typename V, typename Cont, typename Make>
	void history( Src &s, Make make ) {
		using B = Buffer<Cont>;
		using T = typename B::T;
		std::size_t const size = s.longlen( 24 );
		B buf( s, size );
		std::size_t b = s.below( size + 1 );
		std::size_t e = b + s.below( size - b + 1 );
		V v = make( buf, b, e );
		exposes<K>( v, buf, b, e );
		int effects = 0;
		auto const steps = s.len( 24 );
		for( std::size_t st = 0; st < steps; ++st ) {
			std::size_t const n = e - b;
			std::size_t const b0 = b, e0 = e;
			// how many of the elements, and how far beyond the end
			std::size_t const k = s.below( n + 1 );
			std::size_t const over = s.chance( 1, 3 ) ? s.pick<std::size_t>( { n + 1, n + 7, std::size_t( -1 ), std::size_t( -1 ) - 3 } ) : k;
			auto const take = [&]( V &r, std::size_t xb, std::size_t xe ) {
				exposes<K>( r, buf, xb, xe );
				if( s.chance( 1, 4 ) ) { // go on with the sub-view
					s.label( "went into the sub-view" );
					v = r;
					b = xb;
					e = xe;
				}
			};
			switch( s.below( 16 ) ) {
			case 0:
				if constexpr( K.pop_clips and not requires { v.pop_front( n ); } ) {
					v.remove_prefix( over );
					b += std::min( over, n );
				} else {
					v.remove_prefix( k );
					b += k;
				}
				break;
			case 1:
				if( n > 0 ) {
					v.remove_prefix( );
					++b;
				}
				break;
			case 2:
				if constexpr( requires { v.remove_suffix( k ); } ) {
					if constexpr( K.pop_clips and not requires { v.pop_back( n ); } ) {
						v.remove_suffix( over );
						e -= std::min( over, n );
					} else {
						v.remove_suffix( k );
						e -= k;
					}
				}
				break;
			case 3:
				if constexpr( requires { v.remove_suffix( ); } ) {
					if( n > 0 ) {
						v.remove_suffix( );
						--e;
					}
				}
				break;
			case 4:
				if( n > 0 ) {
					auto const x = v.pop_front( );
					CHECK( same<T>( x, buf.want[b] ) );
					++b;
				}
				break;
			case 5:
				if constexpr( requires { v.pop_back( ); } ) {
					if( n > 0 ) {
						auto const x = v.pop_back( );
						CHECK( same<T>( x, buf.want[e - 1] ) );
						--e;
					}
				}
				break;
			case 6:
				if constexpr( requires { v.pop_front( k ); } ) {
					auto const c = K.pop_clips ? std::min( over, n ) : k;
					V r = v.pop_front( K.pop_clips ? over : k );
					b += c;
					take( r, b - c, b );
				}
				break;
			case 7:
				if constexpr( requires { v.pop_back( k ); } ) {
					auto const c = K.pop_clips ? std::min( over, n ) : k;
					V r = v.pop_back( K.pop_clips ? over : k );
					e -= c;
					take( r, e, e + c );
				}
				break;
			case 8:
				if constexpr( requires { v.subspan( k, k ); } ) {
					std::size_t const count = s.chance( 1, 4 ) ? std::size_t( -1 ) - s.below( 3 ) : s.below( n + 2 );
					bool const dflt = s.chance( 1, 4 );
					if( K.sub_throws and over > n ) {
						CHECK_THROWS( std::out_of_range, (void)v.subspan( over, count ) );
						CHECK_THROWS( std::out_of_range, (void)std::as_const( v ).subspan( over ) );
						break;
					}
					auto const xb = b + std::min( over, n );
					auto const xe = dflt ? e : xb + std::min( count, e - xb );
					V r = dflt ? v.subspan( over ) : v.subspan( over, count );
					if constexpr( requires { v.subspan( ); } ) {
						auto whole = v.subspan( );
						exposes<K>( whole, buf, b, e );
						auto cwhole = std::as_const( v ).subspan( );
						exposes<K>( cwhole, buf, b, e );
					}
					auto cr = std::as_const( v ).subspan( over, count );
					exposes<K>( cr, buf, xb, xb + std::min( count, e - xb ) );
					take( r, xb, xe );
				}
				break;
			case 9:
				if constexpr( requires { v.pop( buf.want[0] ); } ) {
					T x = gen<T>( s );
					T const x0 = x;
					CHECK_EQ( v.pop( x ), n > 0 );
					if( n == 0 ) {
						CHECK( same<T>( x, x0 ) );
					} else if( K.pop_takes_front ) {
						CHECK( same<T>( x, buf.want[b] ) );
						++b;
					} else {
						CHECK( same<T>( x, buf.want[e - 1] ) );
						--e;
					}
				}
				break;
			case 10: // access, and the check
				if constexpr( requires { v.at( k ); } ) {
					if( over < n ) {
						CHECK( &v.at( over ) == buf.addr[b + over] );
						CHECK( &std::as_const( v ).at( over ) == buf.addr[b + over] );
					} else {
						CHECK_THROWS( std::out_of_range, (void)v.at( over ) );
						CHECK_THROWS( std::out_of_range, (void)std::as_const( v ).at( over ) );
					}
				}
				if( k < n ) {
					CHECK( &v[k] == buf.addr[b + k] );
					CHECK( &std::as_const( v )[k] == buf.addr[b + k] );
				}
				break;
			case 11: // write
				if constexpr( K.writes ) {
					if( k < n ) {
						T const x = gen<T>( s );
						std::size_t where = k;
						switch( s.below( 6 ) ) {
						case 0:
							v[k] = x;
							break;
						case 1:
							if constexpr( requires { v.at( k ); } ) {
								v.at( k ) = x;
								break;
							}
							[[fallthrough]];
						case 2:
							*std::next( v.begin( ), static_cast<std::ptrdiff_t>( k ) ) = x;
							break;
						case 3:
							v.front( ) = x;
							where = 0;
							break;
						case 4:
							if constexpr( requires { v.back( ); } ) {
								v.back( ) = x;
								where = n - 1;
								break;
							}
							[[fallthrough]];
						default:
							if constexpr( K.bidi ) {
								*std::next( v.rbegin( ), static_cast<std::ptrdiff_t>( k ) ) = x;
								where = n - 1 - k;
							} else {
								v[k] = x;
							}
						}
						buf.want[b + where] = x;
						++effects;
						buf.check( );
					}
				}
				break;
			case 12: // search
				if constexpr( requires { v.find( buf.want[0] ); } ) {
					// also for an element of the view itself
					T const own = gen<T>( s );
					T const &x = k < n and s.boolean( ) ? *buf.addr[b + k] : own;
					std::size_t f = b, g = b;
					while( f < e and not same<T>( buf.want[f], x ) ) {
						++f;
					}
					while( g < e and same<T>( buf.want[g], x ) ) {
						++g;
					}
					CHECK( std::distance( v.begin( ), v.find( x ) ) == static_cast<std::ptrdiff_t>( f - b ) );
					CHECK( std::distance( v.cbegin( ), std::as_const( v ).find( x ) ) == static_cast<std::ptrdiff_t>( f - b ) );
					CHECK( std::distance( v.begin( ), v.find_first_not_of( x ) ) == static_cast<std::ptrdiff_t>( g - b ) );
					CHECK( std::distance( v.cbegin( ), std::as_const( v ).find_first_not_of( x ) ) == static_cast<std::ptrdiff_t>( g - b ) );
				}
				break;
			case 13: // remove up to an element
				if constexpr( requires { v.find( buf.want[0] ); } ) {
					T const own = gen<T>( s );
					T const &x = k < n and s.boolean( ) ? *buf.addr[b + k] : own;
					bool const until = s.boolean( ), discard = s.boolean( ), pop = s.boolean( );
					std::size_t f = b;
					while( f < e and same<T>( buf.want[f], x ) != until ) {
						++f;
					}
					b = discard ? std::min( f + 1, e ) : f;
					if( not pop ) {
						V *r = nullptr;
						if( until ) {
							r = &( discard ? v.remove_prefix_until( x, daw::discard_t{ } ) : v.remove_prefix_until( x ) );
						} else {
							r = &( discard ? v.remove_prefix_while( x, daw::discard_t{ } ) : v.remove_prefix_while( x ) );
						}
						CHECK( r == &v );
					} else {
						V r = until ? ( discard ? v.pop_front_until( x, daw::discard_t{ } ) : v.pop_front_until( x ) )
						            : ( discard ? v.pop_front_while( x, daw::discard_t{ } ) : v.pop_front_while( x ) );
						take( r, b0, f );
					}
				}
				break;
			case 14: // grow back within the buffer
				if constexpr( requires { v.remove_prefix( k, daw::dont_clip_to_bounds_t{ } ); } ) {
					if( s.chance( 1, 4 ) ) {
						v.remove_prefix( k, daw::dont_clip_to_bounds_t{ } );
						b += k;
						break;
					}
				}
				if constexpr( requires { v.remove_suffix( k, daw::dont_clip_to_bounds_t{ } ); } ) {
					if( s.chance( 1, 4 ) ) {
						v.remove_suffix( k, daw::dont_clip_to_bounds_t{ } );
						e -= k;
						break;
					}
				}
				if constexpr( requires { v.add_prefix( k ); } ) {
					if( s.boolean( ) ) {
						auto const a = s.below( b + 1 );
						if( a == 1 and s.boolean( ) ) {
							v.add_prefix( );
						} else {
							v.add_prefix( a );
						}
						b -= a;
					} else if constexpr( requires { v.add_suffix( k ); } ) {
						auto const a = s.below( size - e + 1 );
						if( a == 1 and s.boolean( ) ) {
							v.add_suffix( );
						} else {
							v.add_suffix( a );
						}
						e += a;
					}
				}
				break;
			default: // another view: compared, copied, assigned
				{
					std::size_t const b2 = s.below( size + 1 );
					std::size_t const e2 = b2 + s.below( std::min( size - b2, s.boolean( ) ? n : size ) + 1 );
					V w = make( buf, b2, e2 );
					if constexpr( requires { v < w; } ) {
						std::vector<T> const x( buf.want.begin( ) + static_cast<long>( b ), buf.want.begin( ) + static_cast<long>( e ) );
						std::vector<T> const y( buf.want.begin( ) + static_cast<long>( b2 ), buf.want.begin( ) + static_cast<long>( e2 ) );
						CHECK_EQ( v == w, x == y );
						CHECK_EQ( v != w, x != y );
						CHECK_EQ( v < w, x < y );
						CHECK_EQ( v > w, x > y );
						CHECK_EQ( v <= w, x <= y );
						CHECK_EQ( v >= w, x >= y );
					}
					V copy( v );
					exposes<K>( copy, buf, b, e );
					if constexpr( requires { std::as_const( v ).copy( ); } ) {
						V c2 = std::as_const( v ).copy( );
						exposes<K>( c2, buf, b, e );
					}
					if( s.boolean( ) ) {
						v = w;
						b = b2;
						e = e2;
						exposes<K>( copy, buf, b0, e0 );
					}
				}
			}
			effects += b != b0 or e != e0;
			exposes<K>( v, buf, b, e );
			buf.check( );
		}
		if( effects >= 3 ) {
			s.nontrivial( );
		}
	}

	inline constexpr auto pointers = []( auto &buf, std::size_t b, std::size_t e ) {
		return std::pair( buf.c.data( ) + b, buf.c.data( ) + e );
	};
} // namespace

#if PBT_PART == 0
namespace {
	inline constexpr Kind span_kind{ .sub_throws = true };
	template<typename S, Kind K, typename T>
	void span_history( Src &s ) {
		bool const counted = s.boolean( );
		history<K, S, std::vector<T>>( s, [&]( auto &buf, std::size_t b, std::size_t e ) {
			auto [f, l] = pointers( buf, b, e );
			return counted ? S( f, e - b ) : S( f, l );
		} );
	}
} // namespace

PROP( span_histories, ( { .cases = 60000 } ) ) {
	switch( s.below( 3 ) ) {
	case 0:
		return span_history<daw::span<int>, span_kind, int>( s );
	case 1:
		return span_history<daw::span<std::string>, span_kind, std::string>( s );
	default:
		return span_history<daw::span<unsigned char>, span_kind, unsigned char>( s );
	}
}

namespace {
	inline constexpr Kind cspan_kind{ .writes = false, .sub_throws = true };
}
PROP( const_span_histories, ( { .cases = 40000 } ) ) {
	switch( s.below( 2 ) ) {
	case 0:
		return span_history<daw::span<int const>, cspan_kind, int>( s );
	default:
		return span_history<daw::span<std::string const>, cspan_kind, std::string>( s );
	}
}

// every way to make one
PROP( span_makes, ( { .cases = 20000 } ) ) {
	auto const n = s.longlen( 16 );
	auto store = Exact<int>( n );
	int *const p = store.data( );
	for( std::size_t i = 0; i < n; ++i ) {
		p[i] = static_cast<int>( i );
	}
	auto const is = [&]( auto &&v, int const *f, std::size_t c ) {
		CHECK_EQ( v.size( ), c );
		CHECK_EQ( v.empty( ), c == 0 );
		CHECK( c == 0 or v.data( ) == f );
		CHECK_EQ( static_cast<std::size_t>( v.end( ) - v.begin( ) ), c );
	};
	is( daw::span<int>( p, n ), p, n );
	is( daw::span<int const>( p, n ), p, n );
	is( daw::span<int>( p, p + n ), p, n );
	is( daw::span<int const>( p, p + n ), p, n );
	is( daw::span( p, p + n ), p, n );
	is( daw::span( p, n ), p, n );
	is( daw::span( static_cast<int const *>( p ), n ), p, n );
	CHECK_STATIC( std::is_same_v<decltype( daw::span( p, n ) ), daw::span<int>> );
	CHECK_STATIC( std::is_same_v<decltype( daw::span( static_cast<int const *>( p ), n ) ), daw::span<int const>> );
	// nothing is viewed from backwards bounds and from no memory
	if( n > 0 ) {
		is( daw::span<int>( p + n, p ), p, 0 );
		is( daw::span<int const>( p + n, p ), p, 0 );
		s.nontrivial( );
	}
	int *const none = nullptr;
	is( daw::span<int>( none, n ), p, 0 );
	is( daw::span<int const>( none, n ), p, 0 );
	is( daw::span<int>( ), p, 0 );
	is( daw::span<int const>( nullptr ), p, 0 );
	is( daw::span<int>( nullptr, n ), p, 0 );
	std::vector<int> vec( p, p + n );
	daw::span<int> a( vec );
	is( a, vec.data( ), n );
	daw::span<int const> c( vec );
	is( c, vec.data( ), n );
	daw::span<int const> ca( a );
	is( ca, vec.data( ), n );
	ca = a;
	is( ca, vec.data( ), n );
	is( daw::span( vec ), vec.data( ), n );
	is( daw::span( std::as_const( vec ) ), vec.data( ), n );
	CHECK_STATIC( std::is_same_v<decltype( daw::span( std::as_const( vec ) ) ), daw::span<int const>> );
	daw::span<int> moved( std::move( a ) );
	is( moved, vec.data( ), n );
	CHECK_STATIC( not std::is_constructible_v<daw::span<int>, daw::span<int const>> );
	CHECK_STATIC( not std::is_constructible_v<daw::span<int>, daw::span<int> const &> );
	int arr[5]{ };
	is( daw::span<int>( arr ), arr, 5 );
	is( daw::span<int const>( arr ), arr, 5 );
	is( daw::span( arr ), arr, 5 );
}

namespace {
	inline constexpr Kind view_kind{ .pop_takes_front = true, .pop_clips = true };
	template<typename Cont>
	void view_history( Src &s ) {
		using It = typename Cont::iterator;
		history<view_kind, daw::view<It>, Cont>( s, [&]( auto &buf, std::size_t b, std::size_t e ) {
			return daw::view( buf.it( b ), buf.it( e ) );
		} );
	}
} // namespace

PROP( view_histories, ( { .cases = 60000 } ) ) {
	switch( s.below( 3 ) ) {
	case 0:
		return view_history<std::list<int>>( s );
	case 1:
		return view_history<std::vector<std::string>>( s );
	default:
		return history<view_kind, daw::view<int *>, std::vector<int>>( s, [&]( auto &buf, std::size_t b, std::size_t e ) {
			auto [f, l] = pointers( buf, b, e );
			return daw::view( f, l );
		} );
	}
}
#endif

#if PBT_PART == 1
namespace {
	inline constexpr Kind contig_kind{ .pop_clips = true };
	template<typename V, Kind K, typename T>
	void contig_history( Src &s ) {
		bool const counted = s.boolean( );
		history<K, V, std::vector<T>>( s, [&]( auto &buf, std::size_t b, std::size_t e ) {
			auto [f, l] = pointers( buf, b, e );
			return counted ? V( f, e - b ) : V( f, l );
		} );
	}
	inline constexpr Kind ccontig_kind{ .writes = false, .pop_clips = true };
} // namespace

PROP( contiguous_view_histories, ( { .cases = 60000 } ) ) {
	switch( s.below( 3 ) ) {
	case 0:
		return contig_history<daw::contiguous_view<int>, contig_kind, int>( s );
	case 1:
		return contig_history<daw::contiguous_view<std::string>, contig_kind, std::string>( s );
	default:
		return contig_history<daw::contiguous_view<char, true>, contig_kind, char>( s );
	}
}
PROP( const_contiguous_view_histories, ( { .cases = 40000 } ) ) {
	switch( s.below( 2 ) ) {
	case 0:
		return contig_history<daw::contiguous_view<int const>, ccontig_kind, int>( s );
	default:
		return contig_history<daw::contiguous_view<std::string const>, ccontig_kind, std::string>( s );
	}
}

PROP( contiguous_view_makes, ( { .cases = 10000 } ) ) {
	auto const n = s.longlen( 16 );
	std::vector<char> vec( n );
	for( std::size_t i = 0; i < n; ++i ) {
		vec[i] = static_cast<char>( 'a' + i );
	}
	if( n > 1 ) {
		s.nontrivial( );
	}
	auto const is = [&]( auto &&v, char const *f, std::size_t c ) {
		CHECK_EQ( v.size( ), c );
		CHECK_EQ( v.empty( ), c == 0 );
		CHECK( c == 0 or v.data( ) == f );
		CHECK_EQ( static_cast<std::size_t>( v.end( ) - v.begin( ) ), c );
	};
	is( daw::contiguous_view( vec ), vec.data( ), n );
	is( daw::contiguous_view( std::as_const( vec ) ), vec.data( ), n );
	CHECK_STATIC( std::is_same_v<decltype( daw::contiguous_view( vec ) ), daw::contiguous_view<char>> );
	CHECK_STATIC( std::is_same_v<decltype( daw::contiguous_view( std::as_const( vec ) ) ), daw::contiguous_view<char const>> );
	auto const k = s.below( n + 1 );
	is( daw::contiguous_view( vec, k ), vec.data( ), k );
	is( daw::contiguous_view( std::as_const( vec ), k ), vec.data( ), k );
	is( daw::contiguous_view( vec.data( ), k ), vec.data( ), k );
	is( daw::contiguous_view( vec.data( ), vec.data( ) + n ), vec.data( ), n );
	if( n > 0 and s.chance( 1, 64 ) ) {
		CHECK( aborts( [&] {
			(void)daw::contiguous_view<char>( vec, n + 1 );
		} ) );
		CHECK( aborts( [&] {
			(void)daw::contiguous_view<char const>( vec, n + 1 );
		} ) );
	}
	daw::contiguous_view<char> a( vec );
	daw::contiguous_view<char const> b( a );
	is( b, vec.data( ), n );
	is( daw::contiguous_view<char>{ }, nullptr, 0 );
	is( daw::contiguous_view<char const>{ }, nullptr, 0 );
	std::string const want( vec.begin( ), vec.end( ) );
	CHECK_EQ( static_cast<std::string>( b ), want );
	CHECK_EQ( static_cast<std::string_view>( b ), want );
	CHECK_EQ( static_cast<std::string>( a ), want );
	// distances and steps of the iterators
	auto const i = s.below( n + 1 ), j = s.below( n + 1 );
	auto const d = static_cast<std::ptrdiff_t>( j ) - static_cast<std::ptrdiff_t>( i );
	auto p = a.begin( ) + static_cast<std::ptrdiff_t>( i );
	auto const q = a.begin( ) + static_cast<std::ptrdiff_t>( j );
	CHECK( q - p == d );
	CHECK( p + d == q );
	CHECK( d + p == q );
	CHECK( q - d == p );
	CHECK_EQ( p < q, i < j );
	CHECK_EQ( p <= q, i <= j );
	CHECK_EQ( p > q, i > j );
	CHECK_EQ( p >= q, i >= j );
	CHECK_EQ( p == q, i == j );
	CHECK_EQ( p != q, i != j );
	daw::contiguous_view<char>::const_iterator const cp = p;
	CHECK( cp.base( ) == p.base( ) );
	if( j < n ) {
		CHECK( &p[d] == &vec[j] );
		CHECK( q.operator->( ) == &vec[j] );
	}
	auto r = p;
	r += d;
	CHECK( r == q );
	r -= d;
	CHECK( r == p );
	if( i < n ) {
		CHECK( r++ == p );
		CHECK( r - p == 1 );
		CHECK( r-- == p + 1 );
		CHECK( r == p );
		CHECK( ++r == p + 1 );
		CHECK( --r == p );
	}
}

namespace {
	inline constexpr Kind iter_kind{ .pop_clips = true };
	template<typename Cont, Kind K>
	void iter_history( Src &s ) {
		using It = typename Cont::iterator;
		using V = daw::iter_view<It>;
		bool const counted = s.boolean( );
		history<K, V, Cont>( s, [&]( auto &buf, std::size_t b, std::size_t e ) {
			return counted ? V( buf.it( b ), e - b ) : V( buf.it( b ), buf.it( e ) );
		} );
	}
} // namespace

PROP( iter_view_histories, ( { .cases = 60000 } ) ) {
	switch( s.below( 3 ) ) {
	case 0:
		return iter_history<std::list<int>, iter_kind>( s );
	case 1:
		return iter_history<std::vector<std::string>, iter_kind>( s );
	default:
		return history<iter_kind, daw::iter_view<int *>, std::vector<int>>( s, [&]( auto &buf, std::size_t b, std::size_t e ) {
			auto [f, l] = pointers( buf, b, e );
			return daw::iter_view<int *>( f, l );
		} );
	}
}

PROP( iter_view_makes, ( { .cases = 10000 } ) ) {
	auto const n = s.longlen( 16 );
	std::list<int> lst;
	std::vector<int> vec;
	std::forward_list<int> fwd;
	for( std::size_t i = 0; i < n; ++i ) {
		lst.push_back( static_cast<int>( i ) );
		vec.push_back( static_cast<int>( i ) );
		fwd.push_front( static_cast<int>( n - 1 - i ) );
	}
	if( n > 1 ) {
		s.nontrivial( );
	}
	auto const is = [&]( auto &&v, std::size_t c ) {
		CHECK_EQ( v.size( ), c );
		CHECK_EQ( v.empty( ), c == 0 );
		std::size_t i = 0;
		for( int x : v ) {
			CHECK_EQ( x, static_cast<int>( i ) );
			++i;
		}
		CHECK_EQ( i, c );
	};
	is( daw::iter_view<std::list<int>::iterator>( lst ), n );
	is( daw::iter_view<std::vector<int>::iterator>( vec ), n );
	is( daw::iter_view<std::vector<int>::const_iterator>( vec ), n );
	is( daw::iter_view( lst.begin( ), lst.end( ) ), n );
	is( daw::iter_view<int *>( ), 0 );
	daw::iter_view<std::forward_list<int>::iterator> f( fwd.begin( ), fwd.end( ) );
	is( f, n );
	auto const k = s.below( n + 1 );
	is( f.subspan( 0, k ), k );
	auto const rest = f.subspan( k );
	CHECK_EQ( rest.size( ), n - k );
	CHECK( k == n or rest.front( ) == static_cast<int>( k ) );
	int arr[4]{ 0, 1, 2, 3 };
	is( daw::iter_view( arr ), 4 );
}
#endif

#if PBT_PART == 2
namespace {
	template<typename T>
	struct Out {
		std::vector<T> buf{ }, want{ };
		std::size_t pos = 0, end = 0;
		explicit Out( Src &s ) {
			auto const n = s.longlen( 40 );
			for( std::size_t i = 0; i < n; ++i ) {
				want.push_back( static_cast<T>( s.below( 100 ) ) );
			}
			buf = want;
			pos = s.below( n + 1 );
			end = pos + s.below( n - pos + 1 );
		}
		std::span<T> window( ) {
			return std::span<T>( buf ).subspan( pos, end - pos );
		}
		bool room( std::size_t n ) const {
			return n <= end - pos;
		}
		void put( T x ) {
			want[pos++] = x;
		}
		void check( ) const {
			CHECK_EQ( buf, want );
		}
	};

	// what is written: up to four values of several types, a range of another
	// type or a literal.
	template<typename T, typename Values, typename Range, typename Literal>
	int one_write( Src &s, Out<T> &o, Values values, Range range, Literal literal ) {
		int const a = s.range<int>( 0, 100 );
		char const b = static_cast<char>( s.range<int>( 0, 100 ) );
		long const c = s.range<int>( 0, 100 );
		double const d = s.range<int>( 0, 100 );
		switch( s.below( 8 ) ) {
		case 0:
			values( );
			return 0;
		case 1:
			if( o.room( 1 ) ) {
				o.put( static_cast<T>( a ) );
				values( a );
				return 1;
			}
			break;
		case 2:
			if( o.room( 3 ) ) {
				o.put( static_cast<T>( b ) );
				o.put( static_cast<T>( a ) );
				o.put( static_cast<T>( d ) );
				values( b, a, d );
				return 1;
			} else if( s.chance( 1, 64 ) ) {
				CHECK( aborts( [&] { values( b, a, d ); } ) );
				return 0;
			}
			break;
		case 3:
			if( o.room( 4 ) ) {
				for( auto x : { static_cast<T>( c ), static_cast<T>( c ), static_cast<T>( b ), static_cast<T>( d ) } ) {
					o.put( x );
				}
				values( c, c, b, d );
				return 1;
			}
			break;
		case 4: {
			std::vector<short> r( s.longlen( 10 ) );
			for( auto &x : r ) {
				x = s.range<short>( 0, 100 );
			}
			if( o.room( r.size( ) ) ) {
				for( auto x : r ) {
					o.put( static_cast<T>( x ) );
				}
				range( r );
				return not r.empty( );
			} else if( s.chance( 1, 64 ) ) {
				CHECK( aborts( [&] { range( r ); } ) );
			}
			break;
		}
		case 5: {
			std::string const r( s.longlen( 10 ), 'q' );
			if( o.room( r.size( ) ) ) {
				for( auto x : r ) {
					o.put( static_cast<T>( x ) );
				}
				if( s.boolean( ) ) {
					range( std::string_view( r ) );
				} else {
					range( r );
				}
				return not r.empty( );
			}
			break;
		}
		case 6:
			if( o.room( 5 ) ) {
				for( char x : { 'a', '\0', 'b', 'c', '\0' } ) {
					o.put( static_cast<T>( x ) );
				}
				literal( "a\0bc\0" );
				return 1;
			} else if( s.chance( 1, 64 ) ) {
				CHECK( aborts( [&] { literal( "a\0bc\0" ); } ) );
			}
			break;
		default:
			if( s.boolean( ) ) {
				literal( "" );
			} else if( o.room( 1 ) ) {
				o.put( static_cast<T>( 'z' ) );
				literal( "z" );
			}
		}
		return 0;
	}

	template<typename T>
	void free_writes( Src &s ) {
		Out<T> o( s );
		std::span<T> sp = o.window( );
		int effects = 0;
		for( auto n = s.len( 10 ); n > 0; --n ) {
			effects += one_write<T>(
			  s, o,
			  [&]( auto... v ) { sp = daw::write_to_span( sp, v... ); },
			  [&]( auto const &r ) { sp = daw::write_to_span( sp, r ); },
			  [&]( auto &lit ) { sp = daw::write_to_span_ntz( sp, lit ); } );
			CHECK( sp.data( ) == o.buf.data( ) + o.pos );
			CHECK_EQ( sp.size( ), o.end - o.pos );
			o.check( );
		}
		if( effects > 1 ) {
			s.nontrivial( );
		}
	}

	template<typename T>
	void writer( Src &s ) {
		Out<T> o( s );
		auto win = o.window( );
		auto const n = win.size( );
		std::size_t const fewer = s.below( n + 1 );
		bool const all = s.boolean( );
		if( not all and s.chance( 1, 64 ) ) {
			CHECK( aborts( [&] { (void)daw::span_writer<T>( win, n + 1 ); } ) );
		}
		daw::span_writer<T> w = all ? daw::span_writer<T>( win ) : daw::span_writer<T>( win, fewer );
		if( not all ) {
			o.end = o.pos + fewer;
		}
		int effects = 0;
		for( auto steps = s.len( 16 ); steps > 0; --steps ) {
			auto const size = o.end - o.pos;
			auto const k = s.below( size + 1 );
			switch( s.below( 5 ) ) {
			case 0:
				CHECK( &w.remove_prefix( k ) == &w );
				o.pos += k;
				break;
			case 1:
				if( k < size ) {
					CHECK( &w[k] == o.buf.data( ) + o.pos + k );
					CHECK( &std::as_const( w )[k] == o.buf.data( ) + o.pos + k );
					w[k] = o.want[o.pos + k] = static_cast<T>( s.below( 100 ) );
				} else if( s.chance( 1, 64 ) ) {
					CHECK( aborts( [&] { (void)w[size]; } ) );
					CHECK( aborts( [&] { (void)std::as_const( w )[size]; } ) );
					CHECK( aborts( [&] { (void)w.remove_prefix( size + 1 ); } ) );
					CHECK( aborts( [&] { (void)w.subspan( size + 1 ); } ) );
				}
				break;
			case 2: {
				auto r = w.subspan( k );
				CHECK( r.data( ) == o.buf.data( ) + o.pos + k );
				CHECK_EQ( r.size( ), size - k );
				if( s.boolean( ) ) {
					w = r;
					o.pos += k;
				}
				break;
			}
			default:
				effects += one_write<T>(
				  s, o,
				  [&]( auto... v ) { CHECK( &w.write( v... ) == &w ); },
				  [&]( auto const &r ) { CHECK( &w.write( r ) == &w ); },
				  [&]( auto &lit ) { CHECK( &w.write_ntz( lit ) == &w ); } );
			}
			CHECK( w.data( ) == o.buf.data( ) + o.pos );
			CHECK( std::as_const( w ).data( ) == o.buf.data( ) + o.pos );
			CHECK_EQ( w.size( ), o.end - o.pos );
			CHECK( w.begin( ) == w.data( ) and w.end( ) == w.data( ) + w.size( ) );
			auto const &cw = w;
			CHECK( cw.begin( ) == cw.data( ) and cw.end( ) == cw.data( ) + cw.size( ) );
			o.check( );
		}
		if( effects > 1 ) {
			s.nontrivial( );
		}
	}
} // namespace

PROP( write_to_span_histories, ( { .cases = 40000 } ) ) {
	switch( s.below( 3 ) ) {
	case 0:
		return free_writes<char>( s );
	case 1:
		return free_writes<int>( s );
	default:
		return free_writes<unsigned char>( s );
	}
}
PROP( span_writer_histories, ( { .cases = 40000 } ) ) {
	switch( s.below( 3 ) ) {
	case 0:
		return writer<char>( s );
	case 1:
		return writer<int>( s );
	default:
		return writer<unsigned char>( s );
	}
}
#endif
