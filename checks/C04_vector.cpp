// C04: daw::vector against std::vector over operation histories on two vectors,
// with lifetime-tracked elements, a checking stateful allocator, injected
// element-copy and allocation failures, and input-only iterators.
// nontrivial: the history reallocated or inserted/erased before the end.
// pbt-scale: 3
#include "pbt.h"
#include "daw/vector.h"
#include "daw/vector_algorithm.h"
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <optional>
using namespace pbt;

namespace {
	// ---- allocator with identity; checks that blocks go back where and as they came
	struct Heap {
		std::map<void *, std::pair<std::size_t, int>> blocks;
		long throw_after = -1;
	};
	Heap g_heap;

	template<typename T, bool Prop>
	struct Alloc {
		using value_type = T;
		using propagate_on_container_copy_assignment = std::bool_constant<Prop>;
		using propagate_on_container_move_assignment = std::bool_constant<Prop>;
		using propagate_on_container_swap = std::bool_constant<Prop>;
		using is_always_equal = std::false_type;
		template<typename U>
		struct rebind {
			using other = Alloc<U, Prop>;
		};
		int id = 0;
		Alloc( ) = default;
		explicit Alloc( int i ) : id( i ) {}
		template<typename U>
		Alloc( Alloc<U, Prop> const &o ) : id( o.id ) {}
		T *allocate( std::size_t n ) {
			if( g_heap.throw_after >= 0 and g_heap.throw_after-- == 0 ) {
				throw std::bad_alloc( );
			}
			void *p = ::operator new( n * sizeof( T ) + ( n == 0 ) );
			g_heap.blocks[p] = { n, id };
			return static_cast<T *>( p );
		}
		void deallocate( T *p, std::size_t n ) noexcept {
			if( p == nullptr and n == 0 ) {
				return; // harmless
			}
			auto it = g_heap.blocks.find( p );
			if( it == g_heap.blocks.end( ) ) {
				lifetime_error( "deallocating a block that was not allocated" );
				return;
			}
			if( it->second.first != n ) {
				lifetime_error( "deallocating with another size than allocated" );
			}
			if( it->second.second != id ) {
				lifetime_error( "deallocating through another allocator" );
			}
			g_heap.blocks.erase( it );
			::operator delete( p );
		}
		friend bool operator==( Alloc const &a, Alloc const &b ) {
			return a.id == b.id;
		}
		friend bool operator!=( Alloc const &a, Alloc const &b ) {
			return a.id != b.id;
		}
	};

	template<typename T>
	int val( T const &t ) {
		if constexpr( std::is_integral_v<T> ) {
			return static_cast<int>( t );
		} else if constexpr( std::is_same_v<T, std::string> ) {
			return static_cast<int>( t.size( ) );
		} else {
			t.chk( "reading a dead element" );
			return t.v;
		}
	}
	template<typename T>
	T mk( int i ) {
		if constexpr( std::is_same_v<T, std::string> ) {
			return std::string( static_cast<std::size_t>( i ), 'x' );
		} else {
			return T( i );
		}
	}

	// single-pass iterator over ints producing T
	template<typename T>
	struct InIt {
		using iterator_category = std::input_iterator_tag;
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		using pointer = T const *;
		using reference = T const &;
		T const *p = nullptr;
		reference operator*( ) const {
			return *p;
		}
		pointer operator->( ) const {
			return p;
		}
		InIt &operator++( ) {
			++p;
			return *this;
		}
		InIt operator++( int ) {
			auto r = *this;
			++p;
			return r;
		}
		friend bool operator==( InIt const &a, InIt const &b ) {
			return a.p == b.p;
		}
		friend bool operator!=( InIt const &a, InIt const &b ) {
			return a.p != b.p;
		}
	};

	template<typename V>
	using E = typename V::value_type;

	template<typename V>
	void same( V &v, std::vector<int> const &m, char const *op ) {
		V const &c = v;
		std::vector<int> got;
		for( auto const &x : c ) {
			got.push_back( val( x ) );
		}
		if( got != m ) {
			fail( std::string( op ) + ": vector holds " + show( got ) + ", expected " + show( m ) );
		}
		CHECK_EQ( v.size( ), m.size( ) );
		CHECK_EQ( v.ssize( ), static_cast<std::ptrdiff_t>( m.size( ) ) );
		CHECK_EQ( v.empty( ), m.empty( ) );
		CHECK( v.capacity( ) >= v.size( ) );
		CHECK( v.max_size( ) >= v.capacity( ) );
		CHECK( v.end( ) - v.begin( ) == v.ssize( ) );
		CHECK( c.cend( ) - c.cbegin( ) == v.ssize( ) );
		CHECK( v.data_end( ) - v.data( ) == v.ssize( ) );
		std::vector<int> rev;
		for( auto it = v.rbegin( ); it != v.rend( ); ++it ) {
			rev.push_back( val( *it ) );
		}
		CHECK( std::equal( rev.rbegin( ), rev.rend( ), m.begin( ), m.end( ) ) );
		rev.clear( );
		for( auto it = c.crbegin( ); it != c.crend( ); ++it ) {
			rev.push_back( val( *it ) );
		}
		CHECK( std::equal( rev.rbegin( ), rev.rend( ), m.begin( ), m.end( ) ) );
		for( std::size_t i = 0; i < m.size( ); ++i ) {
			CHECK_EQ( val( v[i] ), m[i] );
			CHECK_EQ( val( c[i] ), m[i] );
			CHECK_EQ( val( v.at( i ) ), m[i] );
			CHECK_EQ( val( c.at( i ) ), m[i] );
			CHECK( &v[i] == v.data( ) + i );
			CHECK( &c.data( )[i] == c.data( ) + i );
			CHECK_EQ( val( v.begin( )[static_cast<std::ptrdiff_t>( i )] ), m[i] );
		}
		if( not m.empty( ) ) {
			CHECK_EQ( val( v.front( ) ), m.front( ) );
			CHECK_EQ( val( v.back( ) ), m.back( ) );
			CHECK_EQ( val( c.front( ) ), m.front( ) );
			CHECK_EQ( val( c.back( ) ), m.back( ) );
		}
	}

	template<typename V>
	std::vector<int> contents( V const &v ) {
		std::vector<int> r;
		for( auto const &x : v ) {
			r.push_back( val( x ) );
		}
		return r;
	}

	template<typename T, typename A>
	struct Machine {
		using V = daw::vector<T, A>;
		static constexpr bool stateful = not std::is_same_v<A, std::allocator<T>>;
		static constexpr bool injects = std::is_same_v<T, Tracked> or std::is_same_v<T, TrackedThrowMove>;
		Src &s;
		V v[2];
		std::vector<int> m[2];
		int next = 1;

		static A mkalloc( int i ) {
			if constexpr( stateful ) {
				return A( i );
			} else {
				return A( );
			}
		}
		explicit Machine( Src &src ) : s( src ), v{ V( mkalloc( 0 ) ), V( mkalloc( 1 ) ) } {}

		int fresh( ) {
			return next = next % 100 + 1;
		}
		std::vector<int> fresh_ints( std::size_t mx ) {
			std::vector<int> r( s.below( mx + 1 ) );
			for( auto &x : r ) {
				x = fresh( );
			}
			return r;
		}
		std::vector<T> elems( std::vector<int> const &xs ) {
			std::vector<T> r;
			r.reserve( xs.size( ) );
			for( int x : xs ) {
				r.push_back( mk<T>( x ) );
			}
			return r;
		}
		void disarm( ) {
			g_throw_after = -1;
			g_heap.throw_after = -1;
		}
		// Run `op` with a fault armed (sometimes).  `strong`: after the fault the
		// contents must be unchanged.  Returns false when the fault fired.
		template<typename Op>
		bool run( int k, bool strong, char const *name, Op op ) {
			long const f = fault;
			bool const af = alloc_fault;
			fault = -1;
			if( f >= 0 ) {
				( af ? g_heap.throw_after : g_throw_after ) = f;
			}
			bool threw = false;
			try {
				op( );
			} catch( Injected const & ) {
				threw = true;
			} catch( std::bad_alloc const & ) {
				threw = true;
			}
			disarm( );
			if( threw ) {
				faulted = true;
				s.label( "fault fired" );
				s.nontrivial( );
				if( strong ) {
					same( v[k], m[k], ( std::string( "contents after a failed " ) + name ).c_str( ) );
				}
				m[0] = contents( v[0] );
				m[1] = contents( v[1] );
			}
			return not threw;
		}
		long fault = -1;
		bool alloc_fault = false;
		bool faulted = false;

		void step( ) {
			int const k = s.chance( 1, 4 ) ? 1 : 0;
			V &x = v[k];
			auto &mm = m[k];
			std::size_t const cap0 = x.capacity( );
			auto const *const data0 = x.data( );
			faulted = false;
			auto const pos = [&]( std::size_t mx ) { return s.below( mx + 1 ); };
			// a fault in one of the next constructions / allocations
			fault = -1;
			if( ( injects or stateful ) and s.chance( 1, 5 ) ) {
				alloc_fault = stateful and ( not injects or s.boolean( ) );
				fault = alloc_fault ? static_cast<long>( s.below( 2 ) ) : static_cast<long>( s.below( 12 ) );
			}
			bool const nothrow_or_copy = true; // all element types are copyable: growth copies when a move may throw
			std::size_t const op = s.below( 31 );
			char const *name = "?";
			switch( op ) {
			case 0: case 1: {
				name = "push_back";
				int const e = fresh( );
				if( not mm.empty( ) and s.chance( 1, 3 ) ) { // aliasing
					std::size_t const i = s.below( mm.size( ) );
					if( run( k, true, name, [&] { x.push_back( x[i] ); } ) ) {
						mm.push_back( mm[i] );
					}
				} else if( s.boolean( ) ) {
					auto y = mk<T>( e );
					if( run( k, true, name, [&] { x.push_back( y ); } ) ) {
						mm.push_back( e );
					}
				} else {
					auto y = mk<T>( e );
					// a type whose move may throw can lose the value but not the contents
					if( run( k, nothrow_or_copy, name, [&] { x.push_back( std::move( y ) ); } ) ) {
						mm.push_back( e );
					}
				}
				break;
			}
			case 2: case 3: {
				name = "emplace_back";
				if( not mm.empty( ) and s.chance( 1, 3 ) ) {
					std::size_t const i = s.below( mm.size( ) );
					if( run( k, true, name, [&] { CHECK( val( x.emplace_back( x[i] ) ) == mm[i] ); } ) ) {
						mm.push_back( mm[i] );
					}
				} else {
					int const e = fresh( );
					if( run( k, true, name, [&] {
						    auto &r = x.emplace_back( mk<T>( e ) );
						    CHECK( &r == &x.back( ) );
					    } ) ) {
						mm.push_back( e );
					}
				}
				break;
			}
			case 4:
				name = "pop_back";
				if( mm.empty( ) ) {
					return;
				}
				x.pop_back( );
				mm.pop_back( );
				break;
			case 5: {
				name = "pop_back_value";
				if( mm.empty( ) ) {
					return;
				}
				int const want = mm.back( );
				if( run( k, true, name, [&] {
					    auto r = x.pop_back_value( );
					    CHECK_EQ( val( r ), want );
				    } ) ) {
					mm.pop_back( );
				}
				break;
			}
			case 6: {
				name = "insert(const&)";
				std::size_t const p = pos( mm.size( ) );
				if( not mm.empty( ) and s.boolean( ) ) {
					std::size_t const i = s.below( mm.size( ) );
					int const e = mm[i];
					if( run( k, false, name, [&] {
						    auto it = x.insert( x.cbegin( ) + static_cast<std::ptrdiff_t>( p ), x[i] );
						    CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
					    } ) ) {
						mm.insert( mm.begin( ) + static_cast<std::ptrdiff_t>( p ), e );
					}
				} else {
					int const e = fresh( );
					T const y = mk<T>( e );
					if( run( k, false, name, [&] {
						    auto it = x.insert( x.cbegin( ) + static_cast<std::ptrdiff_t>( p ), y );
						    CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
					    } ) ) {
						mm.insert( mm.begin( ) + static_cast<std::ptrdiff_t>( p ), e );
					}
				}
				s.nontrivial( p + 1 < mm.size( ) );
				break;
			}
			case 7: {
				name = "insert(&&)";
				std::size_t const p = pos( mm.size( ) );
				int const e = fresh( );
				auto y = mk<T>( e );
				if( run( k, false, name, [&] {
					    auto it = x.insert( x.cbegin( ) + static_cast<std::ptrdiff_t>( p ), std::move( y ) );
					    CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
				    } ) ) {
					mm.insert( mm.begin( ) + static_cast<std::ptrdiff_t>( p ), e );
				}
				s.nontrivial( p + 1 < mm.size( ) );
				break;
			}
			case 8: {
				name = "emplace";
				std::size_t const p = pos( mm.size( ) );
				int e = fresh( );
				bool const alias = not mm.empty( ) and s.boolean( );
				std::size_t const i = alias ? s.below( mm.size( ) ) : 0;
				if( alias ) {
					e = mm[i];
				}
				if( run( k, false, name, [&] {
					    auto const at = x.cbegin( ) + static_cast<std::ptrdiff_t>( p );
					    auto it = alias ? x.emplace( at, std::as_const( x )[i] ) : x.emplace( at, mk<T>( e ) );
					    CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
				    } ) ) {
					mm.insert( mm.begin( ) + static_cast<std::ptrdiff_t>( p ), e );
				}
				s.nontrivial( p + 1 < mm.size( ) );
				break;
			}
			case 9: case 10: {
				name = "insert(n)";
				std::size_t const p = pos( mm.size( ) );
				std::size_t const n = s.longlen( 5, 300, 500 );
				bool const alias = not mm.empty( ) and s.boolean( );
				std::size_t const i = alias ? s.below( mm.size( ) ) : 0;
				int const e = alias ? mm[i] : fresh( );
				T const y = mk<T>( e );
				if( run( k, false, name, [&] {
					    auto it = x.insert( x.cbegin( ) + static_cast<std::ptrdiff_t>( p ), n, alias ? x[i] : y );
					    CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
				    } ) ) {
					mm.insert( mm.begin( ) + static_cast<std::ptrdiff_t>( p ), n, e );
				}
				s.nontrivial( n and p < mm.size( ) );
				break;
			}
			case 11: case 12: {
				name = "insert(range)";
				std::size_t const p = pos( mm.size( ) );
				auto xs = fresh_ints( 7 );
				auto ys = elems( xs );
				int const form = static_cast<int>( s.below( 4 ) );
				if( run( k, false, name, [&] {
					    auto const at = x.cbegin( ) + static_cast<std::ptrdiff_t>( p );
					    auto it = x.begin( );
					    if( form == 0 ) {
						    it = x.insert( at, ys.begin( ), ys.end( ) );
					    } else if( form == 1 ) {
						    it = x.insert( at, InIt<T>{ ys.data( ) }, InIt<T>{ ys.data( ) + ys.size( ) } );
					    } else if( form == 2 ) {
						    std::list<T> l( ys.begin( ), ys.end( ) );
						    it = x.insert( at, l.begin( ), l.end( ) );
					    } else {
						    it = x.insert( at, std::make_move_iterator( ys.begin( ) ), std::make_move_iterator( ys.end( ) ) );
					    }
					    CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
				    } ) ) {
					mm.insert( mm.begin( ) + static_cast<std::ptrdiff_t>( p ), xs.begin( ), xs.end( ) );
				}
				s.label( "insert input iterators", form == 1 and not xs.empty( ) );
				s.nontrivial( not xs.empty( ) and p < mm.size( ) );
				break;
			}
			case 13: {
				name = "insert(il)";
				std::size_t const p = pos( mm.size( ) );
				int const a = fresh( ), b = fresh( ), c = fresh( );
				if( run( k, false, name, [&] {
					    auto it = x.insert( x.cbegin( ) + static_cast<std::ptrdiff_t>( p ), { mk<T>( a ), mk<T>( b ), mk<T>( c ) } );
					    CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
				    } ) ) {
					int const abc[3] = { a, b, c };
					mm.insert( mm.begin( ) + static_cast<std::ptrdiff_t>( p ), abc, abc + 3 );
				}
				break;
			}
			case 14: {
				name = "erase";
				if( mm.empty( ) ) {
					return;
				}
				std::size_t const p = s.below( mm.size( ) );
				if( run( k, false, name, [&] {
					    auto it = x.erase( x.cbegin( ) + static_cast<std::ptrdiff_t>( p ) );
					    CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
				    } ) ) {
					mm.erase( mm.begin( ) + static_cast<std::ptrdiff_t>( p ) );
				}
				s.nontrivial( p < mm.size( ) );
				break;
			}
			case 15: {
				name = "erase(range)";
				std::size_t const p = pos( mm.size( ) );
				std::size_t const q = p + s.below( mm.size( ) - p + 1 );
				if( run( k, false, name, [&] {
					    auto it = x.erase( x.cbegin( ) + static_cast<std::ptrdiff_t>( p ), x.cbegin( ) + static_cast<std::ptrdiff_t>( q ) );
					    CHECK_EQ( it - x.begin( ), static_cast<std::ptrdiff_t>( p ) );
				    } ) ) {
					mm.erase( mm.begin( ) + static_cast<std::ptrdiff_t>( p ), mm.begin( ) + static_cast<std::ptrdiff_t>( q ) );
				}
				s.nontrivial( p < q and q < mm.size( ) );
				break;
			}
			case 16: {
				name = "resize";
				std::size_t const n = s.longlen( 19 );
				if( run( k, true, name, [&] { x.resize( n ); } ) ) {
					mm.resize( n );
				}
				break;
			}
			case 17: {
				name = "resize(x)";
				std::size_t const n = s.longlen( 19 );
				bool const alias = not mm.empty( ) and s.boolean( );
				int const e = alias ? mm[0] : fresh( );
				T const y = mk<T>( e );
				if( run( k, true, name, [&] { x.resize( n, alias ? x[0] : y ); } ) ) {
					mm.resize( n, e );
				}
				break;
			}
			case 18: {
				name = "append";
				std::size_t const n = s.longlen( 5, 300, 500 );
				bool const alias = not mm.empty( ) and s.boolean( );
				std::size_t const i = alias ? s.below( mm.size( ) ) : 0;
				int const e = alias ? mm[i] : fresh( );
				T const y = mk<T>( e );
				if( run( k, true, name, [&] { x.append( n, alias ? x[i] : y ); } ) ) {
					mm.insert( mm.end( ), n, e );
				}
				break;
			}
			case 19: {
				name = "reserve";
				std::size_t const n = s.longlen( 39 );
				if( run( k, true, name, [&] { x.reserve( n ); } ) ) {
					CHECK( x.capacity( ) >= n );
				}
				if( n <= cap0 ) {
					CHECK_EQ( x.capacity( ), cap0 );
				}
				break;
			}
			case 20:
				name = "shrink_to_fit";
				if( run( k, true, name, [&] { x.shrink_to_fit( ); } ) ) {
					s.label( "shrunk", x.capacity( ) < cap0 );
				}
				break;
			case 21:
				name = "clear";
				x.clear( );
				mm.clear( );
				CHECK_EQ( x.capacity( ), cap0 );
				break;
			case 22: {
				name = "assign";
				int const form = static_cast<int>( s.below( 5 ) );
				auto xs = fresh_ints( 12 );
				if( form == 0 ) {
					std::fill( xs.begin( ), xs.end( ), 7 );
				}
				auto ys = elems( xs );
				T const y = mk<T>( 7 );
				if( form == 3 ) {
					xs = { 5, 6 };
				}
				if( run( k, false, name, [&] {
					    switch( form ) {
					    case 0: x.assign( xs.size( ), y ); break;
					    case 1: x.assign( ys.begin( ), ys.end( ) ); break;
					    case 2: x.assign( InIt<T>{ ys.data( ) }, InIt<T>{ ys.data( ) + ys.size( ) } ); break;
					    case 3:
						    if( s.boolean( ) ) {
							    x.assign( { mk<T>( 5 ), mk<T>( 6 ) } );
						    } else {
							    x = { mk<T>( 5 ), mk<T>( 6 ) };
						    }
						    break;
					    default: {
						    std::list<T> l( ys.begin( ), ys.end( ) );
						    x.assign( l.begin( ), l.end( ) );
					    }
					    }
				    } ) ) {
					mm = xs;
				}
				break;
			}
			case 23: {
				name = "copy assign";
				bool const self = s.chance( 1, 4 );
				if( run( k, false, name, [&] { x = self ? static_cast<V const &>( x ) : static_cast<V const &>( v[1 - k] ); } ) ) {
					if( not self ) {
						mm = m[1 - k];
						if constexpr( stateful ) {
							if( A::propagate_on_container_copy_assignment::value ) {
								CHECK( x.get_allocator( ) == v[1 - k].get_allocator( ) );
							}
						}
					}
				}
				break;
			}
			case 24: {
				name = "move assign";
				bool const nt = not stateful or x.get_allocator( ) == v[1 - k].get_allocator( );
				auto const *d = v[1 - k].data( );
				bool const had = not m[1 - k].empty( );
				if( run( k, false, name, [&] { x = std::move( v[1 - k] ); } ) ) {
					mm = m[1 - k];
					if( nt and had ) {
						CHECK( x.data( ) == d ); // buffers move, elements do not
					}
					same( x, mm, "moved-to vector" );
					v[1 - k].clear( );
					m[1 - k].clear( );
				}
				break;
			}
			case 25:
				name = "swap";
				if( s.chance( 1, 6 ) ) { // with itself
					x.swap( x );
				} else if( not stateful or std::allocator_traits<A>::propagate_on_container_swap::value or x.get_allocator( ) == v[1 - k].get_allocator( ) ) {
					auto const *d0 = v[0].data( );
					auto const *d1 = v[1].data( );
					if( s.boolean( ) ) {
						x.swap( v[1 - k] );
					} else {
						using daw::swap;
						swap( v[0], v[1] );
					}
					std::swap( m[0], m[1] );
					CHECK( v[0].data( ) == d1 and v[1].data( ) == d0 );
				}
				break;
			case 26: { // constructors
				name = "constructors";
				auto xs = fresh_ints( 9 );
				auto ys = elems( xs );
				int const form = static_cast<int>( s.below( 9 ) );
				std::vector<int> want = xs;
				bool const wa = s.boolean( );
				A const al = mkalloc( 7 );
				(void)run( k, true, name, [&] {
					std::optional<V> n;
					switch( form ) {
					case 0:
						want.assign( xs.size( ), val( T( ) ) );
						wa ? n.emplace( xs.size( ), al ) : n.emplace( xs.size( ) );
						break;
					case 1: {
						want.assign( xs.size( ), 3 );
						T const y = mk<T>( 3 );
						wa ? n.emplace( xs.size( ), y, al ) : n.emplace( xs.size( ), y );
						break;
					}
					case 2:
						wa ? n.emplace( ys.begin( ), ys.end( ), al ) : n.emplace( ys.begin( ), ys.end( ) );
						break;
					case 3: {
						InIt<T> const f{ ys.data( ) }, l{ ys.data( ) + ys.size( ) };
						wa ? n.emplace( f, l, al ) : n.emplace( f, l );
						break;
					}
					case 4:
						want = mm;
						wa ? n.emplace( x, al ) : n.emplace( x );
						break;
					case 5: {
						want = mm;
						V tmp( x );
						wa ? n.emplace( std::move( tmp ), al ) : n.emplace( std::move( tmp ) );
						break;
					}
					case 6:
						want = { 1, 2, 3 };
						n.emplace( std::initializer_list<T>{ mk<T>( 1 ), mk<T>( 2 ), mk<T>( 3 ) }, al );
						break;
					case 7: {
						want = mm;
						V tmp( x, x.get_allocator( ) );
						n.emplace( std::move( tmp ), x.get_allocator( ) );
						break;
					}
					default: {
						auto op = [&]( T *p, std::size_t cnt ) {
							std::size_t i = 0;
							try {
								for( ; i < cnt; ++i ) {
									std::construct_at( p + i, ys[i] );
								}
							} catch( ... ) {
								std::destroy_n( p, i );
								throw;
							}
							return cnt;
						};
						wa ? n.emplace( daw::do_resize_and_overwrite, xs.size( ), op, al ) : n.emplace( daw::do_resize_and_overwrite, xs.size( ), op );
					}
					}
					disarm( );
					same( *n, want, "constructed vector" );
					if( wa and form != 7 ) {
						CHECK( n->get_allocator( ) == al );
					}
				} );
				break;
			}
			case 27: { // resize_and_overwrite: the op constructs what is missing
				name = "resize_and_overwrite";
				std::size_t const n = s.longlen( 19 );
				std::size_t const r = n - s.below( n + 1 );
				int const form = static_cast<int>( s.below( 3 ) );
				auto const old = mm.size( );
				std::vector<int> xs( r );
				for( auto &e : xs ) {
					e = fresh( );
				}
				fault = -1;
				auto work = [&]( T *p, std::size_t cnt ) {
					CHECK_EQ( cnt, n );
					CHECK( p == x.data( ) );
					for( std::size_t i = 0; i < r; ++i ) {
						if( i < old ) {
							CHECK_EQ( val( p[i] ), mm[i] );
							p[i] = mk<T>( xs[i] );
						} else {
							std::construct_at( p + i, mk<T>( xs[i] ) );
						}
					}
				};
				if( r == 0 and s.boolean( ) ) { // an error: nothing was written
					int const e = -1 - static_cast<int>( s.below( 3 ) );
					if( form == 2 ) {
						CHECK_EQ( x.resize_and_overwrite( n, [&]( T *p, std::size_t c, A & ) { work( p, c ); return static_cast<long>( e ); } ), e );
					} else {
						CHECK_EQ( x.resize_and_overwrite( n, [&]( T *p, std::size_t c ) { work( p, c ); return e; } ), e );
					}
				} else if( form == 0 ) {
					CHECK_EQ( x.resize_and_overwrite( n, [&]( T *p, std::size_t c ) { work( p, c ); return r; } ), r );
				} else if( form == 1 ) {
					CHECK_EQ( x.resize_and_overwrite( n, [&]( T *p, std::size_t c ) { work( p, c ); return static_cast<int>( r ); } ), static_cast<int>( r ) );
				} else {
					CHECK_EQ( x.resize_and_overwrite( n, [&]( T *p, std::size_t c, A &al ) { work( p, c ); CHECK( al == x.get_allocator( ) ); return r; } ), r );
				}
				CHECK( x.capacity( ) >= n );
				mm = xs;
				s.label( "overwrite shrinks", r < old );
				s.label( "overwrite grows partially", r > old and r < n );
				break;
			}
			case 28: {
				name = "append_and_overwrite";
				std::size_t const n = s.below( 12 );
				std::size_t const r = n - s.below( n + 1 );
				int const form = static_cast<int>( s.below( 3 ) );
				auto work = [&]( T *p, std::size_t cnt ) {
					CHECK_EQ( cnt, n );
					CHECK( p == x.data( ) + mm.size( ) );
					for( std::size_t i = 0; i < r; ++i ) {
						std::construct_at( p + i, mk<T>( 40 + static_cast<int>( i ) ) );
					}
				};
				fault = -1;
				if( r == 0 and s.boolean( ) ) {
					int const e = -1 - static_cast<int>( s.below( 3 ) );
					if( form == 2 ) {
						CHECK_EQ( x.append_and_overwrite( n, [&]( T *p, std::size_t c, A & ) { work( p, c ); return static_cast<long>( e ); } ), e );
					} else {
						CHECK_EQ( x.append_and_overwrite( n, [&]( T *p, std::size_t c ) { work( p, c ); return e; } ), e );
					}
				} else if( form == 0 ) {
					CHECK_EQ( x.append_and_overwrite( n, [&]( T *p, std::size_t c ) { work( p, c ); return r; } ), r );
				} else if( form == 1 ) {
					CHECK_EQ( x.append_and_overwrite( n, [&]( T *p, std::size_t c ) { work( p, c ); return static_cast<long>( r ); } ), static_cast<long>( r ) );
				} else {
					CHECK_EQ( x.append_and_overwrite( n, [&]( T *p, std::size_t c, A & ) { work( p, c ); return r; } ), r );
				}
				for( std::size_t i = 0; i < r; ++i ) {
					mm.push_back( 40 + static_cast<int>( i ) );
				}
				break;
			}
			case 29: {
				name = "erase by value";
				std::size_t gone;
				if( s.boolean( ) and not mm.empty( ) ) {
					int const e = s.pick_of( mm );
					gone = daw::erase( x, mk<T>( e ) );
					auto const o = mm.size( );
					std::erase( mm, e );
					CHECK_EQ( gone, o - mm.size( ) );
				} else {
					int const e = fresh( );
					gone = daw::erase_if( x, [&]( T const &t ) { return val( t ) < e; } );
					auto const o = mm.size( );
					std::erase_if( mm, [&]( int t ) { return t < e; } );
					CHECK_EQ( gone, o - mm.size( ) );
				}
				break;
			}
			default: {
				name = "compare";
				auto const &y = std::as_const( v[1 - k] );
				auto const &my = m[1 - k];
				CHECK_EQ( x == y, mm == my );
				CHECK_EQ( x != y, mm != my );
				CHECK_EQ( x < y, mm < my );
				CHECK_EQ( x > y, mm > my );
				CHECK_EQ( x <= y, mm <= my );
				CHECK_EQ( x >= y, mm >= my );
				break;
			}
			}
			s.label( name );
			s.note( [&] { return std::string( name ) + "[" + std::to_string( k ) + "] "; } );
			// what fits stays where it is: iterators and references remain valid
			if( not faulted and x.size( ) <= cap0 and ( op <= 18 or op == 29 or ( op == 19 and x.capacity( ) == cap0 ) ) ) {
				CHECK( x.data( ) == data0 );
				CHECK_EQ( x.capacity( ), cap0 );
			}
			same( v[0], m[0], name );
			same( v[1], m[1], name );
			s.nontrivial( x.capacity( ) != cap0 and cap0 > 0 );
		}
	};

	template<typename T, typename A>
	void history( Src &s ) {
		g_heap.blocks.clear( );
		long const live0 = g_live;
		{
			Machine<T, A> mc( s );
			std::size_t n = 1 + s.len( 30 );
			for( std::size_t i = 0; i < n; ++i ) {
				mc.step( );
			}
			for( auto &v : mc.v ) {
				auto const &c = v;
				CHECK_THROWS( std::out_of_range, v.at( v.size( ) ) );
				CHECK_THROWS( std::out_of_range, c.at( v.size( ) ) );
				CHECK_THROWS( std::out_of_range, c.at( v.size( ) + 3 ) );
				CHECK_THROWS( std::out_of_range, c.at( ~std::size_t{ 0 } ) );
				CHECK_THROWS( std::length_error, v.reserve( v.max_size( ) + 1 ) );
			}
		}
		CHECK_EQ( g_live, live0 );
		CHECK( g_heap.blocks.empty( ) );
	}

	template<typename T>
	void block_append( Src &s ) {
		std::size_t n = s.longlen( 60 );
		std::size_t pre = s.below( 5 );
		std::size_t bs = 1 + s.below( 12 );
		std::vector<T> src;
		for( std::size_t i = 0; i < n; ++i ) {
			src.push_back( mk<T>( static_cast<int>( i ) + 1 ) );
		}
		s.nontrivial( n > bs );
		daw::vector<T> v;
		std::vector<int> m;
		for( std::size_t i = 0; i < pre; ++i ) {
			v.push_back( mk<T>( 90 ) );
			m.push_back( 90 );
		}
		for( std::size_t i = 0; i < n; ++i ) {
			m.push_back( static_cast<int>( i ) + 1 );
		}
		daw::block_append_from( v, InIt<T>{ src.data( ) }, InIt<T>{ src.data( ) + n }, bs );
		same( v, m, "block_append_from" );
		auto w = daw::block_create_from<T>( src.data( ), src.data( ) + n, bs );
		CHECK( contents( w ) == std::vector<int>( m.begin( ) + static_cast<std::ptrdiff_t>( pre ), m.end( ) ) );
	}

	using S = std::string;
	PROP_T( history_int, ( history<int, std::allocator<int>> ), { .cases = 30000 } );
	PROP_T( history_string, ( history<S, std::allocator<S>> ), { .cases = 20000 } );
	PROP_T( history_tracked, ( history<Tracked, std::allocator<Tracked>> ), { .cases = 40000 } );
	PROP_T( history_throw_move, ( history<TrackedThrowMove, std::allocator<TrackedThrowMove>> ), { .cases = 40000 } );
	PROP_T( history_alloc_prop, ( history<Tracked, Alloc<Tracked, true>> ), { .cases = 30000 } );
	PROP_T( history_alloc_noprop, ( history<TrackedPlain, Alloc<TrackedPlain, false>> ), { .cases = 30000 } );
	PROP_T( block_append_int, block_append<int>, { .cases = 5000 } );
	PROP_T( block_append_string, block_append<S>, { .cases = 5000 } );

	// iota_op as a resize_and_overwrite operation
	PROP( iota, { .cases = 3000 } ) {
		int const first = static_cast<int>( s.below( 200 ) ) - 100;
		std::size_t const n = s.longlen( 39 );
		s.nontrivial( n > 1 );
		auto v = daw::vector<int>( daw::do_resize_and_overwrite, n, daw::algorithm::iota_op<int>( first + 0 ) );
		CHECK_EQ( v.size( ), n );
		for( std::size_t i = 0; i < n; ++i ) {
			CHECK_EQ( v[i], first + static_cast<int>( i ) );
		}
		int const step = 1 + static_cast<int>( s.below( 5 ) );
		v.resize_and_overwrite( n, daw::algorithm::iota_op<int>( first + 0, step + 0 ) );
		CHECK_EQ( v.size( ), n );
		for( std::size_t i = 0; i < n; ++i ) {
			CHECK_EQ( v[i], first + static_cast<int>( i ) * step );
		}
	}

	// a vector that is replaced by one living inside one of its own elements
	PROP( nested, { .cases = 20000 } ) {
		{
			struct T {
				TrackedPlain t{ 0 };
				daw::vector<T> kids{ };
			};
			using A = daw::vector<T>;
			A a{ };
			auto ops = 1 + s.len( 12 );
			for( std::size_t k = 0; k < ops; ++k ) {
				if( a.size( ) == 0 or s.boolean( ) ) {
					A b{ };
					for( std::size_t n = 1 + s.below( 4 ); n > 0; --n ) {
						b.push_back( T{ } );
						b.back( ).t.v = static_cast<int>( s.below( 50 ) );
					}
					b[s.below( b.size( ) )].kids = std::move( a );
					a = std::move( b );
				} else {
					s.nontrivial( );
					auto at = s.below( a.size( ) );
					std::vector<int> want, got;
					for( auto const &e : a[at].kids ) {
						want.push_back( e.t.v );
					}
					a = std::move( a[at].kids );
					for( auto const &e : a ) {
						got.push_back( e.t.v );
					}
					CHECK_EQ( got, want );
				}
			}
			auto count = []( auto const &self, A const &x ) -> long {
				long n = static_cast<long>( x.size( ) );
				for( auto const &e : x ) {
					n += self( self, e.kids );
				}
				return n;
			};
			CHECK_EQ( g_live, count( count, a ) );
		}
		CHECK_EQ( g_live, 0 );
	}
} // namespace
