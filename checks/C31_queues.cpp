// C31: histories of pushes and pops on ring buffers, bit and nibble queues and
// bit streams, against a deque of elements and a string of bits.
// nontrivial: the ring wrapped around, or bits were taken that cross the border
// between two groups that were pushed.
// pbt-scale: 4
#include "pbt.h"
#include <array>
#include <deque>
#include <list>
#include <memory>
#include <span>
#include <stdexcept>
#include <string>
#include <vector>

#include "daw/daw_bit_queues.h"
#include "daw/daw_bit_stream.h"
#include "daw/daw_ring_adaptor.h"
using namespace pbt;

namespace {
	template<typename T>
	T gen( Src &s ) {
		if constexpr( std::is_same_v<T, std::string> ) {
			return std::string( s.len( 40 ), static_cast<char>( 'a' + s.below( 20 ) ) );
		} else if constexpr( std::is_same_v<T, std::unique_ptr<int>> ) {
			return std::make_unique<int>( s.range<int>( 0, 1000 ) );
		} else {
			return T( s.range<int>( 0, 1000 ) );
		}
	}
	template<typename T>
	bool same( T const &a, T const &b ) {
		if constexpr( std::is_same_v<T, Tracked> ) {
			return a.v == b.v;
		} else if constexpr( std::is_same_v<T, std::unique_ptr<int>> ) {
			return *a == *b;
		} else {
			return a == b;
		}
	}
	template<typename T>
	T dup( T const &a ) {
		if constexpr( std::is_same_v<T, std::unique_ptr<int>> ) {
			return std::make_unique<int>( *a );
		} else {
			return a;
		}
	}

	template<typename R>
	void ring_is( R &r, std::deque<typename R::value_type> const &m, std::size_t cap ) {
		R const &c = r;
		CHECK_EQ( c.capacity( ), cap );
		CHECK_EQ( c.size( ), m.size( ) );
		CHECK_EQ( c.is_empty( ), m.empty( ) );
		CHECK_EQ( c.is_full( ), m.size( ) == cap );
		for( std::size_t i = 0; i < m.size( ); ++i ) {
			CHECK( same( r[i], m[i] ) );
			CHECK( &c[i] == &r[i] );
		}
		std::size_t i = 0;
		for( auto &x : r ) {
			CHECK( i < m.size( ) and same( x, m[i] ) );
			++i;
		}
		CHECK_EQ( i, m.size( ) );
		i = 0;
		for( auto &x : c ) {
			CHECK( i < m.size( ) and same( x, m[i] ) );
			++i;
		}
		CHECK_EQ( i, m.size( ) );
	}

	template<typename R>
	void ring_history( Src &s, R &r, std::size_t cap ) {
		using T = typename R::value_type;
		constexpr bool copyable = std::is_copy_assignable_v<T>;
		std::deque<T> m;
		ring_is( r, m, cap );
		std::size_t pushed = 0;
		bool wrapped = false;
		auto const steps = s.len( 60 );
		for( std::size_t st = 0; st < steps; ++st ) {
			switch( s.weighted( { 6, 5, 1, 1 } ) ) {
			case 0:
				if( m.size( ) < cap ) {
					T v = gen<T>( s );
					m.push_back( dup( v ) );
					T *where = nullptr;
					switch( s.below( 3 ) ) {
					case 0:
						if constexpr( copyable ) {
							where = &r.push_back( std::as_const( v ) );
							CHECK( same( v, m.back( ) ) );
							break;
						}
						[[fallthrough]];
					case 1:
						where = &r.push_back( std::move( v ) );
						break;
					default:
						if constexpr( std::is_same_v<T, std::string> ) {
							where = &r.emplace_back( v.data( ), v.size( ) );
						} else {
							where = &r.emplace_back( std::move( v ) );
						}
					}
					CHECK( where == &r[m.size( ) - 1] );
					++pushed;
				}
				break;
			case 1:
				if( not m.empty( ) ) {
					T const v = r.pop_front( );
					CHECK( same( v, m.front( ) ) );
					m.pop_front( );
				}
				break;
			case 2:
				if( not m.empty( ) ) {
					auto const i = s.below( m.size( ) );
					m[i] = gen<T>( s );
					if( s.boolean( ) ) {
						r[i] = dup( m[i] );
					} else {
						*( r.begin( ) + static_cast<std::ptrdiff_t>( i ) ) = dup( m[i] );
					}
				}
				break;
			default:
				if( s.chance( 1, 4 ) ) {
					r.clear( );
					m.clear( );
					pushed = 0;
				} else if constexpr( std::is_copy_constructible_v<R> and copyable ) {
					R copy( std::as_const( r ) );
					ring_is( copy, m, cap );
					if( s.boolean( ) ) {
						R other = copy;
						r = other;
					}
				}
			}
			wrapped |= pushed > cap and not m.empty( );
			ring_is( r, m, cap );
		}
		if( wrapped ) {
			s.nontrivial( );
		}
	}
} // namespace

PROP( ring_histories, ( { .cases = 60000 } ) ) {
	switch( s.below( 8 ) ) {
	case 0: {
		daw::ring_adaptor<int[1]> r{ };
		return ring_history( s, r, 1 );
	}
	case 1: {
		daw::ring_adaptor<int[5]> r{ };
		return ring_history( s, r, 5 );
	}
	case 2: {
		daw::ring_adaptor<std::string[3]> r{ };
		return ring_history( s, r, 3 );
	}
	case 3: {
		daw::ring_adaptor<std::array<Tracked, 4>> r{ };
		return ring_history( s, r, 4 );
	}
	case 4: {
		auto const cap = 1 + s.below( 9 );
		daw::ring_adaptor<std::vector<std::string>> r( cap );
		return ring_history( s, r, cap );
	}
	case 5: {
		daw::ring_adaptor<std::array<std::unique_ptr<int>, 6>> r{ };
		return ring_history( s, r, 6 );
	}
	case 6: {
		auto const cap = 1 + s.below( 9 );
		daw::ring_adaptor<std::deque<Tracked>> r( cap );
		return ring_history( s, r, cap );
	}
	default: {
		auto const cap = 1 + s.below( 9 );
		daw::ring_adaptor<std::vector<int>> r( cap );
		return ring_history( s, r, cap );
	}
	}
}

namespace {
	using u8 = std::uint8_t;
	using u16 = std::uint16_t;
	using u32 = std::uint32_t;
	using u64 = std::uint64_t;
	template<typename T>
	inline constexpr std::size_t width = sizeof( T ) * 8;
	using Little = daw::bit_queue_source_little_endian;
	using Big = daw::bit_queue_source_big_endian;

	template<typename T>
	T swapped( T v ) {
		T r = 0;
		for( std::size_t i = 0; i < sizeof( T ); ++i ) {
			r = static_cast<T>( ( static_cast<u64>( r ) << 8 ) | ( ( static_cast<u64>( v ) >> ( 8 * i ) ) & 0xFF ) );
		}
		return r;
	}
	// the oldest bit first
	using Bits = std::deque<bool>;
	void put( Bits &b, u64 v, std::size_t n ) {
		while( n-- > 0 ) {
			b.push_back( ( v >> n ) & 1U );
		}
	}
	u64 number( Bits const &b, std::size_t first, std::size_t n ) {
		u64 r = 0;
		for( std::size_t i = 0; i < n; ++i ) {
			r = ( r << 1 ) | static_cast<u64>( b[first + i] );
		}
		return r;
	}

	template<typename Q, typename V, typename Order>
	void bit_history( Src &s ) {
		using Queue = daw::basic_bit_queue<Q, V, Order>;
		constexpr bool swap = std::is_same_v<Order, Big> and sizeof( V ) > 1;
		CHECK_STATIC( Queue::capacity( ) == width<Q> );
		Bits m;
		Queue q{ };
		if( s.chance( 1, 4 ) ) {
			Q const v = s.integer<Q>( );
			q = Queue( v );
			put( m, v, width<Q> );
		}
		std::size_t group = 0;
		bool crossed = false;
		auto const steps = s.len( 40 );
		for( std::size_t st = 0;; ++st ) {
			Queue const &c = q;
			CHECK_EQ( c.size( ), m.size( ) );
			CHECK_EQ( c.empty( ), m.empty( ) );
			CHECK_EQ( c.full( ), m.size( ) == width<Q> );
			CHECK_EQ( c.value( ), static_cast<Q>( number( m, 0, m.size( ) ) ) );
			for( std::size_t n : { std::size_t{ 0 }, std::size_t{ 1 }, m.size( ), m.size( ) + 1 } ) {
				CHECK_EQ( c.can_pop( n ), n <= m.size( ) );
			}
			if( st == steps ) {
				break;
			}
			auto const most = std::min( width<V>, m.size( ) );
			switch( s.weighted( { 6, 3, 3, 1 } ) ) {
			case 0: {
				V const v = s.integer<V>( );
				auto const room = width<Q> - m.size( );
				auto const n = swap ? width<V> : s.chance( 1, 3 ) ? width<V> : s.below( width<V> + 1 );
				if( n > room ) {
					CHECK_THROWS( daw::exception::AssertException, q.push_back( v, n ) );
				} else {
					if( n == width<V> and s.boolean( ) ) {
						q.push_back( v );
					} else {
						q.push_back( v, n );
					}
					put( m, swap ? swapped( v ) : v, n );
					group = n;
				}
				break;
			}
			case 1: { // the oldest bits
				auto const n = s.below( most + 1 );
				V const r = q.pop_back( n );
				CHECK_EQ( r, static_cast<V>( number( m, 0, n ) ) );
				crossed |= n > 0 and n < m.size( );
				m.erase( m.begin( ), m.begin( ) + static_cast<std::ptrdiff_t>( n ) );
				break;
			}
			case 2: { // the newest bits
				auto const n = s.below( most + 1 );
				V const r = q.pop_front( n );
				CHECK_EQ( r, static_cast<V>( number( m, m.size( ) - n, n ) ) );
				crossed |= n > group and n > 0;
				m.erase( m.end( ) - static_cast<std::ptrdiff_t>( n ), m.end( ) );
				break;
			}
			default:
				switch( s.below( 3 ) ) {
				case 0:
					q.clear( );
					m.clear( );
					break;
				case 1:
					CHECK_EQ( q.pop_all( ), static_cast<V>( number( m, 0, m.size( ) ) ) );
					m.clear( );
					break;
				default:
					if( m.size( ) < width<V> ) {
						CHECK_THROWS( daw::exception::AssertException, (void)q.pop_back( m.size( ) + 1 ) );
					}
				}
			}
		}
		if( crossed ) {
			s.nontrivial( );
		}
	}
} // namespace

PROP( bit_queue_histories, ( { .cases = 60000 } ) ) {
	switch( s.below( 14 ) ) {
	case 0:
		return bit_history<u8, u8, Little>( s );
	case 1:
		return bit_history<u16, u8, Little>( s );
	case 2:
		return bit_history<u32, u8, Little>( s );
	case 3:
		return bit_history<u64, u8, Little>( s );
	case 4:
		return bit_history<u16, u16, Little>( s );
	case 5:
		return bit_history<u32, u16, Little>( s );
	case 6:
		return bit_history<u32, u32, Little>( s );
	case 7:
		return bit_history<u64, u32, Little>( s );
	case 8:
		return bit_history<u64, u64, Little>( s );
	case 9:
		return bit_history<u32, u8, Big>( s );
	case 10:
		return bit_history<u64, u16, Big>( s );
	case 11:
		return bit_history<u64, u32, Big>( s );
	case 12:
		return bit_history<u64, u64, Big>( s );
	default:
		return bit_history<u16, u16, Big>( s );
	}
}

namespace {
	template<typename Q, typename V>
	void nibble_history( Src &s ) {
		using Queue = daw::basic_nibble_queue<Q, V>;
		constexpr std::size_t cap = width<Q> / 4, val = width<V> / 4;
		Bits m;
		Queue q{ };
		if( s.chance( 1, 4 ) ) {
			Q const v = s.integer<Q>( );
			q = Queue( v );
			put( m, v, width<Q> );
		}
		bool crossed = false;
		auto const steps = s.len( 40 );
		for( std::size_t st = 0;; ++st ) {
			Queue const &c = q;
			auto const size = m.size( ) / 4;
			CHECK_EQ( c.capacity( ), cap );
			CHECK_EQ( c.size( ), size );
			CHECK_EQ( c.empty( ), size == 0 );
			CHECK_EQ( c.full( ), size == cap );
			CHECK_EQ( c.value( ), static_cast<Q>( number( m, 0, m.size( ) ) ) );
			CHECK_EQ( c.can_pop( ), size >= val );
			for( std::size_t n = 0; n <= cap + 1; ++n ) {
				CHECK_EQ( c.can_pop( n ), n <= size );
			}
			if( st == steps ) {
				break;
			}
			switch( s.weighted( { 5, 4, 1 } ) ) {
			case 0: {
				V const v = s.integer<V>( );
				auto const n = s.boolean( ) ? 1 : s.below( val + 1 );
				if( n > cap - size ) {
					CHECK_THROWS( daw::exception::AssertException, q.push_back( v, n ) );
				} else {
					if( n == 1 and s.boolean( ) ) {
						q.push_back( v );
					} else {
						q.push_back( v, n );
					}
					put( m, v, 4 * n );
				}
				break;
			}
			case 1: {
				auto const n = s.below( std::min( val, size ) + 1 );
				V const r = n == val and s.boolean( ) ? q.pop_front( ) : q.pop_front( n );
				CHECK_EQ( r, static_cast<V>( number( m, m.size( ) - 4 * n, 4 * n ) ) );
				crossed |= n > 1 and n < size;
				m.erase( m.end( ) - static_cast<std::ptrdiff_t>( 4 * n ), m.end( ) );
				break;
			}
			default:
				if( s.boolean( ) ) {
					q.clear( );
				} else {
					CHECK_EQ( q.pop_all( ), static_cast<V>( number( m, 0, m.size( ) ) ) );
				}
				m.clear( );
			}
		}
		if( crossed ) {
			s.nontrivial( );
		}
	}
} // namespace

PROP( nibble_queue_histories, ( { .cases = 30000 } ) ) {
	switch( s.below( 5 ) ) {
	case 0:
		return nibble_history<u8, u8>( s );
	case 1:
		return nibble_history<u32, u8>( s );
	case 2:
		return nibble_history<u64, u8>( s );
	case 3:
		return nibble_history<u64, u64>( s );
	default:
		return nibble_history<u32, u16>( s );
	}
}

namespace {
	template<typename Cont, typename Order>
	void stream_history( Src &s ) {
		using E = typename Cont::value_type;
		constexpr auto W = width<E>;
		Cont data;
		Bits m;
		for( auto n = s.len( 20 ); n > 0; --n ) {
			auto const v = s.boolean( ) ? s.integer<E>( ) : static_cast<E>( s.below( 4 ) );
			data.push_back( v );
			put( m, std::is_same_v<Order, Big> ? swapped( v ) : v, W );
		}
		auto bs = daw::make_bit_stream<Order>( data.begin( ), data.end( ) );
		std::size_t p = 0;
		bool crossed = false;
		auto const value = [&]<typename T>( T ) {
			if( s.chance( 1, 3 ) ) {
				if( p + width<T> <= m.size( ) ) {
					CHECK_EQ( daw::pop_value<T>( bs ), static_cast<T>( number( m, p, width<T> ) ) );
					crossed |= p % W != 0;
					p += width<T>;
				}
				return;
			}
			auto const n = s.below( std::min( width<T>, m.size( ) - p ) + 1 );
			CHECK_EQ( daw::pop_value<T>( bs, n ), static_cast<T>( number( m, p, n ) ) );
			crossed |= n > 0 and p / W != ( p + n - 1 ) / W;
			p += n;
		};
		auto const steps = s.len( 30 );
		for( std::size_t st = 0; st < steps; ++st ) {
			// some elements are still unread, or nothing is left
			if( ( p + W - 1 ) / W < data.size( ) or p == m.size( ) ) {
				CHECK_EQ( bs.valid( ), p < m.size( ) );
				CHECK_EQ( static_cast<bool>( bs ), p < m.size( ) );
			}
			auto const left = m.size( ) - p;
			switch( s.weighted( { 8, 2, 2, 2, 2, 2, 1, 1, 1 } ) ) {
			case 0:
				if( left > 0 ) {
					auto const n = 1 + s.below( std::min( W, left ) );
					E const r = n == W and s.boolean( ) ? bs.pop_bits( ) : bs.pop_bits( n );
					CHECK_EQ( r, static_cast<E>( number( m, p, n ) ) );
					crossed |= p / W != ( p + n - 1 ) / W;
					p += n;
				}
				break;
			case 1:
				value( u8{ } );
				break;
			case 2:
				value( u16{ } );
				break;
			case 3:
				value( u32{ } );
				break;
			case 4:
				value( u64{ } );
				break;
			case 5:
				if( s.boolean( ) ) {
					auto const n = s.below( left + 1 );
					daw::skip_bits( bs, n );
					p += n;
				} else {
					auto const n = s.below( left / 8 + 1 );
					daw::skip_bytes( bs, n );
					p += 8 * n;
				}
				break;
			case 6: { // the rest of an element that was read in part
				bs.clear_left_overs( );
				p = ( p + W - 1 ) / W * W;
				break;
			}
			case 7: { // search, when it ends before the last element is touched
				bool const whole = s.boolean( );
				auto const n = whole ? W : 1 + s.below( std::min<std::size_t>( W, 8 ) );
				auto const v = s.below( 2 ) and left >= n ? static_cast<E>( number( m, p, n ) ) : static_cast<E>( s.below( 4 ) );
				std::size_t q = p;
				while( q + n + W <= m.size( ) and static_cast<E>( number( m, q, n ) ) != v ) {
					q += n;
				}
				if( q + n + W <= m.size( ) ) {
					if( whole and s.boolean( ) ) {
						daw::skip_until( bs, v );
					} else {
						daw::skip_until( bs, v, n );
					}
					p = q + n;
				}
				break;
			}
			default:
				switch( s.below( 3 ) ) {
				case 0:
					CHECK_THROWS( std::overflow_error, bs.pop_bits( W + 1 + s.below( 9 ) ) );
					break;
				case 1:
					CHECK_THROWS( std::runtime_error, bs.pop_bits( 0 ) );
					break;
				default:
					if( left < W ) {
						CHECK_THROWS( std::out_of_range, bs.pop_bits( left + 1 ) );
						return; // what is left after that is not said
					}
				}
			}
		}
		if( crossed ) {
			s.nontrivial( );
		}
	}
} // namespace

PROP( bit_stream_histories, ( { .cases = 60000 } ) ) {
	switch( s.below( 8 ) ) {
	case 0:
		return stream_history<std::vector<u8>, Little>( s );
	case 1:
		return stream_history<std::vector<u16>, Little>( s );
	case 2:
		return stream_history<std::vector<u32>, Little>( s );
	case 3:
		return stream_history<std::vector<u64>, Little>( s );
	case 4:
		return stream_history<std::list<u8>, Big>( s );
	case 5:
		return stream_history<std::vector<u16>, Big>( s );
	case 6:
		return stream_history<std::list<u32>, Big>( s );
	default:
		return stream_history<std::vector<u64>, Big>( s );
	}
}

// long queues: runs of pushes and pops of up to the capacity, the values count up
PROP( long_rings, ( { .cases = 600 } ) ) {
	std::size_t const cap = s.chance( 1, 8 ) ? 65000 + s.below( 2000 ) : 1 + s.below( 2000 );
	daw::ring_adaptor<std::vector<int>> r( cap );
	int in = 0, out = 0;
	std::size_t const steps = 1 + s.below( 12 );
	for( std::size_t st = 0; st < steps; ++st ) {
		std::size_t const held = static_cast<std::size_t>( in - out );
		if( s.boolean( ) ) {
			std::size_t n = s.boolean( ) ? cap - held : s.below( cap - held + 1 );
			for( ; n > 0; --n ) {
				r.push_back( in++ );
			}
		} else {
			std::size_t n = s.boolean( ) ? held : s.below( held + 1 );
			for( ; n > 0; --n ) {
				CHECK_EQ( r.pop_front( ), out++ );
			}
		}
		std::size_t const size = static_cast<std::size_t>( in - out );
		s.nontrivial( size > 255 and static_cast<std::size_t>( in ) > cap );
		CHECK_EQ( r.size( ), size );
		CHECK_EQ( r.is_empty( ), size == 0 );
		CHECK_EQ( r.is_full( ), size == cap );
		CHECK_EQ( r.capacity( ), cap );
		if( size > 0 ) {
			CHECK_EQ( r[0], out );
			CHECK_EQ( r[size - 1], in - 1 );
			std::size_t const i = s.below( size );
			CHECK_EQ( r[i], out + static_cast<int>( i ) );
		}
		int want = out;
		for( int v : r ) {
			CHECK_EQ( v, want++ );
		}
		CHECK_EQ( want, in );
	}
}
