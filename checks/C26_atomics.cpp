// C26: daw::atomic histories on one thread against std::atomic (run time and
// during constant evaluation), and the results and timing of the timed waits.
// nontrivial: the history has several operations, or the wait timed out.
#include "pbt.h"
#include "daw/daw_atomic_wait.h"
#include "daw/daw_cx_atomic.h"
#include <array>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <limits>
#include <type_traits>
using namespace pbt;

namespace {
	constexpr std::memory_order load_orders[] = { std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_seq_cst };
	constexpr std::memory_order store_orders[] = { std::memory_order_relaxed, std::memory_order_release, std::memory_order_seq_cst };
	constexpr std::memory_order any_orders[] = { std::memory_order_relaxed, std::memory_order_acquire, std::memory_order_release, std::memory_order_acq_rel, std::memory_order_seq_cst };

	template<typename T>
	T value( Src &s ) {
		if constexpr( std::is_same_v<T, bool> ) {
			return s.boolean( );
		} else if constexpr( std::is_floating_point_v<T> ) {
			return static_cast<T>( s.range<int>( -1000, 1000 ) ) / T( 8 );
		} else {
			return s.chance( 3 ) ? s.pick<T>( { T( 0 ), T( 1 ), std::numeric_limits<T>::max( ), std::numeric_limits<T>::min( ), T( ~T( 0 ) ) } )
			                     : s.integer<T>( );
		}
	}

	template<typename T>
	void history( Src &s ) {
		T const init = value<T>( s );
		daw::atomic<T> a( init );
		std::atomic<T> m( init );
		daw::atomic<T> const &ca = a;
		auto const steps = s.len( 30 );
		auto const arith = [&]( auto op ) {
			if constexpr( not std::is_same_v<T, bool> ) {
				op( a, m );
			}
		};
		auto const bits = [&]( auto op ) {
			if constexpr( std::is_integral_v<T> and not std::is_same_v<T, bool> ) {
				op( a, m );
			}
		};
		for( std::size_t i = 0; i < steps; ++i ) {
			T const x = value<T>( s );
			auto const o = any_orders[s.below( 5 )];
			switch( s.below( 20 ) ) {
			case 0: {
				auto const so = store_orders[s.below( 3 )];
				a.store( x, so );
				m.store( x, so );
				break;
			}
			case 1:
				a.store( x );
				m.store( x );
				break;
			case 2:
				CHECK_EQ( ca.load( load_orders[s.below( 3 )] ), m.load( ) );
				break;
			case 3:
				CHECK_EQ( a.exchange( x, o ), m.exchange( x, o ) );
				break;
			case 4:
				CHECK( &( a = x ) == &a );
				m = x;
				break;
			case 5:
			case 6:
			case 7:
			case 8: {
				// a weak exchange may fail although the values match
				T const want = s.boolean( ) ? m.load( ) : value<T>( s );
				T e1 = want, e2 = want;
				bool r1 = false, r2 = false;
				bool const weak = s.boolean( );
				switch( s.below( 3 ) ) {
				case 0: {
					auto const fail_order = load_orders[s.below( 3 )];
					r1 = weak ? a.compare_exchange_weak( e1, x, o, fail_order ) : a.compare_exchange_strong( e1, x, o, fail_order );
					break;
				}
				case 1:
					r1 = weak ? a.compare_exchange_weak( e1, x, o ) : a.compare_exchange_strong( e1, x, o );
					break;
				default:
					r1 = weak ? a.compare_exchange_weak( e1, x ) : a.compare_exchange_strong( e1, x );
					break;
				}
				r2 = m.compare_exchange_strong( e2, x );
				if( weak and not r1 and r2 ) {
					CHECK_EQ( e1, want );
					a.store( x );
				} else {
					CHECK_EQ( r1, r2 );
					CHECK_EQ( e1, e2 );
				}
				break;
			}
			case 9:
				arith( [&]( auto &a, auto &m ) { CHECK_EQ( a.fetch_add( x, o ), m.fetch_add( x, o ) ); } );
				break;
			case 10:
				arith( [&]( auto &a, auto &m ) { CHECK_EQ( a.fetch_sub( x ), m.fetch_sub( x ) ); } );
				break;
			case 11:
				arith( [&]( auto &a, auto &m ) { CHECK_EQ( a += x, m += x ); } );
				break;
			case 12:
				arith( [&]( auto &a, auto &m ) { CHECK_EQ( a -= x, m -= x ); } );
				break;
			case 13:
				bits( [&]( auto &a, auto &m ) {
					CHECK_EQ( ++a, ++m );
					CHECK_EQ( a++, m++ );
				} );
				break;
			case 14:
				bits( [&]( auto &a, auto &m ) {
					CHECK_EQ( --a, --m );
					CHECK_EQ( a--, m-- );
				} );
				break;
			case 15:
				bits( [&]( auto &a, auto &m ) { CHECK_EQ( a.fetch_and( x, o ), m.fetch_and( x, o ) ); } );
				break;
			case 16:
				bits( [&]( auto &a, auto &m ) { CHECK_EQ( a.fetch_or( x, o ), m.fetch_or( x, o ) ); } );
				break;
			case 17:
				bits( [&]( auto &a, auto &m ) { CHECK_EQ( a.fetch_xor( x, o ), m.fetch_xor( x, o ) ); } );
				break;
			case 18:
				bits( [&]( auto &a, auto &m ) {
					CHECK_EQ( a &= x, m &= x );
					CHECK_EQ( a |= init, m |= init );
					CHECK_EQ( a ^= x, m ^= x );
				} );
				break;
			default: {
				daw::atomic<T> b( a );
				CHECK_EQ( b.load( ), m.load( ) );
				daw::atomic<T> c( std::move( b ) );
				CHECK_EQ( c.load( ), m.load( ) );
				daw::atomic<T> d{ };
				CHECK_EQ( d.load( ), T( ) );
				d.store( x );
				CHECK_EQ( a.load( ), m.load( ) );
				CHECK( &( d = a ) == &d );
				CHECK_EQ( d.load( ), m.load( ) );
				d.store( x );
				a = std::move( d );
				m.store( x );
				daw::atomic<T> &self = a;
				a = self;
				break;
			}
			}
			CHECK_EQ( ca.load( ), m.load( ) );
			CHECK_EQ( static_cast<T>( ca ), m.load( ) );
			CHECK_EQ( daw::atomic<T>::is_always_lock_free, std::atomic<T>::is_always_lock_free );
		}
		if( steps > 3 ) {
			s.nontrivial( );
		}
	}
	PROP_T( history_int, ( history<int> ), { .cases = 20000 } );
	PROP_T( history_u32, ( history<unsigned> ), { .cases = 10000 } );
	PROP_T( history_i8, ( history<std::int8_t> ), { .cases = 10000 } );
	PROP_T( history_u8, ( history<std::uint8_t> ), { .cases = 10000 } );
	PROP_T( history_i64, ( history<std::int64_t> ), { .cases = 10000 } );
	PROP_T( history_u64, ( history<std::uint64_t> ), { .cases = 10000 } );
	PROP_T( history_float, ( history<float> ), { .cases = 10000 } );
	PROP_T( history_double, ( history<double> ), { .cases = 10000 } );
	PROP_T( history_bool, ( history<bool> ), { .cases = 10000 } );

	// the same pseudo random history during constant evaluation and at run time
	// on std::atomic
	template<typename A>
	constexpr std::uint64_t run( std::uint64_t seed ) {
		A a( 5U );
		std::uint64_t h = 14695981039346656037ULL;
		auto next = [&] {
			seed ^= seed << 13;
			seed ^= seed >> 7;
			seed ^= seed << 17;
			return static_cast<std::uint32_t>( seed >> 32 );
		};
		auto mix = [&]( std::uint64_t v ) {
			h = ( h ^ v ) * 1099511628211ULL;
		};
		for( int i = 0; i < 120; ++i ) {
			std::uint32_t const x = next( ) % 3 == 0 ? next( ) % 4 : next( );
			switch( next( ) % 19 ) {
			case 0: a.store( x ); break;
			case 1: mix( a.exchange( x ) ); break;
			case 2:
			case 3: {
				std::uint32_t e = next( ) % 2 ? a.load( ) : x;
				bool const r = a.compare_exchange_strong( e, x );
				mix( r );
				mix( e );
				break;
			}
			case 4: {
				std::uint32_t e = next( ) % 2 ? a.load( ) : x;
				bool const r = a.compare_exchange_strong( e, x, std::memory_order_acq_rel, std::memory_order_acquire );
				mix( r );
				mix( e );
				break;
			}
			case 5: {
				// x86 weak exchanges fail only on a difference
				std::uint32_t e = next( ) % 2 ? a.load( ) : x;
				bool const r = next( ) % 2 ? a.compare_exchange_weak( e, x ) : a.compare_exchange_weak( e, x, std::memory_order_acq_rel, std::memory_order_relaxed );
				mix( r );
				mix( e );
				break;
			}
			case 6: mix( a.fetch_add( x ) ); break;
			case 7: mix( a.fetch_sub( x ) ); break;
			case 8: mix( a += x ); break;
			case 9: mix( a -= x ); break;
			case 10: mix( ++a ); break;
			case 11: mix( a++ ); break;
			case 12: mix( --a ); break;
			case 13: mix( a-- ); break;
			case 14: mix( a.fetch_and( x ) ); break;
			case 15: mix( a.fetch_or( x ) ); break;
			case 16: mix( a.fetch_xor( x ) ); break;
			case 17: mix( a &= x | 0xFFFF ); break;
			default:
				mix( a |= x & 0xFF );
				mix( a ^= x );
				break;
			}
			mix( a.load( ) );
		}
		return h;
	}
	template<std::size_t... I>
	constexpr std::array<std::uint64_t, sizeof...( I )> constant_runs( std::index_sequence<I...> ) {
		return { run<daw::atomic<std::uint32_t>>( 0x9E3779B97F4A7C15ULL * ( I + 1 ) )... };
	}
	constexpr auto constants = constant_runs( std::make_index_sequence<48>{ } );

	PROP( constant_evaluation, { .cases = 1, .exhaustive = 48 } ) {
		auto const i = s.below( 48 );
		std::uint64_t const seed = 0x9E3779B97F4A7C15ULL * ( i + 1 );
		CHECK_EQ( constants[i], run<std::atomic<std::uint32_t>>( seed ) );
		CHECK_EQ( constants[i], run<daw::atomic<std::uint32_t>>( seed ) );
		s.nontrivial( );
	}

	// ---- waits on one thread: the result and the time it takes -----------------------
	using Clock = std::chrono::high_resolution_clock;
	using std::chrono::nanoseconds;

	enum class Form { wait_for, wait_until, if_for, if_until, equal_for, equal_until };

	template<typename Dur>
	daw::wait_status timed( Form f, std::atomic<int> const &v, int target, Dur d ) {
		auto const pred = [target]( int x ) { return x == target; };
		switch( f ) {
		case Form::wait_for:
			return daw::atomic_wait_for( &v, target, d );
		case Form::wait_until:
			return daw::atomic_wait_until( &v, target, Clock::now( ) + d );
		case Form::if_for:
			return daw::atomic_wait_if_for( &v, pred, d );
		case Form::if_until:
			return daw::atomic_wait_if_until( &v, pred, Clock::now( ) + d, std::memory_order_seq_cst );
		case Form::equal_for:
			return daw::atomic_wait_value_equal_for( &v, target, d );
		default:
			return daw::atomic_wait_value_equal_until( &v, target, Clock::now( ) + d );
		}
	}

	PROP( timed_result, { .cases = 2500 } ) {
		std::atomic<int> v( s.range<int>( -3, 3 ) );
		auto const form = static_cast<Form>( s.below( 6 ) );
		int const target = s.range<int>( -3, 3 );
		bool const on_change = form == Form::wait_for or form == Form::wait_until;
		bool const found = on_change ? v.load( ) != target : v.load( ) == target;
		auto const us = s.weighted( { 2, 1, 4 } );
		nanoseconds const limit = us == 0   ? nanoseconds( 0 )
		                          : us == 1 ? nanoseconds( -s.range<int>( 1, 1000000 ) )
		                                    : nanoseconds( s.range<int>( 1, 400 ) * ( s.chance( 10 ) ? 20000 : 1000 ) );
		auto const t0 = Clock::now( );
		daw::wait_status r{ };
		nanoseconds asked = limit;
		switch( s.below( 4 ) ) {
		case 0:
			r = timed( form, v, target, limit );
			break;
		case 1: {
			auto const d = std::chrono::duration_cast<std::chrono::microseconds>( limit );
			asked = d;
			r = timed( form, v, target, d );
			break;
		}
		case 2: {
			auto const d = std::chrono::duration_cast<std::chrono::milliseconds>( limit );
			asked = d;
			r = timed( form, v, target, d );
			break;
		}
		default: {
			std::chrono::duration<double, std::milli> const d = limit;
			asked = limit - nanoseconds( 2000 ); // a time since 1970 in double milliseconds
			r = timed( form, v, target, d );
			break;
		}
		}
		auto const took = Clock::now( ) - t0;
		CHECK( r == ( found ? daw::wait_status::found : daw::wait_status::timeout ) );
		if( not found ) {
			CHECK( took >= asked );
			s.nontrivial( );
		}
	}

	// a wait whose condition already holds does not depend on the time left
	PROP( already_true, { .cases = 3000 } ) {
		std::atomic<int> v( s.range<int>( -100, 100 ) );
		int const x = v.load( );
		daw::atomic_wait_value_equal( &v, x );
		int calls = 0;
		daw::atomic_wait_if( &v, [&]( int k ) {
			++calls;
			return k == x;
		} );
		CHECK( calls >= 1 );
		auto const far = std::chrono::hours( 24 );
		auto const near_ = -std::chrono::seconds( s.range<int>( 0, 3 ) );
		CHECK( daw::atomic_wait_for( &v, x + 1, far ) == daw::wait_status::found );
		CHECK( daw::atomic_wait_for( &v, x + 1, near_ ) == daw::wait_status::found );
		CHECK( daw::atomic_wait_until( &v, x - 1, std::chrono::steady_clock::now( ) + near_ ) == daw::wait_status::found );
		CHECK( daw::atomic_wait_value_equal_for( &v, x, near_ ) == daw::wait_status::found );
		CHECK( daw::atomic_wait_value_equal_until( &v, x, std::chrono::system_clock::now( ) + far ) == daw::wait_status::found );
		CHECK( daw::atomic_wait_if_until( &v, [&]( int k ) { return k == x; }, std::chrono::steady_clock::now( ) + far ) == daw::wait_status::found );
		CHECK_EQ( v.load( ), x );
		s.nontrivial( );
	}
} // namespace
