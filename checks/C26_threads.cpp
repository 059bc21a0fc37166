// C26 (threads): random per-thread programs run concurrently under
// ThreadSanitizer.  Whatever the interleaving: nothing is lost, tickets are
// unique, tokens are conserved, what a releasing operation published is seen
// by the acquiring one, and every wait ends, found, once its condition holds.
// nontrivial: at least two threads did several operations each.
// pbt-sanitize: thread
#include "pbt.h"
#include "daw/daw_atomic_wait.h"
#include "daw/daw_cx_atomic.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <functional>
#include <future>
#include <memory>
#include <set>
#include <thread>
#include <vector>
using namespace pbt;

namespace {
	// start together, run f(0)..f(n-1), rethrow the first failure
	void together( std::size_t n, std::function<void( std::size_t )> const &f ) {
		std::atomic<std::size_t> ready{ 0 };
		std::vector<std::thread> th{ };
		std::vector<std::exception_ptr> err( n );
		for( std::size_t i = 0; i < n; ++i ) {
			th.emplace_back( [&, i] {
				++ready;
				while( ready.load( ) < n ) {}
				try {
					f( i );
				} catch( ... ) { err[i] = std::current_exception( ); }
			} );
		}
		for( auto &t : th ) {
			t.join( );
		}
		for( auto &e : err ) {
			if( e ) {
				std::rethrow_exception( e );
			}
		}
	}

	template<typename T>
	void arithmetic( Src &s ) {
		auto const n = s.range<std::size_t>( 2, 4 );
		struct Op {
			int kind;
			T arg;
		};
		std::vector<std::vector<Op>> prog( n );
		auto const len = s.range<std::size_t>( 4, 200 );
		T const init = static_cast<T>( s.range<int>( -20, 20 ) );
		T want = init;
		for( auto &p : prog ) {
			for( std::size_t i = 0; i < len; ++i ) {
				Op o{ static_cast<int>( s.below( 9 ) ), static_cast<T>( s.range<int>( -5, 9 ) ) };
				if constexpr( not std::is_integral_v<T> ) {
					o.kind %= 5;
				}
				switch( o.kind ) {
				case 0:
				case 2:
				case 4:
					want = static_cast<T>( want + o.arg );
					break;
				case 1:
				case 3:
					want = static_cast<T>( want - o.arg );
					break;
				case 5:
				case 6:
					want = static_cast<T>( want + 1 );
					break;
				default:
					want = static_cast<T>( want - 1 );
					break;
				}
				p.push_back( o );
			}
		}
		daw::atomic<T> a( init );
		together( n, [&]( std::size_t me ) {
			for( auto const &o : prog[me] ) {
				switch( o.kind ) {
				case 0:
					a.fetch_add( o.arg, std::memory_order_relaxed );
					break;
				case 1:
					a.fetch_sub( o.arg );
					break;
				case 2:
					a += o.arg;
					break;
				case 3:
					a -= o.arg;
					break;
				case 4: {
					T e = a.load( );
					while( not( me % 2 ? a.compare_exchange_weak( e, static_cast<T>( e + o.arg ) )
					                   : a.compare_exchange_strong( e, static_cast<T>( e + o.arg ), std::memory_order_acq_rel,
					                                                std::memory_order_relaxed ) ) ) {}
					break;
				}
				default:
					if constexpr( std::is_integral_v<T> ) {
						switch( o.kind ) {
						case 5:
							++a;
							break;
						case 6:
							a++;
							break;
						case 7:
							--a;
							break;
						default:
							a--;
							break;
						}
					}
					break;
				}
			}
		} );
		CHECK_EQ( a.load( ), want );
		s.nontrivial( );
	}
	PROP_T( arithmetic_int, ( arithmetic<int> ), { .cases = 700, .nondet = true } );
	PROP_T( arithmetic_u8, ( arithmetic<std::uint8_t> ), { .cases = 300, .nondet = true } );
	PROP_T( arithmetic_i64, ( arithmetic<std::int64_t> ), { .cases = 300, .nondet = true } );
	PROP_T( arithmetic_double, ( arithmetic<double> ), { .cases = 300, .nondet = true } );

	// every result of ++, ++(int), fetch_add(1) is a different ticket
	PROP( tickets, { .cases = 800, .nondet = true } ) {
		auto const n = s.range<std::size_t>( 2, 4 );
		auto const len = s.range<std::size_t>( 4, 300 );
		int const kind = static_cast<int>( s.below( 4 ) );
		daw::atomic<int> a( 0 );
		std::vector<std::vector<int>> got( n );
		together( n, [&]( std::size_t me ) {
			for( std::size_t i = 0; i < len; ++i ) {
				int t = 0;
				switch( kind == 3 ? static_cast<int>( ( i + me ) % 3 ) : kind ) {
				case 0:
					t = ++a;
					break;
				case 1:
					t = a++ + 1;
					break;
				default:
					t = a.fetch_add( 1, std::memory_order_relaxed ) + 1;
					break;
				}
				got[me].push_back( t );
			}
		} );
		std::vector<int> all{ };
		for( auto const &g : got ) {
			CHECK( std::is_sorted( g.begin( ), g.end( ) ) );
			all.insert( all.end( ), g.begin( ), g.end( ) );
		}
		std::sort( all.begin( ), all.end( ) );
		for( std::size_t i = 0; i < all.size( ); ++i ) {
			CHECK_EQ( all[i], static_cast<int>( i + 1 ) );
		}
		CHECK_EQ( a.load( ), static_cast<int>( all.size( ) ) );
		s.nontrivial( );
	}

	// exchange hands every token to exactly one taker
	PROP( tokens, { .cases = 600, .nondet = true } ) {
		auto const n = s.range<std::size_t>( 2, 4 );
		auto const len = s.range<std::size_t>( 4, 200 );
		daw::atomic<int> a( -1 );
		std::vector<std::vector<int>> got( n );
		together( n, [&]( std::size_t me ) {
			for( std::size_t i = 0; i < len; ++i ) {
				got[me].push_back( a.exchange( static_cast<int>( me * len + i ) ) );
			}
		} );
		std::multiset<int> all{ a.load( ) };
		for( auto const &g : got ) {
			all.insert( g.begin( ), g.end( ) );
		}
		CHECK_EQ( all.size( ), n * len + 1 );
		int want = -1;
		for( int x : all ) {
			CHECK_EQ( x, want++ );
		}
		s.nontrivial( );
	}

	// bits set, cleared and flipped by different threads do not disturb each other
	PROP( bits, { .cases = 700, .nondet = true } ) {
		auto const n = s.range<std::size_t>( 2, 4 );
		auto const len = s.range<std::size_t>( 4, 200 );
		int const kind = static_cast<int>( s.below( 3 ) );
		daw::atomic<std::uint32_t> a( 0 );
		std::vector<int> bad( n, 0 );
		together( n, [&]( std::size_t me ) {
			for( std::size_t i = 0; i < len; ++i ) {
				std::uint32_t const bit = 1U << ( me * 8 + i % 8 );
				std::uint32_t before = 0, after = 0;
				switch( kind ) {
				case 0:
					before = a.fetch_or( bit );
					after = a.fetch_and( ~bit, std::memory_order_acq_rel );
					break;
				case 1:
					before = a.fetch_xor( bit );
					after = a.fetch_xor( bit );
					break;
				default:
					before = ( a |= bit ) ^ bit;
					after = ~( a &= ~bit );
					a ^= bit;
					a ^= bit;
					break;
				}
				bad[me] += ( before & bit ) != 0;
				bad[me] += ( after & bit ) == 0;
			}
		} );
		CHECK_EQ( a.load( ), 0U );
		for( int b : bad ) {
			CHECK_EQ( b, 0 );
		}
		s.nontrivial( );
	}

	// plain data guarded by a lock made from the cell (the orders asked for are
	// the ones that are used)
	PROP( locks, { .cases = 700, .nondet = true } ) {
		auto const n = s.range<std::size_t>( 2, 4 );
		auto const len = s.range<std::size_t>( 4, 60 );
		int const kind = static_cast<int>( s.below( 6 ) );
		daw::atomic<int> lock( 0 );
		long plain = 0;
		together( n, [&]( std::size_t ) {
			for( std::size_t i = 0; i < len; ++i ) {
				for( ;; ) {
					int zero = 0;
					bool got = false;
					switch( kind ) {
					case 0:
						got = lock.exchange( 1 ) == 0;
						break;
					case 1:
						got = lock.exchange( 1, std::memory_order_acquire ) == 0;
						break;
					case 2:
						got = lock.compare_exchange_strong( zero, 1 );
						break;
					case 3:
						got = lock.compare_exchange_weak( zero, 1, std::memory_order_acquire );
						break;
					case 4:
						got = lock.compare_exchange_strong( zero, 1, std::memory_order_acquire, std::memory_order_relaxed );
						break;
					default:
						got = lock.fetch_or( 1, std::memory_order_acquire ) == 0;
						break;
					}
					if( got ) {
						break;
					}
					std::this_thread::yield( );
				}
				++plain;
				if( kind % 2 == 0 ) {
					lock.store( 0 );
				} else {
					lock.store( 0, std::memory_order_release );
				}
			}
		} );
		CHECK_EQ( plain, static_cast<long>( n * len ) );
		s.nontrivial( );
	}

	// a reader that sees the flag sees what was written before it
	PROP( publication, { .cases = 700, .nondet = true } ) {
		auto const rounds = s.range<int>( 2, 30 );
		int const kind = static_cast<int>( s.below( 4 ) );
		daw::atomic<int> flag( 0 );
		std::vector<int> data( static_cast<std::size_t>( rounds ), 0 );
		int wrong = 0;
		together( 2, [&]( std::size_t me ) {
			for( int i = 0; i < rounds; ++i ) {
				if( me == 0 ) {
					data[static_cast<std::size_t>( i )] = i + 7;
					switch( kind ) {
					case 0:
						flag.store( i + 1, std::memory_order_release );
						break;
					case 1:
						flag = i + 1;
						break;
					case 2:
						flag.fetch_add( 1, std::memory_order_release );
						break;
					default:
						++flag;
						break;
					}
				} else {
					while( ( kind == 1 ? static_cast<int>( flag ) : flag.load( std::memory_order_acquire ) ) <= i ) {
						std::this_thread::yield( );
					}
					wrong += data[static_cast<std::size_t>( i )] != i + 7;
				}
			}
		} );
		CHECK_EQ( wrong, 0 );
		s.nontrivial( );
	}

	// ---- waits -------------------------------------------------------------------------
	// run a wait on its own thread; one that does not end is released and reported
	template<typename Wait, typename Act>
	void ends( std::atomic<int> &v, int release, Wait wait, Act act ) {
		auto p = std::promise<void>( );
		auto done = p.get_future( );
		std::exception_ptr err{ };
		std::thread waiter( [&] {
			try {
				wait( );
			} catch( ... ) { err = std::current_exception( ); }
			p.set_value( );
		} );
		act( );
		bool const ok = done.wait_for( std::chrono::seconds( 20 ) ) == std::future_status::ready;
		while( done.wait_for( std::chrono::milliseconds( 0 ) ) != std::future_status::ready ) {
			v.store( release );
			v.notify_all( );
			std::this_thread::sleep_for( std::chrono::milliseconds( 1 ) );
		}
		waiter.join( );
		if( err ) {
			std::rethrow_exception( err );
		}
		CHECK( ok );
	}

	void nap( unsigned us ) {
		if( us > 0 ) {
			std::this_thread::sleep_for( std::chrono::microseconds( us ) );
		}
	}

	PROP( waits_end, { .cases = 700, .nondet = true } ) {
		std::atomic<int> v( 0 );
		int const last = s.range<int>( 1, 6 );
		int const form = static_cast<int>( s.below( 8 ) );
		std::vector<unsigned> pauses( static_cast<std::size_t>( last ) );
		for( auto &p : pauses ) {
			p = s.chance( 2 ) ? 0U : s.range<unsigned>( 0, 400 );
		}
		auto const wait_first = s.range<unsigned>( 0, 2 ) * 150U;
		// published with the value
		std::vector<int> data( static_cast<std::size_t>( last ) + 1, 0 );
		bool const release_only = s.boolean( );
		auto const minute = std::chrono::minutes( 1 );
		ends(
		  v, last,
		  [&] {
			  auto const is_last = [last]( int x ) { return x == last; };
			  nap( wait_first );
			  daw::wait_status r = daw::wait_status::found;
			  bool any_change = false;
			  switch( form ) {
			  case 0:
				  daw::atomic_wait_if( &v, is_last );
				  break;
			  case 1:
				  daw::atomic_wait_value_equal( &v, last );
				  break;
			  case 2:
				  r = daw::atomic_wait_if_for( &v, is_last, minute );
				  break;
			  case 3:
				  r = daw::atomic_wait_if_until( &v, is_last, std::chrono::steady_clock::now( ) + minute );
				  break;
			  case 4:
				  r = daw::atomic_wait_value_equal_for( &v, last, minute );
				  break;
			  case 5:
				  r = daw::atomic_wait_value_equal_until( &v, last, std::chrono::system_clock::now( ) + minute );
				  break;
			  case 6:
				  r = daw::atomic_wait_for( &v, 0, minute );
				  any_change = true;
				  break;
			  default:
				  r = daw::atomic_wait_until( &v, 0, std::chrono::steady_clock::now( ) + minute );
				  any_change = true;
				  break;
			  }
			  CHECK( r == daw::wait_status::found );
			  if( any_change ) {
				  CHECK( v.load( ) != 0 );
				  CHECK_EQ( data[1], 11 );
			  } else {
				  CHECK_EQ( v.load( ), last );
				  for( int i = 1; i <= last; ++i ) {
					  CHECK_EQ( data[static_cast<std::size_t>( i )], i + 10 );
				  }
			  }
		  },
		  [&] {
			  for( int i = 1; i <= last; ++i ) {
				  nap( pauses[static_cast<std::size_t>( i - 1 )] );
				  data[static_cast<std::size_t>( i )] = i + 10;
				  v.store( i, release_only ? std::memory_order_release : std::memory_order_seq_cst );
				  v.notify_all( );
			  }
		  } );
		s.nontrivial( );
	}

	// a wait that could time out: timeout is only ever reported for a condition
	// that did not hold when the time was up, found only for one that did
	PROP( races_with_timeout, { .cases = 500, .nondet = true } ) {
		std::atomic<int> v( 0 );
		auto const limit = std::chrono::microseconds( s.range<int>( 0, 600 ) );
		auto const pause = s.range<unsigned>( 0, 600 );
		int const form = static_cast<int>( s.below( 3 ) );
		auto const set_at = std::make_shared<std::chrono::steady_clock::time_point>( );
		daw::wait_status r{ };
		std::chrono::steady_clock::time_point begin{ }, end{ };
		int seen = -1;
		ends(
		  v, 1,
		  [&] {
			  begin = std::chrono::steady_clock::now( );
			  switch( form ) {
			  case 0:
				  r = daw::atomic_wait_value_equal_for( &v, 1, limit );
				  break;
			  case 1:
				  r = daw::atomic_wait_for( &v, 0, limit );
				  break;
			  default:
				  r = daw::atomic_wait_if_for( &v, []( int x ) { return x > 0; }, limit );
				  break;
			  }
			  seen = v.load( );
			  end = std::chrono::steady_clock::now( );
		  },
		  [&] {
			  nap( pause );
			  v.store( 1 );
			  v.notify_all( );
		  } );
		if( r == daw::wait_status::found ) {
			CHECK_EQ( seen, 1 );
			s.label( "found" );
		} else {
			CHECK( end - begin + std::chrono::microseconds( 50 ) >= limit );
			s.label( "timeout" );
		}
		s.nontrivial( );
	}
} // namespace
