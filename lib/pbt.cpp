// Runner for pbt.h: sharded forked workers, shrinking, replay, JSON summary.
#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

#if defined( __has_feature )
#if __has_feature( address_sanitizer )
#define PBT_ASAN 1
#endif
#endif
#if defined( __SANITIZE_ADDRESS__ )
#define PBT_ASAN 1
#endif

extern "C" {
int __sanitizer_install_malloc_and_free_hooks( void ( * )( void const volatile *, std::size_t ), void ( * )( void const volatile * ) ) __attribute__( ( weak ) );
char const *__asan_default_options( );
char const *__ubsan_default_options( );
char const *__tsan_default_options( );
}
extern "C" char const *__asan_default_options( ) {
	return "detect_leaks=0:exitcode=77:allocator_may_return_null=0:max_malloc_fill_size=65536:malloc_fill_byte=190:"
	       "max_free_fill_size=65536:free_fill_byte=223:hard_rss_limit_mb=3000:handle_segv=1:quarantine_size_mb=8:"
	       "detect_stack_use_after_return=1:symbolize=0:abort_on_error=0:print_legend=0";
}
extern "C" char const *__ubsan_default_options( ) {
	return "print_stacktrace=0:symbolize=0:exitcode=77";
}
extern "C" char const *__tsan_default_options( ) {
	return "exitcode=77:halt_on_error=1:symbolize=0";
}

namespace pbt {
	std::vector<Prop> &props( ) {
		static std::vector<Prop> p;
		return p;
	}
	std::vector<Known> &knowns( ) {
		static std::vector<Known> p;
		return p;
	}
	long g_live = 0;
	long g_throw_after = -1;
	static char g_lifetime_msg[256];
	static volatile bool g_lifetime_err = false;
	void lifetime_error( char const *what ) {
		if( not g_lifetime_err ) {
			g_lifetime_err = true;
			std::strncpy( g_lifetime_msg, what, sizeof g_lifetime_msg - 1 );
		}
	}
	bool dies( void ( *f )( void * ), void *arg ) {
		std::fflush( nullptr );
		pid_t pid = fork( );
		if( pid < 0 ) {
			return true; // cannot tell
		}
		if( pid == 0 ) {
			int fd = open( "/dev/null", O_WRONLY );
			dup2( fd, 1 );
			dup2( fd, 2 );
			signal( SIGABRT, SIG_DFL );
			try {
				f( arg );
			} catch( ... ) { _exit( 3 ); }
			_exit( 0 );
		}
		int st = 0;
		while( waitpid( pid, &st, 0 ) < 0 and errno == EINTR ) {}
		return WIFSIGNALED( st ) and ( WTERMSIG( st ) == SIGABRT or WTERMSIG( st ) == SIGTRAP or WTERMSIG( st ) == SIGILL );
	}
	static std::atomic<long> g_blocks{ 0 };
	static bool g_hooks = false;
	long live_blocks( ) {
		return g_blocks.load( std::memory_order_relaxed );
	}
	static void on_malloc( void const volatile *p, std::size_t ) {
		if( p ) {
			g_blocks.fetch_add( 1, std::memory_order_relaxed );
		}
	}
	static void on_free( void const volatile *p ) {
		if( p ) {
			g_blocks.fetch_sub( 1, std::memory_order_relaxed );
		}
	}
	void fail( std::string msg ) {
		throw Fail{ std::move( msg ) };
	}
	void fail_at( char const *expr, char const *file, int line ) {
		std::string f = file;
		auto p = f.rfind( '/' );
		fail( ( p == f.npos ? f : f.substr( p + 1 ) ) + ":" + std::to_string( line ) + ": " + expr );
	}
	void Src::add_note( std::string const &s ) {
		u64 n = sh->note_len;
		std::size_t k = std::min<std::size_t>( s.size( ), Shared::MaxNote - n - 2 );
		std::memcpy( sh->note + n, s.data( ), k );
		sh->note[n + k] = '\n';
		sh->note_len = n + k + 1;
	}

	static constexpr u64 ShardMax = 1u << 18;
	struct Slot {
		Shared sh;
		volatile u64 n_hash;
		u64 hash[ShardMax];
	};
	static Slot *new_slot( ) {
		void *p = mmap( nullptr, sizeof( Slot ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		if( p == MAP_FAILED ) {
			std::perror( "mmap" );
			_exit( 3 );
		}
		return static_cast<Slot *>( p );
	}

	// ---- liveness: CPU-time ticks without a new case
	// the signal may arrive on any thread
	static std::atomic<Shared *> g_watch{ nullptr };
	static std::atomic<u64> g_last_case{ ~0ull };
	static std::atomic<int> g_ticks{ 0 };
	static int const g_tick_limit = 20;
	static constexpr int HangExit = 78;
	__attribute__( ( no_sanitize( "thread" ) ) ) static void on_tick( int ) {
		if( Shared *const w = g_watch; w ) {
			if( w->case_no == g_last_case ) {
				if( ++g_ticks >= g_tick_limit ) {
					_exit( HangExit );
				}
			} else {
				g_last_case = w->case_no;
				g_ticks = 0;
			}
		}
	}
	static void start_ticks( Shared *sh ) {
		g_watch = sh;
		g_last_case = ~0ull;
		g_ticks = 0;
		std::signal( SIGVTALRM, on_tick );
		itimerval t{ { 0, 500000 }, { 0, 500000 } };
		setitimer( ITIMER_VIRTUAL, &t, nullptr );
	}

	static void set_msg( Shared *sh, std::string const &m ) {
		std::size_t k = std::min( m.size( ), sizeof( sh->fail_msg ) - 1 );
		std::memcpy( sh->fail_msg, m.data( ), k );
		sh->fail_msg[k] = 0;
		sh->failed = 1;
	}

	// returns true when the case failed
	static bool run_once( Prop const &p, Src &s, long &block_delta ) {
		Shared *sh = s.sh;
		sh->n_choices = 0;
		sh->note_len = 0;
		sh->case_no = sh->case_no + 1;
		g_live = 0;
		g_throw_after = -1;
		g_lifetime_err = false;
		s.is_nontrivial = false;
		s.n_label_seen = 0;
		s.discarded = false;
		bool failed = false;
		long const b0 = live_blocks( );
		try {
			p.body( s );
			block_delta = live_blocks( ) - b0;
		} catch( Fail const &f ) {
			set_msg( sh, f.msg );
			return true;
		} catch( Overrun const & ) {
			s.discarded = true;
			return false;
		} catch( Injected const & ) {
			set_msg( sh, "injected exception escaped from a place that must not propagate it" );
			return true;
		} catch( std::exception const &e ) {
			set_msg( sh, std::string( "unexpected exception: " ) + e.what( ) );
			return true;
		} catch( ... ) {
			set_msg( sh, "unexpected exception of unknown type" );
			return true;
		}
		g_throw_after = -1;
		if( g_lifetime_err ) {
			set_msg( sh, std::string( "lifetime error: " ) + g_lifetime_msg );
			return true;
		}
		if( g_live != 0 ) {
			set_msg( sh, "lifetime error: " + std::to_string( g_live ) + " tracked objects still alive after the case" );
			return true;
		}
		return failed;
	}
	static bool run_case( Prop const &p, Src &s ) {
		long delta = 0;
		if( run_once( p, s, delta ) ) {
			return true;
		}
		if( p.opt.leak and g_hooks and delta > 0 and not s.discarded ) {
			// a lazily initialised static is allocated once; a leak repeats
			std::vector<u64> ch( s.sh->choices, s.sh->choices + s.sh->n_choices );
			Src t;
			t.sh = s.sh;
			t.rep = ch.data( );
			t.nrep = ch.size( );
			t.sz = s.sz;
			for( int k = 0; k < 3; ++k ) {
				long d2 = 0;
				if( run_once( p, t, d2 ) ) {
					return true;
				}
				if( d2 <= 0 ) {
					s.is_nontrivial = t.is_nontrivial;
					return false;
				}
				delta = d2;
			}
			set_msg( s.sh, "memory leak: " + std::to_string( delta ) + " heap block(s) allocated by the case were not freed" );
			return true;
		}
		return false;
	}

	static u64 name_hash( char const *n ) {
		u64 h = 1469598103934665603ull;
		for( ; *n; ++n ) {
			h = ( h ^ static_cast<unsigned char>( *n ) ) * 1099511628211ull;
		}
		return h;
	}
	static u64 g_seed = 1;

	static void seed_case( Prop const &p, Src &s, u64 idx, u64 total, u64 &rep_store ) {
		if( p.opt.exhaustive ) {
			rep_store = idx;
			s.rep = &rep_store;
			s.nrep = 1;
			s.sz = 50;
		} else {
			s.rep = nullptr;
			u64 z = g_seed * 0x9E3779B97F4A7C15ull ^ name_hash( p.name );
			u64 a = splitmix( z );
			z = a ^ ( idx * 0xD1342543DE82EF95ull );
			s.rng = splitmix( z );
			(void)total;
			s.sz = 1 + static_cast<unsigned>( idx % 100 );
		}
	}

	static void redirect_stderr( std::string const &path ) {
		int fd = open( path.c_str( ), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
		if( fd >= 0 ) {
			dup2( fd, 2 );
			dup2( fd, 1 );
			close( fd );
		}
	}

	// worker: run cases [from, to)
	[[noreturn]] static void worker( Prop const &p, Slot *slot, u64 from, u64 to, u64 total, std::string const &errlog ) {
		redirect_stderr( errlog );
		Shared *sh = &slot->sh;
		start_ticks( sh );
		Src s;
		s.sh = sh;
		for( u64 i = from; i < to; ++i ) {
			sh->cur_index = i;
			u64 rs = 0;
			seed_case( p, s, i, total, rs );
			if( run_case( p, s ) ) {
				_exit( 1 );
			}
			sh->evaluations = sh->evaluations + 1;
			if( s.discarded ) {
				sh->discarded = sh->discarded + 1;
			} else if( s.is_nontrivial ) {
				sh->nontrivial = sh->nontrivial + 1;
				u64 h = sh->n_choices;
				for( u64 k = 0; k < sh->n_choices; ++k ) {
					h ^= sh->choices[k] + 0x9E3779B97F4A7C15ull + ( h << 6 ) + ( h >> 2 );
					u64 z = h;
					h = splitmix( z );
				}
				slot->hash[slot->n_hash] = h;
				slot->n_hash = slot->n_hash + 1;
				if( sh->n_samples < Shared::MaxSamples and from == 0 and ( i % 37 ) > 20 ) {
					std::vector<u64> ch( sh->choices, sh->choices + sh->n_choices );
					Src t;
					t.sh = sh;
					t.rep = ch.data( );
					t.nrep = ch.size( );
					t.sz = s.sz;
					t.noting = true;
					long d = 0;
					if( run_once( p, t, d ) ) {
						_exit( 1 );
					}
					std::string txt = p.name + std::string( ": " );
					if( sh->note_len ) {
						txt += std::string( sh->note, std::min<u64>( (u64)sh->note_len - 1, 380 ) );
					} else {
						txt += "choices";
						for( std::size_t k = 0; k < ch.size( ) and k < 24; ++k ) {
							txt += " " + std::to_string( ch[k] );
						}
					}
					int ns = sh->n_samples;
					std::strncpy( sh->sample[ns], txt.c_str( ), sizeof( sh->sample[ns] ) - 1 );
					sh->n_samples = ns + 1;
				}
			}
		}
		_exit( 0 );
	}

	struct Outcome {
		bool failed = false;
		bool hang = false;
		std::string msg;
		std::vector<u64> used;
		std::string note;
		std::string log;
	};

	static std::string g_tmp;
	static std::string slurp( std::string const &path, std::size_t max = 6000 ) {
		std::ifstream f( path );
		std::string s( ( std::istreambuf_iterator<char>( f ) ), std::istreambuf_iterator<char>( ) );
		if( s.size( ) > max ) {
			s.resize( max );
		}
		return s;
	}
	static std::string status_msg( int st, std::string const &log ) {
		std::string first;
		for( char const *key : { "runtime error:", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "Assertion", "terminate called", "what():", "hard rss limit" } ) {
			auto p = log.find( key );
			if( p != log.npos ) {
				auto b = log.rfind( '\n', p );
				auto e = log.find( '\n', p );
				first = log.substr( b == log.npos ? 0 : b + 1, e == log.npos ? log.npos : e - ( b == log.npos ? 0 : b + 1 ) );
				break;
			}
		}
		std::string m;
		if( WIFSIGNALED( st ) ) {
			m = "killed by signal " + std::to_string( WTERMSIG( st ) );
		} else if( WEXITSTATUS( st ) == HangExit ) {
			m = "did not finish (no progress in 10 s of CPU time)";
		} else {
			m = "aborted with exit status " + std::to_string( WEXITSTATUS( st ) );
		}
		return first.empty( ) ? m : m + ": " + first;
	}

	static Slot *g_scratch = nullptr;
	static Outcome attempt( Prop const &p, std::vector<u64> const &ch, bool noting, unsigned sz ) {
		Shared *sh = &g_scratch->sh;
		sh->n_choices = 0;
		sh->note_len = 0;
		sh->failed = 0;
		sh->fail_msg[0] = 0;
		sh->case_no = 0;
		sh->n_labels = 0;
		std::string log = g_tmp + "/attempt.log";
		std::fflush( nullptr );
		pid_t pid = fork( );
		if( pid == 0 ) {
			redirect_stderr( log );
			start_ticks( sh );
			Src s;
			s.sh = sh;
			s.rep = ch.data( );
			s.nrep = ch.size( );
			s.sz = sz;
			s.noting = noting;
			_exit( run_case( p, s ) ? 1 : 0 );
		}
		int st = 0;
		// wall limit for blocked (not spinning) cases
		for( int ms = 0;; ) {
			pid_t r = waitpid( pid, &st, WNOHANG );
			if( r == pid ) {
				break;
			}
			usleep( ms < 50 ? 300 : 5000 );
			ms += ms < 50 ? 1 : 5;
			if( ms > 90000 ) {
				kill( pid, SIGKILL );
				waitpid( pid, &st, 0 );
				st = HangExit << 8;
				break;
			}
		}
		Outcome o;
		if( WIFEXITED( st ) and WEXITSTATUS( st ) == 0 ) {
			return o;
		}
		o.failed = true;
		o.hang = WIFEXITED( st ) and WEXITSTATUS( st ) == HangExit;
		std::string l = slurp( log );
		if( WIFEXITED( st ) and WEXITSTATUS( st ) == 1 and sh->failed ) {
			o.msg = sh->fail_msg;
		} else {
			o.msg = status_msg( st, l );
			o.log = l;
		}
		o.used.assign( sh->choices, sh->choices + std::min<u64>( (u64)sh->n_choices, Shared::MaxChoices ) );
		while( not o.used.empty( ) and o.used.back( ) == 0 ) {
			o.used.pop_back( );
		}
		o.note = std::string( sh->note, sh->note_len );
		return o;
	}

	static bool simpler( std::vector<u64> const &a, std::vector<u64> const &b ) {
		if( a.size( ) != b.size( ) ) {
			return a.size( ) < b.size( );
		}
		return a < b;
	}

	static std::vector<u64> shrink( Prop const &p, std::vector<u64> best, unsigned sz, double budget_s ) {
		auto t0 = std::chrono::steady_clock::now( );
		auto over = [&] {
			return std::chrono::duration<double>( std::chrono::steady_clock::now( ) - t0 ).count( ) > budget_s;
		};
		int hangs = 0;
		auto try_it = [&]( std::vector<u64> const &c ) {
			if( over( ) or not simpler( c, best ) ) {
				return false;
			}
			auto o = attempt( p, c, false, sz );
			if( o.hang and ++hangs > 4 ) {
				budget_s = 0;
			}
			if( o.failed and ( simpler( o.used, best ) ) ) {
				best = o.used;
				return true;
			}
			return false;
		};
		bool progress = true;
		while( progress and not over( ) ) {
			progress = false;
			for( std::size_t k = std::max<std::size_t>( best.size( ) / 2, 1 ); k >= 1; k /= 2 ) {
				for( std::size_t i = best.size( ); i >= k and not over( ); ) {
					i -= std::min( i, k );
					if( i + k > best.size( ) ) {
						if( i == 0 ) {
							break;
						}
						continue;
					}
					auto c = best;
					c.erase( c.begin( ) + static_cast<long>( i ), c.begin( ) + static_cast<long>( i + k ) );
					if( try_it( c ) ) {
						progress = true;
						i = std::min( i + k, best.size( ) );
					}
					if( i == 0 ) {
						break;
					}
				}
				if( k == 1 ) {
					break;
				}
			}
			// lower a count and drop elements after it
			for( std::size_t i = 0; i < best.size( ) and not over( ); ++i ) {
				for( std::size_t d = 1; d <= 3 and i < best.size( ) and best[i] > 0; ++d ) {
					bool got = false;
					for( std::size_t j = i + 1; j + d <= best.size( ) and j < i + 40; ++j ) {
						auto c = best;
						c[i]--;
						c.erase( c.begin( ) + static_cast<long>( j ), c.begin( ) + static_cast<long>( j + d ) );
						if( try_it( c ) ) {
							progress = got = true;
							break;
						}
					}
					if( got ) {
						--d;
						if( over( ) ) {
							break;
						}
					}
				}
			}
			for( std::size_t i = 0; i < best.size( ) and not over( ); ++i ) {
				if( best[i] == 0 ) {
					continue;
				}
				auto c = best;
				c[i] = 0;
				if( try_it( c ) ) {
					progress = true;
					continue;
				}
				u64 lo = 0, hi = i < best.size( ) ? best[i] : 0; // lo passes, hi fails
				while( hi - lo > 1 and not over( ) and i < best.size( ) ) {
					u64 mid = lo + ( hi - lo ) / 2;
					c = best;
					c[i] = mid;
					if( try_it( c ) ) {
						progress = true;
						hi = i < best.size( ) ? best[i] : 0;
						if( hi <= lo ) {
							break;
						}
					} else {
						lo = mid;
					}
				}
			}
		}
		return best;
	}

	static std::string jstr( std::string const &s ) {
		std::string r = "\"";
		for( char ch : s ) {
			unsigned char c = static_cast<unsigned char>( ch );
			if( c == '"' or c == '\\' ) {
				r += '\\';
				r += ch;
			} else if( c < 32 or c > 126 ) {
				char b[8];
				std::snprintf( b, sizeof b, "\\u%04x", c );
				r += b;
			} else {
				r += ch;
			}
		}
		return r + "\"";
	}

	struct PState {
		u64 total = 0, shard = 0, next = 0, done = 0, evals = 0, nontriv = 0, disc = 0;
		bool failed = false, truncated = false;
		std::vector<u64> fail_choices;
		unsigned fail_sz = 50;
		std::string msg, note, log;
		std::unordered_set<u64> hashes;
		std::map<std::string, u64> labels;
		std::vector<std::string> samples;
		double secs = 0;
	};

	static int main_( int argc, char **argv ) {
		std::string out, replay, replay_dir = ".", only, id = "X";
		bool thorough = false, list = false;
		int jobs = 8;
		double scale = 1, deadline = 600;
		for( int i = 1; i < argc; ++i ) {
			std::string a = argv[i];
			auto val = [&] {
				return std::string( i + 1 < argc ? argv[++i] : "" );
			};
			if( a == "--out" ) {
				out = val( );
			} else if( a == "--seed" ) {
				g_seed = std::strtoull( val( ).c_str( ), nullptr, 10 );
			} else if( a == "--thorough" ) {
				thorough = true;
			} else if( a == "--jobs" ) {
				jobs = std::atoi( val( ).c_str( ) );
			} else if( a == "--scale" ) {
				scale = std::atof( val( ).c_str( ) );
			} else if( a == "--deadline" ) {
				deadline = std::atof( val( ).c_str( ) );
			} else if( a == "--replay" ) {
				replay = val( );
			} else if( a == "--replay-dir" ) {
				replay_dir = val( );
			} else if( a == "--only" ) {
				only = val( );
			} else if( a == "--id" ) {
				id = val( );
			} else if( a == "--list" ) {
				list = true;
			}
		}
		if( list ) {
			for( auto const &p : props( ) ) {
				std::printf( "%s\n", p.name );
			}
			return 0;
		}
		if( __sanitizer_install_malloc_and_free_hooks ) {
			g_hooks = __sanitizer_install_malloc_and_free_hooks( on_malloc, on_free ) > 0;
		}
		char tmpl[] = "/tmp/pbt.XXXXXX";
		if( not mkdtemp( tmpl ) ) {
			std::perror( "mkdtemp" );
			return 3;
		}
		g_tmp = tmpl;
		struct Cleanup {
			~Cleanup( ) {
				std::string c = g_tmp;
				for( int i = 0; i < 64; ++i ) {
					unlink( ( c + "/slot" + std::to_string( i ) + ".log" ).c_str( ) );
				}
				unlink( ( c + "/attempt.log" ).c_str( ) );
				rmdir( c.c_str( ) );
			}
		} cleanup;
		g_scratch = new_slot( );

		if( not replay.empty( ) ) {
			std::ifstream f( replay );
			std::string line, sub;
			std::vector<u64> ch;
			unsigned sz = 50;
			while( std::getline( f, line ) ) {
				std::istringstream is( line );
				std::string k;
				is >> k;
				if( k == "sub" ) {
					is >> sub;
				} else if( k == "size" ) {
					is >> sz;
				} else if( k == "choices" ) {
					u64 v;
					while( is >> v ) {
						ch.push_back( v );
					}
				}
			}
			for( auto const &p : props( ) ) {
				if( sub == p.name ) {
					auto o = attempt( p, ch, true, sz );
					std::printf( "%s: %s\n%s%s", p.name, o.failed ? "FAILS" : "passes", o.failed ? ( o.msg + "\n" ).c_str( ) : "", o.note.c_str( ) );
					if( not o.log.empty( ) ) {
						std::printf( "%s\n", o.log.c_str( ) );
					}
					return o.failed ? 1 : 0;
				}
			}
			if( sub.rfind( "known:", 0 ) == 0 ) {
				for( auto const &k : knowns( ) ) {
					if( sub.substr( 6 ) == k.key ) {
						bool r = k.body( );
						std::printf( "%s: %s\n", k.key, r ? "still fails" : "no longer fails" );
						return r ? 1 : 0;
					}
				}
			}
			std::fprintf( stderr, "no such sub-property: %s\n", sub.c_str( ) );
			return 3;
		}

		auto const t0 = std::chrono::steady_clock::now( );
		auto elapsed = [&] {
			return std::chrono::duration<double>( std::chrono::steady_clock::now( ) - t0 ).count( );
		};
		auto &ps = props( );
		std::vector<PState> st( ps.size( ) );
		for( std::size_t i = 0; i < ps.size( ); ++i ) {
			if( not only.empty( ) and std::string( ps[i].name ).find( only ) == std::string::npos ) {
				continue;
			}
			double n = static_cast<double>( ps[i].opt.cases ) * scale * ( thorough ? ps[i].opt.thorough : 1 );
			u64 tot = ps[i].opt.exhaustive ? ps[i].opt.exhaustive : static_cast<u64>( n );
			st[i].total = std::max<u64>( tot, 1 );
			st[i].shard = std::clamp<u64>( ( st[i].total + 15 ) / 16, 1, ShardMax );
		}
		struct W {
			pid_t pid = 0;
			std::size_t prop = 0;
			Slot *slot = nullptr;
			std::string log;
			u64 last_case = 0;
			double last_t = 0, start = 0;
		};
		std::vector<W> ws( static_cast<std::size_t>( jobs ) );
		for( std::size_t i = 0; i < ws.size( ); ++i ) {
			ws[i].slot = new_slot( );
			ws[i].log = g_tmp + "/slot" + std::to_string( i ) + ".log";
		}
		std::size_t rr = 0;
		while( true ) {
			bool busy = false;
			for( auto &w : ws ) {
				if( w.pid == 0 ) {
					// next shard, round robin over properties
					for( std::size_t k = 0; k < ps.size( ); ++k ) {
						std::size_t i = ( rr + k ) % ps.size( );
						auto &s = st[i];
						if( s.failed or s.next >= s.total ) {
							continue;
						}
						if( elapsed( ) > deadline ) {
							s.truncated = true;
							s.next = s.total;
							continue;
						}
						rr = i + 1;
						u64 from = s.next, to = std::min( s.total, from + s.shard );
						s.next = to;
						auto &sh = w.slot->sh;
						sh.case_no = 0;
						sh.failed = 0;
						sh.fail_msg[0] = 0;
						sh.evaluations = 0; sh.nontrivial = 0; sh.discarded = 0;
						sh.n_labels = 0;
						std::memset( sh.label_count, 0, sizeof sh.label_count );
						std::memset( sh.label_name, 0, sizeof sh.label_name );
						sh.n_samples = 0;
						w.slot->n_hash = 0;
						w.prop = i;
						w.last_t = w.start = elapsed( );
						w.last_case = 0;
						std::fflush( nullptr );
						w.pid = fork( );
						if( w.pid == 0 ) {
							worker( ps[i], w.slot, from, to, s.total, w.log );
						}
						break;
					}
				}
				if( w.pid == 0 ) {
					continue;
				}
				busy = true;
				int status = 0;
				pid_t r = waitpid( w.pid, &status, WNOHANG );
				if( r == 0 ) {
					if( w.slot->sh.case_no != w.last_case ) {
						w.last_case = w.slot->sh.case_no;
						w.last_t = elapsed( );
					} else if( elapsed( ) - w.last_t > 90 ) {
						kill( w.pid, SIGKILL );
						waitpid( w.pid, &status, 0 );
						status = HangExit << 8;
						r = w.pid;
					}
				}
				if( r == w.pid ) {
					w.pid = 0;
					auto &s = st[w.prop];
					auto &sh = w.slot->sh;
					s.evals += sh.evaluations;
					s.nontriv += sh.nontrivial;
					s.disc += sh.discarded;
					s.secs += elapsed( ) - w.start;
					for( u64 k = 0; k < w.slot->n_hash; ++k ) {
						s.hashes.insert( w.slot->hash[k] );
					}
					for( int k = 0; k < sh.n_labels; ++k ) {
						s.labels[sh.label_name[k]] += sh.label_count[k];
					}
					for( int k = 0; k < sh.n_samples; ++k ) {
						s.samples.push_back( sh.sample[k] );
					}
					bool ok = WIFEXITED( status ) and WEXITSTATUS( status ) == 0;
					if( not ok and not s.failed ) {
						s.failed = true;
						s.evals++;
						s.fail_choices.assign( sh.choices, sh.choices + std::min<u64>( (u64)sh.n_choices, Shared::MaxChoices ) );
						s.fail_sz = ps[w.prop].opt.exhaustive ? 50 : 1 + static_cast<unsigned>( sh.cur_index % 100 );
						if( WIFEXITED( status ) and WEXITSTATUS( status ) == 1 and sh.failed ) {
							s.msg = sh.fail_msg;
						} else {
							s.log = slurp( w.log );
							s.msg = status_msg( status, s.log );
						}
					}
				}
			}
			if( not busy ) {
				break;
			}
			usleep( 1000 );
		}
		// ---- failures: shrink, confirm, write replay files
		struct V {
			std::string sub, path, msg;
		};
		std::vector<V> viol;
		std::vector<std::string> unrepro;
		for( std::size_t i = 0; i < ps.size( ); ++i ) {
			auto &s = st[i];
			if( not s.failed ) {
				continue;
			}
			std::fprintf( stderr, "[%s] %s failed: %s\n", id.c_str( ), ps[i].name, s.msg.c_str( ) );
			auto confirm = [&]( std::vector<u64> const &c, Outcome &o ) {
				int n = 0;
				for( int k = 0; k < 3; ++k ) {
					auto x = attempt( ps[i], c, true, s.fail_sz );
					if( x.failed ) {
						++n;
						o = x;
					}
				}
				return n;
			};
			Outcome o;
			bool is_hang = s.msg.rfind( "did not finish", 0 ) == 0;
			auto best = s.fail_choices;
			if( not is_hang ) {
				best = shrink( ps[i], s.fail_choices, s.fail_sz, viol.size( ) < 3 ? 20 : 4 );
			}
			bool ok = confirm( best, o ) >= ( ps[i].opt.nondet ? 1 : 3 );
			if( not ok ) {
				best = s.fail_choices;
				ok = confirm( best, o ) >= ( ps[i].opt.nondet ? 1 : 2 );
			}
			for( int k = 0; k < 40 and not ok and ps[i].opt.nondet and not is_hang; ++k ) {
				auto x = attempt( ps[i], best, true, s.fail_sz );
				if( x.failed ) {
					o = x;
					ok = true;
				}
			}
			if( not ok and ps[i].opt.nondet and s.msg.rfind( "did not finish", 0 ) != 0 ) {
				// a schedule-dependent failure was observed by a sound oracle
				o.msg = s.msg;
				o.log = s.log;
				ok = true;
			}
			if( not ok ) {
				unrepro.push_back( std::string( ps[i].name ) + ": " + s.msg );
				continue;
			}
			std::string path = replay_dir + "/" + id + "-" + ps[i].name + ".replay";
			std::ofstream f( path );
			f << "property " << id << "\nsub " << ps[i].name << "\nsize " << s.fail_sz << "\nchoices";
			for( auto v : best ) {
				f << ' ' << v;
			}
			f << "\n# " << o.msg << "\n";
			std::istringstream ns( o.note + "\n" + o.log );
			for( std::string l; std::getline( ns, l ); ) {
				f << "# " << l << "\n";
			}
			viol.push_back( { ps[i].name, path, o.msg } );
			std::fprintf( stderr, "[%s] minimal: %s\n%s", id.c_str( ), o.msg.c_str( ), o.note.c_str( ) );
		}
		// ---- known findings
		std::string kj;
		for( auto const &k : knowns( ) ) {
			std::fflush( nullptr );
			pid_t pid = fork( );
			if( pid == 0 ) {
				redirect_stderr( g_tmp + "/attempt.log" );
				alarm( 60 );
				bool r = true;
				try {
					r = k.body( );
				} catch( ... ) { r = true; }
				_exit( r ? 1 : 0 );
			}
			int status = 0;
			waitpid( pid, &status, 0 );
			bool still = not( WIFEXITED( status ) and WEXITSTATUS( status ) == 0 );
			std::string path;
			if( still ) {
				path = replay_dir + "/" + id + "-known-" + k.key + ".replay";
				std::ofstream f( path );
				f << "property " << id << "\nsub known:" << k.key << "\nsize 50\nchoices\n# " << k.what << "\n";
			}
			kj += ( kj.empty( ) ? "" : "," ) + ( "{\"key\":" + jstr( k.key ) + ",\"what\":" + jstr( k.what ) + ",\"reproduces\":" + ( still ? "true" : "false" ) + ",\"replay\":" + jstr( path ) + "}" );
		}
		// ---- summary
		std::string j = "{\"props\":[";
		bool first = true;
		for( std::size_t i = 0; i < ps.size( ); ++i ) {
			auto &s = st[i];
			if( s.total == 0 ) {
				continue;
			}
			j += first ? "" : ",";
			first = false;
			j += "{\"name\":" + jstr( ps[i].name ) + ",\"evaluations\":" + std::to_string( s.evals ) + ",\"nontrivial\":" + std::to_string( s.nontriv ) + ",\"distinct\":" + std::to_string( s.hashes.size( ) ) + ",\"discarded\":" + std::to_string( s.disc ) + ",\"cpu_s\":" + std::to_string( s.secs ) + ",\"truncated\":" + ( s.truncated ? "true" : "false" ) + ",\"exhaustive\":" + ( ps[i].opt.exhaustive ? "true" : "false" ) + ",\"labels\":{";
			bool f2 = true;
			for( auto const &[k, v] : s.labels ) {
				j += ( f2 ? "" : "," ) + jstr( k ) + ":" + std::to_string( v );
				f2 = false;
			}
			j += "},\"samples\":[";
			f2 = true;
			for( auto const &x : s.samples ) {
				j += ( f2 ? "" : "," ) + jstr( x );
				f2 = false;
			}
			j += "]}";
		}
		j += "],\"violations\":[";
		first = true;
		for( auto const &v : viol ) {
			j += first ? "" : ",";
			first = false;
			j += "{\"sub\":" + jstr( v.sub ) + ",\"replay\":" + jstr( v.path ) + ",\"msg\":" + jstr( v.msg ) + "}";
		}
		j += "],\"unreproducible\":[";
		first = true;
		for( auto const &v : unrepro ) {
			j += ( first ? "" : "," ) + jstr( v );
			first = false;
		}
		j += "],\"known\":[" + kj + "],\"wall_s\":" + std::to_string( elapsed( ) ) + "}";
		if( not out.empty( ) ) {
			std::ofstream( out ) << j << "\n";
		} else {
			std::printf( "%s\n", j.c_str( ) );
		}
		return viol.empty( ) ? 0 : 1;
	}
} // namespace pbt

int main( int argc, char **argv ) {
	return pbt::main_( argc, argv );
}
