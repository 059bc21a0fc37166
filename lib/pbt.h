// Property-based testing core used by every check in /verif/checks.
//
// A test case is a pure function of a sequence of choices.  The random driver
// records the choices it makes; a failure is shrunk by editing that sequence
// and the edited sequence is the replay file.  Each batch of cases runs in a
// forked worker, so crashes, sanitizer reports, aborts and hangs of the code
// under test are failures of the case that was running.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <limits>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {
	using u64 = std::uint64_t;
	using i64 = std::int64_t;

	struct Fail {
		std::string msg;
	};

	inline u64 splitmix( u64 &s ) {
		u64 z = ( s += 0x9E3779B97F4A7C15ull );
		z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
		z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
		return z ^ ( z >> 31 );
	}

	// Shared with the parent process, so that it survives a crash of the worker.
	struct Shared {
		static constexpr std::size_t MaxChoices = 1u << 14;
		static constexpr std::size_t MaxNote = 1u << 14;
		volatile u64 case_no; // bumped before each case: liveness
		volatile u64 cur_index;
		volatile u64 n_choices;
		u64 choices[MaxChoices];
		volatile u64 note_len;
		char note[MaxNote];
		char fail_msg[8192];
		volatile int failed;
		volatile u64 evaluations, nontrivial, discarded;
		static constexpr int MaxLabels = 64;
		char label_name[MaxLabels][48];
		u64 label_count[MaxLabels];
		volatile int n_labels;
		static constexpr int MaxSamples = 3;
		char sample[MaxSamples][512];
		volatile int n_samples;
	};

	struct Overrun {}; // case used more choices than a case may

	struct Src {
		Shared *sh = nullptr;
		u64 const *rep = nullptr; // replayed choices (or nullptr: random)
		std::size_t nrep = 0;
		u64 rng = 0;
		unsigned sz = 50; // size hint 1..100
		bool is_nontrivial = false;
		bool noting = false;
		bool discarded = false;
		int label_seen[Shared::MaxLabels];
		int n_label_seen = 0;

		// a choice in [0, max]; 0 is the simplest
		u64 draw( u64 max ) {
			u64 n = sh->n_choices;
			if( n >= Shared::MaxChoices ) {
				throw Overrun{ };
			}
			u64 v = 0;
			if( rep ) {
				if( n < nrep ) {
					v = rep[n];
					if( v > max ) {
						v = max == ~0ull ? v : v % ( max + 1 );
					}
				}
			} else {
				u64 r = splitmix( rng );
				if( max == ~0ull ) {
					v = r;
				} else if( max < 0xFFFFFFFFull ) {
					v = ( ( r >> 32 ) * ( max + 1 ) ) >> 32;
				} else {
					v = r % ( max + 1 );
				}
			}
			sh->choices[n] = v;
			sh->n_choices = n + 1;
			return v;
		}
		std::size_t below( std::size_t n ) {
			return n <= 1 ? ( n == 0 ? 0 : 0 ) : static_cast<std::size_t>( draw( n - 1 ) );
		}
		// uniform in [lo, hi]
		template<typename T>
		T range( T lo, T hi ) {
			return static_cast<T>( static_cast<u64>( lo ) +
			                       draw( static_cast<u64>( hi ) - static_cast<u64>( lo ) ) );
		}
		bool boolean( ) {
			return draw( 1 ) != 0;
		}
		// true with probability num/den; false is simplest
		bool chance( unsigned pct ) {
			return chance( pct, 100 );
		}
		bool chance( unsigned num, unsigned den ) {
			return draw( den - 1 ) >= den - num;
		}
		std::size_t weighted( std::initializer_list<unsigned> ws ) {
			u64 tot = 0;
			for( auto w : ws ) {
				tot += w;
			}
			u64 r = draw( tot - 1 );
			std::size_t i = 0;
			for( auto w : ws ) {
				if( r < w ) {
					return i;
				}
				r -= w;
				++i;
			}
			return ws.size( ) - 1;
		}
		template<typename T>
		T pick( std::initializer_list<T> l ) {
			return *( l.begin( ) + below( l.size( ) ) );
		}
		template<typename C>
		auto const &pick_of( C const &c ) {
			return c[below( std::size( c ) )];
		}
		// length in [0,max], usually small, grows with the case's size hint,
		// sometimes the full range
		std::size_t len( std::size_t max ) {
			switch( draw( 15 ) ) {
			case 15:
				return below( max + 1 );
			case 14:
				return max - ( max > 2 ? below( 3 ) : 0 );
			default: {
				std::size_t m = 1 + max * sz / 100;
				if( m > max ) {
					m = max;
				}
				return below( m + 1 );
			}
			}
		}
		// mostly len( max ), now and then far longer: past what eight bits count
		std::size_t longlen( std::size_t max, std::size_t most = 400, unsigned one_in = 150 ) {
			return chance( 1, one_in ) ? max + below( most ) : len( max );
		}
		// an integer of any magnitude with a bias to boundaries
		template<typename T>
		T integer( ) {
			using U = std::make_unsigned_t<T>;
			constexpr int bits = sizeof( T ) * 8;
			switch( draw( 7 ) ) {
			case 0:
				return static_cast<T>( draw( 16 ) );
			case 1:
				return static_cast<T>( static_cast<U>( 0 ) - static_cast<U>( draw( 16 ) ) );
			case 2: { // around a power of two
				U p = static_cast<U>( U{ 1 } << draw( bits - 1 ) );
				return static_cast<T>( static_cast<U>( p + static_cast<U>( draw( 4 ) ) - 2 ) );
			}
			case 3: { // around a negated power of two
				U p = static_cast<U>( U{ 1 } << draw( bits - 1 ) );
				return static_cast<T>( static_cast<U>( static_cast<U>( 0 ) - p + static_cast<U>( draw( 4 ) ) - 2 ) );
			}
			case 4: // near max / min
				return draw( 1 ) ? static_cast<T>( std::numeric_limits<T>::max( ) - static_cast<T>( draw( 4 ) ) )
				                 : static_cast<T>( std::numeric_limits<T>::min( ) + static_cast<T>( draw( 4 ) ) );
			case 5: { // random with random bit length
				int b = static_cast<int>( draw( bits - 1 ) );
				return static_cast<T>( static_cast<U>( draw( ~0ull ) ) >> b );
			}
			default:
				return static_cast<T>( static_cast<U>( draw( ~0ull ) ) );
			}
		}

		void nontrivial( bool b = true ) {
			is_nontrivial |= b;
		}
		// classification counters
		void label( char const *name, bool cond = true ) {
			if( not cond ) {
				return;
			}
			int i = 0;
			for( ; i < sh->n_labels; ++i ) {
				if( std::strncmp( sh->label_name[i], name, 47 ) == 0 ) {
					break;
				}
			}
			if( i == sh->n_labels ) {
				if( i == Shared::MaxLabels ) {
					return;
				}
				std::strncpy( sh->label_name[i], name, 47 );
				sh->n_labels = i + 1;
			}
			for( int k = 0; k < n_label_seen; ++k ) {
				if( label_seen[k] == i ) {
					return;
				}
			}
			label_seen[n_label_seen++] = i;
			sh->label_count[i]++;
		}
		// human-readable description of the case (only built when it is wanted)
		template<typename F>
		void note( F &&f ) {
			if( noting ) {
				add_note( f( ) );
			}
		}
		void add_note( std::string const &s );
	};

	using Body = void ( * )( Src & );
	struct Opt {
		u64 cases = 20000;       // quick tier
		double thorough = 20;    // factor for the thorough tier
		bool leak = true;        // check that a case frees what it allocates
		u64 exhaustive = 0;      // >0: enumerate first choice 0..exhaustive-1
		bool nondet = false;     // uses threads: need not replay every time
	};
	struct Prop {
		char const *name;
		Body body;
		Opt opt;
	};
	std::vector<Prop> &props( );
	struct Reg {
		Reg( char const *n, Body b, Opt o ) {
			props( ).push_back( { n, b, o } );
		}
	};
	// A known finding: `body` returns true when the defect still shows.
	struct Known {
		char const *key;
		char const *what;
		bool ( *body )( );
	};
	std::vector<Known> &knowns( );
	struct RegKnown {
		RegKnown( char const *k, char const *w, bool ( *b )( ) ) {
			knowns( ).push_back( { k, w, b } );
		}
	};

	// ---- messages
	template<typename T>
	std::string show( T const &v );
	inline std::string show_char( unsigned long c ) {
		char b[16];
		if( c == '\\' ) {
			return "\\\\";
		}
		if( c >= 32 and c < 127 ) {
			return std::string( 1, static_cast<char>( c ) );
		}
		std::snprintf( b, sizeof b, "\\x%lx", c );
		return b;
	}
	template<typename It>
	std::string show_str( It first, It last ) {
		std::string r = "\"";
		for( ; first != last; ++first ) {
			r += show_char( static_cast<unsigned long>(
			  static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<std::remove_cv_t<std::remove_reference_t<decltype( *first )>>, bool>, unsigned char, std::remove_cv_t<std::remove_reference_t<decltype( *first )>>>>>( *first ) ) );
		}
		return r + "\"";
	}
	template<typename T>
	concept Streamable = requires( std::ostream &o, T const &v ) { o << v; };
	template<typename T>
	concept StringLike = requires( T const &v ) {
		v.data( );
		v.size( );
		typename T::value_type;
	} and ( std::is_same_v<typename T::value_type, char> or
	        std::is_same_v<typename T::value_type, char16_t> or
	        std::is_same_v<typename T::value_type, char32_t> or
	        std::is_same_v<typename T::value_type, wchar_t> );
	template<typename T>
	concept RangeLike = requires( T const &v ) {
		v.begin( );
		v.end( );
	};
	template<typename T>
	concept PairLike = requires( T const &v ) {
		v.first;
		v.second;
	};
	template<typename T>
	std::string show( T const &v ) {
		if constexpr( std::is_same_v<T, bool> ) {
			return v ? "true" : "false";
		} else if constexpr( std::is_enum_v<T> ) {
			return std::to_string( static_cast<long long>( v ) );
		} else if constexpr( std::is_same_v<T, __int128> or std::is_same_v<T, unsigned __int128> ) {
			char b[64];
			std::snprintf( b, sizeof b, "0x%llx%016llx", (unsigned long long)( (unsigned __int128)v >> 64 ), (unsigned long long)v );
			return b;
		} else if constexpr( std::is_integral_v<T> ) {
			if constexpr( sizeof( T ) == 1 ) {
				return std::to_string( static_cast<int>( v ) );
			} else if constexpr( std::is_signed_v<T> ) {
				return std::to_string( static_cast<long long>( v ) );
			} else {
				return std::to_string( static_cast<unsigned long long>( v ) );
			}
		} else if constexpr( std::is_floating_point_v<T> ) {
			char b[96];
			std::snprintf( b, sizeof b, "%.17g (%a)", static_cast<double>( v ), static_cast<double>( v ) );
			return b;
		} else if constexpr( std::is_pointer_v<T> ) {
			return v ? "ptr" : "null"; // addresses are not reproducible
		} else if constexpr( StringLike<T> ) {
			return show_str( v.data( ), v.data( ) + v.size( ) );
		} else if constexpr( PairLike<T> ) {
			return "(" + show( v.first ) + "," + show( v.second ) + ")";
		} else if constexpr( RangeLike<T> ) {
			std::string r = "[";
			std::size_t n = 0;
			for( auto const &e : v ) {
				if( n++ ) {
					r += ",";
				}
				if( n > 200 ) {
					r += "...";
					break;
				}
				r += show( e );
			}
			return r + "]";
		} else if constexpr( Streamable<T> ) {
			std::ostringstream o;
			o << v;
			return o.str( );
		} else {
			return "?";
		}
	}
	[[noreturn]] void fail( std::string msg );
	template<typename A, typename B>
	[[noreturn]] void fail_eq( char const *ea, char const *eb, A const &a, B const &b, char const *file, int line ) {
		std::string f = file;
		auto p = f.rfind( '/' );
		fail( ( p == f.npos ? f : f.substr( p + 1 ) ) + ":" + std::to_string( line ) + ": " + ea + " != " + eb + "; got " + show( a ) + ", expected " + show( b ) );
	}
	// a function, so that temporaries the two arguments refer to are still alive
	template<typename A, typename B>
	void check_eq( char const *ea, char const *eb, A const &a, B const &b, char const *file, int line ) {
		if( not( a == b ) ) {
			fail_eq( ea, eb, a, b, file, line );
		}
	}
	[[noreturn]] void fail_at( char const *expr, char const *file, int line );

	// counters for lifetime-tracked element types
	struct Injected {
		int where;
	};
	extern long g_live;        // live Tracked objects
	extern long g_throw_after; // <0: never; otherwise throws when it reaches 0
	void lifetime_error( char const *what );
	inline void maybe_throw( ) {
		if( g_throw_after >= 0 ) {
			if( g_throw_after-- == 0 ) {
				throw Injected{ 0 };
			}
		}
	}
	// Runs f in a forked child; true when it ends by abort/terminate (SIGABRT or
	// SIGTRAP).  The child's output is discarded.
	bool dies( void ( *f )( void * ), void *arg );
	template<typename F>
	bool aborts( F f ) {
		return dies( []( void *p ) { ( *static_cast<F *>( p ) )( ); }, &f );
	}
	// Number of heap blocks currently allocated by this process.
	long live_blocks( );

	// Value with observable lifetime.  Moved-from objects hold -1.
	template<bool NothrowMove, bool Inject = true>
	struct TrackedT {
		static constexpr std::uint32_t Alive = 0xA11FE001u, Dead = 0xDEADBEEFu;
		int v = 0;
		std::uint32_t volatile magic = Alive;
		void const *self = this; // detects bitwise relocation
		void chk( char const *w ) const {
			if( magic != Alive ) {
				lifetime_error( w );
			}
			if( self != this ) {
				lifetime_error( "object was relocated without its constructor" );
			}
		}
		TrackedT( ) {
			if constexpr( Inject ) {
				maybe_throw( );
			}
			++g_live;
		}
		TrackedT( int x ) : v( x ) {
			if constexpr( Inject ) {
				maybe_throw( );
			}
			++g_live;
		}
		TrackedT( TrackedT const &o ) : v( o.v ) {
			o.chk( "copy from dead object" );
			if constexpr( Inject ) {
				maybe_throw( );
			}
			++g_live;
		}
		TrackedT( TrackedT &&o ) noexcept( NothrowMove ) : v( o.v ) {
			o.chk( "move from dead object" );
			if constexpr( Inject and not NothrowMove ) {
				maybe_throw( );
			}
			o.v = -1;
			++g_live;
		}
		TrackedT &operator=( TrackedT const &o ) {
			chk( "assign to dead object" );
			o.chk( "assign from dead object" );
			if constexpr( Inject ) {
				maybe_throw( );
			}
			v = o.v;
			return *this;
		}
		TrackedT &operator=( TrackedT &&o ) noexcept( NothrowMove ) {
			chk( "move-assign to dead object" );
			o.chk( "move-assign from dead object" );
			if constexpr( Inject and not NothrowMove ) {
				maybe_throw( );
			}
			if( this != &o ) {
				v = o.v;
				o.v = -1;
			}
			return *this;
		}
		~TrackedT( ) {
			chk( "destroying a dead object" );
			magic = Dead;
			self = nullptr;
			--g_live;
		}
		friend bool operator==( TrackedT const &a, TrackedT const &b ) {
			a.chk( "compare dead" );
			b.chk( "compare dead" );
			return a.v == b.v;
		}
		friend bool operator!=( TrackedT const &a, TrackedT const &b ) {
			return not( a == b );
		}
		friend bool operator<( TrackedT const &a, TrackedT const &b ) {
			a.chk( "compare dead" );
			b.chk( "compare dead" );
			return a.v < b.v;
		}
		friend std::ostream &operator<<( std::ostream &o, TrackedT const &t ) {
			return o << t.v;
		}
	};
	using Tracked = TrackedT<true>;
	using TrackedThrowMove = TrackedT<false>;
	using TrackedPlain = TrackedT<true, false>;

	// Buffer whose end is directly followed by an inaccessible (ASan-poisoned)
	// area, so that reading one element past it is a crash.
	template<typename T>
	struct Exact {
		T *p;
		std::size_t n;
		explicit Exact( std::size_t k ) : p( static_cast<T *>( ::operator new( k * sizeof( T ) + ( k == 0 ) ) ) ), n( k ) {}
		template<typename C>
		static Exact from( C const &c ) {
			Exact e( c.size( ) );
			std::size_t i = 0;
			for( auto const &x : c ) {
				e.p[i++] = x;
			}
			return e;
		}
		Exact( Exact &&o ) noexcept : p( std::exchange( o.p, nullptr ) ), n( o.n ) {}
		Exact( Exact const & ) = delete;
		~Exact( ) {
			::operator delete( p );
		}
		T *begin( ) {
			return p;
		}
		T *end( ) {
			return p + n;
		}
		T *data( ) {
			return p;
		}
		std::size_t size( ) const {
			return n;
		}
		T &operator[]( std::size_t i ) {
			return p[i];
		}
	};
} // namespace pbt

#define PBT_CAT2( a, b ) a##b
#define PBT_CAT( a, b ) PBT_CAT2( a, b )
// PROP(name, {.cases=...}) { body using `s` }
#define PROP( name, ... )                                                                              \
	static void PBT_CAT( prop_, name )( pbt::Src & );                                                    \
	static pbt::Reg PBT_CAT( reg_, name )( #name, PBT_CAT( prop_, name ), pbt::Opt __VA_ARGS__ );        \
	static void PBT_CAT( prop_, name )( [[maybe_unused]] pbt::Src & s )
// Body is a template instance: PROP_T(name, function, {opts})
#define PROP_T( name, fn, ... ) \
	static pbt::Reg PBT_CAT( reg_, name )( #name, fn, pbt::Opt __VA_ARGS__ )
#define KNOWN( key, what )                                              \
	static bool PBT_CAT( known_, key )( );                                \
	static pbt::RegKnown PBT_CAT( rk_, key )( #key, what, PBT_CAT( known_, key ) ); \
	static bool PBT_CAT( known_, key )( )

#define CHECK( ... )                                     \
	do {                                                   \
		if( not( __VA_ARGS__ ) ) {                           \
			pbt::fail_at( #__VA_ARGS__, __FILE__, __LINE__ );  \
		}                                                    \
	} while( false )
// a fact the compiler decides; that it does not hold is a failure of the run
// and not of the build
#define CHECK_STATIC( ... )                              \
	do {                                                   \
		constexpr bool pbt_static_ = ( __VA_ARGS__ );        \
		if( not pbt_static_ ) {                              \
			pbt::fail_at( #__VA_ARGS__, __FILE__, __LINE__ );  \
		}                                                    \
	} while( false )
#define CHECK_EQ( a, b ) pbt::check_eq( #a, #b, ( a ), ( b ), __FILE__, __LINE__ )
#define CHECK_THROWS( Ex, ... )                                          \
	do {                                                                   \
		bool pbt_thrown = false;                                             \
		try {                                                                \
			(void)( __VA_ARGS__ );                                             \
		} catch( Ex const & ) { pbt_thrown = true; }                         \
		if( not pbt_thrown ) {                                               \
			pbt::fail_at( "expected " #Ex ": " #__VA_ARGS__, __FILE__, __LINE__ ); \
		}                                                                    \
	} while( false )
