// C36: the timing and test helpers of daw_benchmark.h against a count of what
// ran and with which arguments.  Standard output and error are captured.
// nontrivial: something runs more than once, fails, or is compared across types.
// pbt-parts: 2
// pbt-scale: 2
#include "pbt.h"
#include <chrono>
#include <cmath>
#include <cstdint>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "daw/daw_benchmark.h"
using namespace pbt;

namespace {
	template<typename T>
	std::string st( T const &v ) {
		std::ostringstream ss;
		ss << v;
		return ss.str( );
	}

	struct Captured {
		std::ostringstream out, err;
		std::streambuf *o, *e;
		Captured( ) : o( std::cout.rdbuf( out.rdbuf( ) ) ), e( std::cerr.rdbuf( err.rdbuf( ) ) ) {}
		~Captured( ) {
			std::cout.rdbuf( o );
			std::cerr.rdbuf( e );
		}
	};

	struct Mine : std::runtime_error {
		int v;
		explicit Mine( int x ) : std::runtime_error( "mine" ), v( x ) {}
	};
	struct Other {
		int v;
	};

	// Every call adds what it was given; the calls listed in bad throw
	struct Runner {
		std::vector<std::string> *log;
		std::size_t bad;
		bool all_bad;
		int operator( )( std::string const &a, int b ) const {
			log->push_back( a + "/" + std::to_string( b ) );
			if( all_bad or log->size( ) == bad ) {
				throw Mine( int( log->size( ) ) );
			}
			return int( log->size( ) );
		}
	};
	struct VoidRunner : Runner {
		void operator( )( std::string const &a, int b ) const {
			(void)Runner::operator( )( a, b );
		}
	};
	// takes its arguments by value, so that moved from arguments would be seen
	struct ValueRunner : Runner {
		int operator( )( std::string a, int b ) const {
			std::string const x = std::move( a );
			return Runner::operator( )( x, b );
		}
	};

	template<typename F>
	std::string thrown( F &&f ) {
		try {
			f( );
		} catch( daw::expected_failure const & ) {
			return "expected_failure";
		} catch( Mine const &m ) {
			return "mine " + std::to_string( m.v );
		} catch( Other const &o ) {
			return "other " + std::to_string( o.v );
		} catch( std::exception const & ) {
			return "exception";
		}
		return "";
	}

	template<typename R>
	std::string shown( daw::expected_t<R> &r ) {
		if( r.has_exception( ) ) {
			return thrown( [&] { std::rethrow_exception( r.get_exception_ptr( ) ); } );
		}
		if( not r.has_value( ) ) {
			return "empty";
		}
		if constexpr( std::is_void_v<R> ) {
			return "value";
		} else {
			return "value " + std::to_string( r.get( ) );
		}
	}

	std::size_t lines( std::string const &t ) {
		return std::size_t( std::count( t.begin( ), t.end( ), '\n' ) );
	}

	struct Plan {
		std::vector<std::string> log;
		std::size_t bad = 0;
		bool all_bad = false;
		std::string a;
		int b = 0;
		std::string want( std::size_t runs, bool is_void ) const {
			// what the last of runs calls does
			if( all_bad or bad == runs ) {
				return "mine " + std::to_string( runs );
			}
			return is_void ? "value" : "value " + std::to_string( runs );
		}
		void check( std::size_t runs ) const {
			CHECK_EQ( log.size( ), runs );
			for( auto const &l : log ) {
				CHECK_EQ( l, a + "/" + std::to_string( b ) );
			}
		}
	};
	Plan gen_plan( Src &s, std::size_t runs ) {
		Plan p;
		p.a = s.chance( 1, 2 ) ? "a text that is longer than any small string buffer" : "s";
		p.b = s.range<int>( -3, 3 );
		if( s.chance( 1, 3 ) ) {
			p.all_bad = s.chance( 1, 3 );
			p.bad = p.all_bad ? 0 : 1 + s.below( runs );
		}
		return p;
	}

	template<std::size_t Runs>
	void bench_n( Src &s ) {
		auto p = gen_plan( s, Runs + 1 );
		s.note( [&] { return st( Runs ) + " runs, throws at " + ( p.all_bad ? std::string( "all" ) : st( p.bad ) ); } );
		s.nontrivial( );
		auto const title = std::string( "the title" );
		Captured c;
		switch( s.draw( 5 ) ) {
		case 0: {
			auto r = daw::bench_n_test<Runs>( title, Runner{ &p.log, p.bad, p.all_bad }, p.a, p.b );
			p.check( Runs + 1 );
			CHECK_EQ( shown( r ), p.want( Runs + 1, false ) );
			break;
		}
		case 1: {
			auto r = daw::bench_n_test<Runs, ','>( title, VoidRunner{ { &p.log, p.bad, p.all_bad } }, p.a, p.b );
			p.check( Runs + 1 );
			CHECK_EQ( shown( r ), p.want( Runs + 1, true ) );
			CHECK_EQ( lines( c.out.str( ) ), 1U );
			break;
		}
		case 2: {
			auto r = daw::bench_n_test<Runs>( title, ValueRunner{ { &p.log, p.bad, p.all_bad } }, std::string( p.a ), int( p.b ) );
			p.check( Runs + 1 );
			CHECK_EQ( shown( r ), p.want( Runs + 1, false ) );
			break;
		}
		case 3: {
			auto r = daw::bench_n_test_mbs<Runs>( title, 1000, Runner{ &p.log, p.bad, p.all_bad }, p.a, p.b );
			p.check( Runs + 1 );
			CHECK_EQ( shown( r ), p.want( Runs + 1, false ) );
			if( r.has_exception( ) ) {
				return;
			}
			break;
		}
		default: {
			auto r = daw::bench_n_test_mbs<Runs, ';'>( title, 1000, VoidRunner{ { &p.log, p.bad, p.all_bad } }, std::string( p.a ), p.b );
			p.check( Runs + 1 );
			CHECK_EQ( shown( r ), p.want( Runs + 1, true ) );
			if( r.has_exception( ) ) {
				return;
			}
			CHECK_EQ( lines( c.out.str( ) ), 1U );
			break;
		}
		}
		auto const text = c.out.str( );
		CHECK_EQ( text.substr( 0, title.size( ) ), title );
		CHECK( text.find( "runs:" ) != std::string::npos );
		CHECK( not text.empty( ) and text.back( ) == '\n' );
	}

	template<std::size_t Runs>
	void bench_validated( Src &s ) {
		auto p = gen_plan( s, Runs );
		std::vector<int> seen;
		std::size_t const refuse = s.chance( 1, 3 ) ? 1 + s.below( Runs ) : 0;
		s.note( [&] {
			return st( Runs ) + " runs, throws at " + ( p.all_bad ? std::string( "all" ) : st( p.bad ) ) + ", refused at " + st( refuse );
		} );
		s.nontrivial( );
		auto const validator = [&]( int v ) {
			seen.push_back( v );
			return seen.size( ) != refuse;
		};
		auto const first_bad = p.all_bad ? std::size_t( 1 ) : p.bad;
		std::string want;
		std::size_t runs = Runs, validated = Runs;
		if( first_bad != 0 and ( refuse == 0 or first_bad <= refuse ) ) {
			want = "mine " + st( first_bad );
			runs = first_bad;
			validated = first_bad - 1;
		} else if( refuse != 0 ) {
			want = "expected_failure";
			runs = validated = refuse;
		}
		Captured c;
		std::size_t size = Runs;
		auto const how = s.draw( 3 );
		auto const got = thrown( [&] {
			switch( how ) {
			case 0: {
				auto r = daw::bench_n_test_mbs2<Runs>( "title", 1000, validator, Runner{ &p.log, p.bad, p.all_bad }, p.a, p.b );
				size = r.size( );
				for( auto d : r ) {
					CHECK( d >= 0 and d < 60 );
				}
				break;
			}
			case 1: {
				auto r = daw::bench_n_test_json_val<Runs>( validator, Runner{ &p.log, p.bad, p.all_bad }, p.a, p.b );
				size = r.size( );
				break;
			}
			default: {
				auto r = daw::bench_n_test_json_val<Runs>( validator, ValueRunner{ { &p.log, p.bad, p.all_bad } }, std::string( p.a ),
				                                           int( p.b ) );
				size = r.size( );
				break;
			}
			}
		} );
		CHECK_EQ( got, want );
		CHECK_EQ( size, Runs );
		p.check( runs );
		CHECK_EQ( seen.size( ), validated );
		for( std::size_t i = 0; i < seen.size( ); ++i ) {
			CHECK_EQ( seen[i], int( i + 1 ) );
		}
		CHECK_EQ( c.err.str( ).empty( ), want != "expected_failure" );
	}

	template<std::size_t Runs>
	void bench_json( Src &s ) {
		auto p = gen_plan( s, Runs );
		s.nontrivial( );
		auto const first_bad = p.all_bad ? std::size_t( 1 ) : p.bad;
		Captured c;
		std::size_t size = Runs;
		auto const how = s.boolean( );
		auto const got = thrown( [&] {
			if( how ) {
				size = daw::bench_n_test_json<Runs>( ValueRunner{ { &p.log, p.bad, p.all_bad } }, std::string( p.a ), int( p.b ) ).size( );
			} else {
				size = daw::bench_n_test_json<Runs>( Runner{ &p.log, p.bad, p.all_bad }, p.a, p.b ).size( );
			}
		} );
		CHECK_EQ( got, first_bad ? "mine " + st( first_bad ) : std::string( ) );
		CHECK_EQ( size, Runs );
		p.check( first_bad ? first_bad : Runs );
	}

	// ---- one run ---------------------------------------------------------------------
	void once( Src &s ) {
		auto p = gen_plan( s, 1 );
		s.nontrivial( );
		Captured c;
		auto const title = std::string( "the title" );
		bool const throws = p.all_bad or p.bad == 1;
		switch( s.draw( 6 ) ) {
		case 0: {
			auto r = daw::bench_test( title, Runner{ &p.log, p.bad, p.all_bad }, p.a, p.b );
			CHECK_EQ( shown( r ), p.want( 1, false ) );
			break;
		}
		case 1: {
			auto r = daw::bench_test( title, VoidRunner{ { &p.log, p.bad, p.all_bad } }, std::string( p.a ), p.b );
			CHECK_EQ( shown( r ), p.want( 1, true ) );
			break;
		}
		case 2: {
			auto r = daw::bench_test2( title, Runner{ &p.log, p.bad, p.all_bad }, s.below( 4 ), p.a, p.b );
			CHECK_EQ( shown( r ), p.want( 1, false ) );
			break;
		}
		case 3: {
			auto r = daw::bench_test2( title, VoidRunner{ { &p.log, p.bad, p.all_bad } }, s.below( 4 ), p.a, p.b );
			CHECK_EQ( shown( r ), p.want( 1, true ) );
			break;
		}
		case 4: {
			auto got = thrown( [&] {
				auto const d = daw::benchmark( [&] { return Runner{ &p.log, p.bad, p.all_bad }( p.a, p.b ); } );
				CHECK( d >= 0 and d < 60 );
			} );
			CHECK_EQ( got, throws ? "mine 1" : "" );
			p.check( 1 );
			return;
		}
		default: {
			auto const items = 1 + s.below( 3 );
			auto got = thrown(
			  [&] { daw::show_benchmark( 1500, title, [&] { return Runner{ &p.log, p.bad, p.all_bad }( p.a, p.b ); }, 2, 1, items ); } );
			CHECK_EQ( got, throws ? "mine 1" : "" );
			p.check( 1 );
			if( not throws ) {
				auto const text = c.out.str( );
				CHECK_EQ( text.substr( 0, title.size( ) + 7 ), title + ": took " );
				CHECK_EQ( text.find( " per item to process " ) != std::string::npos, items > 1 );
				CHECK( text.find( " 1.50KB at " ) != std::string::npos );
				CHECK_EQ( text.substr( text.size( ) - 3 ), "/s\n" );
			}
			return;
		}
		}
		p.check( 1 );
		auto const text = c.out.str( );
		if( throws ) {
			CHECK_EQ( text, "" );
		} else {
			CHECK_EQ( text.substr( 0, title.size( ) + 6 ), title + " took " );
			CHECK_EQ( lines( text ), 1U );
		}
	}

	// the time that is reported is the time the call took
	void measures( Src &s ) {
		auto const ms = 1 + int( s.below( 6 ) );
		s.nontrivial( );
		Captured c;
		auto const nap = [&] {
			auto const until = std::chrono::steady_clock::now( ) + std::chrono::milliseconds( ms );
			while( std::chrono::steady_clock::now( ) < until ) {}
			return ms;
		};
		double took = 0;
		auto const start = std::chrono::steady_clock::now( );
		switch( s.draw( 3 ) ) {
		case 0:
			took = daw::benchmark( nap );
			break;
		case 3: {
			auto r = daw::bench_n_test_json_val<3>( []( int ) { return true; }, nap );
			took = std::chrono::duration<double>( *std::min_element( r.begin( ), r.end( ) ) ).count( ) + 0.0005;
			break;
		}
		case 1: {
			auto r = daw::bench_n_test_mbs2<3>( "t", 10, []( int ) { return true; }, nap );
			took = *std::min_element( r.begin( ), r.end( ) );
			break;
		}
		default: {
			auto r = daw::bench_n_test_json<3>( nap );
			// the time of doing nothing is taken off
			took = std::chrono::duration<double>( *std::min_element( r.begin( ), r.end( ) ) ).count( ) + 0.0005;
		}
		}
		auto const all = std::chrono::duration<double>( std::chrono::steady_clock::now( ) - start ).count( );
		CHECK( took >= ms / 1000.0 );
		CHECK( took <= all + 0.0005 );
	}

	// the times that are written: each no shorter than the calls took and no longer
	// than all of it
	double written( std::string const &text, std::string const &label ) {
		auto const at = text.find( "\t" + label );
		CHECK( at != std::string::npos );
		char *end = nullptr;
		double const v = std::strtod( text.c_str( ) + at + label.size( ) + 1, &end );
		std::string const unit( end, 2 );
		return unit == "fs" ? v * 1e-15 : unit == "ps" ? v * 1e-12 : unit == "ns" ? v * 1e-9 : unit == "us" ? v * 1e-6 : unit == "ms" ? v * 1e-3 : v;
	}
	template<std::size_t Runs>
	void summary( Src &s ) {
		auto const ms = 1 + int( s.below( 2 ) );
		auto const slow = s.below( Runs );
		s.nontrivial( );
		Captured c;
		std::size_t calls = 0;
		auto const nap = [&] {
			auto const until = std::chrono::steady_clock::now( ) + std::chrono::milliseconds( ms + ( calls == slow ? 3 : 0 ) );
			++calls;
			while( std::chrono::steady_clock::now( ) < until ) {}
			return ms;
		};
		bool const rates = s.boolean( );
		auto const start = std::chrono::steady_clock::now( );
		if( rates ) {
			(void)daw::bench_n_test_mbs<Runs>( "t", 1000, nap );
		} else {
			(void)daw::bench_n_test<Runs>( "t", nap );
		}
		double const all = std::chrono::duration<double>( std::chrono::steady_clock::now( ) - start ).count( );
		auto const text = c.out.str( );
		double const each = ms * 1e-3, tol = 2e-4, n = double( Runs );
		double const total = written( text, "total:" );
		double const min = written( text, "min:" );
		double const avg = written( text, "avg:" );
		double const max = written( text, "max:" );
		CHECK( total >= n * each + 3e-3 - n * tol and total <= all + tol );
		CHECK( max >= each + 3e-3 - tol and max <= all + tol );
		CHECK( min >= each - tol and min <= max and min <= all / n + tol );
		CHECK( avg >= each - tol );
		// the slowest of ten or more is left out of the average
		CHECK( avg <= all / ( Runs >= 10 ? n - 1 : n ) + tol );
		if( Runs < 10 ) {
			CHECK( avg >= each + 3e-3 / n - tol );
		}
		if( rates ) {
			auto const at = text.find( "runs/second:" );
			CHECK( at != std::string::npos );
			double const per = std::strtod( text.c_str( ) + at + 12, nullptr );
			CHECK( std::fabs( per * min - 1 ) < 0.02 );
		}
	}

	// ---- expecting ---------------------------------------------------------------------
	template<typename T, typename U>
	void compare( Src &s ) {
		auto const edge = [&]( auto z ) {
			using I = decltype( z );
			switch( s.draw( 3 ) ) {
			case 0:
				return std::numeric_limits<I>::max( );
			case 1:
				return std::numeric_limits<I>::min( );
			default:
				return I( s.range<int>( std::is_signed_v<I> ? -3 : 0, 3 ) );
			}
		};
		T const a = edge( T{ } );
		// as often as not the same bits
		U const b = s.boolean( ) ? static_cast<U>( a ) : edge( U{ } );
		s.note( [&] { return st( +a ) + " and " + st( +b ); } );
		if( ( a < 0 ) != ( b < 0 ) or sizeof( T ) != sizeof( U ) ) {
			s.nontrivial( );
		}
		Captured c;
		bool const same = static_cast<__int128>( a ) == static_cast<__int128>( b );
		CHECK_EQ( thrown( [&] { daw::expecting( a, b ); } ), same ? "" : "expected_failure" );
		CHECK_EQ( thrown( [&] { daw::expecting( T( a ), U( b ) ); } ), same ? "" : "expected_failure" );
		CHECK_EQ( c.err.str( ).empty( ), same );
	}
	void compare_any( Src &s ) {
		switch( s.draw( 5 ) ) {
		case 0:
			return compare<int, unsigned>( s );
		case 1:
			return compare<unsigned long long, int>( s );
		case 2:
			return compare<signed char, unsigned short>( s );
		case 3:
			return compare<long long, unsigned long long>( s );
		case 4:
			return compare<unsigned char, signed char>( s );
		default:
			return compare<int, long long>( s );
		}
	}

	void other( Src &s ) {
		s.nontrivial( );
		Captured c;
		std::string const x = s.boolean( ) ? "x" : "y", y = s.boolean( ) ? "x" : "y";
		CHECK_EQ( thrown( [&] { daw::expecting( x, y ); } ), x == y ? "" : "expected_failure" );
		auto const da = s.pick( { 0.0, -0.0, 1.5, std::numeric_limits<double>::quiet_NaN( ) } );
		auto const db = s.pick( { 0.0, -0.0, 1.5, std::numeric_limits<double>::quiet_NaN( ) } );
		CHECK_EQ( thrown( [&] { daw::expecting( da, db ); } ), da == db ? "" : "expected_failure" );
		bool const t = s.boolean( );
		CHECK_EQ( thrown( [&] { daw::expecting( t ); } ), t ? "" : "expected_failure" );
		struct Truth {
			bool v;
			explicit operator bool( ) const {
				return v;
			}
		};
		CHECK_EQ( thrown( [&] { daw::expecting( Truth{ t } ); } ), t ? "" : "expected_failure" );
		auto const before = c.err.str( ).size( );
		CHECK_EQ( thrown( [&] { daw::expecting_message( t, "the message" ); } ), t ? "" : "expected_failure" );
		CHECK_EQ( c.err.str( ).substr( before ), t ? "" : "the message\n" );
	}

	void exceptions( Src &s ) {
		s.nontrivial( );
		Captured c;
		auto const what = s.draw( 3 );
		auto const v = s.range<int>( 0, 3 );
		int calls = 0, preds = 0;
		s.note( [&] { return "throws " + st( what ) + " value " + st( v ); } );
		auto const f = [&] {
			++calls;
			switch( what ) {
			case 0:
				throw Mine( v );
			case 1:
				throw Other{ v };
			case 2:
				throw std::logic_error( "" );
			default:
				return 5;
			}
		};
		std::string const plain = what == 0   ? "mine " + st( v )
		                          : what == 1 ? "other " + st( v )
		                          : what == 2 ? "exception"
		                                      : "expected_failure";
		// any std::exception
		CHECK_EQ( thrown( [&] { daw::expecting_exception( f ); } ), what == 0 or what == 2 ? "" : plain );
		// one type
		CHECK_EQ( thrown( [&] { daw::expecting_exception<Mine>( f ); } ), what == 0 ? "" : plain );
		CHECK_EQ( thrown( [&] { daw::expecting_exception<Other>( f ); } ), what == 1 ? "" : plain );
		// with a predicate
		auto const odd = [&]( auto const &e ) {
			++preds;
			return e.v % 2 == 1;
		};
		CHECK_EQ( thrown( [&] { daw::expecting_exception<Mine>( f, odd ); } ),
		          what == 0 ? ( v % 2 == 1 ? "" : "expected_failure" ) : plain );
		CHECK_EQ( thrown( [&] { daw::expecting_exception<Other>( f, odd ); } ),
		          what == 1 ? ( v % 2 == 1 ? "" : "expected_failure" ) : plain );
		CHECK_EQ( calls, 5 );
		CHECK_EQ( preds, what <= 1 ? 1 : 0 );
	}

	// ---- text ------------------------------------------------------------------------------
	void units( Src &s ) {
		// a decimal magnitude and a mantissa: 10^-17 to 10^20
		auto const mag = s.range<int>( -17, 20 );
		auto const mant = s.range<int>( 1000, 9999 );
		double const v = double( mant ) / 1000.0 * std::pow( 10.0, mag );
		auto const prec = s.below( 5 );
		s.nontrivial( );
		s.note( [&] { return st( v ) + " precision " + st( prec ); } );
		auto const check = [&]( std::string const &text, std::vector<std::pair<char const *, double>> const &scale, double value ) {
			// number, unit
			std::size_t used = 0;
			double const num = std::stod( text, &used );
			auto const unit = text.substr( used );
			std::size_t want = 0;
			while( want + 1 < scale.size( ) and value / scale[want].second >= 1000.0 ) {
				++want;
			}
			std::size_t got = scale.size( );
			for( std::size_t i = 0; i < scale.size( ); ++i ) {
				if( unit == scale[i].first ) {
					got = i;
				}
			}
			CHECK( got < scale.size( ) );
			// at a boundary rounding may pick either unit
			double const at = value / scale[want].second;
			bool const edge = std::abs( at - 1000.0 ) < 1e-6 or std::abs( at - 1.0 ) < 1e-9;
			if( not edge ) {
				CHECK_EQ( unit, scale[want].first );
			}
			double const real = value / scale[got].second;
			double const half = 0.5 * std::pow( 10.0, -double( prec ) );
			CHECK( std::abs( num - real ) <= half * 1.0000001 + std::abs( real ) * 1e-12 );
			// as many digits as asked for
			auto const dot = text.find( '.' );
			CHECK_EQ( dot == std::string::npos ? 0U : used - dot - 1, prec );
		};
		check( daw::utility::format_seconds( v, prec ),
		       { { "fs", 1e-15 }, { "ps", 1e-12 }, { "ns", 1e-9 }, { "us", 1e-6 }, { "ms", 1e-3 }, { "s", 1.0 } }, v );
		std::vector<std::pair<char const *, double>> const bytes = { { "bytes", 1.0 }, { "KB", 1e3 }, { "MB", 1e6 },
		                                                             { "GB", 1e9 },    { "TB", 1e12 }, { "PB", 1e15 } };
		check( daw::utility::to_bytes_per_second( v, 1.0, prec ), bytes, v );
		auto const t = s.pick( { 0.001, 0.25, 2.0, 1000.0 } );
		check( daw::utility::to_bytes_per_second( v, t, prec ), bytes, v / t );
		auto const whole = s.range<std::uint64_t>( 0, 5'000'000'000'000ULL );
		check( daw::utility::to_bytes_per_second( whole, 2, prec ), bytes, double( whole ) / 2.0 );
		auto const secs = s.range<int>( 0, 5000 );
		check( daw::utility::format_seconds( secs, prec ),
		       { { "fs", 1e-15 }, { "ps", 1e-12 }, { "ns", 1e-9 }, { "us", 1e-6 }, { "ms", 1e-3 }, { "s", 1.0 } }, secs );
		CHECK_EQ( daw::utility::format_seconds( 0 ), "0fs" );
		CHECK_EQ( daw::utility::to_bytes_per_second( 0 ), "0.0bytes" );
	}
} // namespace

#if PBT_PART == 0
PROP_T( bench_n_1, bench_n<1>, { .cases = 1500 } );
PROP_T( bench_n_4, bench_n<4>, { .cases = 1500 } );
PROP_T( bench_n_12, bench_n<12>, { .cases = 1500 } );
PROP_T( bench_validated_1, bench_validated<1>, { .cases = 1500 } );
PROP_T( bench_validated_5, bench_validated<5>, { .cases = 3000 } );
PROP_T( bench_json_1, bench_json<1>, { .cases = 1000 } );
PROP_T( bench_json_6, bench_json<6>, { .cases = 2000 } );
#else
PROP_T( bench_once, once, { .cases = 20000 } );
PROP_T( bench_measures, measures, { .cases = 100 } );
PROP_T( bench_summary_1, summary<1>, { .cases = 40 } );
PROP_T( bench_summary_3, summary<3>, { .cases = 40 } );
PROP_T( bench_summary_10, summary<10>, { .cases = 20 } );
PROP_T( expecting_integers, compare_any, { .cases = 60000 } );
PROP_T( expecting_other, other, { .cases = 10000 } );
PROP_T( expecting_exceptions, exceptions, { .cases = 10000 } );
PROP_T( unit_text, units, { .cases = 60000 } );
#endif
