// C25: reading and memory mapping files against the bytes written to them with
// plain system calls: sizes around zero, page and buffer boundaries, any bytes;
// histories of opening, moving, writing through and closing mappings; faults
// (missing files, directories, no descriptors left, mmap refused).  After every
// case the open descriptors and mapped files of the process are as before.
// All files live in a scratch directory that is removed at exit.
// nontrivial: a non-empty file was read, or a fault was injected.
// pbt-scale: 2
#include "pbt.h"
#include "daw/daw_memory_mapped_file.h"
#include "daw/daw_read_file.h"
#include "daw/deprecated/daw_cfile.h"
#include <array>
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <memory>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
using namespace pbt;
namespace fs = std::filesystem;
using daw::filesystem::memory_mapped_file_t;
using daw::filesystem::open_mode;

namespace {
	struct Scratch {
		std::string dir{ };
		Scratch( ) {
			std::string t = ( fs::temp_directory_path( ) / "pbt-c25-XXXXXX" ).string( );
			if( ::mkdtemp( t.data( ) ) == nullptr ) {
				std::abort( );
			}
			dir = t;
		}
		~Scratch( ) {
			std::error_code ec{ };
			fs::remove_all( dir, ec );
		}
		std::string path( std::string const &name ) const {
			return dir + "/" + name;
		}
	};
	Scratch const &scratch( ) {
		static Scratch s{ };
		return s;
	}

	void put( std::string const &path, std::string const &bytes ) {
		int const fd = ::open( path.c_str( ), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
		CHECK( fd >= 0 );
		std::size_t done = 0;
		while( done < bytes.size( ) ) {
			auto const k = ::write( fd, bytes.data( ) + done, bytes.size( ) - done );
			CHECK( k > 0 );
			done += static_cast<std::size_t>( k );
		}
		::close( fd );
	}
	std::string get( std::string const &path ) {
		int const fd = ::open( path.c_str( ), O_RDONLY );
		CHECK( fd >= 0 );
		std::string r{ };
		std::array<char, 8192> buff{ };
		for( ;; ) {
			auto const k = ::read( fd, buff.data( ), buff.size( ) );
			CHECK( k >= 0 );
			if( k == 0 ) {
				break;
			}
			r.append( buff.data( ), static_cast<std::size_t>( k ) );
		}
		::close( fd );
		return r;
	}

	int open_descriptors( ) {
		int n = 0;
		DIR *d = ::opendir( "/proc/self/fd" );
		CHECK( d != nullptr );
		while( ::readdir( d ) != nullptr ) {
			++n;
		}
		::closedir( d );
		return n;
	}
	int mapped_files( ) {
		auto const m = get( "/proc/self/maps" );
		int n = 0;
		for( auto p = m.find( scratch( ).dir ); p != std::string::npos; p = m.find( scratch( ).dir, p + 1 ) ) {
			++n;
		}
		return n;
	}
	// nothing of the case outlives it
	struct Balance {
		int fds = open_descriptors( );
		void done( ) const {
			CHECK_EQ( open_descriptors( ), fds );
			CHECK_EQ( mapped_files( ), 0 );
		}
	};

	std::string contents( Src &s, std::size_t unit = 1 ) {
		std::size_t n = 0;
		switch( s.weighted( { 3, 3, 3, 1 } ) ) {
		case 0:
			n = s.range<std::size_t>( 0, 40 );
			break;
		case 1: {
			auto const base = s.pick<std::size_t>( { 4096, 8192, 1024, 12288, 65536 } );
			n = base - 2 + s.range<std::size_t>( 0, 4 );
			break;
		}
		case 2:
			n = s.range<std::size_t>( 0, 9000 );
			break;
		default:
			n = s.range<std::size_t>( 0, 300000 );
			break;
		}
		n = n / unit * unit;
		std::string r( n, '\0' );
		auto const kind = s.below( 4 );
		std::uint64_t x = s.integer<std::uint64_t>( ) | 1U;
		for( auto &c : r ) {
			x ^= x << 13;
			x ^= x >> 7;
			x ^= x << 17;
			switch( kind ) {
			case 0:
				c = static_cast<char>( x >> 32 );
				break;
			case 1: {
				char const odd[] = { '\r', '\n', '\x1a', '\0', '\xff', 'a', '\t' };
				c = odd[( x >> 32 ) % sizeof( odd )];
				break;
			}
			case 2:
				c = static_cast<char>( 'a' + ( x >> 32 ) % 26 );
				break;
			default:
				break; // all zero
			}
		}
		if( n > 0 ) {
			s.nontrivial( );
		}
		s.note( [&] { return std::to_string( n ) + " bytes, kind " + std::to_string( kind ); } );
		return r;
	}

	std::string file_name( Src &s ) {
		return scratch( ).path( s.pick<std::string>( { "f", "a name with spaces", "\xc3\xa9t\xc3\xa9", "x.txt" } ) );
	}

	PROP( read_bytes, { .cases = 3000 } ) {
		Balance b{ };
		auto const path = file_name( s );
		auto const want = contents( s );
		put( path, want );
		for( int i = 0; i < 2; ++i ) {
			auto const got = daw::read_file( path );
			CHECK( got.has_value( ) );
			CHECK( *got == want );
		}
		CHECK( daw::read_file( path, daw::terminate_on_read_file_error ) == want );
		auto const sgot = daw::read_file<char>( path );
		CHECK( sgot.has_value( ) and *sgot == want );
		// a longer or shorter file under the same name
		auto const other = contents( s );
		put( path, other );
		CHECK( daw::read_file( path ) == other );
		CHECK( get( path ) == other );
		::unlink( path.c_str( ) );
		CHECK( not daw::read_file( path ).has_value( ) );
		b.done( );
	}

	template<typename C>
	void wide( Src &s ) {
		Balance b{ };
		auto const path = file_name( s );
		auto const bytes = contents( s, sizeof( C ) );
		put( path, bytes );
		auto const got = daw::read_file<C>( path );
		CHECK( got.has_value( ) );
		CHECK_EQ( got->size( ), bytes.size( ) / sizeof( C ) );
		CHECK( bytes.empty( ) or std::memcmp( got->data( ), bytes.data( ), bytes.size( ) ) == 0 );
		::unlink( path.c_str( ) );
		b.done( );
	}
	PROP_T( read_wchar, ( wide<wchar_t> ), { .cases = 400 } );
	PROP_T( read_char16, ( wide<char16_t> ), { .cases = 400 } );
	PROP_T( read_char8, ( wide<char8_t> ), { .cases = 200 } );

	// ---- mappings ---------------------------------------------------------------------
	template<typename T>
	void same_mapping( memory_mapped_file_t<T> &m, std::string const &bytes ) {
		auto const &cm = m;
		auto const n = bytes.size( ) / sizeof( T );
		CHECK( static_cast<bool>( cm ) );
		CHECK_EQ( cm.size( ), n );
		CHECK_EQ( cm.empty( ), n == 0 );
		CHECK( m.data( ) != nullptr );
		CHECK( m.data( ) == cm.data( ) );
		CHECK( m.begin( ) == m.data( ) and cm.begin( ) == m.data( ) and cm.cbegin( ) == m.data( ) );
		CHECK( static_cast<std::size_t>( m.end( ) - m.begin( ) ) == n );
		CHECK( cm.end( ) == m.end( ) and cm.cend( ) == m.end( ) );
		CHECK( std::memcmp( cm.data( ), bytes.data( ), n * sizeof( T ) ) == 0 );
		for( std::size_t i : { std::size_t{ 0 }, n / 2, n - 1 } ) {
			CHECK( &m[i] == m.data( ) + i and &cm[i] == m.data( ) + i );
		}
		if constexpr( std::is_same_v<T, char> ) {
			std::string_view const sv = cm;
			CHECK( sv == bytes );
			std::string_view const sv2 = m;
			CHECK( sv2.data( ) == m.data( ) );
		}
	}
	template<typename T>
	void closed( memory_mapped_file_t<T> &m ) {
		auto const &cm = m;
		CHECK( not cm );
		CHECK( cm.empty( ) );
		CHECK_EQ( cm.size( ), 0U );
		CHECK( m.begin( ) == m.end( ) and cm.begin( ) == cm.end( ) and cm.cbegin( ) == cm.cend( ) );
	}

	template<typename T>
	void mapping( Src &s ) {
		Balance b{ };
		{
			using M = memory_mapped_file_t<T>;
			constexpr bool writable = not std::is_const_v<T>;
			struct File {
				std::string path, bytes;
			};
			std::array<File, 2> file{ File{ scratch( ).path( "m0" ), contents( s, sizeof( T ) ) },
			                          File{ scratch( ).path( "m1" ), contents( s, sizeof( T ) ) } };
			for( auto const &f : file ) {
				put( f.path, f.bytes );
			}
			struct Slot {
				std::unique_ptr<M> m{ };
				int file = -1;
				bool rw = false;
			};
			std::array<Slot, 2> slot{ };
			for( auto &x : slot ) {
				x.m = std::make_unique<M>( );
			}
			auto verify = [&] {
				for( auto &x : slot ) {
					if( x.file < 0 ) {
						closed( *x.m );
					} else {
						same_mapping( *x.m, file[static_cast<std::size_t>( x.file )].bytes );
					}
				}
				for( auto const &f : file ) {
					CHECK( get( f.path ) == f.bytes );
				}
				int want = 0;
				for( auto &x : slot ) {
					want += x.file >= 0;
				}
				CHECK_EQ( open_descriptors( ), b.fds + want );
				CHECK_EQ( mapped_files( ) <= want, true );
			};
			auto const steps = s.range<int>( 1, 8 );
			for( int i = 0; i < steps; ++i ) {
				auto &x = slot[s.below( 2 )];
				auto &y = slot[&x == &slot[0] ? 1 : 0];
				switch( s.weighted( { 4, 2, 1, 1, 3, 1, 2 } ) ) {
				case 0:
				case 1: {
					auto const k = s.range<int>( 0, 1 );
					auto const &f = file[static_cast<std::size_t>( k )];
					bool const rw = writable and s.boolean( );
					if( s.boolean( ) ) {
						bool const r = x.m->open( f.path, rw ? open_mode::read_write : open_mode::read );
						CHECK_EQ( r, not f.bytes.empty( ) );
					} else {
						x.m = std::make_unique<M>( f.path, rw ? open_mode::read_write : open_mode::read );
					}
					x.file = f.bytes.empty( ) ? -1 : k;
					x.rw = rw;
					break;
				}
				case 2:
					// move construct
					x.m = std::make_unique<M>( std::move( *x.m ) );
					break;
				case 3: {
					*x.m = std::move( *y.m );
					x.file = y.file;
					x.rw = y.rw;
					y.file = -1;
					break;
				}
				case 4:
					if constexpr( writable ) {
						if( x.file >= 0 and x.rw ) {
							auto &bytes = file[static_cast<std::size_t>( x.file )].bytes;
							auto const n = bytes.size( ) / sizeof( T );
							for( int w = 0; w < 3; ++w ) {
								auto const at = s.chance( 3 ) ? n - 1 : s.range<std::size_t>( 0, n - 1 );
								T v{ };
								auto const byte = static_cast<char>( s.range<int>( 1, 127 ) );
								std::memset( &v, byte, sizeof( T ) );
								( *x.m )[at] = v;
								std::memset( bytes.data( ) + at * sizeof( T ), byte, sizeof( T ) );
							}
							s.label( "written" );
						}
					}
					break;
				case 5:
					x.m = std::make_unique<M>( );
					x.file = -1;
					break;
				default: {
					// an open that fails closes what was open
					auto const bad = s.pick<std::string>( { scratch( ).path( "absent" ), scratch( ).path( "m0/x" ),
					                                        scratch( ).dir, std::string( ) } );
					CHECK( not x.m->open( bad, writable and s.boolean( ) ? open_mode::read_write : open_mode::read ) );
					x.file = -1;
					break;
				}
				}
				verify( );
			}
			slot = { };
			for( auto const &f : file ) {
				CHECK( get( f.path ) == f.bytes );
				::unlink( f.path.c_str( ) );
			}
		}
		b.done( );
	}
	PROP_T( mapping_char, ( mapping<char> ), { .cases = 1500 } );
	PROP_T( mapping_u8, ( mapping<std::uint8_t> ), { .cases = 600 } );
	PROP_T( mapping_byte, ( mapping<std::byte> ), { .cases = 400 } );
	PROP_T( mapping_const_char, ( mapping<char const> ), { .cases = 600 } );
	PROP_T( mapping_u32, ( mapping<std::uint32_t> ), { .cases = 600 } );

	// ---- faults ---------------------------------------------------------------------------
	struct Limit {
		int what;
		struct rlimit old { };
		Limit( int w, rlim_t soft )
		  : what( w ) {
			CHECK( ::getrlimit( static_cast<__rlimit_resource>( what ), &old ) == 0 );
			struct rlimit n = old;
			n.rlim_cur = soft;
			CHECK( ::setrlimit( static_cast<__rlimit_resource>( what ), &n ) == 0 );
		}
		~Limit( ) {
			::setrlimit( static_cast<__rlimit_resource>( what ), &old );
		}
		Limit( Limit const & ) = delete;
		Limit &operator=( Limit const & ) = delete;
	};

	PROP( faults, { .cases = 1500 } ) {
		Balance b{ };
		auto const path = file_name( s );
		auto const bytes = contents( s );
		put( path, bytes );
		switch( s.below( 4 ) ) {
		case 0: {
			// things that are not there or not files
			auto const link = scratch( ).path( "dangling" );
			CHECK( ::symlink( scratch( ).path( "nowhere" ).c_str( ), link.c_str( ) ) == 0 );
			for( auto const &bad : { scratch( ).path( "absent" ), scratch( ).dir, path + "/x", link, std::string( ),
			                         scratch( ).path( std::string( 5000, 'n' ) ) } ) {
				CHECK( not daw::read_file( bad ).has_value( ) );
				memory_mapped_file_t<char> m{ };
				CHECK( not m.open( bad ) );
				closed( m );
				memory_mapped_file_t<char> m2( bad, open_mode::read_write );
				closed( m2 );
			}
			::unlink( link.c_str( ) );
			// a good link
			CHECK( ::symlink( path.c_str( ), link.c_str( ) ) == 0 );
			CHECK( daw::read_file( link ) == bytes );
			::unlink( link.c_str( ) );
			s.nontrivial( );
			break;
		}
		case 1: {
			// no descriptors left
			memory_mapped_file_t<char> m{ };
			if( not bytes.empty( ) ) {
				CHECK( m.open( path ) );
			}
			std::optional<std::string> r{ };
			bool opened = true;
			{
				Limit l( RLIMIT_NOFILE, 0 );
				r = daw::read_file( path );
				opened = m.open( path );
			}
			if( bytes.empty( ) ) {
				CHECK( not r.has_value( ) or r->empty( ) );
			} else {
				CHECK( not r.has_value( ) );
			}
			CHECK( not opened );
			closed( m );
			CHECK( daw::read_file( path ) == bytes );
			CHECK_EQ( m.open( path ), not bytes.empty( ) );
			s.nontrivial( );
			break;
		}
		case 2: {
			// the mapping is refused after the file was opened
			if( bytes.empty( ) ) {
				break;
			}
			memory_mapped_file_t<char> m{ };
			if( s.boolean( ) ) {
				CHECK( m.open( path ) );
			}
			bool opened = true;
			auto const mode = s.boolean( ) ? open_mode::read : open_mode::read_write;
			{
				Limit l( RLIMIT_AS, 4096 );
				opened = m.open( path, mode );
			}
			CHECK( not opened );
			closed( m );
			CHECK_EQ( open_descriptors( ), b.fds );
			CHECK( m.open( path, mode ) );
			same_mapping( m, bytes );
			s.nontrivial( );
			break;
		}
		default: {
			// read only descriptors stay read only: the file is unchanged after a
			// read mapping is dropped
			{
				memory_mapped_file_t<char> m( path );
				CHECK_EQ( static_cast<bool>( m ), not bytes.empty( ) );
			}
			CHECK( get( path ) == bytes );
			break;
		}
		}
		::unlink( path.c_str( ) );
		b.done( );
	}

	PROP( missing_terminates, { .cases = 4 } ) {
		auto const path = scratch( ).path( "missing" + std::to_string( s.below( 100 ) ) );
		CHECK( aborts( [&] { (void)daw::read_file( path, daw::terminate_on_read_file_error ); } ) );
		s.nontrivial( );
	}

	// ---- CFile ------------------------------------------------------------------------------
	PROP( cfile, { .cases = 2000 } ) {
		Balance b{ };
		{
			auto const path = scratch( ).path( "c" );
			put( path, "hello" );
			auto open = [&] {
				auto *f = ::fopen( path.c_str( ), "rb" );
				CHECK( f != nullptr );
				return f;
			};
			std::array<daw::CFile, 2> c{ };
			std::array<FILE *, 2> want{ };
			auto const steps = s.range<int>( 1, 12 );
			for( int i = 0; i < steps; ++i ) {
				auto const k = s.below( 2 );
				switch( s.below( 7 ) ) {
				case 0:
					want[k] = open( );
					c[k].reset( want[k] );
					break;
				case 1:
					want[k] = open( );
					c[k] = daw::CFile( want[k] );
					break;
				case 2:
					c[k] = std::move( c[1 - k] );
					want[k] = std::exchange( want[1 - k], nullptr );
					s.nontrivial( );
					break;
				case 3: {
					auto d = std::move( c[k] );
					CHECK( d.get( ) == want[k] );
					CHECK( c[k].get( ) == nullptr );
					want[k] = nullptr;
					break;
				}
				case 4:
					c[k].close( );
					want[k] = nullptr;
					break;
				case 5:
					c[k].reset( );
					want[k] = nullptr;
					break;
				default: {
					auto *f = c[k].release( );
					CHECK( f == want[k] );
					if( f != nullptr ) {
						std::fclose( f );
					}
					want[k] = nullptr;
					break;
				}
				}
				CHECK( c[0].get( ) == want[0] and c[1].get( ) == want[1] );
				CHECK_EQ( open_descriptors( ), b.fds + ( want[0] != nullptr ) + ( want[1] != nullptr ) );
				for( auto *f : want ) {
					if( f != nullptr ) {
						std::rewind( f );
						CHECK_EQ( std::fgetc( f ), 'h' );
					}
				}
			}
		}
		b.done( );
	}
} // namespace
