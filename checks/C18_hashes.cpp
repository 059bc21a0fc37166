// C18: FNV-1a, SipHash-2-4 and MetroHash64 against independent implementations of the published algorithms.
// nontrivial: the input has at least two bytes and one of them is above 0x7f, or it spans more than one block.
// pbt-scale: 40
#include "pbt.h"
#include "daw/daw_fnv1a_hash.h"
#include "daw/daw_generic_hash.h"
#include "daw/daw_metro_hash.h"
#include "daw/daw_not_null.h"
#include "daw/daw_sip_hash.h"
#include "daw/daw_string_view.h"
#include "daw/daw_value_ptr.h"
#include <cstring>
#include <list>
using namespace pbt;
using u8 = unsigned char;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

namespace {
	// ---- reference algorithms
	u64 fnv64( u8 const *p, std::size_t n ) {
		u64 h = 0xcbf29ce484222325ull;
		for( std::size_t i = 0; i < n; ++i ) {
			h = ( h ^ p[i] ) * 0x100000001b3ull;
		}
		return h;
	}
	u32 fnv32( u8 const *p, std::size_t n ) {
		u32 h = 0x811c9dc5u;
		for( std::size_t i = 0; i < n; ++i ) {
			h = ( h ^ p[i] ) * 0x01000193u;
		}
		return h;
	}
	u64 load( u8 const *p, std::size_t n ) {
		u64 r = 0;
		for( std::size_t i = n; i > 0; --i ) {
			r = r * 256 + p[i - 1];
		}
		return r;
	}
	u64 rl( u64 v, unsigned n ) {
		return ( v << n ) | ( v >> ( 64 - n ) );
	}
	u64 rr( u64 v, unsigned n ) {
		return ( v >> n ) | ( v << ( 64 - n ) );
	}
	u64 sip( u8 const *p, std::size_t n, u8 const *key ) {
		u64 k0 = load( key, 8 ), k1 = load( key + 8, 8 );
		u64 v0 = 0x736f6d6570736575ull ^ k0, v1 = 0x646f72616e646f6dull ^ k1, v2 = 0x6c7967656e657261ull ^ k0, v3 = 0x7465646279746573ull ^ k1;
		auto round = [&] {
			v0 += v1;
			v1 = rl( v1, 13 );
			v1 ^= v0;
			v0 = rl( v0, 32 );
			v2 += v3;
			v3 = rl( v3, 16 );
			v3 ^= v2;
			v0 += v3;
			v3 = rl( v3, 21 );
			v3 ^= v0;
			v2 += v1;
			v1 = rl( v1, 17 );
			v1 ^= v2;
			v2 = rl( v2, 32 );
		};
		std::size_t i = 0;
		for( ; i + 8 <= n; i += 8 ) {
			u64 m = load( p + i, 8 );
			v3 ^= m;
			round( );
			round( );
			v0 ^= m;
		}
		u64 m = load( p + i, n - i ) | ( u64( n ) << 56 );
		v3 ^= m;
		round( );
		round( );
		v0 ^= m;
		v2 ^= 0xff;
		for( int k = 0; k < 4; ++k ) {
			round( );
		}
		return v0 ^ v1 ^ v2 ^ v3;
	}
	u64 metro( u8 const *p, std::size_t n, u64 seed ) {
		u64 const k0 = 0xD6D018F5, k1 = 0xA2AA033B, k2 = 0x62992FC1, k3 = 0x30BC5B29;
		u8 const *const e = p + n;
		u64 h = ( seed + k2 ) * k0;
		if( n >= 32 ) {
			u64 a = h, b = h, c = h, d = h;
			do {
				a += load( p, 8 ) * k0;
				a = rr( a, 29 ) + c;
				b += load( p + 8, 8 ) * k1;
				b = rr( b, 29 ) + d;
				c += load( p + 16, 8 ) * k2;
				c = rr( c, 29 ) + a;
				d += load( p + 24, 8 ) * k3;
				d = rr( d, 29 ) + b;
				p += 32;
			} while( e - p >= 32 );
			c ^= rr( ( a + d ) * k0 + b, 37 ) * k1;
			d ^= rr( ( b + c ) * k1 + a, 37 ) * k0;
			a ^= rr( ( a + c ) * k0 + d, 37 ) * k1;
			b ^= rr( ( b + d ) * k1 + c, 37 ) * k0;
			h += a ^ b;
		}
		if( e - p >= 16 ) {
			u64 a = rr( h + load( p, 8 ) * k2, 29 ) * k3, b = rr( h + load( p + 8, 8 ) * k2, 29 ) * k3;
			a ^= rr( a * k0, 21 ) + b;
			b ^= rr( b * k3, 21 ) + a;
			h += b;
			p += 16;
		}
		unsigned const sz[4] = { 8, 4, 2, 1 }, rot[4] = { 55, 26, 48, 37 };
		for( int k = 0; k < 4; ++k ) {
			if( e - p >= sz[k] ) {
				h += load( p, sz[k] ) * k3;
				h ^= rr( h, rot[k] ) * k1;
				p += sz[k];
			}
		}
		h ^= rr( h, 28 );
		h *= k0;
		return h ^ rr( h, 29 );
	}

	struct Input {
		std::vector<u8> bytes;
		std::size_t pad;
	};
	Input gen( Src &s, std::size_t max = 150 ) {
		Input r;
		std::size_t n = s.chance( 1, 5 ) ? s.pick<std::size_t>( { 0, 1, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65 } ) : s.longlen( max, 70000, 2000 );
		r.bytes.resize( n );
		unsigned kind = unsigned( s.draw( 3 ) ), base = unsigned( s.draw( 255 ) );
		for( std::size_t i = 0; i < n; ++i ) {
			r.bytes[i] = kind == 0 ? u8( s.draw( 255 ) ) : kind == 1 ? u8( base + i ) : kind == 2 ? u8( 0xff ) : u8( s.pick<unsigned>( { 0, 1, 0x7f, 0x80, 0xff } ) );
		}
		r.pad = s.draw( 15 );
		bool high = false;
		for( auto b : r.bytes ) {
			high = high or b > 0x7f;
		}
		if( ( n > 1 and high ) or n > 8 ) {
			s.nontrivial( );
		}
		s.note( [&] {
			std::string t;
			for( auto b : r.bytes ) {
				t += "0123456789abcdef"[b / 16];
				t += "0123456789abcdef"[b % 16];
			}
			return t + " offset " + std::to_string( r.pad );
		} );
		return r;
	}
	// the same bytes: exactly sized, and inside a larger buffer at some alignment with other surroundings
	template<typename F>
	void places( Src &s, Input const &in, F f ) {
		auto ex = Exact<char>::from( in.bytes );
		f( ex.data( ) );
		std::vector<char> big( in.bytes.size( ) + 40, char( s.draw( 255 ) ) );
		alignas( 16 ) static char dummy[16];
		(void)dummy;
		if( not in.bytes.empty( ) ) {
			std::memcpy( big.data( ) + in.pad, in.bytes.data( ), in.bytes.size( ) );
		}
		f( big.data( ) + in.pad );
	}
} // namespace

PROP( fnv1a_bytes, { } ) {
	auto in = gen( s );
	auto n = in.bytes.size( );
	u64 want = fnv64( in.bytes.data( ), n );
	CHECK_STATIC( std::is_same_v<daw::fnv1a_uint_t, u64> );
	daw::fnv1a_hash_t const h{ };
	places( s, in, [&]( char const *p ) {
		CHECK_EQ( daw::fnv1a_hash( p, n ), want );
		CHECK_EQ( daw::fnv1a_hash( reinterpret_cast<u8 const *>( p ), n ), want );
		CHECK_EQ( daw::fnv1a_hash( reinterpret_cast<signed char const *>( p ), n ), want );
		CHECK_EQ( h( p, p + n ), want );
		CHECK_EQ( daw::fnv1a_hash( daw::string_view( p, n ) ), want );
		CHECK_EQ( h( daw::string_view( p, n ) ), want );
		CHECK_EQ( std::hash<daw::string_view>{ }( daw::string_view( p, n ) ), want );
	} );
	std::string str( in.bytes.begin( ), in.bytes.end( ) );
	CHECK_EQ( daw::fnv1a_hash( str ), want );
	CHECK_EQ( h( str ), want );
	CHECK_EQ( daw::fnv1a_hash( std::string_view( str ) ), want );
	std::list<u8> l( in.bytes.begin( ), in.bytes.end( ) );
	CHECK_EQ( h( l.begin( ), l.end( ) ), want );
	std::vector<u8> v = in.bytes;
	CHECK_EQ( h( v ), want );
	// zero terminated
	std::size_t z = 0;
	while( z < n and in.bytes[z] != 0 ) {
		++z;
	}
	Exact<char> cs( z + 1 );
	for( std::size_t i = 0; i < z; ++i ) {
		cs.data( )[i] = char( in.bytes[i] );
	}
	cs.data( )[z] = 0;
	u64 zw = fnv64( in.bytes.data( ), z );
	CHECK_EQ( daw::fnv1a_hash( static_cast<char const *>( cs.data( ) ) ), zw );
	CHECK_EQ( h( static_cast<char const *>( cs.data( ) ) ), zw );
	// incremental: hashing in two parts
	std::size_t cut = n == 0 ? 0 : s.draw( n );
	u64 part = daw::fnv1a_hash( in.bytes.data( ), cut );
	for( std::size_t i = cut; i < n; ++i ) {
		part = daw::fnv1a_hash_t::append_hash( part, in.bytes[i] );
	}
	CHECK_EQ( part, want );
}

namespace {
	template<typename T>
	u64 fnv_ref( T const &v ) {
		u8 b[sizeof( T )];
		std::memcpy( b, &v, sizeof b );
		return fnv64( b, sizeof b );
	}
	template<typename T>
	u32 ref32( T const &v ) {
		u8 b[sizeof( T )];
		std::memcpy( b, &v, sizeof b );
		return fnv32( b, sizeof b );
	}
	template<typename T>
	void integers( Src &s ) {
		T v = s.integer<T>( );
		if( v != 0 ) {
			s.nontrivial( );
		}
		daw::fnv1a_hash_t const h{ };
		CHECK_EQ( daw::fnv1a_hash( v ), fnv_ref( v ) );
		CHECK_EQ( h( v ), fnv_ref( v ) );
		CHECK_EQ( daw::generic_hash<8>( v ), fnv_ref( v ) );
		CHECK_EQ( daw::generic_hash( v ), fnv_ref( v ) );
		CHECK_EQ( daw::generic_hash<4>( v ), ref32( v ) );
		CHECK_EQ( daw::generic_hash_t<8>{ }( &v ), fnv_ref( v ) );
		if constexpr( not std::is_same_v<T, char> ) {
			CHECK_EQ( h( &v ), fnv_ref( v ) );
		}
		std::array<T, 3> a = { v, s.integer<T>( ), s.integer<T>( ) };
		CHECK_EQ( h( a.begin( ), a.end( ) ), fnv_ref( a ) );
		CHECK_EQ( h( a ), fnv_ref( a ) );
		T c[3] = { a[0], a[1], a[2] };
		if constexpr( not std::is_same_v<T, char> ) {
			CHECK_EQ( h( c ), fnv_ref( a ) );
		}
		CHECK_EQ( daw::generic_hash( a.begin( ), a.end( ) ), fnv_ref( a ) );
		CHECK_EQ( daw::generic_hash( a.data( ), std::size_t( 3 ) ), fnv_ref( a ) );
		CHECK_EQ( daw::generic_hash<4>( a.begin( ), a.end( ) ), ref32( a ) );
		CHECK_EQ( daw::generic_hash<4>( a.begin( ), std::size_t( 3 ) ), ref32( a ) );
		CHECK_EQ( daw::generic_hash_t<8>{ }( c ), fnv_ref( a ) );
		CHECK_EQ( daw::generic_hash_t<4>{ }( c ), ref32( a ) );
		CHECK_EQ( daw::generic_hash_t<8>{ }( a.begin( ), a.end( ) ), fnv_ref( a ) );
		CHECK_EQ( daw::generic_hash_t<4>{ }( a.begin( ), a.end( ) ), ref32( a ) );
		std::list<T> l( a.begin( ), a.end( ) );
		CHECK_EQ( daw::generic_hash( l.begin( ), std::size_t( 3 ) ), fnv_ref( a ) );
	}
	struct Pod {
		u32 a;
		u32 b;
	};
} // namespace
PROP( integer_hashes, { } ) {
	switch( s.draw( 9 ) ) {
	case 0:
		return integers<char>( s );
	case 1:
		return integers<signed char>( s );
	case 2:
		return integers<unsigned char>( s );
	case 3:
		return integers<short>( s );
	case 4:
		return integers<unsigned short>( s );
	case 5:
		return integers<int>( s );
	case 6:
		return integers<unsigned>( s );
	case 7:
		return integers<long long>( s );
	case 8:
		return integers<unsigned long long>( s );
	default:
		return integers<long>( s );
	}
}
PROP( object_hashes, { .cases = 3000 } ) {
	Pod p{ s.integer<u32>( ), s.integer<u32>( ) };
	s.nontrivial( );
	CHECK_EQ( daw::fnv1a_hash_t{ }( &p ), fnv_ref( p ) );
	CHECK_EQ( daw::generic_hash_t<8>{ }( &p ), fnv_ref( p ) );
	bool b = s.boolean( );
	CHECK_EQ( daw::fnv1a_hash( b ), fnv_ref( b ) );
	CHECK_EQ( daw::generic_hash( b ), fnv_ref( b ) );
	// std::hash of wrappers follows the wrapped value
	int *ip = reinterpret_cast<int *>( &p );
	CHECK_EQ( std::hash<daw::not_null<int *>>{ }( daw::not_null<int *>( ip ) ), std::hash<int *>{ }( ip ) );
	daw::value_ptr<u32> v( p.a );
	CHECK_EQ( std::hash<daw::value_ptr<u32>>{ }( v ), std::hash<u32>{ }( p.a ) );
}
PROP( generic_bytes, { } ) {
	auto in = gen( s, 60 );
	auto n = in.bytes.size( );
	u64 want = fnv64( in.bytes.data( ), n );
	u32 want32 = fnv32( in.bytes.data( ), n );
	places( s, in, [&]( char const *p ) {
		CHECK_EQ( daw::generic_hash<8>( p, n ), want );
		CHECK_EQ( daw::generic_hash<4>( p, n ), want32 );
		CHECK_EQ( daw::generic_hash<8>( p, p + n ), want );
		CHECK_EQ( daw::generic_hash<4>( p, p + n ), want32 );
		CHECK_EQ( daw::generic_hash( daw::string_view( p, n ) ), want );
		CHECK_EQ( daw::generic_hash<4>( daw::string_view( p, n ) ), want32 );
		CHECK_EQ( daw::generic_hash<4>( std::string( p, n ) ), want32 );
	} );
	if( n >= 5 ) { // an array hashes as all of its elements
		char a[5];
		std::memcpy( a, in.bytes.data( ), 5 );
		CHECK_EQ( daw::generic_hash<8>( a ), fnv64( in.bytes.data( ), 5 ) );
		CHECK_EQ( daw::generic_hash<4>( a ), fnv32( in.bytes.data( ), 5 ) );
	}
}
PROP( siphash, { } ) {
	auto in = gen( s );
	auto n = in.bytes.size( );
	Exact<char> key( 16 );
	for( std::size_t i = 0; i < 16; ++i ) {
		key.data( )[i] = char( s.draw( 255 ) );
	}
	auto const *uk = reinterpret_cast<u8 const *>( key.data( ) );
	char const *ck = key.data( );
	u64 want = sip( in.bytes.data( ), n, uk );
	places( s, in, [&]( char const *p ) {
		CHECK_EQ( daw::siphash24( p, n, ck ), want );
		CHECK_EQ( daw::siphash24( reinterpret_cast<u8 const *>( p ), n, uk ), want );
		CHECK_EQ( daw::siphash24( reinterpret_cast<std::byte const *>( p ), n, reinterpret_cast<std::byte const *>( ck ) ), want );
	} );
}
// lengths whose low byte wraps
PROP( siphash_long, { .cases = 60 } ) {
	std::size_t n = s.pick<std::size_t>( { 255, 256, 257, 511, 512, 1000 } ) + s.draw( 9 );
	std::vector<u8> v( n );
	auto k = s.draw( 255 );
	for( std::size_t i = 0; i < n; ++i ) {
		v[i] = u8( k * i + ( i >> 5 ) );
	}
	s.nontrivial( );
	u8 key[16];
	for( auto &b : key ) {
		b = s.integer<u8>( );
	}
	auto ex = Exact<u8>::from( v );
	CHECK_EQ( daw::siphash24( static_cast<u8 const *>( ex.data( ) ), n, key ), sip( v.data( ), n, key ) );
	auto ec = Exact<char>::from( v );
	u64 seed = s.integer<u64>( );
	CHECK_EQ( daw::metro::hash64( daw::string_view( ec.data( ), n ), seed ), metro( v.data( ), n, seed ) );
	CHECK_EQ( daw::fnv1a_hash( ec.data( ), n ), fnv64( v.data( ), n ) );
}
PROP( metro64, { } ) {
	auto in = gen( s );
	auto n = in.bytes.size( );
	u64 seed = s.boolean( ) ? s.draw( 3 ) : s.integer<u64>( );
	u64 want = metro( in.bytes.data( ), n, seed );
	places( s, in, [&]( char const *p ) { CHECK_EQ( daw::metro::hash64( daw::string_view( p, n ), seed ), want ); } );
}
// every length up to 200 with every byte value pattern start, so that no tail length is left to chance
PROP( every_length, ( { .cases = 1, .exhaustive = true } ) ) {
	u8 key[16];
	for( unsigned i = 0; i < 16; ++i ) {
		key[i] = u8( 0xf0 + i * 7 );
	}
	for( std::size_t n = 0; n <= 200; ++n ) {
		for( unsigned k = 0; k < 256; k += 17 ) {
			std::vector<u8> v( n );
			for( std::size_t i = 0; i < n; ++i ) {
				v[i] = u8( k + i * 29 );
			}
			auto e = Exact<char>::from( v );
			auto const *c = static_cast<char const *>( e.data( ) );
			CHECK_EQ( daw::siphash24( c, n, reinterpret_cast<char const *>( key ) ), sip( v.data( ), n, key ) );
			CHECK_EQ( daw::metro::hash64( daw::string_view( c, n ), k * 3 ), metro( v.data( ), n, k * 3 ) );
			CHECK_EQ( daw::fnv1a_hash( c, n ), fnv64( v.data( ), n ) );
		}
	}
	s.nontrivial( );
}
// the references themselves against published vectors
PROP( published_vectors, ( { .cases = 1, .exhaustive = true } ) ) {
	u8 key[16], msg[15];
	for( u8 i = 0; i < 16; ++i ) {
		key[i] = i;
	}
	for( u8 i = 0; i < 15; ++i ) {
		msg[i] = i;
	}
	CHECK_EQ( sip( msg, 15, key ), 0xa129ca6149be45e5ull );
	CHECK_EQ( sip( msg, 0, key ), 0x726fdb47dd0e0e31ull );
	char const *t = "012345678901234567890123456789012345678901234567890123456789012";
	auto *ut = reinterpret_cast<u8 const *>( t );
	u8 m0[8] = { 0x6B, 0x75, 0x3D, 0xAE, 0x06, 0x70, 0x4B, 0xAD }, m1[8] = { 0x3B, 0x0D, 0x48, 0x1C, 0xF4, 0xB9, 0xB8, 0xDF };
	CHECK_EQ( metro( ut, 63, 0 ), load( m0, 8 ) );
	CHECK_EQ( metro( ut, 63, 1 ), load( m1, 8 ) );
	CHECK_EQ( fnv64( ut, 0 ), 0xcbf29ce484222325ull );
	CHECK_EQ( fnv64( reinterpret_cast<u8 const *>( "a" ), 1 ), 0xaf63dc4c8601ec8cull );
	CHECK_EQ( fnv64( reinterpret_cast<u8 const *>( "foobar" ), 6 ), 0x85944171f73967e8ull );
	CHECK_EQ( fnv32( reinterpret_cast<u8 const *>( "foobar" ), 6 ), 0xbf9cf968u );
	CHECK_EQ( daw::fnv1a_hash( "foobar" ), 0x85944171f73967e8ull );
	CHECK_STATIC( daw::fnv1a_hash( "foobar" ) == 0x85944171f73967e8ull );
	s.nontrivial( );
}
