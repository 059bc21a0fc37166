// C12: holders of polymorphic values against a model of which object each one
// holds.
// nontrivial: a holder with an object of one dynamic type was copied, moved,
// swapped or overwritten by an object of another type.
// pbt-flags: -Wno-self-move -Wno-self-assign-overloaded
// pbt-scale: 4
#include "pbt.h"
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "daw/daw_poly_value.h"
#include "daw/daw_poly_var.h"
#include "daw/daw_sbo.h"
#include "daw/deprecated/daw_poly_vector.h"
using namespace pbt;

namespace {
	struct Base {
		Tracked t;
		explicit Base( int v = 0 ) : t( v ) {}
		Base( Base const & ) = default;
		Base( Base && ) = default;
		Base &operator=( Base const & ) = default;
		Base &operator=( Base && ) = default;
		virtual ~Base( ) = default;
		virtual int kind( ) const { return 0; }
		virtual std::size_t extra( ) const { return 0; }
		virtual void bump( ) { t.v += 1; }
		void chk( ) const { t.chk( "access through the base" ); }
	};
	struct Other {
		virtual ~Other( ) = default;
		int pad = 17;
	};
	struct C1 : Base {
		std::string s;
		explicit C1( int v ) : Base( v ), s( static_cast<std::size_t>( 20 + v % 10 ), 'c' ) {}
		int kind( ) const override { return 1; }
		std::size_t extra( ) const override { return s.size( ); }
		void bump( ) override { t.v += 2; }
	};
	// Base is not the first base: the pointers differ
	struct C2 : Other, Base {
		std::array<int, 40> a{ };
		explicit C2( int v ) : Base( v ) { a.fill( v ); }
		int kind( ) const override { return 2; }
		std::size_t extra( ) const override {
			for( int x : a ) {
				if( x != a[0] ) {
					return 0;
				}
			}
			return static_cast<std::size_t>( a[0] ) + static_cast<std::size_t>( pad );
		}
		void bump( ) override { t.v += 3; }
	};
	struct C3 final : C1 {
		std::unique_ptr<int> p;
		explicit C3( int v ) : C1( v ), p( std::make_unique<int>( v ) ) {}
		C3( C3 const &o ) : C1( o ), p( o.p ? std::make_unique<int>( *o.p ) : nullptr ) {}
		C3( C3 && ) = default;
		C3 &operator=( C3 const &o ) {
			C1::operator=( o );
			p = o.p ? std::make_unique<int>( *o.p ) : nullptr;
			return *this;
		}
		C3 &operator=( C3 && ) = default;
		int kind( ) const override { return 3; }
		std::size_t extra( ) const override { return p ? static_cast<std::size_t>( *p ) : 99999; }
		void bump( ) override { t.v += 4; }
	};
	struct M { // kind, value, and the number the object was built with
		int kind = 0, v = 0, built = 0;
		std::size_t extra( ) const {
			switch( kind ) {
			case 0:
				return 0;
			case 1:
				return static_cast<std::size_t>( 20 + built % 10 );
			case 2:
				return static_cast<std::size_t>( built + 17 );
			default:
				return static_cast<std::size_t>( built );
			}
		}
	};
	void check_is( Base const &b, M const &m ) {
		b.chk( );
		CHECK_EQ( b.kind( ), m.kind );
		CHECK_EQ( b.t.v, m.v );
		CHECK_EQ( b.extra( ), m.extra( ) );
	}
	template<typename F>
	auto by_kind( int kind, int v, F f ) {
		switch( kind ) {
		case 0:
			return f( Base( v ) );
		case 1:
			return f( C1( v ) );
		case 2:
			return f( C2( v ) );
		default:
			return f( C3( v ) );
		}
	}
	PROP( poly_value, { .cases = 12000 } ) {
		using P = daw::poly_value<Base>;
		constexpr std::size_t N = 4;
		std::vector<P> h( N );
		std::array<M, N> m{ };
		long live = static_cast<long>( N );
		CHECK_EQ( g_live, live );
		std::size_t ops = 1 + s.len( 24 );
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( N ), j = s.below( N );
			auto op = s.below( 11 );
			int kind = s.range( 0, 3 ), v = s.range( 0, 1000 );
			M n{ kind, v, v };
			s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + " kind " + std::to_string( kind ) + "; "; } );
			s.nontrivial( m[i].kind != m[j].kind and op >= 2 and op <= 7 );
			switch( op ) {
			case 0: // from an rvalue or an lvalue
				by_kind( kind, v, [&]( auto &&c ) {
					if( s.boolean( ) ) {
						h[i] = P( std::move( c ) );
					} else {
						h[i] = c;
						c.bump( ); // a copy is held
					}
					return 0;
				} );
				m[i] = n;
				break;
			case 1:
				by_kind( kind, v, [&]( auto &&c ) {
					h[i] = P( daw::construct_emplace<std::remove_cvref_t<decltype( c )>>, v );
					return 0;
				} );
				m[i] = n;
				break;
			case 2:
				h[i] = h[j];
				m[i] = m[j];
				break;
			case 3: {
				P c( h[j] );
				check_is( *c, m[j] );
				c->bump( );
				check_is( *h[j], m[j] );
				break;
			}
			case 4: {
				P c( std::as_const( h[j] ) );
				h[i] = std::move( c );
				m[i] = m[j];
				break;
			}
			case 5: { // moved from holders can be assigned to
				if( i != j ) {
					h[i] = std::move( h[j] );
					m[i] = m[j];
					m[j] = M{ };
					h[j] = P( );
				} else {
					auto &r = h[i];
					h[i] = std::move( r );
				}
				break;
			}
			case 6:
				std::swap( h[i], h[j] );
				std::swap( m[i], m[j] );
				break;
			case 7: {
				P c( std::move( h[j] ) );
				check_is( *c, m[j] );
				h[j] = c;
				break;
			}
			case 8:
				h[i]->bump( );
				m[i].v += m[i].kind + 1;
				break;
			case 9: {
				Base &b = h[i];
				Base const &cb = std::as_const( h[i] );
				Base &&rb = std::move( h[i] ); // names the object held
				CHECK( &rb == &b );
				CHECK( &b == h[i].get( ) and &cb == std::as_const( h[i] ).get( ) and &*h[i] == &b and std::as_const( h[i] ).operator->( ) == &cb );
				b.t.v = v;
				m[i].v = v;
				break;
			}
			default: { // failing copy keeps the old value
				g_throw_after = 0;
				bool threw = false;
				try {
					h[i] = h[j];
				} catch( Injected const & ) { threw = true; }
				g_throw_after = -1;
				CHECK_EQ( threw, i != j );
				s.label( "copy threw", threw );
			}
			}
			for( std::size_t x = 0; x < N; ++x ) {
				check_is( *h[x], m[x] );
			}
			CHECK_EQ( g_live, live );
		}
	}

	// ------------------------------------------------------------- poly_var
	PROP( poly_var, { .cases = 12000 } ) {
		using P = daw::poly_var<Base, Base, C1, C2, C3>;
		constexpr std::size_t N = 3;
		std::vector<P> h( N );
		std::array<M, N> m{ };
		std::size_t ops = 1 + s.len( 24 );
		for( std::size_t k = 0; k < ops; ++k ) {
			auto i = s.below( N ), j = s.below( N );
			auto op = s.below( 7 );
			int kind = s.range( 0, 3 ), v = s.range( 0, 1000 );
			M n{ kind, v, v };
			s.note( [&] { return "op " + std::to_string( op ) + " " + std::to_string( i ) + "," + std::to_string( j ) + " kind " + std::to_string( kind ) + "; "; } );
			s.nontrivial( m[i].kind != m[j].kind and op >= 2 and op <= 4 );
			switch( op ) {
			case 0:
				by_kind( kind, v, [&]( auto &&c ) {
					if( s.boolean( ) ) {
						h[i] = std::move( c );
					} else {
						h[i] = c;
						c.bump( );
					}
					return 0;
				} );
				m[i] = n;
				break;
			case 1:
				h[i] = by_kind( kind, v, []( auto &&c ) { return P( c ); } );
				m[i] = n;
				break;
			case 2:
				h[i] = h[j];
				m[i] = m[j];
				break;
			case 3: {
				P c( h[j] );
				c->bump( );
				check_is( *h[j], m[j] );
				P d( std::move( h[j] ) );
				check_is( *d, m[j] );
				h[j] = d;
				break;
			}
			case 4:
				std::swap( h[i], h[j] );
				std::swap( m[i], m[j] );
				break;
			case 5:
				h[i]->bump( );
				m[i].v += m[i].kind + 1;
				break;
			default: {
				Base &b = *h[i];
				CHECK( &b == h[i].operator->( ) );
				CHECK( &*std::as_const( h[i] ) == &b );
				CHECK( std::as_const( h[i] ).operator->( ) == &b );
				( *h[i] ).t.v = v; // through the reference
				m[i].v = v;
			}
			}
			for( std::size_t x = 0; x < N; ++x ) {
				check_is( *h[x], m[x] );
				check_is( *std::as_const( h[x] ), m[x] );
			}
			CHECK_EQ( g_live, static_cast<long>( N ) );
		}
	}
	// the address of Base differs between the alternatives
	struct AbsBase {
		virtual ~AbsBase( ) = default;
		virtual int num( ) const = 0;
	};
	struct A1 : AbsBase {
		int v = 0;
		int num( ) const override { return v; }
	};
	struct A2 : Other, AbsBase {
		int v = 0;
		int num( ) const override { return v + 10000; }
	};
	PROP( poly_var_abstract, { .cases = 3000 } ) {
		daw::poly_var<AbsBase, A1, A2> p{ };
		CHECK_EQ( p->num( ), 0 );
		std::size_t ops = 1 + s.len( 8 );
		for( std::size_t k = 0; k < ops; ++k ) {
			int v = s.range( 0, 999 );
			bool two = s.boolean( );
			s.nontrivial( two and k > 0 );
			if( two ) {
				A2 a;
				a.v = v;
				p = a;
			} else {
				A1 a;
				a.v = v;
				p = a;
			}
			CHECK_EQ( ( *p ).num( ), v + ( two ? 10000 : 0 ) );
			CHECK_EQ( ( *std::as_const( p ) ).num( ), v + ( two ? 10000 : 0 ) );
		}
	}

	// ---------------------------------------------------------- sbo_storage
	template<std::size_t Pad, std::size_t Align = 8>
	struct alignas( Align ) Sized {
		Tracked t;
		std::array<unsigned char, Pad> pad;
		explicit Sized( int v ) : t( v ) {
			for( std::size_t i = 0; i < Pad; ++i ) {
				pad[i] = static_cast<unsigned char>( v + static_cast<int>( i ) );
			}
		}
		void check( int v ) const {
			t.chk( "stored object" );
			CHECK_EQ( t.v, v );
			CHECK_EQ( reinterpret_cast<std::uintptr_t>( this ) % Align, 0u );
			for( std::size_t i = 0; i < Pad; ++i ) {
				CHECK_EQ( int( pad[i] ), int( static_cast<unsigned char>( v + static_cast<int>( i ) ) ) );
			}
		}
	};
	struct Agg {
		int a, b;
		void check( int v ) const {
			CHECK_EQ( a, v );
			CHECK_EQ( b, v + 1 );
		}
	};
	struct Ptr {
		void *p;
		int v;
		explicit Ptr( int x ) : p( this ), v( x ) {}
		void check( int x ) const { CHECK_EQ( v, x ); }
	};
	template<typename T>
	T build( int v ) {
		if constexpr( std::is_same_v<T, Agg> ) {
			return Agg{ v, v + 1 };
		} else {
			return T( v );
		}
	}
	struct ByteTag {};
	template<typename T, std::size_t Al, typename St>
	void store_one( Src &s, St &st ) {
		int v = s.range( 0, 1000 );
		long before = g_live;
		T *p = nullptr;
		if( s.boolean( ) ) {
			p = st.allocate( build<T>( v ) );
		} else {
			T l = build<T>( v );
			p = st.allocate( l );
			l.check( v );
		}
		constexpr bool tracked = not std::is_same_v<T, Agg> and not std::is_same_v<T, Ptr>;
		CHECK_EQ( g_live, before + tracked );
		p->check( v );
		CHECK( st.template get<T>( ) == p );
		CHECK( std::as_const( st ).template get<T>( ) == p );
		bool inside = static_cast<void *>( p ) >= static_cast<void *>( &st ) and static_cast<void *>( p ) < static_cast<void *>( &st + 1 );
		CHECK_EQ( inside, sizeof( T ) <= St::storage_size and alignof( T ) <= Al );
		CHECK_EQ( st.engaged == St::engaged_types::local, inside );
		s.label( inside ? "stored inline" : "stored on the heap" );
		st.template get<T>( )->check( v );
		st.template deallocate<T>( );
		CHECK_EQ( g_live, before );
		CHECK( st.engaged == St::engaged_types::none );
		if constexpr( tracked ) { // a throwing constructor stores nothing
			T l = build<T>( v );
			g_throw_after = 0;
			bool threw = false;
			try {
				(void)st.allocate( l );
			} catch( Injected const & ) { threw = true; }
			g_throw_after = -1;
			CHECK( threw );
			CHECK( st.engaged == St::engaged_types::none );
		}
		CHECK_EQ( g_live, before );
	}
	template<std::size_t Sz, std::size_t Al = alignof( std::max_align_t )>
	void sbo( Src &s ) {
		CHECK_STATIC( sizeof( daw::aligned_storage_t<1, 64> ) >= 1 and alignof( daw::aligned_storage_t<1, 64> ) >= 64 );
		CHECK_STATIC( sizeof( daw::aligned_storage_t<100> ) >= 100 and alignof( daw::aligned_storage_t<100> ) >= alignof( std::max_align_t ) );
		CHECK_STATIC( alignof( daw::aligned_storage_for_t<char, Sized<3, 128>, Agg> ) >= 128 );
		CHECK_STATIC( sizeof( daw::aligned_storage_for_t<char, Agg, Sized<3>> ) >= sizeof( Sized<3> ) );
		struct Outer {
			unsigned char before = 0xAB;
			daw::sbo_storage<Sz, Al> st{ };
			unsigned char after = 0xCD;
		} o;
		std::size_t ops = 1 + s.len( 8 );
		s.nontrivial( ops > 2 );
		for( std::size_t k = 0; k < ops; ++k ) {
			auto c = s.below( 7 );
			s.note( [&] { return std::to_string( c ) + " "; } );
			switch( c ) {
			case 0:
				store_one<Sized<1>, Al>( s, o.st );
				break;
			case 1:
				store_one<Sized<8>, Al>( s, o.st );
				break;
			case 2:
				store_one<Sized<64 - sizeof( Tracked )>, Al>( s, o.st );
				break;
			case 3:
				store_one<Sized<65 - sizeof( Tracked )>, Al>( s, o.st );
				break;
			case 4:
				store_one<Sized<8, 64>, Al>( s, o.st );
				break;
			case 5:
				store_one<Agg, Al>( s, o.st );
				break;
			default:
				store_one<Ptr, Al>( s, o.st );
			}
			CHECK_EQ( int( o.before ), 0xAB );
			CHECK_EQ( int( o.after ), 0xCD );
		}
	}
	PROP_T( sbo_1, ( sbo<1> ), { .cases = 4000 } );
	PROP_T( sbo_16, ( sbo<16> ), { .cases = 4000 } );
	PROP_T( sbo_64, ( sbo<64> ), { .cases = 4000 } );
	PROP_T( sbo_65, ( sbo<65> ), { .cases = 4000 } );
	PROP_T( sbo_256, ( sbo<256> ), { .cases = 4000 } );
	PROP_T( sbo_256_64, ( sbo<256, 64> ), { .cases = 4000 } );
	PROP_T( sbo_64_8, ( sbo<64, 8> ), { .cases = 4000 } );

	// ---------------------------------------------------------- poly_vector
	PROP( poly_vector, { .cases = 5000 } ) {
		struct V {
			TrackedPlain t;
			V( ) : t( 0 ) {}
			V( int a, int b = 0 ) : t( a + b ) {}
		};
		{
			daw::poly_vector_t<V> p;
			std::vector<int> m;
			std::size_t ops = s.len( 20 );
			for( std::size_t k = 0; k < ops; ++k ) {
				int v = s.range( 0, 1000 );
				auto pos = s.below( m.size( ) + 1 );
				s.nontrivial( m.size( ) > 2 );
				switch( s.below( 5 ) ) {
				case 0:
					p.push_back( V( v ) );
					m.push_back( v );
					break;
				case 1: {
					daw::heap_value<V> h( v );
					p.push_back( h );
					CHECK_EQ( h->t.v, v );
					m.push_back( v );
					break;
				}
				case 2:
					p.emplace_back( v, 1 );
					m.push_back( v + 1 );
					break;
				case 3: {
					auto it = p.insert( p.begin( ) + static_cast<std::ptrdiff_t>( pos ), daw::heap_value<V>( v ) );
					CHECK_EQ( ( *it )->t.v, v );
					m.insert( m.begin( ) + static_cast<std::ptrdiff_t>( pos ), v );
					break;
				}
				default: {
					auto c = p;
					if( not m.empty( ) ) {
						c[0]->t.v = -5;
					}
				}
				}
				CHECK_EQ( std::as_const( p ).size( ), m.size( ) );
				for( std::size_t i = 0; i < m.size( ); ++i ) {
					p[i]->t.chk( "element" );
					CHECK_EQ( std::as_const( p )[i]->t.v, m[i] );
				}
				CHECK_EQ( static_cast<std::size_t>( p.end( ) - p.begin( ) ), m.size( ) );
				CHECK_EQ( g_live, static_cast<long>( m.size( ) ) );
			}
		}
		CHECK_EQ( g_live, 0 );
	}
} // namespace
