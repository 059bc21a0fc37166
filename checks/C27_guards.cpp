// C27: programs of nested scopes with guards, left normally and by exceptions,
// against a model of which guard has to run and when; unique_resource histories
// against a model of what each object holds; allow_once between threads.
// nontrivial: a guard was moved, dismissed, run early or unwound (scopes);
// a resource was replaced or moved (resources).
// pbt-flags: -Wno-self-move
// pbt-scale: 2
#include <cassert>
#include "pbt.h"
#include <atomic>
#include <functional>
#include <memory>
#include <optional>
#include <thread>
#include <type_traits>
#include <vector>

#include "daw/daw_allow_once.h"
#include "daw/daw_countable_resource.h"
#include "daw/daw_exchange.h"
#include "daw/daw_move_only.h"
#include "daw/daw_move_only_base.h"
#include "daw/daw_mutable_capture.h"
#include "daw/daw_scope_guard.h"
#include "daw/daw_unique_resource.h"
using namespace pbt;

namespace {
	struct Boom {
		int level;
	};
	struct Log {
		std::vector<int> ran{ };  // what ran, in order
		std::vector<int> want{ }; // what the model says
		bool throwing = false;    // a guard's function throws after it has run
		bool nest = false;        // a guard's function enters a scope of its own
	};

	void action( Log &log, int id ) {
		log.ran.push_back( id );
		if( log.throwing ) {
			throw Boom{ -1 };
		}
		if( log.nest ) {
			// a scope inside the action, left normally: also while unwinding
			auto const ok = daw::on_exit_success( [&] {
				log.ran.push_back( id + 10000 );
			} );
			auto const sg = daw::on_scope_exit( [&] {
				log.ran.push_back( id + 20000 );
			} );
			// and one that is left by an exception
			try {
				auto const no = daw::on_exit_success( [&] {
					log.ran.push_back( id + 30000 );
				} );
				auto const sg2 = daw::on_scope_exit( [&] {
					log.ran.push_back( id + 40000 );
				} );
				throw Boom{ -2 };
			} catch( Boom const & ) {}
		}
	}
	void expect_action( Log &log, int id ) {
		log.want.push_back( id );
		if( not log.throwing and log.nest ) {
			log.want.push_back( id + 40000 );
			log.want.push_back( id + 20000 );
			log.want.push_back( id + 10000 );
		}
	}

	struct Plain {
		Log *log;
		int id;
		void operator( )( ) {
			action( *log, id );
		}
		bool operator==( Plain const & ) const = default;
	};
	struct MoveOnly {
		Log *log;
		std::unique_ptr<int> id;
		MoveOnly( Log *l, int i ) : log( l ), id( new int( i ) ) {}
		void operator( )( ) {
			action( *log, *id );
		}
	};
	template<typename F>
	F make( Log &log, int id ) {
		if constexpr( std::is_same_v<F, std::function<void( )>> ) {
			return [&log, id] {
				action( log, id );
			};
		} else {
			return F{ &log, id };
		}
	}

	template<typename F>
	struct World {
		using Guard = daw::ScopeGuard<F>;
		struct Slot {
			std::optional<Guard> *g;
			std::optional<int> *id; // what the model says it would run
		};
		Src &s;
		Log log{ };
		int next_id = 1;
		std::vector<Slot> slots{ };
		int budget = 40;

		Guard fresh( std::optional<int> &id ) {
			id = next_id++;
			if( s.boolean( ) ) {
				return daw::on_scope_exit( make<F>( log, *id ) );
			}
			if constexpr( std::is_copy_constructible_v<F> ) {
				if( s.boolean( ) ) {
					F const f = make<F>( log, *id );
					return Guard( f );
				}
			}
			return Guard( make<F>( log, *id ) );
		}

		// The model's view of leaving a scope: declared before the guards, so that
		// it is destroyed after them.
		struct Frame {
			World &w;
			std::optional<int> ids[3]{ };
			int success_ids[2]{ };
			bool normal = false;
			std::size_t old_slots;
			explicit Frame( World &x ) : w( x ), old_slots( x.slots.size( ) ) {}
			~Frame( ) {
				w.slots.resize( old_slots );
				// reverse order of: success 0, guard 0, guard 1, guard 2, success 1
				if( normal ) {
					w.log.want.push_back( success_ids[1] );
				}
				for( int i = 2; i >= 0; --i ) {
					if( ids[i] ) {
						expect_action( w.log, *ids[i] );
					}
				}
				if( normal ) {
					w.log.want.push_back( success_ids[0] );
				}
			}
		};

		void scope( int depth ) {
			Frame frame( *this );
			frame.success_ids[0] = next_id++;
			frame.success_ids[1] = next_id++;
			int const s0 = frame.success_ids[0];
			int const s1 = frame.success_ids[1];
			auto const ok0 = daw::on_exit_success( [this, s0] {
				log.ran.push_back( s0 );
			} );
			std::optional<Guard> guards[3]{ };
			auto const late = [this, s1] {
				log.ran.push_back( s1 );
			};
			auto const ok1 = daw::on_exit_success( late );
			for( int i = 0; i < 3; ++i ) {
				slots.push_back( { &guards[i], &frame.ids[i] } );
			}
			while( budget > 0 and s.chance( 85 ) ) {
				--budget;
				Slot &a = slots[s.below( slots.size( ) )];
				Slot &b = slots[s.below( slots.size( ) )];
				switch( s.below( 11 ) ) {
				case 0:
				case 1:
					if( not *a.g ) {
						a.g->emplace( fresh( *a.id ) );
						note( "new" );
					}
					break;
				case 2: // move construct
					if( not *a.g and *b.g ) {
						a.g->emplace( std::move( **b.g ) );
						*a.id = std::exchange( *b.id, std::nullopt );
						s.nontrivial( a.id->has_value( ) );
						note( "move" );
					}
					break;
				case 3: // move assign: what was guarded runs now
					if( *a.g and *b.g ) {
						log.throwing = false;
						if( a.g != b.g ) {
							if( *a.id ) {
								expect_action( log, **a.id );
							}
							**a.g = std::move( **b.g );
							*a.id = std::exchange( *b.id, std::nullopt );
						} else {
							auto &self = **b.g;
							**a.g = std::move( self );
						}
						s.nontrivial( );
						note( "assign" );
					}
					break;
				case 4:
					if( *a.g ) {
						( *a.g )->cancel( );
						s.nontrivial( a.id->has_value( ) );
						a.id->reset( );
						note( "cancel" );
					}
					break;
				case 5:
					if( *a.g ) {
						( *a.g )->dismiss( );
						s.nontrivial( a.id->has_value( ) );
						a.id->reset( );
						note( "dismiss" );
					}
					break;
				case 6:
					if( *a.g and *a.id ) {
						bool const t = s.chance( 40 );
						log.throwing = t;
						expect_action( log, **a.id );
						a.id->reset( );
						bool caught = false;
						try {
							( *a.g )->run_now( );
						} catch( Boom const & ) { caught = true; }
						log.throwing = false;
						CHECK_EQ( caught, t );
						s.nontrivial( );
						note( t ? "run_now throws" : "run_now" );
					}
					break;
				case 7: // the guard's own end
					if( *a.g ) {
						if( *a.id ) {
							expect_action( log, **a.id );
							a.id->reset( );
						}
						a.g->reset( );
						note( "end" );
					}
					break;
				case 8: {
					note( "throw" );
					s.nontrivial( );
					throw Boom{ static_cast<int>( s.below( static_cast<std::size_t>( depth + 1 ) ) ) };
				}
				default:
					if( depth < 4 ) {
						note( "{" );
						if( s.boolean( ) ) {
							try {
								scope( depth + 1 );
							} catch( Boom const &e ) {
								note( "caught" );
								if( e.level < depth ) {
									CHECK( log.ran == log.want );
									throw;
								}
							}
						} else {
							scope( depth + 1 );
						}
						note( "}" );
						CHECK_EQ( log.ran, log.want );
					}
					break;
				}
				CHECK_EQ( log.ran, log.want );
			}
			frame.normal = true;
		}
		void note( char const *what ) {
			s.note( [&] {
				return std::string( what ) + " ";
			} );
		}
	};

	template<typename F>
	void program( Src &s ) {
		World<F> w{ s };
		w.log.nest = s.boolean( );
		try {
			w.scope( 0 );
		} catch( Boom const & ) {}
		CHECK_EQ( w.log.ran, w.log.want );
	}
} // namespace

PROP( scopes, ( { .cases = 30000 } ) ) {
	switch( s.below( 3 ) ) {
	case 0:
		program<Plain>( s );
		break;
	case 1:
		program<MoveOnly>( s );
		break;
	default:
		program<std::function<void( )>>( s );
		break;
	}
}

// guards of closures, as users write them
PROP( closures, ( { .cases = 20000 } ) ) {
	using Exit = decltype( daw::on_scope_exit( std::declval<void ( * )( )>( ) ) );
	CHECK_STATIC( not std::is_copy_constructible_v<Exit> and not std::is_copy_assignable_v<Exit> );
	std::vector<int> ran, want;
	bool const dismissed = s.boolean( ), throws = s.boolean( ), moved = s.boolean( ), early = s.boolean( );
	s.nontrivial( dismissed or throws or moved or early );
	try {
		auto g = daw::on_scope_exit( [&ran, p = std::make_unique<int>( 7 )] {
			ran.push_back( *p );
		} );
		auto const ok = daw::on_exit_success( [&ran, p = std::make_unique<int>( 8 )] {
			ran.push_back( *p );
		} );
		if( dismissed ) {
			g.cancel( );
		} else if( early ) {
			g.run_now( );
			want.push_back( 7 );
			CHECK_EQ( ran, want );
		}
		if( moved ) {
			{
				auto h = std::move( g );
				if( not dismissed and not early ) {
					want.push_back( 7 );
				}
			}
			CHECK_EQ( ran, want );
		}
		if( not throws ) {
			want.push_back( 8 );
		}
		if( not dismissed and not early and not moved ) {
			want.push_back( 7 );
		}
		if( throws ) {
			throw Boom{ 0 };
		}
	} catch( Boom const & ) {}
	CHECK_EQ( ran, want );
}

#if defined( DAW_HAS_CONSTEXPR_SCOPE_GUARD )
namespace {
	struct Inc {
		int *p;
		int by;
		constexpr void operator( )( ) const {
			*p = *p * 10 + by;
		}
	};
	constexpr int constant_guards( ) {
		int r = 0;
		{
			auto const a = daw::on_scope_exit( Inc{ &r, 1 } );
			daw::on_exit_success const c( Inc{ &r, 3 } );
			auto b = daw::on_scope_exit( Inc{ &r, 2 } );
			auto d = std::move( b );
			auto e = daw::on_scope_exit( Inc{ &r, 9 } );
			e.dismiss( );
			auto f = daw::on_scope_exit( Inc{ &r, 4 } );
			f.run_now( );
		}
		return r;
	}
} // namespace
PROP( constant, { .cases = 1 } ) {
	CHECK_STATIC( constant_guards( ) == 4231 );
	s.nontrivial( );
}
#endif

namespace {
	std::vector<long> g_deleted;
	struct Handle {
		long id = 0;
	};
	struct Del {
		void operator( )( long id ) const {
			g_deleted.push_back( id );
		}
		void operator( )( Handle const &h ) const {
			g_deleted.push_back( h.id );
		}
		void operator( )( std::unique_ptr<long> const &p ) const {
			// a resource that was moved away is not one to delete
			g_deleted.push_back( p ? *p : -1 );
		}
	};
	template<typename T>
	T resource( long id ) {
		if constexpr( std::is_same_v<T, std::unique_ptr<long>> ) {
			return std::make_unique<long>( id );
		} else {
			return T{ id };
		}
	}
	template<typename T>
	long id_of( T const &v ) {
		if constexpr( std::is_same_v<T, std::unique_ptr<long>> ) {
			return v ? *v : -1;
		} else if constexpr( std::is_same_v<T, Handle> ) {
			return v.id;
		} else {
			return v;
		}
	}

	template<typename T>
	void resources( Src &s ) {
		using U = daw::unique_resource<T, Del>;
		CHECK_STATIC( not std::is_copy_constructible_v<U> and not std::is_copy_assignable_v<U> );
		g_deleted.clear( );
		std::vector<long> want;
		long next = 1;
		{
			std::optional<U> u[4];
			std::optional<long> m[4];
			auto const drop = [&]( std::size_t i ) {
				if( m[i] ) {
					want.push_back( *m[i] );
					m[i].reset( );
				}
			};
			auto const steps = s.len( 40 );
			for( std::size_t step = 0; step < steps; ++step ) {
				auto const a = s.below( 4 );
				auto const b = s.below( 4 );
				if( not u[a] ) {
					switch( s.below( 3 ) ) {
					case 0:
						u[a].emplace( );
						break;
					case 1:
						m[a] = next++;
						u[a].emplace( resource<T>( *m[a] ) );
						break;
					default:
						if( u[b] ) {
							u[a].emplace( std::move( *u[b] ) );
							m[a] = std::exchange( m[b], std::nullopt );
							s.nontrivial( m[a].has_value( ) );
						}
						break;
					}
				} else {
					switch( s.below( 7 ) ) {
					case 0:
						drop( a );
						u[a].reset( );
						break;
					case 1:
						drop( a );
						u[a]->reset( );
						break;
					case 2:
						s.nontrivial( m[a].has_value( ) );
						drop( a );
						m[a] = next++;
						u[a]->reset( resource<T>( *m[a] ) );
						break;
					case 3: {
						s.nontrivial( m[a].has_value( ) );
						drop( a );
						m[a] = next++;
						if constexpr( std::is_same_v<T, std::unique_ptr<long>> ) {
							CHECK_EQ( *u[a]->emplace( new long( *m[a] ) ), *m[a] );
						} else {
							CHECK_EQ( id_of( u[a]->emplace( *m[a] ) ), *m[a] );
						}
						break;
					}
					case 4:
						if( m[a] ) {
							auto const v = u[a]->release( );
							CHECK_EQ( id_of( v ), *m[a] );
							m[a].reset( );
						}
						break;
					default:
						if( u[b] and b != a ) {
							s.nontrivial( m[b].has_value( ) );
							drop( a );
							m[a] = std::exchange( m[b], std::nullopt );
							*u[a] = std::move( *u[b] );
						} else if( u[b] ) {
							// to itself: nothing is lost or deleted
							auto &self = *u[b];
							*u[a] = std::move( self );
						}
						break;
					}
				}
				CHECK_EQ( g_deleted, want );
				for( std::size_t i = 0; i < 4; ++i ) {
					if( u[i] ) {
						CHECK_EQ( static_cast<bool>( *u[i] ), m[i].has_value( ) );
						if( m[i] ) {
							U const &cu = *u[i];
							CHECK_EQ( id_of( u[i]->get( ) ), *m[i] );
							CHECK_EQ( id_of( cu.get( ) ), *m[i] );
							CHECK_EQ( id_of( **u[i] ), *m[i] );
							CHECK_EQ( id_of( *cu ), *m[i] );
							CHECK( u[i]->operator->( ) == &u[i]->get( ) );
							CHECK( cu.operator->( ) == &cu.get( ) );
						}
					}
				}
			}
			for( std::size_t i = 4; i-- > 0; ) {
				drop( i );
			}
		}
		CHECK_EQ( g_deleted, want );
		g_deleted = { };
	}
} // namespace

PROP( unique_resource, ( { .cases = 40000, .leak = false } ) ) {
	switch( s.below( 3 ) ) {
	case 0:
		resources<long>( s );
		break;
	case 1:
		resources<Handle>( s );
		break;
	default:
		resources<std::unique_ptr<long>>( s );
		break;
	}
}

PROP( allow_once, ( { .cases = 10000 } ) ) {
	daw::allow_once_t once{ };
	daw::allow_once_t const &c = once;
	bool called = false;
	auto const steps = s.len( 20 );
	for( std::size_t i = 0; i < steps; ++i ) {
		switch( s.below( 4 ) ) {
		case 0:
			once.reset( );
			called = false;
			break;
		case 1:
			CHECK_EQ( static_cast<bool>( c ), called );
			called = true;
			break;
		default:
			CHECK_EQ( c.check( ), called );
			s.nontrivial( called );
			called = true;
			break;
		}
	}
}

PROP( allow_once_threads, ( { .cases = 60, .thorough = 10, .leak = false, .nondet = true } ) ) {
	auto const n = 2 + s.below( 3 );
	constexpr int rounds = 50;
	s.nontrivial( );
	auto once = std::make_unique<daw::allow_once_t[]>( rounds );
	auto firsts = std::make_unique<std::atomic_int[]>( rounds );
	auto arrived = std::make_unique<std::atomic_int[]>( rounds );
	std::vector<std::thread> ts;
	for( std::size_t t = 0; t < n; ++t ) {
		ts.emplace_back( [&] {
			for( int r = 0; r < rounds; ++r ) {
				auto const k = static_cast<std::size_t>( r );
				++arrived[k];
				for( int spin = 0; arrived[k] < static_cast<int>( n ); ++spin ) {
					if( spin > 300 ) {
						std::this_thread::yield( );
					}
				}
				if( not once[k].check( ) ) {
					++firsts[k];
				}
			}
		} );
	}
	for( auto &t : ts ) {
		t.join( );
	}
	for( std::size_t r = 0; r < rounds; ++r ) {
		CHECK_EQ( firsts[r].load( ), 1 );
	}
}

// the number of live objects of a countable type
namespace {
	struct Counted : daw::countable_resource_t<long> {
		int v = 0;
	};
} // namespace
PROP( countable, ( { .cases = 20000, .leak = false } ) ) {
	auto const base = daw::countable_resource_t<long>::value( );
	std::vector<std::unique_ptr<Counted>> live;
	auto const steps = s.len( 30 );
	for( std::size_t i = 0; i < steps; ++i ) {
		switch( s.below( 5 ) ) {
		case 0:
		case 1:
			live.push_back( std::make_unique<Counted>( ) );
			break;
		case 2:
			if( not live.empty( ) ) {
				live.push_back( std::make_unique<Counted>( *s.pick_of( live ) ) );
			}
			break;
		case 3:
			if( not live.empty( ) ) {
				*s.pick_of( live ) = *s.pick_of( live );
				s.nontrivial( );
			}
			break;
		default:
			if( not live.empty( ) ) {
				live.erase( live.begin( ) + static_cast<std::ptrdiff_t>( s.below( live.size( ) ) ) );
			}
			break;
		}
		CHECK_EQ( daw::countable_resource_t<long>::value( ) - base, static_cast<long>( live.size( ) ) );
	}
}

// values that are only moved: what is moved arrives, once
PROP( move_only_values, ( { .cases = 20000 } ) ) {
	using M = daw::move_only<Tracked>;
	CHECK_STATIC( not std::is_copy_constructible_v<M> and not std::is_copy_assignable_v<M> );
	CHECK_STATIC( std::is_move_constructible_v<M> and std::is_move_assignable_v<M> );
	using B = daw::move_only_base<int>;
	CHECK_STATIC( not std::is_copy_constructible_v<B> and std::is_move_constructible_v<B> );
	CHECK_STATIC( not std::is_copy_assignable_v<B> and std::is_move_assignable_v<B> );
	int const x = s.range<int>( 0, 100 ), y = s.range<int>( 0, 100 );
	s.nontrivial( x != y );
	M a( Tracked{ x } );
	M b( Tracked{ y } );
	CHECK_EQ( a.get( ).v, x );
	CHECK_EQ( a->v, x );
	CHECK_EQ( static_cast<Tracked const &>( std::as_const( a ) ).v, x );
	M c( std::move( a ) );
	CHECK_EQ( c.get( ).v, x );
	c = std::move( b );
	CHECK_EQ( std::as_const( c ).get( ).v, y );
	daw::move_only<int> i( x ), j( y );
	CHECK_EQ( i < j, x < y );
	// exchange
	Tracked t{ x };
	Tracked const old = daw::exchange( t, Tracked{ y } );
	CHECK_EQ( old.v, x );
	CHECK_EQ( t.v, y );
	// mutable captures are written through const closures
	auto const cap = [m = daw::mutable_capture( Tracked{ x } )]( int v ) {
		int const was = m.get( ).v;
		m->v = v;
		( *m ).v += 1;
		return was;
	};
	CHECK_EQ( cap( y ), x );
	CHECK_EQ( cap( 0 ), y + 1 );
	auto const m = daw::mutable_capture( std::make_unique<int>( x ) );
	auto const p = m.move_out( );
	CHECK_EQ( *p, x );
	CHECK( not m.get( ) );
}
