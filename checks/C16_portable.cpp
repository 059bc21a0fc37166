// C16: the portable spelling of reverse_bits, which compilers without the builtin use.
// nontrivial: the value has both ones and zeros.
// pbt-scale: 5
#include "pbt.h"
#include "daw/ciso646.h"
#include "daw/daw_attributes.h"
#include "daw/daw_cpp_feature_check.h"
#include "daw/traits/daw_traits_is_one_of.h"
#include <cstdint>
#include <type_traits>
#undef DAW_HAS_CLANG_VER_LT
#define DAW_HAS_CLANG_VER_LT( ... ) true
#define integers integers_portable
#include "daw/daw_integer_reverse.h"
#undef integers
using namespace pbt;

namespace {
	template<typename U>
	void rev( Src &s ) {
		U const v = s.integer<U>( );
		if( v != 0 and v != static_cast<U>( ~U{ } ) ) {
			s.nontrivial( );
		}
		U want{ };
		for( unsigned i = 0; i < sizeof( U ) * 8; ++i ) {
			if( ( v >> i ) & 1U ) {
				want = static_cast<U>( want | ( U{ 1 } << ( sizeof( U ) * 8 - 1 - i ) ) );
			}
		}
		CHECK_EQ( daw::integers_portable::reverse_bits( v ), want );
	}
} // namespace

PROP( portable_reverse_bits, { } ) {
	switch( s.draw( 3 ) ) {
	case 0:
		return rev<std::uint8_t>( s );
	case 1:
		return rev<std::uint16_t>( s );
	case 2:
		return rev<std::uint32_t>( s );
	default:
		return rev<std::uint64_t>( s );
	}
}
