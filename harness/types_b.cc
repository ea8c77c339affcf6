#include "types_impl.h"
namespace vf {
// modulus tags: a = 2^b - small prime distance, s = small, p = power of two
VT("m8:251", M<uint8_t, 251>)
VT("m8:2", M<uint8_t, 2>)
VT("m16:65521", M<uint16_t, 65521>)
VT("m32:4294967291", M<uint32_t, 4294967291u>)
VT("m32:3", M<uint32_t, 3>)
VT("m32:2147483648", M<uint32_t, 2147483648u>)
VT("m64:18446744073709551557", M<uint64_t, 18446744073709551557ull>)
VT("m64:1000003", M<uint64_t, 1000003>)
VT("m128:1208925819614629174706111", M<absl::uint128, P2(80) - 65>)
VT("m128:18446744073709551629", M<absl::uint128, P2(64) + 13>)
VT("(m32:4294967291,m32:4294967291,m32:4294967291)", Tp<M<uint32_t, 4294967291u>, M<uint32_t, 4294967291u>, M<uint32_t, 4294967291u>>)
VT("(m8:251,m8:251)", Tp<M<uint8_t, 251>, M<uint8_t, 251>>)
}  // namespace vf
