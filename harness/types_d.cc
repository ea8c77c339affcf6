#include "types_impl.h"
namespace vf {
VT("(u32,m32:4294967291)", Tp<uint32_t, M<uint32_t, 4294967291u>>)
VT("(m32:4294967291,u32)", Tp<M<uint32_t, 4294967291u>, uint32_t>)
VT("(m64:18446744073709551557,u8,u128)", Tp<M<uint64_t, 18446744073709551557ull>, uint8_t, absl::uint128>)
VT("(u8,m16:65521,x16,m16:65521)", Tp<uint8_t, M<uint16_t, 65521>, X<uint16_t>, M<uint16_t, 65521>>)
VT("(m32:3,(m32:4294967291,u16),u8)", Tp<M<uint32_t, 3>, Tp<M<uint32_t, 4294967291u>, uint16_t>, uint8_t>)
VT("((m8:251,u8),(m8:2,x8))", Tp<Tp<M<uint8_t, 251>, uint8_t>, Tp<M<uint8_t, 2>, X<uint8_t>>>)
VT("(m32:4294967291,m32:4294967291,(u128,u128,u128))", Tp<M<uint32_t, 4294967291u>, M<uint32_t, 4294967291u>, Tp<absl::uint128, absl::uint128, absl::uint128>>)
VT("(m64:1000003,u32,u32,u32,u32)", Tp<M<uint64_t, 1000003>, uint32_t, uint32_t, uint32_t, uint32_t>)
}  // namespace vf
