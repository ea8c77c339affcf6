#include "types_impl.h"
namespace vf {
VT("(u8)", Tp<uint8_t>)
VT("(u8,u8)", Tp<uint8_t, uint8_t>)
VT("(u8,u16)", Tp<uint8_t, uint16_t>)
VT("(u32,u64)", Tp<uint32_t, uint64_t>)
VT("(u64,u64)", Tp<uint64_t, uint64_t>)
VT("(u32,u32,u32)", Tp<uint32_t, uint32_t, uint32_t>)
VT("(u64,u64,u64)", Tp<uint64_t, uint64_t, uint64_t>)
VT("(u128,u128)", Tp<absl::uint128, absl::uint128>)
VT("(x8,u8)", Tp<X<uint8_t>, uint8_t>)
VT("((u8,u16),u32)", Tp<Tp<uint8_t, uint16_t>, uint32_t>)
VT("(x64,(u8,x32))", Tp<X<uint64_t>, Tp<uint8_t, X<uint32_t>>>)
}  // namespace vf
