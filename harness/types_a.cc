#include "types_impl.h"
namespace vf {
VT("u8", uint8_t)
VT("u16", uint16_t)
VT("u32", uint32_t)
VT("u64", uint64_t)
VT("u128", absl::uint128)
VT("x8", X<uint8_t>)
VT("x16", X<uint16_t>)
VT("x32", X<uint32_t>)
VT("x64", X<uint64_t>)
VT("x128", X<absl::uint128>)
}  // namespace vf
