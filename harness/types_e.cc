#include "types_impl.h"
namespace vf {
// Values that need many blocks.
template <typename T, size_t>
using Same = T;
template <typename T, size_t... I>
Tp<Same<T, I>...> Rep(std::index_sequence<I...>);
template <typename T, size_t n>
using Many = decltype(Rep<T>(std::make_index_sequence<n>()));
static std::string Name(const char* leaf, int n) {
  std::string r = "(";
  for (int i = 0; i < n; ++i) r += (i ? "," : "") + std::string(leaf);
  return r + ")";
}
template <typename T, size_t n>
struct BigImpl {
  explicit BigImpl(const char* leaf) : name(Name(leaf, n)), impl(name.c_str()) {}
  std::string name;
  Impl<Many<T, n>> impl;
};
static auto* b1 = new BigImpl<uint8_t, 16>("u8");
static auto* b2 = new BigImpl<uint8_t, 17>("u8");
static auto* b3 = new BigImpl<absl::uint128, 18>("u128");
static auto* b4 = new BigImpl<M<uint64_t, 1000003>, 36>("m64:1000003");
}  // namespace vf
