// Stand-in for Tink's HybridDecrypt interface; /repo includes the header but
// only calls it through a std::function-like wrapper.
#ifndef VERIF_SHIM_TINK_HYBRID_DECRYPT_H_
#define VERIF_SHIM_TINK_HYBRID_DECRYPT_H_
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace crypto { namespace tink {
class HybridDecrypt {
 public:
  virtual absl::StatusOr<std::string> Decrypt(absl::string_view ct, absl::string_view ctx) const = 0;
  virtual ~HybridDecrypt() {}
};
} }
#endif
