#ifndef VERIF_SHIM_TINK_HYBRID_ENCRYPT_H_
#define VERIF_SHIM_TINK_HYBRID_ENCRYPT_H_
#include <string>
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
namespace crypto { namespace tink {
class HybridEncrypt {
 public:
  virtual absl::StatusOr<std::string> Encrypt(absl::string_view pt, absl::string_view ctx) const = 0;
  virtual ~HybridEncrypt() {}
};
} }
#endif
