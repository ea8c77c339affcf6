// Stand-in for Abseil's absl/log/absl_check.h (absent from the installed
// Abseil 20220623). Same semantics: CHECK aborts with a message, DCHECK is
// active unless NDEBUG is defined.
#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>
namespace verif_shim {
class FatalMessage {
 public:
  FatalMessage(const char* file, int line, const char* cond) {
    os_ << file << ":" << line << ": CHECK failed: " << cond << " ";
  }
  [[noreturn]] ~FatalMessage() {
    std::fprintf(stderr, "%s\n", os_.str().c_str());
    std::abort();
  }
  std::ostream& stream() { return os_; }
 private:
  std::ostringstream os_;
};
struct Voidify { void operator&(const std::ostream&) const {} };
}  // namespace verif_shim
#define ABSL_CHECK(c)                                                     \
  (c) ? (void)0                                                           \
      : ::verif_shim::Voidify() &                                         \
            ::verif_shim::FatalMessage(__FILE__, __LINE__, #c).stream()
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) ABSL_CHECK((a) != (b))
#define ABSL_CHECK_LT(a, b) ABSL_CHECK((a) < (b))
#define ABSL_CHECK_LE(a, b) ABSL_CHECK((a) <= (b))
#define ABSL_CHECK_GT(a, b) ABSL_CHECK((a) > (b))
#define ABSL_CHECK_GE(a, b) ABSL_CHECK((a) >= (b))
#define ABSL_CHECK_OK(s) ABSL_CHECK((s).ok())
#define ABSL_QCHECK ABSL_CHECK
#ifdef NDEBUG
#define ABSL_DCHECK(c) ABSL_CHECK(true || (c))
#else
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#endif
#define ABSL_DCHECK_EQ(a, b) ABSL_DCHECK((a) == (b))
#define ABSL_DCHECK_NE(a, b) ABSL_DCHECK((a) != (b))
#define ABSL_DCHECK_LT(a, b) ABSL_DCHECK((a) < (b))
#define ABSL_DCHECK_LE(a, b) ABSL_DCHECK((a) <= (b))
#define ABSL_DCHECK_GT(a, b) ABSL_DCHECK((a) > (b))
#define ABSL_DCHECK_GE(a, b) ABSL_DCHECK((a) >= (b))
#define ABSL_DCHECK_OK(s) ABSL_DCHECK((s).ok())
#endif
