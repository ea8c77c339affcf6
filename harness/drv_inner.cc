// Inner products over explicit memory: records at chosen alignments, surrounded
// by other bytes, for every instruction set the machine offers.
//   ip n= len=l1,l2,.. al=a1,a2,.. pat= rs= sel=<bits per selection> nb=<blocks> ns= [max=] [tg=k | nohwy]
#include <random>

#include "common.h"
#include "hwy/highway.h"
#include "pir/canonical_status_payload_uris.h"
#include "pir/internal/inner_product_hwy.h"
#include "pir/private_information_retrieval.pb.h"
namespace dp = distributed_point_functions;
namespace pi = distributed_point_functions::pir_internal;
using namespace vf;

int main(int argc, char** argv) {
  return Main(argc, argv, [](Op& op, Out& out) {
    if (op.name == "targets") {
      hwy::SetSupportedTargetsForTest(0);
      out.Emit(Event("targets").i("n", __builtin_popcountll(hwy::SupportedTargets() & HWY_TARGETS)));
      return;
    }
    std::mt19937_64 r(op.i("rs"));
    const long n = op.i("n"), ns = op.i("ns");
    std::vector<int> len = op.is("len"), al = op.is("al");
    std::vector<size_t> off;
    size_t at = 0, longest = 0;
    for (long i = 0; i < n; ++i) {
      size_t l = len[i % len.size()];
      at = (at + 127) / 64 * 64 + al[i % al.size()];
      off.push_back(at);
      at += l;
      longest = std::max(longest, l);
    }
    std::vector<char> raw(at + 256);
    char* base = raw.data() + (64 - reinterpret_cast<uintptr_t>(raw.data()) % 64) % 64;
    for (char* p = base; p < raw.data() + raw.size(); ++p) *p = char(0xC0 | (r() >> 33));
    std::vector<absl::string_view> vals;
    for (long i = 0; i < n; ++i) {
      size_t l = len[i % len.size()];
      for (size_t k = 0; k < l; ++k)
        base[off[i] + k] = op.s("pat") == "0" ? 0 : op.s("pat") == "1" ? char(255) : char(r() >> 20);
      vals.push_back(l ? absl::string_view(base + off[i], l) : absl::string_view());
    }
    std::vector<int> nb = op.is("nb");
    std::vector<std::vector<pi::BlockType>> sel(ns);
    for (long i = 0; i < ns; ++i) {
      for (int b = 0; b < nb[i % nb.size()]; ++b) {
        u128 x = absl::MakeUint128(r(), r());
        std::string how = op.s("sel");
        if (how == "0") x = 0;
        if (how == "1") x = ~u128(0);
        if (how == "one") {   // exactly one record
          long k = r() % std::max(1L, n);
          x = k / 128 == b ? u128(1) << (k % 128) : u128(0);
        }
        if (how == "beyond") {   // only bits behind the last record
          long lo = std::max(0L, std::min(128L, n - 128L * b));
          x = lo == 128 ? u128(0) : (~u128(0)) << lo;
        }
        sel[i].push_back(pi::BlockType(x));
      }
    }
    long max = op.has("max") ? op.i("max") : longest + op.i("more");
    Event e("ip");
    e.raw("vals", JList(vals, [](absl::string_view v) { return JBytes(v); }));
    e.raw("sel", JList(sel, [](const std::vector<pi::BlockType>& s) {
      return JList(s, [](const pi::BlockType& b) { return JWord(b.value()); });
    }));
    e.i("max", max);
    std::string before(raw.begin(), raw.end());
    absl::StatusOr<std::vector<std::string>> res;
    if (op.has("nohwy")) {
      res = pi::InnerProductNoHwy(vals, sel, max);
      e.str("tg", "none");
    } else {
      hwy::SetSupportedTargetsForTest(0);
      int64_t all = hwy::SupportedTargets() & HWY_TARGETS, pick = 0;
      int k = op.i("tg") % __builtin_popcountll(all);
      for (int64_t m = all; m; m &= m - 1, --k)
        if (k == 0) pick = m & -m;
      hwy::SetSupportedTargetsForTest(pick);
      hwy::GetChosenTarget().Update(pick);
      res = pi::InnerProduct(vals, sel, max);
      e.str("tg", hwy::TargetName(pick));
    }
    int pay = -1;
    if (auto p = res.status().GetPayload(dp::kPirInternalErrorUri)) {
      dp::CanonicalPirError err;
      pay = err.ParseFromString(std::string(*p)) ? err.code() : -2;
    }
    e.i("code", Code(res)).i("pay", pay).i("kept", before == std::string(raw.begin(), raw.end()));
    e.raw("res", res.ok() ? JList(*res, [](const std::string& s) { return JBytes(s); }) : "[]");
    out.Emit(e);
  });
}
