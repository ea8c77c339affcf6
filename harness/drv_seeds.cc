// Calls dpf_internal::EvaluateSeeds on chosen buffers and instruction sets.
#include <sys/mman.h>

#include <cstring>
#include <random>

#include "common.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "dpf/internal/evaluate_prg_hwy.h"
#include "hwy/targets.h"
using namespace vf;
namespace dp = distributed_point_functions;
namespace di = dp::dpf_internal;

// n bytes that start `off` bytes after a 64-byte boundary (off < 0: that end at
// an inaccessible page), with marked bytes around them.
struct Buf {
  char* map;
  size_t len, total;
  char* p;
  Buf(size_t n, int off) : len(n) {
    total = ((n + 4096 + 4095) / 4096 + 1) * 4096;
    map = static_cast<char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    memset(map, 0xA5, total - 4096);
    mprotect(map + total - 4096, 4096, PROT_NONE);
    p = off < 0 ? map + total - 4096 - n : map + total - 4096 - ((n + off + 63) / 64) * 64 + off;
  }
  Buf(const Buf&) = delete;
  ~Buf() { munmap(map, total); }
  bool Intact() const {
    for (char* c = map; c < map + total - 4096; ++c)
      if ((c < p || c >= p + len) && *c != static_cast<char>(0xA5)) return false;
    return true;
  }
  u128* w() { return reinterpret_cast<u128*>(p); }
  bool* b() { return reinterpret_cast<bool*>(p); }
};

static std::vector<int> Bits(const bool* p, size_t n) {
  std::vector<int> r;
  for (size_t i = 0; i < n; ++i) r.push_back(reinterpret_cast<const unsigned char*>(p)[i]);
  return r;
}

int main(int argc, char** argv) {
  return Main(argc, argv, [](Op& op, Out& out) {
    if (op.name == "targets") {   // how many instruction sets there are
      hwy::SetSupportedTargetsForTest(0);
      out.Emit(Event("targets").i("n", __builtin_popcountll(hwy::SupportedTargets() & HWY_TARGETS)));
      return;
    }
    const long n = op.i("n"), lv = op.i("lv"), ncw = op.i("ncw"), sh = op.i("sh");
    std::mt19937_64 r(op.i("rs"));
    std::vector<int> al = op.is("al");
    Buf s(16 * n, 16 * al[0]), p(16 * n, 16 * al[1]), cs(16 * ncw, 16 * al[2]), so(16 * n, 16 * al[3]);
    Buf t(n, -1), cl(ncw, -1), cr(ncw, -1), to(n, -1);
    auto word = [&]() { u128 x = absl::MakeUint128(r(), r()); return x; };
    auto bits = [&](bool* b, long m, const std::string& how) {
      for (long i = 0; i < m; ++i) b[i] = how == "0" ? false : how == "1" ? true : (r() >> 20) & 1;
    };
    for (long i = 0; i < n; ++i) s.w()[i] = word();
    if (op.s("pat") == "same") for (long i = 1; i < n; ++i) s.w()[i] = s.w()[0];
    for (long i = 0; i < n; ++i) p.w()[i] = op.s("pp") == "0" ? u128(0) : op.s("pp") == "1" ? ~u128(0) : op.s("pp") == "hi" ? u128(1) << (r() % 128) : word();
    for (long i = 0; i < ncw; ++i) cs.w()[i] = word();
    bits(t.b(), n, op.s("t"));
    bits(cl.b(), ncw, op.s("cl"));
    bits(cr.b(), ncw, op.s("cr"));
    u128 kl = op.w("kl"), kr = op.w("kr");
    auto hl = dp::Aes128FixedKeyHash::Create(kl), hr = dp::Aes128FixedKeyHash::Create(kr);
    Event e("ev");
    e.i("n", n).i("lv", lv).i("ncw", ncw).i("sh", sh).w("kl", kl).w("kr", kr);
    std::vector<u128> s0(s.w(), s.w() + n), p0(p.w(), p.w() + n), cs0(cs.w(), cs.w() + ncw);
    std::vector<int> t0 = Bits(t.b(), n), cl0 = Bits(cl.b(), ncw), cr0 = Bits(cr.b(), ncw);
    e.ws("s", s0).is("t", t0).ws("p", p0).ws("cs", cs0).is("cl", cl0).is("cr", cr0);
    absl::Status st;
    if (op.has("nohwy")) {
      st = di::EvaluateSeedsNoHwy(n, lv, ncw, s.w(), t.b(), p.w(), sh, cs.w(), cl.b(), cr.b(), *hl, *hr, so.w(), to.b());
    } else {
      hwy::SetSupportedTargetsForTest(0);
      int64_t all = hwy::SupportedTargets() & HWY_TARGETS, pick = 0;
      int k = op.i("tg") % __builtin_popcountll(all);
      for (int64_t m = all; m; m &= m - 1, --k)
        if (k == 0) pick = m & -m;
      hwy::SetSupportedTargetsForTest(pick);
      hwy::GetChosenTarget().Update(pick);
      st = di::EvaluateSeeds(n, lv, ncw, s.w(), t.b(), p.w(), sh, cs.w(), cl.b(), cr.b(), *hl, *hr, so.w(), to.b());
    }
    e.i("code", Code(st)).ws("so", std::vector<u128>(so.w(), so.w() + n)).is("to", Bits(to.b(), n));
    bool kept = s0 == std::vector<u128>(s.w(), s.w() + n) && p0 == std::vector<u128>(p.w(), p.w() + n) &&
                cs0 == std::vector<u128>(cs.w(), cs.w() + ncw) && t0 == Bits(t.b(), n) && cl0 == Bits(cl.b(), ncw) &&
                cr0 == Bits(cr.b(), ncw);
    for (Buf* b : {&s, &p, &cs, &so, &t, &cl, &cr, &to}) kept = kept && b->Intact();
    e.i("kept", kept);
    out.Emit(e);
  });
}
