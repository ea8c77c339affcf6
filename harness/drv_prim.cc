// Primitives: hash families (F01), fixed-key hash (H01), seeded streams (R01),
// basic generator (R02).
#include <cstring>
#include <dlfcn.h>

#include <atomic>
#include <memory>
#include <set>
#include <thread>

#include "common.h"
#include "dcf/fss_gates/prng/basic_rng.h"
#include "dpf/aes_128_fixed_key_hash.h"
#include "farmhash/farmhash.h"
#include "openssl/rand.h"
#include "pir/hashing/farm_hash_family.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"

// Fault injection for the operating system's randomness: passes through to the
// library unless told to fail.
static std::atomic<bool> g_rand_fail{false};
static std::atomic<long> g_rand_calls{0};
extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  static auto real = reinterpret_cast<int (*)(uint8_t*, size_t)>(dlsym(RTLD_NEXT, "RAND_bytes"));
  ++g_rand_calls;
  if (g_rand_fail) return 0;
  return real(buf, len);
}

using namespace distributed_point_functions;
using namespace vf;

namespace {
std::map<int, HashFunction> fns;
std::map<int, std::string> fn_fam;    // "sha" | "farm"
std::map<int, std::string> fn_seed;   // the full seed the function must be using
std::map<int, std::unique_ptr<Aes128CtrSeededPrng>> prngs;
std::map<int, std::unique_ptr<SecurePrng>> rngs;

uint64_t rs;
uint64_t Next64() {  // xorshift: only makes inputs, which are recorded
  rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
  return rs;
}

void EmitCall(Out& out, int id, const std::string& in, int ub, int r, const char* how) {
  Event ev("h");
  ev.str("fam", fn_fam[id]).bytes("seed", fn_seed[id]).bytes("in", in).i("ub", ub).i("r", r).str("how", how);
  if (fn_fam[id] == "farm") {
    auto s = util::Hash128(fn_seed[id].data(), fn_seed[id].size());
    auto h = util::Hash128WithSeed(in.data(), in.size(), s);
    ev.raw("fp", JWord(absl::MakeUint128(h.second, h.first)));
  }
  out.Emit(ev);
}

void Handle(const Op& op, Out& out) {
  if (op.name == "reset") {
    fns.clear(); fn_fam.clear(); fn_seed.clear(); prngs.clear(); rngs.clear();
    out.Emit(Event("new"));
  } else if (op.name == "fn") {  // a function directly from a family
    int id = op.i("id");
    std::string seed = op.bytes("seed");
    HashFamily fam = op.s("fam") == "sha" ? HashFamily(SHA256HashFamily{}) : HashFamily(FarmHashFamily{});
    for (auto& w : op.bs("wrap")) fam = WrapWithSeed(std::move(fam), w);
    std::string full;
    auto ws = op.bs("wrap");
    for (int i = (int)ws.size() - 1; i >= 0; --i) full = full + ws[i];
    // innermost family sees wrap[0] + (... + (wrap[n-1] + seed))
    full.clear();
    for (auto& w : ws) full += w;
    full += seed;
    fns[id] = fam(seed);
    fn_fam[id] = op.s("fam");
    fn_seed[id] = full;
    for (char& c : seed) c = '#';  // the function must own its seed
  } else if (op.name == "mk") {  // several functions from one family
    int n = op.i("n");
    std::string base = op.bytes("seed");
    std::vector<std::string> seen;
    // a family whose functions say which seed they were made from when called
    auto rec = [&seen](absl::string_view s) -> HashFunction {
      std::string copy(s);
      return [copy, &seen](absl::string_view, int) { seen.push_back(copy); return 0; };
    };
    auto r = CreateHashFunctions(HashFamily(rec), n);
    if (r.ok()) for (auto& f : *r) f("x", 1);
    Event ev("mk");
    ev.i("n", n).i("code", Code(r)).raw("seeds", JList(seen, [](const std::string& s) { return JBytes(s); }));
    ev.i("cnt", r.ok() ? (long)r->size() : 0);
    out.Emit(ev);
    if (r.ok() && n > 0) {
      HashFamily fam = op.s("fam") == "farm" ? HashFamily(FarmHashFamily{}) : HashFamily(SHA256HashFamily{});
      if (!base.empty()) fam = WrapWithSeed(std::move(fam), base);
      auto q = CreateHashFunctions(std::move(fam), n);
      if (q.ok()) {
        for (int i = 0; i < (int)q->size(); ++i) {
          int id = op.i("id") + i;
          fns[id] = std::move((*q)[i]);
          fn_fam[id] = op.s("fam", "sha");
          fn_seed[id] = base + std::to_string(i);
        }
      }
    }
  } else if (op.name == "cfg") {
    HashFamilyConfig c;
    c.set_hash_family(static_cast<HashFamilyConfig::HashFamily>(op.i("fam")));
    c.set_seed(op.bytes("seed"));
    auto r = CreateHashFamilyFromConfig(c);
    out.Emit(Event("cfg").i("fam", op.i("fam")).bytes("seed", op.bytes("seed")).i("code", Code(r)));
    if (r.ok()) {
      int id = op.i("id");
      std::string sub = op.bytes("sub");
      std::string seed = op.bytes("seed");
      HashFamily fam = *std::move(r);
      c.set_seed("scribble");
      fns[id] = fam(sub);
      fn_fam[id] = "sha";
      fn_seed[id] = seed + sub;
    }
  } else if (op.name == "call") {
    int id = op.i("id");
    if (!fns.count(id)) return;
    std::string in = op.bytes("in");
    EmitCall(out, id, in, op.i("ub"), fns[id](in, op.i("ub")), "call");
  } else if (op.name == "mv") {  // moved functions keep working
    int id = op.i("id");
    if (!fns.count(id)) return;
    HashFunction f = std::move(fns[id]);
    std::string in = op.bytes("in");
    EmitCall(out, id, in, op.i("ub"), f(in, op.i("ub")), "moved");
    fns[id] = std::move(f);
  } else if (op.name == "big") {  // one very long string, divided between seed and input in several ways
    std::string d;
    size_t n = (size_t(1) << 30) + op.i("over");
    d.resize(n);
    uint64_t x = 88172645463325252ull;
    for (size_t i = 0; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(&d[i], &x, 8); }
    std::vector<int> r;
    for (int at : op.is("at")) {      // the seed is the first at/16 of it
      size_t k = at == 16 ? n : n / 16 * at;
      HashFunction f = SHA256HashFamily{}(absl::string_view(d).substr(0, k));
      r.push_back(f(absl::string_view(d).substr(k), op.i("ub")));
    }
    out.Emit(Event("big").i("over", op.i("over")).i("ub", op.i("ub")).is("r", r));
  } else if (op.name == "callmt") {  // many threads share one function
    int id = op.i("id");
    if (!fns.count(id)) return;
    int nt = op.i("nt"), reps = op.i("reps"), ub = op.i("ub");
    auto ins = op.bs("ins");
    std::vector<std::set<std::pair<int, int>>> got(nt);
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        for (int r = 0; r < reps; ++r)
          for (int i = 0; i < (int)ins.size(); ++i) {
            int k = (i + t) % ins.size();
            got[t].insert({k, fns[id](ins[k], ub)});
          }
      });
    for (auto& t : th) t.join();
    std::set<std::pair<int, int>> all;
    for (auto& g : got) all.insert(g.begin(), g.end());
    int left = 64;
    for (auto& p : all)
      if (left-- > 0) EmitCall(out, id, ins[p.first], ub, p.second, "mt");
  } else if (op.name == "fkh") {
    // Arena of `len` blocks; input at oi, output at oo, both inside the arena.
    u128 key = op.w("key");
    int len = op.i("len"), oi = op.i("oi"), oo = op.i("oo"), n = op.i("n"), m = op.has("m") ? op.i("m") : n;
    rs = op.i("rs") * 2654435761u + 88172645463325252ull;
    std::vector<u128> arena(len);
    for (auto& x : arena) {
      uint64_t a = Next64(), b = Next64();
      x = absl::MakeUint128(a, b);
    }
    if (op.s("pat") == "zero") for (auto& x : arena) x = 0;
    if (op.s("pat") == "ones") for (auto& x : arena) x = ~u128(0);
    if (op.s("pat") == "bit") for (int i = 0; i < len; ++i) arena[i] = u128(1) << (i % 128);
    std::vector<u128> before = arena;
    auto h = Aes128FixedKeyHash::Create(key);
    if (!h.ok()) return;
    Aes128FixedKeyHash hash = *std::move(h);
    if (op.has("mv")) {
      auto h2 = Aes128FixedKeyHash::Create(~key);
      Aes128FixedKeyHash moved = std::move(hash);
      hash = *std::move(h2);
      hash = std::move(moved);
    }
    absl::Status st = hash.Evaluate(absl::MakeConstSpan(arena.data() + oi, n), absl::MakeSpan(arena.data() + oo, m));
    out.Emit(Event("fkh").w("key", key).w("key2", hash.key()).i("oi", oi).i("oo", oo).i("n", n).i("m", m)
                 .i("code", Code(st)).ws("before", before).ws("after", arena));
  } else if (op.name == "fkhmt") {
    u128 key = op.w("key");
    int nt = op.i("nt"), n = op.i("n"), reps = op.i("reps");
    rs = op.i("rs") * 2654435761u + 88172645463325252ull;
    auto h = Aes128FixedKeyHash::Create(key);
    if (!h.ok()) return;
    std::vector<std::vector<u128>> ins(nt, std::vector<u128>(n));
    for (auto& v : ins) for (auto& x : v) { uint64_t a = Next64(), b = Next64(); x = absl::MakeUint128(a, b); }
    std::vector<std::vector<std::vector<u128>>> outs(nt);
    std::atomic<int> codes{0};
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back([&, t] {
        std::vector<u128> o(n);
        for (int r = 0; r < reps; ++r) {
          absl::Status st = h->Evaluate(ins[t], absl::MakeSpan(o));
          if (!st.ok()) codes = Code(st);
          bool seen = false;
          for (auto& p : outs[t]) seen = seen || p == o;
          if (!seen && outs[t].size() < 3) outs[t].push_back(o);
        }
      });
    for (auto& t : th) t.join();
    for (int t = 0; t < nt; ++t)
      for (auto& o : outs[t]) {
        std::vector<u128> before = ins[t], after = ins[t];
        before.insert(before.end(), n, u128(0));
        after.insert(after.end(), o.begin(), o.end());
        out.Emit(Event("fkh").w("key", key).w("key2", h->key()).i("oi", 0).i("oo", n).i("n", n).i("m", n)
                     .i("code", codes).ws("before", before).ws("after", after));
      }
  } else if (op.name == "prng") {
    int id = op.i("id");
    std::string seed = op.bytes("seed"), nonce = op.bytes("nonce");
    bool has = op.has("nonce");
    auto r = has ? Aes128CtrSeededPrng::CreateWithNonce(seed, nonce) : Aes128CtrSeededPrng::Create(seed);
    out.Emit(Event("prng").i("id", id).bytes("seed", seed).i("has", has).bytes("nonce", nonce).i("code", Code(r))
                 .i("ss", Aes128CtrSeededPrng::SeedSize()));
    prngs.erase(id);
    if (r.ok()) prngs[id] = *std::move(r);
  } else if (op.name == "get") {
    int id = op.i("id");
    if (!prngs.count(id)) return;
    std::string o = prngs[id]->GetRandomBytes(op.i("n"));
    out.Emit(Event("get").i("id", id).i("n", op.i("n")).bytes("out", o));
  } else if (op.name == "skip") {   // a long draw of which only the last bytes are recorded
    int id = op.i("id");
    if (!prngs.count(id)) return;
    std::string o = prngs[id]->GetRandomBytes(op.i("n"));
    long k = op.i("tail");
    out.Emit(Event("skip").i("id", id).i("n", op.i("n")).i("len", o.size()).i("tail", k)
                 .bytes("out", absl::string_view(o).substr(o.size() < (size_t)k ? 0 : o.size() - k)));
  } else if (op.name == "seeds") {
    std::vector<std::string> v;
    int code = 0;
    for (int i = 0; i < op.i("n"); ++i) {
      auto r = Aes128CtrSeededPrng::GenerateSeed();
      if (!r.ok()) code = Code(r); else v.push_back(*r);
    }
    out.Emit(Event("seeds").i("code", code).i("n", op.i("n"))
                 .raw("out", JList(v, [](const std::string& s) { return JBytes(s); })));
  } else if (op.name == "rng") {   // w=8,64,128,... one draw per width
    int id = op.i("id");
    if (!rngs.count(id)) {
      auto r = BasicRng::Create(op.bytes("seed"));
      if (!r.ok()) return;
      rngs[id] = *std::move(r);
    }
    std::vector<std::string> d;
    for (int w : op.is("w")) {
      if (w == 8) {
        auto r = rngs[id]->Rand8();
        d.push_back("{\"w\":8,\"code\":" + JInt(Code(r)) + ",\"v\":" + (r.ok() ? JWord(*r, 8) : "[]") + "}");
      } else if (w == 64) {
        auto r = rngs[id]->Rand64();
        d.push_back("{\"w\":64,\"code\":" + JInt(Code(r)) + ",\"v\":" + (r.ok() ? JWord(*r, 64) : "[]") + "}");
      } else {
        auto r = rngs[id]->Rand128();
        d.push_back("{\"w\":128,\"code\":" + JInt(Code(r)) + ",\"v\":" + (r.ok() ? JWord(*r, 128) : "[]") + "}");
      }
    }
    out.Emit(Event("rng").i("id", id).raw("d", JList(d, [](const std::string& s) { return s; })));
  } else if (op.name == "rngfail") {
    auto r = BasicRng::Create("");
    if (!r.ok()) return;
    auto rng = *std::move(r);
    g_rand_calls = 0;
    g_rand_fail = true;
    int code = op.i("w") == 8 ? Code(rng->Rand8()) : op.i("w") == 64 ? Code(rng->Rand64()) : Code(rng->Rand128());
    g_rand_fail = false;
    out.Emit(Event("rngfail").i("w", op.i("w")).i("calls", g_rand_calls).i("code", code));
  }
}
}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, Handle); }
