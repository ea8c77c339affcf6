BUGS = []
EV = "dpf/internal/evaluate_prg_hwy.cc"
DC, DH = "dpf/distributed_point_function.cc", "dpf/distributed_point_function.h"
HEAD = r'''
#include <cstdio>
#include <vector>
#include "dpf/distributed_point_function.h"
using namespace distributed_point_functions;
using u128 = absl::uint128;
#define CHECK(x, ...) do { if (!(x)) { printf("WRONG: " __VA_ARGS__); printf("\n"); return 1; } } while (0)
#define NEED(x) do { if (!(x)) { printf("cannot run: %s\n", #x); return 2; } } while (0)
template <typename T> DpfParameters P(int log_domain) {
  DpfParameters p; p.set_log_domain_size(log_domain);
  *p.mutable_value_type() = ToValueType<T>();
  return p;
}
'''
BUGS.append(dict(id="D01-far-level-packing", property="D01", checks=["D01", "D05"],
 needs="an incremental DPF whose last level is at least 64 bits longer than an earlier level with a packed (smaller than 128 bit) value type, and an alpha with a non-zero block index there",
 breaks="the value of the earlier level lands at the wrong position inside its block",
 edits=[(DC, "    if (shift_amount < 128) {\n      alpha_prefix", "    if (shift_amount < 64) {\n      alpha_prefix")],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  auto dpf = DistributedPointFunction::CreateIncremental(std::vector<DpfParameters>{P<uint32_t>(6), P<uint32_t>(100)});
  NEED(dpf.ok());
  u128 alpha = (u128{45} << 94) + 12345;
  auto k = (*dpf)->GenerateKeysIncremental(alpha, uint32_t{23}, uint32_t{42});
  NEED(k.ok());
  auto c0 = (*dpf)->CreateEvaluationContext(k->first), c1 = (*dpf)->CreateEvaluationContext(k->second);
  NEED(c0.ok() && c1.ok());
  auto e0 = (*dpf)->EvaluateUntil<uint32_t>(0, {}, *c0), e1 = (*dpf)->EvaluateUntil<uint32_t>(0, {}, *c1);
  NEED(e0.ok() && e1.ok());
  for (int i = 0; i < 64; ++i) {
    uint32_t v = (*e0)[i] + (*e1)[i];
    CHECK(v == (i == 45 ? 23u : 0u), "position %d holds %u", i, v);
  }
  return 0;
}
'''))
BUGS.append(dict(id="D02-deep-resume", property="D02",
 needs="a context with saved partial evaluations that is carried on 64 or more tree levels further down in one step",
 breaks="the saved state of prefix 0 is used whatever the prefix",
 edits=[(DC, "      if (stop_level - start_level < 128) {\n        previous_prefix", "      if (stop_level - start_level < 64) {\n        previous_prefix")],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  auto dpf = DistributedPointFunction::CreateIncremental(std::vector<DpfParameters>{P<u128>(3), P<u128>(10), P<u128>(90)});
  NEED(dpf.ok());
  u128 alpha = (u128{5} << 87) + 777;
  auto k = (*dpf)->GenerateKeysIncremental(alpha, u128{1}, u128{2}, u128{3});
  NEED(k.ok());
  auto c = (*dpf)->CreateEvaluationContext(k->first);
  NEED(c.ok());
  std::vector<u128> p0, points = {alpha, alpha + 1, (u128{2} << 87) + 5};
  for (auto x : points) p0.push_back(x >> 87);
  NEED((*dpf)->EvaluateAt<u128>(0, p0, *c).ok());
  auto a = (*dpf)->EvaluateAt<u128>(2, points, *c);
  auto b = (*dpf)->EvaluateAt<u128>(k->first, 2, points);
  NEED(b.ok());
  CHECK(a.ok(), "%s", std::string(a.status().message()).c_str());
  CHECK(*a == *b, "resumed evaluation differs from a direct one");
  return 0;
}
'''))
BUGS.append(dict(id="D03-apply-far-level", property="D03",
 needs="EvaluateAndApply with a packed value type and a level at least 64 bits above the last one",
 breaks="the callback gets the share of another position of the same block",
 edits=[(DH, "elements_per_block > 1 && domain_index_rightshift < 128", "elements_per_block > 1 && domain_index_rightshift < 64")],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  auto dpf = DistributedPointFunction::CreateIncremental(std::vector<DpfParameters>{P<uint16_t>(9), P<uint16_t>(80)});
  NEED(dpf.ok());
  u128 alpha = (u128{333} << 71) + 5;
  auto k = (*dpf)->GenerateKeysIncremental(alpha, uint16_t{7}, uint16_t{8});
  NEED(k.ok());
  std::vector<uint16_t> got;
  std::vector<u128> pts = {alpha};
  NEED((*dpf)->EvaluateAndApply<uint16_t>(absl::MakeConstSpan(&k->first, 1), pts,
      [&](absl::Span<const uint16_t> v) { got.push_back(v[0]); return true; }).ok());
  auto a = (*dpf)->EvaluateAt<uint16_t>(k->first, 0, std::vector<u128>{alpha >> 71});
  auto b = (*dpf)->EvaluateAt<uint16_t>(k->first, 1, pts);
  NEED(a.ok() && b.ok() && got.size() == 2);
  CHECK(got[0] == (*a)[0], "level 0: %d instead of %d", got[0], (*a)[0]);
  CHECK(got[1] == (*b)[0], "level 1 differs");
  return 0;
}
'''))
BUGS.append(dict(id="D05-xor-counter", property="D05",
 needs="a value type of three or more blocks and a seed whose second lowest bit is set",
 breaks="key generation and evaluation agree with each other but no longer hash seed+0, seed+1, ... as announced, so keys of other builds are evaluated wrongly",
 edits=[(DC, "      hashed_expansion[i * blocks_needed + j] = expansion[i] + j;", "      hashed_expansion[i * blocks_needed + j] = expansion[i] ^ absl::uint128(j);"),
        (DC, '''  std::iota(expanded_seed_a.begin(), expanded_seed_a.end(), seeds[0]);
  std::iota(expanded_seed_b.begin(), expanded_seed_b.end(), seeds[1]);
''', '''  for (int i = 0; i < blocks_needed; ++i) {
    expanded_seed_a[i] = seeds[0] ^ absl::uint128(i);
    expanded_seed_b[i] = seeds[1] ^ absl::uint128(i);
  }
''')],
 libs=["dpf"], cc=HEAD + r'''
#include "dpf/aes_128_fixed_key_hash.h"
int main() {
  using T = Tuple<u128, u128, u128, u128>;
  auto dpf = DistributedPointFunction::Create(P<T>(2));
  NEED(dpf.ok() && (*dpf)->RegisterValueType<T>().ok());
  // The documented value key.
  auto h = Aes128FixedKeyHash::Create(absl::MakeUint128(0x05a5d1588c5423e3ULL, 0x46a31101b21d1c98ULL));
  auto hl = Aes128FixedKeyHash::Create(absl::MakeUint128(0x5be037ccf6a03de5ULL, 0x935f08d0a5b6a2fdULL));
  auto hr = Aes128FixedKeyHash::Create(absl::MakeUint128(0xef94b6aedebb026cULL, 0xe2ea1fe0f66f4d0bULL));
  NEED(h.ok() && hl.ok() && hr.ok());
  for (int n = 0; n < 40; ++n) {
    auto k = (*dpf)->GenerateKeys(1, T(u128{1}, u128{2}, u128{3}, u128{4}));
    NEED(k.ok());
    const DpfKey& key = k->first;
    auto v = (*dpf)->EvaluateAt<T>(key, 0, std::vector<u128>{2});
    NEED(v.ok() && key.correction_words_size() == 2);
    u128 s = absl::MakeUint128(key.seed().high(), key.seed().low());
    bool t = false;
    for (int l = 0; l < 2; ++l) {
      bool right = l == 0;
      u128 o;
      NEED((right ? *hr : *hl).Evaluate(absl::MakeConstSpan(&s, 1), absl::MakeSpan(&o, 1)).ok());
      const CorrectionWord& c = key.correction_words(l);
      if (t) o ^= absl::MakeUint128(c.seed().high(), c.seed().low());
      bool t2 = (o & 1) != 0;
      if (t) t2 ^= right ? c.control_right() : c.control_left();
      s = o & ~u128{1};
      t = t2;
    }
    u128 in[4] = {s, s + 1, s + 2, s + 3}, out[4];
    NEED(h->Evaluate(in, absl::MakeSpan(out)).ok());
    u128 got[4] = {std::get<0>((*v)[0].value()), std::get<1>((*v)[0].value()), std::get<2>((*v)[0].value()), std::get<3>((*v)[0].value())};
    for (int i = 0; i < 4; ++i) {
      u128 want = out[i];
      if (t) {
        auto x = key.last_level_value_correction(0).tuple().elements(i).integer();
        want += x.has_value_uint128() ? absl::MakeUint128(x.value_uint128().high(), x.value_uint128().low()) : u128{x.value_uint64()};
      }
      CHECK(got[i] == want, "component %d is not that of the published construction", i);
    }
  }
  return 0;
}
'''))
PV = "dpf/internal/proto_validator.cc"
BUGS.append(dict(id="D04-default-security", property="D04",
 needs="an evaluation context whose parameters leave the security parameter at its default 0 (as made by a client that copies its own parameters)",
 breaks="a context that fits the DPF is refused",
 edits=[(PV, '''          (rhs.security_parameter() == 0 &&
           AlmostEqual(lhs.security_parameter(),
                       GetDefaultSecurityParameter(lhs))))) {''', '''          (rhs.security_parameter() == 0 &&
           AlmostEqual(lhs.security_parameter(),
                       ProtoValidator::kDefaultSecurityParameter)))) {''')],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  std::vector<DpfParameters> ps{P<uint32_t>(4), P<uint32_t>(8)};
  auto dpf = DistributedPointFunction::CreateIncremental(ps);
  NEED(dpf.ok());
  auto k = (*dpf)->GenerateKeysIncremental(7, uint32_t{7}, uint32_t{8});
  NEED(k.ok());
  auto c = (*dpf)->CreateEvaluationContext(k->first);
  NEED(c.ok());
  for (int i = 0; i < 2; ++i) *c->mutable_parameters(i) = ps[i];
  auto e = (*dpf)->EvaluateUntil<uint32_t>(0, {}, *c);
  CHECK(e.ok(), "a good context was refused: %s", std::string(e.status().message()).c_str());
  return 0;
}
'''))
BUGS.append(dict(id="D04-middle-correction", property="D04",
 needs="a key of a DPF with at least two levels whose value corrections of the second last level are missing",
 breaks="the malformed key is accepted and a context made from it",
 edits=[(PV, "    if (hierarchy_to_tree_[i] == tree_levels_needed_ - 1) {", "    if (hierarchy_to_tree_[i] >= key.correction_words_size() - 1) {")],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  std::vector<DpfParameters> ps{P<u128>(4), P<u128>(7), P<u128>(8)};
  auto dpf = DistributedPointFunction::CreateIncremental(ps);
  NEED(dpf.ok());
  auto k = (*dpf)->GenerateKeysIncremental(7, u128{7}, u128{8}, u128{9});
  NEED(k.ok());
  DpfKey key = k->first;
  CHECK((*dpf)->CreateEvaluationContext(key).ok(), "good key refused");
  key.mutable_correction_words(7)->clear_value_correction();
  CHECK(!(*dpf)->CreateEvaluationContext(key).ok(), "a key without corrections for level 1 was accepted");
  return 0;
}
'''))
IM = "dpf/int_mod_n.h"
BUGS.append(dict(id="D06-add-overflow", property="D06",
 needs="a modulus above half of its base integer's range and two operands whose sum leaves that range",
 breaks="in-place and out-of-place addition give a value that is not the sum modulo N",
 edits=[(IM, "    SubtractBaseInteger(kModulus - a);", "    value_ += a;\n    if (value_ >= kModulus) {\n      value_ -= kModulus;\n    }")],
 libs=["dpf"], cc=HEAD + r'''
#include "dpf/int_mod_n.h"
template <typename T, typename B> bool Bad(B n) {
  B x[] = {0, 1, 2, static_cast<B>(n / 2), static_cast<B>(n / 2 + 1), static_cast<B>(n - 2), static_cast<B>(n - 1)};
  for (B a : x) for (B b : x) {
    B want = a >= n - b ? a - (n - b) : a + b;
    if ((T(a) + T(b)).value() != want) return true;
  }
  return false;
}
int main() {
  CHECK((!Bad<IntModN<uint32_t, 4294967291u>, uint32_t>(4294967291u)), "32 bits");
  CHECK((!Bad<IntModN<uint64_t, 18446744073709551557ull>, uint64_t>(18446744073709551557ull)), "64 bits");
  CHECK((!Bad<IntModN<uint16_t, 1021>, uint16_t>(1021)), "16 bits");
  return 0;
}
'''))
BUGS.append(dict(id="D06-narrow-quotient", property="D06",
 needs="two or more samples drawn at once from bytes whose quotient exceeds 64 bits",
 breaks="the second and later samples are not the announced function of the bytes (high bits of the running quotient are lost)",
 edits=[(IM, "        r /= kModulus;\n", "        r = absl::Uint128Low64(r / kModulus);\n")],
 libs=["dpf"], cc=HEAD + r'''
#include "dpf/int_mod_n.h"
int main() {
  using T = IntModN<uint32_t, 4294967291u>;
  std::string bytes;
  for (int i = 0; i < 24; ++i) bytes.push_back(char(255 - 7 * i));
  std::vector<T> s(3);
  T::UnsafeSampleFromBytes(bytes, 0, absl::MakeSpan(s));
  unsigned __int128 r = 0;
  memcpy(&r, bytes.data(), 16);
  for (int i = 0; i < 3; ++i) {
    uint32_t want = r % 4294967291u, next = 0;
    CHECK(s[i].value() == want, "sample %d is %u, not %u", i, s[i].value(), want);
    if (i < 2) { memcpy(&next, bytes.data() + 16 + 4 * i, 4); r = ((r / 4294967291u) << 32) | next; }
  }
  return 0;
}
'''))
VH = "dpf/internal/value_type_helpers.h"
BUGS.append(dict(id="D06-tuple-size-prefix", property="D06", checks=["D06", "D04"],
 needs="decoding a tuple message with more elements than the type has",
 breaks="surplus elements are silently dropped instead of being refused",
 edits=[(VH, "    if (value.tuple().elements_size() != tuple_size) {", "    if (value.tuple().elements_size() < tuple_size) {")],
 libs=["dpf"], cc=HEAD + r'''
#include "dpf/internal/value_type_helpers.h"
int main() {
  using T2 = Tuple<uint8_t, uint16_t>; using T3 = Tuple<uint8_t, uint16_t, uint16_t>;
  Value v = dpf_internal::ValueTypeHelper<T3>::ToValue(T3(uint8_t{1}, uint16_t{2}, uint16_t{3}));
  CHECK(dpf_internal::ValueTypeHelper<T3>::FromValue(v).ok(), "good value refused");
  CHECK(!dpf_internal::ValueTypeHelper<T2>::FromValue(v).ok(), "a three element value was read as a pair");
  return 0;
}
'''))
BUGS.append(dict(id="D07-derived-seed", property="D07",
 needs="comparing the seeds of the two keys of one pair with the hash the construction uses",
 breaks="the second party's seed is a public function of the first party's, so one key reveals the other",
 edits=[(DC, "  RAND_bytes(reinterpret_cast<uint8_t*>(&seeds[1]), sizeof(absl::uint128));\n",
  "  DPF_RETURN_IF_ERROR(prg_value_.Evaluate(absl::MakeConstSpan(&seeds[0], 1),\n                                          absl::MakeSpan(&seeds[1], 1)));\n")],
 libs=["dpf"], cc=HEAD + r'''
#include "dpf/aes_128_fixed_key_hash.h"
int main() {
  auto dpf = DistributedPointFunction::Create(P<uint64_t>(10));
  NEED(dpf.ok());
  auto k = (*dpf)->GenerateKeys(7, uint64_t{7});
  NEED(k.ok());
  u128 a = absl::MakeUint128(k->first.seed().high(), k->first.seed().low()), b = absl::MakeUint128(k->second.seed().high(), k->second.seed().low());
  u128 keys[] = {absl::MakeUint128(0x05a5d1588c5423e3ULL, 0x46a31101b21d1c98ULL), absl::MakeUint128(0x5be037ccf6a03de5ULL, 0x935f08d0a5b6a2fdULL),
                 absl::MakeUint128(0xef94b6aedebb026cULL, 0xe2ea1fe0f66f4d0bULL)};
  for (u128 key : keys) {
    auto h = Aes128FixedKeyHash::Create(key);
    NEED(h.ok());
    u128 o;
    NEED(h->Evaluate(absl::MakeConstSpan(&a, 1), absl::MakeSpan(&o, 1)).ok());
    CHECK(o != b, "party 1's seed is a hash of party 0's");
  }
  CHECK(a != b, "equal seeds");
  return 0;
}
'''))
BUGS.append(dict(id="D07-seed-pool", property="D07",
 needs="more than 128 key pairs generated in one process",
 breaks="the pool of random seeds is used again from its start, so that key pairs share their seeds with earlier ones",
 edits=[(DC, """  RAND_bytes(reinterpret_cast<uint8_t*>(&seeds[0]), sizeof(absl::uint128));
  RAND_bytes(reinterpret_cast<uint8_t*>(&seeds[1]), sizeof(absl::uint128));
""", """  // Draw the seeds of many keys at once to save calls to the random source.
  static thread_local std::array<absl::uint128, 256> pool;
  static thread_local size_t next_seed = 0;
  if (next_seed == 0) {
    RAND_bytes(reinterpret_cast<uint8_t*>(pool.data()), sizeof(pool));
  }
  for (absl::uint128& seed : seeds) {
    seed = pool[next_seed++ % pool.size()];
  }
""")],
 libs=["dpf"], cc=HEAD + r"""
#include <set>
int main() {
  auto dpf = DistributedPointFunction::Create(P<uint64_t>(10));
  NEED(dpf.ok());
  std::set<std::pair<uint64_t, uint64_t>> s;
  for (int i = 0; i < 1000; ++i) {
    auto k = (*dpf)->GenerateKeys(7, uint64_t{7});
    NEED(k.ok());
    for (auto* x : {&k->first, &k->second})
      CHECK(s.insert({x->seed().high(), x->seed().low()}).second, "key pair %d repeats a seed", i);
  }
  return 0;
}
"""))
BUGS.append(dict(id="H02-unaligned-level", property="H02",
 needs="per-seed correction words, an odd number of seeds, at least three levels and a vector length above 16 bytes; seeds handled in groups of four vectors",
 breaks="a lane of the correction seeds of the third and later levels is read from the aligned-down address, so the wrong correction is applied",
 edits=[(EV, '''          correction_seed_3 = hn::BitCast(
              d64, hn::LoadU(d8, correction_seeds_ptr + i + 3 * bytes_per_vec));
        }
''', '''          correction_seed_3 = hn::BitCast(
              d64, hn::LoadU(d8, correction_seeds_ptr + i +
                                     (j > 1 ? 2 : 3) * bytes_per_vec));
        }
''')],
 libs=["dpf"], cc=HEAD + r'''
#include "dpf/internal/evaluate_prg_hwy.h"
#include "hwy/aligned_allocator.h"
int main() {
  auto l = Aes128FixedKeyHash::Create(1), r = Aes128FixedKeyHash::Create(2);
  NEED(l.ok() && r.ok());
  for (int n : {4, 5, 8, 9, 16, 17, 19, 33}) for (int levels : {1, 2, 3, 5}) {
    auto s = hwy::AllocateAligned<u128>(n), p = hwy::AllocateAligned<u128>(n), c = hwy::AllocateAligned<u128>(n * levels),
         o = hwy::AllocateAligned<u128>(n), q = hwy::AllocateAligned<u128>(n);
    std::unique_ptr<bool[]> b(new bool[n]), cl(new bool[n * levels]), cr(new bool[n * levels]), ob(new bool[n]), qb(new bool[n]);
    for (int i = 0; i < n; ++i) { s[i] = absl::MakeUint128(i * 77, i * 1234567); p[i] = i * 5; b[i] = true; }
    for (int i = 0; i < n * levels; ++i) { c[i] = absl::MakeUint128(i + 3, i * 99); cl[i] = i % 3; cr[i] = i % 2; }
    NEED(dpf_internal::EvaluateSeeds(n, levels, n * levels, s.get(), b.get(), p.get(), 0, c.get(), cl.get(), cr.get(), *l, *r, o.get(), ob.get()).ok());
    NEED(dpf_internal::EvaluateSeedsNoHwy(n, levels, n * levels, s.get(), b.get(), p.get(), 0, c.get(), cl.get(), cr.get(), *l, *r, q.get(), qb.get()).ok());
    for (int i = 0; i < n; ++i) CHECK(o[i] == q[i] && ob[i] == qb[i], "%d seeds, %d levels: seed %d differs", n, levels, i);
  }
  return 0;
}
'''))
BUGS.append(dict(id="H02-scalar-batch-path", property="H02",
 needs="the non-vector implementation (unaligned buffers), more than one batch of seeds and per-seed correction words",
 breaks="seeds beyond the first batch use the correction words of the first batch",
 edits=[(EV, "          correction_index = level * num_seeds + start_block + i;", "          correction_index = level * current_batch_size + start_block + i;")],
 libs=["dpf"], cc=HEAD + r'''
#include "dpf/internal/evaluate_prg_hwy.h"
#include "hwy/aligned_allocator.h"
int main() {
  auto l = Aes128FixedKeyHash::Create(1), r = Aes128FixedKeyHash::Create(2);
  NEED(l.ok() && r.ok());
  for (int n : {1, 5, 8, 64, 65, 100, 133}) for (int levels : {1, 2, 3}) {
    auto s = hwy::AllocateAligned<u128>(n), p = hwy::AllocateAligned<u128>(n), c = hwy::AllocateAligned<u128>(n * levels),
         o = hwy::AllocateAligned<u128>(n), q = hwy::AllocateAligned<u128>(n);
    std::unique_ptr<bool[]> b(new bool[n]), cl(new bool[n * levels]), cr(new bool[n * levels]), ob(new bool[n]), qb(new bool[n]);
    for (int i = 0; i < n; ++i) { s[i] = absl::MakeUint128(i * 77, i * 1234567); p[i] = i * 5; b[i] = true; }
    for (int i = 0; i < n * levels; ++i) { c[i] = absl::MakeUint128(i + 3, i * 99); cl[i] = i % 3; cr[i] = i % 2; }
    NEED(dpf_internal::EvaluateSeeds(n, levels, n * levels, s.get(), b.get(), p.get(), 0, c.get(), cl.get(), cr.get(), *l, *r, o.get(), ob.get()).ok());
    NEED(dpf_internal::EvaluateSeedsNoHwy(n, levels, n * levels, s.get(), b.get(), p.get(), 0, c.get(), cl.get(), cr.get(), *l, *r, q.get(), qb.get()).ok());
    for (int i = 0; i < n; ++i) CHECK(o[i] == q[i] && ob[i] == qb[i], "%d seeds, %d levels: seed %d differs", n, levels, i);
  }
  return 0;
}
'''))
CH, CC = "dcf/distributed_comparison_function.h", "dcf/distributed_comparison_function.cc"
DHEAD = HEAD + r'''
#include "dcf/distributed_comparison_function.h"
'''
BUGS.append(dict(id="C01-lazy-mask", property="C01",
 needs="a domain of more than 64 bits and a point with a set bit above bit 63",
 breaks="bits above the 63rd of the point are taken as zero when the levels are added up",
 edits=[(CH, "          static_cast<int>((evaluation_points[i] & mask) != 0);", "          static_cast<int>(absl::Uint128Low64(evaluation_points[i] & mask) != 0);")],
 libs=["dcf"], cc=DHEAD + r'''
int main() {
  DcfParameters p; *p.mutable_parameters() = P<uint32_t>(100);
  auto dcf = DistributedComparisonFunction::Create(p);
  NEED(dcf.ok());
  u128 alpha = (u128{7} << 90) + 3;
  auto k = (*dcf)->GenerateKeys(alpha, uint32_t{5});
  NEED(k.ok());
  for (u128 x : {u128{0}, u128{1}, alpha - 1, alpha, alpha + 1, alpha >> 1, u128{1} << 80, u128{1} << 99, (u128{1} << 100) - 1}) {
    auto a = (*dcf)->Evaluate<uint32_t>(k->first, x), b = (*dcf)->Evaluate<uint32_t>(k->second, x);
    NEED(a.ok() && b.ok());
    CHECK(*a + *b == (x < alpha ? 5u : 0u), "value %u", *a + *b);
  }
  return 0;
}
'''))
MI = "dcf/fss_gates/multiple_interval_containment.cc"
MHEAD = HEAD + r'''
#include "dcf/fss_gates/multiple_interval_containment.h"
using namespace distributed_point_functions::fss_gates;
'''
MTEST = r'''
int main() {
  const int n = %d; const u128 N = u128{1} << n;
  MicParameters p; p.set_log_group_size(n);
  u128 lo[] = {0, 2, 5, N - 1, 0, 3}, hi[] = {0, 4, N - 1, N - 1, N - 1, 3};
  for (int i = 0; i < 6; ++i) {
    auto* v = p.add_intervals();
    auto set = [](Value_Integer* o, u128 x) { o->mutable_value_uint128()->set_high(absl::Uint128High64(x)); o->mutable_value_uint128()->set_low(absl::Uint128Low64(x)); };
    set(v->mutable_lower_bound(), lo[i]); set(v->mutable_upper_bound(), hi[i]);
  }
  auto g = MultipleIntervalContainmentGate::Create(p);
  NEED(g.ok());
  std::vector<u128> ro = {1, 2, 3, N - 1, 5, 0};
  for (u128 r : {u128{0}, u128{1}, u128{3}, N / 2, N - 2, N - 1}) {
    auto k = (*g)->Gen(r, ro);
    NEED(k.ok());
    for (u128 x : {u128{0}, u128{1}, u128{2}, u128{3}, u128{4}, u128{5}, u128{6}, N - 2, N - 1}) {
      auto a = (*g)->Eval(k->first, (x + r) %% N), b = (*g)->Eval(k->second, (x + r) %% N);
      NEED(a.ok() && b.ok());
      for (int i = 0; i < 6; ++i)
        CHECK(((*a)[i] + (*b)[i]) %% N == (ro[i] + (x >= lo[i] && x <= hi[i])) %% N, "interval %%d", i);
    }
  }
  return 0;
}
'''
BUGS.append(dict(id="M01-last-mask", property="M01",
 needs="an interval that ends at the largest group element, or an input mask that moves its upper end there",
 breaks="the correction for an upper bound whose masked value is the last group element is lost",
 edits=[(MI, "(alpha_q_prime > q_prime ? 1 : 0) + (alpha_q == (N - 1) ? 1 : 0);", "(alpha_q_prime > q_prime ? 1 : 0) + (alpha_q == (N - 1) && r_in != 0 ? 1 : 0);")],
 libs=["dcf"], cc=MHEAD + MTEST % 5))
BUGS.append(dict(id="M01-reused-share", property="M01",
 needs="a gate with two or more intervals, looking at the mask shares inside one key",
 breaks="the same random number masks every interval's correction, so one party learns relations between the output masks",
 edits=[(MI, '''    const absl::string_view kSampleSeed = absl::string_view();
    DPF_ASSIGN_OR_RETURN(
        auto rng, distributed_point_functions::BasicRng::Create(kSampleSeed));
    DPF_ASSIGN_OR_RETURN(absl::uint128 z_0, rng->Rand128());

    z_0 = z_0 % N;
''', '''    absl::uint128 z_0 = random_share % N;
'''), (MI, '''  // Line 3
  for (int i = 0; i < mic_parameters_.intervals_size(); i++) {''', '''  DPF_ASSIGN_OR_RETURN(
      auto rng,
      distributed_point_functions::BasicRng::Create(absl::string_view()));
  DPF_ASSIGN_OR_RETURN(absl::uint128 random_share, rng->Rand128());

  // Line 3
  for (int i = 0; i < mic_parameters_.intervals_size(); i++) {''')],
 libs=["dcf"], cc=MHEAD + r'''
int main() {
  MicParameters p; p.set_log_group_size(100);
  for (int i = 0; i < 2; ++i) {
    auto* v = p.add_intervals();
    v->mutable_lower_bound()->set_value_uint64(10 + i); v->mutable_upper_bound()->set_value_uint64(45);
  }
  auto g = MultipleIntervalContainmentGate::Create(p);
  NEED(g.ok());
  auto k = (*g)->Gen(7, {100, 200});
  NEED(k.ok() && k->first.output_mask_share_size() == 2);
  CHECK(k->first.output_mask_share(0).SerializeAsString() != k->first.output_mask_share(1).SerializeAsString(), "two intervals share one mask");
  return 0;
}
'''))
BR = "dcf/fss_gates/prng/basic_rng.h"
BUGS.append(dict(id="R02-half-width", property="R02",
 needs="128-bit draws whose halves are compared over several draws",
 breaks="the high half of a draw is the low half of the previous one: halves of draws are related",
 edits=[(BR, "  inline absl::StatusOr<absl::uint128> Rand128() override {\n    return Rand<absl::uint128>();\n  }",
 '''  inline absl::StatusOr<absl::uint128> Rand128() override {
    auto low = Rand<uint64_t>();
    if (!low.ok()) return low.status();
    uint64_t high = carry_;
    if (!has_carry_) {
      auto first = Rand<uint64_t>();
      if (!first.ok()) return first.status();
      high = *first;
    }
    has_carry_ = true;
    carry_ = *low;
    return absl::MakeUint128(high, *low);
  }'''), (BR, " private:\n  template", " private:\n  bool has_carry_ = false;\n  uint64_t carry_ = 0;\n\n  template")],
 libs=["prng"], cc=r'''
#include <cstdio>
#include "dcf/fss_gates/prng/basic_rng.h"
using namespace distributed_point_functions;
int main() {
  auto r = BasicRng::Create("");
  if (!r.ok()) return 2;
  std::vector<absl::uint128> d;
  for (int i = 0; i < 50; ++i) { auto x = (*r)->Rand128(); if (!x.ok()) return 2; d.push_back(*x); }
  for (auto a : d) for (auto b : d) if (absl::Uint128High64(a) == absl::Uint128Low64(b)) { printf("halves repeat\n"); return 1; }
  return 0;
}
'''))
BUGS.append(dict(id="C01-stale-output", property="C01",
 needs="the form of the batch call that writes into the caller's buffer, with a buffer that is not zero",
 breaks="the results are added to what the buffer held",
 edits=[("dcf/distributed_comparison_function.h", "  std::fill(output.begin(), output.end(), T{});\n", "")],
 libs=["dcf"], cc=HEAD + r'''
#include "dcf/distributed_comparison_function.h"
int main() {
  DcfParameters p; *p.mutable_parameters() = P<uint32_t>(6);
  auto dcf = DistributedComparisonFunction::Create(p);
  NEED(dcf.ok());
  auto k = (*dcf)->GenerateKeys(21, uint32_t{5});
  NEED(k.ok());
  std::vector<uint32_t> a(1), b(1);
  for (int x = 0; x < 64; ++x) {
    std::vector<u128> pt = {u128(x)};
    NEED((*dcf)->BatchEvaluate<uint32_t>(absl::MakeConstSpan(&k->first, 1), pt, absl::MakeSpan(a)).ok());
    NEED((*dcf)->BatchEvaluate<uint32_t>(absl::MakeConstSpan(&k->second, 1), pt, absl::MakeSpan(b)).ok());
    CHECK(a[0] + b[0] == (x < 21 ? 5u : 0u), "at %d", x);
  }
  return 0;
}
'''))

BUGS.append(dict(id="D01-shift-127", property="D01",
 needs="a first level of domain size 2 with packed values, then a level of the largest domain size 2^128, and an alpha with its top bit set",
 breaks="the value of the first level is put where alpha's top bit is 0",
 edits=[(DC, "    if (shift_amount < 128) {\n      alpha_prefix", "    if (shift_amount < 127) {\n      alpha_prefix")],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  auto dpf = DistributedPointFunction::CreateIncremental(std::vector<DpfParameters>{P<uint8_t>(1), P<uint8_t>(128)});
  NEED(dpf.ok());
  u128 alpha = (u128{1} << 127) + 5;
  auto k = (*dpf)->GenerateKeysIncremental(alpha, uint8_t{7}, uint8_t{8});
  NEED(k.ok());
  std::vector<u128> pts = {0, 1};
  auto a = (*dpf)->EvaluateAt<uint8_t>(k->first, 0, pts), b = (*dpf)->EvaluateAt<uint8_t>(k->second, 0, pts);
  NEED(a.ok() && b.ok());
  CHECK(uint8_t((*a)[0] + (*b)[0]) == 0 && uint8_t((*a)[1] + (*b)[1]) == 7, "first level does not add up");
  return 0;
}
'''))
BUGS.append(dict(id="D01-narrow-block", property="D01",
 needs="one expansion of more than 65536 blocks",
 breaks="the first corrections are applied or not by the control bit of another block",
 edits=[(DC, "        if (expansion.control_bits[start_block + j]) {\n          prg_buffer_left[j]", "        if (expansion.control_bits[static_cast<uint16_t>(start_block + j)]) {\n          prg_buffer_left[j]")],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  for (u128 alpha : {u128{131077}, u128{200000}, u128{70001}}) {
  auto dpf = DistributedPointFunction::Create(P<u128>(18));
  NEED(dpf.ok());
  auto k = (*dpf)->GenerateKeys(alpha, u128{99});
  NEED(k.ok());
  std::vector<u128> s;
  auto c0 = (*dpf)->CreateEvaluationContext(k->first), c1 = (*dpf)->CreateEvaluationContext(k->second);
  NEED(c0.ok() && c1.ok());
  auto a = (*dpf)->EvaluateNext<u128>({}, *c0), b = (*dpf)->EvaluateNext<u128>({}, *c1);
  NEED(a.ok() && b.ok() && a->size() == 1 << 18);
  for (size_t i = 0; i < a->size(); ++i) CHECK((*a)[i] + (*b)[i] == (i == alpha ? u128{99} : u128{0}), "position %d", int(i));
  }
  return 0;
}
'''))
BUGS.append(dict(id="D02-block-reserve", property="D02",
 needs="one call with more than 1000 prefixes, some of which share a tree position without being neighbours",
 breaks="late prefixes whose tree position came up before get the output of the last position",
 edits=[(DH, "    prefix_map.push_back(std::make_pair(it->second, block_index));", "    const bool seen = i > 1000;\n    prefix_map.push_back(std::make_pair(\n        seen ? static_cast<int64_t>(tree_indices.size()) - 1 : it->second,\n        block_index));")],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  auto dpf = DistributedPointFunction::CreateIncremental(std::vector<DpfParameters>{P<u128>(8), P<u128>(10)});
  NEED(dpf.ok());
  auto k = (*dpf)->GenerateKeysIncremental(u128{517}, u128{1}, u128{2});
  NEED(k.ok());
  auto c = (*dpf)->CreateEvaluationContext(k->first);
  NEED(c.ok());
  NEED((*dpf)->EvaluateNext<u128>({}, *c).ok());
  std::vector<u128> pre, pts;
  for (int i = 0; i < 1500; ++i) pre.push_back((i * 37) % 256);
  for (u128 p : pre) for (int y = 0; y < 4; ++y) pts.push_back(4 * p + y);
  auto a = (*dpf)->EvaluateNext<u128>(pre, *c);
  auto b = (*dpf)->EvaluateAt<u128>(k->first, 1, pts);
  NEED(a.ok() && b.ok());
  CHECK(*a == *b, "long prefix list answered differently");
  return 0;
}
'''))
BUGS.append(dict(id="D03-party-cache", property="D03",
 needs="more than 256 keys in one batch, of both parties",
 breaks="keys from the 257th on are evaluated as keys of the party of another key",
 edits=[(DH, "    control_bits[i] = keys[i].party();", "    control_bits[i] = keys[static_cast<uint8_t>(i)].party();")],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  auto dpf = DistributedPointFunction::Create(P<uint64_t>(20));
  NEED(dpf.ok());
  std::vector<DpfKey> ks;
  std::vector<u128> pts;
  for (int i = 0; i < 150; ++i) {
    auto k = (*dpf)->GenerateKeys(u128(i), uint64_t(i + 1));
    NEED(k.ok());
    ks.push_back(k->first);
    if (i % 3) ks.push_back(k->second);
    while (pts.size() < ks.size()) pts.push_back(i);
  }
  for (int i = 0; i < 150; ++i) {
    auto k = (*dpf)->GenerateKeys(u128(i), uint64_t(i + 1));
    NEED(k.ok());
    ks.push_back(i % 2 ? k->first : k->second);
    pts.push_back(i);
  }
  std::vector<uint64_t> got;
  NEED((*dpf)->EvaluateAndApply<uint64_t>(absl::MakeConstSpan(ks), pts,
      [&](absl::Span<const uint64_t> v) { got.assign(v.begin(), v.end()); return true; }).ok());
  NEED(got.size() == ks.size());
  for (size_t i = 0; i < ks.size(); ++i) {
    auto a = (*dpf)->EvaluateAt<uint64_t>(ks[i], 0, std::vector<u128>{pts[i]});
    NEED(a.ok());
    CHECK(got[i] == (*a)[0], "key %d", int(i));
  }
  return 0;
}
'''))
BUGS.append(dict(id="D04-many-levels", property="D04",
 needs="a parameter list of more than 64 levels",
 breaks="valid parameters are refused",
 edits=[("dpf/internal/proto_validator.cc", "  if (parameters.empty()) {", "  if (parameters.empty() || parameters.size() > 64) {")],
 libs=["dpf"], cc=HEAD + r'''
int main() {
  for (int n : {1, 64, 65, 128}) {
    std::vector<DpfParameters> p;
    for (int i = 0; i < n; ++i) p.push_back(P<uint32_t>(i));
    auto dpf = DistributedPointFunction::CreateIncremental(p);
    CHECK(dpf.ok(), "%d levels refused", n);
  }
  return 0;
}
'''))


M2HEAD = MHEAD + r'''
struct W { std::unique_ptr<MultipleIntervalContainmentGate> g; std::unique_ptr<distributed_point_functions::DistributedComparisonFunction> d; };
static u128 Get(const Value_Integer& v) { return v.value_case() == Value_Integer::kValueUint64 ? u128(v.value_uint64()) : absl::MakeUint128(v.value_uint128().high(), v.value_uint128().low()); }
static W Make(int n, uint64_t lo, uint64_t hi) {
  W w;
  MicParameters p; p.set_log_group_size(n);
  auto* v = p.add_intervals();
  v->mutable_lower_bound()->set_value_uint64(lo); v->mutable_upper_bound()->set_value_uint64(hi);
  w.g = MultipleIntervalContainmentGate::Create(p).value();
  DcfParameters q; q.mutable_parameters()->set_log_domain_size(n);
  q.mutable_parameters()->mutable_value_type()->mutable_integer()->set_bitsize(128);
  w.d = DistributedComparisonFunction::Create(q).value();
  return w;
}
'''
BUGS.append(dict(id="M02-other-party", property="M02",
 needs="looking at one party's output by itself: the sums of both parties are right",
 breaks="party 0 adds the public part of the result that the protocol gives to party 1, so keys do not fit other builds",
 edits=[(MI, '''      absl::uint128 y = (k.dcfkey().key().party()
                             ? ((x > p[j] ? 1 : 0) - (x > q_prime[j] ? 1 : 0))
                             : 0) -''', '''      absl::uint128 y = (k.dcfkey().key().party()
                             ? 0
                             : ((x > p[j] ? 1 : 0) - (x > q_prime[j] ? 1 : 0))) -''')],
 libs=["dcf"], cc=M2HEAD + r'''
int main() {
  const int n = 16; const u128 N = u128{1} << n;
  W w = Make(n, 100, 5000);
  auto k = w.g->Gen(777, {5});
  NEED(k.ok());
  for (u128 x : {u128(0), u128(101), u128(3000), u128(5001), u128(5002), u128(65535)}) {
    const MicKey& a = k->first;
    auto y = w.g->Eval(a, x);
    auto sp = w.d->Evaluate<u128>(a.dcfkey(), (x + N - 101) % N), sq = w.d->Evaluate<u128>(a.dcfkey(), (x + N - 5002) % N);
    NEED(y.ok() && sp.ok() && sq.ok());
    CHECK((*y)[0] == (Get(a.output_mask_share(0)) - *sp % N + *sq % N) % N, "party 0 at %d", int(x));
  }
  return 0;
}
'''))
BUGS.append(dict(id="M02-negated-shares", property="M02",
 needs="looking at the comparison keys inside gate keys: generation and evaluation agree with each other",
 breaks="the comparison keys hold -1 instead of 1 and evaluation subtracts where the protocol adds",
 edits=[(MI, "  absl::uint128 beta = 1;", "  absl::uint128 beta = N - 1;"),
        (MI, "                        s_p[index] + s_q_prime[index] + z;", "                        s_q_prime[index] + s_p[index] + z;")],
 libs=["dcf"], cc=M2HEAD + r'''
int main() {
  W w = Make(40, 100, 5000);
  auto k = w.g->Gen(777, {5});
  NEED(k.ok());
  auto a = w.d->Evaluate<u128>(k->first.dcfkey(), 775), b = w.d->Evaluate<u128>(k->second.dcfkey(), 775);
  NEED(a.ok() && b.ok());
  CHECK(*a + *b == 1, "comparison keys add up to something else");
  return 0;
}
'''))
BUGS.append(dict(id="M02-mask-sign", property="M02",
 needs="looking at the mask shares inside both keys: generation and evaluation agree with each other",
 breaks="party 1's mask share is stored negated and subtracted again on evaluation, so keys do not fit other builds",
 edits=[(MI, "    absl::uint128 z_1 = (z - z_0) % N;", "    absl::uint128 z_1 = (z_0 - z) % N;"),
        (MI, "                        s_p[index] + s_q_prime[index] + z;", "                        s_p[index] + s_q_prime[index] +\n                        (k.dcfkey().key().party() ? -z : z);")],
 libs=["dcf"], cc=M2HEAD + r'''
int main() {
  const u128 N = u128{1} << 40;
  W w = Make(40, 100, 5000);
  auto k = w.g->Gen(0, {12345});          // without an input mask and wrapping the correction is the output mask
  NEED(k.ok());
  CHECK((Get(k->first.output_mask_share(0)) + Get(k->second.output_mask_share(0))) % N == 12345, "mask shares");
  return 0;
}
'''))

D8MAIN = r'''
int main() {
  auto d = DistributedPointFunction::CreateIncremental(std::vector<DpfParameters>{P<uint64_t>(1), P<uint64_t>(5), P<uint64_t>(9)});
  NEED(d.ok());
  for (int t = 0; t < 8; ++t) {
    auto k = (*d)->GenerateKeysIncremental(300, uint64_t{7}, uint64_t{8}, uint64_t{9});
    NEED(k.ok());
    for (const DpfKey& key : {k->first, k->second}) {
      auto c = (*d)->CreateEvaluationContext(key);
      NEED(c.ok());
      NEED((*d)->EvaluateUntil<uint64_t>(0, {}, *c).ok());
      NEED((*d)->EvaluateUntil<uint64_t>(1, {0, 1}, *c).ok());
      // Both values of the first level share one node: the root.
      NEED(c->partial_evaluations_size() >= 1);
      for (const PartialEvaluation& e : c->partial_evaluations()) {
        CHECK(e.prefix().high() == 0 && e.prefix().low() == 0, "prefix");
        CHECK(e.seed().high() == key.seed().high() && e.seed().low() == key.seed().low(), "the root's seed is stored as something else");
        CHECK(e.control_bit() == bool(key.party()), "the root's control bit is stored as something else");
      }
    }
  }
  return 0;
}
'''
BUGS.append(dict(id="D08-blinded-seed", property="D08",
 needs="looking at a saved evaluation, or carrying it on in another build",
 breaks="stored seeds are XORed with the key's seed, and taken back only by the same build",
 edits=[(DC, '''      auto value = std::make_pair(
          absl::MakeUint128(element.seed().high(), element.seed().low()),
          element.control_bit());''', '''      auto value = std::make_pair(
          absl::MakeUint128(element.seed().high() ^ ctx.key().seed().high(),
                            element.seed().low() ^ ctx.key().seed().low()),
          element.control_bit());'''),
        (DC, "          absl::Uint128High64(partial_evaluations.seeds[i]));", "          absl::Uint128High64(partial_evaluations.seeds[i]) ^\n          ctx.key().seed().high());"),
        (DC, "          absl::Uint128Low64(partial_evaluations.seeds[i]));", "          absl::Uint128Low64(partial_evaluations.seeds[i]) ^\n          ctx.key().seed().low());")],
 libs=["dpf"], cc=HEAD + D8MAIN))
BUGS.append(dict(id="D08-bit-relative", property="D08",
 needs="party 1's saved evaluation, looked at or carried on in another build",
 breaks="the stored control bit is relative to the party, in storing and in reading",
 edits=[(DC, '''          element.control_bit());
      auto it''', '''          element.control_bit() != static_cast<bool>(ctx.key().party()));
      auto it'''),
        (DC, "current_element->set_control_bit(partial_evaluations.control_bits[i]);", "current_element->set_control_bit(partial_evaluations.control_bits[i] !=\n                                       static_cast<bool>(ctx.key().party()));")],
 libs=["dpf"], cc=HEAD + D8MAIN))

# these two make the repository's own core unit tests fail (they are not part of the stable tests): not kept
BUGS = [b for b in BUGS if b["id"] not in ("D04-many-levels", "D01-narrow-block")]
