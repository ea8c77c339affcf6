#ifndef VERIF_TYPES_IMPL_H_
#define VERIF_TYPES_IMPL_H_
#include "types.h"
namespace vf {
template <typename T>
struct Impl : TypeOps {
  explicit Impl(const char* n) {
    name = n;
    Leafs<T>::Widths(&widths);
    epb = dp::dpf_internal::ElementsPerBlock<T>();
    Types()[name] = this;
  }
  static Vec V(const absl::StatusOr<std::vector<T>>& r) {
    if (!r.ok()) return r.status();
    return Flats<T>(*r);
  }
  dp::ValueType Type() const override { return dp::ToValueType<T>(); }
  dp::Value Val(const Flat& f) const override { return dp::ToValue<T>(OfFlat<T>(f)); }
  absl::StatusOr<Flat> From(const dp::Value& v) const override {
    absl::StatusOr<T> r = dp::FromValue<T>(v);
    if (!r.ok()) return r.status();
    return ToFlat<T>(*r);
  }
  absl::Status Register(dp::DistributedPointFunction& d) const override { return d.RegisterValueType<T>(); }
  absl::StatusOr<std::pair<dp::DpfKey, dp::DpfKey>> Gen(dp::DistributedPointFunction& d, u128 alpha,
                                                       const std::vector<Flat>& b, int mode) const override {
    std::vector<T> bs;
    for (auto& f : b) bs.push_back(OfFlat<T>(f));
    if (mode == 1) return d.GenerateKeysIncremental<T>(alpha, absl::MakeConstSpan(bs));
    if (mode == 2) {
      if (bs.size() == 1) return d.GenerateKeys(alpha, T(bs[0]));
      if constexpr (!std::is_convertible<T, absl::Span<const u128>>::value) {
        if (bs.size() == 2) return d.GenerateKeysIncremental(alpha, T(bs[0]), T(bs[1]));
        if (bs.size() == 3) return d.GenerateKeysIncremental(alpha, T(bs[0]), T(bs[1]), T(bs[2]));
      }
    }
    if (mode == 3) {
      std::vector<u128> us;
      for (auto& f : b) us.push_back(f[0]);
      return us.size() == 1 ? d.GenerateKeys(alpha, us[0]) : d.GenerateKeysIncremental(alpha, us);
    }
    return d.GenerateKeysIncremental<T>(alpha, absl::MakeConstSpan(bs));
  }
  Vec Until(dp::DistributedPointFunction& d, int lv, absl::Span<const u128> pre, dp::EvaluationContext& c,
            bool next) const override {
    return V(next ? d.EvaluateNext<T>(pre, c) : d.EvaluateUntil<T>(lv, pre, c));
  }
  Vec At(dp::DistributedPointFunction& d, const dp::DpfKey& k, int lv, absl::Span<const u128> pts) const override {
    return V(d.EvaluateAt<T>(k, lv, pts));
  }
  Vec AtCtx(dp::DistributedPointFunction& d, int lv, absl::Span<const u128> pts,
            dp::EvaluationContext& c) const override {
    return V(d.EvaluateAt<T>(lv, pts, c));
  }
  absl::Status Apply(dp::DistributedPointFunction& d, const std::vector<const dp::DpfKey*>& keys,
                     absl::Span<const u128> pts, std::function<bool(const std::vector<Flat>&)> op, int shift,
                     bool deref) const override {
    auto f = [&op](absl::Span<const T> v) -> bool { return op(Flats<T>(v)); };
    if (deref) {
      std::vector<dp::DpfKey> copy;
      for (auto* k : keys) copy.push_back(*k);
      return d.EvaluateAndApply<T>(copy, pts, f, shift);
    }
    return d.EvaluateAndApply<T>(keys, pts, f, shift);
  }
  absl::StatusOr<std::pair<dp::DcfKey, dp::DcfKey>> DcfGen(dp::DistributedComparisonFunction& d, u128 alpha,
                                                          const Flat& b) const override {
    return d.GenerateKeys<T>(alpha, OfFlat<T>(b));
  }
  absl::StatusOr<Flat> DcfEval(dp::DistributedComparisonFunction& d, const dp::DcfKey& k, u128 x) const override {
    absl::StatusOr<T> r = d.Evaluate<T>(k, x);
    if (!r.ok()) return r.status();
    return ToFlat<T>(*r);
  }
  Vec DcfBatch(dp::DistributedComparisonFunction& d, const std::vector<const dp::DcfKey*>& keys,
               absl::Span<const u128> pts, int mode, size_t outsize) const override {
    if (mode == 0) return V(d.BatchEvaluate<T>(keys, pts));
    std::vector<dp::DcfKey> copy;
    for (auto* k : keys) copy.push_back(*k);
    if (mode == 1) return V(d.BatchEvaluate<T>(copy, pts));
    // Preallocated output holding old values.
    std::vector<T> out(outsize);
    unsigned char fill = 0;
    for (auto& o : out) o = OfFlat<T>(Flat(widths.size(), u128(++fill)));
    absl::Status s = d.BatchEvaluate<T>(copy, pts, absl::MakeSpan(out));
    if (!s.ok()) return s;
    return Flats<T>(out);
  }
  Flat Group(const std::string& op, const Flat& fa, const Flat& fb) const override {
    T a = OfFlat<T>(fa), b = OfFlat<T>(fb);
    const T a0 = a, b0 = b;
    if (op == "add") { T r = a0 + b0; return ToFlat<T>(r); }
    if (op == "sub") { T r = a0 - b0; return ToFlat<T>(r); }
    if (op == "neg") { T r = -a0; return ToFlat<T>(r); }
    if (op == "iadd") { a += b0; return ToFlat<T>(a); }
    if (op == "isub") { a -= b0; return ToFlat<T>(a); }
    if (op == "saadd") { a += a; return ToFlat<T>(a); }
    if (op == "sasub") { a -= a; return ToFlat<T>(a); }
    if (op == "eq") return Flat{u128(a0 == b0 ? 1 : 0)};
    if (op == "ne") return Flat{u128(a0 != b0 ? 1 : 0)};
    if (op == "zero") { T r{}; return ToFlat<T>(r); }
    if (op == "copy") { T r; r = a0; return ToFlat<T>(r); }
    exit(99);
  }
  std::vector<Flat> FromBytesArray(const std::string& bytes) const override {
    auto arr = dp::dpf_internal::ConvertBytesToArrayOf<T>(bytes);
    return Flats<T>(absl::MakeConstSpan(arr));
  }
  Flat FromBytesOne(const std::string& bytes) const override {
    return ToFlat<T>(dp::dpf_internal::FromBytes<T>(bytes));
  }
};
template <typename B, unsigned __int128 kM>
using M = dp::IntModN<B, kM>;
template <typename T>
using X = dp::XorWrapper<T>;
template <typename... E>
using Tp = dp::Tuple<E...>;
constexpr unsigned __int128 P2(int n) { return static_cast<unsigned __int128>(1) << n; }
}  // namespace vf
#define VT(NAME, ...) static vf::Impl<__VA_ARGS__>* VTC(v_, __COUNTER__) = new vf::Impl<__VA_ARGS__>(NAME);
#define VTC(a, b) VTC2(a, b)
#define VTC2(a, b) a##b
#endif
