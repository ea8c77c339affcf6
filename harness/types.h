// Run-time access to the value types the drivers exercise.  A value travels as
// the flat list of its leaves.
#ifndef VERIF_TYPES_H_
#define VERIF_TYPES_H_
#include <functional>

#include "common.h"
#include "dpf/distributed_point_function.h"
#include "dcf/distributed_comparison_function.h"

namespace vf {
namespace dp = distributed_point_functions;
using Flat = std::vector<u128>;

template <typename T, typename = void>
struct Leafs;
template <typename T>
struct Leafs<T, std::enable_if_t<dp::dpf_internal::is_unsigned_integer_v<T>>> {
  static void Put(const T& v, Flat* f) { f->push_back(u128(v)); }
  static T Get(const Flat& f, size_t* i) { return static_cast<T>(f[(*i)++]); }
  static void Widths(std::vector<int>* w) { w->push_back(8 * sizeof(T)); }
};
template <typename B, typename M, M kM>
struct Leafs<dp::dpf_internal::IntModNImpl<B, M, kM>, void> {
  using T = dp::dpf_internal::IntModNImpl<B, M, kM>;
  static void Put(const T& v, Flat* f) { f->push_back(u128(v.value())); }
  static T Get(const Flat& f, size_t* i) { return T(static_cast<B>(f[(*i)++])); }
  static void Widths(std::vector<int>* w) { w->push_back(8 * sizeof(B)); }
};
template <typename W>
struct Leafs<dp::XorWrapper<W>, void> {
  static void Put(const dp::XorWrapper<W>& v, Flat* f) { f->push_back(u128(v.value())); }
  static dp::XorWrapper<W> Get(const Flat& f, size_t* i) {
    return dp::XorWrapper<W>(static_cast<W>(f[(*i)++]));
  }
  static void Widths(std::vector<int>* w) { w->push_back(8 * sizeof(W)); }
};
template <typename... E>
struct Leafs<dp::Tuple<E...>, void> {
  static void Put(const dp::Tuple<E...>& v, Flat* f) {
    std::apply([f](const E&... e) { (Leafs<E>::Put(e, f), ...); }, v.value());
  }
  static dp::Tuple<E...> Get(const Flat& f, size_t* i) {
    return dp::Tuple<E...>(std::tuple<E...>{Leafs<E>::Get(f, i)...});
  }
  static void Widths(std::vector<int>* w) { (Leafs<E>::Widths(w), ...); }
};
template <typename T>
Flat ToFlat(const T& v) {
  Flat f;
  Leafs<T>::Put(v, &f);
  return f;
}
template <typename T>
T OfFlat(const Flat& f) {
  size_t i = 0;
  return Leafs<T>::Get(f, &i);
}
template <typename T>
std::vector<Flat> Flats(absl::Span<const T> v) {
  std::vector<Flat> r;
  for (const T& x : v) r.push_back(ToFlat(x));
  return r;
}

struct TypeOps {
  std::string name;
  std::vector<int> widths;
  int epb = 0;
  using Vec = absl::StatusOr<std::vector<Flat>>;
  virtual ~TypeOps() {}
  std::string J(const Flat& f) const {
    std::string r = "[";
    for (size_t i = 0; i < f.size(); ++i)
      r += (i ? "," : "") + JWord(f[i], i < widths.size() ? widths[i] : 128);
    return r + "]";
  }
  std::string JL(const std::vector<Flat>& v) const {
    return JList(v, [this](const Flat& f) { return J(f); });
  }
  virtual dp::ValueType Type() const = 0;
  virtual dp::Value Val(const Flat& f) const = 0;
  virtual absl::StatusOr<Flat> From(const dp::Value& v) const = 0;
  virtual absl::Status Register(dp::DistributedPointFunction& d) const = 0;
  virtual absl::StatusOr<std::pair<dp::DpfKey, dp::DpfKey>> Gen(dp::DistributedPointFunction& d, u128 alpha,
                                                               const std::vector<Flat>& b, int mode) const = 0;
  virtual Vec Until(dp::DistributedPointFunction& d, int lv, absl::Span<const u128> pre, dp::EvaluationContext& c,
                    bool next) const = 0;
  virtual Vec At(dp::DistributedPointFunction& d, const dp::DpfKey& k, int lv, absl::Span<const u128> pts) const = 0;
  virtual Vec AtCtx(dp::DistributedPointFunction& d, int lv, absl::Span<const u128> pts,
                    dp::EvaluationContext& c) const = 0;
  virtual absl::Status Apply(dp::DistributedPointFunction& d, const std::vector<const dp::DpfKey*>& keys,
                             absl::Span<const u128> pts, std::function<bool(const std::vector<Flat>&)> op,
                             int shift, bool deref) const = 0;
  virtual absl::StatusOr<std::pair<dp::DcfKey, dp::DcfKey>> DcfGen(dp::DistributedComparisonFunction& d, u128 alpha,
                                                                  const Flat& b) const = 0;
  virtual absl::StatusOr<Flat> DcfEval(dp::DistributedComparisonFunction& d, const dp::DcfKey& k, u128 x) const = 0;
  virtual Vec DcfBatch(dp::DistributedComparisonFunction& d, const std::vector<const dp::DcfKey*>& keys,
                       absl::Span<const u128> pts, int mode, size_t outsize) const = 0;
  // groups: op in {add, sub, neg, iadd, isub, eq, ne, zero, copy}
  virtual Flat Group(const std::string& op, const Flat& a, const Flat& b) const = 0;
  virtual std::vector<Flat> FromBytesArray(const std::string& bytes) const = 0;
  virtual Flat FromBytesOne(const std::string& bytes) const = 0;
};

std::map<std::string, TypeOps*>& Types();
inline TypeOps* TypeNamed(const std::string& n) {
  auto it = Types().find(n);
  if (it == Types().end()) {
    fprintf(stderr, "unknown type %s\n", n.c_str());
    exit(99);
  }
  return it->second;
}

std::string JType(const dp::ValueType& t);
std::string JValue(const dp::Value& v);
std::string JVInt(const dp::Value::Integer& v);
std::string JKey(const dp::DpfKey& k, bool full);

// Textual messages for malformed requests (see ParseType/ParseValue in msgs.cc).
dp::ValueType ParseType(const std::string& s);
dp::Value ParseValue(const std::string& s);

std::string JSec(double s);
std::string JPar(const dp::DpfParameters& p);
// levels: ld|type|sec;...   ("-" type: no value type at all)
void ParsePars(const std::string& s, std::vector<dp::DpfParameters>* par, std::vector<std::string>* ty);
void MutateKey(dp::DpfKey* k, const std::string& m);
Flat FlatOf(const std::string& s);
}  // namespace vf
#endif
