// Value types: group operations, messages, sampling from bytes.
#include "types.h"
#include "dpf/int_mod_n.h"
#include "dpf/internal/value_type_helpers.h"
using namespace vf;

static std::string Unhex(const std::string& h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(char(strtol(h.substr(i, 2).c_str(), nullptr, 16)));
  return r;
}
static std::string JBytes(const std::string& b) {
  return JList(b, [](char c) { return JInt((unsigned char)c); });
}
struct ModOps {
  virtual Flat Sample(const std::string& bytes, double sec, int n, int* code) const = 0;
  virtual Flat Wrap(u128 v, bool assign) const = 0;
  virtual int Need(int n, double sec, int* code) const = 0;
  virtual std::string Type() const = 0;
  int bits;
};
static std::map<std::string, ModOps*> mods;
template <typename T>
struct ModImpl : ModOps {
  explicit ModImpl(const char* n) {
    mods[n] = this;
    bits = 8 * sizeof(typename T::Base);
  }
  Flat Sample(const std::string& bytes, double sec, int n, int* code) const override {
    std::vector<T> v(n);
    auto s = T::SampleFromBytes(bytes, sec, absl::MakeSpan(v));
    *code = Code(s);
    Flat f;
    for (auto& x : v) f.push_back(u128(x.value()));
    return f;
  }
  Flat Wrap(u128 v, bool assign) const override {
    T t(static_cast<typename T::Base>(v));
    if (assign) {
      t = T(1);
      t = static_cast<typename T::Base>(v);
    }
    return Flat{u128(t.value())};
  }
  int Need(int n, double sec, int* code) const override {
    auto r = T::GetNumBytesRequired(n, sec);
    *code = Code(r);
    return r.ok() ? *r : 0;
  }
  std::string Type() const override { return JType(dp::ToValueType<T>()); }
};
template <typename B, unsigned __int128 kM>
using M = dp::IntModN<B, kM>;
constexpr unsigned __int128 P2(int n) { return static_cast<unsigned __int128>(1) << n; }
static ModImpl<M<uint8_t, 251>> m0("m8:251");
static ModImpl<M<uint8_t, 2>> m1("m8:2");
static ModImpl<M<uint16_t, 65521>> m2("m16:65521");
static ModImpl<M<uint32_t, 4294967291u>> m3("m32:4294967291");
static ModImpl<M<uint32_t, 3>> m4("m32:3");
static ModImpl<M<uint64_t, 18446744073709551557ull>> m5("m64:18446744073709551557");
static ModImpl<M<uint64_t, 1000003>> m6("m64:1000003");
static ModImpl<M<absl::uint128, P2(80) - 65>> m7("m128:1208925819614629174706111");
static ModImpl<M<absl::uint128, P2(64) + 13>> m8("m128:18446744073709551629");
static ModImpl<M<absl::uint128, 3>> m9("m128:3");
static ModImpl<M<uint32_t, 2147483648u>> m10("m32:2147483648");


int main(int argc, char** argv) {
  return Main(argc, argv, [](Op& op, Out& out) {
    const std::string& n = op.name;
    if (n == "g") {
      const TypeOps* t = TypeNamed(op.s("t"));
      Flat a = FlatOf(op.s("a")), b = FlatOf(op.s("b"));
      Event e("g");
      e.raw("ty", JType(t->Type())).raw("a", t->J(a)).raw("b", t->J(b));
      for (const char* o : {"add", "sub", "neg", "iadd", "isub", "saadd", "sasub", "zero", "copy"})
        e.raw(o, t->J(t->Group(o, a, b)));
      e.i("eq", (int)t->Group("eq", a, b)[0]).i("ne", (int)t->Group("ne", a, b)[0]);
      out.Emit(e);
    } else if (n == "val") {
      const TypeOps* t = TypeNamed(op.s("t"));
      Flat a = FlatOf(op.s("a"));
      dp::Value v = t->Val(a);
      auto r = t->From(v);
      dp::Value w;
      bool ok = w.ParseFromString(v.SerializeAsString());
      auto r2 = t->From(w);
      out.Emit(Event("val").raw("ty", JType(t->Type())).raw("a", t->J(a)).raw("v", JValue(v)).i("code", Code(r)).i("same", ok && r2.ok() && r.ok() && *r2 == *r)
                   .raw("back", r.ok() ? t->J(*r) : "[]").i("epb", t->epb));
    } else if (n == "from") {
      const TypeOps* t = TypeNamed(op.s("t"));
      dp::Value v = ParseValue(op.s("v"));
      auto r = t->From(v);
      out.Emit(Event("from").raw("ty", JType(t->Type())).raw("v", JValue(v)).i("code", Code(r)).raw("out", r.ok() ? t->J(*r) : "[]"));
    } else if (n == "bytes") {
      const TypeOps* t = TypeNamed(op.s("t"));
      std::string b = Unhex(op.s("b"));
      // an exactly sized heap block: reading past it is an error
      std::unique_ptr<char[]> buf(new char[b.size()]);
      std::copy(b.begin(), b.end(), buf.get());
      Event e("bytes");
      e.raw("ty", JType(t->Type())).raw("bs", JBytes(b));
      if (op.has("one")) e.raw("out", t->JL({t->FromBytesOne(std::string(buf.get(), b.size()))})).i("one", 1);
      else e.raw("out", t->JL(t->FromBytesArray(std::string(buf.get(), b.size())))).i("one", 0);
      out.Emit(e);
    } else if (n == "teq") {
      auto a = ParseType(op.s("a")), b = ParseType(op.s("b"));
      auto r = dp::dpf_internal::ValueTypesAreEqual(a, b), q = dp::dpf_internal::ValueTypesAreEqual(b, a);
      out.Emit(Event("teq").raw("a", JType(a)).raw("b", JType(b)).i("code", Code(r)).i("eq", r.ok() && *r).i("code2", Code(q)).i("eq2", q.ok() && *q));
    } else if (n == "bits") {
      auto a = ParseType(op.s("t"));
      double sec = atof(op.s("sec").c_str());
      auto r = dp::dpf_internal::BitsNeeded(a, sec);
      out.Emit(Event("bits").raw("ty", JType(a)).raw("sec", JSec(sec)).i("code", Code(r)).i("bits", r.ok() ? *r : 0));
    } else if (n == "samp") {
      ModOps* m = mods.at(op.s("t"));
      std::string b = Unhex(op.s("b"));
      double sec = atof(op.s("sec").c_str());
      int code, code2, cnt = op.i("n");
      Flat f = m->Sample(b, sec, cnt, &code);
      int need = m->Need(cnt, sec, &code2);
      out.Emit(Event("samp").raw("ty", m->Type()).raw("sec", JSec(sec)).i("n", cnt).raw("bs", JBytes(b)).i("code", code)
                   .i("ncode", code2).i("need", need).raw("out", code == 0 ? JList(f, [&](u128 x) { return JWord(x, m->bits); }) : "[]"));
    } else if (n == "chk") {   // the general form, for any base size and modulus
      double sec = atof(op.s("sec").c_str());
      u128 N = op.w("mod");
      int code, code2, need = 0;
      code = Code(dp::dpf_internal::IntModNBase::CheckParameters(op.i("n"), op.i("b"), N, sec));
      auto r = dp::dpf_internal::IntModNBase::GetNumBytesRequired(op.i("n"), op.i("b"), N, sec);
      code2 = Code(r);
      if (r.ok()) need = *r;
      out.Emit(Event("chk").raw("sec", JSec(sec)).i("n", op.i("n")).i("b", op.i("b")).w("mod", N).i("code", code).i("ncode", code2).i("need", need));
    } else if (n == "wrap") {
      ModOps* m = mods.at(op.s("t"));
      u128 v = op.w("v");
      out.Emit(Event("wrap").raw("ty", m->Type()).raw("v", JWord(v, m->bits)).raw("out", JWord(m->Wrap(v, op.has("assign"))[0], m->bits)));
    } else {
      fprintf(stderr, "unknown op %s\n", n.c_str());
      exit(99);
    }
  });
}
