// Comparison functions and the interval containment gate.
#include <algorithm>
#include <thread>
#include "common.h"
#include "dcf/distributed_comparison_function.h"
#include "dcf/fss_gates/multiple_interval_containment.h"
#include "types.h"
using namespace vf;
namespace dp = distributed_point_functions;
using Mic = dp::fss_gates::MultipleIntervalContainmentGate;

struct Dcf {
  std::unique_ptr<dp::DistributedComparisonFunction> d;
  std::string ty;
};
struct Key {
  int d;
  dp::DcfKey k;
};
struct MKey {
  int m;
  dp::fss_gates::MicKey k;
  bool full = false;
};
static std::map<int, Dcf> dcfs;
static std::map<int, Key> keys;
static std::map<int, std::unique_ptr<Mic>> mics;
static std::map<int, MKey> mkeys;
template <typename M>
static typename M::mapped_type& At(M& m, int id, const char* what) {
  auto it = m.find(id);
  if (it == m.end()) throw Missing{std::string(what) + " " + std::to_string(id)};
  return it->second;
}

// Bounds and mask shares: u<hex> 64-bit field, w<hex> 128-bit field, 0 unset.
static void SetInt(dp::Value::Integer* i, const std::string& s) {
  u128 v = ParseU128(s.substr(1));
  if (s[0] == 'u') {
    i->set_value_uint64(absl::Uint128Low64(v));
  } else if (s[0] == 'w') {
    i->mutable_value_uint128()->set_high(absl::Uint128High64(v));
    i->mutable_value_uint128()->set_low(absl::Uint128Low64(v));
  }
}
static std::string JMicKey(const dp::fss_gates::MicKey& k, bool full) {
  return "{\"has\":" + JInt(k.has_dcfkey() && k.dcfkey().has_key()) + ",\"key\":" + JKey(k.dcfkey().key(), full) + ",\"z\":" +
         JList(k.output_mask_share(), JVInt) + "}";
}
static std::string JWords(const std::vector<u128>& v) {
  return JList(v, [](u128 x) { return JWord(x); });
}

int main(int argc, char** argv) {
  return Main(argc, argv, [](Op& op, Out& out) {
    const std::string& n = op.name;
    if (n == "reset") {
      dcfs.clear();
      keys.clear();
      mics.clear();
      mkeys.clear();
      out.Emit(Event("new"));
    } else if (n == "dcf") {
      std::vector<dp::DpfParameters> par;
      std::vector<std::string> ty;
      dp::DcfParameters dpar;
      if (op.s("lv") != "none") {
        ParsePars(op.s("lv"), &par, &ty);
        *dpar.mutable_parameters() = par[0];
      } else {
        par.resize(1);
        ty.push_back("-");
      }
      auto r = dp::DistributedComparisonFunction::Create(dpar);
      int reg = ty[0] == "u8" || ty[0] == "u16" || ty[0] == "u32" || ty[0] == "u64" || ty[0] == "u128";
      out.Emit(Event("dcf").i("id", op.i("id")).raw("par", JPar(par[0])).i("reg", reg).i("code", Code(r)));
      if (r.ok()) dcfs[op.i("id")] = Dcf{*std::move(r), ty[0]};
    } else if (n == "gen") {
      Dcf& D = At(dcfs, op.i("d"), "dcf");
      u128 alpha = op.w("alpha");
      absl::StatusOr<std::pair<dp::DcfKey, dp::DcfKey>> r = absl::UnknownError("");
      dp::Value v;
      bool tmpl = false;
      if (op.has("raw")) {
        v = ParseValue(op.s("raw"));
        r = D.d->GenerateKeys(alpha, v);
      } else {
        Flat f = FlatOf(op.s("beta"));
        v = TypeNamed(D.ty)->Val(f);
        tmpl = !op.has("val");
        r = tmpl ? TypeNamed(D.ty)->DcfGen(*D.d, alpha, f) : D.d->GenerateKeys(alpha, v);
      }
      int id = op.i("id");
      bool full = op.has("full");
      Event e("gen");
      e.i("id", id).i("d", op.i("d")).w("alpha", alpha).i("tmpl", tmpl).raw("bv", JValue(v)).i("code", Code(r)).i("full", full);
      if (r.ok()) {
        e.raw("ka", JKey(r->first.key(), full)).raw("kb", JKey(r->second.key(), full));
        if (full) e.raw("w", JBytes(r->first.SerializeAsString()));
        keys[2 * id] = Key{(int)op.i("d"), r->first};
        keys[2 * id + 1] = Key{(int)op.i("d"), r->second};
      }
      out.Emit(e);
    } else if (n == "ser") {
      Key& k = At(keys, op.i("k"), "key");
      dp::DcfKey k2;
      if (!k2.ParseFromString(k.k.SerializeAsString())) exit(98);
      k.k = k2;
    } else if (n == "mkey") {
      Key k = At(keys, op.i("from"), "key");
      if (op.s("mut") == "nokey") k.k.clear_key();
      else for (auto& m : Split(op.s("mut"), '+')) MutateKey(k.k.mutable_key(), m);
      keys[op.i("k")] = k;
      out.Emit(Event("mkey").i("k", op.i("k")).i("from", op.i("from")).raw("key", JKey(k.k.key(), false)));
    } else if (n == "eval") {   // several keys and points in one call, and each on its own
      Dcf& D = At(dcfs, op.i("d"), "dcf");
      const TypeOps* t = TypeNamed(op.has("t") ? op.s("t") : D.ty);
      std::vector<const dp::DcfKey*> ks;
      for (int k : op.is("ks")) ks.push_back(&At(keys, k, "key").k);
      auto xs = op.ws("xs");
      int mode = op.i("mode"), osz = op.i("osz", ks.size());
      auto r = t->DcfBatch(*D.d, ks, xs, mode, osz);
      Event e("eval");
      e.i("d", op.i("d")).is("ks", op.is("ks")).ws("xs", xs).raw("ty", JType(t->Type())).i("mode", mode).i("osz", mode == 2 ? osz : (int)ks.size()).i("code", Code(r));
      std::vector<Flat> one;
      std::vector<int> oc;
      for (size_t i = 0; i < ks.size() && i < xs.size(); ++i) {
        auto v = t->DcfEval(*D.d, *ks[i], xs[i]);
        oc.push_back(Code(v));
        one.push_back(v.ok() ? *v : Flat());
      }
      e.is("oc", oc).raw("one", t->JL(one));
      if (r.ok()) e.raw("out", t->JL(*r));
      out.Emit(e);
    } else if (n == "mt") {     // the same with several threads sharing the object; each distinct outcome is reported
      Dcf& D = At(dcfs, op.i("d"), "dcf");
      const TypeOps* t = TypeNamed(D.ty);
      auto kid = op.is("ks");
      auto xs = op.ws("xs");
      int nt = op.i("nt"), m = kid.size();
      struct Got { int code; std::vector<Flat> v; bool operator==(const Got& o) const { return code == o.code && v == o.v; } };
      std::vector<std::vector<Got>> got(nt);
      auto rot = [&](int j, int i) { return (i + j) % m; };   // each thread its own order
      std::vector<std::thread> th;
      for (int j = 0; j < nt; ++j)
        th.emplace_back([&, j] {
          std::vector<const dp::DcfKey*> ks;
          std::vector<u128> x;
          for (int i = 0; i < m; ++i) {
            ks.push_back(&keys.at(kid[rot(j, i)]).k);
            x.push_back(xs[rot(j, i)]);
          }
          for (int r = 0; r < op.i("reps"); ++r) {
            Got g{0, {}};
            if (j % 2) {
              auto y = t->DcfBatch(*D.d, ks, x, j % 4 == 1 ? 0 : 1, m);
              g.code = Code(y);
              if (y.ok()) g.v = *y;
            } else {
              for (int i = 0; i < m && g.code == 0; ++i) {
                auto y = t->DcfEval(*D.d, *ks[i], x[i]);
                g.code = Code(y);
                if (y.ok()) g.v.push_back(*y);
              }
            }
            if (std::find(got[j].begin(), got[j].end(), g) == got[j].end() && got[j].size() < 3) got[j].push_back(g);
          }
        });
      for (auto& x : th) x.join();
      for (int j = 0; j < nt; ++j) {
        std::vector<int> id, oc;
        std::vector<u128> x;
        std::vector<Flat> one;
        for (int i = 0; i < m; ++i) {
          id.push_back(kid[rot(j, i)]);
          x.push_back(xs[rot(j, i)]);
          auto v = t->DcfEval(*D.d, keys.at(id[i]).k, x[i]);
          oc.push_back(Code(v));
          one.push_back(v.ok() ? *v : Flat());
        }
        for (auto& g : got[j]) {
          Event e("eval");
          e.i("d", op.i("d")).is("ks", id).ws("xs", x).raw("ty", JType(t->Type())).i("mode", 0).i("osz", m).i("code", g.code);
          e.is("oc", oc).raw("one", t->JL(one));
          if (g.code == 0) e.raw("out", t->JL(g.v));
          out.Emit(e);
        }
      }
    } else if (n == "pair") {   // both parties at the same points
      int id = op.i("id");
      Key &ka = At(keys, 2 * id, "key"), &kb = At(keys, 2 * id + 1, "key");
      Dcf& D = At(dcfs, ka.d, "dcf");
      const TypeOps* t = TypeNamed(D.ty);
      auto xs = op.ws("xs");
      std::vector<const dp::DcfKey*> va(xs.size(), &ka.k), vb(xs.size(), &kb.k);
      auto a = t->DcfBatch(*D.d, va, xs, op.i("mode"), xs.size()), b = t->DcfBatch(*D.d, vb, xs, op.i("mode"), xs.size());
      Event e("pair");
      e.i("id", id).ws("xs", xs).i("ca", Code(a)).i("cb", Code(b));
      if (a.ok() && b.ok()) e.raw("a", t->JL(*a)).raw("b", t->JL(*b));
      out.Emit(e);
    } else if (n == "mic") {   // intervals  lo:hi;lo:hi  ("-" a bound that is absent)
      dp::fss_gates::MicParameters p;
      p.set_log_group_size(op.i("n"));
      for (auto& s : Split(op.s("iv"), ';')) {
        auto f = Split(s, ':');
        auto* iv = p.add_intervals();
        if (f[0] != "-") SetInt(iv->mutable_lower_bound(), f[0]);
        if (f[1] != "-") SetInt(iv->mutable_upper_bound(), f[1]);
      }
      auto r = Mic::Create(p);
      out.Emit(Event("mic").i("id", op.i("id")).i("n", op.i("n")).raw("iv", JList(p.intervals(), [](const dp::fss_gates::Interval& i) {
        return "{\"hl\":" + JInt(i.has_lower_bound()) + ",\"hu\":" + JInt(i.has_upper_bound()) + ",\"lo\":" + JVInt(i.lower_bound()) + ",\"hi\":" + JVInt(i.upper_bound()) + "}";
      })).i("code", Code(r)));
      if (r.ok()) mics[op.i("id")] = *std::move(r);
    } else if (n == "mgen") {
      Mic& m = *At(mics, op.i("m"), "gate");
      auto rout = op.ws("rout");
      auto r = m.Gen(op.w("rin"), rout);
      int id = op.i("id");
      Event e("mgen");
      e.i("id", id).i("m", op.i("m")).w("rin", op.w("rin")).ws("rout", rout).i("code", Code(r)).i("full", op.has("full"));
      if (r.ok()) {
        if (op.has("full")) e.raw("wa", JBytes(r->first.SerializeAsString())).raw("wb", JBytes(r->second.SerializeAsString()));
        e.raw("ka", JMicKey(r->first, op.has("full"))).raw("kb", JMicKey(r->second, op.has("full")));
        mkeys[2 * id] = MKey{(int)op.i("m"), r->first, op.has("full")};
        mkeys[2 * id + 1] = MKey{(int)op.i("m"), r->second, op.has("full")};
      }
      out.Emit(e);
    } else if (n == "mmkey") {
      MKey k = At(mkeys, op.i("from"), "gate key");
      auto f = Split(op.s("mut"), ':');
      if (f[0] == "dropz") k.k.mutable_output_mask_share()->RemoveLast();
      else if (f[0] == "addz") SetInt(k.k.add_output_mask_share(), "u0");
      else if (f[0] == "noz") k.k.clear_output_mask_share();
      else if (f[0] == "z") { k.k.mutable_output_mask_share(atoi(f[1].c_str()))->Clear(); SetInt(k.k.mutable_output_mask_share(atoi(f[1].c_str())), f[2]); }
      else if (f[0] == "nodcf") k.k.clear_dcfkey();
      else MutateKey(k.k.mutable_dcfkey()->mutable_key(), op.s("mut"));
      mkeys[op.i("k")] = k;
      out.Emit(Event("mmkey").i("k", op.i("k")).i("from", op.i("from")).raw("key", JMicKey(k.k, k.full)));
    } else if (n == "mser") {
      MKey& k = At(mkeys, op.i("k"), "gate key");
      dp::fss_gates::MicKey k2;
      if (!k2.ParseFromString(k.k.SerializeAsString())) exit(98);
      k.k = k2;
    } else if (n == "meval") {
      Mic& m = *At(mics, op.i("m"), "gate");
      std::vector<const dp::fss_gates::MicKey*> ks;
      std::vector<dp::fss_gates::MicKey> copy;
      for (int k : op.is("ks")) {
        ks.push_back(&At(mkeys, k, "gate key").k);
        copy.push_back(*ks.back());
      }
      auto xs = op.ws("xs");
      auto r = op.has("copy") ? m.BatchEval(copy, xs) : m.BatchEval(ks, xs);
      Event e("meval");
      e.i("m", op.i("m")).is("ks", op.is("ks")).ws("xs", xs).i("code", Code(r));
      std::vector<int> oc;
      std::vector<std::vector<u128>> one;
      for (size_t i = 0; i < ks.size() && i < xs.size(); ++i) {
        auto v = m.Eval(*ks[i], xs[i]);
        oc.push_back(Code(v));
        one.push_back(v.ok() ? *v : std::vector<u128>());
      }
      e.is("oc", oc).raw("one", JList(one, JWords));
      if (r.ok()) e.ws("out", *r);
      out.Emit(e);
    } else if (n == "mmt") {    // threads sharing a gate
      Mic& m = *At(mics, op.i("m"), "gate");
      auto kid = op.is("ks");
      auto xs = op.ws("xs");
      int nt = op.i("nt"), sz = kid.size();
      struct Got { int code; std::vector<u128> v; bool operator==(const Got& o) const { return code == o.code && v == o.v; } };
      std::vector<std::vector<Got>> got(nt);
      auto rot = [&](int j, int i) { return (i + j) % sz; };
      std::vector<std::thread> th;
      for (int j = 0; j < nt; ++j)
        th.emplace_back([&, j] {
          std::vector<const dp::fss_gates::MicKey*> ks;
          std::vector<u128> x;
          for (int i = 0; i < sz; ++i) {
            ks.push_back(&mkeys.at(kid[rot(j, i)]).k);
            x.push_back(xs[rot(j, i)]);
          }
          for (int r = 0; r < op.i("reps"); ++r) {
            auto y = m.BatchEval(ks, x);
            Got g{Code(y), {}};
            if (y.ok()) g.v = *y;
            if (std::find(got[j].begin(), got[j].end(), g) == got[j].end() && got[j].size() < 3) got[j].push_back(g);
          }
        });
      for (auto& x : th) x.join();
      for (int j = 0; j < nt; ++j) {
        std::vector<int> id, oc;
        std::vector<u128> x;
        std::vector<std::vector<u128>> one;
        for (int i = 0; i < sz; ++i) {
          id.push_back(kid[rot(j, i)]);
          x.push_back(xs[rot(j, i)]);
          auto v = m.Eval(mkeys.at(id[i]).k, x[i]);
          oc.push_back(Code(v));
          one.push_back(v.ok() ? *v : std::vector<u128>());
        }
        for (auto& g : got[j]) {
          Event e("meval");
          e.i("m", op.i("m")).is("ks", id).ws("xs", x).i("code", g.code).is("oc", oc).raw("one", JList(one, JWords));
          if (g.code == 0) e.ws("out", g.v);
          out.Emit(e);
        }
      }
    } else if (n == "mpair") {   // both parties: pair ids[i] at xs[i], in one batch per party
      Mic& m = *At(mics, op.i("m"), "gate");
      auto ids = op.is("ids");
      auto xs = op.ws("xs");
      std::vector<const dp::fss_gates::MicKey*> va, vb;
      for (int id : ids) {
        va.push_back(&At(mkeys, 2 * id, "gate key").k);
        vb.push_back(&At(mkeys, 2 * id + 1, "gate key").k);
      }
      auto a = m.BatchEval(va, xs), b = m.BatchEval(vb, xs);
      Event e("mpair");
      e.i("m", op.i("m")).is("ids", ids).ws("xs", xs).i("ca", Code(a)).i("cb", Code(b));
      if (a.ok() && b.ok()) e.ws("a", *a).ws("b", *b);
      out.Emit(e);
    } else if (n == "mfresh") {   // the parts of repeated key pairs that must be random
      Mic& m = *At(mics, op.i("m"), "gate");
      std::vector<std::vector<u128>> za, zb;   // [interval][repetition]
      std::vector<u128> sa, sb;
      auto rout = op.ws("rout");
      int code = 0;
      for (int j = 0; j < op.i("n"); ++j) {
        auto r = m.Gen(op.w("rin"), rout);
        code = Code(r);
        if (code) break;
        for (auto* k : {&r->first, &r->second}) {
          auto& zs = k == &r->first ? za : zb;
          zs.resize(k->output_mask_share_size());
          for (int i = 0; i < k->output_mask_share_size(); ++i) {
          const auto& z = k->output_mask_share(i);
          u128 v = z.value_case() == dp::Value::Integer::kValueUint64 ? u128(z.value_uint64()) : absl::MakeUint128(z.value_uint128().high(), z.value_uint128().low());
          zs[i].push_back(v);
          }
          const auto& s = k->dcfkey().key().seed();
          (k == &r->first ? sa : sb).push_back(absl::MakeUint128(s.high(), s.low()));
        }
      }
      out.Emit(Event("mfresh").i("m", op.i("m")).ws("rout", rout).i("code", code).raw("za", JList(za, [](const std::vector<u128>& v) { return JList(v, [](u128 x) { return JWord(x); }); }))
                   .raw("zb", JList(zb, [](const std::vector<u128>& v) { return JList(v, [](u128 x) { return JWord(x); }); })).ws("sa", sa).ws("sb", sb));
    } else {
      fprintf(stderr, "unknown op %s\n", n.c_str());
      exit(99);
    }
  });
}
