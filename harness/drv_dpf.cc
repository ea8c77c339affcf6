// Distributed point functions: creation, key generation and every way of evaluating.
#include <dlfcn.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <mutex>
#include <thread>

#include "types.h"
using namespace vf;

// How much randomness was drawn from the library, and for how many key pairs.
static std::atomic<long> g_rand_bytes{0}, g_pairs{0};
extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  static auto real = reinterpret_cast<int (*)(uint8_t*, size_t)>(dlsym(RTLD_NEXT, "RAND_bytes"));
  g_rand_bytes += len;
  return real(buf, len);
}

struct Dpf {
  std::unique_ptr<dp::DistributedPointFunction> d;
  std::vector<dp::DpfParameters> par;
  std::vector<std::string> ty;
};
static std::map<int, Dpf> dpfs;
struct Key {
  int d;
  dp::DpfKey k;
};
static std::map<int, Key> keys;
struct Ctx {
  int d;
  dp::EvaluationContext c;
};
static std::map<int, Ctx> ctxs;

template <typename M>
static M& At(std::map<int, M>& m, int i, const char* what) {
  auto it = m.find(i);
  if (it == m.end()) throw Missing{std::string(what) + " " + std::to_string(i)};
  return it->second;
}

static std::unique_ptr<dp::DistributedPointFunction> Make(const std::vector<dp::DpfParameters>& par,
                                                          const std::vector<std::string>& ty, bool reg, bool inc,
                                                          int* code) {
  auto r = par.size() == 1 && !inc ? dp::DistributedPointFunction::Create(par[0])
                                   : dp::DistributedPointFunction::CreateIncremental(par);
  *code = Code(r);
  if (!r.ok()) return nullptr;
  if (reg)
    for (auto& t : ty)
      if (Types().count(t)) TypeNamed(t)->Register(**r).IgnoreError();
  return *std::move(r);
}

static int Registered(const std::string& t, bool reg) {
  return (reg && Types().count(t)) || t == "u8" || t == "u16" || t == "u32" || t == "u64" || t == "u128";
}

static u128 Compose(u128 prefix, int shift, u128 y) { return (shift >= 128 ? u128(0) : prefix << shift) | y; }

// Shares at single positions, each computed on its own.
static std::vector<Flat> Direct(const TypeOps* t, dp::DistributedPointFunction& d, const dp::DpfKey& k, int lv,
                                const std::vector<u128>& pos) {
  std::vector<Flat> r;
  for (u128 x : pos) {
    u128 one[1] = {x};
    auto v = t->At(d, k, lv, one);
    r.push_back(v.ok() && v->size() == 1 ? (*v)[0] : Flat());
  }
  return r;
}
static std::vector<u128> Positions(const Dpf& D, int prev, int lv, const std::vector<u128>& pre) {
  std::vector<u128> pos;
  int ld = D.par[lv].log_domain_size();
  if (pre.empty()) {
    for (uint64_t y = 0; y < (uint64_t(1) << ld); ++y) pos.push_back(y);
  } else {
    int gap = ld - D.par[prev].log_domain_size();
    for (u128 p : pre)
      for (uint64_t y = 0; y < (uint64_t(1) << gap); ++y) pos.push_back(Compose(p, gap, y));
  }
  return pos;
}


// A description of a context, complete enough to judge it.
static std::string JCtx(const dp::EvaluationContext& c) {
  return "{\"par\":" + JList(c.parameters(), JPar) + ",\"haskey\":" + JInt(c.has_key()) + ",\"key\":" +
         JKey(c.key(), false) + ",\"prev\":" + JInt(c.previous_hierarchy_level()) + ",\"np\":" +
         JInt(c.partial_evaluations_size()) + ",\"pl\":" + JInt(c.partial_evaluations_level()) + "}";
}

static void MutateCtx(dp::EvaluationContext* c, const std::string& m, int* bad) {
  auto f = Split(m, ':');
  if (f[0] == "nokey") c->clear_key();
  else if (f[0] == "droppar") c->mutable_parameters()->RemoveLast();
  else if (f[0] == "addpar") { dp::DpfParameters p = c->parameters(c->parameters_size() - 1); *c->add_parameters() = p; }
  else if (f[0] == "nopar") c->clear_parameters();
  else if (f[0] == "ld") c->mutable_parameters(atoi(f[1].c_str()))->set_log_domain_size(atoi(f[2].c_str()));
  else if (f[0] == "sec") c->mutable_parameters(atoi(f[1].c_str()))->set_security_parameter(atof(f[2].c_str()));
  else if (f[0] == "ty") *c->mutable_parameters(atoi(f[1].c_str()))->mutable_value_type() = ParseType(Split(m, '=')[1]);
  else if (f[0] == "noty") c->mutable_parameters(atoi(f[1].c_str()))->clear_value_type();
  else if (f[0] == "prev") c->set_previous_hierarchy_level(atoi(f[1].c_str()));
  else if (f[0] == "pl") c->set_partial_evaluations_level(atoi(f[1].c_str()));
  else if (f[0] == "noparts") c->clear_partial_evaluations();
  else if (f[0] == "part") { auto* p = c->add_partial_evaluations(); p->mutable_prefix()->set_low(atol(f[1].c_str())); p->mutable_seed()->set_low(7); }
  else if (f[0] == "rev") std::reverse(c->mutable_partial_evaluations()->pointer_begin(), c->mutable_partial_evaluations()->pointer_end());
  else if (f[0] == "dup") { if (c->partial_evaluations_size() == 0) return; dp::PartialEvaluation p = c->partial_evaluations(0); *c->add_partial_evaluations() = p; }
  else if (f[0] == "dupbad") { if (c->partial_evaluations_size() == 0) return; *bad = 1; dp::PartialEvaluation p = c->partial_evaluations(0); p.mutable_seed()->set_low(p.seed().low() ^ 2); *c->add_partial_evaluations() = p; }
  else if (f[0] == "key") MutateKey(c->mutable_key(), m.substr(4));
  else exit(99);
}
static std::string Ser(const dp::EvaluationContext& c) { return c.SerializeAsString(); }

int main(int argc, char** argv) {
  return Main(argc, argv, [](Op& op, Out& out) {
    const std::string& n = op.name;
    if (n == "reset") {
      ctxs.clear();
      keys.clear();
      dpfs.clear();
      out.Emit(Event("new"));
    } else if (n == "dpf") {
      Dpf D;
      ParsePars(op.s("lv"), &D.par, &D.ty);
      int code;
      D.d = Make(D.par, D.ty, !op.has("noreg"), op.has("inc"), &code);
      out.Emit(Event("dpf").i("id", op.i("id")).i("code", code).raw("regs", JList(D.ty, [&](const std::string& t) { return JInt(Registered(t, !op.has("noreg"))); })).raw("par", JList(D.par, JPar)));
      if (D.d) dpfs[op.i("id")] = std::move(D);
    } else if (n == "gen") {
      Dpf& D = At(dpfs, op.i("d"), "dpf");
      std::vector<dp::Value> bv;
      std::vector<Flat> bf;
      u128 alpha = op.w("alpha");
      absl::StatusOr<std::pair<dp::DpfKey, dp::DpfKey>> r = absl::UnknownError("");
      int mode = op.i("mode");
      if (op.has("raw")) {
        for (auto& s : Split(op.s("raw"), '/')) bv.push_back(ParseValue(s));
      } else {
        size_t i = 0;
        for (auto& s : Split(op.s("betas"), '/')) {
          bf.push_back(FlatOf(s));
          bv.push_back(TypeNamed(D.ty[i])->Val(bf.back()));
          ++i;
        }
      }
      if (mode == 0) r = D.par.size() == 1 && bv.size() == 1 ? D.d->GenerateKeys(alpha, bv[0]) : D.d->GenerateKeysIncremental(alpha, bv);
      else r = TypeNamed(D.ty[0])->Gen(*D.d, alpha, bf, mode);
      int id = op.i("id");
      Event e("gen");
      e.i("id", id).i("d", op.i("d")).w("alpha", alpha).raw("bv", JList(bv, JValue)).i("code", Code(r));
      if (r.ok()) {
        bool full = op.has("full");
        e.i("full", full).raw("ka", JKey(r->first, full)).raw("kb", JKey(r->second, full));
        keys[2 * id] = Key{(int)op.i("d"), r->first};
        ++g_pairs;
        keys[2 * id + 1] = Key{(int)op.i("d"), r->second};
      }
      out.Emit(e);
    } else if (n == "ser") {   // keys through their wire format
      int id = op.i("id");
      bool ok = true;
      for (int p = 0; p < 2; ++p) {
        Key& k = At(keys, 2 * id + p, "key");
        dp::DpfKey k2;
        ok &= k2.ParseFromString(k.k.SerializeAsString());
        k.k = k2;
      }
      if (!ok) exit(98);
    } else if (n == "mkey") {
      Key k = At(keys, op.i("from"), "key");
      for (auto& m : Split(op.s("mut"), '+')) MutateKey(&k.k, m);
      keys[op.i("k")] = k;
      out.Emit(Event("mkey").i("k", op.i("k")).i("from", op.i("from")).i("full", op.has("full")).raw("key", JKey(k.k, op.has("full"))));
    } else if (n == "at") {
      Key& k = At(keys, op.i("k"), "key");
      Dpf& D = At(dpfs, op.has("d") ? op.i("d") : k.d, "dpf");
      int lv = op.i("lv");
      auto pts = op.ws("pts");
      const TypeOps* t = TypeNamed(op.has("t") ? op.s("t") : D.ty[lv >= 0 && lv < (int)D.ty.size() ? lv : 0]);
      auto r = t->At(*D.d, k.k, lv, pts);
      Event e("at");
      e.i("k", op.i("k")).i("d", op.has("d") ? op.i("d") : k.d).i("lv", lv).i("t", op.has("t")).raw("ty", JType(t->Type())).ws("pts", pts).i("code", Code(r));
      if (r.ok()) {
        e.raw("out", t->JL(*r));
        if (!op.has("nodir")) e.raw("dir", t->JL(Direct(t, *D.d, k.k, lv, pts)));
      }
      out.Emit(e);
    } else if (n == "pair") {   // both parties through the same steps  (lv:prefix,prefix;...)
      int id = op.i("id");
      Key &ka = At(keys, 2 * id, "key"), &kb = At(keys, 2 * id + 1, "key");
      Dpf& D = At(dpfs, ka.d, "dpf");
      auto ca = D.d->CreateEvaluationContext(ka.k), cb = D.d->CreateEvaluationContext(kb.k);
      int prev = -1;
      for (auto& st : Split(op.s("steps"), ';')) {
        auto f = Split(st, ':');
        int lv = atoi(f[0].c_str());
        std::vector<u128> pre;
        if (f.size() > 1) for (auto& x : Split(f[1], ',')) pre.push_back(ParseU128(x));
        const TypeOps* t = TypeNamed(D.ty[lv]);
        Event e("pair");
        e.i("id", id).i("lv", lv).i("prev", prev).ws("pre", pre);
        if (!ca.ok() || !cb.ok()) {
          e.i("ca", Code(ca)).i("cb", Code(cb));
        } else {
          auto a = t->Until(*D.d, lv, pre, *ca, false), b = t->Until(*D.d, lv, pre, *cb, false);
          e.i("ca", Code(a)).i("cb", Code(b));
          if (a.ok() && b.ok()) e.raw("a", t->JL(*a)).raw("b", t->JL(*b));
        }
        out.Emit(e);
        prev = lv;
      }
    } else if (n == "wide") {   // a whole wide expansion of both keys: where their sum is not zero
      int id = op.i("id"), lv = op.i("lv"), via = op.i("via", -1);
      Key &ka = At(keys, 2 * id, "key"), &kb = At(keys, 2 * id + 1, "key");
      Dpf& D = At(dpfs, ka.d, "dpf");
      auto pre = op.ws("pre");
      const TypeOps* t = TypeNamed(D.ty[lv]);
      TypeOps::Vec r[2] = {absl::UnknownError(""), absl::UnknownError("")};
      for (int p = 0; p < 2; ++p) {
        auto c = D.d->CreateEvaluationContext(p ? kb.k : ka.k);
        if (!c.ok()) { r[p] = c.status(); continue; }
        if (via >= 0) {
          auto x = TypeNamed(D.ty[via])->Until(*D.d, via, {}, *c, false);
          if (!x.ok()) { r[p] = x.status(); continue; }
        }
        r[p] = t->Until(*D.d, lv, pre, *c, false);
      }
      Event e("wide");
      e.i("id", id).i("lv", lv).i("via", via).ws("pre", pre).i("ca", Code(r[0])).i("cb", Code(r[1]));
      if (r[0].ok() && r[1].ok()) {
        e.i("na", r[0]->size()).i("nb", r[1]->size());
        std::vector<int> at;
        std::vector<Flat> v;
        Flat zero = t->Group("zero", (*r[0])[0], (*r[0])[0]);
        for (size_t i = 0; i < r[0]->size() && i < r[1]->size() && at.size() < 40; ++i) {
          Flat x = t->Group("add", (*r[0])[i], (*r[1])[i]);
          if (x != zero) { at.push_back(i); v.push_back(x); }
        }
        e.is("at", at).raw("v", t->JL(v));
      }
      out.Emit(e);
    } else if (n == "pairat") {
      int id = op.i("id"), lv = op.i("lv");
      Key &ka = At(keys, 2 * id, "key"), &kb = At(keys, 2 * id + 1, "key");
      Dpf& D = At(dpfs, ka.d, "dpf");
      const TypeOps* t = TypeNamed(D.ty[lv]);
      auto pts = op.ws("pts");
      auto a = t->At(*D.d, ka.k, lv, pts), b = t->At(*D.d, kb.k, lv, pts);
      Event e("pairat");
      e.i("id", id).i("lv", lv).ws("pts", pts).i("ca", Code(a)).i("cb", Code(b));
      if (a.ok() && b.ok()) e.raw("a", t->JL(*a)).raw("b", t->JL(*b));
      out.Emit(e);
    } else if (n == "ctx") {
      Key& k = At(keys, op.i("k"), "key");
      Dpf& D = At(dpfs, op.has("d") ? op.i("d") : k.d, "dpf");
      auto c = D.d->CreateEvaluationContext(k.k);
      Event e("ctx");
      e.i("id", op.i("id")).i("k", op.i("k")).i("d", op.has("d") ? op.i("d") : k.d).i("code", Code(c));
      if (c.ok()) e.i("prev", c->previous_hierarchy_level());
      out.Emit(e);
      if (c.ok()) ctxs[op.i("id")] = Ctx{op.has("d") ? (int)op.i("d") : k.d, *c};
    } else if (n == "mctx") {
      Ctx c = At(ctxs, op.i("from"), "ctx");
      int bad = 0;
      for (auto& m : Split(op.s("mut"), '+')) MutateCtx(&c.c, m, &bad);
      ctxs[op.i("id")] = c;
      out.Emit(Event("mctx").i("id", op.i("id")).i("from", op.i("from")).i("bad", bad).raw("ctx", JCtx(c.c)));
    } else if (n == "until" || n == "next") {
      Ctx& c = At(ctxs, op.i("id"), "ctx");
      Dpf& D = At(dpfs, c.d, "dpf");
      auto pre = op.ws("pre");
      int prev = c.c.previous_hierarchy_level();
      int lv = n == "until" ? op.i("lv") : pre.empty() ? 0 : prev + 1;
      const TypeOps* t = TypeNamed(op.has("t") ? op.s("t") : D.ty[lv >= 0 && lv < (int)D.ty.size() ? lv : 0]);
      std::string before = Ser(c.c);
      auto r = t->Until(*D.d, lv, pre, c.c, n == "next");
      Event e("until");
      e.i("id", op.i("id")).i("lv", lv).i("t", op.has("t")).raw("ty", JType(t->Type())).ws("pre", pre).i("code", Code(r)).i("same", Ser(c.c) == before)
          .i("prev", c.c.previous_hierarchy_level());
      if (r.ok()) {
        e.raw("out", t->JL(*r));
        if (!op.has("nodir")) {
          auto pos = Positions(D, prev, lv, pre);
          e.ws("pos", pos).raw("dir", t->JL(Direct(t, *D.d, c.c.key(), lv, pos)));
        }
      }
      out.Emit(e);
    } else if (n == "atc") {
      Ctx& c = At(ctxs, op.i("id"), "ctx");
      Dpf& D = At(dpfs, c.d, "dpf");
      int lv = op.i("lv");
      auto pts = op.ws("pts");
      const TypeOps* t = TypeNamed(op.has("t") ? op.s("t") : D.ty[lv >= 0 && lv < (int)D.ty.size() ? lv : 0]);
      dp::EvaluationContext saved = c.c;
      auto r = t->AtCtx(*D.d, lv, pts, c.c);
      Event e("atc");
      e.i("id", op.i("id")).i("lv", lv).i("t", op.has("t")).raw("ty", JType(t->Type())).ws("pts", pts).i("code", Code(r)).i("same", Ser(c.c) == Ser(saved))
          .i("prev", c.c.previous_hierarchy_level());
      if (r.ok()) e.raw("out", t->JL(*r)).raw("dir", t->JL(Direct(t, *D.d, saved.key(), lv, pts)));
      else c.c = saved;   // the context is undefined after an error: carry on from a copy
      out.Emit(e);
    } else if (n == "reload") {   // the context through its wire format, into another object
      Ctx& c = At(ctxs, op.i("id"), "ctx");
      dp::EvaluationContext c2;
      bool ok = c2.ParseFromString(c.c.SerializeAsString());
      c.c = c2;
      if (op.has("fresh")) {
        Dpf& D = At(dpfs, c.d, "dpf");
        int code;
        auto d2 = Make(D.par, D.ty, true, true, &code);
        if (d2) D.d = std::move(d2);
      }
      out.Emit(Event("reload").i("id", op.i("id")).i("ok", ok).i("prev", c.c.previous_hierarchy_level()));
    } else if (n == "ctxw") {   // what a context holds, field by field and as bytes
      const dp::EvaluationContext& c = At(ctxs, op.i("id"), "ctx").c;
      dp::EvaluationContext par;
      *par.mutable_parameters() = c.parameters();
      std::string w = Ser(c), pw = Ser(par);
      auto blk = [](const dp::Block& b) { return JWord(absl::MakeUint128(b.high(), b.low())); };
      out.Emit(Event("ctxw").i("id", op.i("id")).raw("ctx", JCtx(c)).raw("key", JKey(c.key(), true))
                   .raw("parts", JList(c.partial_evaluations(), [&](const dp::PartialEvaluation& p) {
                     return "{\"p\":" + blk(p.prefix()) + ",\"s\":" + blk(p.seed()) + ",\"c\":" + JInt(p.control_bit()) + "}";
                   }))
                   .i("front", w.compare(0, pw.size(), pw) == 0).bytes("w", w.compare(0, pw.size(), pw) == 0 ? w.substr(pw.size()) : w));
    } else if (n == "fork") {
      ctxs[op.i("id")] = At(ctxs, op.i("from"), "ctx");
      out.Emit(Event("fork").i("id", op.i("id")).i("from", op.i("from")));
    } else if (n == "apply") {
      Dpf& D = At(dpfs, op.i("d"), "dpf");
      std::vector<const dp::DpfKey*> ks;
      for (int k : op.is("ks")) ks.push_back(&At(keys, k, "key").k);
      auto pts = op.ws("pts");
      int shift = op.i("shift"), stop = op.i("stop", 1000), calls = 0;
      const TypeOps* t = TypeNamed(D.ty[0]);
      std::vector<std::vector<Flat>> res;
      absl::Status s = t->Apply(*D.d, ks, pts, [&](const std::vector<Flat>& v) {
        res.push_back(v);
        return ++calls < stop;
      }, shift, op.has("deref"));
      Event e("apply");
      e.i("d", op.i("d")).is("ks", op.is("ks")).ws("pts", pts).i("shift", shift).i("stop", stop).i("code", Code(s))
          .raw("res", JList(res, [&](const std::vector<Flat>& v) { return t->JL(v); }));
      if (s.ok()) {
        int last = D.par.back().log_domain_size();
        std::vector<std::vector<u128>> pos;
        std::vector<std::vector<Flat>> dir;
        for (size_t lv = 0; lv < D.par.size() && (int)lv < stop; ++lv) {
          std::vector<u128> p;
          std::vector<Flat> r;
          int sh = shift + last - D.par[lv].log_domain_size();
          for (size_t j = 0; j < ks.size(); ++j) {
            p.push_back(sh >= 128 ? u128(0) : pts[j] >> sh);
            r.push_back(Direct(t, *D.d, *ks[j], lv, {p[j]})[0]);
          }
          pos.push_back(p);
          dir.push_back(r);
        }
        e.raw("pos", JList(pos, [](const std::vector<u128>& v) { return JList(v, [](u128 x) { return JWord(x); }); }))
            .raw("dir", JList(dir, [&](const std::vector<Flat>& v) { return t->JL(v); }));
      }
      out.Emit(e);
    } else if (n == "mt") {   // threads that share the object (and its keys), each repeating one kind of evaluation
      Dpf& D = At(dpfs, op.i("d"), "dpf");
      auto kid = op.is("ks");
      auto pts = op.ws("pts");
      int lv = op.i("lv"), nt = op.i("nt"), reps = op.i("reps"), last = D.par.back().log_domain_size();
      const TypeOps* t = TypeNamed(D.ty[lv]);
      std::vector<const dp::DpfKey*> ks;
      for (int k : kid) ks.push_back(&At(keys, k, "key").k);
      std::vector<std::vector<std::vector<Flat>>> outs(nt);
      std::vector<std::vector<int>> codes(nt);
      std::vector<std::vector<Flat>> dirs(nt);
      std::vector<std::vector<u128>> pos(nt);
      std::vector<u128> low;      // the points at the chosen level
      for (u128 x : pts) low.push_back(last - D.par[lv].log_domain_size() >= 128 ? u128(0) : x >> (last - D.par[lv].log_domain_size()));
      auto kind = [&](int j) { int k = op.i("kind", -1); k = k >= 0 ? k : j % 3; return k == 1 && D.par[lv].log_domain_size() > 8 ? 0 : k; };
      std::vector<std::thread> th;
      for (int j = 0; j < nt; ++j)
        th.emplace_back([&, j] {
          for (int r = 0; r < reps; ++r) {
            std::vector<Flat> got;
            int code = 0;
            const dp::DpfKey& k = *ks[j % ks.size()];
            if (kind(j) == 0) {
              auto x = t->At(*D.d, k, lv, low);
              code = Code(x);
              if (x.ok()) got = *x;
            } else if (kind(j) == 1) {
              auto c = D.d->CreateEvaluationContext(k);
              code = Code(c);
              if (c.ok()) {
                auto x = t->Until(*D.d, lv, {}, *c, false);
                code = Code(x);
                if (x.ok()) got = *x;
              }
            } else {
              code = Code(t->Apply(*D.d, ks, pts, [&](const std::vector<Flat>& v) { got = v; return false; }, 0, false));
            }
            if (std::find(outs[j].begin(), outs[j].end(), got) == outs[j].end() && outs[j].size() < 3) outs[j].push_back(got);
            if (std::find(codes[j].begin(), codes[j].end(), code) == codes[j].end()) codes[j].push_back(code);
          }
        });
      for (auto& x : th) x.join();
      for (int j = 0; j < nt; ++j) {
        if (kind(j) == 0) pos[j] = low;
        else if (kind(j) == 1) pos[j] = Positions(D, -1, lv, {});
        else for (u128 x : pts) pos[j].push_back(last - D.par[0].log_domain_size() >= 128 ? u128(0) : x >> (last - D.par[0].log_domain_size()));
        if (kind(j) < 2) dirs[j] = Direct(t, *D.d, *ks[j % ks.size()], lv, pos[j]);
        else for (size_t i = 0; i < ks.size(); ++i) dirs[j].push_back(Direct(t, *D.d, *ks[i], 0, {pos[j][i]})[0]);
      }
      std::vector<int> js(nt);
      for (int j = 0; j < nt; ++j) js[j] = j;
      out.Emit(Event("mt").i("d", op.i("d")).i("lv", lv).is("ks", kid).raw("th", JList(js, [&](int j) {
        return "{\"kind\":" + JInt(kind(j)) + ",\"k\":" + JInt(kid[j % kid.size()]) + ",\"codes\":" + JList(codes[j], [](int c) { return JInt(c); }) +
               ",\"pos\":" + JList(pos[j], [](u128 x) { return JWord(x); }) + ",\"dir\":" + t->JL(dirs[j]) +
               ",\"outs\":" + JList(outs[j], [&](const std::vector<Flat>& v) { return t->JL(v); }) + "}";
      })));
    } else if (n == "fresh") {   // seeds of many key pairs of one request
      Dpf& D = At(dpfs, op.i("d"), "dpf");
      std::vector<dp::Value> bv;
      size_t i = 0;
      for (auto& s : Split(op.s("betas"), '/')) bv.push_back(TypeNamed(D.ty[i++])->Val(FlatOf(s)));
      std::vector<u128> a, b;
      int code = 0;
      int nt = op.i("nt", 1);     // drawn by several threads at once
      std::mutex mu;
      std::vector<std::thread> th;
      for (int x = 0; x < nt; ++x)
        th.emplace_back([&] {
          for (int j = 0; j < op.i("n") / nt; ++j) {
            auto r = D.d->GenerateKeysIncremental(op.w("alpha"), bv);
            std::lock_guard<std::mutex> lock(mu);
            if (!r.ok()) { code = Code(r); break; }
            a.push_back(absl::MakeUint128(r->first.seed().high(), r->first.seed().low()));
            b.push_back(absl::MakeUint128(r->second.seed().high(), r->second.seed().low()));
            ++g_pairs;
          }
        });
      for (auto& x : th) x.join();
      out.Emit(Event("fresh").i("code", code).ws("a", a).ws("b", b).i("drawn", g_rand_bytes.load()).i("pairs", g_pairs.load()));
    } else {
      fprintf(stderr, "unknown op %s\n", n.c_str());
      exit(99);
    }
  });
}
