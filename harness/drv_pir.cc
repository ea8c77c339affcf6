// Drives the retrieval layer: database builders, servers in their three roles,
// clients, and whole protocol runs with chosen faults.
#include <dlfcn.h>

#include <atomic>
#include <memory>
#include <random>
#include <thread>

#include "dpf/xor_wrapper.h"
#include "pir/canonical_status_payload_uris.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
#include "types.h"
using namespace vf;
using Bl = dp::XorWrapper<absl::uint128>;
using Dense = dp::DenseDpfPirDatabase;
using Cuckoo = dp::CuckooHashedDpfPirDatabase;
using Simple = dp::SimpleHashedDpfPirDatabase;
using DI = Dense::Interface;
using CI = Cuckoo::Interface;
using SI = Simple::Interface;
using Sel = std::vector<std::vector<Bl>>;

// How much randomness was drawn from the library.
static std::atomic<long> g_rand_bytes{0};
extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  static auto real = reinterpret_cast<int (*)(uint8_t*, size_t)>(dlsym(RTLD_NEXT, "RAND_bytes"));
  g_rand_bytes += len;
  return real(buf, len);
}

struct Bld {
  std::string kind;
  std::unique_ptr<DI::Builder> d;
  std::unique_ptr<CI::Builder> c;
  std::unique_ptr<SI::Builder> s;
};
struct Db {
  std::string kind;
  std::shared_ptr<DI> d;
  std::shared_ptr<CI> c;
  std::shared_ptr<SI> s;
  size_t nsel() const { return d ? d->num_selection_bits() : c ? c->num_selection_bits() : s->num_selection_bits(); }
  size_t size() const { return d ? d->size() : c ? c->size() : s->size(); }
};
struct Srv {
  std::string kind;
  std::unique_ptr<dp::DpfPirServer> p;
};
using DC = dp::DenseDpfPirClient;
using CC = dp::CuckooHashingSparseDpfPirClient;
using SC = dp::SimpleHashingSparseDpfPirClient;
struct Cli {
  std::string kind;
  std::unique_ptr<DC> d;
  std::unique_ptr<CC> c;
  std::unique_ptr<SC> s;
};
struct Req {
  dp::PirRequest rq;                       // the leader's request
  dp::DpfPirRequest::HelperRequest he;     // what was encrypted for the helper
  dp::PirRequestClientState st;
};

static std::map<int, Bld> blds;
static std::map<int, Db> dbs;
static std::map<int, Srv> srvs;
static std::map<int, Cli> clis;
static std::map<int, Req> reqs;
static std::map<int, dp::PirResponse> resps;
static std::map<std::string, int> toks;
static int Tok(absl::string_view s) { return toks.emplace(std::string(s), toks.size() + 1).first->second; }

// What the callbacks see and do in the current call.
struct Now {
  std::vector<std::string> log;
  std::string ctx_enc, ctx_dec;
  std::vector<std::pair<std::string, std::string>> enc;   // plaintext, ciphertext
  int encfail = 0;
  std::string cb = "before", fault, dec, dm;
  int helper = -1;
  std::vector<dp::PirRequest> fwd;
  std::vector<std::string> decin;
  std::string inner;      // what the decrypter returned
  bool decrypted = false;
  bool hran = false;
  absl::StatusOr<dp::PirResponse> hresp, sresp;
  bool sran = false;
  int leader = -1, nest = -1;   // another request to the leader while it waits
  absl::StatusOr<dp::PirResponse> nested;
};
static thread_local Now now;

template <typename M>
auto& Get(M& m, int id, const char* what) {
  auto it = m.find(id);
  if (it == m.end()) throw Missing{std::string(what) + " " + std::to_string(id)};
  return it->second;
}

template <typename I>
struct Watch : I {
  std::shared_ptr<I> p;
  std::string name;
  int fail;
  Watch(std::shared_ptr<I> p, std::string name, int fail) : p(p), name(name), fail(fail) {}
  absl::StatusOr<std::vector<typename I::ResponseType>> InnerProductWith(
      absl::Span<const std::vector<typename I::BlockType>> s) const override {
    now.log.push_back(name);
    if (fail) return absl::Status(static_cast<absl::StatusCode>(fail), "database failure");
    return p->InnerProductWith(s);
  }
  size_t size() const override { return p->size(); }
  size_t num_selection_bits() const override { return p->num_selection_bits(); }
};

static std::string JI64(int64_t v) { return JWord(static_cast<u128>(static_cast<uint64_t>(v)), 64); }
static std::string JBs(const std::vector<std::string>& v) {
  return JList(v, [](const std::string& s) { return JBytes(s); });
}
static std::string JResp(const dp::PirResponse& r) {
  return "{\"w\":" + JInt(r.wrapped_pir_response_case()) + ",\"m\":" +
         JList(r.dpf_pir_response().masked_response(), [](const std::string& s) { return JBytes(s); }) + "}";
}
static std::string JResp(const absl::StatusOr<dp::PirResponse>& r) {
  return r.ok() ? JResp(*r) : "{\"w\":0,\"m\":[]}";
}
static std::string JPlain(const dp::DpfPirRequest::PlainRequest& p) {
  return "\"keys\":" + JList(p.dpf_key(), [](const dp::DpfKey& k) { return JKey(k, true); }) +
         ",\"fp\":" + JWord(p.seed_fingerprint(), 32);
}
static std::string JReq(const dp::PirRequest& r) {
  const auto& q = r.dpf_pir_request();
  bool ld = q.wrapped_request_case() == dp::DpfPirRequest::kLeaderRequest;
  const auto& pl = ld ? q.leader_request().plain_request() : q.plain_request();
  const auto& en = ld ? q.leader_request().encrypted_helper_request() : q.encrypted_helper_request();
  return "{\"w\":" + JInt(r.wrapped_pir_request_case()) + ",\"k\":" + JInt(q.wrapped_request_case()) +
         ",\"hp\":" + JInt(ld && q.leader_request().has_plain_request()) +
         ",\"he\":" + JInt(ld && q.leader_request().has_encrypted_helper_request()) +
         ",\"enc\":" + JInt(Tok(en.encrypted_request())) + "," + JPlain(pl) + "}";
}
static std::string JHelper(const dp::DpfPirRequest::HelperRequest& h) {
  return "{" + JPlain(h.plain_request()) + ",\"otp\":" + JBytes(h.one_time_pad_seed()) + "}";
}
static std::string JState(const dp::PirRequestClientState& s) {
  const auto& c = s.cuckoo_hashing_sparse_dpf_pir_request_client_state();
  const auto& p = s.simple_hashing_sparse_dpf_pir_request_client_state();
  const auto& d = s.dense_dpf_pir_request_client_state();
  std::vector<std::string> q(c.query_strings().begin(), c.query_strings().end());
  q.insert(q.end(), p.query_strings().begin(), p.query_strings().end());
  return "{\"k\":" + JInt(s.wrapped_pir_request_client_state_case()) + ",\"otp\":" +
         JBytes(c.one_time_pad_seed() + p.one_time_pad_seed() + d.one_time_pad_seed()) + ",\"qs\":" + JBs(q) + "}";
}
static std::string JHash(int64_t nb, int h, const dp::HashFamilyConfig& f) {
  return "{\"nb\":" + JI64(nb) + ",\"h\":" + JInt(h) + ",\"fam\":" + JInt(f.hash_family()) + ",\"seed\":" + JBytes(f.seed()) + "}";
}
static std::string JPub(const dp::PirServerPublicParams& p) {
  const auto& c = p.cuckoo_hashing_sparse_dpf_pir_server_params();
  const auto& s = p.simple_hashing_sparse_dpf_pir_server_params();
  int k = p.wrapped_pir_server_public_params_case();
  return "{\"k\":" + JInt(k) + ",\"p\":" +
         (k == 2 ? JHash(s.num_buckets(), 1, s.hash_family_config())
                 : JHash(c.num_buckets(), c.num_hash_functions(), c.hash_family_config())) + "}";
}
static dp::HashFamilyConfig FamOf(Op& op) {
  dp::HashFamilyConfig f;
  f.set_hash_family(static_cast<dp::HashFamilyConfig::HashFamily>(op.i("fam", 1)));
  f.set_seed(op.bytes("seed"));
  return f;
}
static dp::CuckooHashingParams CuckooOf(Op& op) {
  dp::CuckooHashingParams p;
  p.set_num_buckets(op.i("nb"));
  p.set_num_hash_functions(op.i("h", 3));
  *p.mutable_hash_family_config() = FamOf(op);
  return p;
}
static dp::SimpleHashingParams SimpleOf(Op& op) {
  dp::SimpleHashingParams p;
  p.set_num_buckets(op.i("nb"));
  *p.mutable_hash_family_config() = FamOf(op);
  return p;
}
// wk: which alternative of the configuration is set
static dp::PirConfig ConfigOf(Op& op, const std::string& d) {
  dp::PirConfig c;
  std::string wk = op.s("wk", d);
  auto fam = static_cast<dp::HashFamilyConfig::HashFamily>(op.i("fam", 1));
  if (wk == "dense") c.mutable_dense_dpf_pir_config()->set_num_elements(op.i("n"));
  if (wk == "cuckoo") {
    c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_num_elements(op.i("n"));
    c.mutable_cuckoo_hashing_sparse_dpf_pir_config()->set_hash_family(fam);
  }
  if (wk == "simple") {
    c.mutable_simple_hashing_sparse_dpf_pir_config()->set_num_buckets(op.i("n"));
    c.mutable_simple_hashing_sparse_dpf_pir_config()->set_hash_family(fam);
  }
  return c;
}

template <typename I>
std::string Products(const std::shared_ptr<I>& p, const Sel& sel, int* code, int* pay) {
  auto r = p->InnerProductWith(sel);
  *code = Code(r);
  *pay = -1;
  if (auto c = r.status().GetPayload(dp::kPirInternalErrorUri)) {
    dp::CanonicalPirError err;
    *pay = err.ParseFromString(std::string(*c)) ? err.code() : -2;
  }
  if (!r.ok()) return "[]";
  if constexpr (std::is_same_v<typename I::ResponseType, std::string>) {
    return JList(*r, [](const std::string& s) { return "[" + JBytes(s) + "]"; });
  } else {
    return JList(*r, [](const auto& s) { return "[" + JBytes(s.first) + "," + JBytes(s.second) + "]"; });
  }
}
static std::string Products(const Db& d, const Sel& sel, int* code, int* pay) {
  if (d.d) return Products(d.d, sel, code, pay);
  if (d.c) return Products(d.c, sel, code, pay);
  return Products(d.s, sel, code, pay);
}

static void MutReq(dp::PirRequest* r, const std::string& ms) {
  if (ms.empty()) return;
  for (auto& m : Split(ms, ';')) {
    auto f = Split(m, ':');
    auto* q = r->mutable_dpf_pir_request();
    bool ld = q->wrapped_request_case() == dp::DpfPirRequest::kLeaderRequest;
    auto plain = [&]() { return ld ? q->mutable_leader_request()->mutable_plain_request() : q->mutable_plain_request(); };
    if (f[0] == "none") r->Clear();
    else if (f[0] == "nokind") q->clear_wrapped_request();
    else if (f[0] == "toplain") { auto p = *plain(); *q->mutable_plain_request() = p; }
    else if (f[0] == "toleader") { auto p = *plain(); *q->mutable_leader_request()->mutable_plain_request() = p; }
    else if (f[0] == "tohelper") {
      std::string e = ld ? q->leader_request().encrypted_helper_request().encrypted_request() : "x";
      q->mutable_encrypted_helper_request()->set_encrypted_request(e);
    }
    else if (f[0] == "noplain") q->mutable_leader_request()->clear_plain_request();
    else if (f[0] == "noenc") q->mutable_leader_request()->clear_encrypted_helper_request();
    else if (f[0] == "emptyenc") q->mutable_leader_request()->mutable_encrypted_helper_request()->clear_encrypted_request();
    else if (f[0] == "nokeys") plain()->clear_dpf_key();
    else if ((f[0] == "drop" || f[0] == "dup") && plain()->dpf_key_size() <= atoi(f.size() > 1 ? f[1].c_str() : "0")) continue;
    else if (f[0] == "drop") plain()->mutable_dpf_key()->RemoveLast();
    else if (f[0] == "dup") { auto k = plain()->dpf_key(atoi(f[1].c_str())); *plain()->add_dpf_key() = k; }
    else if (f[0] == "blank") plain()->add_dpf_key();
    else if (f[0] == "fp") plain()->set_seed_fingerprint(strtoul(f[1].c_str(), nullptr, 16));
    else if (f[0] == "fpadd") plain()->set_seed_fingerprint(plain()->seed_fingerprint() + strtol(f[1].c_str(), nullptr, 10));
    else if (f[0] == "key" && atoi(f[1].c_str()) >= plain()->dpf_key_size()) continue;
    else if (f[0] == "key") {
      std::string rest = m.substr(m.find(':', 4) + 1);
      MutateKey(plain()->mutable_dpf_key(atoi(f[1].c_str())), rest);
    } else exit(99);
  }
}
static void MutHelper(dp::DpfPirRequest::HelperRequest* h, const std::string& ms) {
  if (ms.empty()) return;
  for (auto& m : Split(ms, ';')) {
    auto f = Split(m, ':');
    if (f[0] == "otp") h->set_one_time_pad_seed(f.size() > 1 ? UnHex(f[1]) : "");
    else if (f[0] == "noplain") h->clear_plain_request();
    else {
      dp::PirRequest r;
      *r.mutable_dpf_pir_request()->mutable_plain_request() = h->plain_request();
      MutReq(&r, m);
      *h->mutable_plain_request() = r.dpf_pir_request().plain_request();
    }
  }
}
static void MutResp(dp::PirResponse* r, const std::string& ms) {
  if (ms.empty()) return;
  for (auto& m : Split(ms, ';')) {
    auto f = Split(m, ':');
    auto* l = r->mutable_dpf_pir_response()->mutable_masked_response();
    auto at = [&](int i) { return l->Mutable(atoi(f[i].c_str()) % std::max(1, l->size())); };
    if (f[0] == "none") r->Clear();
    else if (f[0] == "empty") l->Clear();
    else if (l->empty()) continue;
    else if (f[0] == "drop") l->RemoveLast();
    else if (f[0] == "add") { std::string s = l->Get(0); *l->Add() = s; }
    else if (f[0] == "short") { if (!at(1)->empty()) at(1)->pop_back(); }
    else if (f[0] == "cut") at(1)->resize(std::min<size_t>(at(1)->size(), atoi(f[2].c_str())));
    else if (f[0] == "long") at(1)->push_back('z');
    else if (f[0] == "flip") { auto* s = at(1); if (!s->empty()) (*s)[atoi(f[2].c_str()) % s->size()] ^= 1 << atoi(f[3].c_str()); }
    else if (f[0] == "swap") std::swap(*l->Mutable(0), *l->Mutable(l->size() - 1));
    else exit(99);
  }
}

static const std::string kEncPrefix = "sealed:";
static absl::StatusOr<std::string> Encrypt(absl::string_view plain, absl::string_view ctx) {
  now.ctx_enc = std::string(ctx);
  if (now.encfail) return absl::Status(static_cast<absl::StatusCode>(now.encfail), "encrypter failure");
  std::string c = kEncPrefix + std::to_string(now.enc.size() + 7 * Tok(plain)) + ":";
  for (char x : plain) c.push_back(x ^ 0x5A);
  now.enc.push_back({std::string(plain), c});
  return c;
}
static absl::StatusOr<std::string> Decrypt(absl::string_view in, absl::string_view ctx) {
  now.log.push_back("dec");
  now.ctx_dec = std::string(ctx);
  now.decin.push_back(std::string(in));
  auto f = Split(now.dec, ':');
  if (!f.empty() && f[0] == "err") return absl::Status(static_cast<absl::StatusCode>(atoi(f[1].c_str())), "decrypter failure");
  std::string r;
  if (!f.empty() && f[0] == "raw") {
    r = UnHex(f[1]);
  } else {
    size_t p = in.find(':', kEncPrefix.size());
    if (p == absl::string_view::npos) return absl::InvalidArgumentError("cannot decrypt");
    for (char x : in.substr(p + 1)) r.push_back(x ^ 0x5A);
    if (!now.dm.empty()) {
      dp::DpfPirRequest::HelperRequest h;
      h.ParseFromString(r);
      MutHelper(&h, now.dm);
      r = h.SerializeAsString();
    }
  }
  now.inner = r;
  now.decrypted = true;
  return r;
}
static absl::StatusOr<dp::PirResponse> Send(const dp::PirRequest& rq, absl::AnyInvocable<void()> wait) {
  now.log.push_back("send");
  now.fwd.push_back(rq);
  auto cb = [&]() {
    now.log.push_back("wait>");
    wait();
    now.log.push_back("wait<");
  };
  auto f = Split(now.fault, ':');
  std::string kind = f.empty() ? "" : f[0];
  if (now.cb == "before" || now.cb == "twice") cb();
  if (now.nest >= 0) {
    Now saved = std::move(now);
    now = Now();
    now.helper = saved.helper;
    auto x = Get(srvs, saved.leader, "server").p->HandleRequest(Get(reqs, saved.nest, "request").rq);
    now = std::move(saved);
    now.nested = std::move(x);
  }
  now.sran = true;
  if (kind == "err") {
    if (now.cb == "after") cb();
    return now.sresp = absl::Status(static_cast<absl::StatusCode>(atoi(f[1].c_str())), "sender failure");
  }
  now.log.push_back("help>");
  now.hresp = Get(srvs, now.helper, "server").p->HandleRequest(rq);
  now.log.push_back("help<");
  now.hran = true;
  now.sresp = now.hresp;
  if (now.sresp.ok()) MutResp(&*now.sresp, now.fault);
  if (now.cb == "after" || now.cb == "twice") cb();
  return now.sresp;
}

int main(int argc, char** argv) {
  return Main(argc, argv, [](Op& op, Out& out) {
    const std::string& o = op.name;
    const int id = op.i("id");
    now = Now();
    if (o == "new") {
      blds.clear(); dbs.clear(); srvs.clear(); clis.clear(); reqs.clear(); resps.clear(); toks.clear();
      out.Emit(Event("new"));
    } else if (o == "b") {
      Bld b;
      b.kind = op.s("kind");
      if (b.kind == "dense") b.d = std::make_unique<Dense::Builder>();
      if (b.kind == "cuckoo") b.c = std::make_unique<Cuckoo::Builder>();
      if (b.kind == "simple") b.s = std::make_unique<Simple::Builder>();
      blds[id] = std::move(b);
      out.Emit(Event("b").i("id", id).str("kind", op.s("kind")));
    } else if (o == "ins") {
      Bld& b = Get(blds, id, "builder");
      auto k = op.bs("k"), v = op.bs("v");
      for (size_t i = 0; i < v.size(); ++i) {
        if (b.d) b.d->Insert(v[i]);
        if (b.c) b.c->Insert({k[i], v[i]});
        if (b.s) b.s->Insert({k[i], v[i]});
      }
      out.Emit(Event("ins").i("id", id).raw("k", JBs(k)).raw("v", JBs(v)));
    } else if (o == "clone") {
      Bld& b = Get(blds, id, "builder");
      Bld n;
      n.kind = b.kind;
      if (b.d) n.d = b.d->Clone();
      if (b.c) n.c = b.c->Clone();
      if (b.s) n.s = b.s->Clone();
      blds[op.i("to")] = std::move(n);
      out.Emit(Event("clone").i("id", id).i("to", op.i("to")));
    } else if (o == "clear") {
      Bld& b = Get(blds, id, "builder");
      if (b.d) b.d->Clear();
      if (b.c) b.c->Clear();
      if (b.s) b.s->Clear();
      out.Emit(Event("clear").i("id", id));
    } else if (o == "par") {
      Bld& b = Get(blds, id, "builder");
      if (b.c) dynamic_cast<Cuckoo::Builder&>(*b.c).SetParams(CuckooOf(op));
      if (b.s) dynamic_cast<Simple::Builder&>(*b.s).SetParams(SimpleOf(op));
      out.Emit(Event("par").i("id", id).raw("p", JHash(op.i("nb"), op.i("h", 3), FamOf(op))));
    } else if (o == "sub") {   // a builder of the caller's, used before
      Bld& b = Get(blds, id, "builder");
      std::unique_ptr<DI::Builder> d;
      if (!op.has("null")) {
        d = std::make_unique<Dense::Builder>();
        for (int i = 0; i < op.i("fill"); ++i) d->Insert("left over");
        if (op.has("built")) (void)d->Build();
      }
      if (b.c && op.s("which") == "key") dynamic_cast<Cuckoo::Builder&>(*b.c).SetKeyDatabaseBuilder(std::move(d));
      else if (b.c) dynamic_cast<Cuckoo::Builder&>(*b.c).SetValueDatabaseBuilder(std::move(d));
      else if (b.s) dynamic_cast<Simple::Builder&>(*b.s).SetDenseDatabaseBuilder(std::move(d));
      out.Emit(Event("sub").i("id", id));
    } else if (o == "build") {
      Bld& b = Get(blds, id, "builder");
      Db d;
      d.kind = b.kind;
      absl::Status st;
      auto take = [&](auto& p, auto r) {
        st = r.status();
        if (r.ok()) p = std::move(*r);
      };
      if (b.d) take(d.d, b.d->Build());
      if (b.c) take(d.c, b.c->Build());
      if (b.s) take(d.s, b.s->Build());
      Event e("build");
      e.i("id", id).i("d", op.i("d")).str("kind", b.kind).i("code", Code(st));
      int dc = 0, pay = -1;
      std::string dump = "[]", con = "[]";
      if (st.ok()) {
        size_t n = d.nsel();
        Sel s(n, std::vector<Bl>((n + 127) / 128, Bl(0)));
        for (size_t i = 0; i < n; ++i) s[i][i / 128] = Bl(u128(1) << (i % 128));
        dump = Products(d, s, &dc, &pay);
        e.i("size", d.size()).i("nsel", n);
        if (d.d) {
          auto* c = dynamic_cast<Dense*>(d.d.get());
          con = JList(c->content(), [](absl::string_view v) { return JBytes(v); });
          e.i("max", c->max_value_size_in_bytes());
        } else {
          e.i("max", 0);
        }
        dbs[op.i("d")] = std::move(d);
      } else {
        e.i("size", 0).i("nsel", 0).i("max", 0);
      }
      e.i("dc", dc).i("pay", pay).raw("dump", dump).raw("con", con);
      out.Emit(e);
    } else if (o == "ip") {
      Db& d = Get(dbs, op.i("d"), "database");
      Sel s;
      for (auto& x : Split(op.s("sel"), ';')) {
        s.emplace_back();
        if (x != "-")
          for (auto& w : Split(x, ',')) s.back().push_back(Bl(ParseU128(w)));
      }
      int code, pay;
      std::string r = Products(d, s, &code, &pay);
      out.Emit(Event("ip").i("d", op.i("d")).raw("sel", JList(s, [](const std::vector<Bl>& v) {
        return JList(v, [](const Bl& b) { return JWord(b.value()); });
      })).i("code", code).i("pay", pay).raw("res", r));
    } else if (o == "gen") {
      dp::PirConfig c = ConfigOf(op, op.s("kind"));
      Event e("gen");
      e.str("kind", op.s("kind")).str("wk", op.s("wk", op.s("kind"))).i("fam", op.i("fam", 1)).raw("n", JI64(op.i("n")));
      if (op.s("kind") == "cuckoo") {
        auto p = dp::CuckooHashingSparseDpfPirServer::GenerateParams(c);
        e.i("code", Code(p));
        if (p.ok()) e.raw("p", JHash(p->num_buckets(), p->num_hash_functions(), p->hash_family_config()));
      } else {
        auto p = dp::SimpleHashingSparseDpfPirServer::GenerateParams(c);
        e.i("code", Code(p));
        if (p.ok()) e.raw("p", JHash(p->num_buckets(), 1, p->hash_family_config()));
      }
      out.Emit(e);
    } else if (o == "srv") {
      std::string kind = op.s("kind"), role = op.s("role", "plain");
      int d = op.i("d", -1), fail = op.i("dbfail");
      std::string nm = op.s("nm", "db");
      bool cb = op.i("cb", 1);
      Srv s;
      s.kind = kind;
      Event e("srv");
      e.i("id", id).str("kind", kind).str("role", role).i("d", d).i("cb", cb).i("fail", fail).str("nm", nm);
      e.bytes("ctx", kind == "dense"    ? dp::DenseDpfPirServer::kEncryptionContextInfo
                     : kind == "cuckoo" ? dp::CuckooHashingSparseDpfPirServer::kEncryptionContextInfo
                                        : dp::SimpleHashingSparseDpfPirServer::kEncryptionContextInfo);
      dp::DpfPirServer::ForwardHelperRequestFn snd = nullptr;
      dp::DpfPirServer::DecryptHelperRequestFn dec = nullptr;
      if (cb) {
        snd = Send;
        dec = Decrypt;
      }
      absl::Status st;
      auto take = [&](auto r) {
        st = r.status();
        if (r.ok()) s.p = std::move(*r);
      };
      if (kind == "dense") {
        std::unique_ptr<DI> w;
        if (d >= 0) w = std::make_unique<Watch<DI>>(Get(dbs, d, "database").d, nm, fail);
        dp::PirConfig c = ConfigOf(op, kind);
        e.raw("p", "{\"wk\":" + JStr(op.s("wk", kind)) + ",\"n\":" + JI64(op.i("n")) + "}");
        using S = dp::DenseDpfPirServer;
        if (role == "plain") take(S::CreatePlain(c, std::move(w)));
        if (role == "leader") take(S::CreateLeader(c, std::move(w), std::move(snd)));
        if (role == "helper") take(S::CreateHelper(c, std::move(w), std::move(dec)));
      } else if (kind == "cuckoo") {
        std::unique_ptr<CI> w;
        if (d >= 0) w = std::make_unique<Watch<CI>>(Get(dbs, d, "database").c, nm, fail);
        auto c = CuckooOf(op);
        e.raw("p", JHash(c.num_buckets(), c.num_hash_functions(), c.hash_family_config()));
        using S = dp::CuckooHashingSparseDpfPirServer;
        if (role == "plain") take(S::CreatePlain(c, std::move(w)));
        if (role == "leader") take(S::CreateLeader(c, std::move(w), std::move(snd)));
        if (role == "helper") take(S::CreateHelper(c, std::move(w), std::move(dec)));
      } else {
        std::unique_ptr<SI> w;
        if (d >= 0) w = std::make_unique<Watch<SI>>(Get(dbs, d, "database").s, nm, fail);
        auto c = SimpleOf(op);
        e.raw("p", JHash(c.num_buckets(), 1, c.hash_family_config()));
        using S = dp::SimpleHashingSparseDpfPirServer;
        if (role == "plain") take(S::CreatePlain(c, std::move(w)));
        if (role == "leader") take(S::CreateLeader(c, std::move(w), std::move(snd)));
        if (role == "helper") take(S::CreateHelper(c, std::move(w), std::move(dec)));
      }
      e.i("code", Code(st));
      e.bytes("pubb", s.p ? s.p->GetPublicParams().SerializeAsString() : "");
      e.raw("pub", s.p ? JPub(s.p->GetPublicParams()) : JPub(dp::PirServerPublicParams()));
      if (s.p) srvs[id] = std::move(s);
      out.Emit(e);
    } else if (o == "cli") {
      // from the configuration / parameters given, or from a server's public parameters
      std::string kind = op.s("kind");
      Cli c;
      c.kind = kind;
      Event e("cli");
      e.i("id", id).str("kind", kind).i("enc", op.i("enc", 1)).i("def", !op.has("ctx")).bytes("ctx", op.bytes("ctx"));
      absl::Status st;
      auto take = [&](auto& p, auto r) {
        st = r.status();
        if (r.ok()) p = std::move(*r);
      };
      std::string ctx = op.bytes("ctx");
      auto enc = [&]() -> DC::EncryptHelperRequestFn {
        if (op.i("enc", 1) == 0) return nullptr;
        return Encrypt;
      };
      if (kind == "dense") {
        e.raw("p", "{\"wk\":" + JStr(op.s("wk", kind)) + ",\"n\":" + JI64(op.i("n")) + "}");
        if (op.has("ctx")) take(c.d, DC::Create(ConfigOf(op, kind), enc(), ctx));
        else take(c.d, DC::Create(ConfigOf(op, kind), enc()));
      } else {
        dp::PirServerPublicParams p;
        std::string wk = op.s("wk", kind);
        if (op.has("from")) p.ParseFromString(Get(srvs, op.i("from"), "server").p->GetPublicParams().SerializeAsString());
        else if (wk == "cuckoo") *p.mutable_cuckoo_hashing_sparse_dpf_pir_server_params() = CuckooOf(op);
        else if (wk == "simple") *p.mutable_simple_hashing_sparse_dpf_pir_server_params() = SimpleOf(op);
        e.raw("p", JPub(p));
        if (kind == "cuckoo") take(c.c, op.has("ctx") ? CC::Create(p, enc(), ctx) : CC::Create(p, enc()));
        else take(c.s, op.has("ctx") ? SC::Create(p, enc(), ctx) : SC::Create(p, enc()));
      }
      e.i("code", Code(st));
      if (st.ok()) clis[id] = std::move(c);
      out.Emit(e);
    } else if (o == "req") {
      Cli& c = Get(clis, op.i("c"), "client");
      now.encfail = op.i("encfail");
      bool plain = op.has("plain");
      Event e("req");
      e.i("id", id).i("c", op.i("c")).i("plain", plain).i("encfail", now.encfail);
      Req r;
      absl::Status st;
      auto run = [&](auto& cl, auto q) {
        if (plain) {
          auto x = cl->CreatePlainRequests(q);
          st = x.status();
          if (x.ok()) {
            *r.rq.mutable_dpf_pir_request()->mutable_leader_request()->mutable_plain_request() = std::get<0>(*x);
            r.he = std::get<1>(*x);
            r.st = std::get<2>(*x);
          }
        } else {
          auto x = cl->CreateRequest(q);
          st = x.status();
          if (x.ok()) {
            r.rq = x->first;
            r.st = x->second;
            if (!now.enc.empty()) r.he.ParseFromString(now.enc.back().first);
          }
        }
      };
      if (c.d) {
        auto q = op.is("q");
        e.is("q", q);
        run(c.d, absl::MakeConstSpan(q));
      } else {
        auto q = op.bs("q");
        e.raw("q", JBs(q));
        if (c.c) run(c.c, absl::MakeConstSpan(q));
        else run(c.s, absl::MakeConstSpan(q));
      }
      e.i("code", Code(st)).i("nenc", now.enc.size()).bytes("ctx", now.ctx_enc);
      e.i("enc", now.enc.empty() ? 0 : Tok(now.enc.back().second));
      e.raw("rq", JReq(r.rq)).raw("he", JHelper(r.he)).raw("st", JState(r.st)).i("all", op.i("all")).i("wire", op.has("wire"));
      if (op.has("wire")) {
        auto en = now.enc.empty() ? std::make_pair(std::string(), std::string()) : now.enc.back();
        e.bytes("rqb", r.rq.SerializeAsString()).bytes("heb", en.first).bytes("encb", en.second).bytes("stb", r.st.SerializeAsString());
      }
      if (st.ok()) reqs[id] = r;
      out.Emit(e);
    } else if (o == "fresh") {   // many requests for the same thing
      Cli& c = Get(clis, op.i("c"), "client");
      std::vector<std::string> otp;
      std::vector<u128> sa, sb;
      int code = 0;
      auto run = [&](auto& cl, auto q) {
        for (int i = 0; i < op.i("n"); ++i) {
          auto x = cl->CreatePlainRequests(q);
          if (!x.ok()) { code = Code(x); return; }
          otp.push_back(std::get<1>(*x).one_time_pad_seed());
          auto seed = [](const dp::DpfKey& k) { return absl::MakeUint128(k.seed().high(), k.seed().low()); };
          sa.push_back(seed(std::get<0>(*x).dpf_key(0)));
          sb.push_back(seed(std::get<1>(*x).plain_request().dpf_key(0)));
        }
      };
      std::vector<int> qi = {0};
      std::vector<std::string> qs = {"key"};
      if (c.d) run(c.d, absl::MakeConstSpan(qi));
      else if (c.c) run(c.c, absl::MakeConstSpan(qs));
      else run(c.s, absl::MakeConstSpan(qs));
      out.Emit(Event("fresh").i("code", code).raw("otp", JBs(otp)).ws("sa", sa).ws("sb", sb));
    } else if (o == "views") {   // what each server is given, again and again, for one of two lists of queries in turn
      Cli& c = Get(clis, op.i("c"), "client");
      std::vector<std::string> otp;
      std::vector<std::vector<u128>> sa, sb;
      std::vector<std::vector<int>> pa, pb;
      int code = 0;
      long drawn = -g_rand_bytes.load();
      auto run = [&](auto& cl, auto q, auto q2) {
        for (int i = 0; i < op.i("n"); ++i) {
          auto x = i % 2 ? cl->CreatePlainRequests(q2) : cl->CreatePlainRequests(q);
          if (!x.ok()) { code = Code(x); return; }
          otp.push_back(std::get<1>(*x).one_time_pad_seed());
          auto put = [](const auto& keys, auto& s, auto& p) {
            s.emplace_back();
            p.emplace_back();
            for (const dp::DpfKey& k : keys) {
              s.back().push_back(absl::MakeUint128(k.seed().high(), k.seed().low()));
              p.back().push_back(k.party());
            }
          };
          put(std::get<0>(*x).dpf_key(), sa, pa);
          put(std::get<1>(*x).plain_request().dpf_key(), sb, pb);
        }
      };
      Event e("views");
      e.i("c", op.i("c"));
      if (c.d) {
        auto q = op.is("q"), q2 = op.is("q2");
        e.is("q", q).is("q2", q2);
        run(c.d, absl::MakeConstSpan(q), absl::MakeConstSpan(q2));
      } else {
        auto q = op.bs("q"), q2 = op.bs("q2");
        e.raw("q", JBs(q)).raw("q2", JBs(q2));
        if (c.c) run(c.c, absl::MakeConstSpan(q), absl::MakeConstSpan(q2));
        else run(c.s, absl::MakeConstSpan(q), absl::MakeConstSpan(q2));
      }
      auto words = [](const std::vector<u128>& v) { return JList(v, [](u128 x) { return JWord(x); }); };
      auto ints = [](const std::vector<int>& v) { return JList(v, [](int x) { return JInt(x); }); };
      out.Emit(e.i("code", code).raw("otp", JBs(otp)).raw("sa", JList(sa, words)).raw("sb", JList(sb, words))
                   .raw("pa", JList(pa, ints)).raw("pb", JList(pb, ints)).i("drawn", drawn + g_rand_bytes.load()));
    } else if (o == "plain") {   // one server, asked directly
      Srv& s = Get(srvs, op.i("s"), "server");
      Req& r = Get(reqs, op.i("r"), "request");
      dp::PirRequest q;
      auto* pl = q.mutable_dpf_pir_request()->mutable_plain_request();
      *pl = op.i("side") ? r.he.plain_request() : r.rq.dpf_pir_request().leader_request().plain_request();
      MutReq(&q, op.s("m"));
      auto x = s.p->HandleRequest(q);
      out.Emit(Event("plain").i("s", op.i("s")).i("r", op.i("r")).i("side", op.i("side")).i("mut", op.has("m"))
                   .i("full", op.i("full", 1)).raw("rq", JReq(q)).i("code", Code(x)).raw("resp", JResp(x))
                   .i("wire", op.has("wire")).bytes("respb", op.has("wire") && x.ok() ? x->SerializeAsString() : "")
                   .raw("log", JList(now.log, JStr)));
    } else if (o == "help") {    // the helper, asked directly
      Srv& s = Get(srvs, op.i("s"), "server");
      Req& r = Get(reqs, op.i("r"), "request");
      now.dec = op.s("dec");
      now.dm = op.s("dm");
      dp::PirRequest q;
      *q.mutable_dpf_pir_request()->mutable_encrypted_helper_request() =
          r.rq.dpf_pir_request().leader_request().encrypted_helper_request();
      MutReq(&q, op.s("m"));
      auto x = s.p->HandleRequest(q);
      dp::DpfPirRequest::HelperRequest inner;
      bool parsed = now.decrypted && inner.ParseFromString(now.inner);
      Event e("help");
      e.i("s", op.i("s")).raw("rq", JReq(q)).i("full", op.i("full", 1)).str("dec", Split(now.dec + ":", ':')[0]);
      e.i("derr", now.dec.compare(0, 4, "err:") == 0 ? atoi(now.dec.c_str() + 4) : 0);
      e.raw("decin", JList(now.decin, [](const std::string& t) { return JInt(Tok(t)); })).bytes("ctx", now.ctx_dec);
      e.i("dok", now.decrypted).i("parsed", parsed).raw("inner", JHelper(parsed ? inner : dp::DpfPirRequest::HelperRequest()));
      e.i("code", Code(x)).raw("resp", JResp(x));
      out.Emit(e);
    } else if (o == "run") {     // leader and helper together
      Srv& s = Get(srvs, op.i("l"), "server");
      Get(srvs, op.i("h"), "server");
      Req& r = Get(reqs, op.i("r"), "request");
      now.leader = op.i("l");
      now.nest = op.i("nest", -1);
      if (now.nest >= 0) Get(reqs, now.nest, "request");
      now.helper = op.i("h");
      now.cb = op.s("cb", "before");
      now.fault = op.s("fault");
      now.dec = op.s("dec");
      now.dm = op.s("dm");
      dp::PirRequest q = r.rq;
      MutReq(&q, op.s("m"));
      std::string before = q.SerializeAsString();
      auto x = s.p->HandleRequest(q);
      dp::DpfPirRequest::HelperRequest inner;
      bool parsed = now.decrypted && inner.ParseFromString(now.inner);
      Event e("run");
      e.i("id", id).i("l", op.i("l")).i("h", op.i("h")).i("r", op.i("r")).i("full", op.i("full", 1)).raw("rq", JReq(q));
      e.i("clean", !op.has("m") && now.fault.empty() && now.dec.empty() && now.dm.empty());
      e.str("cb", now.cb).i("serr", now.fault.compare(0, 4, "err:") == 0 ? atoi(now.fault.c_str() + 4) : 0);
      e.raw("fwd", JList(now.fwd, [](const dp::PirRequest& p) { return JReq(p); }));
      e.raw("log", JList(now.log, JStr));
      e.str("dec", Split(now.dec + ":", ':')[0]).i("derr", now.dec.compare(0, 4, "err:") == 0 ? atoi(now.dec.c_str() + 4) : 0);
      e.raw("decin", JList(now.decin, [](const std::string& t) { return JInt(Tok(t)); })).bytes("ctx", now.ctx_dec);
      e.i("dok", now.decrypted).i("parsed", parsed).raw("inner", JHelper(parsed ? inner : dp::DpfPirRequest::HelperRequest()));
      e.i("hran", now.hran).i("hcode", now.hran ? Code(now.hresp) : 0).raw("hresp", now.hran ? JResp(now.hresp) : JResp(dp::PirResponse()));
      e.i("sran", now.sran).i("scode", now.sran ? Code(now.sresp) : 0).raw("sresp", now.sran ? JResp(now.sresp) : JResp(dp::PirResponse()));
      e.i("code", Code(x)).raw("resp", JResp(x));
      e.i("kept", q.SerializeAsString() == before).i("wire", op.has("wire"));
      if (op.has("wire")) {
        auto ser = [](const dp::PirRequest& p) { return JBytes(p.SerializeAsString()); };
        e.raw("fwdb", JList(now.fwd, ser)).bytes("encb", q.dpf_pir_request().leader_request().encrypted_helper_request().encrypted_request());
        e.bytes("respb", x.ok() ? x->SerializeAsString() : "").bytes("hrespb", now.hran && now.hresp.ok() ? now.hresp->SerializeAsString() : "");
      }
      if (x.ok()) resps[id] = *x;
      out.Emit(e);
      if (now.nest >= 0 && now.sran)
        out.Emit(Event("mrun").i("l", op.i("l")).i("h", op.i("h")).i("r", now.nest).i("code", Code(now.nested)).raw("resp", JResp(now.nested)));
    } else if (o == "multi") {   // many requests at once
      Srv& s = Get(srvs, op.i("l"), "server");
      Get(srvs, op.i("h"), "server");
      std::vector<int> rs = op.is("rs");
      std::vector<const Req*> rq;
      for (int r : rs) rq.push_back(&Get(reqs, r, "request"));
      std::vector<absl::StatusOr<dp::PirResponse>> res(rs.size() * op.i("rep", 1));
      std::atomic<size_t> next{0};
      std::vector<std::thread> ts;
      for (int t = 0; t < op.i("th", 4); ++t)
        ts.emplace_back([&]() {
          for (size_t i; (i = next++) < res.size();) {
            now = Now();
            now.helper = op.i("h");
            now.cb = i % 2 ? "after" : "before";
            res[i] = s.p->HandleRequest(rq[i % rs.size()]->rq);
          }
        });
      for (auto& t : ts) t.join();
      for (size_t i = 0; i < res.size(); ++i)
        out.Emit(Event("mrun").i("l", op.i("l")).i("h", op.i("h")).i("r", rs[i % rs.size()]).i("code", Code(res[i])).raw("resp", JResp(res[i])));
    } else if (o == "take") {    // the client reads a response
      Cli& c = Get(clis, op.i("c"), "client");
      Req& r = Get(reqs, op.i("r"), "request");
      dp::PirRequestClientState st = r.st;
      dp::PirResponse rp;
      if (op.has("raw")) {       // a made-up response, by its unmasked items
        std::string otp = r.he.one_time_pad_seed();
        auto prng = dp::Aes128CtrSeededPrng::Create(otp);
        rp.mutable_dpf_pir_response();
        for (auto& b : op.bs("raw")) {
          std::string m = (*prng)->GetRandomBytes(b.size()), y = b;
          for (size_t i = 0; i < y.size(); ++i) y[i] ^= m[i];
          rp.mutable_dpf_pir_response()->add_masked_response(y);
        }
      } else {
        rp = Get(resps, op.i("p"), "response");
      }
      MutResp(&rp, op.s("m"));
      if (op.has("sm")) {
        for (auto& m : Split(op.s("sm"), ';')) {
          auto f = Split(m, ':');
          auto* cs = st.has_cuckoo_hashing_sparse_dpf_pir_request_client_state() ? st.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state() : nullptr;
          auto* ss = st.has_simple_hashing_sparse_dpf_pir_request_client_state() ? st.mutable_simple_hashing_sparse_dpf_pir_request_client_state() : nullptr;
          auto* ds = st.has_dense_dpf_pir_request_client_state() ? st.mutable_dense_dpf_pir_request_client_state() : nullptr;
          std::string otp = r.he.one_time_pad_seed();
          if (f[0] == "none") st.Clear();
          else if (f[0] == "dense") st.mutable_dense_dpf_pir_request_client_state()->set_one_time_pad_seed(otp);
          else if (f[0] == "cuckoo") { st.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state()->set_one_time_pad_seed(otp); st.mutable_cuckoo_hashing_sparse_dpf_pir_request_client_state()->add_query_strings("a"); }
          else if (f[0] == "simple") { st.mutable_simple_hashing_sparse_dpf_pir_request_client_state()->set_one_time_pad_seed(otp); st.mutable_simple_hashing_sparse_dpf_pir_request_client_state()->add_query_strings("a"); }
          else if (f[0] == "otp") {
            std::string v = f.size() > 1 ? UnHex(f[1]) : "";
            if (cs) cs->set_one_time_pad_seed(v);
            if (ss) ss->set_one_time_pad_seed(v);
            if (ds) ds->set_one_time_pad_seed(v);
          } else if (f[0] == "dropq") {
            if (cs && cs->query_strings_size()) cs->mutable_query_strings()->RemoveLast();
            if (ss && ss->query_strings_size()) ss->mutable_query_strings()->RemoveLast();
          } else if (f[0] == "addq") {
            if (cs) cs->add_query_strings("b");
            if (ss) ss->add_query_strings("b");
          } else exit(99);
        }
      }
      Event e("take");
      e.i("c", op.i("c")).i("r", op.i("r")).i("p", op.has("raw") ? -1 : op.i("p")).i("mut", op.has("m") || op.has("sm") || op.has("raw"));
      e.raw("st", JState(st)).raw("resp", JResp(rp));
      auto opt = [&](const auto& v) {
        return v.has_value() ? "[1," + JBytes(*v) + "]" : std::string("[0,[]]");
      };
      if (c.d) {
        auto x = c.d->HandleResponse(rp, st);
        e.i("code", Code(x)).raw("res", x.ok() ? JList(*x, [](const std::string& v) { return "[1," + JBytes(v) + "]"; }) : "[]");
      } else if (c.c) {
        auto x = c.c->HandleResponse(rp, st);
        e.i("code", Code(x)).raw("res", x.ok() ? JList(*x, opt) : "[]");
      } else {
        auto x = c.s->HandleResponse(rp, st);
        e.i("code", Code(x)).raw("res", x.ok() ? JList(*x, opt) : "[]");
      }
      out.Emit(e);
    } else {
      fprintf(stderr, "unknown op %s\n", o.c_str());
      exit(99);
    }
  });
}
