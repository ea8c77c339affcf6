BUGS = []
HEAD = r'''
#include <cstdio>
#include <limits>
#include <memory>
#include <string>
#include <vector>
#include "dpf/distributed_point_function.h"
#include "pir/cuckoo_hashed_dpf_pir_database.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_client.h"
#include "pir/cuckoo_hashing_sparse_dpf_pir_server.h"
#include "pir/dense_dpf_pir_client.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_server.h"
#include "pir/hashing/hash_family_config.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "pir/simple_hashed_dpf_pir_database.h"
#include "pir/simple_hashing_sparse_dpf_pir_client.h"
#include "pir/simple_hashing_sparse_dpf_pir_server.h"
using namespace distributed_point_functions;
#define CHECK(x, ...) do { if (!(x)) { printf("WRONG: " __VA_ARGS__); printf("\n"); return 1; } } while (0)
#define NEED(x) do { if (!(x)) { printf("cannot run: %s\n", #x); return 2; } } while (0)
absl::StatusOr<std::string> Plain(absl::string_view t, absl::string_view) { return std::string(t); }
PirConfig Dense(int64_t n) { PirConfig c; c.mutable_dense_dpf_pir_config()->set_num_elements(n); return c; }
std::unique_ptr<DenseDpfPirDatabase::Interface> DenseDb(const std::vector<std::string>& v) {
  DenseDpfPirDatabase::Builder b;
  for (auto& s : v) b.Insert(s);
  auto r = b.Build();
  return r.ok() ? std::move(*r) : nullptr;
}
// The answer of two plain servers to a pair of plain requests, masked as a helper would.
template <typename S> absl::StatusOr<PirResponse> Both(const S& s0, const S& s1, const DpfPirRequest::PlainRequest& a,
                                                       const DpfPirRequest::HelperRequest& b) {
  PirRequest r0, r1;
  *r0.mutable_dpf_pir_request()->mutable_plain_request() = a;
  *r1.mutable_dpf_pir_request()->mutable_plain_request() = b.plain_request();
  auto x = s0->HandleRequest(r0), y = s1->HandleRequest(r1);
  if (!x.ok()) return x.status();
  if (!y.ok()) return y.status();
  auto p = Aes128CtrSeededPrng::Create(b.one_time_pad_seed());
  if (!p.ok()) return p.status();
  for (int i = 0; i < x->dpf_pir_response().masked_response_size(); ++i) {
    std::string& m = *x->mutable_dpf_pir_response()->mutable_masked_response(i);
    std::string k = (*p)->GetRandomBytes(m.size());
    for (size_t j = 0; j < m.size(); ++j) m[j] ^= k[j] ^ y->dpf_pir_response().masked_response(i)[j];
  }
  return *x;
}
'''
SPARSE = r'''
using KV = std::pair<std::string, std::string>;
SimpleHashingParams SParams(const std::string& seed, int64_t n) {
  SimpleHashingParams p;
  p.mutable_hash_family_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  p.mutable_hash_family_config()->set_seed(seed);
  p.set_num_buckets(n);
  return p;
}
CuckooHashingParams CParams(const std::string& seed, int64_t n, int h) {
  CuckooHashingParams p;
  p.mutable_hash_family_config()->set_hash_family(HashFamilyConfig::HASH_FAMILY_SHA256);
  p.mutable_hash_family_config()->set_seed(seed);
  p.set_num_buckets(n);
  p.set_num_hash_functions(h);
  return p;
}
template <typename DB, typename P> std::unique_ptr<typename DB::Interface> Db(const P& p, const std::vector<KV>& kv) {
  typename DB::Builder b;
  b.SetParams(p);
  for (auto& x : kv) b.Insert(x);
  auto r = b.Build();
  return r.ok() ? std::move(*r) : nullptr;
}
using SDb = SimpleHashedDpfPirDatabase; using SSrv = SimpleHashingSparseDpfPirServer; using SCl = SimpleHashingSparseDpfPirClient;
using CDb = CuckooHashedDpfPirDatabase; using CSrv = CuckooHashingSparseDpfPirServer; using CCl = CuckooHashingSparseDpfPirClient;
'''
DDB, DC, DS = "pir/dense_dpf_pir_database.cc", "pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc"
SC, SS, SD = "pir/simple_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashed_dpf_pir_database.cc"
CC, CS, CD = "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/cuckoo_hashed_dpf_pir_database.cc"
PS, IP, HF = "pir/dpf_pir_server.cc", "pir/internal/inner_product_hwy.cc", "pir/hashing/hash_family.cc"

BUGS.append(dict(id="B01-clone-after-build", property="B01",
 needs="a builder that is cloned after it has been built",
 breaks="the clone can be built (an empty database) instead of refusing",
 edits=[(DDB, "  result->values_ = values_;\n  result->has_been_built_ = has_been_built_;\n", "  result->values_ = values_;\n")],
 libs=["pir"], cc=HEAD + r'''
int main() {
  DenseDpfPirDatabase::Builder b;
  b.Insert("abc").Insert("defg");
  NEED(b.Build().ok());
  auto c = b.Clone();
  auto d = c->Build();
  CHECK(!d.ok(), "a clone of a built builder was built, with %d records", int((*d)->size()));
  c->Clear();
  c->Insert("x");
  NEED(c->Build().ok());
  return 0;
}
'''))
BUGS.append(dict(id="B01-clear-value-column", property="B01",
 needs="a key-value builder that is built, cleared, filled again and built again",
 breaks="the second build is refused: the value column still counts as built",
 edits=[(CD, "  if (value_database_builder_ != nullptr) {\n    value_database_builder_->Clear();\n  }\n  records_.clear();", "  records_.clear();")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  CDb::Builder b;
  b.SetParams(CParams("seed", 8, 3)).Insert({"a", "x"}).Insert({"b", "y"});
  NEED(b.Build().ok());
  b.Clear();
  b.Insert({"c", "z"});
  auto d = b.Build();
  CHECK(d.ok(), "%s", std::string(d.status().message()).c_str());
  CHECK((*d)->size() == 1, "size %d", int((*d)->size()));
  return 0;
}
'''))
BUGS.append(dict(id="B01-empty-record", property="B01", checks=["B01", "I01", "P01"],
 needs="a database with an empty record before another one",
 breaks="every record after the empty one moves up by one position",
 edits=[(DDB, "    value_offsets_.push_back({offset, 0});\n    content_views_.push_back(absl::string_view());\n", "    value_offsets_.push_back({offset, 0});\n")],
 libs=["pir"], cc=HEAD + r'''
int main() {
  auto d = DenseDb({"abc", "", "defg"});
  NEED(d != nullptr);
  std::vector<std::vector<XorWrapper<absl::uint128>>> sel = {{XorWrapper<absl::uint128>(absl::uint128{4})}};
  auto r = d->InnerProductWith(sel);
  NEED(r.ok());
  CHECK((*r)[0] == "defg", "position 2 answers %s", (*r)[0].c_str());
  return 0;
}
'''))
BUGS.append(dict(id="I01-skip-block", property="I01",
 needs="a selection block in which, for all selections computed in parallel, only records of the upper half of the block are selected",
 breaks="the records of that block are left out",
 edits=[(IP, "    // The selection bits are packed in blocks, so we go over them next.\n    const int base = i * kBitsPerBlock;\n", """    // Skip blocks in which nothing is selected.
    absl::uint128 selected = 0;
    for (int k = 0; k < selections.size(); ++k) {
      selected |= selections[k][i].value();
    }
    if (static_cast<uint64_t>(selected) == 0) {
      continue;
    }
    // The selection bits are packed in blocks, so we go over them next.
    const int base = i * kBitsPerBlock;
""")],
 libs=["inner"], cc=r'''
#include <cstdio>
#include "pir/internal/inner_product_hwy.h"
using namespace distributed_point_functions;
int main() {
  std::vector<std::string> v;
  for (int i = 0; i < 200; ++i) v.push_back("record " + std::to_string(1000 + i));
  std::vector<absl::string_view> w(v.begin(), v.end());
  for (int i : {3, 63, 64, 100, 127, 128, 199}) {
    std::vector<std::vector<XorWrapper<absl::uint128>>> s(1, std::vector<XorWrapper<absl::uint128>>(2));
    s[0][i / 128] = XorWrapper<absl::uint128>(absl::uint128{1} << (i % 128));
    auto r = pir_internal::InnerProduct(w, s, 11);
    if (!r.ok()) return 2;
    if ((*r)[0] != v[i]) { printf("WRONG: record %d is %s\n", i, (*r)[0].c_str()); return 1; }
  }
  return 0;
}
'''))
BUGS.append(dict(id="I01-full-vector", property="I01",
 needs="a record whose length is a multiple of the machine's vector length, at an aligned address",
 breaks="the last vector of the record is left out",
 edits=[(IP, "      for (; pos + N <= value_size; pos += N) {\n", "      for (; pos + N < value_size; pos += N) {\n")],
 libs=["inner"], cc=r'''
#include <cstdio>
#include "pir/internal/inner_product_hwy.h"
using namespace distributed_point_functions;
int main() {
  for (int len : {5, 16, 31, 32, 33, 64, 96, 128, 256}) {
    char* buf = static_cast<char*>(aligned_alloc(256, 4096));
    std::vector<absl::string_view> w;
    for (int i = 0; i < 4096; ++i) buf[i] = char(i * 7 + i / 256);
    for (int i = 0; i < 4; ++i) w.push_back(absl::string_view(buf + 512 * i, len));
    std::vector<std::vector<XorWrapper<absl::uint128>>> s(1, std::vector<XorWrapper<absl::uint128>>(1));
    s[0][0] = XorWrapper<absl::uint128>(absl::uint128{4});
    auto r = pir_internal::InnerProduct(w, s, len);
    if (!r.ok()) return 2;
    if ((*r)[0] != w[2]) { printf("WRONG: records of %d bytes\n", len); return 1; }
  }
  return 0;
}
'''))
BUGS.append(dict(id="P01-one-past", property="P01", checks=["P01"],
 needs="a query for the index equal to the number of records",
 breaks="the query is not refused and answers zeros (or, when the records fill the domain, fails later)",
 edits=[(DC, "    if (query >= database_size_) {", "    if (query > database_size_) {")],
 libs=["pir"], cc=HEAD + r'''
int main() {
  for (int n : {1, 5, 128, 129, 300}) {
    auto c = DenseDpfPirClient::Create(Dense(n), Plain, "");
    NEED(c.ok());
    NEED((*c)->CreatePlainRequests(std::vector<int>{0, n - 1}).ok());
    CHECK(!(*c)->CreatePlainRequests(std::vector<int>{0, n}).ok(), "index %d of %d accepted", n, n);
  }
  return 0;
}
'''))
BUGS.append(dict(id="P01-power-of-two", property="P01",
 needs="a database whose number of records is a power of two (the client counts one level too many there)",
 breaks="the servers refuse the client's keys",
 edits=[(DC, "      std::ceil(std::log2(config.dense_dpf_pir_config().num_elements()))));", "      std::floor(std::log2(config.dense_dpf_pir_config().num_elements())) + 1));")],
 libs=["pir"], cc=HEAD + r'''
int main() {
  for (int n : {5, 16, 100, 128}) {
    std::vector<std::string> v;
    for (int i = 0; i < n; ++i) v.push_back("record " + std::to_string(1000 + i));
    auto s0 = DenseDpfPirServer::CreatePlain(Dense(n), DenseDb(v)), s1 = DenseDpfPirServer::CreatePlain(Dense(n), DenseDb(v));
    auto c = DenseDpfPirClient::Create(Dense(n), Plain, "");
    NEED(s0.ok() && s1.ok() && c.ok());
    DpfPirRequest::PlainRequest a; DpfPirRequest::HelperRequest b; PirRequestClientState st;
    auto q = (*c)->CreatePlainRequests(std::vector<int>{n - 1, 0});
    NEED(q.ok());
    std::tie(a, b, st) = *q;
    auto r = Both(*s0, *s1, a, b);
    CHECK(r.ok(), "%d records: %s", n, std::string(r.status().message()).c_str());
    auto x = (*c)->HandleResponse(*r, st);
    NEED(x.ok());
    CHECK((*x)[0] == v[n - 1] && (*x)[1] == v[0], "%d records: wrong records", n);
  }
  return 0;
}
'''))
BUGS.append(dict(id="P01-repeated-key", property="P01",
 needs="a batch in which two neighbouring queries fall into the same block of 128 records, past the first block",
 breaks="the second of two neighbouring queries into the same block of 128 records gets the first one's record",
 edits=[(DC, """    absl::uint128 alpha = query_indices[i] / kBitsPerBlock;
    XorWrapper<absl::uint128> beta(absl::uint128{1}
                                   << (query_indices[i] % kBitsPerBlock));
""", """    absl::uint128 alpha = query_indices[i] / kBitsPerBlock;
    if (i > 0 && query_indices[i] / kBitsPerBlock ==
                     query_indices[i - 1] / kBitsPerBlock &&
        query_indices[i] >= kBitsPerBlock) {
      // Neighbouring queries into the same block: reuse the keys.
      *(leader_request.mutable_dpf_key()->Add()) =
          leader_request.dpf_key(i - 1);
      *(helper_request.mutable_plain_request()->mutable_dpf_key()->Add()) =
          helper_request.plain_request().dpf_key(i - 1);
      continue;
    }
    XorWrapper<absl::uint128> beta(absl::uint128{1}
                                   << (query_indices[i] % kBitsPerBlock));
""")],
 libs=["pir"], cc=HEAD + r'''
int main() {
  int n = 300;
  std::vector<std::string> v;
  for (int i = 0; i < n; ++i) v.push_back("record " + std::to_string(1000 + i));
  auto s0 = DenseDpfPirServer::CreatePlain(Dense(n), DenseDb(v)), s1 = DenseDpfPirServer::CreatePlain(Dense(n), DenseDb(v));
  auto c = DenseDpfPirClient::Create(Dense(n), Plain, "");
  NEED(s0.ok() && s1.ok() && c.ok());
  DpfPirRequest::PlainRequest a; DpfPirRequest::HelperRequest b; PirRequestClientState st;
  std::vector<int> q = {5, 6, 200, 201, 299, 299};
  auto t = (*c)->CreatePlainRequests(q);
  NEED(t.ok());
  std::tie(a, b, st) = *t;
  auto r = Both(*s0, *s1, a, b);
  NEED(r.ok());
  auto x = (*c)->HandleResponse(*r, st);
  NEED(x.ok());
  for (int i = 0; i < 6; ++i) CHECK((*x)[i] == v[q[i]], "record %d is %s", q[i], (*x)[i].c_str());
  return 0;
}
'''))
BUGS.append(dict(id="P02-embedded-nul", property="P02",
 needs="two keys that agree up to an embedded zero byte and share a bucket under some hash function, one of them stored there",
 breaks="a key that is not stored is answered with the value of another key (comparison stops at the zero byte)",
 edits=[(CC, "      if (input[i] != prefix[i]) return false;", "      if (input[i] != prefix[i]) return false;\n      if (input[i] == '\\0') return true;")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  std::string k1("ab\0cd", 5), k2("ab\0ce", 5);
  auto p = CParams("seed", 1, 2);
  auto s0 = CSrv::CreatePlain(p, Db<CDb>(p, {{k1, "value"}})), s1 = CSrv::CreatePlain(p, Db<CDb>(p, {{k1, "value"}}));
  NEED(s0.ok() && s1.ok());
  auto c = CCl::Create((*s0)->GetPublicParams(), Plain, "");
  NEED(c.ok());
  DpfPirRequest::PlainRequest a; DpfPirRequest::HelperRequest b; PirRequestClientState st;
  auto t = (*c)->CreatePlainRequests(std::vector<std::string>{k1, k2});
  NEED(t.ok());
  std::tie(a, b, st) = *t;
  auto r = Both(*s0, *s1, a, b);
  NEED(r.ok());
  auto x = (*c)->HandleResponse(*r, st);
  NEED(x.ok());
  CHECK((*x)[0].has_value() && *(*x)[0] == "value", "the stored key is not found");
  CHECK(!(*x)[1].has_value(), "a key that is not stored is found");
  return 0;
}
'''))
BUGS.append(dict(id="P02-coinciding-hashes", property="P02",
 needs="a queried key for which the last two of its buckets coincide and hold another element, or a key stored in the bucket of its last hash function only",
 breaks="a stored key whose element sits in the last candidate bucket is not found when the second candidate equals the first",
 edits=[(CC, """      int raw_index = 2 * (hash_functions_.size() * i + j);
""", """      int raw_index = 2 * (hash_functions_.size() * i + j);
      // A bucket that has been looked at already does not hold the key.
      if (j > 0 && raw_responses[raw_index] == raw_responses[raw_index - 2]) {
        break;
      }
""")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  // Find keys for which h0 = h1 != h2.
  HashFamilyConfig f = CParams("seed", 4, 3).hash_family_config();
  auto fam = CreateHashFamilyFromConfig(f);
  NEED(fam.ok());
  auto h = CreateHashFunctions(std::move(*fam), 3);
  NEED(h.ok());
  auto p = CParams("seed", 4, 3);
  for (int i = 0, tried = 0; i < 1000 && tried < 40; ++i) {
    std::string k = "key" + std::to_string(i);
    if ((*h)[0](k, 4) != (*h)[1](k, 4) || (*h)[0](k, 4) == (*h)[2](k, 4)) continue;
    ++tried;
    auto d0 = Db<CDb>(p, {{k, "value"}}), d1 = Db<CDb>(p, {{k, "value"}});
    NEED(d0 && d1);
    // Both servers must hold the same table.
    std::vector<std::vector<XorWrapper<absl::uint128>>> sel = {{XorWrapper<absl::uint128>(absl::uint128{1} << (*h)[2](k, 4))}};
    auto e0 = d0->InnerProductWith(sel), e1 = d1->InnerProductWith(sel);
    NEED(e0.ok() && e1.ok());
    if ((*e0)[0].first != (*e1)[0].first) continue;
    auto s0 = CSrv::CreatePlain(p, std::move(d0)), s1 = CSrv::CreatePlain(p, std::move(d1));
    NEED(s0.ok() && s1.ok());
    auto c = CCl::Create((*s0)->GetPublicParams(), Plain, "");
    NEED(c.ok());
    DpfPirRequest::PlainRequest a; DpfPirRequest::HelperRequest b; PirRequestClientState st;
    auto t = (*c)->CreatePlainRequests(std::vector<std::string>{k});
    NEED(t.ok());
    std::tie(a, b, st) = *t;
    auto r = Both(*s0, *s1, a, b);
    NEED(r.ok());
    auto x = (*c)->HandleResponse(*r, st);
    NEED(x.ok());
    CHECK((*x)[0].has_value() && *(*x)[0] == "value", "stored key %s is not found", k.c_str());
  }
  return 0;
}
'''))
BUGS.append(dict(id="P03-same-bucket", property="P03",
 needs="two neighbouring queries for different keys of the same bucket",
 breaks="the second query gets the answer of the first",
 edits=[(SC, "    // We need to use a CodedInputStream here", """    if (i > 0 && raw_responses[i] == raw_responses[i - 1]) {
      result[i] = result[i - 1];
      continue;
    }
    // We need to use a CodedInputStream here""")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  auto p = SParams("seed", 2);
  std::vector<KV> kv = {{"a", "1"}, {"b", "2"}, {"c", "3"}, {"d", "4"}};
  auto s0 = SSrv::CreatePlain(p, Db<SDb>(p, kv)), s1 = SSrv::CreatePlain(p, Db<SDb>(p, kv));
  NEED(s0.ok() && s1.ok());
  auto c = SCl::Create((*s0)->GetPublicParams(), Plain, "");
  NEED(c.ok());
  std::vector<std::string> q = {"a", "b", "c", "d", "e", "f", "a"};
  DpfPirRequest::PlainRequest a; DpfPirRequest::HelperRequest b; PirRequestClientState st;
  auto t = (*c)->CreatePlainRequests(q);
  NEED(t.ok());
  std::tie(a, b, st) = *t;
  auto r = Both(*s0, *s1, a, b);
  NEED(r.ok());
  auto x = (*c)->HandleResponse(*r, st);
  NEED(x.ok());
  for (int i = 0; i < 7; ++i)
    CHECK((*x)[i].has_value() ? (q[i][0] <= 'd' && *(*x)[i] == std::string(1, char('1' + q[i][0] - 'a'))) : q[i][0] > 'd', "key %s", q[i].c_str());
  return 0;
}
'''))
BUGS.append(dict(id="P03-empty-value", property="P03",
 needs="a stored key whose value is empty",
 breaks="the key counts as not stored",
 edits=[(SC, "      if (bucket.keys(j) == query) {", "      if (bucket.keys(j) == query && !bucket.values(j).empty()) {")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  auto p = SParams("seed", 2);
  std::vector<KV> kv = {{"a", "1"}, {"b", ""}};
  auto s0 = SSrv::CreatePlain(p, Db<SDb>(p, kv)), s1 = SSrv::CreatePlain(p, Db<SDb>(p, kv));
  NEED(s0.ok() && s1.ok());
  auto c = SCl::Create((*s0)->GetPublicParams(), Plain, "");
  NEED(c.ok());
  DpfPirRequest::PlainRequest a; DpfPirRequest::HelperRequest b; PirRequestClientState st;
  auto t = (*c)->CreatePlainRequests(std::vector<std::string>{"a", "b", "c"});
  NEED(t.ok());
  std::tie(a, b, st) = *t;
  auto r = Both(*s0, *s1, a, b);
  NEED(r.ok());
  auto x = (*c)->HandleResponse(*r, st);
  NEED(x.ok());
  CHECK((*x)[0].has_value() && (*x)[1].has_value() && !(*x)[2].has_value(), "found: %d %d %d", (*x)[0].has_value(), (*x)[1].has_value(), (*x)[2].has_value());
  return 0;
}
'''))
LH = r'''
struct Duo {
  std::unique_ptr<DenseDpfPirServer> leader, helper;
  std::unique_ptr<DenseDpfPirClient> client;
  std::vector<PirResponse> seen;      // what the helper answered
  std::vector<PirRequest> sent;       // what it was sent
  int shorten = 0;
};
bool Make(Duo& d, const std::vector<std::string>& v) {
  int n = v.size();
  auto h = DenseDpfPirServer::CreateHelper(Dense(n), DenseDb(v), Plain);
  if (!h.ok()) return false;
  d.helper = std::move(*h);
  auto l = DenseDpfPirServer::CreateLeader(Dense(n), DenseDb(v), [&d](const PirRequest& r, absl::AnyInvocable<void()> w) -> absl::StatusOr<PirResponse> {
    d.sent.push_back(r);
    auto a = d.helper->HandleRequest(r);
    w();
    if (!a.ok()) return a.status();
    d.seen.push_back(*a);
    if (d.shorten) { auto* m = a->mutable_dpf_pir_response()->mutable_masked_response(0); m->resize(m->size() - d.shorten); }
    return a;
  });
  auto c = DenseDpfPirClient::Create(Dense(n), Plain, DenseDpfPirServer::kEncryptionContextInfo);
  if (!l.ok() || !c.ok()) return false;
  d.leader = std::move(*l); d.client = std::move(*c);
  return true;
}
'''
BUGS.append(dict(id="L01-short-item", property="L01",
 needs="a helper answer with an item that is shorter than the leader's",
 breaks="the leader combines it instead of returning an error, and the client gets a record with a wrong tail",
 edits=[(PS, "    if (current_helper_response.size() != current_leader_response.size()) {", "    if (current_helper_response.size() > current_leader_response.size()) {")],
 libs=["pir"], cc=HEAD + LH + r'''
int main() {
  Duo d;
  NEED(Make(d, {"record one", "record two", "record three"}));
  auto q = d.client->CreateRequest(std::vector<int>{1});
  NEED(q.ok());
  NEED(d.leader->HandleRequest(q->first).ok());
  d.shorten = 2;
  CHECK(!d.leader->HandleRequest(q->first).ok(), "a helper answer that is too short was accepted");
  return 0;
}
'''))
BUGS.append(dict(id="L01-mask-per-item", property="L01",
 needs="a batch of two or more queries, and a look at the helper's answer (client and helper agree, so the results are right)",
 breaks="all items of one answer are masked with the same bytes, so that the leader learns their XOR",
 edits=[(PS, """  DPF_ASSIGN_OR_RETURN(auto prng, Aes128CtrSeededPrng::Create(
                                      inner_request.one_time_pad_seed()));
  for (int i = 0; i < response.dpf_pir_response().masked_response_size(); ++i) {
""", """  for (int i = 0; i < response.dpf_pir_response().masked_response_size(); ++i) {
    DPF_ASSIGN_OR_RETURN(auto prng, Aes128CtrSeededPrng::Create(
                                        inner_request.one_time_pad_seed()));
"""), (DC, """  DPF_ASSIGN_OR_RETURN(
      auto prng, Aes128CtrSeededPrng::Create(
                     request_client_state.dense_dpf_pir_request_client_state()
                         .one_time_pad_seed()));
""", ""), (DC, """    result[i] = pir_response.dpf_pir_response().masked_response(i);
""", """    DPF_ASSIGN_OR_RETURN(
        auto prng, Aes128CtrSeededPrng::Create(
                       request_client_state.dense_dpf_pir_request_client_state()
                           .one_time_pad_seed()));
    result[i] = pir_response.dpf_pir_response().masked_response(i);
""")],
 libs=["pir"], cc=HEAD + LH + r'''
int main() {
  Duo d;
  NEED(Make(d, {"record one!!", "record two!!", "record three"}));
  auto q = d.client->CreateRequest(std::vector<int>{1, 2});
  NEED(q.ok());
  auto r = d.leader->HandleRequest(q->first);
  NEED(r.ok());
  auto x = d.client->HandleResponse(*r, q->second);
  NEED(x.ok());
  CHECK((*x)[0] == "record two!!" && (*x)[1] == "record three", "wrong records");
  // Remove the helper's own plain answer from what the leader saw: the masks of the two items must differ.
  DpfPirRequest::HelperRequest hr;
  NEED(hr.ParseFromString(d.sent[0].dpf_pir_request().encrypted_helper_request().encrypted_request()));
  auto s = DenseDpfPirServer::CreatePlain(Dense(3), DenseDb({"record one!!", "record two!!", "record three"}));
  NEED(s.ok());
  PirRequest p;
  *p.mutable_dpf_pir_request()->mutable_plain_request() = hr.plain_request();
  auto plain = (*s)->HandleRequest(p);
  NEED(plain.ok());
  std::string m[2];
  for (int i = 0; i < 2; ++i) {
    m[i] = plain->dpf_pir_response().masked_response(i);
    for (size_t j = 0; j < m[i].size(); ++j) m[i][j] ^= d.seen[0].dpf_pir_response().masked_response(i)[j];
  }
  CHECK(m[0] != m[1], "both items are masked with the same bytes");
  return 0;
}
'''))
BUGS.append(dict(id="L01-pad-once", property="L01",
 needs="two requests of one client, compared with one another",
 breaks="all requests use one mask seed, so that answers of different requests can be combined by the leader",
 edits=[(DC, """  DPF_ASSIGN_OR_RETURN(*(helper_request.mutable_one_time_pad_seed()),
                       Aes128CtrSeededPrng::GenerateSeed());
""", """  static const auto* const pad_seed = new absl::StatusOr<std::string>(
      Aes128CtrSeededPrng::GenerateSeed());
  DPF_ASSIGN_OR_RETURN(*(helper_request.mutable_one_time_pad_seed()),
                       *pad_seed);
""")],
 libs=["pir"], cc=HEAD + r'''
int main() {
  auto c = DenseDpfPirClient::Create(Dense(100), Plain, "");
  NEED(c.ok());
  auto a = (*c)->CreatePlainRequests(std::vector<int>{3}), b = (*c)->CreatePlainRequests(std::vector<int>{3});
  NEED(a.ok() && b.ok());
  CHECK(std::get<1>(*a).one_time_pad_seed() != std::get<1>(*b).one_time_pad_seed(), "two requests share a mask seed");
  return 0;
}
'''))
BUGS.append(dict(id="L01-callback-missing", property="L01",
 needs="a sender that answers without ever running the callback it was given",
 breaks="the leader passes on the helper's (masked) share alone as the result instead of an error",
 edits=[(PS, """  bool has_run = false;
  absl::StatusOr<PirResponse> leader_response;
""", """  bool has_run = false;
  absl::StatusOr<PirResponse> leader_response = PirResponse();
"""), (PS, """  if (!has_run) {
    return absl::FailedPreconditionError(
        "HandleRequest: `while_waiting` was not called from `sender` passed at "
        "construction.");
  }
  DPF_RETURN_IF_ERROR(leader_response.status());
""", """  DPF_RETURN_IF_ERROR(leader_response.status());
  if (!has_run) {
    return helper_response;
  }
""")],
 libs=["pir"], cc=HEAD + r'''
int main() {
  std::vector<std::string> v = {"abc", "def"};
  auto h = DenseDpfPirServer::CreateHelper(Dense(2), DenseDb(v), Plain);
  NEED(h.ok());
  auto l = DenseDpfPirServer::CreateLeader(Dense(2), DenseDb(v), [&](const PirRequest& r, absl::AnyInvocable<void()> w) { return (*h)->HandleRequest(r); });
  auto c = DenseDpfPirClient::Create(Dense(2), Plain, "");
  NEED(l.ok() && c.ok());
  auto q = (*c)->CreateRequest(std::vector<int>{1});
  NEED(q.ok());
  CHECK(!(*l)->HandleRequest(q->first).ok(), "the leader answered without its own part");
  return 0;
}
'''))
BUGS.append(dict(id="V01-larger-table", property="V01",
 needs="a key-value database with more buckets than the parameters say",
 breaks="the server is created and answers over the first buckets only",
 edits=[(CS, "  if (database->num_selection_bits() != params.num_buckets()) {", "  if (database->num_selection_bits() < params.num_buckets()) {")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  auto p = CParams("seed", 8, 3), q = CParams("seed", 6, 3);
  NEED(CSrv::CreatePlain(p, Db<CDb>(p, {{"a", "1"}})).ok());
  CHECK(!CSrv::CreatePlain(q, Db<CDb>(p, {{"a", "1"}})).ok(), "a database of another width was accepted");
  return 0;
}
'''))
BUGS.append(dict(id="V01-short-fingerprint", property="V01",
 needs="a request made for another hashing seed whose fingerprint agrees in the low 8 bits",
 breaks="the request is answered although the seeds differ",
 edits=[(SS, "      plain_request.seed_fingerprint() != seed_fingerprint_) {", "      static_cast<uint8_t>(plain_request.seed_fingerprint()) !=\n          static_cast<uint8_t>(seed_fingerprint_)) {")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  SHA256HashFunction f("");
  int m = std::numeric_limits<int>::max(), mine = f("seed", m);
  auto p = SParams("seed", 4);
  auto s = SSrv::CreatePlain(p, Db<SDb>(p, {{"a", "1"}, {"b", "2"}}));
  NEED(s.ok());
  for (int i = 0; i < 2000; ++i) {
    PirServerPublicParams pp;
    *pp.mutable_simple_hashing_sparse_dpf_pir_server_params() = SParams("other" + std::to_string(i), 4);
    if ((f("other" + std::to_string(i), m) ^ mine) & 255) continue;
    auto c = SCl::Create(pp, Plain, "");
    NEED(c.ok());
    auto q = (*c)->CreatePlainRequests(std::vector<std::string>{"a"});
    NEED(q.ok());
    PirRequest r;
    *r.mutable_dpf_pir_request()->mutable_plain_request() = std::get<0>(*q);
    CHECK(!(*s)->HandleRequest(r).ok(), "a request for another seed was answered");
  }
  return 0;
}
'''))
BUGS.append(dict(id="V01-fewer-answers", property="V01",
 needs="a response with fewer items than the request had queries",
 breaks="the client accepts it and returns fewer results than it asked for",
 edits=[(SC, "          .query_strings_size() !=\n      pir_response", "          .query_strings_size() <\n      pir_response")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  auto p = SParams("seed", 4);
  auto s = SSrv::CreatePlain(p, Db<SDb>(p, {{"a", "1"}, {"b", "2"}}));
  NEED(s.ok());
  auto c = SCl::Create((*s)->GetPublicParams(), Plain, "");
  NEED(c.ok());
  auto q = (*c)->CreatePlainRequests(std::vector<std::string>{"a", "b"});
  NEED(q.ok());
  PirRequest r;
  *r.mutable_dpf_pir_request()->mutable_plain_request() = std::get<0>(*q);
  auto x = (*s)->HandleRequest(r);
  NEED(x.ok());
  x->mutable_dpf_pir_response()->mutable_masked_response()->RemoveLast();
  CHECK(!(*c)->HandleResponse(*x, std::get<2>(*q)).ok(), "a response with too few items was accepted");
  return 0;
}
'''))
BUGS.append(dict(id="V01-no-keys", property="V01",
 needs="a request to a cuckoo-hashing server with no keys at all",
 breaks="the server answers with an empty response instead of refusing",
 edits=[(CS, """  if (plain_request.dpf_key_size() == 0) {
    return absl::InvalidArgumentError("`dpf_key` must not be empty");
  }
""", "")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  auto p = CParams("seed", 4, 3);
  auto s = CSrv::CreatePlain(p, Db<CDb>(p, {{"a", "1"}}));
  NEED(s.ok());
  PirRequest r;
  r.mutable_dpf_pir_request()->mutable_plain_request();
  CHECK(!(*s)->HandleRequest(r).ok(), "a request without keys was answered");
  return 0;
}
'''))
BUGS.append(dict(id="F01-tenth-function", property="F01",
 needs="more than ten hash functions made from one family",
 breaks="from the eleventh on the seed is a single character instead of the number",
 edits=[(HF, "    result.push_back(hash_family(absl::StrCat(i)));", "    const char seed = static_cast<char>('0' + i);\n    result.push_back(hash_family(absl::string_view(&seed, 1)));")],
 libs=["hash"], cc=r'''
#include <cstdio>
#include "pir/hashing/hash_family.h"
#include "pir/hashing/sha256_hash_family.h"
using namespace distributed_point_functions;
int main() {
  auto h = CreateHashFunctions(SHA256HashFamily(), 13);
  if (!h.ok()) return 2;
  for (int i = 0; i < 13; ++i)
    if ((*h)[i]("abc", 1 << 30) != SHA256HashFunction(std::to_string(i))("abc", 1 << 30)) { printf("WRONG: function %d\n", i); return 1; }
  return 0;
}
'''))
CRQ = r'''
using QP = DpfPirRequest::PlainRequest;
bool SameKeySeed(const DpfKey& a, const DpfKey& b) { return a.seed().high() == b.seed().high() && a.seed().low() == b.seed().low(); }
'''
BUGS.append(dict(id="S01-repeat-key", property="S01",
 needs="one request that asks for the same index twice; the records that come back are right",
 breaks="the key pair of the first is sent again, so each server sees which queries are equal",
 edits=[(DC, """    absl::uint128 alpha = query_indices[i] / kBitsPerBlock;
""", """    int first = 0;
    while (query_indices[first] != query_indices[i]) ++first;
    if (first < i) {  // No need to generate the same keys twice.
      *(leader_request.add_dpf_key()) = leader_request.dpf_key(first);
      *(helper_request.mutable_plain_request()->add_dpf_key()) =
          helper_request.plain_request().dpf_key(first);
      continue;
    }
    absl::uint128 alpha = query_indices[i] / kBitsPerBlock;
""")],
 libs=["pir"], cc=HEAD + CRQ + r'''
int main() {
  auto c = DenseDpfPirClient::Create(Dense(300), Plain, "");
  NEED(c.ok());
  for (auto& q : std::vector<std::vector<int>>{{1, 2, 3}, {7, 7}, {1, 299, 1}, {5, 6, 6, 5}}) {
    auto x = (*c)->CreatePlainRequests(q);
    NEED(x.ok());
    auto& k = std::get<0>(*x).dpf_key();
    NEED(k.size() == int(q.size()));
    for (int i = 0; i < k.size(); ++i)
      for (int j = 0; j < i; ++j) CHECK(!SameKeySeed(k[i], k[j]), "keys %d and %d are the same", i, j);
  }
  return 0;
}
'''))
BUGS.append(dict(id="S01-sides", property="S01",
 needs="looking at which party's key each server is given; the records that come back are right",
 breaks="the party of a key tells the server whether the bit asked for is in the upper half of its block",
 edits=[(DC, """                         dpf_->GenerateKeys(alpha, beta));
""", """                         dpf_->GenerateKeys(alpha, beta));
    if (absl::Uint128High64(beta.value()) != 0) {
      // The low word of the last correction is clear here; keep the key that
      // starts with the control bit set on the leader's side.
      std::swap(*leader_request.mutable_dpf_key(i),
                *helper_request.mutable_plain_request()->mutable_dpf_key(i));
    }
""")],
 libs=["pir"], cc=HEAD + r'''
int main() {
  auto c = DenseDpfPirClient::Create(Dense(300), Plain, "");
  NEED(c.ok());
  int ones[2] = {0, 0}, idx[2] = {3, 100}, n = 200;
  for (int i = 0; i < 2 * n; ++i) {
    auto x = (*c)->CreatePlainRequests({idx[i % 2]});
    NEED(x.ok());
    ones[i % 2] += std::get<0>(*x).dpf_key(0).party();
  }
  // alike for both queries, up to chance
  CHECK(std::abs(ones[0] - ones[1]) < n / 2, "the leader's party is 1 in %d and %d of %d requests", ones[0], ones[1], n);
  return 0;
}
'''))
BUGS.append(dict(id="S01-pad-from-key", property="S01",
 needs="knowing how the pad is made: it looks random and differs from request to request",
 breaks="the pad is the first output of the generator seeded with the leader's first key, so the leader can take it off the helper's answers",
 edits=[(DC, """  DPF_ASSIGN_OR_RETURN(*(helper_request.mutable_one_time_pad_seed()),
                       Aes128CtrSeededPrng::GenerateSeed());
""", """  if (leader_request.dpf_key_size() > 0) {
    // The key's seed is fresh for every request; expand it.
    std::string seed(Aes128CtrSeededPrng::SeedSize(), '\\0');
    const uint64_t words[2] = {leader_request.dpf_key(0).seed().low(),
                               leader_request.dpf_key(0).seed().high()};
    std::copy_n(reinterpret_cast<const char*>(words), seed.size(), &seed[0]);
    DPF_ASSIGN_OR_RETURN(auto prng, Aes128CtrSeededPrng::Create(seed));
    helper_request.set_one_time_pad_seed(prng->GetRandomBytes(seed.size()));
  } else {
    DPF_ASSIGN_OR_RETURN(*(helper_request.mutable_one_time_pad_seed()),
                         Aes128CtrSeededPrng::GenerateSeed());
  }
""")],
 libs=["pir"], cc=HEAD + r'''
#include <dlfcn.h>
#include <cstring>
static long drawn = 0;
extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  static auto real = reinterpret_cast<int (*)(uint8_t*, size_t)>(dlsym(RTLD_NEXT, "RAND_bytes"));
  drawn += len;
  return real(buf, len);
}
int main() {
  auto c = DenseDpfPirClient::Create(Dense(300), Plain, "");
  NEED(c.ok());
  auto x = (*c)->CreatePlainRequests({3});
  NEED(x.ok());
  auto& k = std::get<0>(*x).dpf_key(0);
  uint64_t w[2] = {k.seed().low(), k.seed().high()};
  auto p = Aes128CtrSeededPrng::Create(std::string(reinterpret_cast<char*>(w), 16));
  NEED(p.ok());
  CHECK((*p)->GetRandomBytes(16) != std::get<1>(*x).one_time_pad_seed(), "the leader can make the pad from its key");
  long before = drawn;
  NEED((*c)->CreatePlainRequests({3}).ok());
  if (before > 0) CHECK(drawn - before >= 48, "only %ld random bytes were drawn for two key seeds and a pad", drawn - before);
  return 0;
}
'''))
BUGS.append(dict(id="W01-state-reversed", property="W01",
 needs="a client state that another build stored, or looking at the state's bytes",
 breaks="the state holds the pad seed backwards, and only a client of the same build turns it back",
 edits=[(DC, "      ->set_one_time_pad_seed(helper_request.one_time_pad_seed());", "      ->set_one_time_pad_seed(std::string(\n          helper_request.one_time_pad_seed().rbegin(),\n          helper_request.one_time_pad_seed().rend()));"),
        (DC, """  DPF_ASSIGN_OR_RETURN(
      auto prng, Aes128CtrSeededPrng::Create(
                     request_client_state.dense_dpf_pir_request_client_state()
                         .one_time_pad_seed()));
""", """  const std::string& stored =
      request_client_state.dense_dpf_pir_request_client_state()
          .one_time_pad_seed();
  DPF_ASSIGN_OR_RETURN(auto prng, Aes128CtrSeededPrng::Create(std::string(
                                      stored.rbegin(), stored.rend())));
""")],
 libs=["pir"], cc=HEAD + r'''
int main() {
  auto c = DenseDpfPirClient::Create(Dense(300), Plain, "");
  NEED(c.ok());
  for (int i = 0; i < 3; ++i) {
    auto x = (*c)->CreatePlainRequests({3, i});
    NEED(x.ok());
    CHECK(std::get<2>(*x).dense_dpf_pir_request_client_state().one_time_pad_seed() == std::get<1>(*x).one_time_pad_seed(), "state");
  }
  return 0;
}
'''))
BUGS.append(dict(id="W01-salted-fingerprint", property="W01",
 needs="a client and a server of different builds with a seed fingerprint in the request",
 breaks="both sides hash the seed with a prefix of their own, so requests to and from other builds are refused",
 edits=[(SC, "  int seed_fingerprint = SHA256HashFunction(\"\")(", "  int seed_fingerprint = SHA256HashFunction(\"seed_fingerprint\")("),
        (SS, "  int seed_fingerprint = SHA256HashFunction(\"\")(", "  int seed_fingerprint = SHA256HashFunction(\"seed_fingerprint\")(")],
 libs=["pir"], cc=HEAD + SPARSE + r'''
int main() {
  PirServerPublicParams pp;
  *pp.mutable_simple_hashing_sparse_dpf_pir_server_params() = SParams("seed", 40);
  auto c = SCl::Create(pp, Plain, "");
  NEED(c.ok());
  auto x = (*c)->CreatePlainRequests(std::vector<std::string>{"a"});
  NEED(x.ok());
  CHECK(std::get<0>(*x).seed_fingerprint() == SHA256HashFunction("")("seed", std::numeric_limits<int>::max()), "fingerprint");
  return 0;
}
'''))
