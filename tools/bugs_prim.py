BUGS = []
MC = "pir/hashing/multiple_choice_hash_table.cc"
BUGS.append(dict(id="T02-adjacent-choice", property="T02",
 needs="three or more hash functions, with the first candidate bucket emptier than the third and the second fuller than the third",
 breaks="the element goes to a bucket that is not the least loaded one: loads are compared with the previous candidate instead of the best so far",
 edits=[(MC, "if (i == 0 || table_[hashes[i]].size() < table_[smallest_bucket].size()) {",
             "if (i == 0 ||\n        table_[hashes[i]].size() < table_[hashes[i - 1]].size()) {")],
 libs=["hash"], cc=r'''
#include <cstdio>
#include "pir/hashing/multiple_choice_hash_table.h"
using namespace distributed_point_functions;
int main() {
  // The hash of "abc" under function i is its i-th digit.
  std::vector<HashFunction> h;
  for (int i = 0; i < 3; ++i)
    h.push_back([i](absl::string_view s, int n) { return (s[i] - '0') % n; });
  auto t = MultipleChoiceHashTable::Create(std::move(h), 4, 3);
  if (!t.ok()) return 2;
  for (const char* s : {"111", "111", "222", "012"})
    if (!(*t)->Insert(s).ok()) { printf("refused %s\n", s); return 1; }
  auto tab = (*t)->GetTable();
  if (tab[0].size() != 1) { printf("012 is not in the empty bucket\n"); return 1; }
  return 0;
}
'''))
PR = "pir/prng/aes_128_ctr_seeded_prng.cc"
BUGS.append(dict(id="R01-page-restart", property="R01",
 needs="a request of more than 64 KiB that starts in the middle of a key-stream block",
 breaks="bytes from the second page of a long request on are not those of the key stream at that position",
 edits=[(PR, '''  char* output_buffer = &output[0];
  AES_ctr128_encrypt(reinterpret_cast<const uint8_t*>(output_buffer),
                     reinterpret_cast<uint8_t*>(output_buffer), length,
                     &aes_key_, ivec_.data(), ecount_buf_.data(), &num_);
''', '''  char* output_buffer = &output[0];
  // Work on one page at a time, so that a page is still in cache when it is
  // written back.
  constexpr size_t kPageSize = 1 << 16;
  while (length > kPageSize) {
    AES_ctr128_encrypt(reinterpret_cast<const uint8_t*>(output_buffer),
                       reinterpret_cast<uint8_t*>(output_buffer), kPageSize,
                       &aes_key_, ivec_.data(), ecount_buf_.data(), &num_);
    output_buffer += kPageSize;
    length -= kPageSize;
    num_ = 0;
  }
  AES_ctr128_encrypt(reinterpret_cast<const uint8_t*>(output_buffer),
                     reinterpret_cast<uint8_t*>(output_buffer), length,
                     &aes_key_, ivec_.data(), ecount_buf_.data(), &num_);
''')],
 libs=["prng"], cc=r'''
#include <cstdio>
#include "pir/prng/aes_128_ctr_seeded_prng.h"
using namespace distributed_point_functions;
int main() {
  auto a = Aes128CtrSeededPrng::Create("0123456789abcdef"), b = Aes128CtrSeededPrng::Create("0123456789abcdef");
  if (!a.ok() || !b.ok()) return 2;
  std::string x = (*a)->GetRandomBytes(5), y;
  x += (*a)->GetRandomBytes(200000);
  for (int i = 0; i < 41; ++i) y += (*b)->GetRandomBytes(4878);
  y += (*b)->GetRandomBytes(200005 - y.size());
  if (x != y) { printf("the stream depends on the sizes of the requests\n"); return 1; }
  return 0;
}
'''))
FK = "dpf/aes_128_fixed_key_hash.cc"
BUGS.append(dict(id="H01-shared-buffer", property="H01",
 needs="two threads hashing at the same time (with the same or different hash objects)",
 breaks="the buffer for the linear map is shared by all calls, so concurrent calls corrupt each other's results",
 edits=[(FK, "  std::array<absl::uint128, kBatchSize> sigma_in;", "  static std::array<absl::uint128, kBatchSize> sigma_in;")],
 libs=["fkh"], cc=r'''
#include <cstdio>
#include <atomic>
#include <thread>
#include "dpf/aes_128_fixed_key_hash.h"
using namespace distributed_point_functions;
int main() {
  auto h = Aes128FixedKeyHash::Create(absl::MakeUint128(1, 2));
  if (!h.ok()) return 2;
  std::atomic<bool> bad{false};
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; ++t)
    ts.emplace_back([&, t] {
      std::vector<absl::uint128> in(64), ref(64), out(64);
      for (int i = 0; i < 64; ++i) in[i] = absl::MakeUint128(t + 1, i);
      for (int i = 0; i < 64; ++i)   // one at a time, before the others get going is not needed: retried below
        h->Evaluate(absl::MakeConstSpan(&in[i], 1), absl::MakeSpan(&ref[i], 1)).IgnoreError();
      for (int r = 0; r < 200000 && !bad; ++r) {
        h->Evaluate(in, absl::MakeSpan(out)).IgnoreError();
        if (out != ref) bad = true;
      }
    });
  for (auto& t : ts) t.join();
  if (bad) { printf("a concurrent call returned a wrong hash\n"); return 1; }
  return 0;
}
'''))
CK = "pir/hashing/cuckoo_hash_table.cc"
BUGS.append(dict(id="T01-pingpong", property="T01",
 needs="a relocation in which the evicted element hashes to the bucket it was just evicted from",
 breaks="the evicted element is stored in a bucket none of its hash functions assigns to it",
 edits=[(CK, '''  std::string current_element(input);
''', '''  std::string current_element(input);
  int last_bucket = -1;
'''), (CK, '''                                                            num_buckets_);
''', '''                                                            num_buckets_);
    // Do not swap the same two elements back and forth.
    if (hash == last_bucket && !table_[(hash + 1) % num_buckets_]) {
      hash = (hash + 1) % num_buckets_;
    }
    last_bucket = hash;
''')],
 libs=["hash"], cc=r'''
#include <cstdio>
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir/hashing/sha256_hash_family.h"
using namespace distributed_point_functions;
int main() {
  for (int run = 0; run < 300; ++run) {
    auto mk = [&] {
      std::vector<HashFunction> h;
      for (int i = 0; i < 3; ++i) h.push_back(SHA256HashFunction(absl::StrCat(run, "/", i)));
      return h;
    };
    auto t = CuckooHashTable::Create(mk(), 15, 100, absl::nullopt);
    if (!t.ok()) return 2;
    for (int i = 0; i < 10; ++i)
      if (!(*t)->Insert(absl::StrCat("element", i)).ok()) return 1;
    auto h = mk();
    auto tab = (*t)->GetTable();
    for (int b = 0; b < 15; ++b)
      if (tab[b]) {
        bool own = false;
        for (auto& f : h) own |= f(*tab[b], 15) == b;
        if (!own) { printf("%s is in a bucket that is not its own\n", tab[b]->c_str()); return 1; }
      }
  }
  return 0;
}
'''))
