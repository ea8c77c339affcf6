// Hash tables: T01 (cuckoo), T02 (simple, multiple choice).
#include <memory>

#include "common.h"
#include "pir/hashing/cuckoo_hash_table.h"
#include "pir/hashing/hash_family.h"
#include "pir/hashing/multiple_choice_hash_table.h"
#include "pir/hashing/sha256_hash_family.h"
#include "pir/hashing/simple_hash_table.h"

using namespace distributed_point_functions;
using namespace vf;

namespace {
std::vector<std::string> names;                 // element k is names[k-1]
std::map<std::string, int> number;
std::string kind;
std::unique_ptr<CuckooHashTable> cuckoo;
std::unique_ptr<SimpleHashTable> simple;
std::unique_ptr<MultipleChoiceHashTable> multi;

int Num(const std::string& s) {
  auto it = number.find(s);
  return it == number.end() ? -1 : it->second;
}
std::string Buckets(const std::vector<std::vector<std::string>>& t) {
  return JList(t, [](const std::vector<std::string>& b) {
    return JList(b, [](const std::string& s) { return JInt(Num(s)); });
  });
}
bool sparse;      // large tables: only the occupied buckets are written
template <typename B, typename F>
std::string Occupied(const B& t, F elems) {
  std::string r;
  for (size_t b = 0; b < t.size(); ++b) {
    std::string e = elems(t[b]);
    if (e != "[]") r += (r.empty() ? "[" : ",[") + JInt(b + 1) + "," + e + "]";
  }
  return "[" + r + "]";
}
void State(Event& ev) {
  auto list = [](const std::vector<std::string>& b) { return JList(b, [](const std::string& s) { return JInt(Num(s)); }); };
  auto one = [](const absl::optional<std::string>& s) { return s ? "[" + JInt(Num(*s)) + "]" : std::string("[]"); };
  if (sparse) {
    if (kind == "cuckoo" && cuckoo) ev.i("len", cuckoo->GetTable().size()).raw("at", Occupied(cuckoo->GetTable(), one)).raw("stash", list(cuckoo->GetStash()));
    else if (kind == "simple" && simple) ev.i("len", simple->GetTable().size()).raw("at", Occupied(simple->GetTable(), list)).raw("stash", "[]");
    else if (kind == "multi" && multi) ev.i("len", multi->GetTable().size()).raw("at", Occupied(multi->GetTable(), list)).raw("stash", "[]");
  } else if (kind == "cuckoo" && cuckoo) {
    ev.raw("tbl", JList(cuckoo->GetTable(), [](const absl::optional<std::string>& s) {
             return s ? "[" + JInt(Num(*s)) + "]" : std::string("[]");
           }));
    ev.raw("stash", JList(cuckoo->GetStash(), [](const std::string& s) { return JInt(Num(s)); }));
  } else if (kind == "simple" && simple) {
    ev.raw("tbl", Buckets(simple->GetTable())).raw("stash", "[]");
  } else if (kind == "multi" && multi) {
    ev.raw("tbl", Buckets(multi->GetTable())).raw("stash", "[]");
  }
}

void Handle(const Op& op, Out& out) {
  if (op.name == "new") {
    kind = op.s("kind");
    int nb = op.i("nb"), nf = op.i("nf"), mr = op.i("mr"), ms = op.i("ms", -1);
    sparse = op.i("sparse");
    names.clear();
    if (op.has("gen")) for (int i = 0; i < op.i("gen"); ++i) names.push_back("element " + std::to_string(i));
    else names = op.bs("names");
    number.clear();
    for (size_t i = 0; i < names.size(); ++i) number[names[i]] = i + 1;
    cuckoo.reset(); simple.reset(); multi.reset();
    absl::optional<int> lim;
    if (ms != -1) lim = ms;
    std::vector<std::vector<int>> h;
    int code;
    auto family = [&]() -> HashFamily {
      return op.has("seed") ? HashFamily(WrapWithSeed(SHA256HashFamily{}, op.bytes("seed")))
                            : HashFamily(SHA256HashFamily{});
    };
    auto finish = [&](auto st, auto* p) {
      code = Code(st);
      if (st.ok()) *p = *std::move(st);
    };
    if (op.has("h")) {  // explicit functions: h=1.2.3,2.2.1  (1-based buckets)
      std::vector<HashFunction> fns;
      for (auto& f : Split(op.s("h"), ',')) {
        std::vector<int> v;
        for (auto& x : Split(f, '.')) v.push_back(atoi(x.c_str()));
        h.push_back(v);
        auto num = number;
        fns.push_back([v, num](absl::string_view s, int) {
          return v[num.at(std::string(s)) - 1] - 1;
        });
      }
      nf = fns.size();
      if (kind == "cuckoo") finish(CuckooHashTable::Create(std::move(fns), nb, mr, lim), &cuckoo);
      else if (kind == "simple") finish(SimpleHashTable::Create(std::move(fns), nb, lim), &simple);
      else finish(MultipleChoiceHashTable::Create(std::move(fns), nb, lim), &multi);
    } else {  // functions from a family
      for (int f = 0; f < nf && nb > 0; ++f) {
        HashFamily fam = family();
        HashFunction fn = fam(std::to_string(f));
        std::vector<int> v;
        for (auto& s : names) v.push_back(fn(s, nb) + 1);
        h.push_back(v);
      }
      if (kind == "cuckoo") finish(CuckooHashTable::Create(family(), nb, nf, mr, lim), &cuckoo);
      else if (kind == "simple") finish(SimpleHashTable::Create(family(), nb, nf, lim), &simple);
      else finish(MultipleChoiceHashTable::Create(family(), nb, nf, lim), &multi);
    }
    Event ev("new");
    ev.str("kind", kind).i("nb", nb).i("nf", nf).i("mr", mr).i("ms", ms).i("code", code);
    ev.raw("h", JList(h, [](const std::vector<int>& v) {
      return JList(v, [](int x) { return JInt(x); });
    }));
    State(ev);
    out.Emit(ev);
  } else if (op.name == "ins") {
    int k = op.i("k");
    int code = -1;
    // The table gets its own copy; the caller's buffer is scribbled over afterwards.
    std::string buf = names[k - 1];
    if (kind == "cuckoo" && cuckoo) code = Code(cuckoo->Insert(buf));
    else if (kind == "simple" && simple) code = Code(simple->Insert(buf));
    else if (kind == "multi" && multi) code = Code(multi->Insert(buf));
    for (char& c : buf) c = '#';
    if (code == -1) return;
    Event ev("ins");
    ev.i("k", k).i("code", code);
    State(ev);
    out.Emit(ev);
  }
}
}  // namespace

int main(int argc, char** argv) { return Main(argc, argv, Handle); }
