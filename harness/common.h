// Shared by all drivers: reads "op key=value ..." lines, writes one JSON object
// per line.  Drivers only perform calls and record what happened.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include "absl/numeric/int128.h"
#include "absl/status/status.h"

namespace vf {

using u128 = absl::uint128;

inline int HexVal(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  fprintf(stderr, "bad hex digit %c\n", c);
  exit(99);
}
inline std::string UnHex(const std::string& h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    r.push_back(char(HexVal(h[i]) * 16 + HexVal(h[i + 1])));
  return r;
}
inline u128 ParseU128(const std::string& h) {  // hexadecimal number
  u128 r = 0;
  for (char c : h) r = (r << 4) | u128(HexVal(c));
  return r;
}
inline std::vector<std::string> Split(const std::string& s, char sep) {
  std::vector<std::string> r;
  if (s.empty()) return r;
  std::string cur;
  for (char c : s) {
    if (c == sep) {
      r.push_back(cur);
      cur.clear();
    } else {
      cur.push_back(c);
    }
  }
  r.push_back(cur);
  return r;
}

struct Op {
  std::string name;
  std::map<std::string, std::string> kv;
  bool has(const std::string& k) const { return kv.count(k) > 0; }
  std::string s(const std::string& k, const std::string& d = "") const {
    auto it = kv.find(k);
    return it == kv.end() ? d : it->second;
  }
  long i(const std::string& k, long d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : strtol(it->second.c_str(), nullptr, 10);
  }
  std::string bytes(const std::string& k) const { return UnHex(s(k)); }
  u128 w(const std::string& k) const { return ParseU128(s(k, "0")); }
  std::vector<u128> ws(const std::string& k) const {
    std::vector<u128> r;
    for (auto& x : Split(s(k), ',')) r.push_back(ParseU128(x));
    return r;
  }
  std::vector<int> is(const std::string& k) const {
    std::vector<int> r;
    for (auto& x : Split(s(k), ',')) r.push_back(atoi(x.c_str()));
    return r;
  }
  // "-" = present but empty byte string
  std::vector<std::string> bs(const std::string& k) const {
    std::vector<std::string> r;
    for (auto& x : Split(s(k), ',')) r.push_back(x == "-" ? "" : UnHex(x));
    return r;
  }
};

inline bool ReadOp(std::istream& in, Op* op, std::string* line) {
  while (std::getline(in, *line)) {
    if (line->empty() || (*line)[0] == '#') continue;
    std::istringstream ss(*line);
    op->kv.clear();
    ss >> op->name;
    std::string tok;
    while (ss >> tok) {
      auto p = tok.find('=');
      if (p == std::string::npos) op->kv[tok] = "1";
      else op->kv[tok.substr(0, p)] = tok.substr(p + 1);
    }
    return true;
  }
  return false;
}

// ---- JSON output -----------------------------------------------------------
inline std::string JInt(long v) { return std::to_string(v); }
inline std::string JStr(const std::string& s) { return "\"" + s + "\""; }
inline std::string JBytes(absl::string_view b) {
  std::string r = "[";
  for (size_t i = 0; i < b.size(); ++i) {
    if (i) r += ",";
    r += std::to_string((unsigned char)b[i]);
  }
  return r + "]";
}
// A word of the given width as 16-bit limbs, least significant first.
inline std::string JWord(u128 v, int bits = 128) {
  std::string r = "[";
  for (int i = 0; i < (bits + 15) / 16; ++i) {
    if (i) r += ",";
    r += std::to_string((unsigned)(uint64_t(v) & 0xffff));
    v >>= 16;
  }
  return r + "]";
}
template <typename C, typename F>
std::string JList(const C& c, F f) {
  std::string r = "[";
  bool first = true;
  for (const auto& x : c) {
    if (!first) r += ",";
    first = false;
    r += f(x);
  }
  return r + "]";
}
inline int Code(const absl::Status& s) { return static_cast<int>(s.code()); }
template <typename T>
int Code(const T& s) { return static_cast<int>(s.status().code()); }

class Event {
 public:
  explicit Event(const std::string& e) : s_("{\"e\":\"" + e + "\"") {}
  Event& raw(const std::string& k, const std::string& v) {
    s_ += ",\"" + k + "\":" + v;
    return *this;
  }
  Event& i(const std::string& k, long v) { return raw(k, JInt(v)); }
  Event& str(const std::string& k, const std::string& v) { return raw(k, JStr(v)); }
  Event& bytes(const std::string& k, absl::string_view v) { return raw(k, JBytes(v)); }
  Event& w(const std::string& k, u128 v, int bits = 128) { return raw(k, JWord(v, bits)); }
  Event& ws(const std::string& k, const std::vector<u128>& v) {
    return raw(k, JList(v, [](u128 x) { return JWord(x); }));
  }
  Event& is(const std::string& k, const std::vector<int>& v) {
    return raw(k, JList(v, [](int x) { return JInt(x); }));
  }
  const std::string& str() const { return s_; }

 private:
  std::string s_;
};

class Out {
 public:
  explicit Out(const char* path) : f_(fopen(path, "w")) {
    if (!f_) { perror(path); exit(99); }
  }
  void Emit(const Event& e) {
    fputs(e.str().c_str(), f_);
    fputs("}\n", f_);
    fflush(f_);
  }

 private:
  FILE* f_;
};

// An operation on something an earlier call refused to make: recorded as such,
// so that the refusal itself is judged.
struct Missing {
  std::string what;
};

// Driver main: <script> <out>.  Each line of the script is announced on the
// control file <out>.at so that a crash can be attributed.
template <typename H>
int Main(int argc, char** argv, H handle) {
  if (argc != 3) return 99;
  std::ifstream in(argv[1]);
  if (!in) return 99;
  Out out(argv[2]);
  Op op;
  std::string line;
  long n = 0;
  FILE* at = fopen((std::string(argv[2]) + ".at").c_str(), "w");
  while (ReadOp(in, &op, &line)) {
    ++n;
    rewind(at);
    fprintf(at, "%ld %.4000s\n\n", n, line.c_str());
    fflush(at);
    try {
      handle(op, out);
    } catch (const Missing& m) {
      out.Emit(Event("missing").str("what", m.what));
    }
  }
  rewind(at);
  fprintf(at, "done\n\n");
  fclose(at);
  return 0;
}

}  // namespace vf
#endif
