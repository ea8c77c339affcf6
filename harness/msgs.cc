#include <cmath>
// Generic dumps and textual forms of the protocol messages.
#include "types.h"
namespace vf {
std::map<std::string, TypeOps*>& Types() {
  static auto* m = new std::map<std::string, TypeOps*>;
  return *m;
}
static u128 OfBlock(const dp::Block& b) { return absl::MakeUint128(b.high(), b.low()); }
std::string JVInt(const dp::Value::Integer& v) {
  using I = dp::Value::Integer;
  if (v.value_case() == I::kValueUint64) return "{\"c\":64,\"v\":" + JWord(v.value_uint64()) + "}";
  if (v.value_case() == I::kValueUint128) return "{\"c\":128,\"v\":" + JWord(OfBlock(v.value_uint128())) + "}";
  return "{\"c\":0,\"v\":" + JWord(0) + "}";
}
std::string JType(const dp::ValueType& t) {
  using V = dp::ValueType;
  switch (t.type_case()) {
    case V::kInteger:
      return "{\"k\":\"int\",\"b\":" + JInt(t.integer().bitsize()) + "}";
    case V::kXorWrapper:
      return "{\"k\":\"xor\",\"b\":" + JInt(t.xor_wrapper().bitsize()) + "}";
    case V::kIntModN:
      return "{\"k\":\"mod\",\"b\":" + JInt(t.int_mod_n().base_integer().bitsize()) +
             ",\"n\":" + JVInt(t.int_mod_n().modulus()) + "}";
    case V::kTuple:
      return "{\"k\":\"tup\",\"t\":" + JList(t.tuple().elements(), [](const V& e) { return JType(e); }) + "}";
    default:
      return "{\"k\":\"none\"}";
  }
}
std::string JValue(const dp::Value& v) {
  using V = dp::Value;
  switch (v.value_case()) {
    case V::kInteger: return "{\"k\":\"int\",\"i\":" + JVInt(v.integer()) + "}";
    case V::kXorWrapper: return "{\"k\":\"xor\",\"i\":" + JVInt(v.xor_wrapper()) + "}";
    case V::kIntModN: return "{\"k\":\"mod\",\"i\":" + JVInt(v.int_mod_n()) + "}";
    case V::kTuple:
      return "{\"k\":\"tup\",\"t\":" + JList(v.tuple().elements(), [](const V& e) { return JValue(e); }) + "}";
    default: return "{\"k\":\"none\"}";
  }
}
std::string JKey(const dp::DpfKey& k, bool full) {
  auto val = [](const dp::Value& v) { return JValue(v); };
  std::string r = "{\"seed\":" + JInt(k.has_seed()) + ",\"party\":" + JInt(k.party());
  if (full) r += ",\"s\":" + JWord(OfBlock(k.seed())) + ",\"w\":" + JBytes(k.SerializeAsString());
  r += ",\"cw\":" + JList(k.correction_words(), [&](const dp::CorrectionWord& c) {
         std::string x = "{\"seed\":" + JInt(c.has_seed());
         if (full)
           x += ",\"s\":" + JWord(OfBlock(c.seed())) + ",\"c\":[" + JInt(c.control_left()) + "," +
                JInt(c.control_right()) + "]";
         return x + ",\"vc\":" + JList(c.value_correction(), val) + "}";
       });
  return r + ",\"last\":" + JList(k.last_level_value_correction(), val) + "}";
}

// type ::= u<b> | x<b> | m<b>:<n> | M<b> (modulus unset) | N (nothing) | '(' [type {',' type}] ')'
static u128 Dec(const std::string& s) {
  u128 r = 0;
  for (char c : s) r = r * 10 + (c - '0');
  return r;
}
static void SetInt(dp::Value::Integer* i, const std::string& s, bool wide) {
  u128 v = Dec(s);
  if (wide || absl::Uint128High64(v) != 0) {
    i->mutable_value_uint128()->set_high(absl::Uint128High64(v));
    i->mutable_value_uint128()->set_low(absl::Uint128Low64(v));
  } else {
    i->set_value_uint64(absl::Uint128Low64(v));
  }
}
static std::string Num(const std::string& s, size_t* p) {
  std::string r;
  while (*p < s.size() && (isdigit(s[*p]) || s[*p] == '-')) r.push_back(s[(*p)++]);
  return r;
}
static void TypeAt(const std::string& s, size_t* p, dp::ValueType* t) {
  char c = s[(*p)++];
  if (c == '(') {
    t->mutable_tuple();
    while (s[*p] != ')') {
      TypeAt(s, p, t->mutable_tuple()->add_elements());
      if (s[*p] == ',') ++*p;
    }
    ++*p;
  } else if (c == 'u') {
    t->mutable_integer()->set_bitsize(atoi(Num(s, p).c_str()));
  } else if (c == 'x') {
    t->mutable_xor_wrapper()->set_bitsize(atoi(Num(s, p).c_str()));
  } else if (c == 'm' || c == 'w') {
    t->mutable_int_mod_n()->mutable_base_integer()->set_bitsize(atoi(Num(s, p).c_str()));
    ++*p;
    SetInt(t->mutable_int_mod_n()->mutable_modulus(), Num(s, p), c == 'w');
  } else if (c == 'M') {
    t->mutable_int_mod_n()->mutable_base_integer()->set_bitsize(atoi(Num(s, p).c_str()));
  } else if (c != 'N') {
    exit(99);
  }
}
dp::ValueType ParseType(const std::string& s) {
  dp::ValueType t;
  size_t p = 0;
  TypeAt(s, &p, &t);
  return t;
}
// value ::= i<n> | I<n> (as 128-bit message) | i (integer unset) ; x.., m.. likewise (capital = wide) ;
//           N (nothing) | '(' values ')'
static void ValueAt(const std::string& s, size_t* p, dp::Value* v) {
  char c = s[(*p)++];
  if (c == '(') {
    v->mutable_tuple();
    while (s[*p] != ')') {
      ValueAt(s, p, v->mutable_tuple()->add_elements());
      if (s[*p] == ',') ++*p;
    }
    ++*p;
    return;
  }
  if (c == 'N') return;
  char k = tolower(c);
  dp::Value::Integer* i = k == 'i' ? v->mutable_integer() : k == 'x' ? v->mutable_xor_wrapper()
                                                                     : v->mutable_int_mod_n();
  std::string n = Num(s, p);
  if (!n.empty()) SetInt(i, n, c != k);
}
dp::Value ParseValue(const std::string& s) {
  dp::Value v;
  size_t p = 0;
  ValueAt(s, &p, &v);
  return v;
}
std::string JSec(double s) {
  if (std::isnan(s)) return "{\"nan\":1,\"m\":0}";
  if (s > 1e6) s = 1e6;
  if (s < -1e6) s = -1e6;
  return "{\"nan\":0,\"m\":" + JInt(llround(s * 1000)) + "}";
}

std::string JPar(const dp::DpfParameters& p) {
  return "{\"ld\":" + JInt(p.log_domain_size()) + ",\"has\":" + JInt(p.has_value_type()) +
         ",\"sec\":" + JSec(p.security_parameter()) + ",\"ty\":" + JType(p.value_type()) + "}";
}

void ParsePars(const std::string& s, std::vector<dp::DpfParameters>* par, std::vector<std::string>* ty) {
  if (s.empty()) return;
  for (auto& l : Split(s, ';')) {
    auto f = Split(l, '|');
    dp::DpfParameters p;
    p.set_log_domain_size(atol(f[0].c_str()));
    if (f[1] != "-") *p.mutable_value_type() = ParseType(f[1]);
    if (f.size() > 2 && !f[2].empty())
      p.set_security_parameter(f[2] == "nan" ? NAN : f[2] == "inf" ? INFINITY : atof(f[2].c_str()));
    par->push_back(p);
    ty->push_back(f[1]);
  }
}

void MutateKey(dp::DpfKey* k, const std::string& m) {
  auto f = Split(m, ':');
  const int at = f.size() > 1 ? atoi(f[1].c_str()) : 0, cws = k->correction_words_size(), last = k->last_level_value_correction_size();
  // Nothing there to change: leave the key as it is.
  if ((f[0] == "novc" || f[0] == "dropvc" || f[0] == "addvc" || f[0] == "setvc" || f[0] == "rndcw") && at >= cws) return;
  if ((f[0] == "dropvc" || f[0] == "addvc") && k->correction_words(at).value_correction_size() == 0) return;
  if (f[0] == "setvc" && atoi(f[2].c_str()) >= k->correction_words(at).value_correction_size()) return;
  if (f[0] == "dropcw" && cws == 0) return;
  if ((f[0] == "droplast" || f[0] == "addlast") && last == 0) return;
  if (f[0] == "setlast" && at >= last) return;
  if (f[0] == "noseed") k->clear_seed();
  else if (f[0] == "party") k->set_party(atoi(f[1].c_str()));
  else if (f[0] == "dropcw") k->mutable_correction_words()->RemoveLast();
  else if (f[0] == "addcw") *k->add_correction_words() = k->correction_words_size() ? k->correction_words(0) : dp::CorrectionWord();
  else if (f[0] == "nocw") k->clear_correction_words();
  else if (f[0] == "nolast") k->clear_last_level_value_correction();
  else if (f[0] == "novc") k->mutable_correction_words(atoi(f[1].c_str()))->clear_value_correction();
  else if (f[0] == "dropvc") k->mutable_correction_words(atoi(f[1].c_str()))->mutable_value_correction()->RemoveLast();
  else if (f[0] == "addvc") { auto* c = k->mutable_correction_words(atoi(f[1].c_str())); dp::Value v = c->value_correction(0); *c->add_value_correction() = v; }
  else if (f[0] == "setvc") *k->mutable_correction_words(atoi(f[1].c_str()))->mutable_value_correction(atoi(f[2].c_str())) = ParseValue(f[3]);
  else if (f[0] == "droplast") k->mutable_last_level_value_correction()->RemoveLast();
  else if (f[0] == "addlast") { dp::Value v = k->last_level_value_correction(0); *k->add_last_level_value_correction() = v; }
  else if (f[0] == "setlast") *k->mutable_last_level_value_correction(atoi(f[1].c_str())) = ParseValue(f[2]);
  else if (f[0] == "rndcw") {   // any bits at all are a well-formed correction word
    auto* c = k->mutable_correction_words(atoi(f[1].c_str()));
    u128 s = ParseU128(f[2]);
    c->mutable_seed()->set_high(absl::Uint128High64(s));
    c->mutable_seed()->set_low(absl::Uint128Low64(s));
    c->set_control_left(f[3] == "1");
    c->set_control_right(f[4] == "1");
  } else exit(99);
}

Flat FlatOf(const std::string& s) {
  Flat f;
  for (auto& x : Split(s, ',')) f.push_back(ParseU128(x));
  return f;
}
}  // namespace vf
