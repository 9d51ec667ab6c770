// Shared pieces of the conformance driver: scripted operations in, observed events out.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <unistd.h>

#include <rapidjson/document.h>

namespace vd {

using std::map;
using std::set;
using std::string;
using std::vector;
using J = rapidjson::Value;

struct Out {
  FILE* f{};
  string line;
  void flush() {
    line += "}\n";
    fwrite(line.data(), 1, line.size(), f);
    fflush(f);
    line.clear();
  }
};
Out& out();

string jstr(const string& s);

// builder for one event line
struct Ev {
  explicit Ev(const string& ev) {
    out().line = "{\"ev\":" + jstr(ev);
  }
  ~Ev() {
    flushNow();
  }
  void flushNow() {
    if (!done_)
      out().flush();
    done_ = true;
  }
  bool done_{false};
  Ev& raw(const char* k, const string& v) {
    out().line += string(",\"") + k + "\":" + v;
    return *this;
  }
  Ev& i(const char* k, int64_t v) {
    return raw(k, std::to_string(v));
  }
  Ev& b(const char* k, bool v) {
    return raw(k, v ? "true" : "false");
  }
  Ev& s(const char* k, const string& v) {
    return raw(k, jstr(v));
  }
  template <class C>
  Ev& list(const char* k, const C& c) {
    string r = "[";
    bool first = true;
    for (const auto& x : c) {
      if (!first)
        r += ",";
      first = false;
      r += x;
    }
    return raw(k, r + "]");
  }
  template <class C>
  Ev& ints(const char* k, const C& c) {
    vector<string> v;
    for (auto x : c)
      v.push_back(std::to_string(static_cast<int64_t>(x)));
    return list(k, v);
  }
};

inline int64_t gi(const J& o, const char* k, int64_t d = 0) {
  auto it = o.FindMember(k);
  return it == o.MemberEnd() || !it->value.IsNumber() ? d : it->value.GetInt64();
}
inline bool gb(const J& o, const char* k, bool d = false) {
  auto it = o.FindMember(k);
  return it == o.MemberEnd() || !it->value.IsBool() ? d : it->value.GetBool();
}
// strings which aren't valid UTF-8 are written \x01hex:0123... in scripts and events
string unhex(string s);
inline string gs(const J& o, const char* k, const string& d = "") {
  auto it = o.FindMember(k);
  return it == o.MemberEnd() || !it->value.IsString()
      ? d
      : unhex(string(it->value.GetString(), it->value.GetStringLength()));
}
inline bool has(const J& o, const char* k) {
  return o.HasMember(k);
}

// copy scalar members of the op into the event, so that the event carries the arguments
void echo(Ev& e, const J& op);

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) {
    return n ? static_cast<uint32_t>(next() % n) : 0;
  }
};

// deterministic payload bytes of record `id`: kind 0 random, 1 compressible text-like, 2 constant
vector<uint8_t> payload(uint32_t id, size_t size, int kind);

// abstract integer time -> double, and back
struct TsMap {
  int mode{0};
  double operator()(int64_t k) const;
  int64_t back(double d) const; // kBadTs if unknown
  mutable map<double, int64_t> known;
};
constexpr int64_t kBadTs = -999999;
constexpr int64_t kMinTs = -1000000;
constexpr int64_t kMaxTs = 1000000;

string scratch(); // process scratch dir, removed at exit
string newDir(const string& name);
void rmrf(const string& path); // only below scratch()
void watchdog(int seconds, const string& what);

vector<uint8_t> slurp(const string& path);
bool spit(const string& path, const vector<uint8_t>& data);
bool fileExists(const string& path);

struct Mode {
  const char* name;
  // run one history: the list of operations between two "begin"
  void (*run)(const vector<const J*>& ops);
};
struct RegisterMode {
  RegisterMode(const char* name, void (*run)(const vector<const J*>& ops));
};

} // namespace vd
