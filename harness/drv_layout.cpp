// Mode "layout": data layouts built, described, written, mapped, patched, copied; automatic layouts; threads building layouts.
#include "common.h"

#include <atomic>
#include <thread>

#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>

using namespace vrs;
namespace vd {
namespace {

// ---- strings used as labels, values, keys and tags, in order of bytes; 0 is the empty string
const vector<string>& strings() {
  static const vector<string> s = [] {
    vector<string> v{"", "\"\\/\b\n\t\x01\x1f", "1", "10", "<x>&'", "A", "a", "a b", "a/b", "ab", "b", "capture", string(300, 'k'), string(70000, 'm'), "z\x7f", "\xc3\xa9t\xc3\xa9", "\xf0\x9f\x98\x80",
                     string("a\0b", 3), string("\0", 1), "\xff\xfe\x80"};
    return v;
  }();
  return s;
}
int strIndex(const string& x) {
  for (size_t k = 0; k < strings().size(); k++)
    if (strings()[k] == x)
      return static_cast<int>(k);
  return -1;
}
const string& str(int k) {
  return strings()[static_cast<size_t>(k) % strings().size()];
}

// ---- values of each type; 0 is T{}
template <class T>
struct Tab {
  static const vector<T>& get() {
    static const vector<T> v = [] {
      vector<T> r;
      if constexpr (std::is_same_v<T, Bool>)
        r = {false, true};
      else if constexpr (std::is_floating_point_v<T>)
        r = {0, static_cast<T>(1.5), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::infinity(), static_cast<T>(-0.1), std::numeric_limits<T>::max(), static_cast<T>(1.0 / 3), std::numeric_limits<T>::lowest(),
             -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::min(), static_cast<T>(7)};
      else
        r = {0, 1, std::numeric_limits<T>::max(), static_cast<T>(std::is_signed_v<T> ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max() - 1), 42, static_cast<T>(std::is_signed_v<T> ? -1 : std::numeric_limits<T>::max() / 2 + 1)};
      return r;
    }();
    return v;
  }
};
template <class T, size_t N>
struct Tab<PointND<T, N>> {
  static const vector<PointND<T, N>>& get() {
    static const vector<PointND<T, N>> v = [] {
      vector<PointND<T, N>> r(1);
      for (size_t k = 1; k < 6; k++) {
        PointND<T, N> p;
        for (size_t j = 0; j < N; j++)
          p.dim[j] = Tab<T>::get()[(k + j) % Tab<T>::get().size()];
        r.push_back(p);
      }
      return r;
    }();
    return v;
  }
};
template <class T, size_t N>
struct Tab<MatrixND<T, N>> {
  static const vector<MatrixND<T, N>>& get() {
    static const vector<MatrixND<T, N>> v = [] {
      vector<MatrixND<T, N>> r(1);
      for (size_t k = 1; k < 6; k++) {
        MatrixND<T, N> m;
        for (size_t j = 0; j < N; j++)
          m.points[j] = Tab<PointND<T, N>>::get()[(k + j) % 6];
        r.push_back(m);
      }
      return r;
    }();
    return v;
  }
};
template <>
struct Tab<string> {
  static const vector<string>& get() {
    return strings();
  }
};
template <class T>
bool eq(const T& a, const T& b) {
  if constexpr (std::is_floating_point_v<T>)
    return memcmp(&a, &b, sizeof(T)) == 0 || (std::isnan(a) && std::isnan(b));
  else
    return a == b;
}
template <class T, size_t N>
bool eq(const PointND<T, N>& a, const PointND<T, N>& b) {
  for (size_t k = 0; k < N; k++)
    if (!eq(a.dim[k], b.dim[k]))
      return false;
  return true;
}
template <class T, size_t N>
bool eq(const MatrixND<T, N>& a, const MatrixND<T, N>& b) {
  for (size_t k = 0; k < N; k++)
    if (!eq(a.points[k], b.points[k]))
      return false;
  return true;
}
template <class T>
const T& val(int k) {
  return Tab<T>::get()[static_cast<size_t>(k) % Tab<T>::get().size()];
}
template <class T>
int idx(const T& v) {
  const auto& t = Tab<T>::get();
  for (size_t k = 0; k < t.size(); k++)
    if (eq(t[k], v))
      return static_cast<int>(k);
  return -1;
}

using Ints = vector<int>;
template <class T>
vector<T> vals(const Ints& v) {
  vector<T> r;
  for (int k : v)
    r.push_back(val<T>(k));
  return r;
}
template <class T>
Ints idxs(const vector<T>& v) {
  Ints r;
  for (const auto& x : v)
    r.push_back(idx(x));
  return r;
}
template <class T>
map<string, T> mapOf(const Ints& v) {
  map<string, T> r;
  for (size_t k = 0; k + 1 < v.size(); k += 2)
    r[str(v[k])] = val<T>(v[k + 1]);
  return r;
}
template <class T>
Ints idxs(const map<string, T>& m) {
  map<int, int> s;
  Ints bad;
  for (const auto& x : m) {
    int k = strIndex(x.first);
    if (k < 0)
      bad = {-1, -1};
    s[k] = idx(x.second);
  }
  Ints r;
  for (auto& x : s) {
    r.push_back(x.first);
    r.push_back(x.second);
  }
  r.insert(r.end(), bad.begin(), bad.end());
  return r;
}

struct Field {
  int lab{};
  char k{'v'};
  int ty{};
  int n{};
  bool req{};
  bool hasDef{};
  Ints def;
  Ints tags;
  Ints props; // min, max as <<1, v>>, <<2, v>> flattened
};

struct Got {
  bool available{}, mapped{}, ok{};
  Ints v, plain;
};

// operations on pieces whose type is known at run time
struct Ops {
  virtual ~Ops() = default;
  virtual DataPiece* make(const Field& f, std::unique_ptr<DataPiece>& holder) = 0;
  virtual Ints def(DataPiece* p) = 0;
  virtual Ints props(DataPiece* p) = 0;
  virtual int size(DataPiece* p) = 0;
  virtual bool set(DataPiece* p, const Ints& v, int how) = 0;
  virtual Got get(DataPiece* p, int fill) = 0;
  virtual bool patch(DataPiece* p, const Ints& v) = 0;
  virtual DataPiece* find(DataLayout& l, const string& label, int n) = 0;
};

template <class P, class T>
Ints limits(P* p) {
  Ints r;
  T v{};
  if (p->getMin(v)) {
    r.push_back(1);
    r.push_back(idx<T>(v));
  }
  T w{};
  if (p->getMax(w)) {
    r.push_back(2);
    r.push_back(idx<T>(w));
  }
  T x{};
  if (p->getProperty("custom", x)) {
    r.push_back(3);
    r.push_back(idx<T>(x));
  }
  return r;
}
template <class P, class T>
void setLimits(P* p, const Ints& v) {
  for (size_t k = 0; k + 1 < v.size(); k += 2) {
    if (v[k] == 1)
      p->setMin(val<T>(v[k + 1]));
    else if (v[k] == 2)
      p->setMax(val<T>(v[k + 1]));
    else
      p->setProperty("custom", val<T>(v[k + 1]));
  }
}

// the ways to give a default: 0..5, the same for the same field
int howDef(const Field& f) {
  int x = f.lab + f.ty;
  for (int v : f.def)
    x += v;
  return x % 6;
}
template <class P, class T>
void setFrom(P* p, const vector<T>& d, int how) {
  if (how % 3 == 0 || d.empty())
    p->setDefault(d);
  else if (how % 3 == 1)
    p->setDefault(d.data(), d.size());
  else if (d.size() == 1) {
    const T a[1] = {d[0]};
    p->setDefault(a);
  } else if (d.size() == 2) {
    const T a[2] = {d[0], d[1]};
    p->setDefault(a);
  } else if (d.size() == 3) {
    const T a[3] = {d[0], d[1], d[2]};
    p->setDefault(a);
  } else
    p->setDefault(d.data(), d.size());
}

template <class T>
struct ValueOps : Ops {
  using P = DataPieceValue<T>;
  DataPiece* make(const Field& f, std::unique_ptr<DataPiece>& h) override {
    auto p = f.hasDef && howDef(f) % 2 ? std::make_unique<P>(str(f.lab), val<T>(f.def[0]))
                                       : std::make_unique<P>(str(f.lab));
    if (f.hasDef && howDef(f) % 2 == 0)
      p->setDefault(val<T>(f.def[0]));
    setLimits<P, T>(p.get(), f.props);
    h = std::move(p);
    return h.get();
  }
  Ints def(DataPiece* p) override {
    return {idx<T>(static_cast<P*>(p)->getDefault())};
  }
  Ints props(DataPiece* p) override {
    return limits<P, T>(static_cast<P*>(p));
  }
  int size(DataPiece*) override {
    return 0;
  }
  bool set(DataPiece* p, const Ints& v, int) override {
    return static_cast<P*>(p)->set(val<T>(v[0]));
  }
  Got get(DataPiece* p, int fill) override {
    Got g;
    T v = val<T>(fill);
    g.ok = static_cast<P*>(p)->get(v);
    g.v = {idx<T>(v)};
    g.plain = {idx<T>(static_cast<P*>(p)->get())};
    return g;
  }
  bool patch(DataPiece* p, const Ints& v) override {
    return static_cast<P*>(p)->patchValue(val<T>(v[0]));
  }
  DataPiece* find(DataLayout& l, const string& label, int) override {
    return l.findDataPieceValue<T>(label);
  }
};
template <class T>
struct ArrayOps : Ops {
  using P = DataPieceArray<T>;
  DataPiece* make(const Field& f, std::unique_ptr<DataPiece>& h) override {
    auto p = std::make_unique<P>(str(f.lab), f.n);
    if (f.hasDef) {
      const vector<T> d = vals<T>(f.def);
      if (howDef(f) >= 4)
        p->setDefault(vector<T>(f.n + 1, val<T>(1))); // a default can be replaced
      setFrom<P, T>(p.get(), d, howDef(f));
    }
    setLimits<P, T>(p.get(), f.props);
    h = std::move(p);
    return h.get();
  }
  Ints def(DataPiece* p) override {
    return idxs(static_cast<P*>(p)->getDefault());
  }
  Ints props(DataPiece* p) override {
    return limits<P, T>(static_cast<P*>(p));
  }
  int size(DataPiece* p) override {
    return static_cast<int>(static_cast<P*>(p)->getArraySize());
  }
  bool set(DataPiece* p, const Ints& v, int how) override {
    auto* a = static_cast<P*>(p);
    vector<T> x = vals<T>(v);
    if (how == 1) { // element by element: the others keep their values, so clear first
      a->set(nullptr, 0);
      bool ok = true;
      for (size_t k = x.size(); k-- > 0;)
        if (a->set(x[k], k) != (k < a->getArraySize()))
          ok = false;
      return ok;
    }
    return a->set(x);
  }
  Got get(DataPiece* p, int fill) override {
    auto* a = static_cast<P*>(p);
    Got g;
    vector<T> v(static_cast<size_t>(fill % 5), val<T>(fill));
    g.ok = a->get(v);
    g.v = idxs(v);
    size_t n = a->getArraySize();
    vector<T> w(n, val<T>(fill));
    bool ok2 = a->get(w.data(), n);
    g.plain = idxs(w);
    for (size_t k = 0; k < n; k++) {
      T x = val<T>(fill);
      if (a->get(x, k) != g.ok || !eq(x, w[k]))
        g.plain.push_back(-100);
    }
    for (size_t m = 1; m < n; m++) { // the first elements only
      vector<T> u(m, val<T>(fill));
      if (a->get(u.data(), m) != g.ok)
        g.plain.push_back(-101);
      for (size_t k = 0; k < m; k++)
        if (!eq(u[k], w[k]))
          g.plain.push_back(-102);
    }
    if (ok2 != g.ok)
      g.plain.push_back(-103);
    return g;
  }
  bool patch(DataPiece* p, const Ints& v) override {
    vector<T> x = vals<T>(v);
    return static_cast<P*>(p)->patchValue(x.data(), x.size());
  }
  DataPiece* find(DataLayout& l, const string& label, int n) override {
    return l.findDataPieceArray<T>(label, n);
  }
};
template <class T>
struct VectorOps : Ops {
  using P = DataPieceVector<T>;
  DataPiece* make(const Field& f, std::unique_ptr<DataPiece>& h) override {
    auto p = f.hasDef && howDef(f) % 2 ? std::make_unique<P>(str(f.lab), vals<T>(f.def))
                                       : std::make_unique<P>(str(f.lab));
    if (f.hasDef && howDef(f) % 2 == 0) {
      const vector<T> d = vals<T>(f.def);
      if (howDef(f) == 4)
        p->setDefault(vals<T>(f.def));
      else if constexpr (std::is_same_v<T, string>)
        p->setDefault(d);
      else
        setFrom<P, T>(p.get(), d, howDef(f));
    }
    h = std::move(p);
    return h.get();
  }
  Ints def(DataPiece* p) override {
    return idxs(static_cast<P*>(p)->getDefault());
  }
  Ints props(DataPiece*) override {
    return {};
  }
  int size(DataPiece*) override {
    return 0;
  }
  bool set(DataPiece* p, const Ints& v, int how) override {
    auto* a = static_cast<P*>(p);
    vector<T> x = vals<T>(v);
    if (how == 1)
      a->stage(x.data(), x.size());
    else if (how == 2)
      a->stagedValues() = x;
    else
      a->stage(x);
    return true;
  }
  Got get(DataPiece* p, int fill) override {
    Got g;
    vector<T> v(static_cast<size_t>(fill % 5), val<T>(fill));
    g.ok = static_cast<P*>(p)->get(v);
    g.v = g.plain = idxs(v);
    return g;
  }
  bool patch(DataPiece* p, const Ints& v) override {
    return static_cast<P*>(p)->patchValue(vals<T>(v));
  }
  DataPiece* find(DataLayout& l, const string& label, int) override {
    return l.findDataPieceVector<T>(label);
  }
};
template <class T>
struct MapOps : Ops {
  using P = DataPieceStringMap<T>;
  DataPiece* make(const Field& f, std::unique_ptr<DataPiece>& h) override {
    auto p = f.hasDef && howDef(f) % 2 ? std::make_unique<P>(str(f.lab), mapOf<T>(f.def))
                                       : std::make_unique<P>(str(f.lab));
    if (f.hasDef && howDef(f) == 0)
      p->setDefault(mapOf<T>(f.def));
    else if (f.hasDef && howDef(f) % 2 == 0) {
      const auto d = mapOf<T>(f.def);
      p->setDefault(d);
    }
    h = std::move(p);
    return h.get();
  }
  Ints def(DataPiece* p) override {
    return idxs(static_cast<P*>(p)->getDefault());
  }
  Ints props(DataPiece*) override {
    return {};
  }
  int size(DataPiece*) override {
    return 0;
  }
  bool set(DataPiece* p, const Ints& v, int how) override {
    auto* a = static_cast<P*>(p);
    if (how == 2)
      a->stagedValues() = mapOf<T>(v);
    else
      a->stage(mapOf<T>(v));
    return true;
  }
  Got get(DataPiece* p, int fill) override {
    Got g;
    map<string, T> v;
    if (fill % 2)
      v["left over"] = val<T>(fill);
    g.ok = static_cast<P*>(p)->get(v);
    g.v = g.plain = idxs(v);
    return g;
  }
  bool patch(DataPiece* p, const Ints& v) override {
    return static_cast<P*>(p)->patchValue(mapOf<T>(v));
  }
  DataPiece* find(DataLayout& l, const string& label, int) override {
    return l.findDataPieceStringMap<T>(label);
  }
};
struct StringOps : Ops {
  using P = DataPieceString;
  DataPiece* make(const Field& f, std::unique_ptr<DataPiece>& h) override {
    auto p = f.hasDef && howDef(f) % 2 ? std::make_unique<P>(str(f.lab), str(f.def[0]))
                                       : std::make_unique<P>(str(f.lab));
    if (f.hasDef && howDef(f) == 0)
      p->setDefault(string(str(f.def[0])));
    else if (f.hasDef && howDef(f) % 2 == 0) {
      const string d = str(f.def[0]);
      p->setDefault(d);
    }
    h = std::move(p);
    return h.get();
  }
  Ints def(DataPiece* p) override {
    return {strIndex(static_cast<P*>(p)->getDefault())};
  }
  Ints props(DataPiece*) override {
    return {};
  }
  int size(DataPiece*) override {
    return 0;
  }
  bool set(DataPiece* p, const Ints& v, int how) override {
    if (how == 2)
      static_cast<P*>(p)->stagedValue() = str(v[0]);
    else
      static_cast<P*>(p)->stage(str(v[0]));
    return true;
  }
  Got get(DataPiece* p, int fill) override {
    Got g;
    string v = fill % 2 ? "left over" : "";
    g.ok = static_cast<P*>(p)->get(v);
    g.v = {strIndex(v)};
    g.plain = {strIndex(static_cast<P*>(p)->get())};
    return g;
  }
  bool patch(DataPiece* p, const Ints& v) override {
    return static_cast<P*>(p)->patchValue(str(v[0]));
  }
  DataPiece* find(DataLayout& l, const string& label, int) override {
    return l.findDataPieceString(label);
  }
};

struct TypeEntry {
  string name;
  std::unique_ptr<Ops> v, a, V, m;
};
template <class T>
TypeEntry entry() {
  TypeEntry e;
  e.name = vrs::getTypeName<T>();
  e.v = std::make_unique<ValueOps<T>>();
  e.a = std::make_unique<ArrayOps<T>>();
  e.V = std::make_unique<VectorOps<T>>();
  e.m = std::make_unique<MapOps<T>>();
  return e;
}
vector<TypeEntry>& types() {
  static vector<TypeEntry> t = [] {
    vector<TypeEntry> r;
#define POD_MACRO(T) r.push_back(entry<T>());
#include <vrs/helpers/PODMacro.inc>
    TypeEntry s;
    s.name = "string";
    s.V = std::make_unique<VectorOps<string>>();
    s.m = std::make_unique<MapOps<string>>();
    r.push_back(std::move(s));
    return r;
  }();
  return t;
}
StringOps gString;
Ops& opsOf(char k, int ty) {
  if (k == 's')
    return gString;
  auto& t = types()[static_cast<size_t>(ty) % types().size()];
  Ops* o = k == 'v' ? t.v.get() : k == 'a' ? t.a.get() : k == 'V' ? t.V.get() : t.m.get();
  return *o;
}
char kindOf(const DataPiece* p) {
  switch (p->getPieceType()) {
    case DataPieceType::Value:
      return 'v';
    case DataPieceType::Array:
      return 'a';
    case DataPieceType::Vector:
      return 'V';
    case DataPieceType::String:
      return 's';
    case DataPieceType::StringMap:
      return 'm';
    default:
      return '?';
  }
}
int typeOf(const DataPiece* p) {
  if (p->getPieceType() == DataPieceType::String)
    return 0;
  for (size_t k = 0; k < types().size(); k++)
    if (types()[k].name == p->getElementTypeName())
      return static_cast<int>(k);
  return -1;
}
Ops& opsOf(const DataPiece* p) {
  return opsOf(kindOf(p), typeOf(p));
}
vector<DataPiece*> pieces(DataLayout& l) {
  vector<DataPiece*> r;
  l.forEachDataPiece([&](DataPiece* p) { r.push_back(p); });
  return r;
}

string ints(const Ints& v) {
  string r = "[";
  for (size_t k = 0; k < v.size(); k++)
    r += (k ? "," : "") + std::to_string(v[k]);
  return r + "]";
}
string B(bool b) {
  return b ? "true" : "false";
}
Ints intsOf(const J& j) {
  Ints r;
  for (const auto& x : j.GetArray())
    r.push_back(x.GetInt());
  return r;
}
Field field(const J& j) {
  Field f;
  f.lab = static_cast<int>(gi(j, "lab"));
  f.k = gs(j, "k")[0];
  f.ty = static_cast<int>(gi(j, "ty"));
  f.n = static_cast<int>(gi(j, "n"));
  f.req = gb(j, "req");
  f.def = intsOf(j["def"]);
  f.hasDef = !f.def.empty();
  f.tags = intsOf(j["tags"]);
  f.props = intsOf(j["props"]);
  return f;
}

// what the layout says about its fields
string describe(DataLayout& l) {
  string r = "[";
  for (DataPiece* p : pieces(l)) {
    Ops& o = opsOf(p);
    Ints tags;
    for (size_t k = 0; k < strings().size(); k++) {
      string v;
      if (p->getTag(strings()[k], v)) {
        tags.push_back(static_cast<int>(k));
        tags.push_back(strIndex(v));
      }
    }
    r += (r.size() > 1 ? "," : "") + string("{\"lab\":") + std::to_string(strIndex(p->getLabel())) + ",\"k\":\"" + kindOf(p) + "\",\"ty\":" + std::to_string(typeOf(p)) + ",\"n\":" + std::to_string(o.size(p)) +
        ",\"req\":" + B(p->isRequired()) + ",\"def\":" + ints(o.def(p)) + ",\"tags\":" + ints(tags) + ",\"props\":" + ints(o.props(p)) + "}";
  }
  return r + "]";
}

struct L {
  vector<Field> fields;
  std::unique_ptr<DataLayout> writer;
};
struct R {
  int layout{};
  vector<int8_t> fixed, var;
};
struct State {
  map<int, L> layouts;
  map<int, R> recs;
  // pairs (stored layout, expected layout) kept from one record to the next, as readers do
  struct Pair {
    std::unique_ptr<DataLayout> stored, expected;
  };
  map<std::pair<int, int>, Pair> kept;
};

std::unique_ptr<DataLayout> build(const vector<Field>& fields) {
  auto l = std::make_unique<ManualDataLayout>();
  for (const auto& f : fields) {
    std::unique_ptr<DataPiece> h;
    DataPiece* p = opsOf(f.k, f.ty).make(f, h);
    for (size_t k = 0; k + 1 < f.tags.size(); k += 2)
      p->setTag(str(f.tags[k]), str(f.tags[k + 1]));
    p->setRequired(f.req);
    l->add(std::move(h));
  }
  l->endLayout();
  return l;
}

// as DataLayoutBlockReader does
bool load(DataLayout& l, const R& r) {
  auto& fixed = l.getFixedData();
  fixed.resize(l.getFixedDataSizeNeeded());
  if (r.fixed.size() != fixed.size())
    return false;
  if (!fixed.empty())
    memcpy(fixed.data(), r.fixed.data(), fixed.size());
  auto& var = l.getVarData();
  size_t n = l.getVarDataSizeFromIndex();
  if (n != r.var.size())
    return false;
  var.resize(n);
  if (n)
    memcpy(var.data(), r.var.data(), n);
  return true;
}
R save(int layout, DataLayout& l) {
  R r;
  r.layout = layout;
  l.collectVariableDataAndUpdateIndex();
  vector<int8_t> raw;
  l.getRawData(raw);
  size_t n = std::min(raw.size(), l.getFixedDataSizeNeeded());
  r.fixed.assign(raw.begin(), raw.begin() + n);
  r.var.assign(raw.begin() + n, raw.end());
  return r;
}
string readAll(DataLayout& l, int fill) {
  string r = "[";
  int k = 0;
  for (DataPiece* p : pieces(l)) {
    Got g = opsOf(p).get(p, fill + k++);
    r += (r.size() > 1 ? "," : "") + string("{\"m\":") + B(p->isMapped()) + ",\"av\":" + B(p->isAvailable()) + ",\"ok\":" + B(g.ok) + ",\"v\":" + ints(g.v) + ",\"w\":" + ints(g.plain) + "}";
  }
  return r + "]";
}
bool applySets(DataLayout& l, const J& op) {
  bool ok = true;
  auto ps = pieces(l);
  if (op.HasMember("sets"))
    for (const auto& s : op["sets"].GetArray()) {
      DataPiece* p = ps.at(static_cast<size_t>(gi(s, "i") - 1));
      ok = opsOf(p).set(p, intsOf(s["v"]), static_cast<int>(gi(s, "how"))) && ok;
    }
  return ok;
}

// hand written layouts, with nested structures
struct Inner : DataLayoutStruct {
  DATA_LAYOUT_STRUCT(Inner)
  DataPieceValue<int32_t> x{"x"};
  DataPieceString s{"s"};
};
struct Middle : DataLayoutStruct {
  DATA_LAYOUT_STRUCT(Middle)
  DataPieceValue<float> f{"f"};
  Inner in{"in"};
  Inner in2{"in2"};
  DataPieceVector<uint8_t> b{"b"};
};
struct AutoA : AutoDataLayout {
  DataPieceValue<int32_t> x{"x"};
  Middle m{"m"};
  DataLayoutStructArray<Inner, 3> arr{"arr"};
  DataPieceValue<int32_t> y{"y"};
  AutoDataLayoutEnd end;
};
struct AutoB : AutoDataLayout {
  Inner in{"in"};
  DataPieceValue<int32_t> x{"x"};
  DataLayoutStructArray<Middle, 2> ms{"ms"};
  AutoDataLayoutEnd end;
};
struct AutoC : AutoDataLayout {
  DataPieceString s{"s"};
  AutoDataLayoutEnd end;
};
struct Opt {
  DataPieceValue<double> d{"d"};
  DataPieceVector<string> v{"v"};
};
struct AutoD : AutoDataLayout {
  explicit AutoD(bool opt) : o(opt) {}
  DataPieceValue<int32_t> x{"x"};
  OptionalDataPieces<Opt> o;
  DataPieceValue<int32_t> y{"y"};
  AutoDataLayoutEnd end;
};
std::unique_ptr<DataLayout> makeAuto(int k) {
  switch (k % 5) {
    case 0:
      return std::make_unique<AutoA>();
    case 1:
      return std::make_unique<AutoB>();
    case 2:
      return std::make_unique<AutoC>();
    case 3:
      return std::make_unique<AutoD>(true);
    default:
      return std::make_unique<AutoD>(false);
  }
}
string labels(DataLayout& l) {
  string r = "[";
  for (DataPiece* p : pieces(l))
    r += (r.size() > 1 ? "," : "") + jstr(p->getLabel());
  return r + "]";
}

void concurrent(const J& op) {
  int n = static_cast<int>(gi(op, "threads"));
  vector<string> res(n);
  std::atomic<int> ready{0};
  vector<std::thread> ts;
  for (int t = 0; t < n; t++)
    ts.emplace_back([&, t] {
      Rng rng(gi(op, "seed") + t * 977);
      ready++;
      while (ready < n)
        ;
      for (int c = 0; c < gi(op, "n", 10); c++) {
        int k = static_cast<int>(rng.below(7));
        string got;
        if (k < 5) {
          auto l = makeAuto(k);
          got = labels(*l);
        } else if (k == 5) {
          auto a = makeAuto(0);
          auto l = DataLayout::makeFromJson(a->asJson());
          got = labels(*l);
        } else {
          auto a = makeAuto(1);
          ManualDataLayout l(*a);
          l.endLayout();
          got = labels(l);
        }
        res[t] += (res[t].empty() ? "" : ",") + string("[") + std::to_string(k == 5 ? 0 : k == 6 ? 1 : k) + "," + got + "]";
      }
    });
  for (auto& t : ts)
    t.join();
  string all;
  for (auto& r : res)
    if (!r.empty())
      all += (all.empty() ? "" : ",") + r;
  Ev e("auto");
  e.raw("got", "[" + all + "]");
}

void runLayout(const vector<const J*>& ops) {
  State st;
  for (const J* o : ops) {
    const J& op = *o;
    string name = gs(op, "op");
    int fill = static_cast<int>(gi(op, "fill"));
    if (name == "begin") {
      Ev e("begin");
    } else if (name == "layout") {
      L& l = st.layouts[static_cast<int>(gi(op, "L"))];
      for (const auto& f : op["fields"].GetArray())
        l.fields.push_back(field(f));
      l.writer = build(l.fields);
      Ev e("layout");
      echo(e, op);
      e.raw("got", describe(*l.writer));
    } else if (name == "json") {
      L& l = st.layouts[static_cast<int>(gi(op, "L"))];
      auto a = build(l.fields);
      string text = a->asJson();
      auto b = DataLayout::makeFromJson(text);
      ManualDataLayout c(*a);
      c.endLayout();
      auto d = DataLayout::makeFromJson(a->asJson([] {
        JsonFormatProfileSpec p;
        p.prettyJson = true;
        return p;
      }()));
      Ev e("json");
      echo(e, op);
      e.raw("got", describe(*b)).raw("clone", describe(c)).raw("pretty", describe(*d));
      e.b("same", a->isSame(*b) && b->isSame(*a) && a->isSame(c) && c.isSame(*a) && a->isSame(*d)).b("text", b->asJson() == text);
      e.b("pieces", a->getListOfPiecesSpec() == b->getListOfPiecesSpec());
    } else if (name == "like") { // is layout L the same as layout E?
      auto a = build(st.layouts[static_cast<int>(gi(op, "L"))].fields);
      auto b = build(st.layouts[static_cast<int>(gi(op, "E"))].fields);
      Ev e("like");
      echo(e, op);
      e.b("same", a->isSame(*b)).b("same2", b->isSame(*a));
    } else if (name == "write") {
      int k = static_cast<int>(gi(op, "L"));
      DataLayout& w = *st.layouts[k].writer;
      if (gb(op, "init"))
        w.initDataPiecesToDefaultValue();
      bool ok = applySets(w, op);
      R r = save(k, w);
      auto t = DataLayout::makeFromJson(w.asJson());
      bool fits = load(*t, r) && t->isVarDataIndexValid();
      Ev e("write");
      echo(e, op);
      e.b("ok", ok).b("fits", fits).raw("back", readAll(w, fill));
      st.recs[static_cast<int>(gi(op, "R"))] = r;
    } else if (name == "read") {
      int k = static_cast<int>(gi(op, "R")), x = static_cast<int>(gi(op, "E"));
      R& r = st.recs[k];
      State::Pair tmp;
      State::Pair& p = gb(op, "fresh") ? tmp : st.kept[{r.layout, x}];
      bool mapped = p.expected != nullptr;
      if (!p.stored)
        p.stored = DataLayout::makeFromJson(st.layouts[r.layout].writer->asJson());
      if (!p.expected)
        p.expected = build(st.layouts[x].fields);
      bool ok;
      if (!mapped && gb(op, "early")) {
        p.expected->mapLayout(*p.stored);
        ok = load(*p.stored, r);
      } else {
        ok = load(*p.stored, r);
        if (!mapped)
          p.expected->mapLayout(*p.stored);
      }
      vector<int8_t> raw;
      p.expected->getRawData(raw);
      bool same = raw.size() == r.fixed.size() + r.var.size() && std::equal(r.fixed.begin(), r.fixed.end(), raw.begin()) && std::equal(r.var.begin(), r.var.end(), raw.begin() + r.fixed.size());
      Ev e("read");
      echo(e, op);
      e.b("ok", ok).b("all", p.expected->hasAllRequiredPieces()).b("raw", same).b("valid", p.expected->isVarDataIndexValid());
      e.i("nfix", p.expected->getAvailableFixedDataPiecesCount()).i("nvar", p.expected->getAvailableVarDataPiecesCount());
      e.raw("got", readAll(*p.expected, fill)).raw("own", readAll(*p.stored, fill + 1));
    } else if (name == "find") {
      auto l = build(st.layouts[static_cast<int>(gi(op, "E"))].fields);
      auto ps = pieces(*l);
      string r = "[";
      for (const auto& j : op["asked"].GetArray()) {
        Field f = field(j);
        DataPiece* q = opsOf(f.k, f.ty).find(*l, str(f.lab), f.n);
        int at = 0;
        for (size_t k = 0; k < ps.size(); k++)
          if (ps[k] == q)
            at = static_cast<int>(k + 1);
        r += (r.size() > 1 ? "," : "") + std::to_string(q && !at ? -1 : at);
      }
      Ev e("find");
      echo(e, op);
      e.raw("got", r + "]");
    } else if (name == "copy") {
      R& r = st.recs[static_cast<int>(gi(op, "R"))];
      auto& x = st.layouts[static_cast<int>(gi(op, "E"))];
      auto stored = DataLayout::makeFromJson(st.layouts[r.layout].writer->asJson());
      bool ok = load(*stored, r);
      auto expected = build(x.fields), target = build(x.fields);
      expected->mapLayout(*stored);
      if (gb(op, "init"))
        target->initDataPiecesToDefaultValue();
      applySets(*target, op);
      size_t count = target->copyDataPieceValuesFromMappedLayout(*expected);
      R t = save(-1, *target);
      Ev e("copy");
      echo(e, op);
      e.b("ok", ok).i("count", count).raw("got", readAll(*target, fill));
    } else if (name == "patch") {
      int s = static_cast<int>(gi(op, "S"));
      R& r = st.recs[s];
      auto stored = DataLayout::makeFromJson(st.layouts[r.layout].writer->asJson());
      bool ok = load(*stored, r);
      auto expected = build(st.layouts[static_cast<int>(gi(op, "E"))].fields);
      expected->mapLayout(*stored);
      stored->stageCurrentValues();
      Ints done;
      auto ps = pieces(*expected);
      for (const auto& x : op["sets"].GetArray()) {
        DataPiece* p = ps.at(static_cast<size_t>(gi(x, "i") - 1));
        done.push_back(opsOf(p).patch(p, intsOf(x["v"])) ? 1 : 0);
      }
      R n = save(r.layout, *stored);
      Ev e("patch");
      echo(e, op);
      e.b("ok", ok).raw("done", ints(done)).raw("got", readAll(*stored, fill));
      st.recs[static_cast<int>(gi(op, "R"))] = n;
    } else if (name == "edit") {
      R& r = st.recs[static_cast<int>(gi(op, "S"))];
      auto stored = DataLayout::makeFromJson(st.layouts[r.layout].writer->asJson());
      bool ok = load(*stored, r);
      DataLayout* original = stored.get();
      std::unique_ptr<DataLayout> expected;
      vector<Field> fields = st.layouts[r.layout].fields;
      if (gi(op, "E")) {
        fields = st.layouts[static_cast<int>(gi(op, "E"))].fields;
        expected = build(fields);
        expected->mapLayout(*stored);
        original = expected.get();
      }
      auto clone = std::make_unique<ManualDataLayout>(*original);
      L n;
      n.fields = fields;
      for (const auto& j : op["extra"].GetArray()) {
        Field f = field(j);
        n.fields.push_back(f);
        std::unique_ptr<DataPiece> h;
        DataPiece* p = opsOf(f.k, f.ty).make(f, h);
        for (size_t k = 0; k + 1 < f.tags.size(); k += 2)
          p->setTag(str(f.tags[k]), str(f.tags[k + 1]));
        p->setRequired(f.req);
        clone->add(std::move(h));
      }
      clone->endLayout();
      if (gb(op, "init"))
        clone->initDataPiecesToDefaultValue();
      bool done = clone->copyClonedDataPieceValues(*original);
      applySets(*clone, op);
      int k = static_cast<int>(gi(op, "L"));
      R x = save(k, *clone);
      Ev e("edit");
      echo(e, op);
      e.b("ok", ok).b("done", done).raw("desc", describe(*clone)).raw("got", readAll(*clone, fill));
      n.writer = std::move(clone);
      st.layouts[k] = std::move(n);
      st.recs[static_cast<int>(gi(op, "R"))] = x;
    } else if (name == "auto") {
      concurrent(op);
    } else if (name == "types") {
      vector<string> v;
      for (auto& t : types())
        v.push_back(jstr(t.name));
      Ev e("types");
      e.list("got", v);
    }
  }
}
RegisterMode reg("layout", runLayout);

} // namespace
} // namespace vd
