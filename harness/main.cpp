#include "common.h"
#include <mutex>

#include <filesystem>

#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>



namespace vd {

Out& out() {
  static Out o;
  return o;
}

const string kHex = "\x01hex:";

string unhex(string s) {
  if (s.compare(0, kHex.size(), kHex) != 0)
    return s;
  string r;
  for (size_t k = kHex.size(); k + 1 < s.size(); k += 2)
    r.push_back(static_cast<char>(std::stoi(s.substr(k, 2), nullptr, 16)));
  return r;
}

bool validUtf8(const string& s) {
  for (size_t k = 0; k < s.size();) {
    auto c = static_cast<uint8_t>(s[k++]);
    int more = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
    if (more < 0)
      return false;
    uint32_t v = more == 0 ? c : c & (0x3f >> more);
    for (int i = 0; i < more; ++i, ++k) {
      if (k >= s.size() || (s[k] & 0xc0) != 0x80)
        return false;
      v = v << 6 | (s[k] & 0x3f);
    }
    if ((more == 2 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (more == 3 && (v < 0x10000 || v > 0x10ffff)))
      return false;
  }
  return true;
}

string jstr(const string& str) {
  string s = str;
  if (!validUtf8(s)) {
    char b[3];
    s = kHex;
    for (char c : str) {
      snprintf(b, sizeof(b), "%02x", static_cast<uint8_t>(c));
      s += b;
    }
  }
  rapidjson::StringBuffer sb;
  rapidjson::Writer<rapidjson::StringBuffer> w(sb);
  w.String(s.data(), static_cast<rapidjson::SizeType>(s.size()));
  return string(sb.GetString(), sb.GetSize());
}

void echo(Ev& e, const J& op) {
  for (auto it = op.MemberBegin(); it != op.MemberEnd(); ++it) {
    string k = it->name.GetString();
    if (k == "op")
      continue;
    rapidjson::StringBuffer sb;
    rapidjson::Writer<rapidjson::StringBuffer> w(sb);
    it->value.Accept(w);
    e.raw(k.c_str(), string(sb.GetString(), sb.GetSize()));
  }
}

vector<uint8_t> payload(uint32_t id, size_t size, int kind) {
  vector<uint8_t> v(size);
  Rng r(id);
  if (kind == 0) {
    size_t i = 0;
    while (i < size) {
      uint64_t x = r.next();
      size_t n = std::min<size_t>(8, size - i);
      memcpy(v.data() + i, &x, n);
      i += n;
    }
  } else if (kind == 1) {
    uint32_t x = id * 2654435761u;
    for (size_t i = 0; i < size; ++i) {
      if (i % 97 == 0)
        x = static_cast<uint32_t>(r.next());
      v[i] = static_cast<uint8_t>('a' + ((x >> (i % 5)) & 15));
    }
  } else {
    for (size_t i = 0; i < size; ++i)
      v[i] = i < 4 ? static_cast<uint8_t>(id >> (8 * i)) : static_cast<uint8_t>(id * 7);
  }
  return v;
}

static std::mutex sKnown;

double TsMap::operator()(int64_t k) const {
  double d = 0;
  if (k <= kMinTs)
    d = std::numeric_limits<double>::lowest();
  else if (k >= kMaxTs)
    d = std::numeric_limits<double>::max();
  else
    switch (mode) {
      case 1:
        d = 1e6 + static_cast<double>(k) * 1e-6;
        break;
      case 2: { // adjacent doubles
        uint64_t u;
        double base = 12345.678;
        memcpy(&u, &base, 8);
        u = static_cast<uint64_t>(static_cast<int64_t>(u) + k);
        memcpy(&d, &u, 8);
        break;
      }
      case 3:
        d = static_cast<double>(k) - 5000.5;
        break;
      case 4:
        d = static_cast<double>(k) * 1e290;
        break;
      case 5:
        d = static_cast<double>(k) * 1e-300;
        break;
      default:
        d = static_cast<double>(k);
    }
  {
    std::lock_guard<std::mutex> g(sKnown);
    known[d] = k;
  }
  return d;
}

int64_t TsMap::back(double d) const {
  if (d == std::numeric_limits<double>::lowest())
    return kMinTs;
  if (d == std::numeric_limits<double>::max())
    return kMaxTs;
  std::lock_guard<std::mutex> g(sKnown);
  auto it = known.find(d);
  return it == known.end() ? kBadTs : it->second;
}

static string& scratchDir() {
  static string s;
  return s;
}
string scratch() {
  return scratchDir();
}
string newDir(const string& name) {
  string d = scratch() + "/" + name;
  std::filesystem::create_directories(d);
  return d + "/";
}
void rmrf(const string& path) {
  std::error_code ec;
  if (!scratch().empty() && path.rfind(scratch(), 0) == 0 && path.find("..") == string::npos)
    std::filesystem::remove_all(path, ec);
}
static char gWhat[256];
static void onAlarm(int) {
  fprintf(stderr, "DRIVER-HANG %s\n", gWhat);
  _exit(99);
}
void watchdog(int seconds, const string& what) {
  snprintf(gWhat, sizeof(gWhat), "%s", what.c_str());
  alarm(static_cast<unsigned>(seconds));
}

vector<uint8_t> slurp(const string& path) {
  std::ifstream f(path, std::ios::binary);
  return vector<uint8_t>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
bool spit(const string& path, const vector<uint8_t>& data) {
  FILE* f = fopen(path.c_str(), "wb");
  if (!f)
    return false;
  bool ok = data.empty() || fwrite(data.data(), 1, data.size(), f) == data.size();
  fclose(f);
  return ok;
}
bool fileExists(const string& path) {
  return access(path.c_str(), F_OK) == 0;
}

static map<string, void (*)(const vector<const J*>&)>& modes() {
  static map<string, void (*)(const vector<const J*>&)> m;
  return m;
}
RegisterMode::RegisterMode(const char* name, void (*run)(const vector<const J*>& ops)) {
  modes()[name] = run;
}

} // namespace vd

using namespace vd;

int main(int argc, char** argv) {
  if (argc < 5) {
    fprintf(stderr, "usage: vdrv MODE SCRIPT TRACE SCRATCH\n");
    return 2;
  }
  auto m = modes().find(argv[1]);
  if (m == modes().end()) {
    fprintf(stderr, "unknown mode %s\n", argv[1]);
    return 2;
  }
  signal(SIGALRM, onAlarm);

  scratchDir() = argv[4];
  std::filesystem::create_directories(argv[4]);
  out().f = fopen(argv[3], "w");
  std::ifstream in(argv[2]);
  string line;
  vector<std::unique_ptr<rapidjson::Document>> docs;
  while (std::getline(in, line)) {
    if (line.empty())
      continue;
    auto d = std::make_unique<rapidjson::Document>();
    d->Parse(line.c_str());
    if (d->HasParseError()) {
      fprintf(stderr, "bad script line: %s\n", line.c_str());
      return 2;
    }
    docs.push_back(std::move(d));
  }
  size_t i = 0;
  while (i < docs.size()) {
    size_t j = i + 1;
    while (j < docs.size() && gs(*docs[j], "op") != "begin")
      ++j;
    vector<const J*> ops;
    for (size_t k = i; k < j; ++k)
      ops.push_back(docs[k].get());
    int h = static_cast<int>(gi(*docs[i], "h"));
    fprintf(stderr, "H %d\n", h);
    watchdog(static_cast<int>(gi(*docs[i], "limit", 40)), string(argv[1]) + " history " + std::to_string(h));
    m->second(ops);
    alarm(0);
    i = j;
  }
  fclose(out().f);
  rmrf(scratch());
  return 0;
}
