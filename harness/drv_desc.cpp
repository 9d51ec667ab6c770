// Mode "desc": description records of both formats, written by hand (and by the library), read by the library.
#include "recutil.h"

#include <fstream>

#include <vrs/DescriptionRecord.h>
#include <vrs/DiskFile.h>
#include <vrs/FileFormat.h>
#include <vrs/Recordable.h>

using namespace vrs;
namespace vd {
namespace {

using Map = map<string, string>;

string str(const J& a) {
  string s;
  for (auto& x : a.GetArray())
    s += static_cast<char>(x.GetInt());
  return s;
}
string codes(const string& s) {
  string r = "[";
  for (unsigned char c : s)
    r += (r.size() > 1 ? "," : "") + std::to_string(c);
  return r + "]";
}
string codes(const Map& m) {
  string r = "[";
  for (const auto& p : m)
    r += (r.size() > 1 ? ",[" : "[") + codes(p.first) + "," + codes(p.second) + "]";
  return r + "]";
}
Map mapOf(const J& a) {
  Map m;
  for (auto& x : a.GetArray())
    m[str(x[0])] = str(x[1]);
  return m;
}
string one(const Map& m, const string& k) {
  auto i = m.find(k);
  return i == m.end() ? "[]" : "[" + codes(i->second) + "]";
}

const char* kOther = "VRS_other";
string u32(size_t n) {
  auto v = static_cast<uint32_t>(n);
  return {reinterpret_cast<const char*>(&v), sizeof(v)};
}
string text(const string& s) {
  return u32(s.size()) + s;
}
string dict(const Map& m) {
  string r = u32(m.size());
  for (const auto& p : m)
    r += text(p.first) + text(p.second);
  return r;
}
string id(const J& s) {
  auto t = static_cast<int32_t>(gi(s, "rt"));
  auto i = static_cast<uint16_t>(gi(s, "i"));
  return string(reinterpret_cast<const char*>(&t), 4) + string(reinterpret_cast<const char*>(&i), 2);
}
string json(const string& s) {
  string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\')
      r += string("\\") + static_cast<char>(c);
    else if (c < 32) {
      snprintf(b, sizeof(b), "\\u%04x", c);
      r += b;
    } else
      r += static_cast<char>(c);
  }
  return r + "\"";
}
string json(const Map& m, bool junk) {
  string r = junk ? "{\"junk\": 1" : "{";
  for (const auto& p : m)
    r += (r.size() > 1 ? ", " : "") + json(p.first) + ": " + json(p.second);
  return r + (junk && r.size() > 1 ? ", \"more\": [\"a\"]}" : "}");
}
Map vrsTags(const J& s) {
  Map m;
  auto put = [&](const char* k, const string& name) {
    if (!s[k].Empty())
      m[name] = str(s[k][0]);
  };
  put("name", Recordable::getOriginalNameTagName());
  put("flavor", Recordable::getFlavorTagName());
  put("serial", Recordable::getSerialNumberTagName());
  put("other", kOther);
  return m;
}

void desc(const string& dir, const J& op) {
  bool legacy = gi(op, "ver") == 1, junk = gb(op, "junk");
  auto extra = static_cast<size_t>(gi(op, "extra"));
  const auto& streams = op["streams"].GetArray();
  Map tags = mapOf(op["tags"]);
  string body = u32(streams.Size());
  for (auto& s : streams) {
    body += id(s);
    if (legacy) {
      Map user = mapOf(s["user"]);
      string j = "{\"name\": " + json(str(s["name"][0]));
      if (!user.empty() || junk)
        j = junk ? "{\"tags\": " + json(user, true) + ", \"x\": null, " + j.substr(1) : j + ", \"tags\": " + json(user, false);
      body += text(j + "}");
    } else
      body += dict(mapOf(s["user"])) + dict(vrsTags(s));
  }
  body += legacy ? text(json(tags, junk)) : dict(tags);
  FileFormat::RecordHeader h;
  h.initDescriptionHeader(static_cast<uint32_t>(gi(op, "ver")), static_cast<uint32_t>(sizeof(h) + extra + body.size()), 17);
  string bytes = string(reinterpret_cast<const char*>(&h), sizeof(h)) + string(extra, 'x') + body;

  Ev e("desc");
  echo(e, op);
  string path = dir + "d";
  auto spit = [&](const string& b) { std::ofstream(path, std::ios::binary | std::ios::trunc).write(b.data(), static_cast<std::streamsize>(b.size())); };
  if (!legacy && extra == 0) { // the library writes the same
    map<StreamId, StreamTags> all;
    map<StreamId, const StreamTags*> ask;
    for (auto& s : streams) {
      StreamId sid(static_cast<RecordableTypeId>(gi(s, "t")), static_cast<uint16_t>(gi(s, "i")));
      all[sid].user = mapOf(s["user"]);
      all[sid].vrs = vrsTags(s);
      ask[sid] = &all[sid];
    }
    DiskFile f;
    uint32_t size = 17;
    int rc = f.create(path);
    rc = rc ? rc : DescriptionRecord::writeDescriptionRecord(f, ask, tags, size);
    f.close();
    std::ifstream in(path, std::ios::binary);
    string got((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    e.i("wrc", rc).b("wsize", size == bytes.size()).b("wbytes", got == bytes || gb(op, "odd"));
  }
  int64_t eof = gi(op, "eof", -1);
  spit((eof < 0 ? bytes : bytes.substr(0, bytes.size() - std::min<size_t>(bytes.size(), static_cast<size_t>(eof)))) + (eof < 0 ? "following data" : ""));
  DiskFile f;
  f.open(path);
  uint32_t size = 5;
  map<StreamId, StreamTags> got;
  got[StreamId(static_cast<RecordableTypeId>(77), 7)].user["left"] = "over";
  Map file{{"left", "over"}};
  int rc = DescriptionRecord::readDescriptionRecord(f, static_cast<uint32_t>(sizeof(h) + extra), size, got, file);
  e.b("rc", rc == 0);
  if (rc != 0)
    return;
  e.b("size", size == bytes.size()).b("pos", f.getPos() == static_cast<int64_t>(bytes.size()));
  string g = "[";
  for (const auto& s : got) {
    Map rest = s.second.vrs;
    for (const string& k : {Recordable::getOriginalNameTagName(), Recordable::getFlavorTagName(), Recordable::getSerialNumberTagName(), string(kOther)})
      rest.erase(k);
    g += (g.size() > 1 ? ",{" : "{") + string("\"t\":") + std::to_string(static_cast<int>(s.first.getTypeId())) + ",\"i\":" + std::to_string(s.first.getInstanceId()) +
        ",\"user\":" + codes(s.second.user) + ",\"name\":" + one(s.second.vrs, Recordable::getOriginalNameTagName()) + ",\"flavor\":" + one(s.second.vrs, Recordable::getFlavorTagName()) +
        ",\"other\":" + one(s.second.vrs, kOther) + ",\"serial\":" + one(s.second.vrs, Recordable::getSerialNumberTagName()) + ",\"rest\":" + codes(rest) + "}";
  }
  e.raw("got", g + "]").raw("file", codes(file));
}

void run(const vector<const J*>& ops) {
  string dir = newDir("desc");
  {
    Ev e("begin");
    echo(e, *ops[0]);
  }
  for (size_t k = 1; k < ops.size(); ++k)
    desc(dir, *ops[k]);
  rmrf(dir);
}
RegisterMode reg("desc", run);
} // namespace
} // namespace vd
