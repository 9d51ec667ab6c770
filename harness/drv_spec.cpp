// Mode "spec": file specifications from and to strings, URIs and json, and who gets to open them.
#include "recutil.h"

#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/FileSpec.h>

using namespace vrs;
namespace vd {
namespace {

string str(const J& a) {
  string s;
  for (auto& x : a.GetArray())
    s += static_cast<char>(x.GetInt());
  return s;
}
string gstr(const J& o, const char* k) {
  return has(o, k) ? str(o[k]) : string();
}
string codes(std::string_view s) {
  string r = "[";
  for (unsigned char c : s)
    r += (r.size() > 1 ? "," : "") + std::to_string(c);
  return r + "]";
}
template <class C, class F>
string arr(const C& c, F f) {
  string r = "[";
  for (const auto& x : c)
    r += (r.size() > 1 ? "," : "") + f(x);
  return r + "]";
}
string fields(const FileSpec& f) {
  return "{\"fh\":" + codes(f.fileHandlerName) + ",\"fn\":" + codes(f.fileName) + ",\"uri\":" + codes(f.uri) +
      ",\"chunks\":" + arr(f.chunks, [](const string& s) { return codes(s); }) +
      ",\"sizes\":" + arr(f.chunkSizes, [](int64_t v) { return std::to_string(v); }) +
      ",\"extras\":" + arr(f.extras, [](const auto& p) { return "[" + codes(p.first) + "," + codes(p.second) + "]"; }) + "}";
}
FileSpec junk() {
  FileSpec f;
  f.fileHandlerName = "junk";
  f.fileName = "junk.vrs";
  f.uri = "junk:junk";
  f.chunks = {"j1", "j2"};
  f.chunkSizes = {1, 2};
  f.extras = {{"junk", "junk"}};
  return f;
}
FileSpec spec(const J& o) {
  FileSpec f;
  f.fileHandlerName = gstr(o, "fh");
  f.fileName = gstr(o, "fn");
  f.uri = gstr(o, "uri");
  for (auto& x : o["chunks"].GetArray())
    f.chunks.push_back(str(x));
  for (auto& x : o["sizes"].GetArray())
    f.chunkSizes.push_back(x.GetInt64());
  for (auto& x : o["extras"].GetArray())
    f.extras[str(x[0])] = str(x[1]);
  return f;
}

vector<string>& calls() {
  static vector<string> c;
  return c;
}
void called(const char* k, const string& n, bool same) {
  calls().push_back(string("{\"k\":\"") + k + "\",\"n\":" + codes(n) + ",\"same\":" + (same ? "true" : "false") + "}");
}
FileSpec& asked() {
  static FileSpec f;
  return f;
}
// a handler of nothing
struct Fake : FileHandler {
  string name;
  bool open_{false};
  explicit Fake(string n) : name{std::move(n)} {}
  std::unique_ptr<FileHandler> makeNew() const override {
    return std::make_unique<Fake>(name);
  }
  const string& getFileHandlerName() const override {
    return name;
  }
  int openSpec(const FileSpec& f) override {
    called("handler", name, f == asked());
    if (!isFileHandlerMatch(f))
      return FILE_HANDLER_MISMATCH;
    open_ = f.getExtra("fail").empty();
    return open_ ? 0 : 99;
  }
  bool isOpened() const override {
    return open_;
  }
  int64_t getTotalSize() const override {
    return 0;
  }
  int close() override {
    open_ = false;
    return 0;
  }
  int skipForward(int64_t) override {
    return 1;
  }
  int setPos(int64_t) override {
    return 1;
  }
  int read(void*, size_t) override {
    return 1;
  }
  size_t getLastRWSize() const override {
    return 0;
  }
  vector<std::pair<string, int64_t>> getFileChunks() const override {
    return {};
  }
  void forgetFurtherChunks(int64_t) override {}
  int getLastError() const override {
    return 0;
  }
  bool isEof() const override {
    return true;
  }
  int64_t getPos() const override {
    return 0;
  }
  int64_t getChunkPos() const override {
    return 0;
  }
  int getChunkRange(int64_t&, int64_t&) const override {
    return 1;
  }
  bool isRemoteFileSystem() const override {
    return true;
  }
};
struct Del : FileDelegator {
  string name;
  const char* kind;
  Del(string n, const char* k) : name{std::move(n)}, kind{k} {}
  int delegateOpen(const FileSpec& f, std::unique_ptr<FileHandler>& out) override {
    called(kind, name, f == asked());
    out = std::make_unique<Fake>("by " + name);
    return f.getExtra("fail").empty() ? 0 : 99;
  }
};

// the text form, and what it's understood as
void there(Ev& e, const FileSpec& f, const string& def) {
  e.raw("sp", fields(f)).b("disk", f.isDiskFile()).b("none", f.empty());
  string text = f.toPathJsonUri();
  e.raw("text", codes(text)).b("json", !text.empty() && text[0] == '{');
  FileSpec b = junk();
  e.i("brc", b.fromPathJsonUri(text, f.isDiskFile() ? string() : def)).raw("back", fields(b));
  FileSpec j = junk();
  e.b("jrc", j.fromJson(f.toJson())).raw("jsp", fields(j));
  e.b("same", j == f).b("hash", j.getXXHash() == f.getXXHash());
  bool other = true;
  vector<FileSpec> o(6, f);
  o[0].fileHandlerName += "x";
  o[1].fileName += "x";
  o[2].uri += "x";
  o[3].chunks.push_back("x");
  o[4].chunkSizes.push_back(1);
  o[5].extras["x x"] = "x";
  for (auto& x : o)
    other = other && !(x == f) && x.getXXHash() != f.getXXHash() && !x.empty();
  e.b("others", other);
  e.raw("loc", codes(f.getSourceLocation()));
  bool ex = true;
  for (auto& [k, v] : f.extras) {
    string got;
    ex = ex && f.hasExtra(k) && f.getExtra(k, got) && got == v && f.getExtra(k) == v;
  }
  string got = "kept";
  ex = ex && !f.hasExtra("x x") && !f.getExtra("x x", got) && got == "kept" && f.getExtra("x x").empty() && f.getExtraAsInt("x x", 7) == 7;
  FileSpec g = f;
  for (auto& [k, v] : f.extras) {
    g.unsetExtra(k);
    ex = ex && !g.hasExtra(k);
  }
  ex = ex && g.extras.empty();
  for (auto& [k, v] : f.extras)
    g.setExtra(k, v);
  e.b("extra", ex && g == f);
}

void run(const vector<const J*>& ops) {
  string dir = newDir("s");
  auto& factory = FileHandlerFactory::getInstance();
  for (auto* pop : ops) {
    const J& op = *pop;
    string k = gs(op, "op");
    Ev e(k);
    echo(e, op);
    if (k == "reg") {
      string n = gstr(op, "name"), v = gstr(op, "value"), kind = gs(op, "kind");
      bool on = gb(op, "on");
      if (kind == "handler")
        on ? factory.registerFileHandler(std::make_unique<Fake>(n)) : factory.unregisterFileHandler(n);
      else if (kind == "delegator")
        on ? factory.registerFileDelegator(n, std::make_unique<Del>(n, "delegator")) : factory.unregisterFileDelegator(n);
      else
        on ? factory.registerExtraDelegator(n, v, std::make_unique<Del>(v, "extra")) : factory.unregisterExtraDelegator(n, v);
    } else if (k == "parse") {
      FileSpec f = junk();
      string s = gstr(op, "s"), d = gstr(op, "d");
      vector<char> exact(s.begin(), s.end()); // no terminator
      int rc = f.fromPathJsonUri({exact.data(), exact.size()}, d);
      e.i("rc", rc);
      there(e, f, d);
    } else if (k == "spec") {
      FileSpec f = spec(op["f"]);
      there(e, f, "");
      e.b("hassizes", f.hasChunkSizes()).i("size", f.getFileSize());
    } else if (k == "json") {
      FileSpec f = junk();
      string s = gstr(op, "s");
      if (gb(op, "any"))
        e.b("ok", f.fromPathJsonUri(s) == 0);
      else
        e.b("ok", f.fromJson(s));
      e.raw("sp", fields(f));
    } else if (k == "query") {
      string key = "junk", value = "junk";
      int rc = FileSpec::decodeQuery(gstr(op, "s"), key, value);
      e.i("rc", rc).raw("key", codes(key)).raw("val", codes(value));
    } else if (k == "decode") {
      string o = "junk";
      int rc = FileSpec::urldecode(gstr(op, "s"), o);
      e.i("rc", rc).raw("out", codes(o));
    } else if (k == "num") {
      FileSpec f;
      f.extras["n"] = gstr(op, "s");
      const int64_t d = 123454321;
      e.raw("i32", codes(std::to_string(f.getExtraAsInt("n", static_cast<int>(d)))));
      e.raw("i64", codes(std::to_string(f.getExtraAsInt64("n", d))));
      e.raw("u64", codes(std::to_string(f.getExtraAsUInt64("n", d))));
      e.b("bt", f.getExtraAsBool("n", true)).b("bf", f.getExtraAsBool("n", false));
    } else if (k == "set") {
      // written by the typed setters, read back
      FileSpec f;
      int64_t v = std::stoll(str(op["s"]));
      f.setExtra("l", v);
      f.setExtra("u", static_cast<uint64_t>(v));
      f.setExtra("i", static_cast<int>(v));
      f.setExtra("b", (v & 1) != 0);
      f.setExtra("d", static_cast<double>(v % 1000));
      FileSpec g;
      g.fromJson(f.toJson());
      e.b("ok", g.getExtraAsInt64("l") == v && g.getExtraAsUInt64("u") == static_cast<uint64_t>(v) &&
                g.getExtraAsInt("i") == static_cast<int>(v) && g.getExtraAsBool("b") == ((v & 1) != 0) &&
                g.getExtraAsDouble("d") == static_cast<double>(v % 1000));
    } else if (k == "open") {
      FileSpec f = spec(op["f"]);
      if (!std::ifstream(dir + "/f"))
        std::ofstream(dir + "/f") << "x";
      for (auto& c : f.chunks)
        c = dir + "/" + c;
      asked() = f;
      calls().clear();
      string given = gstr(op, "given");
      std::unique_ptr<FileHandler> h;
      if (given == "diskfile")
        h = std::make_unique<DiskFile>();
      else if (!given.empty())
        h = std::make_unique<Fake>(given);
      int rc = 0;
      if (gs(op, "via") == "handler") {
        Fake own(gstr(op, "own"));
        rc = own.delegateOpen(f, h);
        e.b("ownopen", own.isOpened());
      } else if (gs(op, "via") == "make") {
        h = FileHandler::makeOpen(f);
        rc = h ? 0 : -1;
      } else {
        rc = factory.delegateOpen(f, h);
      }
      e.i("rc", rc).list("calls", calls());
      e.raw("got", codes(h ? h->getFileHandlerName() : "")).b("opened", h && h->isOpened());
    }
  }
  for (auto* pop : ops) { // leave no registration behind
    const J& op = *pop;
    if (gs(op, "op") == "reg" && gb(op, "on")) {
      string n = gstr(op, "name"), v = gstr(op, "value"), kind = gs(op, "kind");
      if (kind == "handler")
        factory.unregisterFileHandler(n);
      else if (kind == "delegator")
        factory.unregisterFileDelegator(n);
      else
        factory.unregisterExtraDelegator(n, v);
    }
  }
}
RegisterMode reg("spec", run);
} // namespace
} // namespace vd
