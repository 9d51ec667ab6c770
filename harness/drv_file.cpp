// Mode "file": one DiskFile or asynchronous disk file, any history of operations. Sizes and positions are in
// cells of `u` bytes.
#include "faultfs.h"

#include <chrono>
#include <thread>

#include <vrs/DiskFile.h>
#include <vrs/FileHandlerFactory.h>

using namespace vrs;
namespace vd {
namespace {

struct FileSession {
  string dir;
  int64_t u{1};
  std::unique_ptr<WriteFileHandler> f;
  vector<string> paths; // every chunk ever made, in order

  vector<uint8_t> cell(int64_t v) const {
    vector<uint8_t> b(u);
    for (int64_t j = 0; v != 0 && j < u; ++j)
      b[j] = j == 0 ? v & 255 : j == 1 ? v >> 8 : ((v * 31 + j * 7) ^ (j >> 8)) & 255;
    return b;
  }
  vector<uint8_t> bytes(int64_t v, int64_t n, int64_t mod) const {
    vector<uint8_t> b;
    for (int64_t i = 0; i < n; ++i) {
      auto c = cell((v + i - 1) % mod + 1);
      b.insert(b.end(), c.begin(), c.end());
    }
    return b;
  }
  // bytes as cells; -1: not a cell, -2: a piece of one at the end
  vector<string> cells(const uint8_t* d, size_t n) const {
    vector<string> r;
    size_t k = 0;
    for (; k + u <= n; k += u) {
      int64_t v = d[k] + (u > 1 ? d[k + 1] << 8 : 0);
      auto c = cell(v);
      r.push_back(memcmp(c.data(), d + k, u) == 0 ? std::to_string(v) : "-1");
    }
    if (k < n)
      r.emplace_back("-2");
    return r;
  }
  int64_t inCells(int64_t bytes) const {
    return bytes % u == 0 ? bytes / u : -100000 - bytes;
  }
  string chunkCells(const string& path) const {
    auto d = slurp(path);
    string r = "[";
    bool first = true;
    for (auto& c : cells(d.data(), d.size())) {
      r += (first ? "" : ",") + c;
      first = false;
    }
    return r + "]";
  }
  string state() {
    string s = "{";
    int64_t off{}, size{};
    string path;
    size_t index{};
    s += "\"open\":" + string(f->isOpened() ? "true" : "false");
    if (f->isOpened()) {
      s += ",\"pos\":" + std::to_string(inCells(f->getPos())) + ",\"cp\":" + std::to_string(inCells(f->getChunkPos()));
      s += ",\"idx\":" + std::to_string(f->getCurrentChunk(path, index) ? static_cast<int>(index) + 1 : -1);
      s += ",\"ro\":" + string(f->isReadOnly() ? "true" : "false") + ",\"eof\":" + string(f->isEof() ? "true" : "false");
      s += ",\"tot\":" + std::to_string(inCells(f->getTotalSize()));
      int rc = f->getChunkRange(off, size);
      s += ",\"range\":[" + std::to_string(rc == 0 ? inCells(off) : -1) + "," + std::to_string(rc == 0 ? inCells(size) : -1) + "]";
      s += ",\"sz\":[";
      bool first = true;
      for (auto& c : f->getFileChunks()) {
        s += (first ? "" : ",") + std::to_string(inCells(c.second));
        first = false;
      }
      s += "]";
    }
    return s + "}";
  }
};

int fired() {
  auto& f = ffs();
  std::lock_guard<std::mutex> g(f.m);
  return f.failed;
}

void runFile(const vector<const J*>& ops) {
  FileSession S;
  const J& b = *ops[0];
  S.dir = newDir("file");
  S.u = gi(b, "u", 1);
  ffs().reset(S.dir);
  S.f = WriteFileHandler::make(gs(b, "handler", "diskfile"));
  FileSpec spec;
  spec.fileHandlerName = gs(b, "handler", "diskfile");
  if (has(b, "opts"))
    for (auto& m : b["opts"].GetObject())
      spec.extras[m.name.GetString()] = m.value.GetString();
  Ev("begin").i("h", gi(b, "h"));
  string chs = "[";
  bool create = gs(b, "mode") == "w";
  if (create) {
    S.paths = {S.dir + gs(b, "name", "f")};
    chs += "[]";
  } else {
    int64_t v = 1, mod = gi(b, "mod", 250);
    int k = 0;
    for (auto& c : b["ch"].GetArray()) {
      string p = S.dir + "f_" + std::to_string(++k);
      auto d = S.bytes(v, c.GetInt64(), mod);
      v += c.GetInt64();
      spit(p, d);
      S.paths.push_back(p);
      chs += string(k > 1 ? "," : "") + S.chunkCells(p);
    }
  }
  chs += "]";
  if (has(b, "before")) // opening files of which chunks are missing
    for (auto& x : b["before"].GetArray()) {
      FileSpec bad = spec;
      for (auto& k : x.GetArray()) // a number: that chunk, 0: a chunk that doesn't exist
        bad.chunks.push_back(k.GetInt() > 0 && k.GetInt() <= static_cast<int>(S.paths.size()) && !create ? S.paths[k.GetInt() - 1] : S.dir + "missing");
      int rc = S.f->openSpec(bad);
      Ev e("bad");
      e.i("rc", rc).b("open", S.f->isOpened()).i("tot", S.f->getTotalSize()).i("chunks", S.f->getFileChunks().size());
    }
  spec.chunks = S.paths;
  int rc = create ? S.f->create(spec) : S.f->openSpec(spec);
  if (has(b, "fault")) {
    auto& x = b["fault"];
    auto& f = ffs();
    std::lock_guard<std::mutex> g(f.m);
    f.failKinds = gs(x, "kinds");
    f.failAt = static_cast<int>(gi(x, "at"));
    f.sticky = gb(x, "sticky", true);
    f.failErrno = static_cast<int>(gi(x, "err", 28));
    f.partial = static_cast<int>(gi(x, "partial"));
  }
  {
    Ev e("opened");
    e.raw("ch", chs).s("mode", create ? "w" : "ro").i("rc", rc).raw("st", S.state());
  }
  if (rc != 0)
    return;
  for (size_t i = 1; i < ops.size(); ++i) {
    const J& o = *ops[i];
    string op = gs(o, "op");
    if (op == "sleep") {
      std::this_thread::sleep_for(std::chrono::milliseconds(gi(o, "ms", 1)));
      continue;
    }
    if (op == "close")
      break;
    int64_t n = gi(o, "n");
    vector<string> got;
    vector<uint8_t> buf;
    string path;
    size_t index{};
    S.f->getCurrentChunk(path, index);
    if (op == "setpos")
      rc = S.f->setPos(gi(o, "o") * S.u);
    else if (op == "skip")
      rc = S.f->skipForward(n * S.u);
    else if (op == "read") {
      buf.resize(n * S.u, 0xEE);
      rc = S.f->read(buf.data(), buf.size());
      size_t m = S.f->getLastRWSize();
      got = S.cells(buf.data(), std::min(m, buf.size()));
      for (size_t k = m; k < buf.size(); ++k)
        if (buf[k] != 0xEE) { // wrote beyond what it says
          got.emplace_back("-3");
          break;
        }
    } else if (op == "overwrite" || op == "write") {
      if (op == "write" && !S.f->isReadOnly()) { // within the current chunk, unless it's the last one
        auto cs = S.f->getFileChunks();
        if (index + 1 < cs.size())
          n = std::max<int64_t>(0, std::min(n, (cs[index].second - S.f->getChunkPos()) / S.u));
      }
      buf = S.bytes(gi(o, "v", 1), n, gi(o, "mod", 250));
      rc = op == "write" ? S.f->write(buf.data(), buf.size()) : S.f->overwrite(buf.data(), buf.size());
      // the caller's buffer is free again
      std::fill(buf.begin(), buf.end(), 0xDD);
    } else if (op == "truncate")
      rc = S.f->truncate();
    else if (op == "addchunk") {
      rc = S.f->addChunk();
      if (rc == 0 || S.f->getFileChunks().size() > S.paths.size()) {
        auto cs = S.f->getFileChunks();
        S.paths.push_back(cs.back().first);
      }
    } else if (op == "reopen")
      rc = S.f->reopenForUpdates();
    else if (op == "forget") {
      S.f->forgetFurtherChunks(n * S.u);
      rc = 0;
    } else {
      fprintf(stderr, "unknown op %s\n", op.c_str());
      exit(2);
    }
    Ev e("op");
    e.s("op", op).i("n", n).i("o", gi(o, "o")).i("v", gi(o, "v", 1)).i("mod", gi(o, "mod", 250)).i("rc", rc).i("fired", fired());
    e.i("rws", S.inCells(static_cast<int64_t>(S.f->getLastRWSize()))).list("got", got).raw("st", S.state());
  }
  rc = S.f->close();
  string now = "[";
  for (size_t k = 0; k < S.paths.size(); ++k)
    now += (k ? "," : "") + S.chunkCells(S.paths[k]);
  Ev e("closed");
  e.i("rc", rc).i("fired", fired()).b("open", S.f->isOpened()).i("tot", S.f->getTotalSize()).i("chunks", S.f->getFileChunks().size()).raw("ch", now + "]");
  e.flushNow();
  S.f.reset();
  ffs().reset("");
  rmrf(S.dir);
}

RegisterMode reg("file", runFile);

} // namespace
} // namespace vd
