// Mode "rec": live recording - streams, buffers, purges, (background) writing, closing, reading back.
#include "recutil.h"
#include "faultfs.h"

#include <chrono>
#include <thread>

#include <vrs/AsyncDiskFileChunk.h>
#include <vrs/DiskFile.h>
#include <vrs/ErrorCode.h>
#include <vrs/FileFormat.h>
#include <vrs/NewChunkHandler.h>
#include <vrs/os/Utils.h>

using namespace vd;
using namespace vrs;
using std::string;
using std::unique_ptr;
using std::vector;

namespace {

struct ChunkEvt {
  string path;
  size_t index;
  bool last;
  int64_t size;
};

int64_t fileSizeOr(const string& path) {
  return os::isFile(path) ? os::getFileSize(path) : -1;
}

struct ChunkListener : public NewChunkHandler {
  explicit ChunkListener(vector<ChunkEvt>& v) : v_{v} {}
  void newChunk(const string& path, size_t index, bool isLast) override {
    v_.push_back({path, index, isLast, fileSizeOr(path)});
  }
  vector<ChunkEvt>& v_;
};

struct Pending {
  std::thread t;
  BlockGate gate;
};

struct Session {
  string dir;
  TsMap tm;
  unique_ptr<RecordFileWriter> w;
  map<int, unique_ptr<TestStream>> streams;
  map<uint32_t, unique_ptr<Pending>> blocked;
  vector<ChunkEvt> chunks, noChunks;
  vector<string> files; // paths of created files
  std::atomic<int64_t> purgeT{kMinTs};
  std::atomic<int> purgeCalls{0};
  bool purgeOn{};
  std::atomic<int64_t> autoT{kMinTs};
  std::atomic<int> autoCalls{0};
  size_t mb{0};
  bool open{false}; // a file is being recorded in the background

  int sOf(StreamId id) const {
    for (auto& s : streams)
      if (s.second->getStreamId() == id)
        return s.first;
    return 0;
  }
};

void setSig(uint32_t id, size_t size, int kind) {
  sigs()[id] = {size, kind};
}

string kvs(const map<string, string>& m) {
  string r = "[";
  for (auto& e : m) {
    if (r.size() > 1)
      r += ",";
    r += "[" + jstr(e.first) + "," + jstr(e.second) + "]";
  }
  return r + "]";
}

void readBack(Session& S, Ev& e, const string& path) {
  RecordFileReader r;
  int rc = r.openFile(path);
  e.i("rc", rc);
  if (rc != 0) {
    e.list("recs", vector<string>()).list("streams", vector<string>()).raw("ftags", "[]").b("hasIndex", false);
    e.ints("all", vector<int>()).list("perStream", vector<string>());
    return;
  }
  // one by one
  vector<string> recs, streams, per;
  vector<int64_t> all;
  int gotOk = -1;
  int64_t gotId = -1;
  CheckPlayer p;
  auto fmt5 = [&](const StreamId& sid, int type, double ts, int64_t id, int ok) {
    return "[" + std::to_string(S.sOf(sid)) + "," + std::to_string(type) + "," +
        std::to_string(S.tm.back(ts)) + "," + std::to_string(id) + "," + std::to_string(ok) + "]";
  };
  vector<StreamId> ids(r.getStreams().begin(), r.getStreams().end());
  for (auto id : ids)
    r.setStreamPlayer(id, &p);
  bool consistent = true;
  for (auto& rec : r.getIndex()) {
    gotOk = -1;
    gotId = -1;
    p.on = [&](const CurrentRecord& c, int ok) {
      gotOk = ok;
      gotId = c.formatVersion;
      if (c.timestamp != rec.timestamp || !(c.streamId == rec.streamId) || c.recordType != rec.recordType)
        consistent = false;
    };
    int err = r.readRecord(rec);
    recs.push_back(fmt5(rec.streamId, typeCode(rec.recordType), rec.timestamp, gotId, err == 0 ? gotOk : -2));
  }
  p.on = [&](const CurrentRecord& c, int ok) { all.push_back(ok == 1 ? c.formatVersion : -1); };
  int allErr = r.readAllRecords();
  for (auto id : ids) {
    int s = S.sOf(id);
    streams.push_back(
        "[" + std::to_string(s) + "," + jstr(r.getFlavor(id)) + "," + kvs(r.getTags(id).user) + "," +
        jstr(r.getOriginalRecordableTypeName(id)) + "," + std::to_string(r.getRecordCount(id)) + "]");
    string x = "[" + std::to_string(s) + ",[";
    bool first = true;
    for (auto* ri : r.getIndex(id)) {
      if (!first)
        x += ",";
      first = false;
      x += std::to_string(S.tm.back(ri->timestamp));
    }
    per.push_back(x + "]]");
  }
  e.list("recs", recs).list("streams", streams).raw("ftags", kvs(r.getTags()));
  e.ints("all", all).b("hasIndex", r.hasIndex()).b("cons", consistent && allErr == 0).list("perStream", per);
}

void layout(Session& S, Ev& e, const string& path, size_t mb) {
  // physical layout: chunk sizes, and for each record (in file order) its offset and size
  RecordFileReader r;
  int rc = r.openFile(path);
  e.i("rc", rc);
  vector<int64_t> sizes;
  vector<string> spans;
  bool numbered = true;
  if (rc == 0) {
    auto ch = r.getFileChunks();
    for (size_t k = 0; k < ch.size(); ++k) {
      sizes.push_back(ch[k].second);
      numbered = numbered && (k == 0 ? ch[k].first == path : ch[k].first == path + "_" + std::to_string(k));
    }
    vector<const IndexRecord::RecordInfo*> v;
    for (auto& x : r.getIndex())
      v.push_back(&x);
    std::sort(v.begin(), v.end(), [](auto a, auto b) { return a->fileOffset < b->fileOffset; });
    int64_t total = r.getTotalSourceSize();
    // record size is in its header
    for (size_t k = 0; k < v.size(); ++k) {
      int64_t off = v[k]->fileOffset;
      size_t c = 0;
      int64_t base = 0;
      while (c < sizes.size() && off >= base + sizes[c])
        base += sizes[c++];
      uint32_t rs = 0;
      if (c < sizes.size()) {
        FILE* f = fopen(ch[c].first.c_str(), "rb");
        fseeko(f, off - base, SEEK_SET);
        if (fread(&rs, 4, 1, f) != 1)
          rs = 0;
        fclose(f);
      }
      spans.push_back("[" + std::to_string(off) + "," + std::to_string(rs) + "]");
    }
    e.i("total", total);
  } else {
    e.i("total", 0);
  }
  e.i("limit", static_cast<int64_t>(mb) << 20).ints("sizes", sizes).list("spans", spans).b("numbered", numbered);
}

// ---- crash images: what storage may hold when a recording stops at some point
struct Span {
  uint32_t id;
  int type;
  int64_t off, end; // in the data area (single file: the file; split: the data chunks together)
};

struct Image {
  map<int, vector<uint8_t>> files; // by file index; absent files were not created yet
};

struct ImgSrc {
  vector<StoreOp> ops;
  vector<string> paths;
  bool split{false};
  int nfiles{0};
  vector<Span> spans;
  int64_t descEnd{0}; // end of the description, in the first file
  int64_t dataStart{0};
};

void applyOp(Image& im, const StoreOp& op, size_t partial) {
  if (op.kind == 'o') {
    im.files[op.file].clear();
  } else if (op.kind == 'w') {
    auto& d = im.files[op.file];
    size_t n = std::min(partial, op.data.size());
    // overwriting a header (less than a sector) is atomic
    if (n < op.data.size() && op.data.size() <= 512 && op.offset + (int64_t)op.data.size() <= (int64_t)d.size())
      return;
    if (d.size() < op.offset + n)
      d.resize(op.offset + n);
    std::copy(op.data.begin(), op.data.begin() + n, d.begin() + op.offset);
  } else if (op.kind == 't') {
    im.files[op.file].resize(op.offset);
  }
}

void writeImage(const ImgSrc& src, const Image& im, const string& dir) {
  rmrf(dir);
  os::makeDir(dir);
  for (auto& f : im.files) {
    const string& p = src.paths[f.first];
    spit(dir + p.substr(p.rfind('/') + 1), f.second);
  }
}

vector<uint8_t> dataBytes(const ImgSrc& src, const Image& im) {
  vector<uint8_t> d;
  for (auto& f : im.files)
    if (!src.split || f.first > 0)
      d.insert(d.end(), f.second.begin(), f.second.end());
  return d;
}

// scan the complete file for the position of each record
ImgSrc makeSrc(bool split) {
  ImgSrc src;
  src.split = split;
  {
    std::lock_guard<std::mutex> g(ffs().m);
    src.ops = ffs().log;
    src.paths = ffs().files;
  }
  Image all;
  for (auto& op : src.ops)
    applyOp(all, op, SIZE_MAX);
  const auto& f0 = all.files[0];
  FileFormat::FileHeader h;
  if (f0.size() < sizeof(h))
    return src;
  memcpy(&h, f0.data(), sizeof(h));
  uint32_t sz = 0;
  if (h.descriptionRecordOffset > 0 && f0.size() >= (size_t)h.descriptionRecordOffset + 4)
    memcpy(&sz, f0.data() + h.descriptionRecordOffset, 4);
  src.descEnd = h.descriptionRecordOffset + sz;
  auto d = dataBytes(src, all);
  int64_t pos = split ? 0 : std::max(src.descEnd, h.firstUserRecordOffset);
  src.dataStart = pos;
  FileFormat::RecordHeader r;
  while (pos + (int64_t)sizeof(r) <= (int64_t)d.size()) {
    memcpy((void*)&r, d.data() + pos, sizeof(r));
    if (r.recordSize < sizeof(r) || r.getRecordableTypeId() == RecordableTypeId::VRSIndex)
      break;
    src.spans.push_back({r.formatVersion, (int)r.recordType, pos, pos + r.recordSize});
    pos += r.recordSize;
  }
  return src;
}

vector<uint8_t> dirBytes(const string& dir, const ImgSrc& src) {
  vector<uint8_t> r;
  for (auto& p : src.paths) {
    auto d = slurp(dir + p.substr(p.rfind('/') + 1));
    r.insert(r.end(), d.begin(), d.end());
    r.push_back(fileExists(dir + p.substr(p.rfind('/') + 1)) ? 1 : 0);
  }
  return r;
}

// what a reader shows: "rc", "recs", "has", and consistency
void readSome(Session& S, Ev& e, const string& prefix, const string& path, bool repair, bool full) {
  RecordFileReader r;
  int rc = r.openFile(path, repair);
  vector<string> recs, streams;
  int has = 0;
  string ft = "[]";
  if (rc == 0) {
    CheckPlayer p;
    int ok = -1;
    int64_t id = -1;
    p.on = [&](const CurrentRecord& c, int o) {
      ok = o;
      id = c.formatVersion;
    };
    vector<StreamId> ids(r.getStreams().begin(), r.getStreams().end());
    for (auto sid : ids)
      r.setStreamPlayer(sid, &p);
    for (auto& rec : r.getIndex()) {
      ok = -1;
      id = -1;
      int err = r.readRecord(rec);
      recs.push_back("[" + std::to_string(S.sOf(rec.streamId)) + "," + std::to_string(typeCode(rec.recordType)) + "," +
                     std::to_string(S.tm.back(rec.timestamp)) + "," + std::to_string(id) + "," +
                     std::to_string(err == 0 ? ok : -2) + "]");
    }
    if (full) {
      for (auto sid : ids)
        streams.push_back("[" + std::to_string(S.sOf(sid)) + "," + jstr(r.getFlavor(sid)) + "," + kvs(r.getTags(sid).user) + "]");
      ft = kvs(r.getTags());
    }
    has = r.hasIndex() ? 1 : 0;
  }
  e.i((prefix + "rc").c_str(), rc).i((prefix + "has").c_str(), has).list((prefix + "recs").c_str(), recs);
  if (full)
    e.raw("ftags", ft).list("streams", streams);
}

void oneImage(Session& S, const ImgSrc& src, Image im, const string& tailKind, bool tailOk, Rng& rng, int tail = 0) {
  string dir = S.dir + "img/";
  auto d = dataBytes(src, im);
  int64_t dlen = d.size();
  bool boundary = dlen == src.dataStart;
  for (auto& sp : src.spans)
    boundary = boundary || sp.end == dlen;
  int64_t head = im.files.count(0) ? im.files[0].size() : -1;
  // (in a split file, the index may already describe what the tail replaces)
  if (tailKind != "" && boundary && (!src.split || tailOk) && !im.files.empty() && (!src.split || im.files.size() > 1)) {
    tail = 1 + rng.below(200);
    auto& f = im.files.rbegin()->second;
    for (int k = 0; k < tail; ++k)
      f.push_back(tailKind == "zero" ? 0 : rng.below(256));
  }
  writeImage(src, im, dir);
  string path = dir + src.paths[0].substr(src.paths[0].rfind('/') + 1);
  int64_t nrec = 0;
  for (auto& sp : src.spans)
    if (sp.end <= dlen)
      ++nrec;
  Ev e("img");
  e.i("head", head).i("dlen", dlen).i("tail", tail).b("desc", head >= src.descEnd).i("n", nrec);
  auto b0 = dirBytes(dir, src);
  readSome(S, e, "a", path, false, true);
  auto b1 = dirBytes(dir, src);
  e.b("untouched", b0 == b1);
  {
    std::lock_guard<std::mutex> g(ffs().m);
    ffs().log.clear();
    ffs().logging = true;
  }
  readSome(S, e, "b", path, true, false);
  vector<StoreOp> rops;
  vector<string> rpaths;
  {
    std::lock_guard<std::mutex> g(ffs().m);
    ffs().logging = false;
    rops = ffs().log;
    rpaths = ffs().files;
  }
  auto b2 = dirBytes(dir, src);
  e.b("rewritten", b2 != b1);
  readSome(S, e, "c", path, false, false);
  readSome(S, e, "d", path, true, false);
  e.b("stable", dirBytes(dir, src) == b2);
  if (b2 == b1 || rops.empty() || rng.below(3))
    return;
  // the repair itself is interrupted
  e.flushNow();
  for (int n = 0; n < 2; ++n) {
    Image half = im;
    size_t stop = rng.below(rops.size() + 1);
    for (size_t k = 0; k <= stop && k < rops.size(); ++k) {
      auto op = rops[k];
      int target = -1;
      for (auto& f : half.files)
        if (dir + src.paths[f.first].substr(src.paths[f.first].rfind('/') + 1) == rpaths[op.file])
          target = f.first;
      if (target < 0)
        continue;
      op.file = target;
      if (k == stop && op.kind != 'w')
        break;
      applyOp(half, op, k < stop ? SIZE_MAX : rng.below(op.data.size() + 1));
    }
    writeImage(src, half, dir);
    Ev x("img2");
    x.i("tail", tail).i("stop", stop).i("of", rops.size());
    readSome(S, x, "a", path, false, false);
    readSome(S, x, "b", path, true, false);
    readSome(S, x, "c", path, false, false);
  }
}

void images(Session& S, const J& o, bool split) {
  ImgSrc src = makeSrc(split);
  {
    Ev e("spans");
    vector<string> v;
    for (auto& sp : src.spans)
      v.push_back("[" + std::to_string(sp.id) + "," + std::to_string(sp.type) + "," + std::to_string(sp.off) + "," + std::to_string(sp.end) + "]");
    e.list("spans", v).i("start", src.dataStart).b("split", split).i("ops", src.ops.size());
  }
  Rng rng(gi(o, "seed"));
  int count = gi(o, "n");
  vector<size_t> headOps, dataOps;
  for (size_t k = 0; k < src.ops.size(); ++k)
    (split && src.ops[k].file == 0 ? headOps : dataOps).push_back(k);
  // the head is flushed (by a seek) once its index record header is written, before the data file is created
  size_t baseH = 0;
  for (auto& op : src.ops) {
    if (split && op.file != 0)
      break;
    ++baseH;
  }
  // (head ops, data ops) done; the single file case has only data ops
  struct Cut {
    size_t h, hp, d, dp;
    string tail;
  };
  vector<Cut> cuts;
  if (!split) {
    for (size_t k = 0; k <= dataOps.size(); ++k)
      cuts.push_back({0, 0, k, 0, ""});
  } else {
    // points in time, everything having reached storage
    size_t h = 0, dd = 0;
    for (size_t k = 0; k <= src.ops.size(); ++k) {
      cuts.push_back({h, 0, dd, 0, ""});
      if (k < src.ops.size())
        (src.ops[k].file == 0 ? h : dd)++;
    }
  }
  while ((int)cuts.size() > count * 2 / 3)
    cuts.erase(cuts.begin() + rng.below(cuts.size()));
  while ((int)cuts.size() < count) {
    size_t d = rng.below(dataOps.size() + 1), h = split ? (rng.below(3) == 0 ? headOps.size() : rng.below(headOps.size() + 1)) : 0;
    size_t dp = 0, hp = 0;
    if (d < dataOps.size() && src.ops[dataOps[d]].kind == 'w' && rng.below(2))
      dp = rng.below(src.ops[dataOps[d]].data.size());
    if (split && h < headOps.size() && src.ops[headOps[h]].kind == 'w' && rng.below(2))
      hp = rng.below(src.ops[headOps[h]].data.size());
    if (split && d > 0 && h < baseH) {
      h = baseH + rng.below(headOps.size() + 1 - baseH);
      hp = 0;
      if (h < headOps.size() && src.ops[headOps[h]].kind == 'w' && rng.below(2))
        hp = rng.below(src.ops[headOps[h]].data.size());
    }
    static const char* tails[] = {"", "", "zero", "junk"};
    cuts.push_back({h, hp, d, dp, tails[dp ? 0 : rng.below(4)]});
  }
  for (auto& c : cuts) {
    Image im;
    for (size_t k = 0; k < c.h; ++k)
      applyOp(im, src.ops[headOps[k]], SIZE_MAX);
    if (c.hp)
      applyOp(im, src.ops[headOps[c.h]], c.hp);
    for (size_t k = 0; k < c.d; ++k)
      applyOp(im, src.ops[dataOps[k]], SIZE_MAX);
    if (c.dp)
      applyOp(im, src.ops[dataOps[c.d]], c.dp);
    oneImage(S, src, im, c.tail, c.h + 2 < headOps.size() && c.h <= 4, rng);
  }
}

// complete recordings which lost their end or their index
void forms(Session& S, const J& o, bool split) {
  ImgSrc src = makeSrc(split);
  {
    Ev e("spans");
    vector<string> v;
    for (auto& sp : src.spans)
      v.push_back("[" + std::to_string(sp.id) + "," + std::to_string(sp.type) + "," + std::to_string(sp.off) + "," + std::to_string(sp.end) + "]");
    e.list("spans", v).i("start", src.dataStart).b("split", split).i("ops", src.ops.size());
  }
  Rng rng(gi(o, "seed"));
  Image all;
  for (auto& op : src.ops)
    applyOp(all, op, SIZE_MAX);
  int64_t total = dataBytes(src, all).size();
  for (int k = 0; k < gi(o, "n"); ++k) {
    Image im = all;
    int kind = split ? 0 : k % 4;
    string note;
    int tail = 0;
    if (kind == 1 || kind == 2) { // the header doesn't tell where the index is
      auto& f = im.files[0];
      FileFormat::FileHeader h;
      memcpy((void*)&h, f.data(), sizeof(h));
      int64_t idx = h.indexRecordOffset;
      if (kind == 1) {
        h.indexRecordOffset = 0;
        memcpy(f.data(), (void*)&h, sizeof(h));
      } else if (idx > 0 && idx + 32 <= (int64_t)f.size()) { // what it points at is no index
        if (idx < src.dataStart) { // in front: its content is wrong
          uint32_t bad = 0x7fffffff - rng.below(1000);
          if (idx + 36 <= (int64_t)f.size())
            memcpy(f.data() + idx + 32, &bad, 4);
        } else {
          uint32_t bad = rng.below(32);
          memcpy(f.data() + idx, &bad, 4);
          tail = 1;
        }
      }
    }
    if (kind == 0 || (kind == 1 && rng.below(2))) { // the end is missing
      int64_t keep;
      if (rng.below(2) && !src.spans.empty())
        keep = src.spans[rng.below(src.spans.size())].end - (rng.below(3) ? 0 : 1) + rng.below(3) / 2;
      else
        keep = src.dataStart + rng.below(total - src.dataStart + 1);
      int64_t cut = total - std::max(src.dataStart, std::min(keep, total));
      while (cut > 0) {
        auto it = std::prev(im.files.end());
        int64_t c = std::min<int64_t>(cut, it->second.size());
        it->second.resize(it->second.size() - c);
        cut -= c;
        if (it->second.empty() && cut > 0)
          im.files.erase(it);
      }
    }
    oneImage(S, src, im, "", false, rng, tail);
  }
}

// the header of one record, or of the file, is altered
void damage(Session& S, const J& o, const string& path) {
  Rng rng(gi(o, "seed"));
  struct Loc {
    StreamId sid;
    double ts;
    int type;
    int64_t off;
  };
  vector<Loc> locs;
  vector<std::pair<string, int64_t>> chunks;
  {
    RecordFileReader r;
    if (r.openFile(path) != 0)
      return;
    for (auto& x : r.getIndex())
      locs.push_back({x.streamId, x.timestamp, typeCode(x.recordType), x.fileOffset});
    chunks = r.getFileChunks();
  }
  for (int k = 0; k < gi(o, "n"); ++k) {
    if (locs.empty() || k % 6 == 5) { // the file header
      static const char* fs[] = {"magic1", "magic2", "magic3", "version", "headerSize", "recordHeaderSize", "short"};
      int f = rng.below(7);
      auto d = slurp(path);
      auto d0 = d;
      FileFormat::FileHeader h;
      memcpy((void*)&h, d.data(), sizeof(h));
      uint32_t flip = 1u << rng.below(32);
      switch (f) {
        case 0:
          h.magicHeader1 ^= flip;
          break;
        case 1:
          h.magicHeader2 ^= flip;
          break;
        case 2:
          h.magicHeader3 ^= flip;
          break;
        case 3:
          h.fileFormatVersion ^= (rng.below(2) ? 0x80u : 0x1000u) << (8 * rng.below(3));
          break;
        case 4:
          h.fileHeaderSize = rng.below(2) ? rng.below(sizeof(h)) : sizeof(h) + 201 + rng.below(1000000);
          break;
        case 5:
          h.recordHeaderSize = rng.below(2) ? rng.below(32) : 233 + rng.below(1000000);
          break;
      }
      memcpy(d.data(), (void*)&h, sizeof(h));
      if (f == 6)
        d.resize(rng.below(sizeof(h)));
      spit(path, d);
      Ev e("hdmg");
      e.s("field", fs[f]);
      {
        RecordFileReader r;
        int rc = r.openFile(path);
        e.i("rc", rc).b("empty", r.getStreams().empty() && r.getIndex().empty() && r.getTags().empty());
      }
      {
        RecordFileReader r;
        e.i("rc2", r.openFile(path, true)).b("same", slurp(path) == d);
      }
      spit(path, d0);
      continue;
    }
    size_t t = rng.below(locs.size());
    int64_t base = 0;
    size_t c = 0;
    while (locs[t].off >= base + chunks[c].second)
      base += chunks[c++].second;
    auto d = slurp(chunks[c].first);
    auto d0 = d;
    FileFormat::RecordHeader h;
    uint8_t* at = d.data() + (locs[t].off - base);
    memcpy((void*)&h, at, sizeof(h));
    int64_t id = h.formatVersion;
    bool comp = h.compressionType != 0;
    static const char* fs[] = {"ts", "type", "tid", "inst", "small", "prev", "ctype", "swap", "more", "cut", "way more"};
    int f = rng.below(comp ? 11 : 7);
    uint32_t flip = 1u << rng.below(32);
    switch (f) {
      case 0: {
        uint64_t u;
        memcpy(&u, &h.timestamp, 8);
        u ^= 1ull << rng.below(64);
        memcpy(&h.timestamp, &u, 8);
        double now = h.timestamp;
        if (now == locs[t].ts) // -0.
          h.timestamp = locs[t].ts + 1;
        break;
      }
      case 1:
        h.recordType = rng.below(2) ? h.recordType ^ (1 << rng.below(8)) : (h.recordType % 3) + 1;
        break;
      case 2:
        h.recordableTypeId ^= (int32_t)(1u << rng.below(16));
        break;
      case 3:
        h.recordableInstanceId ^= 1 << rng.below(16);
        break;
      case 4:
        h.recordSize = rng.below(32);
        break;
      case 5:
        h.previousRecordSize = 1 + rng.below(31);
        break;
      case 6:
        h.compressionType = 3 + rng.below(250);
        break;
      case 7:
        h.compressionType = 3 - h.compressionType;
        break;
      case 8:
        h.uncompressedSize += 1 + rng.below(64);
        break;
      case 9: // the data ends early
        h.recordSize -= 1 + rng.below(std::min<uint32_t>(h.recordSize - 32, 40) );
        break;
      case 10:
        h.uncompressedSize += 1000000 + rng.below(1000000);
        break;
    }
    memcpy(at, (void*)&h, sizeof(h));
    spit(chunks[c].first, d);
    Ev e("dmg");
    e.s("field", fs[f]).i("id", id).b("comp", comp);
    RecordFileReader r;
    e.i("rc", r.openFile(path));
    CheckPlayer p;
    int ok = -1;
    int64_t got = -1;
    p.on = [&](const CurrentRecord& cr, int o2) {
      ok = o2;
      got = cr.formatVersion;
    };
    for (auto sid : r.getStreams())
      r.setStreamPlayer(sid, &p);
    int err = 0;
    bool delivered = false, good = false;
    vector<string> recs;
    for (auto& rec : r.getIndex()) {
      ok = -1;
      got = -1;
      int er = r.readRecord(rec);
      if (rec.fileOffset == locs[t].off) {
        err = er;
        delivered = ok != -1;
        good = ok == 1 && got == id;
        continue;
      }
      recs.push_back("[" + std::to_string(S.sOf(rec.streamId)) + "," + std::to_string(typeCode(rec.recordType)) + "," +
                     std::to_string(S.tm.back(rec.timestamp)) + "," + std::to_string(got) + "," + std::to_string(er == 0 ? ok : -2) + "]");
    }
    e.i("err", err).b("delivered", delivered).b("good", good).list("recs", recs);
    r.closeFile();
    spit(chunks[c].first, d0);
  }
}

bool waitUntil(std::function<bool()> f, int ms) {
  auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
  while (std::chrono::steady_clock::now() < end) {
    if (f())
      return true;
    std::this_thread::sleep_for(std::chrono::microseconds(200));
  }
  return f();
}

void run(const vector<const J*>& ops) {
  Session S;
  const J& b = *ops[0];
  int h = static_cast<int>(gi(b, "h"));
  S.tm.mode = static_cast<int>(gi(b, "tm"));
  for (int64_t k = -200; k <= 2000; ++k)
    S.tm(k);
  S.dir = newDir("rec" + std::to_string(h));
  sigs().clear();
  ffs().reset(S.dir);
  Recordable::resetNewInstanceIds();
  S.w = std::make_unique<RecordFileWriter>();
  {
    Ev e("begin");
    echo(e, b);
  }
  for (size_t i = 1; i < ops.size(); ++i) {
    const J& o = *ops[i];
    const string op = gs(o, "op");
    if (op == "images" || op == "forms") {
      (op == "forms" ? forms : images)(S, o, gb(o, "split"));
      continue;
    }
    if (op == "damage") {
      if (!S.files.empty())
        damage(S, o, S.files.back());
      continue;
    }
    Ev e(op);
    echo(e, o);
    if (op == "stream") {
      auto s = std::make_unique<TestStream>(
          static_cast<int>(gi(o, "s")), static_cast<uint16_t>(gi(o, "t")), gs(o, "fl"));
      s->tm_ = &S.tm;
      if (has(o, "preset"))
        s->setCompression(presetOf(gs(o, "preset")));
      e.i("inst", s->getRecordableInstanceId());
      S.streams[static_cast<int>(gi(o, "s"))] = std::move(s);
    } else if (op == "attach") {
      S.w->addRecordable(S.streams[gi(o, "s")].get());
    } else if (op == "active") {
      S.streams[gi(o, "s")]->setRecordableIsActive(gb(o, "b"));
    } else if (op == "auto") { // scripted configuration and state records
      auto& st = *S.streams[gi(o, "s")];
      for (const char* k : {"c", "st"}) {
        if (!has(o, k))
          continue;
        for (auto& x : o[k].GetArray()) {
          AutoRec a{x[0].GetInt64(), static_cast<uint32_t>(x[1].GetInt64()), static_cast<size_t>(x[2].GetInt64())};
          setSig(a.id, a.size, 0);
          (k[0] == 'c' ? st.cfg_ : st.sta_).push_back(a);
        }
      }
    } else if (op == "create") {
      setSig(gi(o, "id"), gi(o, "sz"), gi(o, "k"));
      S.streams[gi(o, "s")]->createVia(
          gi(o, "src"), S.tm(gi(o, "ts")), codeType(gi(o, "t")), gi(o, "id"), gi(o, "sz"), gi(o, "k"));
    } else if (op == "many") { // n data records, timestamps ts, ts+dt, ..., ids id, id+1, ...
      auto& st = *S.streams[gi(o, "s")];
      for (int64_t k = 0; k < gi(o, "n"); ++k) {
        setSig(gi(o, "id") + k, gi(o, "sz"), gi(o, "k"));
        st.create(S.tm(gi(o, "ts") + k * gi(o, "dt")), codeType(gi(o, "t", 3)), gi(o, "id") + k, gi(o, "sz"), gi(o, "k"));
      }
    } else if (op == "cbegin") { // creation blocked while its payload is being copied
      uint32_t id = gi(o, "id");
      setSig(id, gi(o, "sz"), gi(o, "k"));
      auto p = std::make_unique<Pending>();
      Pending* pp = p.get();
      TestStream* st = S.streams[gi(o, "s")].get();
      double ts = S.tm(gi(o, "ts"));
      auto type = codeType(gi(o, "t"));
      size_t sz = gi(o, "sz");
      int k = gi(o, "k");
      p->t = std::thread([=] { st->create(ts, type, id, sz, k, &pp->gate); });
      {
        std::unique_lock<std::mutex> g(pp->gate.m);
        pp->gate.cv.wait(g, [&] { return pp->gate.entered; });
      }
      S.blocked[id] = std::move(p);
    } else if (op == "cend") {
      auto& p = S.blocked[gi(o, "id")];
      {
        std::unique_lock<std::mutex> g(p->gate.m);
        p->gate.released = true;
        p->gate.cv.notify_all();
      }
      p->t.join();
      S.blocked.erase(gi(o, "id"));
    } else if (op == "purge") {
      S.w->purgeOldRecords(S.tm(gi(o, "ts")), gb(o, "r", true));
    } else if (op == "spurge") {
      e.i("n", S.streams[gi(o, "s")]->getRecordManager().purgeOldRecords(S.tm(gi(o, "ts")), gb(o, "r", true)));
    } else if (op == "pool") {
      S.w->setCompressionThreadPoolSize(gi(o, "n"));
    } else if (op == "prealloc") { // a preliminary index of n (arbitrary) records
      auto idx = std::make_unique<std::deque<IndexRecord::DiskRecordInfo>>();
      for (int64_t k = 0; k < gi(o, "n"); ++k) {
        IndexRecord::DiskRecordInfo d(S.tm(k), 100, StreamId(static_cast<RecordableTypeId>(200), 1), Record::Type::DATA);
        idx->push_back(d);
      }
      e.i("rc", S.w->preallocateIndex(std::move(idx)));
    } else if (op == "open") {
      string mode = gs(o, "mode");
      string path = S.dir + "f" + std::to_string(S.files.size() + 1) + (mode == "chunk" ? "" : ".vrs");
      int rc;
      bool busy = S.open;
      if (!busy) {
        S.chunks.clear();
        S.mb = gi(o, "mb");
        if (mode != "chunk")
          S.w->setMaxChunkSizeMB(S.mb);
      }
      if (mode == "chunk") { // (when busy, the listener is never called)
        rc = S.w->createChunkedFile(path, gi(o, "mb"), std::make_unique<ChunkListener>(busy ? S.noChunks : S.chunks));
      } else {
        if (gb(o, "async") && !busy)
          S.w->setWriteFileHandler(std::make_unique<AsyncDiskFile>());
        rc = S.w->createFileAsync(path);
      }
      e.i("rc", rc);
      if (rc == 0) {
        S.files.push_back(path);
        S.open = true;
      }
    } else if (op == "write") {
      e.i("rc", S.w->writeRecordsAsync(S.tm(gi(o, "ts"))));
    } else if (op == "sync") {
      string path = S.dir + "f" + std::to_string(S.files.size() + 1) + ".vrs";
      bool busy = S.open;
      if (!busy) {
        S.chunks.clear();
        S.mb = gi(o, "mb");
        S.w->setMaxChunkSizeMB(S.mb);
      }
      int rc = S.w->writeToFile(path);
      e.i("rc", rc);
      if (rc == 0 || !busy) // even failed attempts may be looked at
        S.files.push_back(path);
    } else if (op == "badsync" || op == "badopen") { // path that can't be created
      string path = S.dir + "missing_dir/x.vrs";
      if (op == "badopen" && gs(o, "mode") == "chunk") { // with a listener, which is for that file only
        e.i("rc", S.w->createChunkedFile(path, gi(o, "mb"), std::make_unique<ChunkListener>(S.open ? S.noChunks : S.chunks)));
      } else {
        e.i("rc", op == "badsync" ? S.w->writeToFile(path) : S.w->createFileAsync(path));
      }
    } else if (op == "close") {
      e.i("rc", S.w->closeFileAsync());
    } else if (op == "wait") {
      int rc = S.w->waitForFileClosed();
      S.open = false;
      e.i("rc", rc);
      vector<string> ev;
      for (auto& c : S.chunks) {
        string base = S.files.empty() ? "" : S.files.back();
        // index in name: base_N
        int num = -1;
        if (c.path.rfind(base + "_", 0) == 0)
          num = atoi(c.path.c_str() + base.size() + 1);
        else if (c.path == base)
          num = 0;
        ev.push_back("[" + std::to_string(num) + "," + std::to_string(c.index) + "," + (c.last ? "1" : "0") + "," +
                     std::to_string(c.size) + "," + std::to_string(fileSizeOr(c.path)) + "]");
      }
      int nfiles = 0;
      if (!S.files.empty())
        while (os::isFile(S.files.back() + (nfiles == 0 ? "" : "_" + std::to_string(nfiles))))
          ++nfiles;
      e.i("nfiles", nfiles);
      e.b("split", !S.files.empty() && S.noChunks.empty() && S.files.back().compare(S.files.back().size() - 4, 4, ".vrs") != 0);
      e.list("chunks", ev);
    } else if (op == "isw") {
      e.b("w", S.w->isWriting());
    } else if (op == "ftag") {
      if (gi(o, "how") == 0) {
        S.w->setTag(gs(o, "key"), gs(o, "val"));
      } else {
        S.w->addTags({{gs(o, "key"), gs(o, "val")}});
      }
    } else if (op == "stag") {
      auto& st = *S.streams[gi(o, "s")];
      if (gi(o, "how") == 0) {
        st.setTag(gs(o, "key"), gs(o, "val"));
      } else if (gi(o, "how") == 1) {
        st.addTags(std::map<string, string>{{gs(o, "key"), gs(o, "val")}});
      } else { // on top of those it has
        vrs::StreamTags tags;
        tags.user[gs(o, "key")] = gs(o, "val");
        tags.vrs = st.getStreamTags().vrs;
        st.addTags(tags);
      }
    } else if (op == "gate") { // block / unblock the storage
      if (gb(o, "b")) {
        ffsGate(true);
      } else {
        ffsGate(false);
      }
    } else if (op == "gatewait") {
      e.b("hit", ffsWaitBlocked(static_cast<int>(gi(o, "ms", 200))));
    } else if (op == "settle") { // the storage has been quiet for a while
      long last = -1;
      for (int k = 0, same = 0; k < 300 && same < 4; k++) {
        long now;
        {
          std::lock_guard<std::mutex> l(ffs().m);
          now = ffs().totalWrites;
        }
        same = now == last ? same + 1 : 0;
        last = now;
        std::this_thread::sleep_for(std::chrono::milliseconds(1));
      }
    } else if (op == "sleep") {
      std::this_thread::sleep_for(std::chrono::milliseconds(gi(o, "ms")));
    } else if (op == "autow") {
      S.autoT = gi(o, "ts");
      e.i("rc", S.w->autoWriteRecordsAsync(
                    [&S] {
                      double t = S.tm(S.autoT.load());
                      S.autoCalls++;
                      return t;
                    },
                    0.002));
    } else if (op == "autowait") { // the automatic writing ran (twice) since this request
      int c = S.autoCalls.load();
      e.b("ran", waitUntil([&] { return S.autoCalls.load() >= c + 2; }, 20000));
    } else if (op == "autop") {
      S.purgeT = kMinTs;
      S.purgeOn = gb(o, "on", true);
      e.i("rc", S.w->autoPurgeRecords(
                    [&S] {
                      int64_t t = S.purgeT.load();
                      S.purgeCalls++;
                      return S.tm(t);
                    },
                    S.purgeOn ? 0.002 : 0));
    } else if (op == "autopset") { // periodic purging with limit ts, while it isn't paused
      bool ran;
      if (S.w->isWriting() || !S.purgeOn) {
        // a pass that had already started may still be going on
        for (int k = 0; k < 50; k++) {
          int c = S.purgeCalls.load();
          std::this_thread::sleep_for(std::chrono::milliseconds(5));
          if (S.purgeCalls.load() == c) {
            break;
          }
        }
        S.purgeT = gi(o, "ts");
        int c = S.purgeCalls.load();
        std::this_thread::sleep_for(std::chrono::milliseconds(15));
        ran = S.purgeCalls.load() != c;
        S.purgeT = kMinTs;
      } else {
        S.purgeT = gi(o, "ts");
        int c = S.purgeCalls.load();
        ran = waitUntil([&] { return S.purgeCalls.load() >= c + 2; }, 20000);
        S.purgeT = kMinTs;
        c = S.purgeCalls.load();
        ran = waitUntil([&] { return S.purgeCalls.load() >= c + 2; }, 20000) && ran;
      }
      e.b("ran", ran);
    } else if (op == "fault") { // storage starts failing at the n-th next operation
      auto& f = ffs();
      std::lock_guard<std::mutex> g(f.m);
      f.failKinds = gs(o, "kinds");
      f.failAt = gi(o, "n");
      f.sticky = gb(o, "sticky", true);
      f.partial = gi(o, "partial");
      f.failPath = gs(o, "match");
      f.opCount = 0;
      f.failed = 0;
    } else if (op == "nofault") {
      auto& f = ffs();
      std::lock_guard<std::mutex> g(f.m);
      e.b("hit", f.failed > 0);
      f.failAt = 0;
    } else if (op == "read") {
      int64_t f = gi(o, "f", static_cast<int64_t>(S.files.size()));
      readBack(S, e, f >= 1 && f <= (int64_t)S.files.size() ? S.files[f - 1] : S.dir + "nofile");
    } else if (op == "log") {
      std::lock_guard<std::mutex> g(ffs().m);
      ffs().logging = gb(o, "b", true);
      if (ffs().logging) {
        ffs().log.clear();
        ffs().files.clear();
      }
    } else if (op == "layout") {
      int64_t f = gi(o, "f", static_cast<int64_t>(S.files.size()));
      layout(S, e, f >= 1 && f <= (int64_t)S.files.size() ? S.files[f - 1] : S.dir + "nofile", S.mb);
    } else if (op == "cachesize") {
      e.i("n", S.streams[gi(o, "s")]->getRecordManager().getCurrentCacheSize());
    } else if (op == "stress") {
      // threads create records (ids id.., per thread) while the main thread writes and (maybe) purges;
      // every creation that returned before the close started must be in the file
      int nt = gi(o, "nt"), n = gi(o, "n");
      int64_t id0 = gi(o, "id");
      vector<std::thread> th;
      std::atomic<bool> stop{false};
      for (int t = 0; t < nt; ++t)
        for (int k = 0; k < n; ++k)
          setSig(id0 + t * n + k, (t * 7919 + k * 131) % gi(o, "maxsz", 3000), k % 3);
      int ns = static_cast<int>(S.streams.size());
      for (int t = 0; t < nt; ++t)
        th.emplace_back([&, t] {
          for (int k = 0; k < n; ++k) {
            uint32_t id = id0 + t * n + k;
            Sig sg = sigs().at(id);
            S.streams.at(1 + (t % ns))->create(S.tm.mode == 0 ? k : k, Record::Type::DATA, id, sg.size, sg.kind);
          }
        });
      std::thread wr([&] {
        Rng r(gi(o, "seed"));
        while (!stop.load()) {
          S.w->writeRecordsAsync(S.tm(r.below(n)));
          std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
        }
      });
      for (auto& x : th)
        x.join();
      stop = true;
      wr.join();
    } else {
      fprintf(stderr, "unknown op %s\n", op.c_str());
      exit(2);
    }
  }
  ffsGate(false);
  for (auto& p : S.blocked) {
    {
      std::unique_lock<std::mutex> g(p.second->gate.m);
      p.second->gate.released = true;
      p.second->gate.cv.notify_all();
    }
    p.second->t.join();
  }
  S.w.reset();
  S.streams.clear();
  ffs().reset("");
  rmrf(S.dir);
}

RegisterMode reg("rec", run);
} // namespace
