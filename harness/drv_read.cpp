// Mode "read": finished files, then lookups and reads in any order through one RecordFileReader.
#include "recutil.h"

#include "faultfs.h"

#include <thread>

#include <vrs/DataLayout.h>
#include <vrs/DataPieces.h>
#include <vrs/DiskFile.h>
#include <vrs/FileCache.h>
#include <vrs/FileDetailsCache.h>
#include <vrs/FileFormat.h>
#include <vrs/FileHandlerFactory.h>
#include <vrs/os/Utils.h>
#include <vrs/IndexRecord.h>
#include <vrs/MultiRecordFileReader.h>

using namespace vrs;
namespace vd {
namespace {

// layouts given to the formats of streams
struct LayoutA : public AutoDataLayout {
  DataPieceValue<uint32_t> a{"a"};
  AutoDataLayoutEnd end;
};
struct LayoutB : public AutoDataLayout {
  DataPieceString b{"b"};
  DataPieceArray<float> c{"c", 3};
  AutoDataLayoutEnd end;
};
const DataLayout* layoutOf(int k) {
  static LayoutA a;
  static LayoutB b;
  return k == 1 ? static_cast<const DataLayout*>(&a) : k == 2 ? &b : nullptr;
}
int layoutNumber(const DataLayout* l) {
  return l == nullptr ? 0 : l->asJson() == layoutOf(1)->asJson() ? 1 : l->asJson() == layoutOf(2)->asJson() ? 2 : -1;
}
// formats of a stream: type of records, version, format, layouts of the first two blocks
template <class R, class Id>
void formatsOf(Ev& e, R& r, Id id, const std::function<int(const ContentBlockId&)>& layout, RecordableTypeId type) {
  RecordFormatMap m;
  uint32_t n = r.getRecordFormats(id, m);
  vector<string> v;
  for (auto& f : m) {
    int l[2];
    for (size_t b = 0; b < 2; ++b)
      l[b] = layout(ContentBlockId(type, f.first.first, f.first.second, b));
    v.push_back("{\"ty\":" + std::to_string(typeCode(f.first.first)) + ",\"ver\":" + std::to_string(f.first.second) + ",\"f\":" + jstr(f.second.asString()) +
                ",\"l\":[" + std::to_string(l[0]) + "," + std::to_string(l[1]) + "]}");
  }
  e.list("r", v).i("n", n).b("im", r.mightContainImages(id)).b("au", r.mightContainAudio(id));
}

// a file on this disk which says it is remote, so that its details are cached
struct RemoteFile : public DiskFile {
  std::unique_ptr<FileHandler> makeNew() const override {
    return std::make_unique<RemoteFile>();
  }
  const string& getFileHandlerName() const override {
    static const string n = "vdremote";
    return n;
  }
  bool isRemoteFileSystem() const override {
    return true;
  }
  int openSpec(const FileSpec& spec) override {
    FileSpec s(spec);
    s.fileHandlerName.clear();
    return DiskFile::openSpec(s);
  }
};

struct MadeFile {
  string path;
  string details; // name of its details in the cache
  bool cut{false}; // its index was cut off
  map<int, StreamId> ids; // stream number -> id
  map<int, string> serials;
  map<uint32_t, int> streamOfRec; // record -> stream number
};

struct ReadSession;

// how the player behaves for the next record
struct Plan {
  string kind{"full"}; // full | two | req | decline
  int64_t n{0};
  vector<std::pair<string, int64_t>> pieces; // how (p pointer, v vector, 2 two areas), bytes
  int ret{0};
  int64_t hread{-1}; // bytes read while in the header callback
};

struct PlanPlayer : public StreamPlayer {
  explicit PlanPlayer(int p, ReadSession* s) : p_{p}, S{s} {}
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override;
  void processRecord(const CurrentRecord& r, uint32_t n) override;
  int recordReadComplete(RecordFileReader&, const IndexRecord::RecordInfo&) override;
  void onAttachedToFileReader(RecordFileReader&, StreamId) override {
    ++attached;
  }
  int p_;
  ReadSession* S;
  vector<uint8_t> buf, buf2;
  int attached{0};
};

struct ReadSession {
  string dir;
  TsMap tm;
  map<int, MadeFile> files;
  std::unique_ptr<RecordFileReader> r;
  int f{0}; // the open file
  map<int, std::unique_ptr<PlanPlayer>> players;
  Plan plan;
  // observations of one read
  vector<string> steps, calls;
  string hdr;
  int by{0};
  int64_t pos{0};
  // several files read together
  std::unique_ptr<MultiRecordFileReader> m;
  vector<int> fs; // the files, in the order opened
  map<StreamId, int> unique; // identifier -> 10 * position of the file + stream number

  void setPlan(const J& op) {
    plan = Plan();
    plan.kind = gs(op, "kind", "full");
    plan.n = gi(op, "n");
    plan.ret = static_cast<int>(gi(op, "ret"));
    plan.hread = gi(op, "hread", -1);
    if (has(op, "pieces"))
      for (auto& x : op["pieces"].GetArray())
        plan.pieces.push_back({x[0].GetString(), x[1].GetInt64()});
    steps.clear();
    calls.clear();
    hdr = "[]";
    by = 0;
  }

  // stream of a record being read: its own identifier, in its own file
  int streamOfRecord(StreamId id, uint32_t rec) {
    if (!m)
      return streamOf(id);
    for (size_t k = 0; k < fs.size(); ++k) {
      auto& mf = files[fs[k]];
      auto it = mf.streamOfRec.find(rec);
      if (it != mf.streamOfRec.end())
        return mf.ids[it->second] == id ? static_cast<int>(10 * (k + 1)) + it->second : -2;
    }
    return -3;
  }
  int streamOf(StreamId id) {
    if (m) {
      auto it = unique.find(id);
      return it != unique.end() ? it->second : id.isValid() ? -2 : -1;
    }
    auto it = files.find(f);
    if (it != files.end())
      for (auto& x : it->second.ids)
        if (x.second == id)
          return x.first;
    return id.isValid() ? -2 : -1;
  }
  StreamId idOf(int s) {
    if (m) {
      for (auto& x : unique)
        if (x.second == s)
          return x.first;
      return s == 0 ? StreamId{} : StreamId(static_cast<RecordableTypeId>(300 + s), 1);
    }
    auto& m = files[f].ids;
    auto it = m.find(s);
    return it != m.end() ? it->second : s == 0 ? StreamId{} : StreamId(static_cast<RecordableTypeId>(300 + s), 1);
  }
  int64_t at(const IndexRecord::RecordInfo* p) {
    if (p == nullptr)
      return -1;
    if (m) {
      for (uint32_t k = 0; k < m->getRecordCount(); ++k)
        if (m->getRecord(k) == p)
          return k;
      return -2;
    }
    auto& ix = r->getIndex();
    return p >= ix.data() && p < ix.data() + ix.size() ? p - ix.data() : -2;
  }
};

bool same(uint32_t id, int64_t pos, const uint8_t* d, size_t n) {
  auto it = sigs().find(id);
  if (it == sigs().end() || pos + n > it->second.size)
    return false;
  vector<uint8_t> p = payload(id, it->second.size, it->second.kind);
  return n == 0 || memcmp(p.data() + pos, d, n) == 0;
}

bool PlanPlayer::processRecordHeader(const CurrentRecord& r, DataReference& ref) {
  S->by = p_;
  S->pos = 0;
  S->calls.push_back("[" + std::to_string(S->at(r.recordInfo)) + "," + std::to_string(p_) + "]");
  S->hdr = "[" + std::to_string(S->streamOfRecord(r.streamId, r.formatVersion)) + "," + std::to_string(typeCode(r.recordType)) + "," +
      std::to_string(S->tm.back(r.timestamp)) + "," + std::to_string(r.formatVersion) + "," + std::to_string(r.recordSize) + "]";
  const Plan& pl = S->plan;
  if (pl.hread >= 0) {
    size_t n = std::min<size_t>(pl.hread, r.recordSize);
    vector<uint8_t> b(n, 0xEE);
    int rc = r.reader->read(b.data(), n);
    bool ok = rc == 0 && same(r.formatVersion, 0, b.data(), n);
    S->steps.push_back("[\"h\"," + std::to_string(n) + "," + std::to_string(rc) + "," +
                       std::to_string(r.reader->getUnreadBytes()) + "," + (ok ? "true" : "false") + "]");
    return false;
  }
  if (pl.kind == "decline")
    return false;
  size_t n = pl.kind == "full" || pl.kind == "two" ? r.recordSize : pl.n;
  if (pl.kind == "two") {
    size_t a = std::min<size_t>(n, pl.n);
    buf.assign(a, 0xEE);
    buf2.assign(n - a, 0xEE);
    ref.useVectors(buf, buf2);
  } else {
    buf2.clear();
    buf.assign(n, 0xEE);
    ref.useVector(buf);
  }
  return true;
}

void PlanPlayer::processRecord(const CurrentRecord& r, uint32_t readSize) {
  vector<uint8_t> all = buf;
  all.insert(all.end(), buf2.begin(), buf2.end());
  auto step = [&](const string& how, int64_t n, int rc, bool ok) {
    S->steps.push_back("[\"" + how + "\"," + std::to_string(n) + "," + std::to_string(rc ? 1 : 0) + "," +
                       std::to_string(r.reader->getUnreadBytes()) + "," + (ok ? "true" : "false") + "]");
  };
  bool ok = readSize == all.size() && same(r.formatVersion, 0, all.data(), all.size());
  S->pos = readSize;
  step("h", readSize, 0, ok);
  for (auto& pc : S->plan.pieces) {
    size_t n = pc.second;
    vector<uint8_t> b(n, 0xEE);
    int rc = 0;
    if (pc.first == "v") {
      rc = r.reader->read(b);
      ok = rc != 0 ? b.empty() : b.size() == n;
      if (rc == 0)
        ok = ok && same(r.formatVersion, S->pos, b.data(), b.size());
    } else if (pc.first == "2") {
      size_t a = n / 3;
      DataReference ref(b.data(), a, b.data() + a, n - a);
      uint32_t got = 0;
      rc = r.reader->read(ref, got);
      ok = rc != 0 ? got == 0 : got == n && same(r.formatVersion, S->pos, b.data(), n);
    } else {
      rc = r.reader->read(b.data(), n);
      ok = rc != 0 || same(r.formatVersion, S->pos, b.data(), n);
    }
    if (rc == 0)
      S->pos += n;
    step(pc.first, n, rc, ok);
  }
}

int PlanPlayer::recordReadComplete(RecordFileReader&, const IndexRecord::RecordInfo&) {
  return S->plan.ret;
}

void make(ReadSession& S, const J& op) {
  Ev e("make");
  int f = static_cast<int>(gi(op, "f"));
  MadeFile& mf = S.files[f];
  mf.path = S.dir + "f" + std::to_string(f) + ".vrs";
  map<int, std::unique_ptr<TestStream>> ss;
  RecordFileWriter w;
  vector<string> ids;
  std::unique_ptr<TemporaryRecordableInstanceIdsResetter> scope; // files of other sessions use the same ids
  if (gb(op, "reset"))
    scope = std::make_unique<TemporaryRecordableInstanceIdsResetter>();
  for (auto& x : op["streams"].GetArray()) {
    int s = static_cast<int>(gi(x, "s"));
    ss[s] = std::make_unique<TestStream>(s, static_cast<uint16_t>(gi(x, "t")), gs(x, "fl"));
    ss[s]->tm_ = &S.tm;
    if (has(x, "preset"))
      ss[s]->setCompression(presetOf(gs(x, "preset")));
    if (has(x, "tags"))
      for (auto& t : x["tags"].GetArray())
        ss[s]->setTag(t[0].GetString(), t[1].GetString());
    if (has(x, "fmts"))
      for (auto& m : x["fmts"].GetArray())
        ss[s]->addRecordFormat(codeType(gi(m, "ty")), static_cast<uint32_t>(gi(m, "ver")), RecordFormat(gs(m, "f")), {layoutOf(m["l"][0].GetInt()), layoutOf(m["l"][1].GetInt())});
    w.addRecordable(ss[s].get());
    mf.ids[s] = ss[s]->getStreamId();
    mf.serials[s] = ss[s]->getSerialNumber();
    ids.push_back("[" + std::to_string(s) + "," + std::to_string(static_cast<int>(mf.ids[s].getTypeId())) + "," +
                  std::to_string(mf.ids[s].getInstanceId()) + "]");
  }
  scope.reset();
  int rc = 0;
  if (has(op, "ftags"))
    for (auto& t : op["ftags"].GetArray())
      w.setTag(t[0].GetString(), t[1].GetString());
  if (gi(op, "pool") > 0)
    w.setCompressionThreadPoolSize(gi(op, "pool"));
  if (gi(op, "mb") > 0)
    w.setMaxChunkSizeMB(gi(op, "mb"));
  // "batches": written in several batches, so that what's on disk isn't in time order
  size_t batch = static_cast<size_t>(gi(op, "batch", 3)), k = 0;
  bool sync = gs(op, "mode") == "sync", batches = gs(op, "mode") == "batches";
  if (!sync)
    rc = w.createFileAsync(mf.path);
  for (auto& x : op["recs"].GetArray()) { // [s, ty, ts, id, size, kind]
    uint32_t id = x[3].GetUint();
    size_t sz = x[4].GetUint();
    sigs()[id] = {sz, x[5].GetInt()};
    mf.streamOfRec[id] = x[0].GetInt();
    ss.at(x[0].GetInt())->create(S.tm(x[2].GetInt64()), codeType(x[1].GetInt()), id, sz, x[5].GetInt());
    if (batches && ++k % batch == 0) {
      w.writeRecordsAsync(S.tm(kMaxTs));
      usleep(1500);
    }
  }
  if (sync)
    rc = w.writeToFile(mf.path);
  else
    rc = rc ? rc : w.waitForFileClosed();
  auto d = slurp(mf.path);
  FileFormat::FileHeader h;
  if (d.size() >= sizeof(h))
    memcpy(&h, d.data(), sizeof(h));
  if (rc == 0 && has(op, "cut") && h.indexRecordOffset > h.firstUserRecordOffset) {
    size_t left = std::min<size_t>(d.size() - 1, h.indexRecordOffset + gi(op, "cut"));
    d.resize(left);
    spit(mf.path, d);
    mf.cut = true;
  }
  mf.details = "vrs_details_" + std::to_string(h.creationId) + "_" + std::to_string(d.size());
  e.i("f", f).i("rc", rc).b("noindex", mf.cut).b("known", h.creationId != 0);
  echo(e, op);
  e.list("ids", ids);
}

vector<string> indexList(ReadSession& S, const vector<IndexRecord::RecordInfo>& ix) {
  vector<string> r;
  for (auto& x : ix)
    r.push_back("[" + std::to_string(S.streamOf(x.streamId)) + "," + std::to_string(typeCode(x.recordType)) + "," + std::to_string(S.tm.back(x.timestamp)) + "]");
  return r;
}
string tagList(const map<string, string>& m) {
  string r = "[";
  for (auto& t : m)
    r += string(r.size() > 1 ? "," : "") + "[" + jstr(t.first) + "," + jstr(t.second) + "]";
  return r + "]";
}

FileSpec remoteSpec(ReadSession& S, const J& op, int f) {
  FileSpec spec;
  spec.fileHandlerName = gb(op, "remote", true) ? "vdremote" : "diskfile";
  spec.chunks = {S.files.count(f) ? S.files[f].path : S.dir + "absent.vrs"};
  if (gb(op, "fast"))
    spec.setExtra(kFailFastOnIncompleteIndex, true);
  if (gb(op, "sorted"))
    spec.setExtra("sort_records", true);
  if (gb(op, "prefetch"))
    spec.setExtra(kPrefetchCache, true);
  return spec;
}

// the details saved, read directly
void cached(ReadSession& S, int f, bool ours) {
  auto& mf = S.files[f];
  set<StreamId> ids;
  map<string, string> tags;
  map<StreamId, StreamTags> stags;
  vector<IndexRecord::RecordInfo> ix;
  bool hasIndex = false;
  string path = S.dir + ".vd/" + mf.details;
  int rc = FileDetailsCache::read(path, ids, tags, stags, ix, hasIndex);
  int was = S.f;
  S.f = f;
  Ev e("cached");
  e.i("f", f).i("rc", rc ? 1 : 0).b("ours", ours);
  if (rc == 0) {
    vector<int> st;
    vector<string> st2;
    for (auto id : ids)
      st.push_back(S.streamOf(id));
    for (auto& t : stags)
      st2.push_back("[" + std::to_string(S.streamOf(t.first)) + "," + jstr(Recordable::getFlavorTagName().empty() ? "" : t.second.vrs.count(Recordable::getFlavorTagName()) ? t.second.vrs.at(Recordable::getFlavorTagName()) : "") + "," + tagList(t.second.user) + "]");
    e.ints("streams", st).list("stags", st2).raw("ftags", tagList(tags)).list("ix", indexList(S, ix)).b("has", hasIndex);
  }
  S.f = was;
}

// writes what a file contains as details elsewhere, reads them back; then with every number of bytes missing or some added
void details(ReadSession& S, const J& op) {
  string path = S.dir + "details";
  auto& r = *S.r;
  map<StreamId, StreamTags> stags;
  for (auto id : r.getStreams())
    stags[id] = r.getTags(id);
  bool hasIndex = gb(op, "has");
  int rc = FileDetailsCache::write(path, r.getStreams(), r.getTags(), stags, r.getIndex(), hasIndex);
  auto whole = slurp(path);
  struct D {
    set<StreamId> ids;
    map<string, string> tags;
    map<StreamId, StreamTags> stags;
    vector<IndexRecord::RecordInfo> ix;
    bool has{false};
  };
  auto read = [&](D& d) { return FileDetailsCache::read(path, d.ids, d.tags, d.stags, d.ix, d.has); };
  D d;
  int rd = read(d);
  bool sameTags = d.tags == r.getTags() && d.stags.size() == stags.size();
  for (auto& t : stags)
    sameTags = sameTags && d.stags.count(t.first) && d.stags[t.first].user == t.second.user && d.stags[t.first].vrs == t.second.vrs;
  Ev e("details");
  vector<int> st;
  for (auto id : d.ids)
    st.push_back(S.streamOf(id));
  vector<string> same;
  bool offs = d.ix.size() == r.getIndex().size();
  for (size_t k = 0; offs && k < d.ix.size(); ++k)
    offs = d.ix[k].fileOffset == r.getIndex()[k].fileOffset;
  int accepted = 0, tried = 0;
  size_t step = gb(op, "all") ? 1 : 1 + whole.size() / 40;
  for (size_t n = 0; n < whole.size(); n += n + step > whole.size() && n + 1 < whole.size() ? whole.size() - 1 - n : step) {
    spit(path, vector<uint8_t>(whole.begin(), whole.begin() + n));
    D x;
    accepted += read(x) == 0 ? 1 : 0;
    ++tried;
  }
  for (int k : {1, 2, 64, 5000}) {
    auto longer = whole;
    longer.resize(whole.size() + k, static_cast<uint8_t>(gi(op, "fill")));
    spit(path, longer);
    D x;
    accepted += read(x) == 0 ? 1 : 0;
    ++tried;
  }
  ::remove(path.c_str());
  e.i("rc", rc ? 1 : 0).i("rd", rd ? 1 : 0).b("hasin", hasIndex).b("has", d.has).ints("streams", st).list("ix", indexList(S, d.ix)).b("offs", offs).b("tags", sameTags).i("accepted", accepted).i("tried", tried);
}

// details with a very long list of records
void bulkDetails(ReadSession& S, const J& op) {
  string path = S.dir + "bulk";
  Rng rng(gi(op, "seed"));
  set<StreamId> ids;
  map<StreamId, StreamTags> stags;
  for (int k = 0; k < gi(op, "streams"); ++k) {
    StreamId id(static_cast<RecordableTypeId>(rng.below(65535)), static_cast<uint16_t>(rng.below(65536)));
    ids.insert(id);
  }
  vector<StreamId> v(ids.begin(), ids.end());
  vector<IndexRecord::RecordInfo> ix;
  double ts = -1e6;
  int64_t off = 0;
  for (int64_t k = 0; k < gi(op, "n"); ++k) {
    ts += rng.below(3) * 1e-3;
    off += 32 + static_cast<int64_t>(rng.below(1u << 31));
    ix.emplace_back(ts, off, v.empty() ? StreamId() : v[rng.below(v.size())], static_cast<Record::Type>(1 + rng.below(3)));
  }
  bool hasIndex = rng.below(2);
  int rc = FileDetailsCache::write(path, ids, {}, stags, ix, hasIndex);
  set<StreamId> ids2;
  map<string, string> tags2;
  map<StreamId, StreamTags> stags2;
  vector<IndexRecord::RecordInfo> ix2;
  bool has2 = !hasIndex;
  int rd = FileDetailsCache::read(path, ids2, tags2, stags2, ix2, has2);
  bool same = ids == ids2 && ix.size() == ix2.size() && has2 == hasIndex;
  for (size_t k = 0; same && k < ix.size(); ++k)
    same = ix[k].timestamp == ix2[k].timestamp && ix[k].fileOffset == ix2[k].fileOffset && ix[k].streamId == ix2[k].streamId && ix[k].recordType == ix2[k].recordType;
  ::remove(path.c_str());
  Ev e("bulk");
  e.i("n", ix.size()).i("rc", rc ? 1 : 0).i("rd", rd ? 1 : 0).b("same", same).i("m", ix2.size());
}

void spoil(ReadSession& S, const J& op) {
  string path = S.dir + ".vd/" + S.files[static_cast<int>(gi(op, "f"))].details;
  string how = gs(op, "how");
  auto d = slurp(path);
  bool was = fileExists(path);
  if (how == "remove")
    ::remove(path.c_str());
  else if (how == "headers") { // the saved headers of all files
    for (auto& n : os::listDir(S.dir + ".vd"))
      if (n.find("vrs_header_") != string::npos) {
        auto h = slurp(n);
        if (gi(op, "k") % 3 == 0)
          h.resize(h.size() * (gi(op, "k") % 1000) / 1000);
        else if (gi(op, "k") % 3 == 1)
          h.push_back(0);
        else if (!h.empty())
          h[gi(op, "k") % std::min<size_t>(h.size(), 4)] ^= 0x55; // not a frame any more
        spit(n, h);
      }
  } else if (was) {
    if (how == "cut")
      d.resize(d.size() * gi(op, "k") / 1000);
    else if (how == "extend")
      d.resize(d.size() + 1 + gi(op, "k"), 0);
    else if (how == "magic" && !d.empty())
      d[gi(op, "k") % 8] ^= 0x55;
    spit(path, d);
  }
  Ev e("spoil");
  echo(e, op);
  e.b("was", was);
}

// two readers opening the file at once
void twin(ReadSession& S, const J& op) {
  int f = static_cast<int>(gi(op, "f"));
  FileSpec spec = remoteSpec(S, op, f);
  int rc[2] = {0, 0};
  vector<string> ix[2];
  vector<int> st[2];
  std::unique_ptr<RecordFileReader> r[2];
  int was = S.f;
  S.f = f;
  {
    vector<std::thread> ts;
    for (int k = 0; k < 2; ++k) {
      r[k] = std::make_unique<RecordFileReader>();
      ts.emplace_back([&, k] { rc[k] = r[k]->openFile(spec); });
    }
    for (auto& t : ts)
      t.join();
  }
  Ev e("twin");
  for (int k = 0; k < 2; ++k) {
    ix[k] = indexList(S, r[k]->getIndex());
    for (auto id : r[k]->getStreams())
      st[k].push_back(S.streamOf(id));
    r[k]->closeFile();
  }
  S.f = was;
  e.i("f", f).i("rc", rc[0] ? 1 : 0).i("rc2", rc[1] ? 1 : 0).list("ix", ix[0]).list("ix2", ix[1]).ints("streams", st[0]).ints("streams2", st[1]);
}

void query(ReadSession& S, const J& op) {
  Ev e("q");
  echo(e, op);
  RecordFileReader& r = *S.r;
  string q = gs(op, "q");
  StreamId id = S.idOf(static_cast<int>(gi(op, "s")));
  auto ty = codeType(gi(op, "ty"));
  auto n = static_cast<uint32_t>(gi(op, "n"));
  double ts = has(op, "ts") ? S.tm(gi(op, "ts")) : 0;
  auto type = static_cast<RecordableTypeId>(gi(op, "t"));
  auto inRange = [&] { return n < r.getIndex().size(); };
  if (q == "nthg")
    e.i("r", S.at(r.getRecord(n)));
  else if (q == "nth")
    e.i("r", S.at(r.getRecord(id, n)));
  else if (q == "nthty")
    e.i("r", S.at(r.getRecord(id, ty, n)));
  else if (q == "last")
    e.i("r", S.at(r.getLastRecord(id, ty)));
  else if (q == "bt")
    e.i("r", S.at(r.getRecordByTime(ts)));
  else if (q == "btty")
    e.i("r", S.at(r.getRecordByTime(ty, ts)));
  else if (q == "bts")
    e.i("r", S.at(r.getRecordByTime(id, ts)));
  else if (q == "btsty")
    e.i("r", S.at(r.getRecordByTime(id, ty, ts)));
  else if (q == "near")
    e.i("r", S.at(r.getNearestRecordByTime(ts, static_cast<double>(gi(op, "eps")), id, ty)));
  else if (q == "gi")
    e.i("r", inRange() ? r.getRecordIndex(&r.getIndex()[n]) : r.getRecordIndex(nullptr));
  else if (q == "gsi")
    e.i("r", inRange() ? static_cast<int64_t>(r.getRecordStreamIndex(&r.getIndex()[n])) : -1);
  else if (q == "cnt")
    e.i("r", r.getRecordCount(id));
  else if (q == "cntty")
    e.i("r", r.getRecordCount(id, ty));
  else if (q == "cntg")
    e.i("r", r.getRecordCount());
  else if (q == "ft")
    e.i("r", S.tm.back(r.getFirstDataRecordTime())).b("zero", r.getFirstDataRecordTime() == 0);
  else if (q == "lt")
    e.i("r", S.tm.back(r.getLastDataRecordTime())).b("zero", r.getLastDataRecordTime() == 0);
  else if (q == "size")
    e.i("r", r.getRecordSize(n, gb(op, "ub")));
  else if (q == "sft")
    e.i("r", S.streamOf(r.getStreamForType(type, n)));
  else if (q == "sff")
    e.i("r", S.streamOf(r.getStreamForFlavor(type, gs(op, "fl"), n)));
  else if (q == "stag")
    e.i("r", S.streamOf(r.getStreamForTag(gs(op, "key"), gs(op, "val"), gi(op, "t") == 0 ? RecordableTypeId::Undefined : type)));
  else if (q == "sname")
    e.i("r", S.streamOf(r.getStreamForName(id.getNumericName())));
  else if (q == "splus")
    e.i("r", S.streamOf(r.getStreamForName(std::to_string(gi(op, "t")) + "+" + std::to_string(n))));
  else if (q == "ssn") {
    auto& m = S.files[S.f].serials;
    auto it = m.find(static_cast<int>(gi(op, "s")));
    e.i("r", S.streamOf(r.getStreamForSerialNumber(it == m.end() ? "no such serial" : it->second)));
  } else if (q == "ssnx") { // no stream's
    auto& m = S.files[S.f].serials;
    auto it = m.find(static_cast<int>(gi(op, "s")));
    string sn = it == m.end() ? "x" : it->second;
    e.i("r", S.streamOf(r.getStreamForSerialNumber(n % 3 == 0 ? "" : n % 3 == 1 ? sn.substr(0, sn.size() - 1) : sn + "0")));
  } else if (q == "sty") {
    vector<int> v;
    for (auto x : r.getStreams(gi(op, "t") == 0 ? RecordableTypeId::Undefined : type, gs(op, "fl")))
      v.push_back(S.streamOf(x));
    e.ints("r", v);
  } else if (q == "idx") {
    vector<int64_t> v;
    for (auto* p : r.getIndex(id))
      v.push_back(S.at(p));
    e.ints("r", v);
  } else if (q == "fl")
    e.s("r", r.getFlavor(id));
  else if (q == "tag")
    e.s("r", r.getTag(id, gs(op, "key")));
  else if (q == "ftag")
    e.s("r", r.getTag(gs(op, "key")));
  else if (q == "fmts")
    formatsOf(e, r, id, [&](const ContentBlockId& b) { return layoutNumber(r.getDataLayout(id, b).get()); }, id.getTypeId());
  else if (q == "chunks") {
    auto c = r.getFileChunks();
    e.i("r", c.size()).b("own", c.empty() || (c[0].first == S.files[S.f].path && c[0].second == static_cast<int64_t>(slurp(c[0].first).size())));
  } else if (q == "names") // every stream's numeric name finds it
    e.b("r", [&] {
      for (auto x : r.getStreams())
        if (r.getStreamForName(x.getNumericName()) != x)
          return false;
      return true;
    }());
}

void run(const vector<const J*>& ops) {
  ReadSession S;
  const J& b = *ops[0];
  S.dir = newDir("r" + std::to_string(gi(b, "h")));
  S.tm.mode = static_cast<int>(gi(b, "tm"));
  sigs().clear();
  S.r = std::make_unique<RecordFileReader>();
  static bool once = [] {
    FileHandlerFactory::getInstance().registerFileHandler(std::make_unique<RemoteFile>());
    return true;
  }();
  (void)once;
  for (int p = 1; p <= 3; ++p)
    S.players[p] = std::make_unique<PlanPlayer>(p, &S);
  {
    Ev e("begin");
    echo(e, b);
  }
  for (size_t k = 1; k < ops.size(); ++k) {
    const J& op = *ops[k];
    string o = gs(op, "op");
    if (o == "make") {
      make(S, op);
    } else if (o == "open") {
      int f = static_cast<int>(gi(op, "f"));
      if (gb(op, "fresh"))
        S.r = std::make_unique<RecordFileReader>();
      string path = S.files.count(f) ? S.files[f].path : S.dir + "absent.vrs";
      bool viaSpec = has(op, "remote"); // the cases of a cache of details
      int rc = 0;
      if (viaSpec) {
        if (has(op, "fault")) { // writing in the cache fails
          ffs().reset(S.dir + ".vd");
          ffs().failKinds = gs(op, "kinds");
          ffs().failAt = static_cast<int>(gi(op, "fault"));
        }
        rc = S.r->openFile(remoteSpec(S, op, f));
      } else
        rc = S.r->openFile(path);
      S.f = rc == 0 ? f : 0;
      Ev e("open");
      e.i("f", f).i("rc", rc ? 1 : 0).b("fresh", gb(op, "fresh"));
      if (viaSpec) {
        for (const char* k : {"remote", "fast", "sorted"})
          e.b(k, gb(op, k));
        e.b("fault", has(op, "fault")).b("has", S.r->hasIndex());
      }
      vector<string> ix;
      vector<int64_t> offs;
      for (auto& x : S.r->getIndex()) {
        ix.push_back("[" + std::to_string(S.streamOf(x.streamId)) + "," + std::to_string(typeCode(x.recordType)) + "," +
                     std::to_string(S.tm.back(x.timestamp)) + "]");
        offs.push_back(x.fileOffset);
      }
      vector<int> st;
      for (auto id : S.r->getStreams())
        st.push_back(S.streamOf(id));
      e.list("ix", ix).ints("offs", offs).ints("streams", st).b("opened", S.r->isOpened());
      // where the user records end: the index record, or the end of the file
      int64_t end = S.r->getTotalSourceSize();
      if (rc == 0) {
        auto d = slurp(path);
        FileFormat::FileHeader h;
        if (d.size() >= sizeof(h)) {
          memcpy(&h, d.data(), sizeof(h));
          if (h.indexRecordOffset > h.firstUserRecordOffset)
            end = h.indexRecordOffset;
        }
      }
      e.i("end", end);
    } else if (o == "cached")
      cached(S, static_cast<int>(gi(op, "f")), true);
    else if (o == "spoil")
      spoil(S, op);
    else if (o == "twin")
      twin(S, op);
    else if (o == "details")
      details(S, op);
    else if (o == "bulk")
      bulkDetails(S, op);
    else if (o == "cache") { // switches the cache on or off
      if (gb(op, "on"))
        FileCache::makeFileCache("vd", S.dir);
      else
        FileCache::disableFileCache();
      Ev e("cache");
      e.b("on", gb(op, "on"));
    } else if (o == "close") {
      int rc = S.r->closeFile();
      ffs().reset("");
      S.f = 0;
      Ev e("close");
      e.i("rc", rc ? 1 : 0).b("opened", S.r->isOpened()).i("n", S.r->getRecordCount());
    } else if (o == "q") {
      query(S, op);
    } else if (o == "player") {
      int p = static_cast<int>(gi(op, "p"));
      S.r->setStreamPlayer(S.idOf(static_cast<int>(gi(op, "s"))), p ? S.players[p].get() : nullptr);
      Ev e("player");
      echo(e, op);
    } else if (o == "clearplayers") {
      S.r->clearStreamPlayers();
      Ev e("clearplayers");
    } else if (o == "caching") {
      Ev e("caching");
      S.r->setCachingStrategy(static_cast<CachingStrategy>(gi(op, "n")));
    } else if (o == "read" || o == "all" || o == "conf") {
      S.setPlan(op);
      int p = static_cast<int>(gi(op, "p"));
      StreamPlayer* pl = p ? S.players[p].get() : nullptr;
      int64_t rc = 0;
      if (o == "all") {
        rc = S.r->readAllRecords();
      } else if (o == "conf") {
        int s = static_cast<int>(gi(op, "s"));
        rc = gs(op, "what") == "stream" ? S.r->readFirstConfigurationRecord(S.idOf(s), pl)
            : gs(op, "what") == "type"
            ? S.r->readFirstConfigurationRecordsForType(static_cast<RecordableTypeId>(gi(op, "t")), pl)
            : S.r->readFirstConfigurationRecords(pl);
      } else {
        auto i = static_cast<size_t>(gi(op, "i"));
        if (i >= S.r->getIndex().size())
          continue;
        const auto& rec = S.r->getIndex()[i];
        rc = p ? S.r->readRecord(rec, pl, gb(op, "setup")) : S.r->readRecord(rec);
      }
      Ev e(o);
      echo(e, op);
      e.i("rc", rc).i("by", S.by).raw("hdr", S.hdr).list("calls", S.calls);
      if (o == "read")
        e.list("steps", S.steps);
    }
  }
  S.r.reset();
  FileCache::disableFileCache();
  rmrf(S.dir);
}

void queryMulti(ReadSession& S, const J& op) {
  Ev e("q");
  echo(e, op);
  MultiRecordFileReader& r = *S.m;
  string q = gs(op, "q");
  StreamId id = S.idOf(static_cast<int>(gi(op, "s")));
  auto ty = codeType(gi(op, "ty"));
  auto n = static_cast<uint32_t>(gi(op, "n"));
  double ts = has(op, "ts") ? S.tm(gi(op, "ts")) : 0;
  auto type = static_cast<RecordableTypeId>(gi(op, "t"));
  if (q == "nthg")
    e.i("r", S.at(r.getRecord(n)));
  else if (q == "nth")
    e.i("r", S.at(r.getRecord(id, n)));
  else if (q == "nthty")
    e.i("r", S.at(r.getRecord(id, ty, n)));
  else if (q == "last")
    e.i("r", S.at(r.getLastRecord(id, ty)));
  else if (q == "firstg")
    e.i("r", S.at(r.getFirstRecord(ty)));
  else if (q == "lastg")
    e.i("r", S.at(r.getLastRecord(ty)));
  else if (q == "bt")
    e.i("r", S.at(r.getRecordByTime(ts)));
  else if (q == "bts")
    e.i("r", S.at(r.getRecordByTime(id, ts)));
  else if (q == "btsty")
    e.i("r", S.at(r.getRecordByTime(id, ty, ts)));
  else if (q == "near")
    e.i("r", S.at(r.getNearestRecordByTime(ts, static_cast<double>(gi(op, "eps")), id, ty)));
  else if (q == "gi") {
    const auto* rec = r.getRecord(n);
    IndexRecord::RecordInfo copy = rec ? *rec : IndexRecord::RecordInfo();
    e.i("r", r.getRecordIndex(rec)).i("alien", r.getRecordIndex(&copy));
  } else if (q == "cnt")
    e.i("r", r.getRecordCount(id));
  else if (q == "cntty")
    e.i("r", r.getRecordCount(id, ty));
  else if (q == "cntg")
    e.i("r", r.getRecordCount());
  else if (q == "size")
    e.i("r", r.getRecordSize(n));
  else if (q == "stag")
    e.i("r", S.streamOf(r.getStreamForTag(gs(op, "key"), gs(op, "val"), gi(op, "t") == 0 ? RecordableTypeId::Undefined : type)));
  else if (q == "sname")
    e.i("r", S.streamOf(r.getStreamForName(id.getNumericName())));
  else if (q == "splus")
    e.i("r", S.streamOf(r.getStreamForName(std::to_string(gi(op, "t")) + "+" + std::to_string(n))));
  else if (q == "ssn")
    e.i("r", S.streamOf(r.getStreamForSerialNumber(id.isValid() && !r.getSerialNumber(id).empty() ? r.getSerialNumber(id) : "no such serial")));
  else if (q == "serial") { // is it the stream's own
    int s = static_cast<int>(gi(op, "s"));
    size_t k = s / 10;
    string own;
    if (k >= 1 && k <= S.fs.size()) {
      auto& m = S.files[S.fs[k - 1]].serials;
      auto it = m.find(s % 10);
      own = it == m.end() ? "" : it->second;
    }
    e.b("r", r.getSerialNumber(id) == own);
  } else if (q == "sty") {
    vector<int> v;
    for (auto x : r.getStreams(gi(op, "t") == 0 ? RecordableTypeId::Undefined : type, gs(op, "fl")))
      v.push_back(S.streamOf(x));
    e.ints("r", v);
  } else if (q == "idx") {
    vector<int64_t> v;
    for (auto* p : r.getIndex(id))
      v.push_back(S.at(p));
    e.ints("r", v);
  } else if (q == "fl")
    e.s("r", r.getFlavor(id));
  else if (q == "tag")
    e.s("r", r.getTag(id, gs(op, "key")));
  else if (q == "ftag")
    e.s("r", r.getTag(gs(op, "key")));
  else if (q == "fmts") {
    int s = static_cast<int>(gi(op, "s"));
    size_t k = s / 10;
    RecordFileReader* own = r.isOpened() && k >= 1 && k <= S.fs.size() ? r.getReaders()[k - 1].get() : nullptr;
    StreamId oid = own != nullptr && S.files[S.fs[k - 1]].ids.count(s % 10) ? S.files[S.fs[k - 1]].ids[s % 10] : StreamId();
    formatsOf(e, r, id, [&](const ContentBlockId& b) { return layoutNumber(own != nullptr ? own->getDataLayout(oid, b).get() : nullptr); }, oid.getTypeId());
  } else if (q == "chunks") {
    auto c = r.getFileChunks();
    bool own = true;
    for (size_t i = 0; i < c.size(); ++i)
      own = own && i < S.fs.size() && c[i].first == S.files[S.fs[i]].path && c[i].second == static_cast<int64_t>(slurp(c[i].first).size());
    e.i("r", c.size()).b("own", own);
  } else if (q == "uid")
    e.i("r", S.streamOf(r.getUniqueStreamId(r.getRecord(n))));
  else if (q == "total") {
    int64_t want = 0;
    for (int f : S.fs)
      want += r.isOpened() ? static_cast<int64_t>(slurp(S.files[f].path).size()) : 0;
    e.b("r", r.getTotalSourceSize() == want);
  }
}

void runMulti(const vector<const J*>& ops) {
  ReadSession S;
  const J& b = *ops[0];
  S.dir = newDir("m" + std::to_string(gi(b, "h")));
  S.tm.mode = static_cast<int>(gi(b, "tm"));
  sigs().clear();
  S.m = std::make_unique<MultiRecordFileReader>();
  for (int p = 1; p <= 3; ++p)
    S.players[p] = std::make_unique<PlanPlayer>(p, &S);
  {
    Ev e("begin");
    echo(e, b);
  }
  for (size_t k = 1; k < ops.size(); ++k) {
    const J& op = *ops[k];
    string o = gs(op, "op");
    if (o == "make")
      make(S, op);
    else if (o == "damage") { // not a VRS file any more
      spit(S.files[static_cast<int>(gi(op, "f"))].path, {1, 2, 3});
      Ev e("damage");
      echo(e, op);
    } else if (o == "mopen") {
      if (gb(op, "fresh"))
        S.m = std::make_unique<MultiRecordFileReader>();
      if (has(op, "related")) {
        vector<string> t;
        for (auto& x : op["related"].GetArray())
          t.emplace_back(x.GetString());
        S.m->setRelatedFileTags(std::move(t));
      }
      bool was = S.m->isOpened();
      vector<int> fs;
      vector<string> paths;
      for (auto& x : op["fs"].GetArray()) {
        int f = x.GetInt();
        fs.push_back(f);
        paths.push_back(S.files.count(f) ? S.files[f].path : S.dir + "absent.vrs");
      }
      int rc = 0;
      if (gi(op, "via") == 1 && paths.size() == 1)
        rc = S.m->open(paths[0]);
      else if (gi(op, "via") == 2) {
        vector<FileSpec> specs;
        for (auto& p : paths)
          specs.emplace_back(vector<string>{p});
        rc = S.m->open(specs);
      } else
        rc = S.m->open(paths);
      if (!was || rc == 0) {
        S.fs = rc == 0 ? fs : vector<int>();
        S.unique.clear();
      }
      Ev e("mopen");
      echo(e, op);
      e.i("rc", rc ? 1 : 0).b("was", was).b("opened", S.m->isOpened());
      // identifiers of the streams: through the reader of each file, and the record's identifier in the whole
      vector<string> ids, ix, st;
      if (rc == 0) {
        auto& rs = S.m->getReaders();
        for (auto id : S.m->getStreams())
          st.push_back("[" + std::to_string(static_cast<int>(id.getTypeId())) + "," + std::to_string(id.getInstanceId()) + "]");
        // who is who: told by the serial number, which each stream has of its own
        for (auto id : S.m->getStreams()) {
          string sn = S.m->getSerialNumber(id);
          int who = -1;
          for (size_t j = 0; j < fs.size(); ++j)
            for (auto& y : S.files[fs[j]].serials)
              if (y.second == sn)
                who = static_cast<int>(10 * (j + 1)) + y.first;
          S.unique[id] = who;
          ids.push_back("[" + std::to_string(who) + "," + std::to_string(static_cast<int>(id.getTypeId())) + "," + std::to_string(id.getInstanceId()) + "]");
        }
        vector<string> offs, ends;
        for (uint32_t i = 0; i < S.m->getRecordCount(); ++i) {
          const auto* rec = S.m->getRecord(i);
          size_t j = 0; // in the index of which reader
          for (size_t x = 0; x < rs.size(); ++x) {
            auto& rix = rs[x]->getIndex();
            if (!rix.empty() && rec >= rix.data() && rec < rix.data() + rix.size())
              j = x + 1;
          }
          int s = -2;
          if (j > 0)
            for (auto& y : S.files[fs[j - 1]].ids)
              if (y.second == rec->streamId)
                s = static_cast<int>(10 * j) + y.first;
          ix.push_back("[" + std::to_string(s) + "," + std::to_string(typeCode(rec->recordType)) + "," + std::to_string(S.tm.back(rec->timestamp)) + "]");
          offs.push_back(std::to_string(rec->fileOffset));
        }
        for (int f : fs) {
          auto d = slurp(S.files[f].path);
          int64_t end = d.size();
          FileFormat::FileHeader h;
          if (d.size() >= sizeof(h)) {
            memcpy(&h, d.data(), sizeof(h));
            if (h.indexRecordOffset > h.firstUserRecordOffset)
              end = h.indexRecordOffset;
          }
          ends.push_back(std::to_string(end));
        }
        e.list("offs", offs).list("ends", ends);
      }
      e.list("ids", ids).list("ix", ix).list("st", st).i("n", S.m->getRecordCount());
    } else if (o == "mclose") {
      bool was = S.m->isOpened();
      int rc = S.m->close();
      Ev e("mclose");
      e.i("rc", rc ? 1 : 0).b("was", was).b("opened", S.m->isOpened()).i("n", S.m->getRecordCount() + S.m->getStreams().size());
    } else if (o == "q")
      queryMulti(S, op);
    else if (o == "player") {
      int p = static_cast<int>(gi(op, "p"));
      S.m->setStreamPlayer(S.idOf(static_cast<int>(gi(op, "s"))), p ? S.players[p].get() : nullptr);
      Ev e("player");
      echo(e, op);
    } else if (o == "read" || o == "conf") {
      S.setPlan(op);
      int p = static_cast<int>(gi(op, "p"));
      StreamPlayer* pl = p ? S.players[p].get() : nullptr;
      int64_t rc = 0;
      if (o == "conf") {
        int s = static_cast<int>(gi(op, "s"));
        rc = gs(op, "what") == "stream" ? S.m->readFirstConfigurationRecord(S.idOf(s), pl)
            : gs(op, "what") == "type"  ? S.m->readFirstConfigurationRecordsForType(static_cast<RecordableTypeId>(gi(op, "t")), pl)
                                        : S.m->readFirstConfigurationRecords(pl);
      } else {
        const auto* rec = S.m->getRecord(static_cast<uint32_t>(gi(op, "i")));
        if (rec == nullptr)
          continue;
        if (gb(op, "alien")) { // not a record of the reader
          IndexRecord::RecordInfo copy = *rec;
          rc = p ? S.m->readRecord(copy, pl, gb(op, "setup")) : S.m->readRecord(copy);
        } else
          rc = p ? S.m->readRecord(*rec, pl, gb(op, "setup")) : S.m->readRecord(*rec);
      }
      Ev e(o);
      echo(e, op);
      e.i("rc", rc).i("by", S.by).raw("hdr", S.hdr).list("calls", S.calls);
      if (o == "read")
        e.list("steps", S.steps);
    } else if (o == "caching") {
      Ev e("caching");
      S.m->setCachingStrategy(static_cast<CachingStrategy>(gi(op, "n")));
    }
  }
  S.m.reset();
  rmrf(S.dir);
}

RegisterMode reg("read", run);
RegisterMode regMulti("multi", runMulti);

} // namespace
} // namespace vd
