// Mode "bulk": recordings of very many records, observed as runs of consecutive records. Record k
// (1, 2, ...) is at time k on stream 1 + k % ns, of type data (configuration when k % 1000 = 0), with
// format version k and a payload determined by k.
#include "faultfs.h"
#include "recutil.h"

#include <chrono>
#include <thread>
#include <vrs/FileFormat.h>
#include <vrs/os/Utils.h>

using namespace vrs;
namespace vd {
namespace {

struct BulkSession {
  string dir;
  map<int, std::unique_ptr<TestStream>> streams;
  std::unique_ptr<RecordFileWriter> w;
  int ns{1}, nfile{0};
  uint32_t next{1};
  size_t sz{0};
  string path;
  bool split{false};
  vector<StoreOp> ops;
  vector<string> paths;
  uint32_t first{1}; // the first record of the file
};

int typeOf(uint32_t k) {
  return k % 1000 == 0 ? 2 : 3;
}

// runs <<first, count>> of the records in the reader's order; a record which isn't what it should be
// is a run of its own, <<-k, 1>>
void runs(BulkSession& S, Ev& e, const string& prefix, RecordFileReader& r) {
  vector<std::pair<int64_t, int64_t>> v;
  struct P : CheckPlayer {
  } p;
  int64_t k = 0;
  bool good = false;
  p.on = [&](const CurrentRecord& c, int ok) {
    k = c.formatVersion;
    good = ok == 1 && c.timestamp == k && typeCode(c.recordType) == typeOf(k) &&
        S.streams.at(1 + k % S.ns)->getStreamId() == c.streamId;
  };
  for (auto id : r.getStreams())
    r.setStreamPlayer(id, &p);
  for (auto& x : r.getIndex()) {
    k = 0;
    good = false;
    if (r.readRecord(x) != 0 || !good)
      k = -k;
    if (!v.empty() && good && v.back().first > 0 && v.back().first + v.back().second == k)
      ++v.back().second;
    else if (v.size() < 50)
      v.push_back({k, 1});
  }
  vector<string> s;
  for (auto& x : v)
    s.push_back("[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]");
  e.list((prefix + "runs").c_str(), s);
}

void readRuns(BulkSession& S, Ev& e, const string& prefix, const string& path, bool repair) {
  RecordFileReader r;
  int rc = r.openFile(path, repair);
  e.i((prefix + "rc").c_str(), rc);
  if (rc == 0)
    runs(S, e, prefix, r);
  else
    e.list((prefix + "runs").c_str(), vector<string>());
  e.b((prefix + "has").c_str(), rc == 0 && r.hasIndex());
}

void run(const vector<const J*>& ops) {
  BulkSession S;
  const J& b = *ops[0];
  S.dir = newDir("b" + std::to_string(gi(b, "h")));
  S.ns = gi(b, "ns", 1);
  S.sz = gi(b, "sz");
  sigs().clear();
  ffs().reset(S.dir);
  S.w = std::make_unique<RecordFileWriter>();
  S.w->setCompressionThreadPoolSize(gi(b, "pool"));
  TsMap tm;
  for (int s = 1; s <= S.ns; ++s) {
    S.streams[s] = std::make_unique<TestStream>(s, 200, "bulk");
    S.streams[s]->tm_ = &tm;
    S.streams[s]->setCompression(presetOf(gs(b, "preset", "none")));
    S.w->addRecordable(S.streams[s].get());
  }
  {
    Ev e("begin");
    e.i("h", gi(b, "h")).i("sz", S.sz).s("preset", gs(b, "preset", "none"));
  }
  for (size_t i = 1; i < ops.size(); ++i) {
    const J& o = *ops[i];
    string op = gs(o, "op");
    if (op == "open") {
      S.path = S.dir + "f" + std::to_string(++S.nfile) + ".vrs";
      S.split = gs(o, "mode") == "chunk";
      S.first = S.next;
      {
        std::lock_guard<std::mutex> g(ffs().m);
        ffs().log.clear();
        ffs().files.clear();
        ffs().logging = gb(o, "log");
      }
      int rc = 0;
      if (gi(o, "prealloc")) {
        auto q = std::make_unique<std::deque<IndexRecord::DiskRecordInfo>>();
        for (int k = 0; k < gi(o, "prealloc"); ++k)
          q->push_back({double(k), 100u + k % 7, S.streams[1]->getStreamId(), Record::Type::DATA});
        S.w->preallocateIndex(std::move(q));
      }
      if (S.split)
        rc = S.w->createChunkedFile(S.path, gi(o, "mb"));
      else
        rc = S.w->createFileAsync(S.path);
      Ev e("open");
      e.i("rc", rc).i("mb", gi(o, "mb"));
    } else if (op == "add") {
      int64_t n = gi(o, "n");
      for (int64_t k = 0; k < n; ++k, ++S.next) {
        sigs()[S.next] = {S.sz, 1};
        S.streams[1 + S.next % S.ns]->create(S.next, codeType(typeOf(S.next)), S.next, S.sz, 1);
      }
      Ev e("add");
      e.i("n", n);
    } else if (op == "write") {
      int64_t upto = gi(o, "upto", S.next);
      int rc = S.w->writeRecordsAsync(upto);
      Ev e("write");
      e.i("rc", rc).i("upto", upto);
    } else if (op == "pause") {
      std::this_thread::sleep_for(std::chrono::microseconds(gi(o, "us")));
    } else if (op == "wait" || op == "sync") {
      int rc = 0;
      if (op == "wait")
        rc = S.w->waitForFileClosed();
      else {
        S.path = S.dir + "f" + std::to_string(++S.nfile) + ".vrs";
        S.split = false;
        rc = S.w->writeToFile(S.path);
      }
      {
        std::lock_guard<std::mutex> g(ffs().m);
        ffs().logging = false;
        S.ops.swap(ffs().log);
        S.paths = ffs().files;
        ffs().log.clear();
      }
      Ev e(op);
      e.i("rc", rc);
    } else if (op == "read") {
      Ev e("read");
      readRuns(S, e, "", S.path, false);
    } else if (op == "image") { // h, d: thousandths of the operations on the head, on the data, which reached storage
      map<int, vector<uint8_t>> im;
      vector<size_t> hd, dt;
      for (size_t k = 0; k < S.ops.size(); ++k)
        (S.split && S.ops[k].file == 0 ? hd : dt).push_back(k);
      size_t base = 0; // head operations before the data file is created
      while (S.split && base < S.ops.size() && S.ops[base].file == 0)
        ++base;
      size_t nd = gi(o, "d") * dt.size() / 1000;
      size_t nh = base + gi(o, "hd") * (hd.size() - std::min(base, hd.size())) / 1000;
      auto apply = [&](const StoreOp& x) {
        auto& d = im[x.file];
        if (x.kind == 'o') {
          d.clear();
        } else if (x.kind == 'w') {
          if (d.size() < x.offset + x.data.size())
            d.resize(x.offset + x.data.size());
          std::copy(x.data.begin(), x.data.end(), d.begin() + x.offset);
        } else if (x.kind == 't') {
          d.resize(x.offset);
        }
      };
      for (size_t k = 0; k < nh && k < hd.size(); ++k)
        apply(S.ops[hd[k]]);
      for (size_t k = 0; k < nd; ++k)
        apply(S.ops[dt[k]]);
      int64_t start = 0, len = 0;
      if (!S.split && !im.empty()) {
        FileFormat::FileHeader h;
        if (im[0].size() >= sizeof(h)) {
          memcpy((void*)&h, im[0].data(), sizeof(h));
          uint32_t dsz = 0;
          if (im[0].size() >= h.descriptionRecordOffset + 4)
            memcpy(&dsz, im[0].data() + h.descriptionRecordOffset, 4);
          start = std::max<int64_t>(h.firstUserRecordOffset, h.descriptionRecordOffset + dsz);
        }
      }
      for (auto& f : im)
        if (!S.split || f.first > 0)
          len += f.second.size();
      string dir = S.dir + "img/";
      rmrf(dir);
      os::makeDir(dir);
      for (auto& f : im)
        spit(dir + S.paths[f.first].substr(S.paths[f.first].rfind('/') + 1), f.second);
      string path = dir + S.paths[0].substr(S.paths[0].rfind('/') + 1);
      Ev e("image");
      e.b("split", S.split).i("start", start).i("len", len).i("first", S.first);
      readRuns(S, e, "a", path, false);
      readRuns(S, e, "b", path, true);
      readRuns(S, e, "c", path, false);
    } else {
      fprintf(stderr, "unknown op %s\n", op.c_str());
      exit(2);
    }
  }
  S.w.reset();
  S.streams.clear();
  ffs().reset("");
  rmrf(S.dir);
}
RegisterMode reg("bulk", run);
} // namespace
} // namespace vd
