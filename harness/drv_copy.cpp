// Mode "copy": a library of files; filtered reading, copies, merges, checksums and comparisons.
#include "recutil.h"

#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/Validation.h>
#include <vrs/utils/cli/DefaultDecimator.h>

using namespace vrs;
namespace vd {
namespace {

struct Session {
  string dir;
  TsMap tm;
  map<int, string> path; // file number -> path
  map<std::pair<size_t, uint64_t>, int64_t> content; // payload -> number of the content
  int made{0};
};

uint64_t fnv(const uint8_t* d, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t k = 0; k < n; ++k)
    h = (h ^ d[k]) * 1099511628211ull;
  return h;
}

string pairs(const map<string, string>& m) {
  string r = "[";
  for (auto& x : m)
    r += (r.size() > 1 ? "," : "") + string("[") + jstr(x.first) + "," + jstr(x.second) + "]";
  return r + "]";
}

struct Catcher : public StreamPlayer {
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override {
    buf.assign(r.recordSize, 0xEE);
    ref.useVector(buf);
    return true;
  }
  void processRecord(const CurrentRecord& r, uint32_t n) override {
    on(r, buf, n);
  }
  vector<uint8_t> buf;
  std::function<void(const CurrentRecord&, const vector<uint8_t>&, uint32_t)> on;
};

string n2s(int64_t v) {
  return std::to_string(v);
}

// [stream position, type, time, version, content, size]
string recordOf(Session& S, const map<StreamId, int>& pos, const CurrentRecord& r, const vector<uint8_t>& b, uint32_t n) {
  auto c = S.content.find({b.size(), fnv(b.data(), b.size())});
  int64_t pid = n == r.recordSize && c != S.content.end() ? c->second : -1;
  auto p = pos.find(r.streamId);
  return "[" + n2s(p == pos.end() ? -1 : p->second) + "," + n2s(typeCode(r.recordType)) + "," + n2s(S.tm.back(r.timestamp)) + "," +
      n2s(r.formatVersion) + "," + n2s(pid) + "," + n2s(r.recordSize) + "]";
}

map<StreamId, int> positions(const RecordFileReader& r) {
  map<StreamId, int> m;
  int k = 0;
  for (auto id : r.getStreams())
    m[id] = ++k;
  return m;
}

// what a plain reader finds in a file
string describe(Session& S, const string& path) {
  RecordFileReader r;
  int rc = r.openFile(path);
  if (rc != 0)
    return "{\"rc\":1}";
  auto pos = positions(r);
  Catcher c;
  vector<string> recs;
  c.on = [&](const CurrentRecord& rec, const vector<uint8_t>& b, uint32_t n) { recs.push_back(recordOf(S, pos, rec, b, n)); };
  string ss = "[";
  for (auto id : r.getStreams()) {
    r.setStreamPlayer(id, &c);
    auto& t = r.getTags(id);
    ss += (ss.size() > 1 ? "," : "") + string("{\"t\":") + n2s(static_cast<int>(id.getTypeId())) + ",\"inst\":" + n2s(id.getInstanceId()) +
        ",\"fl\":" + jstr(r.getFlavor(id)) + ",\"tags\":" + pairs(t.user) + ",\"vrs\":" + pairs(t.vrs) + "}";
  }
  ss += "]";
  rc = r.readAllRecords();
  string rr = "[";
  for (auto& x : recs)
    rr += (rr.size() > 1 ? "," : "") + x;
  return "{\"rc\":" + n2s(rc ? 2 : 0) + ",\"ft\":" + pairs(r.getTags()) + ",\"streams\":" + ss + ",\"recs\":" + rr + "],\"n\":" + n2s(r.getRecordCount()) + "}";
}

void make(Session& S, const J& op) {
  int f = static_cast<int>(gi(op, "f"));
  RecordFileWriter w;
  if (gi(op, "pool") > 0)
    w.setCompressionThreadPoolSize(gi(op, "pool"));
  if (gi(op, "mb") > 0)
    w.setMaxChunkSizeMB(gi(op, "mb"));
  if (has(op, "ft"))
    for (auto& t : op["ft"].GetArray())
      w.setTag(t[0].GetString(), t[1].GetString());
  vector<std::unique_ptr<utils::Writer>> ss;
  {
    TemporaryRecordableInstanceIdsResetter reset;
    for (auto& x : op["streams"].GetArray()) {
      for (int64_t k = gi(x, "gap"); k > 0; --k)
        utils::Writer shifts(static_cast<RecordableTypeId>(gi(x, "t")), "gap");
      ss.push_back(std::make_unique<utils::Writer>(static_cast<RecordableTypeId>(gi(x, "t")), gs(x, "fl")));
      auto& s = *ss.back();
      s.getVRSTags()[Recordable::getSerialNumberTagName()] = gs(x, "sn", "sn");
      if (has(x, "vt"))
        for (auto& t : x["vt"].GetArray())
          s.getVRSTags()[t[0].GetString()] = t[1].GetString();
      if (has(x, "tags"))
        for (auto& t : x["tags"].GetArray())
          s.setTag(t[0].GetString(), t[1].GetString());
      s.setCompression(presetOf(gs(x, "preset", "none")));
      w.addRecordable(&s);
    }
  }
  vector<string> recs;
  string path = S.dir + "f" + n2s(++S.made) + ".vrs";
  bool sync = gb(op, "sync");
  int rc = sync ? 0 : w.createFileAsync(path);
  for (auto& x : op["recs"].GetArray()) { // stream (from 1), type, time, version, payload, size, kind
    uint32_t pid = x[4].GetUint();
    size_t size = x[5].GetUint();
    auto p = payload(pid, size, x[6].GetInt());
    int64_t c = S.content.insert({{size, fnv(p.data(), size)}, pid}).first->second;
    DataSource src(p);
    ss.at(x[0].GetInt() - 1)->createRecord(S.tm(x[2].GetInt64()), codeType(x[1].GetInt()), x[3].GetUint(), src);
    recs.push_back("[" + n2s(x[0].GetInt()) + "," + n2s(x[1].GetInt()) + "," + n2s(x[2].GetInt64()) + "," + n2s(x[3].GetUint()) + "," + n2s(c) + "," + n2s(size) + "]");
  }
  rc = sync ? w.writeToFile(path) : rc ? rc : w.waitForFileClosed();
  S.path[f] = path;
  Ev e("make");
  e.i("f", f).i("rc", rc).raw("streams", [&] {
    string r = "[";
    for (auto& x : op["streams"].GetArray())
      r += (r.size() > 1 ? "," : "") + string("{\"t\":") + n2s(gi(x, "t")) + ",\"fl\":" + jstr(gs(x, "fl")) + "}";
    return r + "]";
  }());
  e.list("recs", recs).raw("got", describe(S, path));
}

struct Filtered {
  utils::FilteredFileReader r;
  bool ok{true}; // filters accepted
};

int openFiltered(Session& S, Filtered& F, int f, const J& op) {
  auto it = S.path.find(f);
  F.r.setSource(it == S.path.end() ? S.dir + "absent.vrs" : it->second);
  utils::RecordFilterParams p;
  const J* flt = has(op, "flt") ? &op["flt"] : nullptr;
  auto numeric = [](double v, bool sign) {
    char b[64];
    snprintf(b, sizeof(b), sign && v >= 0 ? "+%.17g" : "%.17g", v);
    return string(b);
  };
  if (flt) {
    string joined;
    if (has(*flt, "st"))
      for (auto& x : (*flt)["st"].GetArray()) {
        string what = n2s(gi(x, "t"));
        string k = gs(x, "k");
        if (k == "id")
          what += "-" + n2s(gi(x, "n"));
        else if (k == "plus")
          what += "+" + n2s(gi(x, "n"));
        else if (k == "dash")
          what += "-";
        else if (k == "flavor")
          what += "-" + gs(x, "fl");
        bool plus = gs(x, "sign") == "+";
        if (gb(*flt, "joined"))
          joined += (joined.empty() ? "" : ", ") + string(plus ? (gb(x, "bare") ? "" : "+") : (gb(x, "bare") ? "~" : "-")) + what;
        else
          F.ok &= plus ? p.includeStream(what) : p.excludeStream(what);
      }
    if (gb(*flt, "joined"))
      F.ok &= p.includeExcludeStream(joined);
    if (has(*flt, "ty"))
      for (auto& x : (*flt)["ty"].GetArray()) // sign, text
        F.ok &= string(x[0].GetString()) == "+" ? p.includeType(x[1].GetString()) : p.excludeType(x[1].GetString());
    if (has(*flt, "min")) { // value, relative
      bool rel = (*flt)["min"][1].GetBool();
      int64_t k = (*flt)["min"][0].GetInt64();
      double v = rel ? static_cast<double>(k) : S.tm(k);
      if (gb(*flt, "text") && (rel || v >= 0))
        F.ok &= F.r.afterConstraint(numeric(v, rel));
      else
        F.r.setMinTime(v, rel);
    }
    if (has(*flt, "max")) {
      bool rel = (*flt)["max"][1].GetBool();
      int64_t k = (*flt)["max"][0].GetInt64();
      double v = rel || gb(*flt, "around") ? static_cast<double>(k) : S.tm(k);
      if (gb(*flt, "text") && (rel || v >= 0))
        F.ok &= F.r.beforeConstraint(numeric(v, rel));
      else
        F.r.setMaxTime(v, rel);
    }
    F.r.filter.aroundTime = gb(*flt, "around");
    F.r.firstRecordsOnly = gb(*flt, "first");
  }
  int rc = F.r.openFile(p);
  if (rc == 0 && flt && has(*flt, "dec")) {
    utils::DefaultDecimator::Params d;
    for (auto& x : (*flt)["dec"].GetArray()) {
      string what = n2s(gi(x, "t")), k = gs(x, "k");
      what += k == "id" ? "-" + n2s(gi(x, "n")) : k == "plus" ? "+" + n2s(gi(x, "n")) : k == "dash" ? "-" : k == "flavor" ? "-" + gs(x, "fl") : "";
      d.decimationIntervals.emplace_back(what, static_cast<double>(gi(x, "iv")));
    }
    d.decimate(F.r);
  }
  return rc;
}

void iterate(Session& S, const J& op) {
  Filtered F;
  int rc = openFiltered(S, F, static_cast<int>(gi(op, "f")), op);
  Ev e("iterate");
  echo(e, op);
  e.i("rc", rc ? 1 : 0).b("ok", F.ok);
  if (rc)
    return;
  auto pos = positions(F.r.reader);
  Catcher c;
  vector<string> seen;
  vector<int64_t> at;
  auto& ix = F.r.reader.getIndex();
  c.on = [&](const CurrentRecord& rec, const vector<uint8_t>& b, uint32_t n) {
    seen.push_back(recordOf(S, pos, rec, b, n));
    at.push_back(rec.recordInfo - ix.data() + 1);
  };
  vector<int> sel;
  for (auto& x : pos) {
    F.r.reader.setStreamPlayer(x.first, &c);
    if (F.r.filter.streams.count(x.first))
      sel.push_back(x.second);
  }
  double a = 0, z = 0;
  F.r.getTimeRange(a, z);
  e.ints("sel", sel).i("start", a == std::numeric_limits<double>::max() ? kMaxTs : S.tm.back(a)).i("end", z == std::numeric_limits<double>::lowest() ? kMinTs : S.tm.back(z));
  uint32_t n = 0;
  if (gs(op, "how") == "func") {
    double s{}, t{};
    F.r.getConstrainedTimeRange(s, t);
    auto f = [&](RecordFileReader& rd, const IndexRecord::RecordInfo& i) {
      rd.readRecord(i);
      return true;
    };
    F.r.preRollConfigAndState(f);
    size_t before = at.size();
    F.r.iterateAdvanced(f);
    n = at.size() - before;
  } else {
    n = F.r.iterateSafe();
  }
  e.i("n", n).ints("at", at).list("seen", seen);
  vector<int64_t> bi; // the preliminary index made for a copy
  int64_t off = 0;
  auto index = F.r.buildIndex();
  for (auto& x : *index) {
    off = static_cast<uint32_t>(off + static_cast<uint32_t>(x.recordSize));
    int64_t hit = -1;
    for (size_t k = 0; k < ix.size(); ++k)
      if (static_cast<uint32_t>(ix[k].fileOffset) == off && ix[k].timestamp == x.timestamp && ix[k].streamId == x.getStreamId() &&
          ix[k].recordType == x.getRecordType())
        hit = k + 1;
    bi.push_back(hit);
  }
  e.ints("bi", bi);
}

struct Verbatim : public utils::RecordFilterCopier {
  using utils::RecordFilterCopier::RecordFilterCopier;
  bool shouldCopyVerbatim(const CurrentRecord&) override {
    return true;
  }
  void doDataLayoutEdits(const CurrentRecord&, size_t, DataLayout&) override {}
  void doHeaderEdits(CurrentRecord&) override {}
  void filterImage(const CurrentRecord&, size_t, const ContentBlock&, vector<uint8_t>&) override {}
};

std::unique_ptr<utils::CopyOptions> options(const J& op) {
  auto o = std::make_unique<utils::CopyOptions>(false);
  if (!has(op, "opt"))
    return o;
  const J& x = op["opt"];
  o->compressionPoolSize = static_cast<unsigned>(gi(x, "pool", 1));
  o->maxChunkSizeMB = gi(x, "mb");
  o->mergeStreams = gb(x, "merge");
  o->graceWindow = static_cast<double>(gi(x, "grace"));
  if (has(x, "ov")) {
    auto& t = o->getTagOverrider();
    for (auto& p : x["ov"]["ft"].GetArray())
      t.fileTags[p[0].GetString()] = p[1].GetString();
    for (auto& p : x["ov"]["st"].GetArray())
      t.streamTags[StreamId(static_cast<RecordableTypeId>(p[0].GetInt()), p[1].GetInt())][p[2].GetString()] = p[3].GetString();
  }
  if (gb(x, "dup")) {
    o = std::make_unique<utils::CopyOptions>(*o);
  } else if (gb(x, "assign")) {
    auto c = std::make_unique<utils::CopyOptions>(false);
    *c = *o;
    o = std::move(c);
  }
  if (has(x, "preset"))
    o->setCompressionPreset(presetOf(gs(x, "preset")));
  o->preallocateIndex = gb(x, "pre", true);
  return o;
}

void copy(Session& S, const J& op) {
  Filtered F;
  int g = static_cast<int>(gi(op, "g"));
  int rc = openFiltered(S, F, static_cast<int>(gi(op, "f")), op);
  Ev e("copy");
  echo(e, op);
  e.i("open", rc ? 1 : 0).b("ok", F.ok);
  if (rc)
    return;
  auto o = options(op);
  string path = gb(op, "bad") ? S.dir + "nowhere/x.vrs" : S.dir + "c" + n2s(++S.made) + ".vrs";
  utils::MakeStreamFilterFunction maker = utils::makeCopier;
  if (has(op, "opt") && gb(op["opt"], "verbatim"))
    maker = [](RecordFileReader& r, RecordFileWriter& w, StreamId id, const utils::CopyOptions& co) {
      return std::unique_ptr<StreamPlayer>(new Verbatim(r, w, id, id.getTypeId(), co));
    };
  rc = utils::filterCopy(F.r, path, *o, maker, std::make_unique<utils::ThrottledFileDelegate>());
  e.i("rc", rc ? 1 : 0).i("n", o->outRecordCopiedCount);
  if (rc == 0) {
    S.path[g] = path;
    e.raw("got", describe(S, path));
  }
}

void merge(Session& S, const J& op) {
  int g = static_cast<int>(gi(op, "g"));
  std::list<Filtered> all;
  int k = 0, rc = 0;
  bool ok = true;
  for (auto& f : op["fs"].GetArray()) {
    all.emplace_back();
    rc = rc ? rc : openFiltered(S, all.back(), f.GetInt(), op["flts"][k++]);
    ok &= all.back().ok;
  }
  Ev e("merge");
  echo(e, op);
  e.i("open", rc ? 1 : 0).b("ok", ok);
  if (rc)
    return;
  vector<utils::FilteredFileReader*> more;
  for (auto it = ++all.begin(); it != all.end(); ++it)
    more.push_back(&it->r);
  auto o = options(op);
  string path = S.dir + "m" + n2s(++S.made) + ".vrs";
  rc = utils::filterMerge(all.front().r, more, path, *o, std::make_unique<utils::ThrottledFileDelegate>());
  e.i("rc", rc ? 1 : 0).i("n", o->outRecordCopiedCount);
  if (rc == 0) {
    S.path[g] = path;
    e.raw("got", describe(S, path));
  }
}

string lastLine(const string& s) {
  auto p = s.find_last_of('\n');
  return p == string::npos ? s : s.substr(p + 1);
}

void sum(Session& S, const J& op) {
  Filtered F;
  int rc = openFiltered(S, F, static_cast<int>(gi(op, "f")), op);
  string how = gs(op, "how"), r;
  int64_t n = -1;
  if (rc == 0) {
    utils::CopyOptions o(false);
    if (how == "check") {
      r = utils::checkRecords(F.r, o, utils::CheckType::Check);
      if (r.rfind("Checked ", 0) == 0 && r.find("no errors") != string::npos)
        n = std::stoll(r.substr(8));
      else if (r[0] != '<')
        r = "errors";
    } else {
      o.jsonOutput = how == "json";
      r = utils::checkRecords(F.r, o, how == "one" ? utils::CheckType::Checksum : utils::CheckType::Checksums);
      if (how == "json") {
        rapidjson::Document d;
        d.Parse(r.c_str());
        r = d.IsObject() && d.HasMember("checksum") ? d["checksum"].GetString() : r;
      }
      r = lastLine(r);
    }
  }
  Ev e("sum");
  echo(e, op);
  e.i("rc", rc ? 1 : 0).b("ok", F.ok).i("n", n).s("r", how == "check" ? (n >= 0 ? "good" : r) : r);
}

void compare(Session& S, const J& op) {
  Filtered A, B;
  int rc = openFiltered(S, A, static_cast<int>(gi(op, "f")), op);
  int rc2 = openFiltered(S, B, static_cast<int>(gi(op, "g")), op);
  Ev e("cmp");
  echo(e, op);
  e.i("rc", rc || rc2 ? 1 : 0).b("ok", A.ok);
  if (rc || rc2)
    return;
  e.b("r", utils::compareVRSfiles(A.r, B.r, utils::CopyOptions(false)));
}

// a file of n bytes with some altered, in parts of the given sizes
FileSpec rawFile(Session& S, const J& x) {
  string bytes(static_cast<size_t>(gi(x, "n")), 0);
  for (size_t k = 0; k < bytes.size(); ++k)
    bytes[k] = static_cast<char>((k * 2654435761u) >> 13);
  for (auto& f : x["flips"].GetArray())
    bytes[f[0].GetUint()] ^= static_cast<char>(f[1].GetInt());
  FileSpec spec;
  size_t at = 0, number = 0;
  auto part = [&](size_t len) {
    string path = S.dir + "raw" + n2s(++S.made) + "_" + n2s(number++);
    std::ofstream(path, std::ios::binary).write(bytes.data() + at, static_cast<std::streamsize>(len));
    at += len;
    spec.chunks.push_back(path);
  };
  for (auto& c : x["cuts"].GetArray())
    part(std::min<size_t>(c.GetUint(), bytes.size() - at));
  if (at < bytes.size() || spec.chunks.empty())
    part(bytes.size() - at);
  if (gb(x, "absent"))
    ::unlink(spec.chunks.back().c_str());
  return spec;
}

// comparison and checksum of files as bytes
void raw(Session& S, const J& op) {
  FileSpec a = rawFile(S, op["a"]), b = rawFile(S, op["b"]);
  Ev e("raw");
  echo(e, op);
  e.b("cmp", utils::compareVerbatim(a, b, false));
  e.b("back", utils::compareVerbatim(b, a, gb(op, "show")));
  e.s("sa", utils::verbatimChecksum(a.chunks.size() == 1 ? a.chunks[0] : a.toJson(), false));
  e.s("sb", utils::verbatimChecksum(b.chunks.size() == 1 ? b.chunks[0] : b.toJson(), gb(op, "show")));
  for (auto* q : {&a, &b})
    for (auto& c : q->chunks)
      ::unlink(c.c_str());
}

void run(const vector<const J*>& ops) {
  Session S;
  const J& b = *ops[0];
  S.dir = newDir("k" + n2s(gi(b, "h")));
  S.tm.mode = static_cast<int>(gi(b, "tm"));
  {
    Ev e("begin");
    echo(e, b);
  }
  for (size_t k = 1; k < ops.size(); ++k) {
    const J& op = *ops[k];
    string o = gs(op, "op");
    if (o == "make")
      make(S, op);
    else if (o == "iterate")
      iterate(S, op);
    else if (o == "copy")
      copy(S, op);
    else if (o == "merge")
      merge(S, op);
    else if (o == "sum")
      sum(S, op);
    else if (o == "cmp")
      compare(S, op);
    else if (o == "raw")
      raw(S, op);
  }
  rmrf(S.dir);
}

RegisterMode reg("copy", run);

} // namespace
} // namespace vd
