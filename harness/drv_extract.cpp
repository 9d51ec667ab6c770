// Mode "extract": audio, images and everything extracted from files by the code of the vrs tool.
#include "recutil.h"

#include <algorithm>
#include <dirent.h>
#include <sys/stat.h>

#include <vrs/RecordFormat.h>
#include <vrs/utils/AudioTrackExtractor.h>
#include <vrs/utils/FilteredFileReader.h>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/cli/DataExtraction.h>

using namespace vrs;
namespace vd {
namespace {

struct Stream : Recordable {
  using Recordable::createRecord;
  explicit Stream(int type) : Recordable(static_cast<RecordableTypeId>(type), "f") {}
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

struct World {
  string dir, path;
  vector<StreamId> ids;
  int outs{0};
};

uint32_t at(const J& a, unsigned i) {
  return a[i].GetUint();
}

ContentBlock block(const J& f) {
  string k = gs(f, "k");
  const J& v = f["v"];
  if (k == "audio")
    return ContentBlock(AudioContentBlockSpec(AudioFormat::PCM, static_cast<AudioSampleFormat>(at(v, 0)), static_cast<uint8_t>(at(v, 1)), static_cast<uint8_t>(at(v, 2)), at(v, 3), at(v, 4)), ContentBlock::kSizeUnknown);
  if (k == "raw")
    return ContentBlock(ImageContentBlockSpec(PixelFormat::GREY8, at(v, 0), at(v, 1), at(v, 2)), ContentBlock::kSizeUnknown);
  if (k == "custom")
    return ContentBlock(ContentType::CUSTOM, at(v, 0));
  return ContentBlock(ContentBlock(k == "jpg" ? ImageFormat::JPG : ImageFormat::PNG), at(v, 0));
}

string bytes(const vector<uint8_t>& d) {
  string r = "[";
  for (uint8_t c : d)
    r += (r.size() > 1 ? "," : "") + std::to_string(c);
  return r + "]";
}

void make(World& W, const J& op) {
  W.ids.clear();
  vector<string> recs, names;
  Ev e("make");
  {
    RecordFileWriter w;
    vector<std::unique_ptr<Stream>> streams;
    for (auto& s : op["streams"].GetArray()) {
      streams.push_back(std::make_unique<Stream>(static_cast<int>(gi(s, "t"))));
      w.addRecordable(streams.back().get());
      uint32_t version = 0;
      for (auto& f : s["formats"].GetArray()) {
        RecordFormat rf(block(f[0]));
        for (unsigned b = 1; b < f.Size(); b++)
          rf = rf + block(f[b]);
        streams.back()->addRecordFormat(Record::Type::DATA, ++version, rf);
      }
      StreamId id = streams.back()->getStreamId();
      W.ids.push_back(id);
      names.push_back("\"" + std::to_string(static_cast<int>(id.getTypeId())) + "-" + std::to_string(id.getInstanceId()) + "\"");
    }
    uint32_t n = 0;
    for (auto& r : op["recs"].GetArray()) {
      vector<uint8_t> d = payload(++n, static_cast<size_t>(gi(r, "n")), 1);
      streams[static_cast<size_t>(gi(r, "s") - 1)]->createRecord(static_cast<double>(gi(r, "ts")) / 8, Record::Type::DATA, static_cast<uint32_t>(gi(r, "f")), DataSource(DataSourceChunk(d.data(), d.size())));
      recs.push_back(bytes(d));
    }
    e.i("rc", w.writeToFile(W.path));
  }
  echo(e, op);
  e.list("names", names).list("bytes", recs);
}

vector<string> filesOf(const string& d) {
  vector<string> r;
  if (DIR* h = opendir(d.c_str())) {
    while (dirent* x = readdir(h)) {
      string n = x->d_name;
      if (n != "." && n != "..")
        r.push_back(n);
    }
    closedir(h);
  }
  std::sort(r.begin(), r.end());
  return r;
}

uint32_t le(const vector<uint8_t>& d, size_t i, size_t n) {
  uint32_t v = 0;
  for (size_t k = n; k-- > 0;)
    v = v << 8 | d[i + k];
  return v;
}

bool ends(const string& s, const string& e) {
  return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0;
}

// a file, as what it is
string show(const string& name, const string& path) {
  vector<uint8_t> d = slurp(path);
  string r = "{\"name\":" + jstr(name);
  auto tag = [&](size_t i) { return string(d.begin() + static_cast<long>(i), d.begin() + static_cast<long>(i) + 4); };
  if (ends(name, ".wav") && d.size() >= 44) {
    bool ok = tag(0) == "RIFF" && tag(8) == "WAVE" && tag(12) == "fmt " && le(d, 16, 4) == 16 && tag(36) == "data";
    r += string(",\"k\":\"wav\",\"ok\":") + (ok ? "true" : "false") + ",\"riff\":" + std::to_string(le(d, 4, 4)) + ",\"fmt\":[" + std::to_string(le(d, 20, 2)) + "," + std::to_string(le(d, 22, 2)) + "," +
        std::to_string(le(d, 24, 4)) + "," + std::to_string(le(d, 28, 4)) + "," + std::to_string(le(d, 32, 2)) + "," + std::to_string(le(d, 34, 2)) + "],\"size\":" + std::to_string(le(d, 40, 4)) +
        ",\"data\":" + bytes(vector<uint8_t>(d.begin() + 44, d.end())) + "}";
    return r;
  }
  if (ends(name, ".png") && d.size() > 8 && d[0] == 0x89 && tag(1).substr(0, 3) == "PNG") {
    utils::PixelFrame f;
    if (f.readPngFrame(d)) {
      vector<uint8_t> px;
      for (uint32_t y = 0; y < f.getHeight(); y++)
        px.insert(px.end(), f.getBuffer().begin() + static_cast<long>(y * f.getStride()), f.getBuffer().begin() + static_cast<long>(y * f.getStride() + f.getWidth()));
      return r + ",\"k\":\"png\",\"grey\":" + (f.getPixelFormat() == PixelFormat::GREY8 ? "true" : "false") + ",\"w\":" + std::to_string(f.getWidth()) + ",\"h\":" + std::to_string(f.getHeight()) + ",\"data\":" + bytes(px) + "}";
    }
  }
  return r + ",\"k\":\"bytes\",\"data\":" + bytes(d) + "}";
}

double num(const J& j, const char* k) {
  return has(j, k) && j[k].IsNumber() ? j[k].GetDouble() : -1000;
}

void extract(World& W, const J& op) {
  string how = gs(op, "how"), out = W.dir + "out" + std::to_string(++W.outs), what = "[]", json = "{}";
  Ev e("extract");
  echo(e, op);
  utils::FilteredFileReader r(W.path);
  int rc = r.openFile();
  std::set<StreamId> keep;
  for (auto& x : op["sel"].GetArray())
    keep.insert(W.ids[static_cast<size_t>(x.GetInt() - 1)]);
  r.filter.streams = keep;
  vector<string> got;
  auto add = [&](const string& dir) {
    for (auto& n : filesOf(dir))
      got.push_back(show(n, dir + "/" + n));
  };
  if (rc == 0) {
    std::streambuf* b = std::cout.rdbuf(nullptr);
    if (how == "audio") {
      rc = utils::extractAudio(out, r);
      add(out);
    } else if (how == "raw" || how == "png") {
      utils::extractImages(out, r, how == "raw");
      add(out);
    } else if (how == "all") {
      rc = utils::extractAll(out, r);
      for (auto& id : keep)
        add(out + "/" + id.getNumericName());
      std::ifstream meta(out + "/metadata.jsons");
      string line, w = "[";
      std::getline(meta, line); // the overview
      while (std::getline(meta, line)) {
        rapidjson::Document d;
        d.Parse(line.c_str());
        string x;
        if (!d.IsObject())
          x = "\"bad\"";
        else if (d.HasMember("content")) {
          x = "{\"c\":[";
          for (auto& c : d["content"].GetArray())
            x += string(x.back() == '[' ? "" : ",") + (c.HasMember("image") ? "[\"image\"," + jstr(c["image"].GetString()) + "]" : c.HasMember("custom") ? "[\"custom\",\"" + std::to_string(c["custom"]["size"].GetInt64()) + "\"]" : string("[\"other\",\"\"]"));
          x += "]}";
        } else
          x = "{\"s\":" + jstr(d["stream"].GetString()) + ",\"t\":" + jstr(d["type"].GetString()) + ",\"ts\":" + std::to_string(std::llround(d["timestamp"].GetDouble() * 8)) + "}";
        w += (w.size() > 1 ? "," : "") + x;
      }
      what = w + "]";
    } else {
      string j = utils::extractAudioTrack(r, out + "/track" + (gb(op, "ext") ? ".wav" : ""));
      if (fileExists(out + "/track.wav"))
        got.push_back(show("track.wav", out + "/track.wav"));
      vector<uint8_t> saved = slurp(out + "/track.wav.json");
      rapidjson::Document d;
      d.Parse(j.c_str());
      string st = d.IsObject() && d.HasMember("status") ? d["status"].GetString() : "bad";
      double rate = num(d, "audio_sample_rate");
      json = "{\"status\":" + jstr(st.substr(0, 20)) + ",\"saved\":" + (string(saved.begin(), saved.end()) == j ? "true" : "false") + ",\"first\":" + std::to_string(std::llround(num(d, "first_audio_record_timestamp") * 8)) +
          ",\"last\":" + std::to_string(std::llround(num(d, "last_audio_record_timestamp") * 8)) + ",\"samples\":" + std::to_string(std::llround(num(d, "total_audio_duration") * rate)) +
          ",\"stream\":" + jstr(d.HasMember("stream_id") ? d["stream_id"].GetString() : "") + "}";
    }
    std::cout.rdbuf(b);
  }
  e.i("rc", rc).list("got", got).raw("meta", what).raw("json", json);
  rmrf(out);
}

void run(const vector<const J*>& ops) {
  World W;
  W.dir = newDir("extract");
  W.path = W.dir + "f.vrs";
  {
    Ev e("begin");
    echo(e, *ops[0]);
  }
  for (size_t k = 1; k < ops.size(); ++k) {
    watchdog(60, "extract");
    if (gs(*ops[k], "op") == "make")
      make(W, *ops[k]);
    else
      extract(W, *ops[k]);
  }
  watchdog(0, "");
  rmrf(W.dir);
}
RegisterMode reg("extract", run);
} // namespace
} // namespace vd
