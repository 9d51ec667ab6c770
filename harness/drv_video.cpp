// Mode "video": frames of compressed video streams read in any order, through a decoder that records its calls.
#include "recutil.h"

#include <vrs/DataLayout.h>
#include <vrs/DataLayoutConventions.h>
#include <vrs/DataPieces.h>
#include <vrs/ErrorCode.h>
#include <vrs/RecordFormat.h>
#include <vrs/utils/DecoderFactory.h>
#include <vrs/utils/PixelFrame.h>
#include <vrs/utils/VideoRecordFormatStreamPlayer.h>

using namespace vrs;
namespace vd {
namespace {
namespace dc = datalayout_conventions;
using utils::DecodeStatus;

constexpr const char* kCodec = "vtest";
constexpr uint32_t kW = 6, kH = 4;

struct FrameLayout : AutoDataLayout {
  DataPieceValue<double> keyTime{dc::kImageKeyFrameTimeStamp};
  DataPieceValue<uint32_t> keyIndex{dc::kImageKeyFrameIndex};
  DataPieceValue<uint32_t> width{dc::kImageWidth, kW};
  DataPieceValue<uint32_t> height{dc::kImageHeight, kH};
  DataPieceEnum<PixelFormat, uint32_t> pixel{dc::kImagePixelFormat, PixelFormat::GREY8};
  DataPieceValue<uint32_t> size{dc::kNextContentBlockSize};
  AutoDataLayoutEnd end;
};
double when(int64_t t) {
  return t / 10.;
}
int64_t unwhen(double t) {
  return std::llround(t * 10);
}
int64_t index(uint32_t i) {
  return i == utils::kInvalidFrameIndex ? -1 : static_cast<int64_t>(i);
}
struct R {
  int s, ty;
  int64_t ts, g, ix;
  bool isShort;
  size_t len;
};
vector<uint8_t> encode(const R& r) {
  vector<uint8_t> b(r.len);
  for (size_t k = 0; k < b.size(); k++)
    b[k] = static_cast<uint8_t>(k * 7 + r.s * 31 + r.g * 5 + r.ix * 3);
  b[0] = static_cast<uint8_t>(r.s);
  b[1] = static_cast<uint8_t>(r.g);
  b[2] = static_cast<uint8_t>(r.ix);
  return b;
}
uint8_t pixel(const R& r, size_t k) {
  return static_cast<uint8_t>(r.s * 50 + r.g * 11 + r.ix * 17 + k * 3 + 1);
}

struct World;
World* current{};

struct Decoder : utils::DecoderI {
  int s{0};
  int decode(const vector<uint8_t>& in, void* out, const ImageContentBlockSpec& spec) override;
  void flush() override;
};

struct Player : utils::VideoRecordFormatStreamPlayer {
  World& w;
  Player(World& world, bool hw) : VideoRecordFormatStreamPlayer(utils::DecoderOptions{hw}), w{world} {}
  bool onDataLayoutRead(const CurrentRecord&, size_t, DataLayout&) override {
    return true;
  }
  bool onImageRead(const CurrentRecord& r, size_t i, const ContentBlock& cb) override;
  int recordReadComplete(RecordFileReader& f, const IndexRecord::RecordInfo& r) override;
};

struct Stream : Recordable {
  using Recordable::createRecord;
  FrameLayout layout;
  explicit Stream(int s) : Recordable(RecordableTypeId::UnitTest1, "f" + std::to_string(s)) {
    ImageContentBlockSpec spec(kCodec, 77, PixelFormat::GREY8, kW, kH);
    addRecordFormat(Record::Type::DATA, 1, layout.getContentBlock() + ContentBlock(spec), {&layout});
  }
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

struct World {
  map<int, std::unique_ptr<Stream>> streams;
  vector<R> recs;
  map<int, StreamId> ids;
  string path;
  std::unique_ptr<RecordFileReader> reader;
  map<int, std::unique_ptr<Player>> players;
  // current operation
  std::set<int> fails;
  int given{0}, api{0}, catching{0};
  bool late{false}, optionsOk{true}, hw{true}, selecting{false};
  vector<string> log, tries;
  utils::PixelFrame frame;

  const R* find(int s, int64_t g, int64_t ix) const {
    for (auto& r : recs)
      if (r.ty == 3 && r.s == s && r.g == g && r.ix == ix)
        return &r;
    return nullptr;
  }
  void call(const char* k, int s, int64_t g, int64_t ix, bool ok) {
    log.push_back(string("{\"k\":\"") + k + "\",\"s\":" + std::to_string(s) + ",\"g\":" + std::to_string(g) + ",\"ix\":" + std::to_string(ix) + ",\"ok\":" + (ok ? "true" : "false") + "}");
  }
  // a frame is given to a decoder
  bool give(const char* k, const vector<uint8_t>& in, void* out, const ImageContentBlockSpec& spec) {
    const R* r = in.size() < 3 ? nullptr : find(in[0], in[1], in[2]);
    bool ok = !fails.count(++given);
    if (!r || in != encode(*r) || spec.getWidth() != kW || spec.getHeight() != kH || spec.getCodecName() != kCodec || spec.getRawImageSize() != size_t(kW) * kH) {
      call("garbage", r ? r->s : 0, -2, -2, false);
      return false;
    }
    call(k, r->s, r->g, r->ix, ok);
    if (ok)
      for (size_t i = 0; i < size_t(kW) * kH; i++)
        static_cast<uint8_t*>(out)[i] = pixel(*r, i);
    return ok;
  }

  string state() {
    vector<string> v;
    for (auto& x : ids) {
      Player* p = playerOf(x.first);
      auto& h = p->getVideoFrameHandler(x.second);
      v.push_back(
          "{\"s\":" + std::to_string(x.first) + ",\"missing\":" + (p->isMissingFrames(x.second) && h.isMissingFrames() ? "true" : "false") + ",\"rg\":" + std::to_string(unwhen(h.getRequestedKeyFrameTimestamp())) +
          ",\"rx\":" + std::to_string(index(h.getRequestedKeyFrameIndex())) + ",\"skip\":" + std::to_string(h.getFramesToSkip()) + "}");
    }
    string r = "[";
    for (auto& x : v)
      r += (r.size() > 1 ? "," : "") + x;
    return r + "]";
  }
  Player* playerOf(int s) {
    return players.count(s) ? players[s].get() : players.begin()->second.get();
  }

  void rec(const J& op) {
    const J& j = op["r"];
    R r{static_cast<int>(gi(j, "s")), static_cast<int>(gi(j, "ty")), gi(j, "ts"), gi(j, "g"), gi(j, "ix"), gb(j, "short"), static_cast<size_t>(gi(op, "len"))};
    recs.push_back(r);
    Ev e("rec");
    echo(e, op);
  }
  void open(const J& op) {
    for (auto& r : recs)
      if (!streams.count(r.s)) {
        streams[r.s] = std::make_unique<Stream>(r.s);
        streams[r.s]->setCompression(static_cast<CompressionPreset>(gi(op, "comp")));
      }
    {
      RecordFileWriter w;
      for (auto& x : streams)
        w.addRecordable(x.second.get());
      for (auto& x : streams) {
        x.second->setRecordableIsActive(true);
        ids[x.first] = x.second->getStreamId();
      }
      for (auto& r : recs) {
        Stream& st = *streams[r.s];
        vector<uint8_t> b = encode(r);
        if (r.ty != 3 || r.ix < 0) {
          st.createRecord(when(r.ts), static_cast<Record::Type>(r.ty), 2, DataSource(DataSourceChunk(b)));
          continue;
        }
        st.layout.width.set(kW);
        st.layout.height.set(kH);
        st.layout.pixel.set(PixelFormat::GREY8);
        st.layout.keyTime.set(when(r.g));
        st.layout.keyIndex.set(static_cast<uint32_t>(r.ix));
        st.layout.size.set(static_cast<uint32_t>(b.size() + (r.isShort ? 9 : 0)));
        st.createRecord(when(r.ts), Record::Type::DATA, 1, DataSource(st.layout, DataSourceChunk(b)));
      }
      path = newDir("video") + "/f.vrs";
      w.writeToFile(path);
    }
    hw = gb(op, "hw");
    selecting = gb(op, "selecting");
    reader = std::make_unique<RecordFileReader>();
    int rc = reader->openFile(path);
    bool one = gb(op, "one");
    Player* shared{};
    for (auto& x : ids) {
      if (!one || !shared) {
        players[x.first] = std::make_unique<Player>(*this, hw);
        shared = players[x.first].get();
      }
      reader->setStreamPlayer(x.second, shared);
    }
    Ev e("open");
    e.i("rc", rc).i("n", static_cast<int64_t>(reader->getRecordCount()));
    echo(e, op);
  }
  void start(const J& op) {
    fails.clear();
    if (op.HasMember("fails"))
      for (auto& x : op["fails"].GetArray())
        fails.insert(x.GetInt());
    given = 0;
    optionsOk = true;
    log.clear();
    tries.clear();
  }
  void read(const J& op) {
    start(op);
    const R& r = recs[static_cast<size_t>(gi(op, "n")) - 1];
    const IndexRecord::RecordInfo* info{};
    for (auto& x : reader->getIndex())
      if (x.streamId == ids[r.s] && x.timestamp == when(r.ts) && static_cast<int>(x.recordType) == r.ty)
        info = &x;
    api = static_cast<int>(gi(op, "api"));
    late = gb(op, "late");
    int c = static_cast<int>(gi(op, "catch"));
    catching = late ? 0 : c;
    int rc = reader->readRecord(*info);
    if (late && c != 0) {
      rc = playerOf(r.s)->readMissingFrames(*reader, *info, c == 1);
    }
    Ev e("read");
    e.i("rc", rc).list("log", log).list("tries", tries).b("options", optionsOk).raw("state", state());
    echo(e, op);
  }
  void reset(const J& op) {
    start(op);
    int s = static_cast<int>(gi(op, "s"));
    for (auto& x : ids)
      if (s == 0)
        playerOf(x.first)->resetVideoFrameHandler();
      else if (s == x.first)
        playerOf(s)->resetVideoFrameHandler(x.second);
    Ev e("reset");
    e.list("log", log).raw("state", state());
    echo(e, op);
  }
};

int Decoder::decode(const vector<uint8_t>& in, void* out, const ImageContentBlockSpec& spec) {
  return current->give("decode", in, out, spec) ? 0 : domainError(DecodeStatus::DecoderError);
}
void Decoder::flush() {
  current->call("flush", s, -1, -1, true);
}
// as the library's video decoder, one is kept once it has decoded the frame
std::unique_ptr<utils::DecoderI> maker(const vector<uint8_t>& in, void* out, const ImageContentBlockSpec& spec, const utils::DecoderOptions& options) {
  if (spec.getCodecName() != kCodec)
    return nullptr;
  current->optionsOk = current->optionsOk && options.useHwCodecs == current->hw;
  if (!current->selecting && !current->give("make", in, out, spec))
    return nullptr;
  auto d = std::make_unique<Decoder>();
  d->s = in[0];
  return d;
}

bool Player::onImageRead(const CurrentRecord& rec, size_t, const ContentBlock& cb) {
  const R* r{};
  for (auto& x : w.recs)
    if (x.ty == 3 && w.ids[x.s] == rec.streamId && when(x.ts) == rec.timestamp)
      r = &x;
  vector<uint8_t> raw(size_t(kW) * kH, 0);
  string rc;
  bool data = true;
  if (w.api == 0 || w.api == 1) {
    int s = w.api == 0 ? tryToDecodeFrame(raw.data(), rec, cb) : tryToDecodeFrame(w.frame, rec, cb);
    rc = s == 0                                                  ? "ok"
        : s == domainError(DecodeStatus::FrameSequenceError)     ? "sequence"
        : s == domainError(DecodeStatus::DecoderError)           ? "decoder"
        : s == domainError(DecodeStatus::CodecNotFound)          ? "codec"
                                                                 : "read";
  } else if (w.api == 2) {
    rc = readFrame(w.frame, rec, cb) ? "ok" : "fail";
  } else {
    utils::PixelFrame f;
    rc = f.readDiskImageData(rec.reader, cb) && f.decompressImage(&getVideoFrameHandler(rec.streamId)) ? "ok" : "fail";
    w.frame = std::move(f);
  }
  if (w.api != 0)
    raw = w.frame.getBuffer();
  if (rc == "ok" && r) {
    data = raw.size() == size_t(kW) * kH && (w.api == 0 || (w.frame.getPixelFormat() == PixelFormat::GREY8 && w.frame.getWidth() == kW && w.frame.getHeight() == kH));
    for (size_t k = 0; k < raw.size() && data; k++)
      data = raw[k] == pixel(*r, k);
  }
  w.tries.push_back(
      "{\"s\":" + std::to_string(r ? r->s : 0) + ",\"g\":" + std::to_string(r ? r->g : -2) + ",\"ix\":" + std::to_string(r ? r->ix : -2) + ",\"rc\":\"" + rc + "\",\"during\":" + (whileReadingMissingFrames() ? "true" : "false") +
      ",\"data\":" + (data ? "true" : "false") + "}");
  return rc == "ok";
}
int Player::recordReadComplete(RecordFileReader& f, const IndexRecord::RecordInfo& r) {
  return w.catching ? readMissingFrames(f, r, w.catching == 1) : 0;
}

void run(const vector<const J*>& ops) {
  static const bool once = [] {
    utils::DecoderFactory::get().registerDecoderMaker(utils::DecoderMaker{maker});
    return true;
  }();
  (void)once;
  World w;
  current = &w;
  for (const J* o : ops) {
    string k = gs(*o, "op");
    if (k == "begin") {
      Ev e("begin");
      echo(e, *o);
    } else if (k == "rec") {
      w.rec(*o);
    } else if (k == "open") {
      w.open(*o);
    } else if (k == "read") {
      w.read(*o);
    } else if (k == "reset") {
      w.reset(*o);
    }
  }
}
RegisterMode reg("video", run);

} // namespace
} // namespace vd
