// Mode "format": record formats as text, sizes of blocks, and records given to a player block by block.
#include "recutil.h"

#include <vrs/DataLayout.h>
#include <vrs/DataLayoutConventions.h>
#include <vrs/DataPieces.h>
#include <vrs/RecordFormat.h>
#include <vrs/RecordFormatStreamPlayer.h>
#include <vrs/utils/FilterCopy.h>
#include <vrs/utils/FilterCopyHelpers.h>
#include <vrs/utils/Validation.h>

using namespace vrs;
namespace vd {
namespace {

string codes(const string& s) {
  string r = "[";
  for (size_t k = 0; k < s.size(); k++)
    r += (k ? "," : "") + std::to_string(static_cast<uint8_t>(s[k]));
  return r + "]";
}
template <class C>
string list(const C& c) {
  string r = "[";
  for (const auto& x : c)
    r += (r.size() > 1 ? "," : "") + x;
  return r + "]";
}
string fromCodes(const J& a) {
  string s;
  for (auto& x : a.GetArray())
    s.push_back(static_cast<char>(x.GetInt()));
  return s;
}
int64_t known(size_t n) {
  return n == ContentBlock::kSizeUnknown ? -1 : static_cast<int64_t>(n);
}

// ---- blocks
ContentBlock makeBlock(const J& j) {
  size_t size = gi(j, "size") < 0 ? ContentBlock::kSizeUnknown : static_cast<size_t>(gi(j, "size"));
  auto t = static_cast<ContentType>(gi(j, "t"));
  if (t == ContentType::IMAGE) {
    const J& g = j["img"];
    auto n = [&](int k) { return static_cast<uint32_t>(g[k].GetInt64()); };
    string codec = fromCodes(j["codec"]);
    auto f = static_cast<ImageFormat>(n(0));
    auto p = static_cast<PixelFormat>(n(1));
    int how = static_cast<int>(gi(j, "how"));
    if (f == ImageFormat::UNDEFINED)
      return how ? ContentBlock(ContentType::IMAGE, size) : ContentBlock(ImageContentBlockSpec(), size);
    if (how && f == ImageFormat::RAW && size == ContentBlock::kSizeUnknown)
      return ContentBlock(p, n(2), n(3), n(4), n(5));
    bool key = g[7].GetInt64() >= 0;
    if (how && f == ImageFormat::VIDEO) {
      ContentBlock b(ImageContentBlockSpec(codec, static_cast<uint8_t>(n(6)), p, n(2), n(3), n(4), n(5)), size);
      return key ? ContentBlock(b, g[7].GetInt64() / 4., n(8)) : b;
    }
    if (how && f == ImageFormat::CUSTOM_CODEC)
      return ContentBlock(ImageContentBlockSpec(f, codec, static_cast<uint8_t>(n(6)), p, n(2), n(3), n(4), n(5)), size);
    if (how && p == PixelFormat::UNDEFINED && codec.empty() && n(6) == 255 && n(4) == 0 && n(5) == 0 && !key && size == ContentBlock::kSizeUnknown)
      return ContentBlock(f, n(2), n(3));
    return ContentBlock(
        ImageContentBlockSpec(f, p, n(2), n(3), n(4), n(5), codec, static_cast<uint8_t>(n(6)), key ? g[7].GetInt64() / 4. : ImageContentBlockSpec::kInvalidTimestamp, n(8)), size);
  }
  if (t == ContentType::AUDIO) {
    const J& a = j["aud"];
    auto n = [&](int k) { return static_cast<uint32_t>(a[k].GetInt64()); };
    auto f = static_cast<AudioFormat>(n(0));
    if (f == AudioFormat::UNDEFINED)
      return ContentBlock(ContentType::AUDIO, size);
    auto u8 = [&](int k) { return static_cast<uint8_t>(n(k)); };
    if (n(1) == 0 && n(3) == 0 && n(4) == 0 && n(5) == 0 && size == ContentBlock::kSizeUnknown)
      return ContentBlock(f, u8(2));
    return ContentBlock(AudioContentBlockSpec(f, static_cast<AudioSampleFormat>(n(1)), u8(2), u8(3), n(4), n(5)), size);
  }
  if (t == ContentType::CUSTOM) {
    string name = fromCodes(j["name"]);
    return name.empty() ? ContentBlock(CustomContentBlock(size)) : ContentBlock(CustomContentBlock(name, size));
  }
  return ContentBlock(t, size);
}
string showBlock(const ContentBlock& b) {
  auto t = b.getContentType();
  string img = "[]", codec = "[]", aud = "[]", name = "[]";
  auto n = [](int64_t v) { return std::to_string(v); };
  if (t == ContentType::IMAGE) {
    const auto& g = b.image();
    double ts = g.getKeyFrameTimestamp();
    bool key = ts != ImageContentBlockSpec::kInvalidTimestamp;
    int64_t q = key ? static_cast<int64_t>(std::llround(ts * 4)) : -1;
    img = list(vector<string>{n(static_cast<int>(g.getImageFormat())), n(static_cast<int>(g.getPixelFormat())), n(g.getWidth()), n(g.getHeight()), n(g.getStride()), n(g.getPlaneStride(1)),
                              n(g.getCodecQuality()), n(q), n(g.getKeyFrameIndex())});
    codec = codes(g.getCodecName());
  }
  if (t == ContentType::AUDIO) {
    const auto& a = b.audio();
    aud = list(vector<string>{n(static_cast<int>(a.getAudioFormat())), n(static_cast<int>(a.getSampleFormat())), n(a.getChannelCount()), n(a.getSampleFrameStride()), n(a.getSampleRate()), n(a.getSampleCount())});
  }
  if (t == ContentType::CUSTOM)
    name = codes(b.getCustomContentBlockFormat());
  return "{\"t\":" + n(static_cast<int>(t)) + ",\"size\":" + n(known(b.getBlockSize())) + ",\"img\":" + img + ",\"codec\":" + codec + ",\"aud\":" + aud + ",\"name\":" + name + "}";
}
RecordFormat makeFormat(const J& blocks) {
  RecordFormat f;
  for (auto& x : blocks.GetArray())
    (void)(f + makeBlock(x));
  return f;
}
string showFormat(const RecordFormat& f, size_t n) {
  vector<string> v;
  for (size_t k = 0; k < n; k++)
    v.push_back(showBlock(f.getContentBlock(k)));
  return list(v);
}
size_t blockCount(const RecordFormat& f) {
  size_t n = 0;
  for (auto t : {ContentType::CUSTOM, ContentType::EMPTY, ContentType::DATA_LAYOUT, ContentType::IMAGE, ContentType::AUDIO})
    n += f.getBlocksOfTypeCount(t);
  return n;
}

void text(const J& op) {
  RecordFormat f = makeFormat(op["blocks"]);
  size_t n = op["blocks"].Size();
  string s = f.asString();
  RecordFormat g(s);
  vector<string> rem, sizes;
  for (size_t k = 0; k <= n; k++)
    rem.push_back(std::to_string(known(f.getRemainingBlocksSize(k))));
  for (size_t k = 0; k < n; k++) {
    vector<string> v;
    for (auto& x : op["lefts"].GetArray())
      v.push_back(std::to_string(known(f.getBlockSize(k, static_cast<size_t>(x.GetInt64())))));
    sizes.push_back(list(v));
  }
  bool same = f == g && !(f != g) && g == f && blockCount(f) == n && blockCount(g) == (n ? n : 1) && known(f.getRecordSize()) == known(f.getRemainingBlocksSize(0));
  // each block on its own
  for (size_t k = 0; k < n; k++)
    same = same && ContentBlock(f.getContentBlock(k).asString()) == f.getContentBlock(k);
  Ev e("text");
  e.s("str", s).s("again", g.asString()).b("same", same).i("used", static_cast<int64_t>(f.getUsedBlocksCount()));
  e.raw("got", showFormat(f, n)).raw("parsed", showFormat(g, blockCount(g))).list("rem", rem).list("sizes", sizes);
  echo(e, op);
}

void tag(const J& op) {
  auto type = static_cast<Record::Type>(gi(op, "type"));
  auto ver = static_cast<uint32_t>(gi(op, "ver"));
  string name = RecordFormat::getRecordFormatTagName(type, ver);
  Record::Type t{};
  uint32_t v{0};
  bool ok = RecordFormat::parseRecordFormatTagName(name, t, v);
  // close to a name, and not one
  vector<string> bad;
  for (const string& s : {name.substr(1), name + "x", name + ":", " " + name, "DL" + name.substr(2), "rf" + name.substr(2), name.substr(0, name.find_last_of(':')), name.substr(0, name.find_last_of(':') + 1),
                          name.substr(0, 3) + "x" + name.substr(4), RecordFormat::getDataLayoutTagName(type, ver, 0), string(), string("RF:")}) {
    Record::Type t2{};
    uint32_t v2{0};
    if (RecordFormat::parseRecordFormatTagName(s, t2, v2))
      bad.push_back(jstr(s));
  }
  Ev e("tag");
  e.s("name", name).s("lname", RecordFormat::getDataLayoutTagName(type, ver, static_cast<size_t>(gi(op, "blk")))).b("ok", ok).i("t", static_cast<int>(t)).i("v", v).list("bad", bad);
  echo(e, op);
}

// ---- layouts made of fields with conventional names
constexpr const char* kOther = "other";
constexpr const char* kOtherText = "other_text";
enum Kind { U32, U8, F64, TEXT, PIX, AFMT, SFMT };
struct FieldDef {
  Kind kind;
  const char* label;
};
namespace dc = datalayout_conventions;
FieldDef def(int f) {
  static const FieldDef defs[] = {
      {U32, ""}, {U32, dc::kImageWidth}, {U32, dc::kImageHeight}, {U32, dc::kImageStride}, {U32, dc::kImageStride2}, {PIX, dc::kImagePixelFormat}, {TEXT, dc::kImageCodecName},
      {U32, dc::kImageCodecQuality}, {U32, dc::kImageBytesPerPixel}, {U8, dc::kImageBytesPerPixel}, {F64, dc::kImageKeyFrameTimeStamp}, {U32, dc::kImageKeyFrameIndex},
      {AFMT, dc::kAudioFormat}, {SFMT, dc::kAudioSampleFormat}, {U8, dc::kAudioSampleFrameStride}, {U8, dc::kAudioChannelCount}, {U32, dc::kAudioSampleRate}, {U32, dc::kAudioSampleCount},
      {U8, dc::kAudioStereoPairCount}, {U32, dc::kNextContentBlockSize}, {U32, kOther}, {TEXT, kOtherText}, {U8, dc::kImageWidth}};
  return defs[f];
}
struct Layout {
  ManualDataLayout l;
  vector<std::unique_ptr<DataPiece>> hold;
  vector<int> fields;
  explicit Layout(const vector<int>& fs) : fields{fs} {
    for (int f : fs) {
      FieldDef d = def(f);
      DataPiece* p{};
      switch (d.kind) {
        case U32:
          p = new DataPieceValue<uint32_t>(d.label);
          break;
        case U8:
          p = new DataPieceValue<uint8_t>(d.label);
          break;
        case F64:
          p = new DataPieceValue<double>(d.label);
          break;
        case TEXT:
          p = new DataPieceString(d.label);
          break;
        case PIX:
          p = new DataPieceEnum<PixelFormat, uint32_t>(d.label);
          break;
        case AFMT:
          p = new DataPieceEnum<AudioFormat, uint8_t>(d.label);
          break;
        case SFMT:
          p = new DataPieceEnum<AudioSampleFormat, uint8_t>(d.label);
          break;
      }
      l.add(std::unique_ptr<DataPiece>(p));
      pieces.push_back(p);
    }
    l.endLayout();
  }
  vector<DataPiece*> pieces;
  void set(size_t k, const J& v) {
    vector<int64_t> n;
    for (auto& x : v.GetArray())
      n.push_back(x.GetInt64());
    set(k, n);
  }
  void set(size_t k, const vector<int64_t>& v) {
    int64_t n = def(fields[k]).kind == TEXT ? 0 : v[0];
    switch (def(fields[k]).kind) {
      case U32:
        static_cast<DataPieceValue<uint32_t>*>(pieces[k])->set(static_cast<uint32_t>(n));
        break;
      case U8:
        static_cast<DataPieceValue<uint8_t>*>(pieces[k])->set(static_cast<uint8_t>(n));
        break;
      case F64:
        static_cast<DataPieceValue<double>*>(pieces[k])->set(n / 4.);
        break;
      case TEXT:
        static_cast<DataPieceString*>(pieces[k])->stage(string(v.begin(), v.end()));
        break;
      case PIX:
        static_cast<DataPieceEnum<PixelFormat, uint32_t>*>(pieces[k])->set(static_cast<PixelFormat>(n));
        break;
      case AFMT:
        static_cast<DataPieceEnum<AudioFormat, uint8_t>*>(pieces[k])->set(static_cast<AudioFormat>(n));
        break;
      case SFMT:
        static_cast<DataPieceEnum<AudioSampleFormat, uint8_t>*>(pieces[k])->set(static_cast<AudioSampleFormat>(n));
        break;
    }
  }
};
template <class T>
string value(DataLayout& dl, const char* label) {
  auto* p = dl.findDataPieceValue<T>(label);
  T v{};
  return p && p->get(v) ? "[" + std::to_string(static_cast<int64_t>(v)) + "]" : "[-1]";
}
string valueOf(DataLayout& dl, int f) {
  FieldDef d = def(f);
  switch (d.kind) {
    case U32:
    case PIX:
      return value<uint32_t>(dl, d.label);
    case F64: {
      auto* p = dl.findDataPieceValue<double>(d.label);
      return p ? "[" + std::to_string(std::llround(p->get() * 4)) + "]" : "[-1]";
    }
    case TEXT: {
      auto* p = dl.findDataPieceString(d.label);
      string s;
      return p && p->get(s) ? codes(s) : "[-1]";
    }
    default:
      return value<uint8_t>(dl, d.label);
  }
}

struct Fmt {
  int type, ver;
  RecordFormat f;
  vector<vector<int>> fields; // per block; {-1} when none
};
struct R {
  int s, type, ver;
  double ts;
  vector<uint8_t> bytes;
  vector<int64_t> lens;
  vector<vector<uint8_t>> blocks;
  vector<vector<vector<int64_t>>> vals;
};

struct Player : RecordFormatStreamPlayer {
  const vector<Fmt>* fmts{};
  const R* rec{};
  int stop{0};
  bool eat{false}, unsup{true};
  std::set<string> plain;
  vector<string> calls;
  vector<uint8_t> buf;
  uint32_t leftAfter{0};

  void call(const char* k, size_t i, uint32_t left, const string& b, bool ok, const string& vals = "[]") {
    calls.push_back(string("{\"k\":\"") + k + "\",\"i\":" + std::to_string(i) + ",\"left\":" + std::to_string(left) + ",\"b\":" + b + ",\"ok\":" + (ok ? "true" : "false") + ",\"vals\":" + vals + "}");
  }
  bool stopsAt(size_t i) const {
    return stop == static_cast<int>(i) + 1;
  }
  bool take(const char* k, const CurrentRecord& r, size_t i, const ContentBlock& cb) {
    uint32_t left = r.reader->getUnreadBytes();
    size_t n = cb.getBlockSize();
    bool right = i < rec->lens.size() && n == static_cast<size_t>(rec->lens[i]);
    bool eats = (!stopsAt(i) || eat) && right, ok = false;
    if (eats) {
      vector<uint8_t> data(n);
      size_t off = rec->bytes.size() - left;
      ok = r.reader->read(data) == 0 && n <= left && (n == 0 || memcmp(data.data(), rec->bytes.data() + off, n) == 0);
    }
    call(k, i, left, showBlock(cb), ok);
    return eats && !stopsAt(i);
  }
  bool onImageRead(const CurrentRecord& r, size_t i, const ContentBlock& cb) override {
    return plain.count("image") ? RecordFormatStreamPlayer::onImageRead(r, i, cb) : take("image", r, i, cb);
  }
  bool onAudioRead(const CurrentRecord& r, size_t i, const ContentBlock& cb) override {
    return plain.count("audio") ? RecordFormatStreamPlayer::onAudioRead(r, i, cb) : take("audio", r, i, cb);
  }
  bool onCustomBlockRead(const CurrentRecord& r, size_t i, const ContentBlock& cb) override {
    return plain.count("custom") ? RecordFormatStreamPlayer::onCustomBlockRead(r, i, cb) : take("custom", r, i, cb);
  }
  bool onUnsupportedBlock(const CurrentRecord& r, size_t i, const ContentBlock& cb) override {
    call("unsup", i, r.reader->getUnreadBytes(), showBlock(cb), false);
    size_t n = cb.getBlockSize();
    if (!unsup || stopsAt(i) || (n != ContentBlock::kSizeUnknown && n != static_cast<size_t>(rec->lens[i])))
      return false;
    return RecordFormatStreamPlayer::onUnsupportedBlock(r, i, cb);
  }
  bool onDataLayoutRead(const CurrentRecord& r, size_t i, DataLayout& dl) override {
    vector<string> vals;
    for (auto& f : *fmts)
      if (f.type == static_cast<int>(r.recordType) && f.ver == static_cast<int>(r.formatVersion) && i < f.fields.size())
        for (int x : f.fields[i])
          vals.push_back(valueOf(dl, x));
    auto* cur = getCurrentRecordFormatReader();
    call("layout", i, r.reader->getUnreadBytes(), cur ? showBlock(cur->recordFormat.getContentBlock(i)) : "0", true, list(vals));
    return !stopsAt(i);
  }
  // records without a format
  bool header(const CurrentRecord& r, DataReference& ref) {
    buf.assign(r.recordSize, 0);
    ref.useVector(buf);
    return r.recordSize > 0;
  }
  void whole(const CurrentRecord& r, uint32_t n) {
    call("classic", 0, static_cast<uint32_t>(rec->bytes.size()), showBlock(ContentBlock(ContentType::EMPTY)), n == rec->bytes.size() && buf == rec->bytes);
    leftAfter = r.reader->getUnreadBytes();
  }
  bool processDataHeader(const CurrentRecord& r, DataReference& d) override {
    return header(r, d);
  }
  void processData(const CurrentRecord& r, uint32_t n) override {
    whole(r, n);
  }
  bool processConfigurationHeader(const CurrentRecord& r, DataReference& d) override {
    return header(r, d);
  }
  void processConfiguration(const CurrentRecord& r, uint32_t n) override {
    whole(r, n);
  }
  bool processStateHeader(const CurrentRecord& r, DataReference& d) override {
    return header(r, d);
  }
  void processState(const CurrentRecord& r, uint32_t n) override {
    whole(r, n);
  }
  int recordReadComplete(RecordFileReader&, const IndexRecord::RecordInfo&) override {
    return 0;
  }
  void processRecord(const CurrentRecord& r, uint32_t n) override {
    RecordFormatStreamPlayer::processRecord(r, n);
    leftAfter = r.reader->getUnreadBytes();
  }
};

// ---- copying with a filter that rewrites records
struct Edits {
  std::set<int> verb, skip, hdr;
  map<double, int> number; // of records, by time
  map<int, vector<int64_t>> values; // of edited fields
  double shift{0};
  int typeShift{0};
};
struct EditedFields : AutoDataLayout {
  DataPieceValue<uint32_t> width{dc::kImageWidth};
  DataPieceString codec{dc::kImageCodecName};
  DataPieceValue<uint32_t> size{dc::kNextContentBlockSize};
  DataPieceValue<uint8_t> channels{dc::kAudioChannelCount};
  DataPieceValue<uint32_t> other{kOther};
  DataPieceString text{kOtherText};
  AutoDataLayoutEnd end;
};
struct Rewriter : utils::RecordFilterCopier {
  const Edits& ed;
  Rewriter(RecordFileReader& r, RecordFileWriter& w, StreamId id, const utils::CopyOptions& o, const Edits& e)
      : RecordFilterCopier(r, w, id, static_cast<RecordableTypeId>(static_cast<int>(id.getTypeId()) + e.typeShift), o), ed{e} {}
  int numberOf(const CurrentRecord& r) const {
    auto it = ed.number.find(r.timestamp);
    return it == ed.number.end() ? -1 : it->second;
  }
  bool shouldCopyVerbatim(const CurrentRecord& r) override {
    return ed.verb.count(numberOf(r)) > 0;
  }
  void doHeaderEdits(CurrentRecord& r) override {
    if (ed.hdr.count(numberOf(r)))
      r.formatVersion += 10;
    r.timestamp += ed.shift;
  }
  void doDataLayoutEdits(const CurrentRecord& r, size_t i, DataLayout& dl) override {
    if (ed.skip.count(numberOf(r)))
      skipRecord();
    auto& f = getExpectedLayout<EditedFields>(dl, i);
    for (auto& x : ed.values) {
      auto patch = [&](auto& piece) {
        if (piece.isMapped())
          piece.patchValue(static_cast<std::decay_t<decltype(piece.get())>>(x.second[0]));
      };
      auto patchText = [&](DataPieceString& piece) {
        if (piece.isMapped())
          piece.patchValue(string(x.second.begin(), x.second.end()));
      };
      switch (x.first) {
        case 1:
          patch(f.width);
          break;
        case 6:
          patchText(f.codec);
          break;
        case 15:
          patch(f.channels);
          break;
        case 19:
          patch(f.size);
          break;
        case 20:
          patch(f.other);
          break;
        case 21:
          patchText(f.text);
          break;
      }
    }
  }
};
struct RawPlayer : StreamPlayer {
  vector<uint8_t> buf;
  uint32_t ver{0};
  bool processRecordHeader(const CurrentRecord& r, DataReference& ref) override {
    ver = r.formatVersion;
    buf.assign(r.recordSize, 0);
    ref.useVector(buf);
    return true;
  }
};

struct Stream : Recordable {
  using Recordable::createRecord;
  Stream(int s, int shared) : Recordable(static_cast<RecordableTypeId>(shared ? 200 : 200 + s), "f") {}
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

struct World {
  map<int, std::unique_ptr<Stream>> streams;
  map<int, vector<Fmt>> fmts;
  map<int, StreamId> ids;
  vector<R> recs;
  string path;
  bool written{false};
  std::unique_ptr<RecordFileReader> reader;
  map<int, std::unique_ptr<Player>> players;
  vector<std::unique_ptr<Player>> old;

  void stream(const J& op) {
    int s = static_cast<int>(gi(op, "s"));
    auto& st = streams[s] = std::make_unique<Stream>(s, static_cast<int>(gi(op, "shared")));
    st->setCompression(static_cast<CompressionPreset>(gi(op, "comp")));
    vector<string> oks;
    for (auto& j : op["formats"].GetArray()) {
      Fmt f{static_cast<int>(gi(j, "type")), static_cast<int>(gi(j, "ver")), makeFormat(j["blocks"]), {}};
      vector<std::unique_ptr<Layout>> hold;
      vector<const DataLayout*> ls;
      for (auto& x : j["fields"].GetArray()) {
        vector<int> v;
        for (auto& y : x.GetArray())
          v.push_back(y.GetInt());
        f.fields.push_back(v);
        if (v.size() == 1 && v[0] == -1) {
          ls.push_back(nullptr);
        } else {
          hold.push_back(std::make_unique<Layout>(v));
          ls.push_back(&hold.back()->l);
        }
      }
      oks.push_back(st->addRecordFormat(static_cast<Record::Type>(f.type), static_cast<uint32_t>(f.ver), f.f, ls) ? "true" : "false");
      fmts[s].push_back(std::move(f));
    }
    Ev e("stream");
    e.list("okf", oks);
    echo(e, op);
  }

  void rec(const J& op) {
    R r{static_cast<int>(gi(op, "s")), static_cast<int>(gi(op, "type")), static_cast<int>(gi(op, "ver")), gi(op, "ts") / 4., {}, {}, {}, {}};
    Fmt* f{};
    for (auto& x : fmts[r.s])
      if (x.type == r.type && x.ver == r.ver)
        f = &x;
    for (size_t k = 0; k < op["lens"].Size(); k++) {
      int64_t n = op["lens"][static_cast<unsigned>(k)].GetInt64();
      vector<uint8_t> b;
      if (n == -1 && f) {
        Layout l(f->fields[k]);
        for (size_t i = 0; i < l.fields.size(); i++)
          l.set(i, op["vals"][static_cast<unsigned>(k)][static_cast<unsigned>(i)]);
        DataLayoutChunk c(l.l);
        b.resize(c.size());
        uint8_t* p = b.data();
        c.fillAndAdvanceBuffer(p);
      } else {
        b = payload(static_cast<uint32_t>(recs.size() * 64 + k + 1), static_cast<size_t>(n), static_cast<int>(gi(op, "kind")));
      }
      r.lens.push_back(static_cast<int64_t>(b.size()));
      r.blocks.push_back(b);
      r.bytes.insert(r.bytes.end(), b.begin(), b.end());
    }
    Ev e("rec");
    e.ints("lens", r.lens).i("s", r.s).i("type", r.type).i("ver", r.ver).i("ts", gi(op, "ts"));
    string vals = "[";
    for (auto& x : op["vals"].GetArray()) {
      vector<string> v;
      r.vals.emplace_back();
      for (auto& y : x.GetArray()) {
        vector<string> w;
        r.vals.back().emplace_back();
        for (auto& z : y.GetArray()) {
          w.push_back(std::to_string(z.GetInt64()));
          r.vals.back().back().push_back(z.GetInt64());
        }
        v.push_back(list(w));
      }
      vals += (vals.size() > 1 ? "," : "") + list(v);
    }
    e.raw("vals", vals + "]");
    recs.push_back(std::move(r));
  }

  void write() {
    RecordFileWriter w;
    for (auto& x : streams)
      w.addRecordable(x.second.get());
    for (auto& x : streams) {
      x.second->setRecordableIsActive(true);
      ids[x.first] = x.second->getStreamId();
    }
    for (auto& r : recs)
      streams[r.s]->createRecord(r.ts, static_cast<Record::Type>(r.type), static_cast<uint32_t>(r.ver), DataSource(DataSourceChunk(r.bytes)));
    path = newDir("format") + "/f.vrs";
    w.writeToFile(path);
    written = true;
  }

  // what a block of a copied record is: 0 as it was, 1 as edited
  bool match(const R& r, size_t k, const vector<uint8_t>& got, size_t& off, const vector<uint8_t>& want) {
    if (got.size() - off < want.size() || (!want.empty() && memcmp(got.data() + off, want.data(), want.size()) != 0))
      return false;
    off += want.size();
    return true;
  }
  vector<uint8_t> edited(const R& r, size_t k, const Edits& ed) {
    for (auto& x : fmts[r.s])
      if (x.type == r.type && x.ver == r.ver && k < x.fields.size() && k < r.vals.size() && !x.fields[k].empty() && x.fields[k][0] != -1) {
        Layout l(x.fields[k]);
        for (size_t i = 0; i < l.fields.size(); i++) {
          l.set(i, r.vals[k][i]);
          if (auto it = ed.values.find(l.fields[i]); it != ed.values.end())
            l.set(i, it->second);
        }
        DataLayoutChunk c(l.l);
        vector<uint8_t> b(c.size());
        uint8_t* p = b.data();
        c.fillAndAdvanceBuffer(p);
        return b;
      }
    return {};
  }
  void fcopy(const J& op) {
    if (!written)
      write();
    Edits ed;
    for (auto& x : op["verb"].GetArray())
      ed.verb.insert(x.GetInt());
    for (auto& x : op["skip"].GetArray())
      ed.skip.insert(x.GetInt());
    for (auto& x : op["hdr"].GetArray())
      ed.hdr.insert(x.GetInt());
    for (auto& x : op["edits"].GetArray()) {
      auto& v = ed.values[x[0].GetInt()];
      for (auto& y : x[1].GetArray())
        v.push_back(y.GetInt64());
    }
    for (size_t k = 0; k < recs.size(); k++)
      ed.number[recs[k].ts] = static_cast<int>(k + 1);
    ed.shift = gi(op, "shift") / 4.;
    ed.typeShift = static_cast<int>(gi(op, "newt"));
    utils::FilteredFileReader src(path);
    int rc = src.openFile(utils::RecordFilterParams());
    string to = newDir("fcopy") + "/c.vrs";
    utils::CopyOptions options(false);
    options.setCompressionPreset(static_cast<CompressionPreset>(gi(op, "comp")));
    options.compressionPoolSize = static_cast<uint32_t>(gi(op, "pool"));
    if (rc == 0)
      rc = utils::filterCopy(src, to, options, [&](RecordFileReader& r, RecordFileWriter& w, StreamId id, const utils::CopyOptions& o) {
        return std::unique_ptr<StreamPlayer>(new Rewriter(r, w, id, o, ed));
      });
    RecordFileReader copy;
    if (rc == 0)
      rc = copy.openFile(to);
    vector<string> got;
    bool types = true;
    if (rc == 0) {
      map<StreamId, int> byId;
      for (auto& x : ids)
        byId[x.second] = x.first;
      vector<std::pair<StreamId, int>> was(byId.begin(), byId.end());
      map<StreamId, int> stream;
      for (auto id : copy.getStreams()) {
        size_t k = stream.size();
        stream[id] = k < was.size() ? was[k].second : -1;
        types = types && k < was.size() && static_cast<int>(id.getTypeId()) == static_cast<int>(was[k].first.getTypeId()) + ed.typeShift;
      }
      types = types && stream.size() == was.size();
      map<StreamId, RawPlayer> players2;
      for (auto id : copy.getStreams())
        copy.setStreamPlayer(id, &players2[id]);
      for (auto& info : copy.getIndex()) {
        auto& p = players2[info.streamId];
        p.buf.assign(1, '?');
        bool ok = copy.readRecord(info) == 0;
        auto it = ed.number.find(info.timestamp - ed.shift);
        int num = it == ed.number.end() ? -1 : it->second;
        vector<string> flags;
        if (num > 0 && ok) {
          const R& r = recs[static_cast<size_t>(num) - 1];
          size_t off = 0;
          for (size_t k = 0; k < r.blocks.size(); k++) {
            if (match(r, k, p.buf, off, r.blocks[k])) {
              flags.push_back("0");
            } else if (auto b = edited(r, k, ed); !b.empty() && match(r, k, p.buf, off, b)) {
              flags.push_back("1");
            } else {
              flags.push_back("-1");
              break;
            }
          }
          if (off != p.buf.size())
            flags.push_back("-2");
        }
        got.push_back(
            "{\"n\":" + std::to_string(num) + ",\"type\":" + std::to_string(static_cast<int>(info.recordType)) + ",\"ver\":" + std::to_string(ok ? p.ver : 0) + ",\"s\":" + std::to_string(stream[info.streamId]) +
            ",\"flags\":" + list(flags) + "}");
      }
    }
    Ev e("fcopy");
    e.i("rc", rc).list("got", got).b("types", types);
    echo(e, op);
  }

  // everything decoded, as the command line does to check a file
  void decode(const J& op) {
    if (!written)
      write();
    utils::FilteredFileReader src(path);
    int rc = src.openFile(utils::RecordFilterParams());
    string r = rc == 0 ? utils::checkRecords(src, utils::CopyOptions(false), utils::CheckType::Decode) : "";
    unsigned long a = 0, b = 0;
    bool ok = sscanf(r.c_str(), "Decoded %lu records, %lu images", &a, &b) == 2;
    if (!ok && sscanf(r.c_str(), "Failure! Decoded %lu records out of %lu", &a, &b) != 2)
      a = b = 999999;
    Ev e("decode");
    e.b("ok", ok).i("decoded", static_cast<int64_t>(a)).i("n", static_cast<int64_t>(b));
    echo(e, op);
  }

  void open(const J& op) {
    if (!written)
      write();
    for (auto& p : players)
      old.push_back(std::move(p.second));
    players.clear();
    reader = std::make_unique<RecordFileReader>();
    int rc = reader->openFile(path);
    bool one = gb(op, "one");
    Player* shared{};
    vector<string> found;
    for (auto& x : ids) {
      if (!one || !shared) {
        players[x.first] = std::make_unique<Player>();
        shared = players[x.first].get();
      }
      reader->setStreamPlayer(x.second, shared);
      RecordFormatMap m;
      reader->getRecordFormats(x.second, m);
      for (auto& f : m)
        found.push_back(
            "{\"s\":" + std::to_string(x.first) + ",\"type\":" + std::to_string(static_cast<int>(f.first.first)) + ",\"ver\":" + std::to_string(f.first.second) + ",\"blocks\":" +
            showFormat(f.second, blockCount(f.second)) + "}");
    }
    Ev e("open");
    e.i("rc", rc).i("n", static_cast<int64_t>(reader->getRecordCount())).list("formats", found);
    echo(e, op);
  }

  void read(const J& op) {
    const R& r = recs[static_cast<size_t>(gi(op, "n")) - 1];
    const IndexRecord::RecordInfo* info{};
    for (auto& x : reader->getIndex())
      if (x.streamId == ids[r.s] && x.timestamp == r.ts && static_cast<int>(x.recordType) == r.type)
        info = &x;
    Player* p = players.count(r.s) ? players[r.s].get() : players.begin()->second.get();
    p->fmts = &fmts[r.s];
    p->rec = &r;
    p->stop = static_cast<int>(gi(op, "stop"));
    p->eat = gb(op, "eat");
    p->unsup = gb(op, "unsup");
    p->plain.clear();
    for (auto& x : op["plain"].GetArray())
      p->plain.insert(x.GetString());
    p->calls.clear();
    p->leftAfter = 0;
    int rc = info ? reader->readRecord(*info) : -7;
    Ev e("read");
    e.i("rc", rc).list("calls", p->calls).i("left", p->leftAfter);
    echo(e, op);
  }
};

void run(const vector<const J*>& ops) {
  World w;
  for (const J* o : ops) {
    string k = gs(*o, "op");
    if (k == "begin") {
      Ev e("begin");
      echo(e, *o);
    } else if (k == "text") {
      text(*o);
    } else if (k == "tag") {
      tag(*o);
    } else if (k == "stream") {
      w.stream(*o);
    } else if (k == "rec") {
      w.rec(*o);
    } else if (k == "open") {
      w.open(*o);
    } else if (k == "read") {
      w.read(*o);
    } else if (k == "fcopy") {
      w.fcopy(*o);
    } else if (k == "decode") {
      w.decode(*o);
    }
  }
}
RegisterMode reg("format", run);

} // namespace
} // namespace vd
