#include "recutil.h"

namespace vd {
map<uint32_t, Sig>& sigs() {
  static map<uint32_t, Sig> m;
  return m;
}
static std::mutex sSigMutex;

int contentOk(uint32_t id, const uint8_t* data, size_t size) {
  Sig s;
  {
    std::lock_guard<std::mutex> g(sSigMutex);
    auto it = sigs().find(id);
    if (it == sigs().end())
      return 0;
    s = it->second;
  }
  if (s.size != size)
    return 0;
  vector<uint8_t> p = payload(id, s.size, s.kind);
  return size == 0 || memcmp(p.data(), data, size) == 0 ? 1 : 0;
}

void CheckPlayer::processRecord(const vrs::CurrentRecord& r, uint32_t n) {
  int ok = n == r.recordSize && contentOk(r.formatVersion, buf.data(), n);
  if (on)
    on(r, ok);
}

const vrs::Record*
TestStream::createVia(int src, double ts, vrs::Record::Type t, uint32_t id, size_t size, int kind) {
  using namespace vrs;
  if (src == 0)
    return create(ts, t, id, size, kind);
  vector<uint8_t> p = payload(id, size, kind);
  size_t a = size / 3, b = size / 2;
  const uint8_t* d = p.data();
  switch (src) {
    case 1:
      return createRecord(ts, t, id, DataSource(DataSourceChunk(p)));
    case 2:
      return createRecord(ts, t, id, DataSource(DataSourceChunk(d, a), DataSourceChunk(d + a, size - a)));
    case 3:
      return createRecord(
          ts, t, id, DataSource(DataSourceChunk(d, a), DataSourceChunk(d + a, b - a), DataSourceChunk(d + b, size - b)));
    case 4: {
      size_t bs = 7, n = size / bs, stride = 11;
      vector<uint8_t> q(n * stride + 1, 0xAB);
      for (size_t k = 0; k < n; ++k)
        memcpy(q.data() + k * stride, d + k * bs, bs);
      NonContiguousChunk nc(q.data(), bs, n, stride);
      DataSourceChunk rest(d + n * bs, size - n * bs);
      return createRecord(ts, t, id, DataSource(nc, rest));
    }
    default: {
      size_t kept = src == 5 ? b : 0;
      DataSourceChunk first(d, kept);
      return createUncompressedRecord(
          ts, t, id, DataSource(first), std::make_unique<TestDirectData>(vector<uint8_t>(d + kept, d + size)));
    }
  }
}

string streamName(const vrs::StreamId& id) {
  return id.getNumericName();
}

vrs::CompressionPreset presetOf(const string& s) {
  using P = vrs::CompressionPreset;
  static const map<string, P> m = {
      {"none", P::None},
      {"lz4fast", P::Lz4Fast},
      {"lz4tight", P::Lz4Tight},
      {"zfaster", P::ZstdFaster},
      {"zfast", P::ZstdFast},
      {"zlight", P::ZstdLight},
      {"zmedium", P::ZstdMedium},
      {"zheavy", P::ZstdHeavy},
      {"zhigh", P::ZstdHigh},
      {"ztight", P::ZstdTight},
      {"zmax", P::ZstdMax},
      {"default", P::Default},
      {"undef", P::Undefined}};
  auto it = m.find(s);
  return it == m.end() ? P::Default : it->second;
}
} // namespace vd
