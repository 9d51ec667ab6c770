// Recording helpers shared by the driver modes.
#pragma once
#include "common.h"
#include <atomic>
#include <condition_variable>
#include <mutex>

#include <vrs/Compressor.h>
#include <vrs/DataSource.h>
#include <vrs/RecordFileReader.h>
#include <vrs/RecordFileWriter.h>
#include <vrs/Recordable.h>
#include <vrs/StreamPlayer.h>

namespace vd {

struct Sig { // what a record should contain
  size_t size{};
  int kind{};
};

// global table: id -> content signature
map<uint32_t, Sig>& sigs();

struct BlockGate {
  std::mutex m;
  std::condition_variable cv;
  bool entered{false}, released{false};
};

struct TestSource : public vrs::DataSource {
  TestSource(uint32_t id, size_t size, int kind, BlockGate* gate = nullptr)
      : vrs::DataSource(size), id_{id}, size2_{size}, kind_{kind}, gate_{gate} {}
  void copyTo(uint8_t* buffer) const override {
    if (gate_) {
      std::unique_lock<std::mutex> g(gate_->m);
      gate_->entered = true;
      gate_->cv.notify_all();
      gate_->cv.wait(g, [&] { return gate_->released; });
    }
    if (size2_) {
      vector<uint8_t> p = payload(id_, size2_, kind_);
      memcpy(buffer, p.data(), size2_);
    }
  }
  uint32_t id_;
  size_t size2_;
  int kind_;
  BlockGate* gate_;
};

struct AutoRec {
  int64_t ts;
  uint32_t id;
  size_t size;
};

struct TestStream : public vrs::Recordable {
  TestStream(int s, uint16_t type, const string& flavor)
      : vrs::Recordable(static_cast<vrs::RecordableTypeId>(type), flavor), s_{s} {}
  const vrs::Record* createConfigurationRecord() override {
    return autoCreate(cfg_, vrs::Record::Type::CONFIGURATION);
  }
  const vrs::Record* createStateRecord() override {
    return autoCreate(sta_, vrs::Record::Type::STATE);
  }
  const vrs::Record* autoCreate(vector<AutoRec>& v, vrs::Record::Type t) {
    if (v.empty())
      return nullptr;
    AutoRec a = v.front();
    v.erase(v.begin());
    return create((*tm_)(a.ts), t, a.id, a.size, 0);
  }
  const vrs::Record* create(
      double ts, vrs::Record::Type t, uint32_t id, size_t size, int kind, BlockGate* gate = nullptr) {
    return createRecord(ts, t, id, TestSource(id, size, kind, gate));
  }
  // the same content, handed over in other ways: 1..3 chunks (src 1..3), strided memory (4),
  // partly (5) or entirely (6) written directly to the file
  const vrs::Record* createVia(int src, double ts, vrs::Record::Type t, uint32_t id, size_t size, int kind);
  using vrs::Recordable::addRecordFormat;
  int s_;
  const TsMap* tm_{};
  vector<AutoRec> cfg_, sta_;
};

struct TestDirectData : public vrs::DirectWriteRecordData {
  explicit TestDirectData(vector<uint8_t> d) : d_{std::move(d)} {}
  size_t getDataSize() const override {
    return d_.size();
  }
  int write(vrs::WriteFileHandler& file) const override {
    size_t half = d_.size() / 2; // in two writes
    int rc = half ? file.write(d_.data(), half) : 0;
    return rc == 0 && d_.size() > half ? file.write(d_.data() + half, d_.size() - half) : rc;
  }
  vector<uint8_t> d_;
};

inline int typeCode(vrs::Record::Type t) {
  return static_cast<int>(t); // 1 state, 2 configuration, 3 data, 4 tags
}
inline vrs::Record::Type codeType(int64_t c) {
  return static_cast<vrs::Record::Type>(c);
}

struct ReadRec {
  int stream;
  int type;
  int64_t ts;
  int64_t id;
  int ok;
  int64_t offset;
};

// reads whole payloads and checks them against sigs()
struct CheckPlayer : public vrs::StreamPlayer {
  bool processRecordHeader(const vrs::CurrentRecord& r, vrs::DataReference& ref) override {
    buf.assign(r.recordSize, 0xEE);
    ref.useVector(buf);
    return true;
  }
  void processRecord(const vrs::CurrentRecord& r, uint32_t n) override;
  vector<uint8_t> buf;
  std::function<void(const vrs::CurrentRecord&, int ok)> on;
};

int contentOk(uint32_t id, const uint8_t* data, size_t size);
string streamName(const vrs::StreamId& id); // numeric name

vrs::CompressionPreset presetOf(const string& s);

} // namespace vd
