// Mode "ids": numbering of streams (one thread, several threads, renumbering scopes), text forms of identifiers.
#include "common.h"

#include <atomic>
#include <chrono>
#include <thread>

#include <vrs/Recordable.h>
#include <vrs/StreamId.h>

using namespace vrs;
namespace vd {
namespace {

struct Plain : Recordable {
  explicit Plain(int t) : Recordable(static_cast<RecordableTypeId>(t), "fl/avor") {}
  const Record* createConfigurationRecord() override {
    return nullptr;
  }
  const Record* createStateRecord() override {
    return nullptr;
  }
};

struct Other {
  int t{};
  std::atomic<bool> done{false};
  int id{0};
  std::thread th;
};

string nums(std::initializer_list<int64_t> v) {
  string r = "[";
  for (auto x : v)
    r += (r.size() > 1 ? "," : "") + std::to_string(x);
  return r + "]";
}
string codes(const string& s) {
  string r = "[";
  for (size_t k = 0; k < s.size(); k++)
    r += (k ? "," : "") + std::to_string(static_cast<uint8_t>(s[k]));
  return r + "]";
}

// several threads creating streams, some in renumbering scopes of their own
void race(const J& op) {
  struct Call {
    int thread, scope, t, id;
    uint64_t b, e;
  };
  struct Scope {
    int n;
    uint64_t b, e;
  };
  int n = static_cast<int>(gi(op, "threads"));
  std::atomic<uint64_t> clock{1};
  std::atomic<int> ready{0}, scopes{0};
  std::atomic<bool> go{false};
  vector<vector<Call>> calls(n);
  vector<vector<Scope>> sc(n);
  vector<std::thread> ts;
  for (int k = 0; k < n; k++)
    ts.emplace_back([&, k] {
      Rng rng(gi(op, "seed") * 31 + k);
      auto create = [&](int scope) {
        static const int kTypes[] = {200, 201, 65500};
        int t = kTypes[rng.below(3)];
        uint64_t b = clock.fetch_add(1);
        int id = Plain(t).getStreamId().getInstanceId();
        calls[k].push_back({k, scope, t, id, b, clock.fetch_add(1)});
      };
      ready++;
      while (!go)
        ;
      for (int c = 0; c < gi(op, "n", 20); c++) {
        if (rng.below(12) == 0) {
          TemporaryRecordableInstanceIdsResetter r;
          int s = ++scopes;
          uint64_t b = clock.fetch_add(1);
          for (uint32_t j = 0, m = rng.below(4); j < m; j++)
            create(s);
          if (rng.below(3) == 0)
            std::this_thread::yield();
          sc[k].push_back({s, b, clock.fetch_add(1)});
        } else
          create(0);
      }
    });
  while (ready < n)
    ;
  go = true;
  for (auto& t : ts)
    t.join();
  vector<string> cs, ss;
  for (int k = 0; k < n; k++) {
    for (auto& c : calls[k])
      cs.push_back(nums({c.thread, c.scope, c.t, static_cast<int64_t>(c.b), static_cast<int64_t>(c.e), c.id}));
    for (auto& s : sc[k])
      ss.push_back(nums({s.n, static_cast<int64_t>(s.b), static_cast<int64_t>(s.e)}));
  }
  Ev e("race");
  e.list("calls", cs).list("scopes", ss);
}

void run(const vector<const J*>& ops) {
  vector<std::unique_ptr<TemporaryRecordableInstanceIdsResetter>> scopes;
  vector<std::unique_ptr<Other>> others;
  vector<std::unique_ptr<Plain>> kept;
  auto anyDone = [&] {
    bool d = false;
    for (auto& o : others)
      d = d || o->done;
    return d;
  };
  for (auto* po : ops) {
    const J& op = *po;
    string what = gs(op, "op");
    if (what == "begin") {
      Recordable::resetNewInstanceIds();
      Ev e("begin");
      echo(e, op);
    } else if (what == "reset") {
      Recordable::resetNewInstanceIds();
      Ev e("reset");
    } else if (what == "create") {
      auto p = std::make_unique<Plain>(static_cast<int>(gi(op, "t")));
      StreamId id = p->getStreamId();
      Ev e("create");
      e.i("t", gi(op, "t")).raw("id", nums({static_cast<int>(id.getTypeId()), id.getInstanceId()}));
      if (kept.size() < 5)
        kept.push_back(std::move(p));
      else
        kept.erase(kept.begin());
    } else if (what == "enter") {
      scopes.push_back(std::make_unique<TemporaryRecordableInstanceIdsResetter>());
      Ev e("enter");
    } else if (what == "leave") {
      bool last = scopes.size() == 1, early = anyDone();
      scopes.pop_back();
      vector<string> got;
      if (last) {
        for (auto& o : others) {
          o->th.join();
          got.push_back(nums({o->t, o->id}));
        }
        others.clear();
      }
      Ev e("leave");
      e.b("early", early).list("got", got);
    } else if (what == "other") {
      others.push_back(std::make_unique<Other>());
      Other* o = others.back().get();
      o->t = static_cast<int>(gi(op, "t"));
      o->th = std::thread([o] {
        Plain p(o->t);
        o->id = p.getStreamId().getInstanceId();
        o->done = true;
      });
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
      Ev e("other");
      e.i("t", o->t).b("early", anyDone());
    } else if (what == "race")
      race(op);
    else if (what == "parse") {
      bool plus = gb(op, "plus");
      string tailText;
      if (has(op, "tail"))
        for (auto& c : op["tail"].GetArray())
          tailText += static_cast<char>(c.GetInt());
      vector<string> items;
      for (auto& t : op["texts"].GetArray()) {
        string s;
        for (auto& c : t.GetArray())
          s += static_cast<char>(c.GetInt());
        string all = s + tailText;
        std::unique_ptr<char[]> buf(new char[all.size()]);
        if (!all.empty())
          memcpy(buf.get(), all.data(), all.size());
        std::string_view v = s.empty() && tailText.empty() ? std::string_view() : std::string_view(buf.get(), s.size());
        StreamId id = plus ? StreamId::fromNumericNamePlus(v) : StreamId::fromNumericName(v);
        items.push_back("[" + codes(s) + "," + std::to_string(static_cast<int>(id.getTypeId())) + "," + std::to_string(id.getInstanceId()) + "]");
      }
      Ev e("parse");
      e.b("plus", plus).list("items", items);
    } else if (what == "form") {
      vector<string> items;
      for (auto& x : op["ids"].GetArray()) {
        StreamId id(static_cast<RecordableTypeId>(x[0].GetInt()), static_cast<uint16_t>(x[1].GetInt()));
        string s = id.getNumericName();
        StreamId back = StreamId::fromNumericName(s);
        items.push_back("[" + std::to_string(x[0].GetInt()) + "," + std::to_string(x[1].GetInt()) + "," + codes(s) + "," + std::to_string(static_cast<int>(back.getTypeId())) + "," +
                        std::to_string(back.getInstanceId()) + "]");
      }
      Ev e("form");
      e.list("items", items);
    } else if (what == "less") {
      vector<string> items;
      for (auto& x : op["ids"].GetArray()) {
        StreamId a(static_cast<RecordableTypeId>(x[0].GetInt()), static_cast<uint16_t>(x[1].GetInt()));
        StreamId b(static_cast<RecordableTypeId>(x[2].GetInt()), static_cast<uint16_t>(x[3].GetInt()));
        items.push_back(nums({x[0].GetInt(), x[1].GetInt(), x[2].GetInt(), x[3].GetInt(), a < b, a == b && !(a != b), a.isValid()}));
      }
      Ev e("less");
      e.list("items", items);
    }
  }
  while (!scopes.empty())
    scopes.pop_back();
  for (auto& o : others)
    o->th.join();
}
RegisterMode reg("ids", run);

} // namespace
} // namespace vd
