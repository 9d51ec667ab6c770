// Mode "sync": JobQueue and EventChannel. Calls are made one at a time; after each, the driver waits until every
// thread still in a call sleeps, and reports which calls returned. Also threads running freely.
#include "common.h"

#include <sys/syscall.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>

#include <vrs/helpers/JobQueue.h>
#include <vrs/os/Event.h>
#include <vrs/os/Time.h>

using namespace vrs;
using vrs::os::EventChannel;
using std::deque;
namespace vd {
namespace {

double now() {
  return vrs::os::getTimestampSec();
}
constexpr double kShort = 0.015;

struct Result {
  string out; // members of the result, as JSON
};

struct Worker {
  int id{};
  std::thread t;
  std::mutex m;
  std::condition_variable cv;
  std::function<string()> task;
  bool quit{false};
  std::atomic<bool> busy{false}, started{false}, mustEnd{false};
  std::atomic<int> tid{0};
  string result;

  void run() {
    tid = static_cast<int>(syscall(SYS_gettid));
    for (;;) {
      std::function<string()> f;
      {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return quit || task; });
        if (quit)
          return;
        f = std::move(task);
        task = nullptr;
      }
      started = true;
      result = f();
      busy = false;
    }
  }
  void start(std::function<string()> f, bool ends) {
    started = false;
    mustEnd = ends;
    busy = true;
    std::unique_lock<std::mutex> l(m);
    task = std::move(f);
    cv.notify_one();
  }
};

char threadState(int tid) {
  char path[64], buf[512];
  snprintf(path, sizeof(path), "/proc/self/task/%d/stat", tid);
  FILE* f = fopen(path, "r");
  if (f == nullptr)
    return '?';
  size_t n = fread(buf, 1, sizeof(buf) - 1, f);
  fclose(f);
  buf[n] = 0;
  char* p = strrchr(buf, ')');
  return p != nullptr && p[1] == ' ' ? p[2] : '?';
}

struct Pool {
  vector<std::unique_ptr<Worker>> ws;
  vector<bool> inCall;
  explicit Pool(int n) : inCall(n, false) {
    for (int i = 0; i < n; ++i) {
      ws.emplace_back(new Worker);
      Worker* w = ws.back().get();
      w->id = i + 1;
      w->t = std::thread([w] { w->run(); });
    }
    for (auto& w : ws)
      while (w->tid == 0)
        std::this_thread::yield();
  }
  ~Pool() {
    for (auto& w : ws) {
      {
        std::unique_lock<std::mutex> l(w->m);
        w->quit = true;
        w->cv.notify_one();
      }
      w->t.join();
    }
  }
  Worker* idle() {
    for (size_t i = 0; i < ws.size(); ++i)
      if (!inCall[i])
        return ws[i].get();
    return nullptr;
  }
  void start(Worker* w, std::function<string()> f, bool ends) {
    inCall[w->id - 1] = true;
    w->start(std::move(f), ends);
  }
  // until whoever is in a call sleeps
  void settle() {
    int calm = 0;
    while (calm < 4) {
      bool quiet = true;
      for (auto& w : ws)
        if (w->busy && (w->mustEnd || !w->started || threadState(w->tid) != 'S'))
          quiet = false;
      calm = quiet ? calm + 1 : 0;
      std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
  }
  // the calls that returned since last time, and those still waiting
  string done(string& blocked) {
    string d = "[", b = "[";
    for (size_t i = 0; i < ws.size(); ++i)
      if (inCall[i]) {
        if (!ws[i]->busy) {
          d += string(d.size() > 1 ? "," : "") + "{\"w\":" + std::to_string(i + 1) + "," + ws[i]->result + "}";
          inCall[i] = false;
        } else
          b += string(b.size() > 1 ? "," : "") + std::to_string(i + 1);
      }
    blocked = b + "]";
    return d + "]";
  }
};

template <class C>
string seqOf(const C& c) {
  string s = "[";
  for (auto x : c)
    s += (s.size() > 1 ? "," : "") + std::to_string(x);
  return s + "]";
}
vector<int> intsOf(const J& o, const char* k) {
  vector<int> v;
  for (auto& x : o[k].GetArray())
    v.push_back(static_cast<int>(x.GetInt64()));
  return v;
}

string qResult(bool ok, const deque<int>& v, bool time) {
  return string("\"ok\":") + (ok ? "true" : "false") + ",\"v\":" + seqOf(v) + ",\"time\":" + (time ? "true" : "false");
}

using Queue = JobQueueWithThread<int>;

// one call of a worker, through one of the equivalent functions
string callWait(Queue& q, const string& how, bool all, int via) {
  double t0 = now(), least = 0;
  bool ok{};
  deque<int> got;
  int v = -1;
  if (all) {
    if (how == "long")
      ok = via % 2 ? q.waitForJobs(got, 20) : q.waitForJobsMs(got, 20000);
    else if (how == "short")
      ok = via % 2 ? q.waitForJobs(got, kShort) : q.waitForJobsMs(got, 15);
    else
      ok = via % 3 == 0 ? q.waitForJobs(got, 0) : q.waitForJobsMs(got, via % 3 == 1 ? 0 : -5);
  } else {
    if (how == "long")
      ok = via % 3 == 0 ? q.waitForJob(v) : via % 3 == 1 ? q.waitForJob(v, 20) : q.waitForJobMs(v, 20000);
    else if (how == "short")
      ok = via % 2 ? q.waitForJob(v, kShort) : q.waitForJobMs(v, 15);
    else
      ok = via % 3 == 0 ? q.getJob(v) : via % 3 == 1 ? q.waitForJob(v, 0) : q.waitForJobMs(v, 0);
    if (ok)
      got.push_back(v);
  }
  if (how == "short" && !ok && !q.hasEnded())
    least = 0.014;
  return qResult(ok, got, now() - t0 >= least);
}

void runQueue(const vector<const J*>& ops, int workers) {
  Pool pool(workers);
  auto q = std::make_unique<Queue>();
  int via = static_cast<int>(gi(*ops[0], "via"));
  for (size_t i = 1; i < ops.size(); ++i) {
    const J& o = *ops[i];
    string op = gs(o, "op");
    string out = "[]", extra;
    int w = 0;
    ++via;
    if (op == "send") {
      auto vs = intsOf(o, "vs");
      for (int v : vs) {
        if (via % 2)
          q->sendJob(int(v)); // (moved)
        else
          q->sendJob(static_cast<const int&>(v));
      }
    } else if (op == "wait") {
      Worker* x = pool.idle();
      if (x == nullptr)
        continue;
      w = x->id;
      string how = gs(o, "how");
      bool all = gb(o, "all");
      int k = via;
      Queue* p = q.get();
      pool.start(x, [=] { return callWait(*p, how, all, k); }, how != "long");
    } else if (op == "end") {
      bool clear = gb(o, "clear", true);
      if (clear && via % 2)
        q->endQueue();
      else
        q->endQueue(clear);
    } else if (op == "reset")
      q->reset();
    else if (op == "cancel" || op == "cancelnone") {
      vector<int> sel, cleaned;
      if (op == "cancel")
        sel = intsOf(o, "sel");
      auto f = [&](const int& v) { return std::find(sel.begin(), sel.end(), v) != sel.end(); };
      bool all = has(o, "quiet");
      if (all)
        q->cancelQueuedJobs(f);
      else
        q->cancelQueuedJobs(f, [&](const int& v) { cleaned.push_back(v); });
      out = seqOf(cleaned);
    } else if (op == "cancelall")
      q->cancelAllQueuedJobs();
    else if (op == "wakeall")
      q->wakeAll();
    pool.settle();
    string blocked, done = pool.done(blocked);
    Ev e("op");
    echo(e, o);
    e.s("op", op).i("w", w);
    e.raw("done", done).raw("out", out).raw("blocked", blocked).i("size", q->getQueueSize()).b("ended", q->hasEnded());
  }
  q->endQueue();
}

string cResult(EventChannel::Status st, const EventChannel::Event& e, bool time) {
  bool ok = st == EventChannel::Status::SUCCESS;
  string s = ok ? "success" : st == EventChannel::Status::TIMEOUT ? "timeout" : st == EventChannel::Status::FAILURE ? "failure" : "invalid";
  return "\"st\":\"" + s + "\",\"v\":" + std::to_string(ok ? e.value : 0) + ",\"m\":" + std::to_string(ok ? e.numMissedEvents : 0) +
      ",\"time\":" + (time ? "true" : "false");
}

struct Sent { // when each value was sent
  std::mutex m;
  map<int64_t, std::pair<double, double>> at;
  void send(EventChannel& c, int64_t v) {
    double a = now();
    {
      std::unique_lock<std::mutex> l(m);
      at[v] = {a, 1e18};
    }
    c.dispatchEvent(v);
    std::unique_lock<std::mutex> l(m);
    at[v].second = now();
  }
  bool ok(const EventChannel::Event& e) {
    std::unique_lock<std::mutex> l(m);
    auto it = at.find(e.value);
    return it != at.end() && e.timestampSec >= it->second.first && e.timestampSec <= it->second.second;
  }
};

string callChannel(EventChannel& c, Sent& sent, double timeout, double back, double least) {
  EventChannel::Event e{-7, -7, -7};
  double t0 = now();
  auto st = c.waitForEvent(e, timeout, back);
  bool time = st == EventChannel::Status::SUCCESS ? sent.ok(e) : st == EventChannel::Status::TIMEOUT ? now() - t0 >= least : true;
  return cResult(st, e, time);
}

void runChannel(const vector<const J*>& ops, int workers, bool bc) {
  Pool pool(workers);
  Sent sent;
  // in memory of ours, to see who still uses it after it's destroyed
  alignas(16) static char room[sizeof(EventChannel)];
  EventChannel* p = new (room) EventChannel(
      "test", bc ? EventChannel::NotificationMode::BROADCAST : EventChannel::NotificationMode::UNICAST);
  bool alive = true;
  int64_t past = 0;
  for (size_t i = 1; i < ops.size(); ++i) {
    const J& o = *ops[i];
    string op = gs(o, "op");
    int w = 0;
    if (op == "dispatch")
      sent.send(*p, gi(o, "v"));
    else if (op == "burst") {
      for (int v : intsOf(o, "vs"))
        sent.send(*p, v);
    } else if (op == "wait" || op == "dwait") {
      Worker* x = pool.idle();
      if (x == nullptr)
        continue;
      w = x->id;
      string how = gs(o, "how", "long"), b = gs(o, "back", "no");
      if (b == "old") // the last event is too old by then
        std::this_thread::sleep_for(std::chrono::milliseconds(25));
      double timeout = how == "long" ? 20 : how == "short" ? kShort : 0, back = b == "yes" ? 1e6 : b == "old" ? 0.02 : 0;
      int64_t v = gi(o, "v");
      bool first = op == "dwait";
      pool.start(
          x,
          [=, &sent] {
            if (first)
              sent.send(*p, v);
            return callChannel(*p, sent, timeout, back, how == "short" ? 0.014 : 0);
          },
          how != "long");
    } else if (op == "destroy") {
      past = p->getNumEventsSinceLastWait();
      p->~EventChannel();
      memset(room, 0, sizeof(room));
      alive = false;
    }
    pool.settle();
    if (alive)
      past = p->getNumEventsSinceLastWait();
    string blocked, done = pool.done(blocked);
    Ev e("op");
    echo(e, o);
    e.s("op", op).i("w", w);
    e.raw("done", done).raw("blocked", blocked).i("past", past);
  }
}

void freeQueue(const J& b) {
  int np = static_cast<int>(gi(b, "producers", 2)), n = static_cast<int>(gi(b, "n", 100)), nc = static_cast<int>(gi(b, "workers", 2));
  uint64_t seed = gi(b, "seed");
  JobQueue<int> q;
  std::atomic<int> left{np * n}, sending{np};
  string cancel = gs(b, "cancel"); // jobs are cancelled meanwhile: "some" (and counted), or "all" there are at times
  vector<deque<int>> got(nc + (cancel == "some"));
  vector<std::thread> ts;
  if (!cancel.empty())
    ts.emplace_back([&] {
      Rng r(seed * 57);
      while (!q.hasEnded()) {
        if (cancel == "all")
          q.cancelAllQueuedJobs();
        else {
          int m = static_cast<int>(r.below(5));
          auto mine = [m](const int& v) { return v % 5 == m; };
          q.cancelQueuedJobs(mine, [&](const int& v) {
            got[nc].push_back(v);
            --left;
          });
        }
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(150)));
      }
    });
  for (int c = 0; c < nc; ++c)
    ts.emplace_back([&, c] {
      Rng r(seed * 31 + c);
      while (!q.hasEnded()) {
        int v = -1;
        deque<int> vs;
        uint32_t k = r.below(6);
        bool ok = k == 0 ? q.getJob(v) : k == 1 ? q.waitForJobMs(v, 1) : k == 2 ? q.waitForJobs(vs, 0.002) : k == 3 ? q.waitForJob(v, 20) : k == 4 ? q.waitForJobsMs(vs, 20000) : q.waitForJob(v);
        if (ok) {
          if (vs.empty())
            vs.push_back(v);
          for (int x : vs)
            got[c].push_back(x);
          left -= static_cast<int>(vs.size());
        }
        if (r.below(20) == 0)
          std::this_thread::sleep_for(std::chrono::microseconds(r.below(200)));
      }
    });
  for (int p = 0; p < np; ++p)
    ts.emplace_back([&, p] {
      Rng r(seed * 17 + p);
      for (int k = 1; k <= n; ++k) {
        if (k % 2)
          q.sendJob(p * n + k);
        else {
          int v = p * n + k;
          q.sendJob(v);
        }
        if (r.below(10) == 0)
          std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
        else if (r.below(3) == 0)
          std::this_thread::yield();
      }
      --sending;
    });
  double t0 = now();
  while ((cancel == "all" ? sending > 0 || q.getQueueSize() > 0 : left > 0) && now() - t0 < 15)
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  q.endQueue(false);
  for (auto& t : ts)
    t.join();
  Ev e("free");
  vector<string> g;
  for (auto& x : got)
    g.push_back(seqOf(x));
  e.s("kind", "queue").i("n", n).i("producers", np).b("part", cancel == "all").b("sweeps", cancel == "some").list("got", g);
}

void freeChannel(const J& b, bool bc) {
  int n = static_cast<int>(gi(b, "n", 100)), nc = static_cast<int>(gi(b, "workers", 2));
  uint64_t seed = gi(b, "seed");
  auto c = std::make_unique<EventChannel>("t", bc ? EventChannel::NotificationMode::BROADCAST : EventChannel::NotificationMode::UNICAST);
  Sent sent;
  std::atomic<bool> stop{false};
  vector<vector<string>> got(nc);
  vector<std::thread> ts;
  for (int k = 0; k < nc; ++k)
    ts.emplace_back([&, k] {
      Rng r(seed * 31 + k);
      while (!stop) {
        double back = !bc && r.below(3) == 0 ? 1e6 : 0;
        uint32_t h = r.below(6);
        string x = callChannel(*c, sent, h == 0 ? 0 : h < 3 ? 0.0005 : 0.05, back, 0);
        if (x.find("success") != string::npos)
          got[k].push_back("{" + x + "}");
      }
    });
  Rng r(seed);
  for (int v = 1; v <= n; ++v) {
    sent.send(*c, v);
    if (r.below(3) == 0)
      std::this_thread::sleep_for(std::chrono::microseconds(r.below(400)));
    else if (r.below(3) == 0)
      std::this_thread::yield();
  }
  stop = true;
  for (auto& t : ts)
    t.join();
  Ev e("free");
  vector<string> g;
  for (auto& x : got) {
    string s = "[";
    for (auto& y : x)
      s += (s.size() > 1 ? "," : "") + y;
    g.push_back(s + "]");
  }
  e.s("kind", bc ? "broadcast" : "unicast").i("n", n).i("past", c->getNumEventsSinceLastWait()).list("got", g);
}

// a queue with its own thread: gets everything sent, until it's ended
void threadQueue(const J& b) {
  int n = static_cast<int>(gi(b, "n", 20));
  uint64_t seed = gi(b, "seed");
  Rng r(seed);
  deque<int> got;
  {
    Queue q;
    std::atomic<int> count{0}, running{0};
    auto f = [&] {
      ++running;
      int v;
      while (q.waitForJob(v)) {
        got.push_back(v);
        ++count;
      }
    };
    int pre = static_cast<int>(r.below(n + 1));
    for (int k = 1; k <= pre; ++k)
      q.sendJob(k);
    if (r.below(2))
      q.startThread(f);
    else {
      q.startThreadIfNeeded(f);
      q.startThreadIfNeeded(f);
    }
    for (int k = pre + 1; k <= n; ++k)
      q.sendJob(k);
    double t0 = now();
    while (count < n && now() - t0 < 15)
      std::this_thread::sleep_for(std::chrono::microseconds(200));
    if (r.below(2))
      q.endThread();
    if (running > 1)
      got.push_back(-1);
  }
  Ev e("free");
  e.s("kind", "queue").i("n", n).i("producers", 1).list("got", vector<string>{seqOf(got)});
}

void runSync(const vector<const J*>& ops) {
  const J& b = *ops[0];
  string kind = gs(b, "kind");
  {
    Ev e("begin");
    e.i("h", gi(b, "h")).s("kind", kind);
  }
  if (has(b, "free")) {
    if (gs(b, "free") == "thread")
      threadQueue(b);
    else if (kind == "queue")
      freeQueue(b);
    else
      freeChannel(b, kind == "broadcast");
  } else if (kind == "queue")
    runQueue(ops, static_cast<int>(gi(b, "workers", 3)));
  else
    runChannel(ops, static_cast<int>(gi(b, "workers", 3)), kind == "broadcast");
}

RegisterMode reg("sync", runSync);

} // namespace
} // namespace vd
