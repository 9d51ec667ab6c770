#include <stdio_ext.h>
#include "faultfs.h"
#include <chrono>
#include <aio.h>
#include <cerrno>

namespace vd {
FaultFs& ffs() {
  static FaultFs f;
  return f;
}
void FaultFs::reset(const string& underPath) {
  std::lock_guard<std::mutex> g(m);
  under = underPath;
  logging = false;
  log.clear();
  files.clear();
  failKinds.clear();
  failAt = 0;
  sticky = true;
  failErrno = 28;
  partial = 0;
  failPath.clear();
  opCount = 0;
  failed = 0;
  gateClosed = false;
  totalWrites = 0;
}
void ffsGate(bool closed) {
  auto& f = ffs();
  std::lock_guard<std::mutex> g(f.m);
  f.gateClosed = closed;
  f.cv.notify_all();
}
bool ffsWaitBlocked(int ms) {
  auto& f = ffs();
  std::unique_lock<std::mutex> g(f.m);
  return f.cv.wait_for(g, std::chrono::milliseconds(ms), [&] { return f.gateWaiting > 0; });
}
static bool interesting(const char* path) {
  auto& f = ffs();
  return path && !f.under.empty() && strncmp(path, f.under.c_str(), f.under.size()) == 0;
}
// returns true if the operation must fail. Called with the lock held
static bool mustFail(char kind, const string& path) {
  auto& f = ffs();
  if (f.failAt <= 0 || f.failKinds.find(kind) == string::npos)
    return false;
  if (!f.failPath.empty() && path.find(f.failPath) == string::npos)
    return false;
  f.opCount++;
  if (f.opCount == f.failAt || (f.sticky && f.opCount > f.failAt)) {
    f.failed++;
    return true;
  }
  return false;
}
} // namespace vd

using namespace vd;

extern "C" {
FILE* __real_fopen(const char* path, const char* mode);
size_t __real_fwrite(const void* p, size_t s, size_t n, FILE* f);
int __real_fclose(FILE* f);
int __real_fflush(FILE* f);
int __real_ftruncate(int fd, off_t len);
ssize_t __real_pwrite(int fd, const void* buf, size_t n, off_t off);
int __real_aio_write(struct aiocb* cb);

FILE* __wrap_fopen(const char* path, const char* mode) {
  if (!interesting(path))
    return __real_fopen(path, mode);
  auto& f = ffs();
  std::unique_lock<std::mutex> g(f.m);
  bool w = strchr(mode, 'w') != nullptr || strchr(mode, '+') != nullptr || strchr(mode, 'a') != nullptr;
  if (w && mustFail('o', path)) {
    errno = f.failErrno;
    return nullptr;
  }
  FILE* r = __real_fopen(path, mode);
  if (r && w) {
    int idx = -1;
    for (size_t i = 0; i < f.files.size(); ++i)
      if (f.files[i] == path)
        idx = static_cast<int>(i);
    if (idx < 0) {
      idx = static_cast<int>(f.files.size());
      f.files.push_back(path);
    }
    f.open[r] = idx;
    if (f.logging && strchr(mode, 'w'))
      f.log.push_back({'o', idx, 0, {}});
  }
  return r;
}
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* fp) {
  auto& f = ffs();
  std::unique_lock<std::mutex> g(f.m);
  auto it = f.open.find(fp);
  if (it == f.open.end()) {
    g.unlock();
    return __real_fwrite(p, s, n, fp);
  }
  f.totalWrites++;
  if (f.gateClosed) {
    f.gateWaiting++;
    f.cv.notify_all();
    f.cv.wait(g, [&] { return !f.gateClosed; });
    f.gateWaiting--;
  }
  int idx = it->second;
  size_t len = s * n;
  int64_t pos = ftello(fp);
  if (mustFail('w', f.files[idx])) {
    size_t k = std::min<size_t>(len, static_cast<size_t>(std::max(0, f.partial)));
    if (k && f.logging)
      f.log.push_back({'w', idx, pos, vector<uint8_t>((const uint8_t*)p, (const uint8_t*)p + k)});
    size_t r = k ? __real_fwrite(p, 1, k, fp) : 0;
    errno = f.failErrno;
    return r;
  }
  if (f.logging)
    f.log.push_back({'w', idx, pos, vector<uint8_t>((const uint8_t*)p, (const uint8_t*)p + len)});
  return __real_fwrite(p, s, n, fp);
}
int __wrap_fflush(FILE* fp) {
  auto& f = ffs();
  std::unique_lock<std::mutex> g(f.m);
  auto it = fp ? f.open.find(fp) : f.open.end();
  if (it == f.open.end()) {
    g.unlock();
    return __real_fflush(fp);
  }
  if (mustFail('f', f.files[it->second])) {
    errno = f.failErrno;
    return EOF;
  }
  return __real_fflush(fp);
}
int __wrap_fclose(FILE* fp) {
  auto& f = ffs();
  std::unique_lock<std::mutex> g(f.m);
  auto it = f.open.find(fp);
  if (it == f.open.end()) {
    g.unlock();
    return __real_fclose(fp);
  }
  int idx = it->second;
  f.open.erase(it);
  if (f.logging)
    f.log.push_back({'c', idx, 0, {}});
  if (mustFail('c', f.files[idx])) {
    __fpurge(fp); // what wasn't flushed yet is lost
    __real_fclose(fp);
    errno = f.failErrno;
    return EOF;
  }
  return __real_fclose(fp);
}
int __wrap_ftruncate(int fd, off_t len) {
  auto& f = ffs();
  std::unique_lock<std::mutex> g(f.m);
  for (auto& o : f.open) {
    if (fileno(o.first) == fd) {
      if (mustFail('t', f.files[o.second])) {
        errno = f.failErrno;
        return -1;
      }
      if (f.logging)
        f.log.push_back({'t', o.second, static_cast<int64_t>(len), {}});
    }
  }
  g.unlock();
  return __real_ftruncate(fd, len);
}
ssize_t __wrap_pwrite(int fd, const void* buf, size_t n, off_t off) {
  auto& f = ffs();
  std::unique_lock<std::mutex> g(f.m);
  if (mustFail('p', "")) {
    size_t k = std::min<size_t>(n, static_cast<size_t>(std::max(0, f.partial)));
    if (k)
      return __real_pwrite(fd, buf, k, off);
    errno = f.failErrno;
    return -1;
  }
  g.unlock();
  return __real_pwrite(fd, buf, n, off);
}
int __wrap_aio_write(struct aiocb* cb) {
  auto& f = ffs();
  std::unique_lock<std::mutex> g(f.m);
  if (mustFail('a', "")) {
    errno = f.failErrno;
    return -1;
  }
  if (mustFail('c', "")) { // submitted, but fails while it is executed
    if (f.partial > 0 && static_cast<size_t>(f.partial) < cb->aio_nbytes)
      cb->aio_nbytes = f.partial;
    else
      cb->aio_fildes = -1;
  }
  g.unlock();
  return __real_aio_write(cb);
}
}
