// Storage stand-in: stdio/posix write calls of the library are linked through these wrappers, so that a
// script can log, block or fail any storage operation, on any file, without touching the library.
#pragma once
#include "common.h"
#include <condition_variable>
#include <mutex>

namespace vd {

struct StoreOp {
  char kind; // 'o' create, 'w' write, 't' truncate, 'c' close, 'f' flush, 'p' pwrite, 'a' aio
  int file; // index of the file, in order of creation
  int64_t offset;
  vector<uint8_t> data;
};

struct FaultFs {
  std::mutex m;
  std::condition_variable cv;
  string under; // only files whose path starts with this are considered
  bool logging{false};
  vector<StoreOp> log;
  vector<string> files; // paths by file index
  map<FILE*, int> open;
  map<FILE*, bool> writable;

  // fault: the `failAt`-th (1-based) operation of a kind in failKinds fails (and all later, if sticky)
  string failKinds;
  int failAt{0};
  bool sticky{true};
  int failErrno{28};
  int partial{0}; // bytes really written by the failing write
  string failPath; // only paths containing this
  int opCount{0};
  int failed{0};

  // gate: block write operations while closed
  bool gateClosed{false};
  int gateWaiting{0};
  long totalWrites{0};

  void reset(const string& underPath);
};
FaultFs& ffs();
void ffsGate(bool closed);
bool ffsWaitBlocked(int ms); // wait until some write is blocked at the gate

} // namespace vd
