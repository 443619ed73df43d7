// Seams between the library under test and the simulated operating system.
// Every allocation, descriptor and file call of the library (and of the GSL
// code linked into it) lands here; see build.py for the symbol redirection.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <deque>

namespace sim {

struct Violation {            // thrown inside the harness only
  std::string cls, msg;
};

enum IoCall { IO_OPEN, IO_CLOSE, IO_READ, IO_WRITE, IO_MMAP, IO_MUNMAP, IO_MSYNC, IO_FTRUNC, IO_FSTAT, IO_OTHER, IO_NCALLS };
enum IoAct { IA_NORMAL, IA_SHORT, IA_EINTR, IA_EAGAIN, IA_ERR, IA_ZERO, IA_NACTS };
struct IoDecision { int act; int64_t arg; };

struct FileData { std::vector<char> data; bool exists = true; };

struct Fd {
  bool open = false;
  int  kind = 0;              // 0 file, 1 stream (pipe/socket)
  std::string name; size_t pos = 0; bool rd = false, wr = false;
};

struct Block { size_t size; uint32_t seq; uint32_t op; };

struct Counters {
  uint64_t alloc_fail = 0, io_short_r = 0, io_short_w = 0, io_eintr = 0, io_eagain = 0, io_err = 0, io_eof = 0, io_zero_w = 0,
           cb_fail = 0, crash_restore = 0, torn = 0, bitflip = 0, truncation = 0, rng_extreme = 0, preempt = 0, clock_jump = 0, bad_call = 0,
           msg_dup = 0, msg_reorder = 0, msg_lost = 0, msg_fail = 0;
  uint64_t io_err_kind[IO_NCALLS] = {0};
};
extern Counters g_cnt;

// One simulated process image: heap, descriptors, files.
struct Ctx {
  // ---- heap
  uintptr_t base = 0; size_t cap = 0, used = 0, high = 0;
  std::map<uintptr_t, Block> live;
  uint32_t seq = 0;
  unsigned char fill = 0xA5;
  bool reuse = false;                    // reuse freed blocks LIFO (layout variation)
  size_t skew = 0;                       // extra spacing (layout variation)
  std::map<size_t, std::vector<uintptr_t>> freelist;
  uint32_t cur_op = 0;
  // allocation fault: fail the k-th allocation from now (1-based), `persist`: also all later ones
  int64_t fail_at = 0; bool fail_persist = false; uint64_t nalloc = 0; uint64_t nfired = 0;
  size_t limit = (size_t)48 << 20;       // single request limit (simulated machine memory)
  // ---- io
  std::map<std::string, FileData> files;
  std::vector<Fd> fds;
  struct Mapping { size_t len; std::string name; bool shared, write; size_t off; std::string synced; };
  std::map<uintptr_t, Mapping> maps;
  uintptr_t mbase = 0; size_t mcap = 0, mused = 0;
  std::map<int, std::deque<char>> streams;  // fd -> bytes (read end) / bytes written (write end)
  std::deque<IoDecision> plan;            // consumed one per I/O call
  int fail_call = -1; int fail_nth = 0; int fail_errno = 0; // hard fault: nth call of this kind fails
  bool fail_persistent = false;
  uint64_t io_calls = 0, io_fired = 0; uint64_t io_budget = 0; // 0 = unlimited
  bool stream_eof = false;                // empty stream: EOF instead of EAGAIN
  bool nonblock = false;
  uint32_t io_kind[IO_NCALLS] = {0};       // calls per kind (for placing faults)
  bool eof_now = false; int64_t eof_after = 0, eof_size = INT64_MIN; bool wb_fail = false; int64_t zero_writes = 0; uint64_t io_zero = 0; // reads hit end of data now / next writes return 0
  uint64_t clock_ns = 0, clock_step = 1, alloc_ns = 0;   // simulated time; what one reading and one allocation take
  std::string trace;                      // what fired (for reports)
};
extern thread_local Ctx *cur;

void   ctx_init(Ctx &c, int arena_idx);    // map (once) and reset
void   ctx_reset(Ctx &c);
size_t live_count(const Ctx &c);
int    open_stream(Ctx &c);
int    n_open_fds(const Ctx &c);
[[noreturn]] void fatal_violation(const char *cls, const std::string &msg); // used from seam code: cannot unwind through C
void   set_fatal_hook(void (*h)(const char *cls, const char *msg));
}
