// Shared state of one simulated run: outcome channel, counters, step budget.
#pragma once
#include "prng.hpp"
#include <cstdio>
#include <string>
#include <vector>
namespace sim {

struct Line { std::vector<std::string> w; };
struct Plan {
  std::vector<Line> lines;
  void add(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  static Plan parse(const std::string &text);
  std::string text() const;
};

// Everything measured is counted here, by name index.
enum Counter {
  C_EPISODES, C_OPS, C_ROWS, C_VALUES, C_EOD, C_OPENS, C_OPEN_REFUSED,
  F_SRC_FALSE, F_SRC_THROW, F_SRC_PARTIAL, F_EOF_THROW, F_SYS_SHORT, F_SYS_EINTR, F_SYS_EIO, F_SYS_OPEN, F_SYS_PIPE, F_CUT, F_EDIT, F_ALLOC_ONCE, F_ALLOC_PERSIST,
  F_SINK_PROPS, F_SINK_PUSH, F_SINK_EOD, F_FILTER_THROW, F_OUT_FAIL, F_OUT_SHORT, F_FSIZE, F_CLI_INPUT, F_MEMFILL,
  S_SWITCHES, S_STEPS, S_THREADS,
  P_NONE, P_RLE, P_RDC, P_MIXPAGE, P_AMD, P_MULTIMETA, P_SHARED, P_EMPTYPAGE, P_FILLER, P_TAIL, P_BITS64, P_BIG, P_ALIGN, P_CORPUS, P_EAGER, P_LAZY, P_IFSTREAM,
  P_MOVE, P_SWAP, P_ASSIGN_OVER, P_AFTER_END, P_AFTER_FAULT, P_CUT_META, P_CUT_DATA, P_CUT_BOUNDARY, P_FILTERED, P_KEPT_USED, P_KEPT_AFTER_DROP, P_SKIP_PAGE, P_DAMAGED_OPEN, P_ALLOC_IN_OPEN, P_ALLOC_IN_READ,
  P_CLI_PRINT, P_CLI_CSV, P_CLI_NULL, P_CLI_FAIL, P_CSV_FILE, P_CSV_STREAM, P_PRINT_STREAM, P_MISSING, P_DECODE_AFTER_DAMAGE,
  P_METERED, P_METERED_PAGES, P_METERED_OUT,
  K_RDC_TAIL,
  N_COUNTERS
};
extern const char *const counter_names[N_COUNTERS];

struct Shm { // shared with the parent process
  volatile int finished;
  char cls[64];         // violation class, empty if none
  char detail[4000];
  char pin[200000];     // concrete choices that replace the plan's "auto" lines
  uint64_t pin_len;
  uint64_t hash;        // history hash
  uint64_t shape;       // hash of what kind of run it was (distinctness measure)
  uint64_t shapes[64];  // one per episode
  uint64_t nshapes;
  uint64_t c[N_COUNTERS];
  uint64_t edges[1 << 10]; // bitmap of library edges reached
};
extern Shm *shm;
inline void count(Counter k, uint64_t n = 1) { shm->c[k] += n; }
void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
inline bool violated() { return shm->cls[0] != 0; }
void pin_reset();
void pin_add(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

extern Fnv history; // every observable event of the run goes in here
void hist(uint64_t v);
void hist(const std::string &s);

// steps (library edges executed) since the start of the current operation, bounded
extern uint64_t op_steps, op_budget, lib_steps; // lib_steps: only what the library itself executes, callbacks excluded

// true while library code is running on this thread (as opposed to harness code, callbacks included)
extern thread_local int tl_lib;
struct LibScope { int s; LibScope() : s(tl_lib) { tl_lib = 1; } ~LibScope() { tl_lib = s; } };
struct HarnessScope { int s; HarnessScope() : s(tl_lib) { tl_lib = 0; } ~HarnessScope() { tl_lib = s; } };

// allocator
struct AllocCtl {
  uint64_t n = 0;          // library allocations since arm()
  uint64_t fail_at = 0;    // 0: never
  bool persistent = false;
  bool fired = false;
  int fill = -1;           // -1 none, 0..255 byte, 256.. seeded noise
  uint64_t live = 0, live_bytes = 0; // library allocations alive
  uint64_t peak = 0, total = 0;      // most bytes alive at once, bytes ever allocated (reset by whoever measures)
  uint64_t max_single = 48ull << 20, max_live = 160ull << 20;
  bool capped = false;
  void arm(uint64_t at, bool p) { n = 0; fail_at = at; persistent = p; fired = false; }
  void disarm() { fail_at = 0; persistent = false; }
};
extern AllocCtl alloc;
void alloc_forget(); // forget what is currently tracked

// system call seam
struct SysFault { uint64_t call; int kind; uint64_t n; }; // kind 0 short, 1 EINTR, 2 EIO once, 3 EIO sticky, 4 ENOSPC-like on write
struct SysCtl {
  std::vector<SysFault> faults;
  uint64_t calls = 0, wcalls = 0;
  bool eio_fired = false, sticky = false;
  std::vector<SysFault> wfaults;
  bool wfailed = false;
  uint64_t pipe = 0; // not 0: the file behaves as a pipe that holds a varying number of bytes
  uint64_t wlimit = ~0ull, written = 0; // device accepts this many bytes
};
extern thread_local SysCtl *tl_sys; // files opened while set are governed by it
void sys_forget(SysCtl *);

// scheduler
struct Switch { int from; uint64_t step; int to; };
struct SchedCfg { uint64_t seed = 0; uint64_t mean = 200; unsigned seam = 4; bool explicit_ = false; std::vector<Switch> sw; };
void sched_run(std::vector<void (*)(void *)> f, std::vector<void *> a, const SchedCfg &cfg, std::vector<Switch> &trace, uint64_t &sched_hash);
void sched_alloc(); // allocations of the library are preemption points too
void sched_seam(); // an explicit preemption point (callbacks)
extern thread_local int tl_tid; // -1 outside a scheduled section

int64_t to_i(const std::string &s);
std::string hex(const std::string &s);
std::string unhex(const std::string &s);
extern std::string scratch_dir; // created by main, removed at exit
inline std::string scrub(std::string s) { if (!scratch_dir.empty()) for (size_t p; (p = s.find(scratch_dir)) != s.npos;) s.replace(p, scratch_dir.size(), "@"); return s; } // texts that enter the history hash
} // namespace sim
