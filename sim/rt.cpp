// Run-time seams: allocator, system calls, scheduler. Not instrumented.
#include "core.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cxxabi.h>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
namespace sim {
const char *const counter_names[N_COUNTERS] = {
  "episodes", "ops", "rows", "values", "end_of_data", "opens", "opens_refused",
  "fault.source_returns_false", "fault.source_throws", "fault.source_partial_fill", "fault.eof_throws", "fault.short_read", "fault.EINTR", "fault.EIO", "fault.open_fails", "fault.pipe_like_file", "fault.file_cut", "fault.bytes_damaged", "fault.alloc_once", "fault.alloc_persistent",
  "fault.sink_set_properties_throws", "fault.sink_push_row_throws", "fault.sink_end_of_data_throws", "fault.filter_throws", "fault.output_device_fails", "fault.output_short_write", "fault.file_size_limit", "fault.cli_bad_input", "fault.memory_fill",
  "sched.switches", "sched.steps", "sched.threads",
  "probe.uncompressed", "probe.rle", "probe.rdc", "probe.mix_page", "probe.amd_page", "probe.several_meta_pages", "probe.rows_on_meta_page", "probe.empty_data_page", "probe.filler_page", "probe.trailing_page", "probe.64bit", "probe.big_endian", "probe.align4", "probe.corpus_file", "probe.eager_eof", "probe.lazy_eof", "probe.ifstream",
  "probe.moved", "probe.swapped", "probe.assigned_over", "probe.op_after_end", "probe.op_after_fault", "probe.cut_in_metadata", "probe.cut_in_data_page", "probe.cut_at_page_boundary", "probe.filtered", "probe.kept_copy_used", "probe.kept_copy_used_after_drop", "probe.skip_over_page", "probe.damaged_file_opened", "probe.alloc_failure_in_open", "probe.alloc_failure_in_read",
  "probe.cli_print", "probe.cli_csv", "probe.cli_null", "probe.cli_failing_run", "probe.csv_file", "probe.csv_stream", "probe.print_stream", "probe.missing_value", "probe.decoded_after_damage",
  "probe.metered_calls", "probe.metered_pages", "probe.metered_outputs",
  "known.rdc_tail"};
Shm *shm = nullptr;
Fnv history;
uint64_t op_steps = 0, op_budget = ~0ull, lib_steps = 0;
thread_local int tl_lib = 0;
thread_local int tl_tid = -1;
thread_local SysCtl *tl_sys = nullptr;
AllocCtl alloc;
std::string scratch_dir;

void Plan::add(const char *fmt, ...) {
  char b[65536]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  Plan p = parse(b); for (auto &l : p.lines) lines.push_back(l);
}
Plan Plan::parse(const std::string &t) {
  Plan p; Line l; std::string w;
  auto endw = [&] { if (!w.empty()) { l.w.push_back(w); w.clear(); } };
  auto endl = [&] { endw(); if (!l.w.empty() && l.w[0][0] != '#') p.lines.push_back(l); l.w.clear(); };
  for (char c : t) { if (c == '\n') endl(); else if (c == ' ' || c == '\r' || c == '\t') endw(); else w += c; }
  endl(); return p;
}
std::string Plan::text() const { std::string s; for (auto &l : lines) { for (size_t i = 0; i < l.w.size(); ++i) { if (i) s += ' '; s += l.w[i]; } s += '\n'; } return s; }

void violation(const char *cls, const char *fmt, ...) {
  HarnessScope hs;
  if (shm->cls[0]) return;
  va_list ap; va_start(ap, fmt); vsnprintf(shm->detail, sizeof shm->detail, fmt, ap); va_end(ap);
  snprintf(shm->cls, sizeof shm->cls, "%s", cls);
}
void pin_reset() { shm->pin_len = 0; shm->pin[0] = 0; }
void pin_add(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); size_t room = sizeof shm->pin - shm->pin_len; int n = vsnprintf(shm->pin + shm->pin_len, room, fmt, ap); va_end(ap);
  if (n > 0 && (size_t)n < room) shm->pin_len += (size_t)n;
}
void hist(uint64_t v) { history.u64(v); }
void hist(const std::string &s) { history.str(s); }
int64_t to_i(const std::string &s) { return strtoll(s.c_str(), nullptr, 10); }
std::string hex(const std::string &s) { std::string o; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; } return o.empty() ? "-" : o; }
std::string unhex(const std::string &s) { std::string o; if (s == "-") return o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return o; }

// ------------------------------------------------------------------ allocator
namespace {
constexpr size_t TAB = 1 << 18;
struct Ent { void *p; size_t n; };
Ent *tab = nullptr; size_t tab_used = 0;
uint64_t fill_state = 1;
inline size_t slot_of(void *p) { return (size_t)mix64((uint64_t)p) & (TAB - 1); }
void tab_add(void *p, size_t n) {
  if (!tab) tab = (Ent *)mmap(nullptr, TAB * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (tab_used > TAB / 2) return;
  size_t i = slot_of(p); while (tab[i].p) i = (i + 1) & (TAB - 1);
  tab[i] = {p, n}; ++tab_used; ++alloc.live; alloc.live_bytes += n; alloc.total += n; if (alloc.live_bytes > alloc.peak) alloc.peak = alloc.live_bytes;
}
void tab_del(void *p) {
  if (!tab || !tab_used) return;
  size_t i = slot_of(p); while (tab[i].p && tab[i].p != p) i = (i + 1) & (TAB - 1);
  if (!tab[i].p) return;
  --tab_used; --alloc.live; alloc.live_bytes -= tab[i].n;
  size_t j = i; // backward shift
  for (;;) {
    tab[i].p = nullptr;
    for (;;) {
      j = (j + 1) & (TAB - 1);
      if (!tab[j].p) return;
      size_t k = slot_of(tab[j].p);
      if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
      break;
    }
    tab[i] = tab[j]; i = j;
  }
}
void *do_new(size_t n, size_t align, bool nothrow) {
  const bool lib = tl_lib != 0;
  if (lib && tl_tid >= 0) sched_alloc();
  if (lib) {
    ++alloc.n;
    bool fail = alloc.fail_at && (alloc.n == alloc.fail_at || (alloc.persistent && alloc.n > alloc.fail_at));
    if (n > alloc.max_single || alloc.live_bytes + n > alloc.max_live) { fail = true; alloc.capped = true; }
    else if (fail) { if (!alloc.fired) count(alloc.persistent ? F_ALLOC_PERSIST : F_ALLOC_ONCE); alloc.fired = true; }
    if (fail) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
  void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (lib) {
    if (alloc.fill >= 0) {
      if (alloc.fill < 256) memset(p, alloc.fill, n);
      else { auto q = (uint8_t *)p; for (size_t i = 0; i < n; ++i) { fill_state = fill_state * 6364136223846793005ull + 1442695040888963407ull; q[i] = (uint8_t)(fill_state >> 56); } }
    }
    tab_add(p, n);
  }
  return p;
}
void do_del(void *p) { if (!p) return; if (tl_lib && tl_tid >= 0) sched_alloc(); tab_del(p); free(p); }
} // namespace
void alloc_forget() { if (tab) memset((void *)tab, 0, TAB * sizeof(Ent)); tab_used = 0; alloc.live = 0; alloc.live_bytes = 0; fill_state = 1; }
} // namespace sim

void *operator new(size_t n) { return sim::do_new(n, 0, false); }
void *operator new[](size_t n) { return sim::do_new(n, 0, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, 0, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::do_new(n, 0, true); }
void *operator new(size_t n, std::align_val_t a) { return sim::do_new(n, (size_t)a, false); }
void *operator new[](size_t n, std::align_val_t a) { return sim::do_new(n, (size_t)a, false); }
void *operator new(size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return sim::do_new(n, (size_t)a, true); }
void *operator new[](size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { return sim::do_new(n, (size_t)a, true); }
void operator delete(void *p) noexcept { sim::do_del(p); }
void operator delete[](void *p) noexcept { sim::do_del(p); }
void operator delete(void *p, size_t) noexcept { sim::do_del(p); }
void operator delete[](void *p, size_t) noexcept { sim::do_del(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::do_del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::do_del(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim::do_del(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim::do_del(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim::do_del(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim::do_del(p); }
void operator delete(void *p, std::align_val_t, const std::nothrow_t &) noexcept { sim::do_del(p); }
void operator delete[](void *p, std::align_val_t, const std::nothrow_t &) noexcept { sim::do_del(p); }

// ------------------------------------------------------------------ system calls
namespace {
sim::SysCtl *fd_ctl[4096];
template <typename F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
void adopt(int fd) { if (fd >= 0 && fd < 4096) fd_ctl[fd] = sim::tl_sys; }
sim::SysCtl *ctl(int fd) { return fd >= 0 && fd < 4096 ? fd_ctl[fd] : nullptr; }
} // namespace
void sim::sys_forget(SysCtl *c) { for (auto &x : fd_ctl) if (x == c) x = nullptr; }

static size_t pipe_room(sim::SysCtl *c, uint64_t k) { uint64_t h = sim::mix64(c->pipe + k * 0x9e3779b97f4a7c15ull); return 1 + (h >> 8) % (h % 4 == 0 ? 16 : h % 4 == 1 ? 512 : h % 4 == 2 ? 4096 : 65536); }
static bool read_fault(int fd, size_t &n, ssize_t &ret) {
  sim::SysCtl *c = ctl(fd);
  if (!c) return false;
  uint64_t k = c->calls++;
  if (c->pipe) { size_t m = pipe_room(c, k); if (m < n) { n = m; sim::count(sim::F_SYS_PIPE); } }
  if (c->sticky) { errno = EIO; ret = -1; sim::count(sim::F_SYS_EIO); return true; }
  for (auto &f : c->faults) {
    if (f.call != k) continue;
    switch (f.kind) {
    case 0: if (n > 1) { size_t m = 1 + f.n % n; if (m < n) { n = m; sim::count(sim::F_SYS_SHORT); } } return false;
    case 1: errno = EINTR; ret = -1; sim::count(sim::F_SYS_EINTR); return true;
    case 3: c->sticky = true; [[fallthrough]];
    case 2: errno = EIO; ret = -1; c->eio_fired = true; sim::count(sim::F_SYS_EIO); return true;
    }
  }
  return false;
}
static bool write_fault(int fd, size_t &n, ssize_t &ret) {
  sim::SysCtl *c = ctl(fd);
  if (!c) return false;
  uint64_t k = c->wcalls++;
  for (auto &f : c->wfaults) {
    if (f.call != k) continue;
    if (f.kind == 0 && n > 1) { size_t m = 1 + f.n % n; if (m < n) { n = m; sim::count(sim::F_OUT_SHORT); } }
    else if (f.kind == 1) { errno = EINTR; ret = -1; sim::count(sim::F_SYS_EINTR); return true; }
  }
  if (c->written + n > c->wlimit) {
    uint64_t room = c->wlimit > c->written ? c->wlimit - c->written : 0;
    if (room == 0) { c->wfailed = true; errno = ENOSPC; ret = -1; sim::count(sim::F_OUT_FAIL); return true; }
    n = room; sim::count(sim::F_OUT_SHORT);
  }
  return false;
}
extern "C" {
ssize_t read(int fd, void *b, size_t n) {
  static auto r = real<ssize_t (*)(int, void *, size_t)>("read");
  ssize_t ret; size_t m = n; if (read_fault(fd, m, ret)) return ret;
  return r(fd, b, m);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
  static auto r = real<ssize_t (*)(int, const struct iovec *, int)>("readv");
  if (ctl(fd) && n > 0) { ssize_t ret; size_t m = v[0].iov_len; if (read_fault(fd, m, ret)) return ret; struct iovec w = {v[0].iov_base, m}; return r(fd, &w, 1); }
  return r(fd, v, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  static auto r = real<ssize_t (*)(int, const void *, size_t)>("write");
  ssize_t ret; size_t m = n; if (write_fault(fd, m, ret)) return ret;
  ssize_t k = r(fd, b, m); if (k > 0) if (auto c = ctl(fd)) c->written += (uint64_t)k;
  return k;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  static auto r = real<ssize_t (*)(int, const struct iovec *, int)>("writev");
  if (ctl(fd)) { // one element at a time: a legal short write
    int i = 0; while (i < n && v[i].iov_len == 0) ++i;
    if (i == n) return 0;
    return write(fd, v[i].iov_base, v[i].iov_len);
  }
  return r(fd, v, n);
}
FILE *fopen(const char *p, const char *m) { static auto r = real<FILE *(*)(const char *, const char *)>("fopen"); FILE *f = r(p, m); if (f && sim::tl_sys) adopt(fileno(f)); return f; }
FILE *fopen64(const char *p, const char *m) { static auto r = real<FILE *(*)(const char *, const char *)>("fopen64"); FILE *f = r(p, m); if (f && sim::tl_sys) adopt(fileno(f)); return f; }
int open(const char *p, int fl, ...) { mode_t md = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) md = va_arg(ap, mode_t); va_end(ap); static auto r = real<int (*)(const char *, int, ...)>("open"); int fd = r(p, fl, md); if (fd >= 0 && sim::tl_sys) adopt(fd); return fd; }
int open64(const char *p, int fl, ...) { mode_t md = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | O_TMPFILE)) md = va_arg(ap, mode_t); va_end(ap); static auto r = real<int (*)(const char *, int, ...)>("open64"); int fd = r(p, fl, md); if (fd >= 0 && sim::tl_sys) adopt(fd); return fd; }
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *p = va_arg(ap, void *); va_end(ap); static auto r = real<int (*)(int, unsigned long, ...)>("ioctl");
  auto c = ctl(fd); if (!c || !c->pipe || req != FIONREAD) return r(fd, req, p);
  int left = 0; int k = r(fd, req, p); if (k) return k; memcpy(&left, p, sizeof left); size_t m = pipe_room(c, c->calls); if ((size_t)left > m) left = (int)m; memcpy(p, &left, sizeof left); return 0;
}
int fstat(int fd, struct stat *s) { static auto r = real<int (*)(int, struct stat *)>("fstat"); int k = r(fd, s); auto c = ctl(fd); if (!k && c && c->pipe) { s->st_mode = (s->st_mode & ~(mode_t)S_IFMT) | S_IFIFO; s->st_size = 0; } return k; }
off_t lseek(int fd, off_t o, int wh) noexcept { static auto r = real<off_t (*)(int, off_t, int)>("lseek"); auto c = ctl(fd); if (c && c->pipe) { errno = ESPIPE; return -1; } return r(fd, o, wh); }
off64_t lseek64(int fd, off64_t o, int wh) noexcept { static auto r = real<off64_t (*)(int, off64_t, int)>("lseek64"); auto c = ctl(fd); if (c && c->pipe) { errno = ESPIPE; return -1; } return r(fd, o, wh); }
int fclose(FILE *f) { static auto r = real<int (*)(FILE *)>("fclose"); int fd = fileno(f); if (fd >= 0 && fd < 4096) fd_ctl[fd] = nullptr; return r(f); }
int close(int fd) { static auto r = real<int (*)(int)>("close"); if (fd >= 0 && fd < 4096) fd_ctl[fd] = nullptr; return r(fd); }
}

// ------------------------------------------------------------------ scheduler
namespace {
struct Th { pthread_t id; sem_t sem; void (*f)(void *); void *a; bool done = false; uint64_t step = 0; std::vector<sim::Switch> sw; size_t next = 0; };
std::vector<Th> *th = nullptr;
sim::SchedCfg scfg; std::vector<sim::Switch> *strace = nullptr;
sim::Rng srng(0); int cur = -1; uint64_t countdown = 0; sem_t main_sem; sim::Fnv shash;
thread_local int tl_nopreempt = 0;
uint64_t draw() { // log-uniform around the mean
  uint64_t m = scfg.mean ? scfg.mean : 1; unsigned b = (unsigned)srng.below(7); uint64_t hi = b < 3 ? m >> (3 - b) : m << (b - 3); return 1 + srng.below(hi + 1);
}
void wait_sem(sem_t *s) { while (sem_wait(s) != 0) {} }
void go(int to) { int me = cur; cur = to; sim::tl_lib = sim::tl_lib; sem_post(&(*th)[(size_t)to].sem); if (me >= 0) wait_sem(&(*th)[(size_t)me].sem); }
void switch_to(int to) {
  auto &t = (*th)[(size_t)cur];
  strace->push_back({cur, t.step, to}); shash.u64((uint64_t)cur); shash.u64(t.step); shash.u64((uint64_t)to);
  sim::count(sim::S_SWITCHES); go(to);
}
void point(bool seam) {
  if (sim::tl_tid < 0 || tl_nopreempt) return;
  auto &t = (*th)[(size_t)sim::tl_tid]; ++t.step;
  if (scfg.explicit_) {
    auto &q = t.sw;
    while (t.next < q.size() && q[t.next].step < t.step) ++t.next;
    if (t.next < q.size() && q[t.next].step == t.step) { int to = q[t.next].to; if (to >= 0 && (size_t)to < th->size() && to != cur && !(*th)[(size_t)to].done) switch_to(to); }
    return;
  }
  bool sw = false;
  if (seam && scfg.seam && srng.below(scfg.seam) == 0) sw = true;
  else if (countdown-- <= 1) { countdown = draw(); sw = true; }
  if (!sw) return;
  std::vector<int> c; for (size_t i = 0; i < th->size(); ++i) if ((int)i != cur && !(*th)[i].done) c.push_back((int)i);
  if (c.empty()) return;
  int to = c[srng.below(c.size())];
  switch_to(to);
}
void *entry(void *p) {
  size_t i = (size_t)p; Th &t = (*th)[i];
  wait_sem(&t.sem);
  sim::tl_tid = (int)i;
  t.f(t.a);
  sim::tl_tid = -1;
  t.done = true;
  for (size_t k = 0; k < th->size(); ++k) if (!(*th)[k].done) { cur = (int)k; sem_post(&(*th)[k].sem); return nullptr; }
  sem_post(&main_sem);
  return nullptr;
}
} // namespace
namespace sim {
void sched_alloc() { HarnessScope h; point(false); }
void sched_seam() { if (tl_tid >= 0) { HarnessScope h; point(true); } }
void sched_run(std::vector<void (*)(void *)> f, std::vector<void *> a, const SchedCfg &cfg, std::vector<Switch> &trace, uint64_t &sched_hash) {
  HarnessScope h;
  scfg = cfg; strace = &trace; srng = Rng(cfg.seed); shash = Fnv(); trace.reserve(1 << 16);
  std::vector<Th> v(f.size()); th = &v;
  sem_init(&main_sem, 0, 0);
  for (size_t i = 0; i < v.size(); ++i) { v[i].f = f[i]; v[i].a = a[i]; sem_init(&v[i].sem, 0, 0); }
  for (size_t i = 0; i < v.size(); ++i) pthread_create(&v[i].id, nullptr, entry, (void *)i);
  for (auto &s : cfg.sw) if (s.from >= 0 && (size_t)s.from < v.size()) v[(size_t)s.from].sw.push_back(s);
  for (auto &t : v) std::stable_sort(t.sw.begin(), t.sw.end(), [](const Switch &x, const Switch &y) { return x.step < y.step; });
  countdown = draw(); cur = 0; count(S_THREADS, v.size());
  sem_post(&v[0].sem);
  wait_sem(&main_sem);
  for (auto &t : v) pthread_join(t.id, nullptr);
  for (auto &t : v) { sim::count(S_STEPS, t.step); sem_destroy(&t.sem); }
  sched_hash = shash.h; th = nullptr; strace = nullptr; cur = -1;
}
} // namespace sim

extern "C" void __sanitizer_cov_trace_pc() {
  using namespace sim;
  ++op_steps; if (tl_lib) ++lib_steps;
  if (shm) { uintptr_t pc = (uintptr_t)__builtin_return_address(0); uint64_t h = mix64(pc) & 0xffff; shm->edges[h >> 6] |= 1ull << (h & 63); }
  if (op_steps > op_budget) { HarnessScope h; violation("hang", "one reader call executed more than %llu library steps", (unsigned long long)op_budget); shm->finished = 2; _exit(0); }
  if (tl_tid >= 0 && tl_lib) { HarnessScope h; point(false); }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock"); ++tl_nopreempt; int k = r(m); if (k) --tl_nopreempt; return k; }
int pthread_mutex_trylock(pthread_mutex_t *m) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock"); int k = r(m); if (!k) ++tl_nopreempt; return k; }
int pthread_mutex_unlock(pthread_mutex_t *m) { static auto r = real<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock"); int k = r(m); if (tl_nopreempt) --tl_nopreempt; return k; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock"); ++tl_nopreempt; int k = r(m); if (k) --tl_nopreempt; return k; }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock"); ++tl_nopreempt; int k = r(m); if (k) --tl_nopreempt; return k; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { static auto r = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_unlock"); int k = r(m); if (tl_nopreempt) --tl_nopreempt; return k; }
int pthread_once(pthread_once_t *o, void (*f)(void)) { static auto r = real<int (*)(pthread_once_t *, void (*)(void))>("pthread_once"); ++tl_nopreempt; int k = r(o, f); if (tl_nopreempt) --tl_nopreempt; return k; }
int __cxa_guard_acquire(long long *g) { static auto r = real<int (*)(long long *)>("__cxa_guard_acquire"); int k = r(g); if (k) ++tl_nopreempt; return k; }
void __cxa_guard_release(long long *g) noexcept { static auto r = real<void (*)(long long *)>("__cxa_guard_release"); r(g); if (tl_nopreempt) --tl_nopreempt; }
void __cxa_guard_abort(long long *g) noexcept { static auto r = real<void (*)(long long *)>("__cxa_guard_abort"); r(g); if (tl_nopreempt) --tl_nopreempt; }
}
