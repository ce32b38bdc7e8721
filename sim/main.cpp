// Driver of simulated runs: one forked process per run, deterministic from its plan.
#include "world.hpp"
#include <algorithm>
#include <csignal>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <fcntl.h>
#include <set>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/spdlog.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
namespace sim {
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static uint64_t cur_ep = 0;
struct ShmX { Shm s; uint64_t ep; uint64_t episode_bad; };

using Lines = std::vector<Line>;
static void run_one(const Lines &l) {
  const std::string kind = l[0].w.size() > 1 ? l[0].w[1] : "reader";
  count(C_EPISODES);
  if (kind == "out") run_out_episode(l);
  else if (kind == "cli") run_cli_episode(l);
  else run_reader_episode(l);
}
__attribute__((noinline)) static void dirty_stack(unsigned char b) { volatile unsigned char a[96 * 1024]; for (size_t i = 0; i < sizeof a; ++i) a[i] = b; asm volatile("" : : "r"(a) : "memory"); }

static void run_episode(const Lines &l) {
  const Line *aut = nullptr; size_t at = 0;
  for (size_t i = 0; i < l.size(); ++i) if (l[i].w[0] == "auto" && l[i].w.size() > 1 && (l[i].w[1] == "sweep" || l[i].w[1] == "twice")) { aut = &l[i]; at = i; }
  const uint64_t shape0 = shm->shape; shm->shape = 0;
  auto leak_checked = [&](const Lines &x) {
    alloc_forget(); Fnv h0 = history;
    run_one(x);
    if (violated() || !alloc.live || alloc.live > 100000) return;
    // caches fill once; a leak happens again
    alloc_forget(); Fnv h1 = history; uint64_t c[N_COUNTERS]; memcpy(c, shm->c, sizeof c); uint64_t pl = shm->pin_len;
    history = h0; run_one(x); history = h1; memcpy(shm->c, c, sizeof c); shm->pin_len = pl; shm->pin[pl] = 0;
    if (!violated() && alloc.live) violation("leak", "%llu allocations (%llu bytes) of the library are still alive after every reader and column was destroyed", (unsigned long long)alloc.live, (unsigned long long)alloc.live_bytes);
  };
  if (!aut) leak_checked(l);
  else if (aut->w[1] == "sweep") { // auto sweep FIRST STRIDE MAX PERSIST: fail allocation FIRST, FIRST+STRIDE, ...
    uint64_t first = (uint64_t)to_i(aut->w[2]), stride = (uint64_t)to_i(aut->w[3]), mx = (uint64_t)to_i(aut->w[4]); int pers = (int)to_i(aut->w[5]);
    for (uint64_t k = 0, n = first; k < mx && !violated(); ++k, n += stride) {
      Lines x = l; char b[64]; snprintf(b, sizeof b, "armn %llu %d", (unsigned long long)n, pers); x[at] = Plan::parse(b).lines[0];
      leak_checked(x);
      if (violated()) { pin_reset(); pin_add("%s\n", b); break; }
      if (!alloc.fired) break;
      shm->shape = hash2(shm->shape, n);
      if (shm->nshapes < 64) shm->shapes[shm->nshapes++] = shm->shape;
    }
  } else { // auto twice FILL_A FILL_B: the same calls in a differently dirtied world
    uint64_t h[2] = {0, 0}; Fnv h0 = history; uint64_t prefix = 0;
    for (int k = 0; k < 2 && !violated(); ++k) {
      Lines x = l; char b[64]; snprintf(b, sizeof b, "fill %s", aut->w[(size_t)(2 + k)].c_str()); x[at] = Plan::parse(b).lines[0];
      if (k == 1) { Lines pre; pre.push_back(l[0]); for (auto &y : l) if (y.w[0] == "pre") { Line z; z.w.assign(y.w.begin() + 1, y.w.end()); pre.push_back(z); } if (pre.size() > 1) { history = Fnv(); run_one(pre); (void)prefix; } if (violated()) break; }
      alloc_forget(); dirty_stack((unsigned char)to_i(aut->w[(size_t)(2 + k)]));
      history = Fnv(); run_one(x); h[k] = history.h;
    }
    history = h0; hist(h[0]);
    if (!violated() && h[0] != h[1]) violation("not-deterministic", "the same bytes and calls gave different results when memory had other contents and another file had been read before");
  }
  if (shm->nshapes < 64) shm->shapes[shm->nshapes++] = shm->shape;
  shm->shape = hash2(shape0, shm->shape);
}

void run_plan(const Plan &p) {
  std::vector<Lines> eps;
  for (auto &l : p.lines) { if (l.w[0] == "ep") eps.emplace_back(); if (eps.empty()) { eps.emplace_back(); Line e; e.w = {"ep", "reader"}; eps.back().push_back(e); } eps.back().push_back(l); }
  for (auto &e : eps) {
    pin_reset();
    ((ShmX *)shm)->ep = cur_ep;
    run_episode(e);
    if (violated()) break;
    ++cur_ep;
  }
  shm->hash = history.h;
}

static void on_terminate() {
  const char *t = "no exception"; char b[400] = "";
  if (auto ti = abi::__cxa_current_exception_type()) { t = ti->name(); try { throw; } catch (const std::exception &e) { snprintf(b, sizeof b, "%s", e.what()); } catch (...) {} }
  violation("terminate", "std::terminate was called (%s: %s)", t, b); shm->finished = 2; _exit(0);
}

static void rm_tree(const std::string &d) {
  DIR *p = opendir(d.c_str()); if (!p) return;
  while (auto e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(f); else unlink(f.c_str()); }
  closedir(p); rmdir(d.c_str());
}

struct Outcome { std::string cls, detail, pins; uint64_t hash = 0, ep = 0; double secs = 0; };
static std::string slurp(int fd) { std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = ::read(fd, b, sizeof b)) > 0) { s.append(b, (size_t)n); if (s.size() > (1 << 20)) break; } return s; }
static Outcome run_forked(const Plan &p, int errfd, double wall) {
  Outcome o; auto x = (ShmX *)shm;
  x->ep = 0; shm->finished = 0; shm->cls[0] = 0; shm->detail[0] = 0; pin_reset(); shm->hash = 0; shm->shape = 0; shm->nshapes = 0;
  if (ftruncate(errfd, 0)) {}
  lseek(errfd, 0, SEEK_SET);
  char dir[64] = "/tmp/simw.XXXXXX"; const char *base = getenv("SIM_SCRATCH"); std::string tmpl = base ? std::string(base) + "/simw.XXXXXX" : dir; std::vector<char> tv(tmpl.begin(), tmpl.end()); tv.push_back(0);
  if (!mkdtemp(tv.data())) { o.cls = "internal"; o.detail = "no scratch directory"; return o; }
  scratch_dir = tv.data();
  double t0 = now();
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(errfd, 2); std::set_terminate(on_terminate);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    run_plan(p); shm->finished = 1; _exit(0);
  }
  int st = 0; bool killed = false;
  for (;;) {
    pid_t r = waitpid(pid, &st, wall > 0 ? WNOHANG : 0);
    if (r == pid || (r < 0 && errno != EINTR)) break;
    if (r == 0) { double el = now() - t0; if (el > wall) { kill(pid, SIGKILL); killed = true; waitpid(pid, &st, 0); break; } usleep(el < 0.01 ? 50 : el < 0.2 ? 300 : 3000); }
  }
  o.secs = now() - t0;
  rm_tree(scratch_dir);
  o.hash = shm->hash; o.ep = x->ep; o.pins = std::string(shm->pin, shm->pin_len);
  if (shm->cls[0]) { o.cls = shm->cls; o.detail = shm->detail; }
  else if (killed) { o.cls = "timeout"; o.detail = "the run did not finish in time"; }
  else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->finished)) {
    std::string err = slurp(errfd); o.cls = "crash";
    size_t q = err.find("ERROR: AddressSanitizer: "); if (q == err.npos) q = err.find("runtime error: ");
    if (q != err.npos) { o.detail = err.substr(q, 700); size_t e = o.detail.find_first_of(" \n", 25); std::string what = o.detail.compare(0, 5, "ERROR") == 0 ? o.detail.substr(25, e == o.detail.npos ? o.detail.npos : e - 25) : "undefined-behaviour"; o.cls = "crash:" + what; }
    else o.detail = "the process died (status " + std::to_string(st) + ") " + err.substr(0, 400);
  }
  return o;
}
static std::string js(const std::string &s) { std::string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
} // namespace sim

using namespace sim;
extern "C" const char *__asan_default_options() { return "abort_on_error=0:detect_leaks=0:detect_odr_violation=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:max_allocation_size_mb=2048:quarantine_size_mb=16:malloc_context_size=6:symbolize=1"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR_DONE")) { setenv("SIM_NOASLR_DONE", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  setlinebuf(stdout); signal(SIGPIPE, SIG_IGN);
  shm = (Shm *)mmap(nullptr, sizeof(ShmX), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  spdlog::set_default_logger(std::make_shared<spdlog::logger>("", std::make_shared<spdlog::sinks::null_sink_mt>()));
  int errfd = memfd_create("err", MFD_CLOEXEC);
  std::string mode = argc > 1 ? argv[1] : "";
  auto emit = [&](const Outcome &o) { printf("{\"cls\":%s,\"detail\":%s,\"hash\":\"%016llx\",\"ep\":%llu,\"secs\":%.3f,\"pins\":%s}\n", js(o.cls).c_str(), js(o.detail).c_str(), (unsigned long long)o.hash, (unsigned long long)o.ep, o.secs, js(o.pins).c_str()); };
  if (mode == "gen" && argc > 4) { Plan p = gen_plan(argv[2], strtoull(argv[4], nullptr, 10), argv[3]); fputs(p.text().c_str(), stdout); return 0; }
  if (mode == "dump" && argc > 3) { Bytes b = read_file(argv[2]); dump_plan(Plan::parse(std::string(b.begin(), b.end())), argv[3]); return 0; }
  if (mode == "run" && argc > 2) { // several plan files; one outcome line each
    double wall = 300; if (getenv("SIM_WALL")) wall = atof(getenv("SIM_WALL"));
    for (int i = 2; i < argc; ++i) { Bytes b = read_file(argv[i]); Plan p = Plan::parse(std::string(b.begin(), b.end())); emit(run_forked(p, errfd, wall)); if (getenv("SIM_ERR")) fputs(slurp(errfd).c_str(), stderr); }
    return 0;
  }
  if (mode == "serve") { // plans on stdin: "PLAN <bytes>\n<text>"
    char line[128];
    while (fgets(line, sizeof line, stdin)) { size_t n = 0; if (sscanf(line, "PLAN %zu", &n) != 1) break; std::string t(n, 0); if (fread(t.data(), 1, n, stdin) != n) break; emit(run_forked(Plan::parse(t), errfd, 300)); }
    return 0;
  }
  if (mode == "batch" && argc > 9) { // batch PROP TIER BASE FIRST STRIDE COUNT SECONDS SHAPEFILE
    std::string prop = argv[2], tier = argv[3]; uint64_t base = strtoull(argv[4], nullptr, 10), first = strtoull(argv[5], nullptr, 10), stride = strtoull(argv[6], nullptr, 10), cnt = strtoull(argv[7], nullptr, 10); double limit = atof(argv[8]), t0 = now();
    std::set<uint64_t> shapes; uint64_t runs = 0; int bad = 0; double longest = 0;
    for (uint64_t k = 0; k < cnt && now() - t0 < limit; ++k) {
      uint64_t seed = hash3(base, first + k * stride, 0x51) >> 1;
      Plan p = gen_plan(prop, seed, tier);
      Outcome o = run_forked(p, errfd, 120);
      ++runs; longest = std::max(longest, o.secs);
      for (uint64_t i = 0; i < shm->nshapes; ++i) shapes.insert(shm->shapes[i]);
      if (runs % 97 == 1) printf("{\"type\":\"hash\",\"seed\":%llu,\"hash\":\"%016llx\"}\n", (unsigned long long)seed, (unsigned long long)o.hash);
      if (!o.cls.empty()) { printf("{\"type\":\"bad\",\"seed\":%llu,\"cls\":%s,\"detail\":%s,\"hash\":\"%016llx\",\"ep\":%llu,\"pins\":%s}\n", (unsigned long long)seed, js(o.cls).c_str(), js(o.detail).c_str(), (unsigned long long)o.hash, (unsigned long long)o.ep, js(o.pins).c_str()); if (++bad >= (getenv("SIM_MAXBAD") ? atoi(getenv("SIM_MAXBAD")) : 3)) { ++k; break; } }
    }
    FILE *f = fopen(argv[9], "wb"); if (f) { for (uint64_t s : shapes) fwrite(&s, 8, 1, f); fclose(f); }
    std::string ef = std::string(argv[9]) + ".edges"; f = fopen(ef.c_str(), "wb"); if (f) { fwrite(shm->edges, sizeof shm->edges, 1, f); fclose(f); }
    printf("{\"type\":\"sum\",\"runs\":%llu,\"secs\":%.2f,\"longest\":%.2f,\"counters\":{", (unsigned long long)runs, now() - t0, longest);
    bool c = false; for (int i = 0; i < N_COUNTERS; ++i) if (shm->c[i]) { printf("%s\"%s\":%llu", c ? "," : "", counter_names[i], (unsigned long long)shm->c[i]); c = true; }
    printf("}}\n");
    return 0;
  }
  fprintf(stderr, "usage: sim gen|run|serve|batch ...\n"); return 2;
}
