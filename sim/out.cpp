// Output sinks (csv, print) on a failing output device, and the command line tool in a process of its own.
#include "world.hpp"
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cppsas7bdat/reader.hpp>
#include <cppsas7bdat/sink/csv.hpp>
#include <cppsas7bdat/sink/print.hpp>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <unistd.h>
int cli_main(const int argc, char *argv[]);
namespace sim {
namespace {
std::string clip(const std::string &s) { std::string o; for (unsigned char c : s.substr(0, 120)) { if (c >= 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }
struct Txt { // cursor over produced text
  const std::string &s; size_t i = 0; std::string err;
  explicit Txt(const std::string &t) : s(t) {}
  bool fail(const std::string &w) { if (err.empty()) err = w + ", found \"" + clip(s.substr(std::min(i, s.size()))) + "\""; return false; }
  bool lit(const std::string &w) { if (s.compare(i, w.size(), w) != 0) return false; i += w.size(); return true; }
  bool need(const std::string &w, const std::string &what) { return lit(w) || fail(what + ": expected \"" + clip(w) + "\""); }
  bool done() const { return i >= s.size(); }
  std::string field() { size_t j = i; while (j < s.size() && s[j] != ',' && s[j] != '\n') ++j; std::string f = s.substr(i, j - i); i = j; return f; }
};
bool is_missing(const std::string &f) { return f.empty() || f == "nan" || f == "-nan" || f == "NaN" || f == "." || f == "not-a-date-time"; }
bool parse_num(const std::string &f, double &v) { if (f.empty()) return false; char *e; v = strtod(f.c_str(), &e); return *e == 0 && !isspace((unsigned char)f[0]); }
int64_t days_civil(int64_t y, int64_t m, int64_t d) { y -= m <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; uint64_t yoe = (uint64_t)(y - era * 400), doy = (uint64_t)((153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1), doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468; }
// [Y-M-D][sep][hh:mm:ss[.frac]]; days since 1960-01-01
bool parse_when(const std::string &f, bool has_date, bool has_time, int64_t &day, int64_t &us) {
  const char *p = f.c_str(); day = us = 0; char *e;
  if (has_date) {
    long y = strtol(p, &e, 10); if (e == p || *e != '-') return false;
    p = e + 1;
    long m;
    if (isalpha((unsigned char)*p)) { static const char *mn = "JanFebMarAprMayJunJulAugSepOctNovDec"; std::string w(p, strnlen(p, 3)); const char *q = strstr(mn, w.c_str()); if (w.size() != 3 || !q || (q - mn) % 3) return false; m = (q - mn) / 3 + 1; p += 3; }
    else { m = strtol(p, &e, 10); if (e == p) return false; p = e; }
    if (*p != '-') return false;
    ++p; long d = strtol(p, &e, 10); if (e == p) return false;
    p = e; day = days_civil(y, m, d) + 3653;
    if (has_time) { if (*p != ' ' && *p != 'T') return false; ++p; }
  }
  if (has_time) {
    long h = strtol(p, &e, 10); if (e == p || *e != ':') return false;
    p = e + 1; long mi = strtol(p, &e, 10); if (e == p || *e != ':') return false;
    p = e + 1; long s = strtol(p, &e, 10); if (e == p) return false;
    p = e; us = ((h * 60 + mi) * 60 + s) * 1000000ll;
    if (*p == '.') { ++p; int64_t u = 0; int n = 0; while (isdigit((unsigned char)*p)) { if (n < 6) { u = u * 10 + (*p - '0'); ++n; } ++p; } while (n++ < 6) u *= 10; us += u; }
  }
  return *p == 0;
}
bool check_field(Txt &t, const ColSpec &c, const Val &e, bool csv, const std::string &at) {
  if (c.kind == K_STRING) {
    if (!csv) return t.need(e.s, at);
    size_t at0 = t.i; std::string plain = "\"" + e.s + "\"", esc = "\""; for (char ch : e.s) { esc += ch; if (ch == '"') esc += ch; } esc += "\"";
    // both ways of writing embedded quotes are accepted
    for (const std::string &w : {esc, plain}) { t.i = at0; if (t.lit(w) && (t.i >= t.s.size() || t.s[t.i] == ',' || t.s[t.i] == '\n')) return true; }
    t.i = at0; return t.fail(at + ": expected the quoted text " + clip(esc));
  }
  size_t at0 = t.i; std::string f = t.field(); auto bad = [&](const std::string &w) { t.i = at0; return t.fail(at + ": " + w); };
  if (c.kind == K_UNKNOWN) return true;
  if (c.kind == K_INTEGER) { double v; if (!parse_num(f, v) || v != (double)e.i) return bad("expected " + std::to_string(e.i)); return true; }
  if (e.missing) { if (!is_missing(f)) return bad("expected a missing value"); return true; }
  if (c.kind == K_NUMBER) {
    double v; if (!parse_num(f, v)) return bad("expected a number");
    if (v == e.d) return true;
    if (!csv && std::fabs(v - e.d) <= 0.5000001e-6 + std::fabs(e.d) * 1e-15) return true; // printed with 6 decimals
    char b[40]; snprintf(b, sizeof b, "%.17g", e.d); return bad(std::string("expected ") + b);
  }
  if (!e.representable) return true;
  int64_t day, us; if (!parse_when(f, c.kind != K_TIME, c.kind != K_DATE, day, us)) return bad("expected a date or time");
  if (c.kind == K_DATE && day != e.day) return bad("wrong date");
  if (c.kind != K_DATE) { int64_t d = ((c.kind == K_TIME ? 0 : day - e.day) * 86400000000ll) + us - e.us; if (d > e.tol || d < -e.tol) return bad("wrong instant"); }
  return true;
}
} // namespace
std::string text_error(const ColSpec &c, const Val &v, const std::string &text) { // what Column::to_string gave for a value
  Txt t(text); if (check_field(t, c, v, false, "to_string") && !t.done()) t.fail("to_string: more text than expected"); return t.err;
}
namespace {
bool check_records(Txt &t, const Data &d, const std::vector<int> &map, size_t from, size_t n, bool csv) {
  for (size_t r = from; r < from + n; ++r) {
    if (!csv && !t.need(std::to_string(r) + (map.empty() ? "" : ","), "row index")) return false;
    for (size_t k = 0; k < map.size(); ++k) {
      if (k && !t.need(",", "separator")) return false;
      const ColSpec &c = d.D.cols[(size_t)map[k]];
      if (!check_field(t, c, ref_value(c, d.D.h.big, d.D.rows[r].data()), csv, "row " + std::to_string(r) + " column " + std::to_string(k) + " (" + kind_names[c.kind] + ")")) return false;
    }
    if (!t.need("\n", "end of row " + std::to_string(r))) return false;
    count(C_ROWS); count(C_VALUES, map.size());
  }
  return true;
}
bool check_csv(Txt &t, const Data &d, const std::vector<int> &map, size_t from, size_t n) {
  for (size_t k = 0; k < map.size(); ++k) {
    if (k && !t.need(",", "header separator")) return false;
    ColSpec c; c.kind = K_STRING; Val v; v.kind = K_STRING; v.s = d.D.cols[(size_t)map[k]].name; if (!check_field(t, c, v, true, "column name " + std::to_string(k))) return false;
  }
  return t.need("\n", "end of the header") && check_records(t, d, map, from, n, true);
}
bool check_print(Txt &t, const Data &d, const std::vector<int> &map, size_t from, size_t n) {
  if (!t.need("Properties:\n", "properties")) return false;
  auto prop = [&](const char *key, const std::string &v) { std::string w = std::string("  ") + key + ": " + v + "\n"; size_t p = t.s.find(w, t.i); if (p == t.s.npos) return t.fail(std::string("property line missing: ") + clip(w)); return true; };
  const HeaderInfo &h = d.D.h; const MetaInfo &m = d.D.m;
  if (!prop("dataset name", h.dataset_name) || !prop("row count", std::to_string(m.row_count)) || !prop("column count", std::to_string(m.column_count)) || !prop("creator proc", m.creator_proc)) return false;
  if (!prop("compression", m.compression == 0 ? "none" : m.compression == 1 ? "RLE" : "RDC")) return false;
  std::string cols = "\nColumns:\n";
  for (size_t k = 0; k < map.size(); ++k) { const ColSpec &c = d.D.cols[(size_t)map[k]]; cols += "  - column #" + std::to_string(k) + "\n    name: " + c.name + "\n    label: " + c.label + "\n    format: " + c.format + "\n    type: " + kind_names[c.kind] + "\n"; }
  cols += "Data:\n#"; for (int i : map) cols += "," + d.D.cols[(size_t)i].name;
  cols += "\n";
  size_t p = t.s.find(cols, t.i); if (p == t.s.npos) { size_t q = t.s.find("\nColumns:\n", t.i); if (q != t.s.npos) t.i = q; return t.fail("the column descriptions are wrong"); }
  t.i = p + cols.size();
  return check_records(t, d, map, from, n, false);
}

struct MemSource { const Bytes *img; size_t at = 0; bool ended = false; bool eof() { return ended; } bool read_bytes(void *p, const size_t n) { size_t left = img->size() - at; if (n > left) { if (left) memcpy(p, img->data() + at, left); at = img->size(); ended = true; return false; } if (n) memcpy(p, img->data() + at, n); at += n; return true; } };
struct MaskFilter { const Data *d; uint64_t mask; bool accept(const cs::Column &c) const { HarnessScope h; for (size_t i = 0; i < d->D.cols.size(); ++i) if (d->D.cols[i].name == c.name) return (mask >> (i % 64)) & 1; return true; } };
struct LimitBuf : std::streambuf { // a device that accepts `limit` bytes
  std::string out; size_t limit = ~(size_t)0; int mode = 0; bool failed = false; // 0 refuse, 1 throw, 2 refuse once
  std::streamsize xsputn(const char *p, std::streamsize n) override {
    HarnessScope h; size_t room = limit > out.size() ? limit - out.size() : 0, k = std::min(room, (size_t)n); out.append(p, k);
    if (k < (size_t)n) { failed = true; count(F_OUT_FAIL); if (mode == 2) limit = ~(size_t)0; if (mode == 1) throw SimExc{4242}; }
    return (std::streamsize)k;
  }
  int overflow(int c) override { if (c == traits_type::eof()) return 0; char b = (char)c; return xsputn(&b, 1) == 1 ? (unsigned char)c : traits_type::eof(); }
};

struct OutCfg { std::string kind; int moves = 0; long partial = -1, skip = 0; int exc = 0, mode = 0; uint64_t mask = ~0ull; bool meter = false; };
struct OutRun { std::string text; bool threw = false, failed = false, stream_ok = true, completed = false; std::string what; };

template <typename Snk> void drive(const Data &d, const OutCfg &c, Snk &&snk, OutRun &r) {
  LibScope l;
  std::unique_ptr<std::remove_reference_t<Snk>> cur = std::make_unique<std::remove_reference_t<Snk>>(std::move(snk));
  for (int i = 0; i < c.moves; ++i) { auto nx = std::make_unique<std::remove_reference_t<Snk>>(std::move(*cur)); cur = std::move(nx); }
  std::optional<cs::Reader> rd;
  if (c.mask != ~0ull) rd.emplace(MemSource{&d.image}, std::move(*cur), MaskFilter{&d, c.mask}); else rd.emplace(MemSource{&d.image}, std::move(*cur));
  cur.reset(); // the reader owns its sink
  if (c.moves & 1) { cs::Reader other(std::move(*rd)); rd.emplace(std::move(other)); }
  const uint64_t open = alloc.live_bytes; alloc.peak = open; alloc.total = 0; lib_steps = 0;
  if (c.skip) rd->skip((size_t)c.skip);
  if (c.partial >= 0) rd->read_rows((size_t)c.partial); else { rd->read_all(); r.completed = true; }
  if (c.meter) {
    HarnessScope h; count(P_METERED_OUT); const uint64_t held = alloc.peak - open;
    if (getenv("SIM_METER")) fprintf(stderr, "METER out %s held=%llu steps/row=%.1f total/row=%.1f image=%zu\n", c.kind.c_str(), (unsigned long long)held, (double)lib_steps / (double)(1 + d.D.rows.size()), (double)alloc.total / (double)(1 + d.D.rows.size()), d.image.size());
    if (held > 65536 + 8 * d.D.h.page_length + 32 * d.D.m.row_length) violation("memory-grows", "%s sink: %llu bytes more than after opening were in use while reading; a page has %zu bytes and a row %zu", c.kind.c_str(), (unsigned long long)held, d.D.h.page_length, d.D.m.row_length);
  }
  rd.reset();
}
OutRun run_out(const Data &d, const OutCfg &c, SysCtl &sys, uint64_t limit, const std::string &path) {
  OutRun r; op_steps = 0; op_budget = 4000000000ull;
  auto guard = [&](auto f) {
    try { f(); }
    catch (const std::exception &e) { r.threw = true; r.what = what_of(e); }
    catch (const SimExc &e) { r.threw = true; r.what = "simulated"; }
  };
  if (c.kind == "csvfile") {
    tl_sys = &sys;
    guard([&] { LibScope l; auto s = cs::datasink::csv(path.c_str()); tl_sys = nullptr; drive(d, c, std::move(s), r); });
    tl_sys = nullptr; sys_forget(&sys); r.failed = sys.wfailed;
    Bytes b = read_file(path); r.text.assign(b.begin(), b.end());
  } else {
    LimitBuf buf; buf.limit = limit; buf.mode = c.mode; std::ostream os(&buf); if (c.exc) os.exceptions(std::ios::badbit | std::ios::failbit);
    if (c.kind == "csv") guard([&] { LibScope l; auto s = cs::datasink::csv(os); drive(d, c, std::move(s), r); });
    else guard([&] { LibScope l; cs::datasink::print s(os); drive(d, c, std::move(s), r); });
    r.failed = buf.failed; r.stream_ok = os.good(); r.text = buf.out;
  }
  op_budget = ~0ull;
  hist(r.text); hist(r.threw); hist(r.failed);
  return r;
}
int64_t opt_i(const Line &l, const char *k, int64_t d) { std::string key = std::string(k) + "="; for (auto &w : l.w) if (w.rfind(key, 0) == 0) return to_i(w.substr(key.size())); return d; }
bool usable(const Data &d) { return d.ok && d.exact && !d.cut && d.D.known_rows.empty(); }
} // namespace

void run_out_episode(const std::vector<Line> &lines) {
  alloc.disarm(); alloc.fired = false; alloc.capped = false;
  DataSet ds; OutCfg c; uint64_t limit = ~0ull; std::vector<SysFault> wf; Fnv f;
  for (auto &l : lines) {
    const auto &w = l.w; if (w[0] != "dp" || w[2] != "seed") for (auto &x : w) f.str(x);
    if (ds.line(l)) continue;
    if (w[0] == "out") { c.kind = w[1]; c.moves = (int)opt_i(l, "moves", 0); c.partial = (long)opt_i(l, "partial", -1); c.skip = (long)opt_i(l, "skip", 0); c.exc = (int)opt_i(l, "exc", 0); c.mode = (int)opt_i(l, "mode", 0); }
    else if (w[0] == "meter") c.meter = true;
    else if (w[0] == "mask") c.mask = strtoull(w[1].c_str(), nullptr, 16);
    else if (w[0] == "limit") limit = (uint64_t)to_i(w[1]);
    else if (w[0] == "wfault") wf.push_back({(uint64_t)to_i(w[2]), w[1] == "short" ? 0 : 1, (uint64_t)to_i(w[3])});
  }
  shm->shape = hash2(shm->shape, f.h);
  ds.build(); if (ds.v.empty() || c.kind.empty()) return;
  const Data &d = *ds.v[0]; if (!usable(d)) return;
  count(c.kind == "csvfile" ? P_CSV_FILE : c.kind == "csv" ? P_CSV_STREAM : P_PRINT_STREAM); count(C_OPENS);
  std::vector<int> map; for (size_t i = 0; i < d.D.cols.size(); ++i) if ((c.mask >> (i % 64)) & 1) map.push_back((int)i);
  const size_t N = d.D.rows.size(), from = std::min<size_t>(N, (size_t)c.skip), n = c.partial >= 0 ? std::min<size_t>(N - from, (size_t)c.partial) : N - from;
  SysCtl s0; OutRun a = run_out(d, c, s0, ~0ull, scratch_dir + "/out0.csv");
  if (a.threw) { violation("refused", "%s sink: %s", c.kind.c_str(), a.what.c_str()); return; }
  Txt t(a.text);
  bool ok = c.kind == "print" ? check_print(t, d, map, from, n) : check_csv(t, d, map, from, n);
  if (!ok) { violation("wrong-output", "%s sink: %s", c.kind.c_str(), t.err.c_str()); return; }
  if (!t.done()) { violation("wrong-output", "%s sink: %zu bytes after the last row: %s", c.kind.c_str(), t.s.size() - t.i, clip(t.s.substr(t.i)).c_str()); return; }
  if (limit == ~0ull && wf.empty()) return;
  SysCtl s1; s1.wfaults = wf; s1.wlimit = limit; OutRun b = run_out(d, c, s1, limit, scratch_dir + "/out1.csv");
  if (a.text.compare(0, b.text.size(), b.text) != 0) { size_t i = 0; while (i < b.text.size() && i < a.text.size() && a.text[i] == b.text[i]) ++i; violation("not-a-prefix", "%s sink: what reached the failing device is not the beginning of the complete output (they differ at byte %zu of %zu)", c.kind.c_str(), i, a.text.size()); return; }
  const bool complete = b.text.size() == a.text.size();
  if (!complete && c.kind == "csvfile" && b.completed && !b.threw) violation("output-lost", "csv file sink: %zu of %zu bytes were written and the read reported completion", b.text.size(), a.text.size());
  if (!complete && c.kind != "csvfile" && b.stream_ok) violation("output-lost", "%s sink: %zu of %zu bytes were written and the stream state is good", c.kind.c_str(), b.text.size(), a.text.size());
  if (!complete && c.exc && c.kind != "csvfile" && !b.threw) violation("exception-swallowed", "%s sink: the stream threw, the caller did not see it", c.kind.c_str());
  if (complete && b.threw && !b.failed) violation("unexpected-exception", "%s sink: %s", c.kind.c_str(), b.what.c_str());
  if (!complete && !b.failed && !b.threw && c.partial < 0) violation("output-lost", "%s sink: output is missing although the device accepted everything", c.kind.c_str());
  if (!complete && !b.failed) violation("output-lost", "%s sink: %zu of %zu bytes although the device never failed", c.kind.c_str(), b.text.size(), a.text.size());
}

// ---------------------------------------------------------------- command line tool
namespace {
struct CliShared { uint64_t calls, wcalls, written; bool eio, wfailed; int returned, rc; };
std::string slurp_path(const std::string &p) { Bytes b = read_file(p); return std::string(b.begin(), b.end()); }
void list_tree(const std::string &d, const std::string &rel, std::vector<std::string> &o) {
  DIR *p = opendir(d.c_str()); if (!p) return;
  while (auto e = readdir(p)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string f = d + "/" + n; struct stat st; if (lstat(f.c_str(), &st)) continue; if (S_ISDIR(st.st_mode)) list_tree(f, rel + n + "/", o); else o.push_back(rel + n); }
  closedir(p); std::sort(o.begin(), o.end());
}
} // namespace

void run_cli_episode(const std::vector<Line> &lines) {
  DataSet ds; std::vector<std::string> state, names; std::string cmd = "null", device; int64_t nlines = -1, style = 0; uint64_t limit = ~0ull; std::vector<SysFault> rf, wf; Fnv f;
  static const char *pat[] = {"f%d.sas7bdat", "noext%d", "a.b.%d.sas7bdat", "sp ace%d.sas7bdat", "dir.d/f%d", "dir.d/g%d.sas7bdat", "v%d.SAS7BDAT", "x%d."};
  static const char *csvpat[] = {"f%d.csv", "noext%d.csv", "a.b.%d.csv", "sp ace%d.csv", "dir.d/f%d.csv", "dir.d/g%d.csv", "v%d.csv", "x%d.csv"};
  std::vector<int> pick; int self = -1, twin = -1, twinof = 0; bool again = false;
  for (auto &l : lines) {
    const auto &w = l.w; if (w[0] != "dp" || w[2] != "seed") for (auto &x : w) f.str(x);
    if (ds.line(l)) continue;
    if (w[0] == "in") { size_t k = (size_t)to_i(w[1]); if (state.size() <= k) state.resize(k + 1, "ok"); state[k] = w[2]; }
    else if (w[0] == "name") { size_t k = (size_t)to_i(w[1]); if (pick.size() <= k) pick.resize(k + 1, 0); pick[k] = (int)to_i(w[2]) & 7; }
    else if (w[0] == "cmd") { cmd = w[1]; nlines = to_i(w[2]); style = to_i(w[3]); }
    else if (w[0] == "selfcsv") self = (int)to_i(w[1]); // that input is called like the csv file of input 0
    else if (w[0] == "twin") { twin = (int)to_i(w[1]); twinof = (int)to_i(w[2]); } // that input has the csv file of another input
    else if (w[0] == "again") again = true; // the first input is listed twice
    else if (w[0] == "device") { device = w[1]; if (w.size() > 2) limit = (uint64_t)to_i(w[2]); }
    else if (w[0] == "readfault") rf.push_back({(uint64_t)to_i(w[2]), w[1] == "short" ? 0 : w[1] == "eintr" ? 1 : 2, (uint64_t)to_i(w[3])});
    else if (w[0] == "writefault") wf.push_back({(uint64_t)to_i(w[2]), w[1] == "short" ? 0 : 1, (uint64_t)to_i(w[3])});
  }
  shm->shape = hash2(shm->shape, f.h);
  ds.build(); size_t n = ds.v.size(); if (!n) return;
  state.resize(n, "ok"); pick.resize(n, 0);
  static int run = 0; std::string dir = scratch_dir + "/cli" + std::to_string(run++), sub = dir + "/dir.d";
  mkdir(dir.c_str(), 0700); mkdir(sub.c_str(), 0700);
  std::vector<std::string> csvs; std::vector<std::string> files;
  for (size_t k = 0; k < n; ++k) {
    char b[64]; snprintf(b, sizeof b, pat[pick[k]], (int)k); std::string nm = b; snprintf(b, sizeof b, csvpat[pick[k]], (int)k); std::string cv = b;
    if ((int)k == self) { if (k == 0) { nm = "own.csv"; cv = "own.csv"; } else { nm = csvs[0]; cv = nm; } }
    if ((int)k == twin && (int)k != self && twinof < (int)k && twinof >= 0 && twinof != self) { cv = csvs[(size_t)twinof]; nm = cv.substr(0, cv.size() - 4) + ".sas7bdat_2"; } else if ((int)k == twin) twin = -1;
    files.push_back(nm); csvs.push_back(cv);
    std::string p = dir + "/" + nm;
    if (state[k] == "dir") mkdir(p.c_str(), 0700);
    else if (state[k] == "ok") { FILE *o = fopen(p.c_str(), "wb"); if (o) { fwrite(ds.v[k]->image.data(), 1, ds.v[k]->image.size(), o); fclose(o); } }
    if (state[k] != "ok") count(F_CLI_INPUT);
  }
  std::vector<std::string> before; list_tree(dir, "", before);
  std::vector<std::string> args = {"cppsas7bdat-ci", cmd};
  if (cmd == "print" && nlines >= 0) { if (style & 1) { args.push_back("--nlines"); args.push_back(std::to_string(nlines)); } else args.push_back("--nlines=" + std::to_string(nlines)); }
  for (size_t k = 0; k < n; ++k) args.push_back((style & 2) != 0 && (style & 4) == 0 ? files[k] : (style & 4) != 0 && (int)k == twin ? "./" + files[k] : dir + "/" + files[k]);
  if (again) args.push_back((style & 2) ? files[0] : dir + "/" + files[0]);
  count(cmd == "print" ? P_CLI_PRINT : cmd == "csv" ? P_CLI_CSV : P_CLI_NULL); count(C_OPENS);
  auto *sh = (CliShared *)mmap(nullptr, sizeof(CliShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(sh, 0, sizeof *sh);
  const std::string outp = scratch_dir + "/stdout." + std::to_string(run), errp = scratch_dir + "/stderr." + std::to_string(run);
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL); std::set_terminate(abort); signal(SIGXFSZ, SIG_IGN); signal(SIGPIPE, SIG_IGN); signal(SIGABRT, SIG_DFL);
    int e = open(errp.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); if (e >= 0) { dup2(e, 2); close(e); }
    if (chdir(dir.c_str())) _exit(99);
    if (device == "full") { int o = open("/dev/full", O_WRONLY); if (o < 0) _exit(98); dup2(o, 1); close(o); }
    else if (device == "closed") close(1);
    else { int o = open(outp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (o < 0) _exit(98); dup2(o, 1); close(o); }
    static SysCtl sys; sys.faults = rf; sys.wfaults = wf;
    if (device == "limit") { if (cmd == "csv") sys.wlimit = limit; else { rlimit rl{limit, limit}; setrlimit(RLIMIT_FSIZE, &rl); } }
    if (device == "full" && cmd == "csv") sys.wlimit = 0;
    std::vector<char *> av; for (auto &a : args) av.push_back(a.data());
    av.push_back(nullptr);
    static char ob[4096]; setvbuf(stdout, ob, _IOFBF, sizeof ob); // as in a process of its own whose output is no terminal
    tl_sys = &sys; tl_lib = 0; op_steps = 0; op_budget = 4000000000ull;
    int rc;
    { LibScope l; rc = cli_main((int)args.size(), av.data()); }
    tl_sys = nullptr; sh->eio = sys.eio_fired; sh->wfailed = sys.wfailed; sh->rc = rc; sh->returned = 1;
    exit(rc);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  CliShared r = *sh; munmap(sh, sizeof(CliShared));
  if (violated()) return;
  const bool sig = WIFSIGNALED(st); const int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  const std::string err = slurp_path(errp), out = slurp_path(outp);
  if ((sig && WTERMSIG(st) != SIGABRT) || rc == 77 || err.find("AddressSanitizer") != err.npos || err.find("runtime error:") != err.npos) { size_t q = err.find("ERROR: AddressSanitizer: "); if (q == err.npos) q = err.find("runtime error:"); violation("crash", "the tool died (status %d): %s", st, err.substr(q == err.npos ? 0 : q, 600).c_str()); return; }
  if (rc == 98 || rc == 99) { violation("internal", "cannot set up the tool"); return; }
  hist((uint64_t)(rc == 0)); hist(scrub(out));
  // inputs are untouched; only csv files are created
  std::vector<std::string> after; list_tree(dir, "", after);
  for (size_t k = 0; k < n; ++k) if (state[k] == "ok" && slurp_path(dir + "/" + files[k]) != std::string(ds.v[k]->image.begin(), ds.v[k]->image.end())) violation("input-damaged", "the tool changed its input file %s", files[k].c_str());
  for (auto &x : before) if (!std::binary_search(after.begin(), after.end(), x)) violation("input-damaged", "the file %s is gone", x.c_str());
  for (auto &x : after) if (!std::binary_search(before.begin(), before.end(), x) && (cmd != "csv" || std::find(csvs.begin(), csvs.end(), x) == csvs.end())) violation("stray-file", "%s created %s", cmd.c_str(), x.c_str());
  if (violated()) return;
  bool bad_in = false, dubious = false; for (size_t k = 0; k < n; ++k) { if (state[k] != "ok") bad_in = true; else if (ds.v[k]->edited || ds.v[k]->cut || !ds.v[k]->ok) dubious = true; }
  if (twin >= (int)n) twin = -1;
  if ((self >= 0 || twin >= 0) && cmd == "csv") bad_in = true;
  const bool out_faulty = (cmd == "print" && !device.empty()) || (cmd == "csv" && (device == "full" || device == "limit"));
  if (rc != 0) {
    count(P_CLI_FAIL);
    if (!bad_in && !dubious && !r.eio && !r.wfailed && !out_faulty && rf.empty()) violation("refused", "the tool failed (status %d) although nothing was wrong: %s", rc, err.substr(0, 300).c_str());
    return;
  }
  if (bad_in) { violation("false-success", "exit status 0 although an input is %s", self >= 0 ? "also an output" : twin >= 0 ? "written to the csv file of another one" : "missing or unreadable"); return; }
  if (r.eio && !dubious) { violation("false-success", "exit status 0 although reading an input failed"); return; }
  if (cmd == "print" && (device == "full" || device == "closed")) { violation("false-success", "exit status 0 although nothing could be written to the standard output (%s)", device.c_str()); return; }
  if (cmd == "null" && !out.empty()) { violation("wrong-output", "null wrote to the standard output"); return; }
  if (cmd == "csv" && !out.empty()) { violation("wrong-output", "csv wrote to the standard output"); return; }
  Txt t(out);
  for (size_t q = 0; q < n + (again ? 1 : 0); ++q) {
    const size_t k = q < n ? q : 0; const Data &d = *ds.v[k];
    if (d.edited || d.cut) { // what the native reader says about that file
      bool threw = false; size_t lim = cmd == "print" && nlines >= 0 ? (size_t)nlines : ~(size_t)0;
      alloc.capped = false;
      try { LibScope l; struct NullSink { void set_properties(const cs::Properties &) {} void push_row(size_t, const void *) {} void end_of_data() {} }; cs::Reader rd(MemSource{&d.image}, NullSink()); for (size_t i = 0; i < lim && i < 2000000 && rd.read_row(); ++i) {} } catch (...) { threw = true; }
      if (threw && !alloc.capped) { violation("false-success", "exit status 0 although reading %s fails", files[k].c_str()); return; }
      return; // nothing is known about the output
    }
    if (!usable(d)) return;
    const size_t N = d.D.rows.size(); std::vector<int> map; for (size_t i = 0; i < d.D.cols.size(); ++i) map.push_back((int)i);
    if (cmd == "print") { size_t m = nlines >= 0 ? std::min<size_t>(N, (size_t)nlines) : N; if (!check_print(t, d, map, 0, m)) { violation("wrong-output", "print of %s: %s", files[k].c_str(), t.err.c_str()); return; } }
    else if (cmd == "csv") {
      std::string p = dir + "/" + csvs[k]; struct stat sb; if (stat(p.c_str(), &sb)) { violation("output-lost", "exit status 0, but there is no %s", csvs[k].c_str()); return; }
      std::string cv = slurp_path(p); Txt c(cv);
      if (!check_csv(c, d, map, 0, N)) { violation("wrong-output", "%s: %s", csvs[k].c_str(), c.err.c_str()); return; }
      if (!c.done()) { violation("wrong-output", "%s: text after the last row", csvs[k].c_str()); return; }
    }
  }
  if (cmd == "print" && !t.done()) violation("wrong-output", "print: text after the last row: %s", clip(t.s.substr(t.i)).c_str());
}
} // namespace sim
