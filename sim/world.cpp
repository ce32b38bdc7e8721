#include "world.hpp"
#include <algorithm>
#include <cppsas7bdat/filter/column.hpp>
#include <cppsas7bdat/reader.hpp>
#include <cppsas7bdat/sink/null.hpp>
#include <cppsas7bdat/source/ifstream.hpp>
#include <cstring>
#include <typeinfo>
#include <unistd.h>
namespace sim {
std::string what_of(const std::exception &e) { return std::string(typeid(e).name()) + ": " + e.what(); }

// ---------------------------------------------------------------- data
std::string Data::file() {
  if (path.empty()) {
    static int n = 0; path = scratch_dir + "/d" + std::to_string(n++) + ".sas7bdat";
    SysCtl *s = tl_sys; tl_sys = nullptr;
    FILE *f = fopen(path.c_str(), "wb"); if (f) { fwrite(image.data(), 1, image.size(), f); fclose(f); }
    tl_sys = s;
  }
  return path;
}
void Data::finish() {
  size_t n = D.rows.size(); avail = n;
  auto page_of = [&](size_t off) { size_t k = 0; while (k < D.pages.size() && D.pages[k].offset + D.h.page_length <= off) ++k; return k; };
  if (cut) {
    size_t whole = 0; while (whole < D.pages.size() && D.pages[whole].offset + D.h.page_length <= image.size()) ++whole;
    for (size_t i = 0; i < n; ++i) if (D.row_page[i] >= whole) { avail = i; break; }
    if (image.size() < D.meta_end) meta_cut = true;
  }
  if (edited) {
    exact = false;
    if (first_edit < D.h.header_length) { avail = 0; meta_ok = false; }
    else {
      size_t pg = page_of(first_edit);
      if (D.first_data_page < 0 || pg <= (size_t)D.first_data_page) { avail = 0; meta_ok = false; }
      else for (size_t i = 0; i < avail; ++i) if (D.row_page[i] >= pg) { avail = i; break; }
    }
  }
}
std::string filter_name(const Dataset &D, int64_t k) { // k < 0: a name that is close to a column's, but of no column
  if (k >= 0 && (size_t)k < D.cols.size()) return D.cols[(size_t)k].name;
  std::string nm = "no such column"; if (D.cols.empty()) return nm;
  nm = D.cols[0].name;
  switch ((-k) % 4) { case 0: nm += "x"; break; case 1: nm.pop_back(); break; case 2: for (auto &ch : nm) ch = (char)(islower((unsigned char)ch) ? toupper(ch) : tolower(ch)); break; default: nm += " "; }
  for (auto &c : D.cols) if (c.name == nm) return "no such column";
  return nm;
}
bool DataSet::line(const Line &l) {
  const auto &w = l.w;
  if (w[0] == "data") { size_t k = (size_t)to_i(w[1]); if (params.size() <= k) { params.resize(k + 1); corpus.resize(k + 1); mods.resize(k + 1); } if (w.size() > 3 && w[2] == "corpus") corpus[k] = w[3]; return true; }
  if (w[0] == "dp") { size_t k = (size_t)to_i(w[1]); if (k < params.size()) params[k][w[2]] = to_i(w[3]); return true; }
  if (w[0] == "cut" || w[0] == "edit" || w[0] == "raw") { size_t k = (size_t)to_i(w[1]); if (k < mods.size()) mods[k].push_back(l); return true; }
  return false;
}
void DataSet::build() {
  for (size_t k = 0; k < params.size(); ++k) {
    auto d = std::make_shared<Data>();
    if (!corpus[k].empty()) {
      const char *env = getenv("SIM_REPO"); std::string root = std::string(env ? env : "/repo") + "/test/";
      Bytes img = read_file(root + corpus[k]); d->corpus = true;
      d->ok = ref_decode(img, d->D, d->why);
      if (!d->ok) { d->D.image = img; d->exact = false; d->meta_ok = false; }
    } else { d->D = make_dataset(params[k]); d->ok = true; }
    d->image = d->D.image;
    for (auto &m : mods[k]) {
      if (m.w[0] == "cut") { size_t n = (size_t)to_i(m.w[2]); if (n < d->image.size()) { d->image.resize(n); d->cut = true; d->cut_at = n; count(F_CUT); if (d->ok) { count(n < d->D.meta_end ? P_CUT_META : n >= d->D.h.header_length && (n - d->D.h.header_length) % d->D.h.page_length == 0 ? P_CUT_BOUNDARY : P_CUT_DATA); } } }
      else if (m.w[0] == "edit") { size_t o = (size_t)to_i(m.w[2]); std::string b = unhex(m.w[3]); bool ch = false; for (size_t i = 0; i < b.size() && o + i < d->image.size(); ++i) { if (d->image[o + i] != (uint8_t)b[i]) { d->image[o + i] = (uint8_t)b[i]; ch = true; d->first_edit = std::min(d->first_edit, o + i); } } if (ch) { d->edited = true; count(F_EDIT); } }
      else if (m.w[0] == "raw") { std::string b = unhex(m.w[2]); d->image.assign(b.begin(), b.end()); d->edited = true; d->first_edit = 0; count(F_EDIT); }
    }
    if (d->ok) d->finish(); else { d->avail = 0; d->exact = false; d->meta_ok = false; }
    if (d->ok) {
      const Dataset &D = d->D;
      count(D.m.compression == 0 ? P_NONE : D.m.compression == 1 ? P_RLE : P_RDC);
      if (D.h.bits64) count(P_BITS64);
      if (D.h.big) count(P_BIG);
      if (D.h.align1) count(P_ALIGN);
      if (d->corpus) count(P_CORPUS);
      size_t metas = 0, seen = 0;
      for (auto &p : D.pages) { if (p.meta) ++metas; if (p.type == 512 || p.type == 640) count(P_MIXPAGE); if (p.type == 1024) count(P_AMD); if (p.meta && p.nrows && D.m.compression) count(P_SHARED); if (p.type == 256 && !p.nrows && seen < D.rows.size()) count(P_EMPTYPAGE); seen += p.nrows; if (p.type != 0 && p.type != 256 && p.type != 512 && p.type != 640 && p.type != 1024) count(seen < D.rows.size() ? P_FILLER : P_TAIL); }
      if (metas > 1) count(P_MULTIMETA);
    }
    v.push_back(d);
  }
}

namespace {
[[noreturn]] void do_throw(int kind, int id) {
  const std::string w = "simulated " + std::to_string(id);
  switch (kind) { case 1: throw SimStdExc(id, w); case 2: throw (int)id; case 3: throw SimArg(id, w); case 4: throw SimRange(id, w); case 5: throw SimLen(id, w); case 6: throw SimIos(id, w); case 7: throw SimBad(id); case 8: throw SimMem(id); default: throw SimExc{id}; }
}
struct Pend { bool set = false; int kind = 0, id = 0; }; // an injected exception thrown and not yet seen by a caller

struct SrcFault { uint64_t call; int kind; bool sticky; uint64_t partial; int exc; bool lose; }; // kind 0 false, 1 throw, 2 eof() throws
struct SinkFault { char where; uint64_t k; int exc; };
struct Ev { char t; size_t idx; };

struct Impl { // model side of one live reader
  PData d; std::vector<int> map;
  // source
  bool eager = false, file = false, src_ref = false, snk_ref = false, flt_ref = false; int sinkkind = 0; // 0 recorder 1 null
  size_t at = 0; uint64_t reads = 0, eofs = 0; std::vector<SrcFault> sf; bool src_fired = false, src_sticky_false = false; SysCtl sys; bool eof_seen = false;
  int src_live = 0, src_copies = 0, snk_live = 0, snk_copies = 0, flt_live = 0, flt_copies = 0, ext_src = 0, ext_snk = 0, ext_flt = 0; bool dead_use = false;
  // sink
  cs::COLUMNS cols; std::vector<Ev> ev; uint64_t pushes = 0, eods = 0, props_calls = 0; std::vector<SinkFault> kf; std::string bad; uint64_t rowhash = 0; size_t stop_after = ~(size_t)0, delivered_total = 0; bool stopped = false;
  // filter
  int fkind = 0; std::set<std::string> inc, exc; uint64_t fmask = ~0ull; std::vector<int> asked; uint64_t asks = 0; int64_t f_throw_at = -1; int f_exc = 0; std::string fbad;
  Pend pend;
  // cursor
  size_t pos = 0; bool relaxed = false, faulted = false, ended = false, pending_src = false; uint64_t ph = 0; const void *last_row = nullptr; size_t last_idx = 0; bool last_ok = false;
  // metering
  bool meter = false; uint64_t live0 = 0, live1 = 0; std::string ahead;
  size_t N() const { return d->D.rows.size(); }
  size_t page_end(size_t pg) const { return d->D.pages[pg].offset + d->D.h.page_length; }
  void check_ahead(size_t row) { // no more than the next page with rows has been fetched while row `row` is handed out
    if (!meter || file || row + 1 >= N() || !ahead.empty()) return;
    const auto &D = d->D; size_t pg = D.row_page[row], nx = pg + 1; while (nx + 1 < D.pages.size() && !D.pages[nx].nrows) ++nx;
    if (nx < D.pages.size() && at > std::max(page_end(nx), D.meta_end + D.h.page_length)) ahead = "row " + std::to_string(row) + " (page " + std::to_string(pg) + ") was handed out after " + std::to_string(at) + " bytes had been fetched; its page ends at " + std::to_string(page_end(pg));
  }
};
using PImpl = std::shared_ptr<Impl>;

void thrown(Impl &m, int kind, int id) { m.pend = {true, kind, id}; }

struct SimSource {
  PImpl m; uint32_t magic = 0x51513131; bool counted = true;
  explicit SimSource(PImpl p) : m(std::move(p)) { ++m->src_live; }
  SimSource(const SimSource &o) : m(o.m) { ++m->src_live; ++m->src_copies; }
  SimSource(SimSource &&o) noexcept : m(o.m) { counted = o.counted; o.counted = false; }
  SimSource &operator=(const SimSource &) = delete;
  ~SimSource() { if (counted) --m->src_live; magic = 0xdead; }
  void use() { if (magic != 0x51513131 || !counted) m->dead_use = true; }
  bool eof() {
    sched_seam(); HarnessScope h; use();
    for (auto &f : m->sf) if (f.kind == 2 && f.call == m->eofs) { ++m->eofs; m->src_fired = true; count(F_EOF_THROW); thrown(*m, f.exc, 7000 + (int)f.call); do_throw(f.exc, 7000 + (int)f.call); }
    ++m->eofs;
    const auto &img = m->d->image;
    if (m->src_sticky_false) return false;
    return m->eager ? m->at >= img.size() : m->eof_seen;
  }
  bool read_bytes(void *p, const size_t n) {
    sched_seam(); HarnessScope h; use();
    uint64_t call = m->reads++; const auto &img = m->d->image;
    if (m->src_sticky_false) { count(F_SRC_FALSE); m->src_fired = true; return false; }
    for (auto &f : m->sf) {
      if (f.kind == 2 || f.call != call) continue;
      size_t k = std::min<size_t>({(size_t)f.partial, n, img.size() - m->at});
      if (k) { memcpy(p, img.data() + m->at, k); count(F_SRC_PARTIAL); }
      m->src_fired = true; // the bytes are still there, or lost
      if (f.lose && n < img.size() - m->at) m->at += n; // (a loss of the last bytes would look like an end)
      if (f.kind == 1) { count(F_SRC_THROW); thrown(*m, f.exc, 9000 + (int)call); do_throw(f.exc, 9000 + (int)call); }
      count(F_SRC_FALSE); if (f.sticky) m->src_sticky_false = true;
      return false;
    }
    size_t left = img.size() - m->at;
    if (n > left) { if (left) memcpy(p, img.data() + m->at, left); m->at = img.size(); m->eof_seen = true; return false; }
    if (n) memcpy(p, img.data() + m->at, n);
    m->at += n;
    return true;
  }
};

struct StopExc {};
struct Unmetered { uint64_t s = lib_steps, t = alloc.total; ~Unmetered() { lib_steps = s; alloc.total = t; } }; // what the user's callback makes the library do is not the reader's work
struct RecSink {
  PImpl m; uint32_t magic = 0x52523131; bool counted = true; cs::COLUMNS cols;
  explicit RecSink(PImpl p) : m(std::move(p)) { ++m->snk_live; }
  RecSink(const RecSink &o) : m(o.m), cols(o.cols) { ++m->snk_live; ++m->snk_copies; }
  RecSink(RecSink &&o) noexcept : m(o.m), cols(std::move(o.cols)) { counted = o.counted; o.counted = false; }
  RecSink &operator=(const RecSink &) = delete;
  ~RecSink() { if (counted) --m->snk_live; magic = 0xdead; }
  void use() { if (magic != 0x52523131 || !counted) m->dead_use = true; }
  void fault(char where, uint64_t k, Counter c) { for (auto &f : m->kf) if (f.where == where && f.k == k) { count(c); int id = where * 1000 + (int)k; thrown(*m, f.exc, id); do_throw(f.exc, id); } }
  void set_properties(const cs::Properties &p) {
    sched_seam(); HarnessScope h; use();
    m->ev.push_back({'p', 0});
    cols = cs::COLUMNS(p.columns); m->ph = hash_properties(p); hist(m->ph);
    if (m->d->ok && m->d->meta_ok) { auto e = check_properties(p, *m->d, m->map, true); if (!e.empty() && m->bad.empty()) m->bad = "properties given to the sink: " + e; }
    fault('p', m->props_calls++, F_SINK_PROPS);
  }
  void push_row(const size_t i, const void *p) {
    sched_seam(); HarnessScope h; Unmetered un; use();
    m->ev.push_back({'r', i}); count(C_ROWS); m->check_ahead(i);
    if (i < m->d->avail) { auto e = check_row(cols, *m->d, m->map, i, p); if (!e.empty() && m->bad.empty()) m->bad = e; hist(i); }
    else if (!m->d->exact) { hist(decode_any(cols, p)); if (m->d->edited) count(P_DECODE_AFTER_DAMAGE); }
    sched_seam();
    fault('r', m->pushes++, F_SINK_PUSH);
    if (++m->delivered_total >= m->stop_after) { m->stopped = true; throw StopExc{}; }
  }
  void end_of_data() {
    sched_seam(); HarnessScope h; use();
    m->ev.push_back({'e', 0}); count(C_EOD);
    fault('e', m->eods++, F_SINK_EOD);
  }
};

struct SimFilter {
  PImpl m; uint32_t magic = 0x53533131; bool counted = true;
  explicit SimFilter(PImpl p) : m(std::move(p)) { ++m->flt_live; }
  SimFilter(const SimFilter &o) : m(o.m) { ++m->flt_live; ++m->flt_copies; }
  SimFilter(SimFilter &&o) noexcept : m(o.m) { counted = o.counted; o.counted = false; }
  ~SimFilter() { if (counted) --m->flt_live; magic = 0xdead; }
  bool accept(const cs::Column &c) const {
    sched_seam(); HarnessScope h; if (magic != 0x53533131 || !counted) m->dead_use = true;
    if ((int64_t)m->asks++ == m->f_throw_at) { count(F_FILTER_THROW); thrown(*m, m->f_exc, 5000); do_throw(m->f_exc, 5000); }
    if (!m->d->ok || !m->d->meta_ok) return true;
    const auto &cols = m->d->D.cols;
    for (size_t i = 0; i < cols.size(); ++i) {
      if (cols[i].name != c.name) continue;
      if (c.label != cols[i].label || c.format != cols[i].format || c.length() != cols[i].length || cs::to_string(c.type) != kind_names[cols[i].kind]) m->fbad = "the filter was asked about a column whose description is wrong (column " + std::to_string(i) + ")";
      m->asked.push_back((int)i);
      return (m->fmask >> (i % 64)) & 1;
    }
    m->fbad = "the filter was asked about a column that is not in the file";
    return true;
  }
};

struct Slot { std::optional<cs::Reader> rd; PImpl m; Line cfg; std::vector<Line> fl; std::unique_ptr<SimSource> src; std::unique_ptr<RecSink> snk; std::unique_ptr<SimFilter> flt; };
struct Kept { bool set = false; std::unique_ptr<cs::COLUMNS> cols; std::unique_ptr<cs::Properties> props; PData d; std::vector<int> map; uint64_t ph = 0; PImpl from; };

struct World {
  DataSet ds; std::vector<Slot> slots = std::vector<Slot>(8); std::vector<Kept> kept = std::vector<Kept>(8);
  bool metered = false;
  std::vector<int> same; std::map<int, std::vector<std::pair<std::string, uint64_t>>> seen; // readers whose results must agree

  struct Res { bool threw = false, injected = false, ok_exc = true, bad_alloc = false, stopped = false; std::string what; };
  template <typename F> Res guard(Impl *m, F &&f) {
    Res r; op_steps = 0;
    uint64_t work = m ? m->d->image.size() + m->N() * m->d->D.m.row_length : 0;
    op_budget = 100000000ull + 400 * work;
    if (tl_tid >= 0) op_budget *= 8;
    Pend none; Pend &pd = m ? m->pend : none;
    auto inj = [&](int kind, int id) { r.threw = true; if (pd.set && pd.kind == kind && pd.id == id) { r.injected = true; pd.set = false; } else { r.ok_exc = false; r.what = "unexpected simulated exception " + std::to_string(id); } };
    try { LibScope l; f(); }
    catch (const SimExc &e) { inj(0, e.id); }
    catch (const SimStdExc &e) { inj(1, e.id); } catch (const SimArg &e) { inj(3, e.id); } catch (const SimRange &e) { inj(4, e.id); } catch (const SimLen &e) { inj(5, e.id); } catch (const SimIos &e) { inj(6, e.id); } catch (const SimBad &e) { inj(7, e.id); } catch (const SimMem &e) { inj(8, e.id); }
    catch (int e) { inj(2, e); }
    catch (const StopExc &) { r.stopped = true; }
    catch (const std::bad_alloc &e) { r.threw = true; r.bad_alloc = true; r.what = "bad_alloc"; }
    catch (const std::exception &e) { r.threw = true; r.what = what_of(e); }
    catch (...) { r.threw = true; r.ok_exc = false; r.what = "an exception that is not derived from std::exception"; }
    op_budget = ~0ull;
    hist((uint64_t)r.threw * 4 + r.injected * 2 + r.stopped); hist(scrub(r.what));
    if (!r.ok_exc) violation("foreign-exception", "%s", r.what.c_str());
    if (!r.threw && pd.set) violation("exception-swallowed", "an exception thrown by user code (kind %d, id %d) did not reach the caller", pd.kind, pd.id);
    if (r.threw && !r.injected && pd.set) { violation("exception-changed", "user code threw kind %d id %d, the caller saw: %s", pd.kind, pd.id, r.what.c_str()); }
    pd.set = false;
    return r;
  }

  std::vector<int> accepted(const Impl &m) {
    std::vector<int> v; const auto &c = m.d->D.cols;
    for (size_t i = 0; i < c.size(); ++i) {
      bool a = true;
      switch (m.fkind) {
      case 1: a = m.inc.count(c[i].name); break;
      case 2: a = !m.exc.count(c[i].name); break;
      case 3: a = !m.inc.empty() ? m.inc.count(c[i].name) : !m.exc.count(c[i].name); break;
      case 4: a = (m.fmask >> (i % 64)) & 1; break;
      }
      if (a) v.push_back((int)i);
    }
    return v;
  }

  // rdr i data=0 src=mem eof=lazy sink=rec filt=all
  static std::string opt(const Line &l, const char *k, const char *d) { std::string key = std::string(k) + "="; for (auto &w : l.w) if (w.rfind(key, 0) == 0) return w.substr(key.size()); return d; }

  template <typename Src, typename Snk> void construct(Slot &s, Src &&src, Snk &&snk) {
    Impl &m = *s.m;
    switch (m.fkind) {
    case 1: { cs::ColumnFilter::Include f; f.included = m.inc; { LibScope l; s.rd.emplace(std::forward<Src>(src), std::forward<Snk>(snk), std::move(f)); } break; }
    case 2: { cs::ColumnFilter::Exclude f; f.excluded = m.exc; { LibScope l; s.rd.emplace(std::forward<Src>(src), std::forward<Snk>(snk), std::move(f)); } break; }
    case 3: { cs::ColumnFilter::IncludeExclude f; f.included = m.inc; f.excluded = m.exc; { LibScope l; s.rd.emplace(std::forward<Src>(src), std::forward<Snk>(snk), f); } break; }
    case 4: if (m.flt_ref) { s.flt = std::make_unique<SimFilter>(s.m); m.ext_flt = 1; LibScope l; s.rd.emplace(std::forward<Src>(src), std::forward<Snk>(snk), *s.flt); }
      else { SimFilter f(s.m); LibScope l; s.rd.emplace(std::forward<Src>(src), std::forward<Snk>(snk), std::move(f)); } break;
    default: { LibScope l; s.rd.emplace(std::forward<Src>(src), std::forward<Snk>(snk)); }
    }
  }
  template <typename Src> void construct1(Slot &s, Src &&src) {
    Impl &m = *s.m;
    if (m.sinkkind == 1) construct(s, std::forward<Src>(src), cs::datasink::null());
    else if (m.snk_ref) { s.snk = std::make_unique<RecSink>(s.m); m.ext_snk = 1; construct(s, std::forward<Src>(src), *s.snk); }
    else construct(s, std::forward<Src>(src), RecSink(s.m));
  }

  void op_open(int i) {
    Slot &s = slots[(size_t)i];
    if (s.cfg.w.empty()) return;
    drop_slot(i);
    auto m = std::make_shared<Impl>(); s.m = m;
    size_t dk = (size_t)to_i(opt(s.cfg, "data", "0")); if (dk >= ds.v.size()) { s.m.reset(); return; }
    m->d = ds.v[dk];
    std::string src = opt(s.cfg, "src", "mem"), sink = opt(s.cfg, "sink", "rec"), filt = opt(s.cfg, "filt", "all");
    m->eager = opt(s.cfg, "eof", "lazy") == "eager"; m->file = src == "file"; m->src_ref = src == "memref"; m->snk_ref = sink == "recref"; m->sinkkind = sink == "null";
    m->fkind = filt == "inc" ? 1 : filt == "exc" ? 2 : filt == "incexc" ? 3 : filt == "user" || filt == "userref" ? 4 : 0; m->flt_ref = filt == "userref";
    m->stop_after = m->d->exact ? ~(size_t)0 : m->d->avail + 300;
    for (auto &l : s.fl) {
      const auto &w = l.w; // flt i inc K | fault i ...
      if (w[0] == "flt") {
        std::string nm; int64_t k = w[2] == "mask" ? 0 : to_i(w[3]);
        if (w[2] == "mask") { m->fmask = strtoull(w[3].c_str(), nullptr, 16); continue; }
        nm = filter_name(m->d->D, k);
        (w[2] == "inc" ? m->inc : m->exc).insert(nm);
      } else if (w[2] == "src") m->sf.push_back({(uint64_t)to_i(w[4]), w[3] == "false" ? 0 : w[3] == "throw" ? 1 : 2, w.size() > 6 && w[6] == "sticky", (uint64_t)(w.size() > 5 ? to_i(w[5]) : 0), (int)(w.size() > 7 ? to_i(w[7]) : 0), w.size() > 8 && w[8] == "lose"});
      else if (w[2] == "sink") m->kf.push_back({w[3][0], (uint64_t)to_i(w[4]), (int)to_i(w[5])});
      else if (w[2] == "filter") { m->f_throw_at = to_i(w[3]); m->f_exc = (int)to_i(w[4]); }
      else if (w[2] == "sys" && w[3] == "pipe") m->sys.pipe = (uint64_t)to_i(w[4]);
      else if (w[2] == "sys") m->sys.faults.push_back({(uint64_t)to_i(w[4]), w[3] == "short" ? 0 : w[3] == "eintr" ? 1 : w[3] == "eio" ? 2 : 3, (uint64_t)(w.size() > 5 ? to_i(w[5]) : 0)});
    }
    m->map = m->d->ok ? accepted(*m) : std::vector<int>();
    m->meter = metered && m->d->ok && m->d->exact && !m->d->cut; m->live0 = alloc.live_bytes; alloc.peak = alloc.live_bytes;
    if (m->fkind) count(P_FILTERED);
    count(m->file ? P_IFSTREAM : m->eager ? P_EAGER : P_LAZY);
    bool alloc_was = alloc.fired;
    auto r = guard(m.get(), [&] {
      HarnessScope hs;
      if (src == "missing" || src == "dir") { std::string p = src == "dir" ? scratch_dir : scratch_dir + "/does-not-exist"; if (src == "missing") count(F_SYS_OPEN); std::unique_ptr<cs::datasource::ifstream> in; { LibScope l; in = std::make_unique<cs::datasource::ifstream>(p.c_str()); } construct1(s, std::move(*in)); }
      else if (m->file) { std::string p = m->d->file(); tl_sys = &m->sys; std::optional<cs::datasource::ifstream> in; try { LibScope l; in.emplace(p.c_str()); } catch (...) { tl_sys = nullptr; throw; } tl_sys = nullptr; construct1(s, std::move(*in)); }
      else if (m->src_ref) { s.src = std::make_unique<SimSource>(m); m->ext_src = 1; construct1(s, *s.src); }
      else construct1(s, SimSource(m));
    });
    bool alloc_fired = alloc.fired && (!alloc_was || alloc.persistent); if (alloc_fired) count(P_ALLOC_IN_OPEN);
    bool src_fault = m->src_fired || m->sys.eio_fired;
    if (!m->bad.empty()) violation("wrong-value", "%s", m->bad.c_str());
    if (!m->fbad.empty()) violation("wrong-filter-question", "%s", m->fbad.c_str());
    if (r.threw) {
      count(C_OPEN_REFUSED); hist(0x0be1);
      bool may = r.injected || src_fault || (alloc_fired || alloc.capped) || !m->d->exact || !m->d->meta_ok || m->d->meta_cut || src == "missing" || src == "dir";
      if (m->d->cut && m->d->cut_at < m->d->D.meta_end) may = true;
      if (!may) violation("refused", "a well-formed file was refused: %s", r.what.c_str());
      for (auto &e : m->ev) if (e.t != 'p') violation("wrong-events", "the sink received rows or an end of data from a failing constructor");
      s.rd.reset(); check_released(*m, s, "a failed constructor"); forget(s); return;
    }
    if (!s.rd) { violation("internal", "no reader"); return; }
    if (m->meter) {
      m->live1 = alloc.live_bytes; const auto &D = m->d->D; const uint64_t held = alloc.peak - m->live0, may = 65536 + 32 * D.meta_end + 8 * D.h.page_length;
      if (getenv("SIM_METER")) fprintf(stderr, "METER open held=%llu now=%llu may=%llu image=%zu\n", (unsigned long long)held, (unsigned long long)(m->live1 - m->live0), (unsigned long long)may, m->d->image.size());
      if (held > may) violation("memory-grows", "opening the file allocated %llu bytes; its metadata is %zu bytes and a page %zu", (unsigned long long)held, D.meta_end, D.h.page_length);
      if (!m->file && !src_fault && m->at > D.meta_end + 2 * D.h.page_length) violation("reads-ahead", "opening the file fetched %zu bytes; the metadata and the first rows end at %zu", m->at, D.meta_end);
    }
    count(C_OPENS);
    if (src == "missing" || src == "dir") violation("no-exception", "opening a %s succeeded", src == "dir" ? "directory" : "missing file");
    if (!src_fault && src != "missing" && src != "dir") { const Bytes &im = m->d->image; const Bytes &mg = magic_number(); if (im.size() < 288 || !std::equal(mg.begin(), mg.end(), im.begin())) violation("accepted", "a file that does not start with the header of a SAS7BDAT file was opened"); }
    m->faulted = src_fault; if (src_fault) m->pending_src = true;
    if (m->d->edited) count(P_DAMAGED_OPEN);
    if (m->sinkkind == 0) {
      if (m->ev.size() != 1 || m->ev[0].t != 'p') violation("wrong-events", "the sink must receive its properties exactly once before anything else (got %zu events)", m->ev.size());
    } else { LibScope l; m->ph = hash_properties(s.rd->properties()); }
    m->ev.clear();
    if (m->fkind == 4 && m->d->ok && m->d->meta_ok) {
      for (size_t a = 0; a < m->asked.size(); ++a) if (m->asked[a] != (int)a) violation("wrong-filter-question", "question %zu to the filter was about column %d", a, m->asked[a]);
      if (m->asked.size() != m->d->D.cols.size()) violation("wrong-filter-question", "the filter was asked about %zu of %zu columns", m->asked.size(), m->d->D.cols.size());
    }
    check_lives(*m, s, true);
    op_props(i);
  }
  void forget(Slot &s) { if (s.m) sys_forget(&s.m->sys); s.m.reset(); s.src.reset(); s.snk.reset(); s.flt.reset(); }
  void check_lives(Impl &m, Slot &, bool alive) {
    if (m.dead_use) violation("use-after-destroy", "a source, sink or filter was used after it was destroyed or moved from");
    if (!m.file) { int w = m.src_ref ? m.ext_src : alive; if (m.src_live != w) violation("ownership", "%d live source objects instead of %d", m.src_live, w); if (m.src_ref && m.src_copies) violation("ownership", "a source passed by reference was copied"); }
    if (m.sinkkind == 0) { int w = m.snk_ref ? m.ext_snk : alive; if (m.snk_live != w) violation("ownership", "%d live sink objects instead of %d", m.snk_live, w); if (m.snk_ref && m.snk_copies) violation("ownership", "a sink passed by reference was copied"); }
    if (m.flt_ref && m.flt_copies) violation("ownership", "a filter passed by reference was copied");
    if (m.flt_ref ? m.flt_live != m.ext_flt : (!alive && m.flt_live != 0)) { if (m.fkind == 4) violation("ownership", "%d live filter objects", m.flt_live); }
  }
  void check_released(Impl &m, Slot &s, const char *) { check_lives(m, s, false); }

  void op_props(int i) {
    Slot &s = slots[(size_t)i]; if (!s.rd) return;
    const cs::Properties *p; { LibScope l; p = &s.rd->properties(); }
    uint64_t h = hash_properties(*p); hist(h);
    if (!s.m) { static const cs::Properties empty; if (h != hash_properties(empty)) violation("properties-changed", "a reader without a file has properties"); return; }
    if (h != s.m->ph) violation("properties-changed", "the properties differ from those the sink received");
    if (s.m->d->ok && s.m->d->meta_ok) { auto e = check_properties(*p, *s.m->d, s.m->map, true); if (!e.empty()) violation("wrong-properties", "%s", e.c_str()); }
  }

  // any cursor operation
  enum Kind { ROW, ROWS, ALL, SKIP, NOSINK, EOD };
  void op_cursor(int i, Kind k, size_t n) {
    Slot &s = slots[(size_t)i]; if (!s.rd) return;
    count(C_OPS);
    if (!s.m) { // default-constructed or moved-from
      bool ret = false; const void *p = nullptr; size_t ix = 0;
      auto r = guard(nullptr, [&] { auto &rd = *s.rd; switch (k) { case ROW: ret = rd.read_row(); break; case ROWS: ret = rd.read_rows(n) && n; break; case ALL: rd.read_all(); break; case SKIP: ret = rd.skip(n) && n; break; case NOSINK: p = rd.read_row_no_sink(); break; case EOD: rd.end_of_data(); break; } ix = rd.current_row_index(); });
      if (r.threw || ret || p || ix) violation("moved-from-delivers", "a default-constructed or moved-from reader delivered something or threw");
      return;
    }
    Impl &m = *s.m; const size_t N = m.N(), K = m.d->avail; m.ev.clear(); m.bad.clear(); m.last_row = nullptr;
    if (!m.d->exact && (k == ROWS || k == SKIP)) n = std::min<size_t>(n, m.d->avail + 5000);
    if (m.ended) count(P_AFTER_END);
    if (m.faulted) count(P_AFTER_FAULT);
    bool ret = false; const void *p = nullptr; size_t ix = 0; bool alloc_was = alloc.fired; m.stopped = false; const size_t at0 = m.at; const uint64_t reads0 = m.reads;
    const bool fired0 = m.src_fired, eio0 = m.sys.eio_fired;
    m.src_fired = false; m.sys.eio_fired = false;
    if (m.stop_after != ~(size_t)0) m.delivered_total = 0;
    uint64_t n0 = alloc.n; (void)n0;
    alloc.peak = alloc.live_bytes; alloc.total = 0; lib_steps = 0; const size_t from_row = m.pos;
    auto r = guard(&m, [&] { auto &rd = *s.rd; switch (k) { case ROW: ret = rd.read_row(); break; case ROWS: ret = rd.read_rows(n); break; case ALL: rd.read_all(); break; case SKIP: ret = rd.skip(n); break; case NOSINK: p = rd.read_row_no_sink(); break; case EOD: rd.end_of_data(); break; } });
    const bool src_fault = m.src_fired || m.sys.eio_fired; m.src_fired |= fired0; m.sys.eio_fired |= eio0;
    const bool alloc_fired = alloc.fired && (!alloc_was || alloc.persistent); if (alloc_fired) count(P_ALLOC_IN_READ);
    { LibScope l; ix = s.rd->current_row_index(); }
    const uint64_t steps = lib_steps, peak = alloc.peak, total = alloc.total;
    static const char *names[] = {"read_row", "read_rows", "read_all", "skip", "read_row_no_sink", "end_of_data"};
    auto ctx = [&] { return std::string(names[k]) + "(" + (k == ROWS || k == SKIP ? std::to_string(n) : "") + ") at row " + std::to_string(m.pos) + " of " + std::to_string(N) + (K < N ? " (" + std::to_string(K) + " intact)" : ""); };
    hist(ret); hist(ix); hist(p != nullptr);
    if (!m.bad.empty()) violation("wrong-value", "%s: %s", ctx().c_str(), m.bad.c_str());
    if (m.dead_use) violation("use-after-destroy", "a source, sink or filter was used after it was destroyed or moved from");
    if (m.meter && !alloc.fired) {
      const auto &D = m.d->D; const size_t to = std::min(ix, N), nr = to > from_row ? to - from_row : 0; size_t pg = 1, pr = 0;
      if (N) { const size_t pa = D.row_page[std::min(from_row, N - 1)], pb = D.row_page[std::min(to, N - 1)]; for (size_t q = pa; q <= pb; ++q) pr += D.pages[q].nrows; pg += pb - pa; }
      count(P_METERED); count(P_METERED_PAGES, pg);
      const uint64_t held = peak > m.live1 ? peak - m.live1 : 0, may = 32768 + 8 * D.h.page_length + 8 * D.m.row_length;
      const uint64_t work = 2000 + 30 * (nr + pr) + 4 * nr * D.m.row_length + 60 * pg, churn = 8192 + pg * D.h.page_length + nr * D.m.row_length + 32 * pr; // about what it takes; eight times as much is refused
      if (getenv("SIM_METER")) fprintf(stderr, "METER %s comp=%d rows=%zu pages=%zu rl=%zu cols=%zu held=%llu may=%llu steps=%llu total=%llu  S=%.2f T=%.2f\n", ctx().c_str(), D.m.compression, nr, pg, D.m.row_length, D.cols.size(), (unsigned long long)held, (unsigned long long)may, (unsigned long long)steps, (unsigned long long)total, (double)steps / (double)work, (double)total / (double)churn);
      if (held > may) violation("memory-grows", "%s: %llu bytes more than after opening were in use; a page has %zu bytes and a row %zu", ctx().c_str(), (unsigned long long)held, D.h.page_length, D.m.row_length);
      if (steps > 8 * work) violation("work-grows", "%s: %zu rows on %zu pages (%zu rows) took the library %llu steps, more than %llu", ctx().c_str(), nr, pg, pr, (unsigned long long)steps, (unsigned long long)(8 * work));
      if (total > 8 * churn) violation("work-grows", "%s: %zu rows on %zu pages of %zu bytes took allocations of %llu bytes, more than %llu", ctx().c_str(), nr, pg, D.h.page_length, (unsigned long long)total, (unsigned long long)(8 * churn));
      m.check_ahead(to ? to - 1 : 0);
      if (!m.ahead.empty()) violation("reads-ahead", "%s: %s", ctx().c_str(), m.ahead.c_str());
    }
    // events
    size_t rows = 0, eods = 0; size_t first = 0; bool seq = true, late = false;
    for (auto &e : m.ev) {
      if (e.t == 'p') violation("wrong-events", "%s: set_properties called again", ctx().c_str());
      if (e.t == 'r') { if (eods) late = true; if (!rows) first = e.idx; else if (e.idx != first + rows) seq = false; ++rows; }
      if (e.t == 'e') ++eods;
      hist((uint64_t)e.t); hist(e.idx);
    }
    if (!seq) violation("wrong-index", "%s: row indices are not consecutive", ctx().c_str());
    if (late) violation("wrong-events", "%s: a row after the end of data", ctx().c_str());
    if (rows && (k == SKIP || k == NOSINK || k == EOD)) violation("extra-row", "%s: the sink received rows", ctx().c_str());
    if (eods && k == NOSINK) violation("wrong-events", "%s: touched the sink", ctx().c_str());
    if (eods > 1) violation("wrong-events", "%s: end_of_data called %zu times", ctx().c_str(), eods);
    const bool sinkrec = m.sinkkind == 0;
    if (!sinkrec) rows = ix >= m.pos ? ix - m.pos : 0, first = m.pos;
    if (p) { // the row without the sink
      size_t ri = ix ? ix - 1 : 0;
      const cs::COLUMNS *cols; { LibScope l; cols = &s.rd->properties().columns; }
      if (ri < K) { auto e = check_row(*cols, *m.d, m.map, ri, p); if (!e.empty()) violation("wrong-value", "%s: %s", ctx().c_str(), e.c_str()); }
      else if (!m.d->exact) hist(decode_any(*cols, p));
      m.last_row = p; m.last_idx = ri; m.last_ok = ri < K; count(C_ROWS);
    }
    // pending source failure: must surface before an end is reported
    if (src_fault) m.faulted = true;
    if (src_fault && !r.threw) m.pending_src = true;
    if (r.threw) m.pending_src = false;
    if (m.pending_src && (eods || (k != EOD && k != ALL && !ret && k != NOSINK && n) || (k == NOSINK && !p) || k == ALL) && k != EOD) violation("fault-as-end", "%s: the source failed, but the reader reported an end of data", ctx().c_str());
    if (src_fault && eods && k != EOD) violation("fault-as-end", "%s: end_of_data was called although the source failed", ctx().c_str());
    const size_t consumed = k == NOSINK ? (p ? 1 : 0) : rows;
    // relaxed: after a failure or within damage
    if (m.relaxed || !m.d->exact) {
      bool strict_part = !m.relaxed && !m.d->exact; // damaged file, rows before the damage
      if (rows && first < m.pos) violation("row-redelivered", "%s: row %zu delivered again", ctx().c_str(), first);
      if (m.relaxed && m.d->exact) for (auto &e : m.ev) if (e.t == 'r' && e.idx >= K) violation("extra-row", "%s: row %zu does not exist", ctx().c_str(), e.idx);
      if (ix < m.pos + consumed) violation("wrong-index", "%s: current_row_index() is %zu after %zu rows", ctx().c_str(), ix, m.pos + consumed);
      if (strict_part && m.pos < K && k != EOD && !m.stopped && !r.stopped) {
        size_t want = k == ROW || k == NOSINK ? 1 : k == ALL ? K - m.pos : n; want = std::min(want, K - m.pos);
        size_t got = k == SKIP ? (ix - m.pos) : consumed;
        bool okay = got >= want || (r.threw && (src_fault || alloc_fired || r.injected || alloc.capped));
        if (!okay) violation("missing-row", "%s: only %zu of the rows before the first damaged page were delivered%s%s", ctx().c_str(), got, r.threw ? ": " : "", r.what.c_str());
        if (rows && first != m.pos) violation("wrong-index", "%s: first row delivered is %zu", ctx().c_str(), first);
      }
      m.pos = ix; if (r.threw && !r.injected && m.d->exact) m.relaxed = true;
      if (eods || (k == NOSINK && !p)) m.ended = true;
      return;
    }
    // exact model
    const size_t left = K - m.pos; size_t want = 0; bool hits_end = false;
    switch (k) {
    case ROW: case NOSINK: want = left ? 1 : 0; hits_end = !left; break;
    case ROWS: case SKIP: want = std::min(n, left); hits_end = n > left; break;
    case ALL: want = left; hits_end = true; break;
    case EOD: break;
    }
    if (m.sinkkind && k == SKIP) rows = 0;
    if (r.injected) { // an exception of user code: what was delivered before counts, nothing is lost
      if (rows > want) violation("extra-row", "%s: %zu rows delivered, %zu available", ctx().c_str(), rows, want);
      if (rows && first != m.pos) violation("wrong-index", "%s: first row delivered is %zu", ctx().c_str(), first);
      if (src_fault) { // thrown by the source
        if (k != SKIP && ix != m.pos + consumed) violation("wrong-index", "%s: current_row_index() is %zu after %zu delivered rows", ctx().c_str(), ix, m.pos + rows);
        m.relaxed = true; m.pos = ix;
      } else {
        size_t expect = m.pos + (k == SKIP ? want : rows); if (k == EOD) expect = m.pos;
        if (ix != expect) violation("wrong-index", "%s: current_row_index() is %zu instead of %zu after an exception of the sink", ctx().c_str(), ix, expect);
        m.pos = ix;
      }
      return;
    }
    if (r.threw) {
      bool cut_end = m.d->cut && hits_end && K < N;
      if (cut_end) { // an exception instead of an end is allowed; everything intact must have been delivered
        if (eods) violation("wrong-events", "%s: end of data and an exception", ctx().c_str());
        if (k != SKIP && rows != (k == NOSINK ? 0 : want)) violation("missing-row", "%s: %zu rows instead of %zu before the exception", ctx().c_str(), rows, want);
        m.pos = K; m.relaxed = true; m.ended = true; return;
      }
      if (src_fault || m.faulted || alloc_fired || alloc.capped) {
        if (eods && k != EOD) violation("fault-as-end", "%s: end_of_data was called in a failing call", ctx().c_str());
        if (rows > want) violation("extra-row", "%s: %zu rows delivered, %zu available", ctx().c_str(), rows, want);
        if (rows && first != m.pos) violation("wrong-index", "%s: first row delivered is %zu", ctx().c_str(), first);
        if (ix < m.pos + consumed || ix > N) violation("wrong-index", "%s: current_row_index() is %zu after %zu delivered rows", ctx().c_str(), ix, m.pos + consumed);
        m.relaxed = true; m.pos = ix; return;
      }
      violation("unexpected-exception", "%s: %s", ctx().c_str(), r.what.c_str()); m.relaxed = true; m.pos = ix; return;
    }
    if (src_fault && k != EOD && !m.pending_src) violation("no-exception", "%s: the source failed and the call reported success", ctx().c_str());
    if (k != SKIP && k != NOSINK && sinkrec && rows != want) violation(rows < want ? "missing-row" : "extra-row", "%s: %zu rows delivered instead of %zu", ctx().c_str(), rows, want);
    if (k == NOSINK && (p != nullptr) != (want == 1)) violation(want ? "missing-row" : "extra-row", "%s: %s", ctx().c_str(), p ? "a row after the last one" : "no row");
    if (rows && first != m.pos) violation("wrong-index", "%s: first row delivered is %zu", ctx().c_str(), first);
    if (ix != m.pos + want) violation("wrong-index", "%s: current_row_index() is %zu instead of %zu", ctx().c_str(), ix, m.pos + want);
    size_t want_eod = k == EOD ? 1 : k == NOSINK ? 0 : hits_end ? 1 : 0;
    if (sinkrec && eods != want_eod) violation("wrong-events", "%s: end_of_data called %zu times instead of %zu", ctx().c_str(), eods, want_eod);
    bool want_ret = k == ROW ? want == 1 : !hits_end;
    if ((k == ROW || k == ROWS || k == SKIP) && ret != want_ret) violation("wrong-return", "%s returned %s", ctx().c_str(), ret ? "true" : "false");
    if (m.ended && (m.at != at0 || m.reads != reads0)) violation("source-read-after-end", "%s: the source was read again after the end was reported", ctx().c_str());
    m.pos += want; if (hits_end) m.ended = true;
    if (m.pos > m.d->D.h.page_length) count(P_SKIP_PAGE, 0);
  }

  void op_recheck(int i) {
    Slot &s = slots[(size_t)i]; if (!s.rd || !s.m || !s.m->last_row || !s.m->last_ok) return;
    const cs::COLUMNS *cols; { LibScope l; cols = &s.rd->properties().columns; }
    auto e = check_row(*cols, *s.m->d, s.m->map, s.m->last_idx, s.m->last_row); if (!e.empty()) violation("row-not-stable", "the row changed before the next call: %s", e.c_str());
  }
  void drop_slot(int i) {
    Slot &s = slots[(size_t)i];
    if (s.rd) { guard(s.m.get(), [&] { s.rd.reset(); }); if (s.m) { s.m->ev.clear(); check_lives(*s.m, s, false); } }
    forget(s);
  }
  void move_model(Slot &a, Slot &b) { // everything but the reader object itself
    std::swap(a.m, b.m); std::swap(a.src, b.src); std::swap(a.snk, b.snk); std::swap(a.flt, b.flt);
  }
  void op(const std::vector<std::string> &w) {
    const int i = w.size() > 1 ? (int)to_i(w[1]) : 0;
    if (std::find(same.begin(), same.end(), i) == same.end()) { op1(w); return; }
    Fnv h = history; history = Fnv(); op1(w); uint64_t x = history.h; history = h; hist(x);
    std::string name = w[0]; for (size_t k = 2; k < w.size(); ++k) name += " " + w[k];
    seen[i].emplace_back(name, x);
  }
  void check_same() {
    if (violated() || same.empty()) return;
    for (size_t k = 1; k < same.size(); ++k) { auto &a = seen[same[0]], &b = seen[same[k]];
      for (size_t j = 0; j < a.size() && j < b.size(); ++j) if (a[j] != b[j]) {
        if (a[j].first == b[j].first) violation("delivery-dependent", "call %zu (%s) gives another result when the bytes are delivered in another way (readers %d and %d)", j, a[j].first.c_str(), same[0], same[k]);
        return; } }
  }
  void op1(const std::vector<std::string> &w) {
    if (violated()) return;
    const std::string &o = w[0]; int i = w.size() > 1 ? (int)to_i(w[1]) : 0; int64_t n = w.size() > 2 ? to_i(w[2]) : 0;
    if (i < 0 || i >= 8) return;
    hist(o); sched_seam();
    if (o == "open") op_open(i);
    else if (o == "row") op_cursor(i, ROW, 1);
    else if (o == "rows") op_cursor(i, ROWS, (size_t)n);
    else if (o == "all") op_cursor(i, ALL, 0);
    else if (o == "skip") op_cursor(i, SKIP, (size_t)n);
    else if (o == "nosink") op_cursor(i, NOSINK, 1);
    else if (o == "eod") op_cursor(i, EOD, 0);
    else if (o == "props") op_props(i);
    else if (o == "recheck") op_recheck(i);
    else if (o == "drop") drop_slot(i);
    else if (o == "defcon") { drop_slot(i); LibScope l; slots[(size_t)i].rd.emplace(); }
    else if (o == "move") { // move-construct slot n from slot i
      if (n < 0 || n >= 8 || n == i) return;
      Slot &a = slots[(size_t)i], &b = slots[(size_t)n]; if (!a.rd) return;
      drop_slot((int)n); if (a.m) a.m->last_row = nullptr;
      { LibScope l; b.rd.emplace(std::move(*a.rd)); } move_model(a, b); count(P_MOVE);
      if (b.m) { if (!b.m->ev.empty()) { b.m->ev.clear(); } op_props((int)n); check_lives(*b.m, b, true); } op_props(i);
    } else if (o == "assign") {
      if (n < 0 || n >= 8 || n == i) return;
      Slot &a = slots[(size_t)i], &b = slots[(size_t)n]; if (!a.rd || !b.rd) return;
      if (a.m) a.m->last_row = nullptr;
      PImpl old = b.m; auto osrc = std::move(b.src); auto osnk = std::move(b.snk); auto oflt = std::move(b.flt); b.m.reset();
      if (old) old->ev.clear();
      { LibScope l; *b.rd = std::move(*a.rd); }
      if (old) { check_lives(*old, b, false); sys_forget(&old->sys); for (auto &e : old->ev) (void)e, violation("wrong-events", "destroying a reader called its sink"); }
      move_model(a, b); count(P_ASSIGN_OVER); if (b.m) { op_props((int)n); check_lives(*b.m, b, true); }
    } else if (o == "swap") {
      if (n < 0 || n >= 8 || n == i) return;
      Slot &a = slots[(size_t)i], &b = slots[(size_t)n]; if (!a.rd || !b.rd) return;
      if (a.m) a.m->last_row = nullptr;
      if (b.m) b.m->last_row = nullptr;
      { LibScope l; std::swap(*a.rd, *b.rd); } move_model(a, b); count(P_SWAP); op_props(i); op_props((int)n);
    } else if (o == "keep") {
      Slot &s = slots[(size_t)i]; if (!s.rd || !s.m || n < 0 || n >= 8 || !s.m->d->ok || !s.m->d->meta_ok) return;
      Kept &k = kept[(size_t)n]; const cs::Properties *p; { LibScope l; p = &s.rd->properties(); try { k.props = std::make_unique<cs::Properties>(*p); k.cols = std::make_unique<cs::COLUMNS>(p->columns); } catch (const std::bad_alloc &) { k = Kept(); return; } } k.d = s.m->d; k.map = s.m->map; k.ph = s.m->ph; k.from = s.m; k.set = true;
    } else if (o == "use") {
      Kept &k = kept[(size_t)i]; if (!k.set) return; count(P_KEPT_USED); if (k.from.use_count() == 1) count(P_KEPT_AFTER_DROP);
      if (hash_properties(*k.props) != k.ph) violation("kept-copy-changed", "a copy of the properties changed");
      if (k.d->D.rows.empty()) return;
      size_t r = (size_t)n % k.d->D.rows.size();
      for (const cs::COLUMNS *cols : {(const cs::COLUMNS *)k.cols.get(), (const cs::COLUMNS *)&k.props->columns}) { auto e = check_row(*cols, *k.d, k.map, r, k.d->D.rows[r].data()); if (!e.empty()) violation("kept-copy-changed", "a kept column description no longer works: %s", e.c_str()); }
      auto e = check_columns(*k.cols, *k.d, k.map); if (!e.empty()) violation("kept-copy-changed", "%s", e.c_str());
    } else if (o == "dupe") {
      Kept &k = kept[(size_t)i]; if (!k.set) return;
      std::unique_ptr<cs::COLUMNS> c; std::unique_ptr<cs::Properties> p; { LibScope l; try { c = std::make_unique<cs::COLUMNS>(*k.cols); p = std::make_unique<cs::Properties>(*k.props); } catch (const std::bad_alloc &) { return; } }
      if (!k.d->D.rows.empty()) { size_t r = (size_t)n % k.d->D.rows.size(); auto e = check_row(*c, *k.d, k.map, r, k.d->D.rows[r].data()); if (!e.empty()) violation("kept-copy-changed", "a copied column description does not work: %s", e.c_str()); }
      { LibScope l; c.reset(); p.reset(); }
    } else if (o == "unkeep") { kept[(size_t)i] = Kept(); }
    else if (o == "arm") alloc.arm((uint64_t)i, n != 0); // arm N persist  (N < 8 only via "armn")
    else if (o == "disarm") alloc.disarm();
  }

  void finish() {
    for (int i = 0; i < 8; ++i) { // a pending failure must surface eventually
      Slot &s = slots[(size_t)i];
      if (!violated() && s.rd && s.m && s.m->pending_src && !alloc.fired) op_cursor(i, ALL, 0);
    }
    check_same();
    alloc.disarm();
    for (int i = 0; i < 8; ++i) drop_slot(i);
    for (auto &k : kept) k = Kept();
  }
};

struct Prog { World *w; std::vector<std::vector<std::string>> ops; };
void prog_entry(void *p) { auto *g = (Prog *)p; for (auto &o : g->ops) g->w->op(o); }

uint64_t shape_of(const std::vector<Line> &lines, const World &) {
  Fnv f;
  for (auto &l : lines) { const auto &w = l.w; f.str(w[0]); if (w[0] == "op" || w[0] == "top") for (size_t i = 1; i < w.size(); ++i) f.str(w[i]); else if (w[0] == "dp") { if (w[2] != "seed") { f.str(w[2]); f.str(w[3]); } } else for (size_t i = 1; i < w.size(); ++i) f.str(w[i]); }
  return f.h;
}
} // namespace

void run_reader_episode(const std::vector<Line> &lines) {
  alloc.disarm(); alloc.fired = false; alloc.capped = false;
  {
    World W; SchedCfg sc; bool auto_sched = false; int fill = -1;
    for (auto &l : lines) {
      const auto &w = l.w;
      if (W.ds.line(l)) continue;
      if (w[0] == "rdr") { int i = (int)to_i(w[1]); if (i >= 0 && i < 8) W.slots[(size_t)i].cfg = l; }
      else if (w[0] == "flt" || w[0] == "fault") { int i = (int)to_i(w[1]); if (i >= 0 && i < 8) W.slots[(size_t)i].fl.push_back(l); }
      else if (w[0] == "auto" && w[1] == "sched") { auto_sched = true; sc.seed = (uint64_t)to_i(w[2]); sc.mean = (uint64_t)to_i(w[3]); sc.seam = (unsigned)to_i(w[4]); }
      else if (w[0] == "sw") { sc.explicit_ = true; sc.sw.push_back({(int)to_i(w[1]), (uint64_t)to_i(w[2]), (int)to_i(w[3])}); }
      else if (w[0] == "same") { for (size_t k = 1; k < w.size(); ++k) W.same.push_back((int)to_i(w[k])); }
      else if (w[0] == "meter") W.metered = true;
      else if (w[0] == "fill") { fill = (int)to_i(w[1]); count(F_MEMFILL); }
    }
    W.ds.build();
    alloc.fill = fill;
    if (!auto_sched) sc.explicit_ = true;
    std::vector<Prog> progs; bool joined = false;
    auto join = [&] {
      if (joined || progs.empty()) { joined = true; return; }
      joined = true;
      std::vector<void (*)(void *)> f; std::vector<void *> a; for (auto &p : progs) { p.w = &W; f.push_back(prog_entry); a.push_back(&p); }
      std::vector<Switch> tr; uint64_t sh = 0; sched_run(f, a, sc, tr, sh); hist(sh); shm->shape = hash2(shm->shape, sh);
      if (auto_sched) for (auto &s : tr) pin_add("sw %d %llu %d\n", s.from, (unsigned long long)s.step, s.to);
    };
    for (auto &l : lines) if (l.w[0] == "top") { size_t t = (size_t)to_i(l.w[1]); if (progs.size() <= t && t < 8) progs.resize(t + 1); if (t < 8) progs[t].ops.emplace_back(l.w.begin() + 2, l.w.end()); }
    for (auto &l : lines) {
      if (l.w[0] == "top") { join(); continue; }
      if (l.w[0] == "armn") { alloc.arm((uint64_t)to_i(l.w[1]), l.w.size() > 2 && to_i(l.w[2])); continue; }
      if (l.w[0] != "op") continue;
      W.op(std::vector<std::string>(l.w.begin() + 1, l.w.end()));
      if (violated()) break;
    }
    W.finish();
    shm->shape = hash2(shm->shape, shape_of(lines, W));
  }
  alloc.fill = -1; alloc.disarm();
}
} // namespace sim
