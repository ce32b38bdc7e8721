// Seeded plan generators, one per property.
#include "world.hpp"
#include <algorithm>
#include <cstring>
#include <sys/stat.h>
namespace sim {
namespace {
struct G {
  Plan p; Rng r; std::string tier; bool deep;
  G(uint64_t seed, const std::string &t) : r(seed), tier(t), deep(t == "thorough") {}
  std::map<int, Dataset> built;

  void data(int k, const std::string &profile, unsigned corpus_in_100) { gen_data(p, r, k, profile, corpus_in_100); }
  Params params_of(int k) { Params q; for (auto &l : p.lines) if (l.w[0] == "dp" && to_i(l.w[1]) == k) q[l.w[2]] = to_i(l.w[3]); return q; }
  std::string corpus_of(size_t from, int k) { for (size_t i = from; i < p.lines.size(); ++i) { auto &w = p.lines[i].w; if (w[0] == "data" && to_i(w[1]) == k && w.size() > 3) return w[3]; } return ""; }
  Dataset make(size_t from, int k) { // the data set the plan describes since line `from`
    std::string c = corpus_of(from, k);
    Dataset D; std::string why;
    if (!c.empty()) { const char *env = getenv("SIM_REPO"); Bytes b = read_file(std::string(env ? env : "/repo") + "/test/" + c); if (!ref_decode(b, D, why)) D.image = b; return D; }
    Params q; for (size_t i = from; i < p.lines.size(); ++i) { auto &w = p.lines[i].w; if (w[0] == "dp" && to_i(w[1]) == k) q[w[2]] = to_i(w[3]); }
    return make_dataset(q);
  }
  std::string src() { static const char *s[] = {"mem", "mem", "mem", "memref", "file"}; return s[r.below(5)]; }
  std::string eof() { return r.chance(1, 2) ? "eager" : "lazy"; }
  std::string sink() { return r.chance(1, 8) ? "null" : r.chance(1, 4) ? "recref" : "rec"; }
  void filter_lines(int i, const std::string &f, size_t ncols) {
    if (f == "inc" || f == "exc" || f == "incexc") {
      for (int pass = 0; pass < 2; ++pass) {
        const char *kind = pass == 0 ? "inc" : "exc";
        if (f != "incexc" && f != kind) continue;
        if (f == "incexc" && r.chance(1, 3)) continue; // that list stays empty
        size_t n = r.below(std::min<size_t>(ncols + 2, 8));
        for (size_t k = 0; k < n; ++k) p.add("flt %d %s %lld", i, kind, r.chance(1, 4) ? -(long long)(1 + r.below(8)) : (long long)r.below(ncols ? ncols : 1));
      }
    } else if (f == "user" || f == "userref") p.add("flt %d mask %llx", i, (unsigned long long)(r.chance(1, 8) ? 0 : r.chance(1, 8) ? ~0ull : r.next()));
  }
  std::string filt() { static const char *f[] = {"inc", "exc", "incexc", "user", "userref"}; return f[r.below(5)]; }
  void shorts(int i, unsigned den = 2) { if (r.chance(1, 4)) { p.add("fault %d sys pipe %llu", i, (unsigned long long)(1 + r.below(1u << 30))); if (r.chance(1, 2)) return; } if (!r.chance(1, den)) return; size_t n = 1 + r.below(deep ? 20 : 8); for (size_t k = 0; k < n; ++k) p.add("fault %d sys %s %llu %llu", i, r.chance(1, 3) ? "eintr" : "short", (unsigned long long)r.small(200), (unsigned long long)r.below(20000)); }
  // cursor operations
  void cursor(const char *pre, int i, size_t nrows, size_t nops, bool ends) {
    for (size_t k = 0; k < nops; ++k) {
      size_t n = r.chance(1, 6) ? 0 : r.chance(1, 12) ? nrows + r.below(3) : r.chance(1, 6) ? r.below(nrows + 2) : 1 + r.small(40);
      switch (r.below(12)) {
      case 0: case 1: p.add("%s row %d", pre, i); break;
      case 2: case 3: p.add("%s rows %d %zu", pre, i, n); break;
      case 4: case 5: p.add("%s skip %d %zu", pre, i, n); break;
      case 6: case 7: p.add("%s nosink %d", pre, i); if (r.chance(1, 2)) p.add("%s recheck %d", pre, i); break;
      case 8: p.add("%s props %d", pre, i); break;
      case 9: if (r.chance(1, 3)) p.add("%s eod %d", pre, i); else p.add("%s row %d", pre, i); break;
      case 10: if (r.chance(1, 6)) p.add("%s all %d", pre, i); else p.add("%s rows %d %zu", pre, i, n); break;
      default: if (ends && r.chance(1, 3)) p.add("%s rows %d %zu", pre, i, nrows + r.below(3)); else p.add("%s row %d", pre, i);
      }
    }
  }
  size_t nrows(size_t from, int k) { for (size_t i = p.lines.size(); i-- > from;) { auto &w = p.lines[i].w; if (w[0] == "dp" && to_i(w[1]) == k && w[2] == "nrows") return (size_t)to_i(w[3]); } return 50; }
  size_t ncols(size_t from, int k) { for (size_t i = p.lines.size(); i-- > from;) { auto &w = p.lines[i].w; if (w[0] == "dp" && to_i(w[1]) == k && w[2] == "ncols") return (size_t)to_i(w[3]); } return 6; }
  void finish_read(const char *pre, int i, size_t N) { // read the rest some way
    switch (r.below(4)) {
    case 0: p.add("%s all %d", pre, i); break;
    case 1: p.add("%s rows %d %zu", pre, i, N + 1); break;
    case 2: p.add("%s skip %d %zu", pre, i, r.below(N + 1)); p.add("%s all %d", pre, i); break;
    default: { size_t n = r.below(std::min<size_t>(N, 12) + 1); for (size_t k = 0; k < n; ++k) p.add("%s %s %d", pre, r.chance(1, 2) ? "nosink" : "row", i); p.add("%s all %d", pre, i); }
    }
  }
  void cut(size_t from, int k) {
    Dataset D = make(from, k); size_t n = D.image.size(), hl = D.h.header_length, pl = D.h.page_length; if (!n) return;
    size_t c;
    switch (r.below(8)) {
    case 0: c = r.below(n); break;
    case 1: c = r.below(std::min(n, hl + 1)); break;
    case 2: { static const size_t s[] = {0, 1, 31, 32, 164, 200, 287, 288, 289, 296}; c = s[r.below(10)]; break; }
    case 3: case 4: { size_t pg = D.pages.empty() ? 0 : r.below(D.pages.size() + 1); c = hl + pg * pl; static const long d[] = {0, 0, -1, 1, 8, 16, 17, 24, 32, 40, -8}; long e = (long)c + d[r.below(11)]; c = e < 0 ? 0 : (size_t)e; break; }
    case 5: c = D.meta_end ? (size_t)std::max<long>(0, (long)D.meta_end - 1 + (long)r.below(3)) : r.below(n); break;
    default: c = D.meta_end < n ? D.meta_end + r.below(n - D.meta_end) : r.below(n);
    }
    p.add("cut %d %zu", k, std::min(c, n));
  }
  void damage(size_t from, int k) {
    Dataset D = make(from, k); size_t n = D.image.size(); if (!n) return;
    size_t m = 1 + r.small(deep ? 12 : 5);
    for (size_t e = 0; e < m; ++e) {
      size_t off; bool big = D.h.big; std::string val;
      if (!D.landmarks.empty() && r.chance(3, 4)) { // a field
        auto &l = D.landmarks[r.below(r.chance(1, 3) ? std::min<size_t>(7, D.landmarks.size()) : D.landmarks.size())]; off = l.first;
        if (r.chance(1, 8)) off += r.below(8);
      } else if (r.chance(1, 3)) off = r.below(std::min<size_t>(n, 320));
      else off = r.below(n);
      static const int ws[] = {1, 2, 4, 8}; int w = ws[r.below(4)];
      uint64_t cur = 0; for (int b = 0; b < w && off + (size_t)b < n; ++b) cur |= (uint64_t)D.image[off + (size_t)b] << (8 * (big ? w - 1 - b : b));
      uint64_t v;
      switch (r.below(12)) {
      case 0: v = 0; break; case 1: v = ~0ull; break; case 2: v = 1; break; case 3: v = 0x7fffffffffffffffull >> (64 - 8 * w); break;
      case 4: v = 1ull << (8 * w - 1); break; case 5: v = cur + 1 + r.below(8); break; case 6: v = cur - 1 - r.below(8); break;
      case 7: v = D.h.page_length + r.below(17) - 8; break; case 8: v = cur * 2 + r.below(3); break; case 9: v = r.next(); break;
      case 10: v = r.below(300); break; default: v = ~0ull - r.below(64);
      }
      for (int b = 0; b < w; ++b) val += (char)(v >> (8 * (big ? w - 1 - b : b)));
      p.add("edit %d %zu %s", k, off, hex(val).c_str());
    }
    if (r.chance(1, 6)) { // a stretch of noise
      size_t off = r.chance(1, 2) && D.meta_end ? r.below(D.meta_end) : r.below(n), len = 1 + r.small(600); std::string v; for (size_t i = 0; i < len; ++i) v += (char)r.next();
      p.add("edit %d %zu %s", k, off, hex(v).c_str());
    }
    if (r.chance(1, 6)) sectors(D, k);
    if (r.chance(1, 5)) p.add("cut %d %zu", k, r.below(n));
  }
  void sectors(const Dataset &D, int k) { // lost, repeated, exchanged or shifted pieces of the device
    const size_t n = D.image.size(), pl = D.h.page_length, hl = D.h.header_length; auto put = [&](size_t o, const Bytes &b) { for (size_t i = 0; i < b.size(); i += 8192) p.add("edit %d %zu %s", k, o + i, hex(std::string(b.begin() + (long)i, b.begin() + (long)std::min(b.size(), i + 8192))).c_str()); };
    auto piece = [&](size_t o, size_t len) { return Bytes(D.image.begin() + (long)std::min(o, n), D.image.begin() + (long)std::min(o + len, n)); };
    const bool page = r.chance(2, 3) && pl && n > hl + pl && pl <= 16384; const size_t unit = page ? pl : 512, base = page ? hl : 0, cnt = (n - base) / unit; if (!cnt) return;
    const size_t a = r.below(cnt), b = r.below(cnt);
    switch (r.below(4)) {
    case 0: put(base + a * unit, Bytes(unit, r.chance(1, 4) ? 0xff : 0)); break;
    case 1: put(base + a * unit, piece(base + b * unit, unit)); break;
    case 2: put(base + a * unit, piece(base + b * unit, unit)); put(base + b * unit, piece(base + a * unit, unit)); break;
    default: { size_t from = base + a * unit, by = page && r.chance(1, 2) ? unit : 1 + r.below(600); if (from + by >= n || n - from > 60000) return; if (r.chance(1, 2)) put(from, piece(from + by, n)); else { Bytes t = piece(from, n - from - by); put(from + by, t); } }
    }
  }
  // stored rows of compressed pages are damaged too
  void src_fault(int i, size_t maxcall, int excs, size_t base = 0) { // at a call from `base` on
    auto call = [&] { return (unsigned long long)(base ? base + r.below(maxcall) : r.small(maxcall)); };
    switch (r.below(4)) {
    case 0: p.add("fault %d src eof %llu 0 once %d", i, call(), (int)r.below((uint64_t)excs)); break;
    case 1: p.add("fault %d src throw %llu %llu once %d%s", i, call(), (unsigned long long)(r.chance(1, 2) ? r.below(5000) : 0), (int)r.below((uint64_t)excs), r.chance(1, 3) ? " lose" : ""); break;
    default: p.add("fault %d src false %llu %llu %s 0%s", i, call(), (unsigned long long)(r.chance(1, 2) ? r.below(5000) : 0), r.chance(1, 2) ? "sticky" : "once", r.chance(1, 3) ? " lose" : "");
    }
  }
};

void ep_read(G &g, const char *profile, unsigned corpus) { // C01
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, profile, corpus);
  std::string s = g.src(); g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=all", s.c_str(), g.eof().c_str(), g.sink().c_str());
  if (s == "file") g.shorts(0);
  g.p.add("op open 0"); g.finish_read("op", 0, g.nrows(from, 0));
}
void stream_data(G &g) { // many small pages
  if (g.r.chance(1, 12)) { static const char *big[] = {"data_poe/nls_panel2.sas7bdat", "data_poe/stockton.sas7bdat", "data_poe/mexican.sas7bdat", "data_poe/nels.sas7bdat", "data_poe/star.sas7bdat", "data_AHS2013/owner.sas7bdat", "data_poe/nls_panel.sas7bdat", "data_poe/cps.sas7bdat", "data_poe/ces.sas7bdat", "data_poe/cps4.sas7bdat", "data_AHS2013/rmov.sas7bdat", "data_AHS2013/homimp.sas7bdat", "data_poe/nls.sas7bdat"}; g.p.add("data 0 corpus %s", big[g.r.below(g.deep ? 13 : 11)]); return; }
  g.data(0, "small", 0); bool narrow = g.r.chance(1, 2); int nc = (int)g.r.range(1, 3);
  static const int pl[] = {1024, 1024, 2048, 4096, 1536};
  g.p.add("dp 0 narrow %d\ndp 0 ncols %d\ndp 0 page_length %d\ndp 0 nrows %d\ndp 0 spread 0\ndp 0 safetail 1", (int)narrow, nc, g.r.chance(1, 6) ? 65536 : pl[g.r.below(5)], (int)((narrow ? 20000 : 4000) + g.r.below(narrow ? 20000 : 6000)) * (g.deep && g.r.chance(1, 4) ? 3 : 1));
}
void ep_stream(G &g) { // C20
  if (g.r.chance(1, 4)) {
    g.p.add("ep out\nmeter"); size_t from = g.p.lines.size() - 2; stream_data(g); size_t N = g.nrows(from, 0);
    g.p.add("out %s moves=%d partial=-1 skip=%d exc=0 mode=0", g.r.chance(1, 3) ? "csvfile" : g.r.chance(1, 2) ? "csv" : "print", (int)g.r.below(3), g.r.chance(1, 4) ? (int)g.r.below(N / 4 + 1) : 0); return;
  }
  g.p.add("ep reader\nmeter"); size_t from = g.p.lines.size() - 2; stream_data(g); size_t N = g.nrows(from, 0);
  std::string s = g.src(), f = g.r.chance(1, 4) ? g.filt() : "all"; g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=%s", s.c_str(), g.eof().c_str(), g.sink().c_str(), f.c_str()); g.filter_lines(0, f, 3);
  if (s == "file") g.shorts(0);
  int throws = g.r.chance(1, 4) ? 10 + (int)g.r.below(60) : 0; uint64_t k = 0;
  for (int i = 0; i < throws; ++i) { k += 1 + g.r.below(N / 60 + 1); g.p.add("fault 0 sink r %llu %d", (unsigned long long)k, (int)g.r.below(EXC_KINDS)); }
  g.p.add("op open 0"); if (g.r.chance(1, 3)) g.cursor("op", 0, N, g.r.below(12), false);
  for (int i = 0; i < throws; ++i) g.p.add("op all 0");
  switch (g.r.below(5)) {
  case 0: g.p.add("op all 0"); break;
  case 1: { size_t n = N / 50 + 1 + g.r.below(N / 20); for (size_t i = 0; i < N + n; i += n) g.p.add("op rows 0 %zu", n); break; }
  case 2: { size_t n = N / 50 + 1 + g.r.below(N / 20); for (size_t i = 0; i < N + n; i += n) { g.p.add("op skip 0 %zu", n - 1); g.p.add("op %s 0", g.r.chance(1, 2) ? "row" : "nosink"); } break; }
  case 3: { size_t n = 200 + g.r.below(600); for (size_t i = 0; i < n; ++i) g.p.add("op %s 0", i % 7 == 3 ? "props" : g.r.chance(1, 2) ? "nosink" : "row"); g.p.add("op skip 0 %zu", N); break; }
  default: g.p.add("op skip 0 %zu", (size_t)g.r.below(N + 1)); g.p.add("op all 0");
  }
}
void ep_history(G &g) { // C02
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, g.r.chance(1, 2) ? "small" : "", 4);
  std::string s = g.src(); g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=%s", s.c_str(), g.eof().c_str(), g.sink().c_str(), g.r.chance(1, 6) ? "user" : "all");
  if (g.r.chance(1, 6)) g.p.add("flt 0 mask %llx", (unsigned long long)g.r.next());
  if (g.r.chance(1, 12)) { g.p.add("op defcon 0"); g.cursor("op", 0, 5, 3, true); }
  g.p.add("op open 0"); g.cursor("op", 0, g.nrows(from, 0), 4 + g.r.below(g.deep ? 60 : 25), true);
  if (g.r.chance(1, 2)) { g.finish_read("op", 0, g.nrows(from, 0)); g.cursor("op", 0, g.nrows(from, 0), g.r.below(6), true); }
  if (g.r.chance(1, 10)) { g.p.add("op move 0 1"); g.cursor("op", 0, 5, 4, true); g.cursor("op", 1, 5, 4, true); }
}
void ep_props(G &g) { // C03
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, "meta", 15);
  size_t N = g.nrows(from, 0), C = g.ncols(from, 0);
  std::string f = g.r.chance(1, 3) ? g.filt() : "all", s = g.src();
  g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=%s", s.c_str(), g.eof().c_str(), g.r.chance(1, 3) ? "recref" : "rec", f.c_str()); g.filter_lines(0, f, C);
  if (s == "file") g.shorts(0);
  if (g.r.chance(1, 4)) g.p.add("fault 0 sink r %llu %d", (unsigned long long)g.r.small(N + 1), (int)g.r.below(EXC_KINDS));
  if (g.r.chance(1, 5) && s != "file") g.src_fault(0, 20, EXC_KINDS);
  g.p.add("op open 0"); g.p.add("op keep 0 0");
  size_t n = 1 + g.r.below(6);
  for (size_t k = 0; k < n; ++k) { g.cursor("op", 0, N, 1, true); g.p.add("op props 0"); }
  if (g.r.chance(1, 3)) { g.p.add("op move 0 1"); g.p.add("op props 1"); g.p.add("op all 1"); g.p.add("op props 1"); } else { g.p.add("op all 0"); g.p.add("op props 0"); }
  g.p.add("op use 0 %llu", (unsigned long long)g.r.below(100));
}
void ep_filter(G &g) { // C04
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, "", 10); size_t N = g.nrows(from, 0), C = g.ncols(from, 0);
  std::string f = g.filt(), s = g.src(); g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=%s", s.c_str(), g.eof().c_str(), g.sink().c_str(), f.c_str()); g.filter_lines(0, f, C);
  g.p.add("op open 0"); g.cursor("op", 0, N, g.r.below(8), true); g.finish_read("op", 0, N);
  if (g.r.chance(1, 3)) { std::string f2 = g.filt(); g.p.add("rdr 1 data=0 src=mem eof=lazy sink=rec filt=%s", f2.c_str()); g.filter_lines(1, f2, C); g.p.add("op open 1"); g.p.add("op all 1"); }
}
void ep_cut(G &g) { // C05
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, g.r.chance(1, 3) ? "small" : "", 12); size_t N = g.nrows(from, 0); g.cut(from, 0);
  std::string s = g.src(); g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=all", s.c_str(), g.eof().c_str(), g.sink().c_str()); if (s == "file") g.shorts(0, 3);
  g.p.add("op open 0"); if (g.r.chance(1, 2)) g.cursor("op", 0, N, g.r.below(10), true);
  g.finish_read("op", 0, N); g.cursor("op", 0, N, g.r.below(5), true);
}
void ep_srcfault(G &g) { // C06
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, g.r.chance(1, 2) ? "small" : "", 5); size_t N = g.nrows(from, 0);
  bool file = g.r.chance(1, 3);
  g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=all", file ? "file" : g.r.chance(1, 4) ? "memref" : "mem", g.eof().c_str(), g.sink().c_str());
  // half of the failures hit a page read after the reader was opened
  size_t base = 0, room = 25; if (g.r.chance(2, 3)) { Dataset D = g.make(from, 0); if (D.h.page_length && D.meta_end > D.h.header_length) { base = 2 + (D.meta_end - D.h.header_length) / D.h.page_length; room = 1 + (D.image.size() - D.meta_end) / D.h.page_length; } }
  if (file) { g.p.add("fault 0 sys %s %llu 0", g.r.chance(1, 2) ? "eio" : "eiosticky", (unsigned long long)(base ? base - 1 + g.r.below(room + 1) : g.r.small(40))); g.shorts(0, 3); }
  else { g.src_fault(0, room, EXC_KINDS, base); if (g.r.chance(1, 4)) g.src_fault(0, 25, EXC_KINDS); }
  g.p.add("op open 0"); g.cursor("op", 0, N, 1 + g.r.below(12), true); g.finish_read("op", 0, N); g.cursor("op", 0, N, g.r.below(6), true);
}
void ep_delivery(G &g) { // C07
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, g.r.chance(1, 3) ? "small" : "", 10); size_t N = g.nrows(from, 0);
  if (g.r.chance(1, 16)) { g.p.add("rdr 0 data=0 src=%s eof=lazy sink=rec filt=all", g.r.chance(1, 2) ? "missing" : "dir"); g.p.add("op open 0"); return; }
  // the same history over several ways of delivering the bytes
  Plan ops; { Plan keep = g.p; g.p.lines.clear(); g.cursor("op", 9, N, g.r.below(8), true); g.finish_read("op", 9, N); g.cursor("op", 9, N, g.r.below(4), true); ops = g.p; g.p = keep; }
  g.p.add("rdr 0 data=0 src=mem eof=eager sink=rec filt=all"); g.p.add("rdr 1 data=0 src=mem eof=lazy sink=rec filt=all"); g.p.add("rdr 2 data=0 src=file eof=lazy sink=rec filt=all");
  g.shorts(2, 1);
  switch (g.r.below(8)) { case 0: g.cut(from, 0); break; case 1: g.damage(from, 0); break; default:; }
  g.p.add("same 0 1 2");
  for (int i = 0; i < 3; ++i) { g.p.add("op open %d", i); for (auto l : ops.lines) { if (l.w.size() > 2 && l.w[2] == "9") l.w[2] = std::to_string(i); g.p.lines.push_back(l); } }
}
void ep_damage(G &g) { // C08
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1;
  if (g.r.chance(1, 12)) { // not a SAS file at all
    g.p.add("data 0"); size_t n = g.r.small(3000); std::string v; for (size_t i = 0; i < n; ++i) v += (char)g.r.next();
    if (g.r.chance(1, 2)) { const Bytes &magic = magic_number(); for (size_t i = 0; i < 32 && i < v.size(); ++i) v[i] = (char)magic[i]; if (g.r.chance(1, 4) && !v.empty()) v[g.r.below(std::min<size_t>(32, v.size()))] ^= (char)(1 + g.r.below(255)); }
    g.p.add("raw 0 %s", hex(v).c_str());
    g.p.add("dp 0 ncols 1");
  } else { g.data(0, g.r.chance(2, 3) ? "small" : "", 12); if (g.r.chance(1, 20)) { size_t o = g.r.below(32); g.p.add("edit 0 %zu %s", o, hex(std::string(1, (char)(magic_number()[o] ^ (1 + g.r.below(255))))).c_str()); } if (!g.p.lines.back().w.empty() && (g.p.lines.back().w[0] != "edit" || g.r.chance(1, 3))) g.damage(from, 0); }
  size_t N = g.nrows(from, 0); std::string s = g.r.chance(1, 12) ? "file" : "mem", f = g.r.chance(1, 6) ? g.filt() : "all";
  g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=%s", s.c_str(), g.eof().c_str(), g.r.chance(1, 4) ? "recref" : "rec", f.c_str()); g.filter_lines(0, f, g.ncols(from, 0));
  g.p.add("op open 0"); g.cursor("op", 0, N, g.r.below(6), true); g.finish_read("op", 0, N); g.cursor("op", 0, N, g.r.below(5), true);
}
void ep_alloc(G &g) { // C09
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, "small", 4); size_t N = g.nrows(from, 0);
  std::string s = g.r.chance(1, 4) ? "file" : "mem", f = g.r.chance(1, 3) ? g.filt() : "all", k = g.r.chance(1, 4) ? "recref" : g.r.chance(1, 8) ? "null" : "rec";
  g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=%s", s.c_str(), g.eof().c_str(), k.c_str(), f.c_str()); g.filter_lines(0, f, g.ncols(from, 0));
  bool late = g.r.chance(1, 3);
  if (late) g.p.add("op open 0");
  g.p.add("auto sweep %llu %d %d %d", (unsigned long long)(g.r.chance(1, 2) ? 1 : 1 + g.r.below(400)), g.r.chance(2, 3) ? 1 : (int)(1 + g.r.below(7)), g.deep ? 400 : 120, (int)g.r.below(2));
  if (!late) g.p.add("op open 0");
  g.cursor("op", 0, N, g.r.below(6), true); g.finish_read("op", 0, N); g.cursor("op", 0, N, g.r.below(3), true);
}
void ep_callbacks(G &g) { // C10
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, "small", 4); size_t N = g.nrows(from, 0);
  std::string f = g.r.chance(1, 4) ? g.r.chance(1, 2) ? "user" : "userref" : "all"; bool ref = g.r.chance(1, 3);
  g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=%s", g.r.chance(1, 4) ? "memref" : "mem", g.eof().c_str(), ref ? "recref" : "rec", f.c_str()); g.filter_lines(0, f, g.ncols(from, 0));
  size_t n = 1 + g.r.below(4); bool any = false;
  for (size_t k = 0; k < n; ++k) {
    int e = (int)g.r.below(EXC_KINDS);
    switch (g.r.below(8)) {
    case 0: if (g.r.chance(1, 3)) { g.p.add("fault 0 sink p 0 %d", e); break; } [[fallthrough]];
    case 1: g.p.add("fault 0 sink e %llu %d", (unsigned long long)g.r.below(3), e); break;
    case 2: if (f != "all" && !any) { g.p.add("fault 0 filter %llu %d", (unsigned long long)g.r.small(6), e); any = true; break; } [[fallthrough]];
    case 3: g.p.add("fault 0 src %s %llu 0 once %d", g.r.chance(1, 2) ? "throw" : "eof", (unsigned long long)g.r.small(25), e); break;
    default: g.p.add("fault 0 sink r %llu %d", (unsigned long long)g.r.small(N + 1), e);
    }
  }
  g.p.add("op open 0"); g.cursor("op", 0, N, 2 + g.r.below(10), true); g.finish_read("op", 0, N); g.p.add("op all 0"); g.cursor("op", 0, N, g.r.below(6), true);
}
void ep_threads(G &g) { // C11
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1;
  int nd = 1 + (int)g.r.below(2); for (int k = 0; k < nd; ++k) g.data(k, "small", 3);
  bool threads = !g.r.chance(1, 5); int T = 2 + (int)g.r.below(3), nr = threads ? T : 2 + (int)g.r.below(2);
  if (threads) g.p.add("auto sched %llu %llu %d", (unsigned long long)(g.r.next() >> 20), (unsigned long long)(g.r.chance(1, 3) ? 5 + g.r.below(60) : g.r.chance(1, 2) ? 100 + g.r.below(900) : 1000 + g.r.below(20000)), (int)(g.r.chance(1, 3) ? 0 : 1 + g.r.below(8)));
  for (int i = 0; i < nr; ++i) {
    int dk = (int)g.r.below((uint64_t)nd); std::string f = g.r.chance(1, 5) ? g.filt() : "all";
    g.p.add("rdr %d data=%d src=%s eof=%s sink=%s filt=%s", i, dk, g.src().c_str(), g.eof().c_str(), g.r.chance(1, 4) ? "recref" : "rec", f.c_str()); g.filter_lines(i, f, g.ncols(from, dk));
    if (g.r.chance(1, 8)) g.p.add("fault %d sink r %llu %d", i, (unsigned long long)g.r.small(20), (int)g.r.below(EXC_KINDS));
    if (g.r.chance(1, 10)) g.src_fault(i, 20, EXC_KINDS);
  }
  bool kept = g.r.chance(1, 2);
  if (threads) {
    if (kept) { g.p.add("rdr 7 data=0 src=mem eof=lazy sink=rec filt=all"); g.p.add("op open 7"); g.p.add("op keep 7 0"); if (g.r.chance(1, 2)) g.p.add("op drop 7"); }
    std::vector<int> preopen; for (int i = 0; i < nr; ++i) if (g.r.chance(1, 3)) { g.p.add("op open %d", i); preopen.push_back(i); }
    for (int t = 0; t < T; ++t) {
      char pre[16]; snprintf(pre, sizeof pre, "top %d", t);
      if (std::find(preopen.begin(), preopen.end(), t) == preopen.end()) g.p.add("%s open %d", pre, t);
      size_t n = 1 + g.r.below(4);
      for (size_t k = 0; k < n; ++k) { g.cursor(pre, t, 20, 1 + g.r.below(3), true); if (kept && g.r.chance(1, 2)) g.p.add("%s %s 0 %llu", pre, g.r.chance(1, 2) ? "use" : "dupe", (unsigned long long)g.r.below(50)); }
      if (g.r.chance(2, 3)) g.p.add("%s all %d", pre, t);
      if (g.r.chance(1, 4)) { g.p.add("%s drop %d", pre, t); if (g.r.chance(1, 2)) { g.p.add("%s open %d", pre, t); g.p.add("%s all %d", pre, t); } }
    }
    for (int i = 0; i < nr; ++i) if (g.r.chance(1, 3)) g.p.add("op all %d", i);
    if (kept) { g.p.add("op drop 7"); g.p.add("op use 0 3"); }
  } else {
    std::vector<int> st((size_t)nr, 0); size_t n = 8 + g.r.below(30);
    for (size_t k = 0; k < n; ++k) {
      int i = (int)g.r.below((uint64_t)nr);
      if (!st[(size_t)i]) { g.p.add("op open %d", i); st[(size_t)i] = 1; if (kept && g.r.chance(1, 2)) g.p.add("op keep %d %d", i, i); }
      else if (g.r.chance(1, 12)) { g.p.add("op drop %d", i); st[(size_t)i] = 0; }
      else if (g.r.chance(1, 14)) { int j = (int)g.r.below((uint64_t)nr); if (j != i) { g.p.add("op swap %d %d", i, j); std::swap(st[(size_t)i], st[(size_t)j]); } }
      else if (kept && g.r.chance(1, 6)) g.p.add("op use %d %llu", i, (unsigned long long)g.r.below(50));
      else { g.p.add("op nosink %d", i); int j = (int)g.r.below((uint64_t)nr); if (j != i && st[(size_t)j]) g.cursor("op", j, 20, 1, true); g.p.add("op recheck %d", i); g.cursor("op", i, 20, 1, true); }
    }
    for (int i = 0; i < nr; ++i) if (st[(size_t)i]) g.p.add("op all %d", i);
  }
}
void ep_own(G &g) { // C12
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1;
  int nd = 1 + (int)g.r.below(2); for (int k = 0; k < nd; ++k) g.data(k, "small", 3);
  int nr = 2 + (int)g.r.below(3);
  for (int i = 0; i < nr; ++i) {
    int dk = (int)g.r.below((uint64_t)nd); std::string f = g.r.chance(1, 3) ? g.filt() : "all";
    g.p.add("rdr %d data=%d src=%s eof=%s sink=%s filt=%s", i, dk, g.src().c_str(), g.eof().c_str(), g.sink().c_str(), f.c_str()); g.filter_lines(i, f, g.ncols(from, dk));
    if (g.r.chance(1, 8)) g.p.add("fault %d sink %s %llu %d", i, g.r.chance(1, 3) ? "p" : "r", (unsigned long long)g.r.small(10), (int)g.r.below(3));
    if (g.r.chance(1, 10)) g.src_fault(i, 12, 3);
    if (f[0] == 'u' && g.r.chance(1, 6)) g.p.add("fault %d filter %llu %d", i, (unsigned long long)g.r.small(5), (int)g.r.below(3));
  }
  size_t n = 6 + g.r.below(g.deep ? 50 : 25);
  for (size_t k = 0; k < n; ++k) {
    int i = (int)g.r.below((uint64_t)nr), j = (int)g.r.below((uint64_t)nr);
    switch (g.r.below(14)) {
    case 0: case 1: case 2: g.p.add("op open %d", i); break;
    case 3: g.p.add("op move %d %d", i, j); break;
    case 4: g.p.add("op assign %d %d", i, j); break;
    case 5: g.p.add("op swap %d %d", i, j); break;
    case 6: g.p.add("op drop %d", i); break;
    case 7: g.p.add("op keep %d %d", i, (int)g.r.below(4)); break;
    case 8: g.p.add("op %s %d %llu", g.r.chance(1, 2) ? "use" : "dupe", (int)g.r.below(4), (unsigned long long)g.r.below(60)); break;
    case 9: if (g.r.chance(1, 3)) g.p.add("op unkeep %d", (int)g.r.below(4)); else g.p.add("op defcon %d", i); break;
    default: g.cursor("op", i, 20, 1 + g.r.below(3), true);
    }
  }
}
void ep_det(G &g) { // C13
  g.p.add("ep reader"); size_t from = g.p.lines.size() - 1; g.data(0, g.r.chance(2, 3) ? "small" : "", 8);
  switch (g.r.below(4)) { case 0: break; case 1: g.cut(from, 0); break; default: g.damage(from, 0); }
  size_t N = g.nrows(from, 0); std::string s = g.r.chance(1, 8) ? "file" : "mem";
  std::string e = g.eof();
  g.p.add("rdr 0 data=0 src=%s eof=%s sink=%s filt=all", s.c_str(), e.c_str(), g.r.chance(1, 4) ? "recref" : "rec");
  // what happened before in the other world
  { Plan keep = g.p; g.p.lines.clear(); g.data(0, "small", 2); g.p.add("rdr 0 data=0 src=mem eof=eager sink=rec filt=all"); g.p.add("op open 0"); g.p.add("op all 0"); Plan pre = g.p; g.p = keep; for (auto &l : pre.lines) { l.w.insert(l.w.begin(), "pre"); g.p.lines.push_back(l); } }
  g.p.add("auto twice %d %d", (int)g.r.pick(std::vector<int>{0, 1, 32, 0x41, 0xff}), (int)g.r.pick(std::vector<int>{0xa5, 0x33, 256}));
  g.p.add("op open 0"); g.cursor("op", 0, N, g.r.below(8), true); g.finish_read("op", 0, N); g.cursor("op", 0, N, g.r.below(4), true);
}
void ep_out(G &g) { // C14
  g.p.add("ep out"); size_t from = g.p.lines.size() - 1; g.data(0, "csv", 8); size_t N = g.nrows(from, 0);
  std::string kind = g.r.chance(2, 5) ? "csvfile" : g.r.chance(1, 2) ? "csv" : "print";
  g.p.add("out %s moves=%d partial=%d skip=%d exc=%d mode=%d", kind.c_str(), (int)g.r.below(4), g.r.chance(1, 5) ? (int)g.r.below(N + 2) : -1, g.r.chance(1, 6) ? (int)g.r.below(N + 2) : 0, (int)g.r.chance(1, 4), (int)g.r.below(3));
  if (g.r.chance(1, 5)) g.p.add("mask %llx", (unsigned long long)g.r.next());
  if (g.r.chance(2, 3)) {
    size_t room = 0; { Dataset D = g.make(from, 0); for (auto &c : D.cols) room += c.name.size() + 3; size_t w = 2; for (auto &c : D.cols) w += c.numeric ? 12 : c.length / 2 + 3; room += D.rows.size() * w; }
    g.p.add("limit %llu", (unsigned long long)(g.r.chance(1, 4) ? g.r.below(300) : g.r.chance(1, 3) ? g.r.small(200000) : g.r.below(room + room / 4 + 1)));
  }
  if (kind == "csvfile" && g.r.chance(1, 2)) { size_t n = 1 + g.r.below(6); for (size_t k = 0; k < n; ++k) g.p.add("wfault %s %llu %llu", g.r.chance(1, 3) ? "eintr" : "short", (unsigned long long)g.r.small(40), (unsigned long long)g.r.below(9000)); }
}
void ep_cli(G &g) { // C15
  g.p.add("ep cli"); int n = 1 + (int)g.r.below(3); std::vector<size_t> starts;
  for (int k = 0; k < n; ++k) {
    size_t from = g.p.lines.size(); starts.push_back(from); g.data(k, "small", 4);
    unsigned u = (unsigned)g.r.below(12);
    if (u == 0) g.p.add("in %d missing", k); else if (u == 1) g.p.add("in %d dir", k); else if (u == 2) { g.p.add("in %d ok", k); g.cut(from, k); } else if (u == 3) { g.p.add("in %d ok", k); g.damage(from, k); } else g.p.add("in %d ok", k);
    g.p.add("name %d %llu", k, (unsigned long long)g.r.below(8));
  }
  const char *cmd = g.r.chance(2, 5) ? "csv" : g.r.chance(1, 2) ? "print" : "null";
  g.p.add("cmd %s %lld %d", cmd, g.r.chance(1, 2) ? -1ll : g.r.chance(1, 5) ? (long long)((1ull << g.r.below(31)) + g.r.below(5) - (g.r.chance(1, 2) ? 0 : 1)) : g.r.chance(1, 10) ? (long long)(g.r.chance(1, 2) ? 100 : 1000) * (long long)(1 + g.r.below(20)) : (long long)g.r.small(60), (int)g.r.below(8));
  if (g.r.chance(1, 10)) g.p.add("selfcsv %d", (int)g.r.below((uint64_t)n));
  else if (n > 1 && g.r.chance(1, 8)) { int k = 1 + (int)g.r.below((uint64_t)(n - 1)); g.p.add("twin %d %d", k, (int)g.r.below((uint64_t)k)); }
  if (g.r.chance(1, 12)) g.p.add("again");
  if (g.r.chance(1, 3)) { unsigned u = (unsigned)g.r.below(4); if (u == 0) g.p.add("device full"); else if (u == 1) g.p.add("device closed"); else g.p.add("device limit %llu", (unsigned long long)g.r.small(40000)); }
  if (g.r.chance(1, 5)) { // an I/O error somewhere in all that is read
    uint64_t calls = 0; for (int k = 0; k < n; ++k) { Dataset D = g.make(starts[(size_t)k], k); calls += 2 + D.image.size() / std::max<size_t>(1024, std::min<size_t>(8191, D.h.page_length)); }
    g.p.add("readfault eio %llu 0", (unsigned long long)g.r.below(calls));
  } else if (g.r.chance(1, 4)) g.p.add("readfault %s %llu %llu", g.r.chance(1, 2) ? "eio" : g.r.chance(1, 2) ? "short" : "eintr", (unsigned long long)g.r.small(30), (unsigned long long)g.r.below(3000));
  if (g.r.chance(1, 4)) g.p.add("writefault %s %llu %llu", g.r.chance(1, 2) ? "short" : "eintr", (unsigned long long)g.r.small(10), (unsigned long long)g.r.below(3000));
}
void bind_ops(G &g, int i, size_t N, size_t nops, bool py) { // calls on one reader of a language package
  for (size_t k = 0; k < nops; ++k) {
    size_t n = g.r.chance(1, 8) ? 0 : g.r.chance(1, 8) ? N + g.r.below(3) : 1 + g.r.small(20);
    switch (g.r.below(13)) {
    case 0: case 1: case 2: g.p.add("op row %d", i); break;
    case 3: case 4: case 5: g.p.add("op rows %d %zu", i, n); break;
    case 6: case 7: g.p.add("op skip %d %zu", i, g.r.chance(1, 3) ? n : g.r.below(4)); break;
    case 8: g.p.add("op props %d", i); break;
    case 9: if (py && g.r.chance(1, 2)) g.p.add("op flush %d", i); else g.p.add("op idx %d", i); break;
    case 10: if (g.r.chance(1, 2)) g.p.add("op eod %d", i); else g.p.add("op idx %d", i); break;
    case 11: g.p.add("op gc"); break;
    default: if (g.r.chance(1, 4)) g.p.add("op all %d", i); else g.p.add("op row %d", i);
    }
  }
}
void ep_bind(G &g, bool py) { // C16, C17
  g.p.add("ep %s", py ? "py" : "r"); size_t from = g.p.lines.size() - 1;
  int nd = g.r.chance(1, 4) ? 2 : 1; for (int k = 0; k < nd; ++k) g.data(k, "bind", py ? 2 : 0);
  bool damaged = false, rs = g.r.chance(1, 10);
  if (g.r.chance(1, 10)) { g.cut(from, 0); damaged = true; } else if (g.r.chance(1, 20)) { g.damage(from, 0); damaged = true; }
  int nr = g.r.chance(1, 2) ? 1 : 1 + (int)g.r.below(3); std::vector<std::string> kinds;
  for (int i = 0; i < nr; ++i) {
    int dk = (int)g.r.below((uint64_t)nd); size_t N = g.nrows(from, dk);
    static const char *ks[] = {"row", "row", "chunk", "chunk", "chunk", "data", "data", "byrow", "bychunk", "whole", "slots", "bad"};
    std::string k = ks[g.r.below(12)]; if (k == "slots" && !py) k = "chunk";
    if (damaged && (k[0] == 'b' || k == "whole")) k = "chunk";
    if (i && !rs && g.r.chance(1, 10) && kinds[0].size() <= 5 && kinds[0] != "bad" && kinds[0] != "byrow" && kinds[0] != "whole") k = "same:0";
    kinds.push_back(k);
    size_t chunk = g.r.chance(1, 6) ? 1 : g.r.chance(1, 8) ? N : g.r.chance(1, 8) ? N + 1 + g.r.below(5) : g.r.chance(1, 10) ? 0 : 1 + g.r.below(9);
    g.p.add("rdr %d data=%d sink=%s chunk=%zu", i, dk, k.c_str(), chunk);
    if (g.r.chance(1, 3)) g.filter_lines(i, g.r.chance(1, 3) ? "inc" : g.r.chance(1, 2) ? "exc" : "incexc", g.ncols(from, dk));
    if (g.r.chance(1, 4)) { size_t m = 1 + g.r.below(3); for (size_t x = 0; x < m; ++x) g.p.add("fault %d cb %llu", i, (unsigned long long)g.r.small(k == "row" ? N + 1 : 6)); }
    if (g.r.chance(1, 20)) g.p.add("fault %d props", i);
    if (g.r.chance(1, 5)) { size_t m = 1 + g.r.below(3); for (size_t x = 0; x < m; ++x) { unsigned long long k = g.r.chance(1, 4) ? 0 : g.r.small(10); g.p.add("fault %d oom %llu %llu %d", i, k, 1 + (unsigned long long)(k ? g.r.small(60) : g.r.small(400)), (int)g.r.below(2)); } }
    if (g.r.chance(1, 4)) g.shorts(i, 1);
    if (g.r.chance(1, 10)) { size_t base = 0, room = 20; if (g.r.chance(2, 3)) { Dataset D = g.make(from, dk); if (D.h.page_length && D.meta_end > D.h.header_length) { base = 1 + (D.meta_end - D.h.header_length) / D.h.page_length; room = 1 + (D.image.size() - D.meta_end) / D.h.page_length; } } g.p.add("fault %d sys %s %llu 0", i, g.r.chance(1, 2) ? "eio" : "eiosticky", (unsigned long long)(base + g.r.below(room))); }
    if (g.r.chance(1, 8)) g.p.add("nest %d %llu %s %d %zu", i, (unsigned long long)g.r.below(4), g.r.chance(1, 2) ? "row" : g.r.chance(1, 2) ? "rows" : "all", (int)g.r.below((uint64_t)nr), (size_t)g.r.below(6));
    if (g.r.chance(1, 8)) g.p.add("nest %d %llu gc", i, (unsigned long long)g.r.below(6));
  }
  if (py) { if (g.r.chance(1, 3)) g.p.add("gcthr %d", (int)(1 + g.r.below(20))); }
  else if (g.r.chance(1, 4)) g.p.add("gctort %llu", (unsigned long long)(20 + g.r.small(2000)));
  if (rs) {
    for (int i = 0; i < nr; ++i) { g.p.add("op read_sas %d %d", i, (int)g.r.below(2)); if (g.r.chance(1, 3)) g.p.add("op gc"); }
    for (int i = 0, m = 1 + (int)g.r.below(4); i < m; ++i) g.p.add("op df %d", (int)g.r.below((uint64_t)nr));
    return;
  }
  if (g.r.chance(1, 40)) g.p.add("fault %d nofile", (int)g.r.below((uint64_t)nr));
  for (int i = 0; i < nr; ++i) g.p.add("op open %d", i);
  size_t rounds = 2 + g.r.below(g.deep ? 14 : 7);
  for (size_t k = 0; k < rounds; ++k) { int i = (int)g.r.below((uint64_t)nr); bind_ops(g, i, 20, 1 + g.r.below(3), py);
    if (g.r.chance(1, 14)) g.p.add("op %s %d", g.r.chance(1, 2) ? "drop" : "dropsink", i);
    if (g.r.chance(1, 12)) { g.p.add("op df %d", i); } if (g.r.chance(1, 30)) g.p.add("op open %d", i); }
  for (int i = 0; i < nr; ++i) if (g.r.chance(3, 4)) { if (g.r.chance(2, 3)) g.p.add("op all %d", i); else { g.p.add("op rows %d 1000", i); } if (g.r.chance(1, 2)) bind_ops(g, i, 20, 2, py); g.p.add("op df %d", i); }
  for (int i = 0; i < nr; ++i) if (g.r.chance(1, 2)) { g.p.add("op drop %d", i); if (py) g.p.add("op flush %d", i); g.p.add("op df %d", i); }
}
} // namespace

static bool tails = false, longs = false;
void gen_data(Plan &p, Rng &r, int k, const std::string &profile, unsigned corpus_in_100) {
  if (r.below(100) < corpus_in_100 && !corpus_files().empty()) {
    static std::vector<std::string> small;
    if (small.empty()) for (auto &f : corpus_files()) { struct stat st; if (stat(f.c_str(), &st) == 0 && st.st_size < 300000) { auto q = f.rfind('/'); auto q2 = f.rfind('/', q - 1); small.push_back(f.substr(q2 + 1)); } }
    p.add("data %d corpus %s", k, r.pick(small).c_str());
    return;
  }
  p.add("data %d", k);
  Params q = random_ds_params(r, profile == "meta" ? "" : profile);
  if (longs && profile == "" && r.chance(1, 300)) { q["narrow"] = 1; q["ncols"] = r.range(1, 2); q["nrows"] = r.range(30000, 70000); q["page_length"] = r.chance(1, 2) ? 65536 : 131072; q["under"] = 0; }
  if (profile == "bind") { Params s2 = random_ds_params(r, "small"); for (auto &k : {"ncols", "nrows", "page_length", "header_length", "strmode"}) q[k] = s2[k]; if (r.chance(1, 12)) q["ncols"] = r.range(6, 20); if (r.chance(1, 10)) q["nrows"] = r.range(20, 80); q["names"] = r.chance(1, 4); q["safetail"] = 1; }
  if (profile == "meta") { q["textblocks"] = r.range(1, 6); q["chunk"] = r.chance(2, 3); q["spread"] = r.below(4); q["nrows"] = r.range(0, 20); if (r.chance(1, 3)) q["ncols"] = r.range(10, 150); q["names"] = r.below(3); if (r.chance(1, 8)) { q["page_length"] = r.chance(1, 2) ? 65536 : 131072; q["textpad"] = r.range(100, 62000); } if (r.chance(1, 8)) q["pcount"] = (int64_t)(r.next() >> 32 >> r.below(32)); }
  if (q["comp"] == 2 && !(tails && r.chance(1, 3))) q["safetail"] = 1; // known finding rdc-tail is looked at in C01
  for (auto &kv : q) p.add("dp %d %s %lld", k, kv.first.c_str(), (long long)kv.second);
}

Plan gen_plan(const std::string &prop, uint64_t seed, const std::string &tier) {
  G g(seed, tier);
  tails = prop == "C01"; longs = prop == "C01" || prop == "C02" || prop == "C04";
  int n = 12;
  if (prop == "C09") n = 1; else if (prop == "C11") n = 4; else if (prop == "C15") n = 3; else if (prop == "C13") n = 8; else if (prop == "C20") n = 3; else if (prop == "C08") n = 16; else if (prop == "C16" || prop == "C17") n = 24;
  for (int k = 0; k < n; ++k) {
    if (prop == "C01") ep_read(g, g.r.chance(1, 4) ? "small" : "", 6);
    else if (prop == "C02") ep_history(g); else if (prop == "C03") ep_props(g); else if (prop == "C04") ep_filter(g);
    else if (prop == "C05") ep_cut(g); else if (prop == "C06") ep_srcfault(g); else if (prop == "C07") ep_delivery(g);
    else if (prop == "C08") ep_damage(g); else if (prop == "C09") ep_alloc(g); else if (prop == "C10") ep_callbacks(g);
    else if (prop == "C11") ep_threads(g); else if (prop == "C12") ep_own(g); else if (prop == "C13") ep_det(g);
    else if (prop == "C14") ep_out(g); else if (prop == "C20") ep_stream(g); else if (prop == "C16") ep_bind(g, true); else if (prop == "C17") ep_bind(g, false); else if (prop == "C15") ep_cli(g);
  }
  return g.p;
}
} // namespace sim
