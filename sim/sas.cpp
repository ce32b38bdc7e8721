#include "sas.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <sys/stat.h>
namespace sim {
const char *const kind_names[] = {"unknown", "string", "number", "integer", "datetime", "date", "time"};

// ---------------------------------------------------------------- value semantics
static const std::vector<std::string> F_DATETIME = {"DATETIME", "DTWKDATX", "B8601DT", "E8601DT", "DATEAMPM", "DTDATE", "DTMONYY", "DTYEAR", "TOD", "MDYAMPM", "B8601DN", "E8601DN", "B8601DX", "B8601DZ", "B8601LX", "E8601DX", "E8601DZ", "E8601LX"};
static const std::vector<std::string> F_DATE = {"DATE", "DAY", "DDMMYY", "DOWNAME", "JULDAY", "JULIAN", "MMDDYY", "MMYY", "MMYYC", "MMYYD", "MMYYP", "MMYYS", "MMYYN", "MONNAME", "MONTH", "MONYY", "QTR", "QTRR", "NENGO", "WEEKDATE", "WEEKDATX", "WEEKDAY", "WEEKV", "WORDDATE", "WORDDATX", "YEAR", "YYMM", "YYMMC", "YYMMD", "YYMMP", "YYMMS", "YYMMN", "YYMON", "YYMMDD", "YYQ", "YYQC", "YYQD", "YYQP", "YYQS", "YYQN", "YYQR", "YYQRC", "YYQRD", "YYQRP", "YYQRS", "YYQRN", "YYMMDDP", "YYMMDDC", "E8601DA", "YYMMDDN", "MMDDYYC", "MMDDYYS", "MMDDYYD", "YYMMDDS", "B8601DA", "DDMMYYN", "YYMMDDD", "DDMMYYB", "DDMMYYP", "MMDDYYP", "YYMMDDB", "MMDDYYN", "DDMMYYC", "DDMMYYD", "DDMMYYS", "MINGUO"};
static const std::vector<std::string> F_TIME = {"TIME"};
static bool in(const std::vector<std::string> &v, const std::string &s) { return std::find(v.begin(), v.end(), s) != v.end(); }

Kind kind_of(bool numeric, size_t length, const std::string &f) {
  if (!numeric) return K_STRING;
  if (length == 1 || length == 2) return K_INTEGER;
  if (length < 3 || length > 8) return K_UNKNOWN;
  if (in(F_DATETIME, f)) return K_DATETIME;
  if (in(F_DATE, f)) return K_DATE;
  if (in(F_TIME, f)) return K_TIME;
  return K_NUMBER;
}

static double raw_double(const uint8_t *p, size_t n, bool big) {
  uint64_t x = 0; // n most significant bytes are stored
  if (big) for (size_t i = 0; i < n; ++i) x |= (uint64_t)p[i] << (56 - 8 * i);
  else for (size_t i = 0; i < n; ++i) x |= (uint64_t)p[i] << (8 * (8 - n + i));
  double d; std::memcpy(&d, &x, 8); return d;
}

// range of boost::gregorian::date: 1400-01-01 .. 9999-12-31, as days from 1960-01-01
static const int64_t DAY_MIN = -204526, DAY_MAX = 2936549;

Val ref_value(const ColSpec &c, bool big, const uint8_t *row) {
  Val v; v.kind = c.kind;
  const uint8_t *p = row + c.offset;
  if (c.kind == K_STRING) {
    size_t n = c.length;
    auto ws = [](uint8_t b) { return b == 0 || b == ' ' || (b >= 9 && b <= 13); };
    while (n && ws(p[n - 1])) --n;
    v.s.assign((const char *)p, n);
    return v;
  }
  if (c.kind == K_UNKNOWN) return v;
  if (c.kind == K_INTEGER) {
    if (c.length == 1) v.i = p[0];
    else v.i = (int16_t)(big ? (p[0] << 8 | p[1]) : (p[1] << 8 | p[0]));
    v.d = v.i;
    return v;
  }
  v.d = raw_double(p, c.length, big);
  if (std::isnan(v.d)) { v.missing = true; return v; }
  if (c.kind == K_NUMBER) return v;
  if (c.kind == K_DATE) {
    if (!(std::fabs(v.d) < 1e9)) { v.representable = false; return v; }
    v.day = std::llround(v.d);
    v.representable = v.day >= DAY_MIN && v.day <= DAY_MAX;
    return v;
  }
  if (!(std::fabs(v.d) < 1e12)) { v.representable = false; return v; }
  long double us = roundl((long double)v.d * 1000000.0L);
  int64_t t = (int64_t)us;
  double f = v.d * 64; v.tol = std::floor(f) == f ? 0 : 1;
  if (c.kind == K_TIME) { v.us = t; v.representable = t >= 0 && t < 86400000000ll; return v; }
  int64_t day = t / 86400000000ll, rem = t % 86400000000ll;
  if (rem < 0) { rem += 86400000000ll; --day; }
  v.day = day; v.us = rem;
  v.representable = day > DAY_MIN && day < DAY_MAX;
  return v;
}

// ---------------------------------------------------------------- compression
static size_t runlen(const Bytes &b, size_t i) { size_t j = i; while (j < b.size() && b[j] == b[i]) ++j; return j - i; }

Bytes rle_encode(const Bytes &row, Rng &r) {
  Bytes o; size_t i = 0, n = row.size();
  unsigned eager = 1 + (unsigned)r.below(8); // how often runs are used
  while (i < n) {
    size_t run = runlen(row, i); uint8_t b = row[i];
    bool special = b == 0 || b == ' ' || b == '@';
    if ((run >= 3 || (special && run >= 2)) && (r.below(8) < eager || eager > 6)) {
      std::vector<int> c;
      if (run >= 3) c.push_back(0xC);
      if (run >= 18) c.push_back(0x4);
      int base = b == '@' ? 0 : b == ' ' ? 1 : 2;
      if (special && run >= 2) { c.push_back(0xD + base); c.push_back(0xD + base); }
      if (special && run >= 17) { c.push_back(0x5 + base); c.push_back(0x5 + base); }
      int cmd = c[r.below(c.size())];
      size_t lo, hi;
      if (cmd == 0xC) { lo = 3; hi = 18; } else if (cmd == 0x4) { lo = 18; hi = 513; }
      else if (cmd >= 0xD) { lo = 2; hi = 17; } else { lo = 17; hi = 4112; }
      hi = std::min(hi, run);
      size_t k = r.chance(2, 3) ? hi : lo + r.below(hi - lo + 1);
      if (cmd == 0xC) { o.push_back(0xC0 | (uint8_t)(k - 3)); o.push_back(b); }
      else if (cmd == 0x4) {
        size_t x = k - 18; size_t hi4 = std::min<size_t>(15, x / 16); // several splits are valid
        if (r.chance(1, 2)) hi4 = x > 255 ? (x - 255 + 15) / 16 : 0;
        if (x - hi4 * 16 > 255) hi4 = (x - 255 + 15) / 16;
        o.push_back(0x40 | (uint8_t)hi4); o.push_back((uint8_t)(x - hi4 * 16)); o.push_back(b);
      } else if (cmd >= 0xD) o.push_back((uint8_t)(cmd << 4 | (k - 2)));
      else { size_t x = k - 17; o.push_back((uint8_t)(cmd << 4 | x >> 8)); o.push_back((uint8_t)x); }
      i += k;
    } else {
      // literal stretch
      size_t j = i + 1;
      while (j < n && (runlen(row, j) < 3 || r.chance(1, 4))) ++j;
      size_t m = j - i;
      if (m > 4159) m = 4159;
      if (r.chance(1, 5)) m = 1 + r.below(m);
      if (m >= 64 && r.chance(2, 3)) { size_t x = m - 64; o.push_back((uint8_t)(x >> 8)); o.push_back((uint8_t)x); }
      else {
        if (m > 64) m = 64;
        if (m >= 49) o.push_back(0xB0 | (uint8_t)(m - 49));
        else if (m >= 33) o.push_back(0xA0 | (uint8_t)(m - 33));
        else if (m >= 17) o.push_back(0x90 | (uint8_t)(m - 17));
        else o.push_back(0x80 | (uint8_t)(m - 1));
      }
      o.insert(o.end(), row.begin() + (long)i, row.begin() + (long)(i + m));
      i += m;
    }
  }
  return o;
}

bool rle_decode(const uint8_t *p, size_t n, size_t out_len, Bytes &out) {
  out.clear(); size_t i = 0;
  auto ins = [&](uint8_t b, size_t k) { out.insert(out.end(), k, b); };
  while (i < n && out.size() < out_len) {
    uint8_t c = p[i] >> 4, e = p[i] & 15; ++i;
    size_t need = (c == 0 || c == 5 || c == 6 || c == 7 || c == 0xC) ? 1 : c == 4 ? 2 : 0;
    if (i + need > n) return false;
    size_t k = 0; bool copy = false;
    switch (c) {
    case 0: k = (size_t)e * 256 + p[i++] + 64; copy = true; break;
    case 4: k = (size_t)e * 16 + p[i++] + 18; ins(p[i++], k); break;
    case 5: k = (size_t)e * 256 + p[i++] + 17; ins('@', k); break;
    case 6: k = (size_t)e * 256 + p[i++] + 17; ins(' ', k); break;
    case 7: k = (size_t)e * 256 + p[i++] + 17; ins(0, k); break;
    case 8: k = e + 1u; copy = true; break;
    case 9: k = e + 17u; copy = true; break;
    case 10: k = e + 33u; copy = true; break;
    case 11: k = e + 49u; copy = true; break;
    case 12: ins(p[i++], e + 3u); break;
    case 13: ins('@', e + 2u); break;
    case 14: ins(' ', e + 2u); break;
    case 15: ins(0, e + 2u); break;
    default: return false;
    }
    if (copy) { if (k > n - i) return false; out.insert(out.end(), p + i, p + i + k); i += k; }
  }
  if (out.size() != out_len) return false;
  return true;
}

Bytes rdc_encode(const Bytes &row, Rng &r) {
  Bytes o; size_t i = 0, n = row.size();
  size_t ctrl_pos = 0; int nbits = 16; uint16_t ctrl = 0;
  auto item = [&](bool comp) {
    if (nbits == 16) {
      if (!o.empty()) { o[ctrl_pos] = (uint8_t)(ctrl >> 8); o[ctrl_pos + 1] = (uint8_t)ctrl; }
      ctrl_pos = o.size(); o.push_back(0); o.push_back(0); nbits = 0; ctrl = 0;
    }
    if (comp) ctrl |= (uint16_t)(0x8000 >> nbits);
    ++nbits;
  };
  bool overlap = r.chance(1, 2); unsigned eager = 1 + (unsigned)r.below(8);
  while (i < n) {
    size_t run = runlen(row, i);
    bool useit = eager > 6 || r.below(8) < eager;
    if (run >= 3 && useit && r.chance(5, 6)) {
      if (run >= 19 && r.chance(4, 5)) {
        size_t k = std::min<size_t>(run, 4114); if (r.chance(1, 6)) k = 19 + r.below(k - 18);
        size_t x = k - 19; item(true);
        o.push_back(0x10 | (uint8_t)(x & 15)); o.push_back((uint8_t)(x >> 4)); o.push_back(row[i]); i += k;
      } else {
        size_t k = std::min<size_t>(run, 18); if (r.chance(1, 6)) k = 3 + r.below(k - 2);
        item(true); o.push_back((uint8_t)(k - 3)); o.push_back(row[i]); i += k;
      }
      continue;
    }
    size_t best = 0, bofs = 0;
    if (useit) {
      size_t lim = std::min<size_t>(i, 4098);
      for (int t = 0; t < 64 && lim >= 3; ++t) {
        size_t ofs = t < 40 ? 3 + (size_t)t : 3 + r.below(lim - 2);
        if (ofs > lim) continue;
        size_t k = 0, maxk = std::min<size_t>(n - i, 271); if (!overlap) maxk = std::min(maxk, ofs);
        while (k < maxk && row[i + k] == row[i - ofs + k]) ++k;
        if (k > best) { best = k; bofs = ofs; }
      }
    }
    if (best >= 3) {
      size_t x = bofs - 3;
      if (best >= 16) {
        if (r.chance(1, 6)) best = 16 + r.below(best - 15);
        item(true); o.push_back(0x20 | (uint8_t)(x & 15)); o.push_back((uint8_t)(x >> 4)); o.push_back((uint8_t)(best - 16));
      } else {
        if (r.chance(1, 6)) best = 3 + r.below(best - 2);
        item(true); o.push_back((uint8_t)(best << 4 | (x & 15))); o.push_back((uint8_t)(x >> 4));
      }
      i += best;
    } else { item(false); o.push_back(row[i++]); }
  }
  if (!o.empty()) { o[ctrl_pos] = (uint8_t)(ctrl >> 8); o[ctrl_pos + 1] = (uint8_t)ctrl; }
  return o;
}

bool rdc_decode(const uint8_t *p, size_t n, size_t out_len, Bytes &out) {
  out.clear(); size_t i = 0; unsigned mask = 0, bits = 0;
  while (i < n && out.size() < out_len) {
    mask >>= 1;
    if (!mask) { if (i + 2 > n) return false; bits = (unsigned)p[i] << 8 | p[i + 1]; i += 2; mask = 0x8000; if (i >= n) break; }
    if (!(bits & mask)) { out.push_back(p[i++]); continue; }
    uint8_t v = p[i++]; unsigned cmd = v >> 4; size_t cnt = v & 15;
    if (cmd == 0) { if (i >= n) return false; out.insert(out.end(), cnt + 3, p[i++]); }
    else if (cmd == 1) { if (i + 2 > n) return false; cnt += (size_t)p[i] * 16 + 19; out.insert(out.end(), cnt, p[i + 1]); i += 2; }
    else {
      if (i >= n) return false;
      size_t ofs = cnt + 3 + (size_t)p[i++] * 16; size_t k = cmd;
      if (cmd == 2) { if (i >= n) return false; k = (size_t)p[i++] + 16; }
      if (ofs > out.size()) return false;
      for (size_t j = 0; j < k; ++j) out.push_back(out[out.size() - ofs]);
    }
  }
  return out.size() == out_len;
}

bool rdc_decode_short(const uint8_t *p, size_t n, size_t out_len, Bytes &out) {
  // the same stream, stopped at the first item that starts with fewer than 3 bytes left
  size_t i = 0, made = 0, items = 0; unsigned mask = 0, bits = 0; bool cut = false;
  while (i < n && made < out_len) {
    if (n - i < 3) { cut = true; break; }
    mask >>= 1;
    if (!mask) { bits = (unsigned)p[i] << 8 | p[i + 1]; i += 2; mask = 0x8000; }
    if (!(bits & mask)) { ++i; ++made; ++items; continue; }
    uint8_t v = p[i++]; unsigned cmd = v >> 4; size_t cnt = v & 15; size_t need = cmd == 0 ? 1 : cmd == 1 || cmd == 2 ? 2 : 1;
    if (i + need > n) return false;
    made += cmd == 0 ? cnt + 3 : cmd == 1 ? cnt + (size_t)p[i] * 16 + 19 : cmd == 2 ? (size_t)p[i + 1] + 16 : cmd;
    i += need; ++items;
  }
  if (!cut) return false;
  Bytes full; if (!rdc_decode(p, n, out_len, full)) return false;
  out.assign(full.begin(), full.begin() + (long)made); out.resize(out_len, 0);
  return true;
}

// ---------------------------------------------------------------- generation
static int64_t P(const Params &p, const char *k, int64_t d = 0) { auto it = p.find(k); return it == p.end() ? d : it->second; }

Params random_ds_params(Rng &r, const std::string &profile) {
  Params p;
  p["seed"] = (int64_t)(r.next() >> 20);
  p["bits64"] = r.chance(1, 2);
  p["big"] = r.chance(1, 2);
  p["align1"] = r.chance(1, 2);
  int c = (int)r.below(3); p["comp"] = c;
  bool wide = r.chance(1, 12), big = r.chance(1, 10), tiny = r.chance(1, 8);
  p["ncols"] = wide ? r.range(20, r.chance(1, 6) ? 600 : 120) : tiny ? 1 : r.range(1, 9);
  p["nrows"] = r.chance(1, 12) ? r.range(0, 2) : big ? r.range(60, r.chance(1, 10) ? 3000 : 400) : r.range(1, 60);
  static const std::vector<int64_t> pl = {1024, 2048, 4096, 8192, 1536, 16384};
  p["page_length"] = r.chance(1, 30) ? 65536 : r.pick(pl);
  static const std::vector<int64_t> hl = {1024, 8192, 1024, 4096, 512, 65536};
  p["header_length"] = hl[r.below(r.chance(1, 8) ? 6 : 4)];
  p["textblocks"] = r.range(1, r.chance(1, 3) ? 4 : 1);
  p["spread"] = r.below(4);       // early page breaks between metadata subheaders: 0 never .. 3 often
  p["chunk"] = r.chance(1, 3);    // names/attributes split over several subheaders
  p["mix"] = r.below(4);          // 0 no mix page, 1: 512, 2/3: 640
  p["amd"] = r.chance(1, 5);      // one metadata page is of AMD type
  p["filler"] = r.chance(1, 4);   // ignorable pages between data pages
  p["under"] = r.chance(1, 3);    // pages not filled completely
  p["share"] = r.below(2);        // compressed: rows start on the last metadata page
  p["trunc"] = r.chance(1, 3);    // compressed: truncated/empty subheader pointers
  p["typemix"] = r.below(6);      // bias of column types
  p["strmode"] = r.below(4);      // short, medium, long, repetitive strings
  p["valmode"] = r.below(4);      // value patterns
  p["names"] = r.chance(1, 4) ? r.range(1, 2) : 0; // 0 plain, 1 odd ASCII, 2 non-ASCII
  p["creator"] = r.below(3);
  p["empty"] = r.chance(1, 8);    // empty data pages
  p["tail"] = r.chance(1, 6);     // ignorable pages after the last row
  p["sigvar"] = r.below(3);
  if (r.chance(1, 10)) p["extra"] = r.range(1, 30);       // rows stored behind the announced ones
  if (r.chance(1, 60)) p["page_length"] = 131072;
  if (profile == "small") { p["ncols"] = r.range(1, 5); p["nrows"] = r.range(0, 24); p["page_length"] = r.chance(1, 2) ? 1024 : 2048; p["header_length"] = 1024; p["strmode"] = r.below(2); }
  if (profile == "csv") { p["names"] = r.chance(1, 2) ? 1 : 0; }
  return p;
}

struct W { // endian-aware writer into a byte vector
  Bytes &b; bool big; int L;
  void u(size_t off, uint64_t v, int n) { if (off + (size_t)n > b.size()) b.resize(off + (size_t)n); for (int i = 0; i < n; ++i) b[off + (size_t)(big ? n - 1 - i : i)] = (uint8_t)(v >> (8 * i)); }
  void u16(size_t off, uint64_t v) { u(off, v, 2); }
  void u32(size_t off, uint64_t v) { u(off, v, 4); }
  void ul(size_t off, uint64_t v) { u(off, v, L); }
  void d(size_t off, double x) { uint64_t v; std::memcpy(&v, &x, 8); u(off, v, 8); }
  void str(size_t off, const std::string &s, size_t n) { if (off + n > b.size()) b.resize(off + n); for (size_t i = 0; i < n; ++i) b[off + i] = i < s.size() ? (uint8_t)s[i] : ' '; }
};

static void put_number(uint8_t *p, size_t len, bool big, double d) {
  uint64_t x; std::memcpy(&x, &d, 8);
  for (size_t i = 0; i < len; ++i) { uint8_t b = (uint8_t)(x >> (8 * (7 - i))); if (big) p[i] = b; else p[len - 1 - i] = b; }
}
static void put_missing(uint8_t *p, size_t len, bool big, Rng &r) {
  // SAS missing values: 0xFFFF + ~letter; '.' is FE
  uint64_t x = 0xFFFF000000000000ull; static const uint8_t tags[] = {0xFE, 0xD1, 0xBE, 0xA5, 0xFF & ~0x5F};
  x |= (uint64_t)tags[r.below(5)] << 40;
  double d; std::memcpy(&d, &x, 8); put_number(p, len, big, d);
}

static std::string name_for(uint64_t seed, size_t i, int mode, const char *what) {
  Rng r(hash3(seed, i, (uint64_t)what[0] * 7 + (uint64_t)what[1]));
  static const char *plain = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_0123456789";
  std::string s;
  bool label = what[0] == 'l';
  size_t n = label ? r.below(r.chance(1, 10) ? 256 : 40) : 1 + r.below(r.chance(1, 8) ? 40 : 20);
  if (label && r.chance(1, 4)) return "";
  for (size_t k = 0; k < n; ++k) s += label && r.chance(1, 6) ? ' ' : plain[r.below(k == 0 ? 52 : 63)];
  if (mode == 1 && r.chance(2, 3)) { static const char *odd[] = {"{}", "{0}", "a,b", "q\"q", "%s", "{", "}", "x{:d}", "'", "a b", "\"", "#1", "%n"}; s.insert(r.below(s.size() + 1), odd[r.below(13)]); }
  if (mode == 2 && r.chance(2, 3)) { static const char *na[] = {"\xc3\xa9", "\xc3\x9f", "\xe4\xb8\xad", "\xc2\xb5", "\xe9", "\xdc", "\xe2\x82\xac"}; std::string t = na[r.below(7)]; switch (r.below(3)) { case 0: s += t; break; case 1: s = t + s; break; default: s.insert(s.size() / 2, t); } }
  // names and labels never start or end with blanks in the stored form we compare
  while (!s.empty() && s.back() == ' ') s.pop_back();
  while (!s.empty() && s.front() == ' ') s.erase(0, 1);
  if (!label) s = s + "_" + std::to_string(i); // unique
  if (!label && mode == 2 && r.chance(1, 2)) s += "\xc3\xa9";
  return s;
}

const Bytes &magic_number() { static const Bytes m = {0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xc2, 0xea, 0x81, 0x60, 0xb3, 0x14, 0x11, 0xcf, 0xbd, 0x92, 0x08, 0x00, 0x09, 0xc7, 0x31, 0x8c, 0x18, 0x1f, 0x10, 0x11}; return m; }

Dataset make_dataset(const Params &p) {
  Dataset D; HeaderInfo &h = D.h; MetaInfo &m = D.m;
  const uint64_t seed = (uint64_t)P(p, "seed", 1);
  h.bits64 = P(p, "bits64"); h.big = P(p, "big"); h.align1 = P(p, "align1");
  const int L = h.bits64 ? 8 : 4; const bool big = h.big;
  m.compression = (int)P(p, "comp");
  const size_t ncols = (size_t)std::max<int64_t>(1, P(p, "ncols", 1)), nrows = (size_t)P(p, "nrows", 0), total = nrows + (size_t)P(p, "extra", 0);
  size_t page_length = (size_t)std::max<int64_t>(1024, P(p, "page_length", 4096));
  Rng R(hash2(seed, 77));
  h.platform = (int)R.below(3); h.encoding = R.chance(1, 3) ? 20 : R.chance(1, 2) ? (uint8_t)(28 + R.below(49)) : (uint8_t)R.below(256);
  auto word = [&](size_t mx, int mode) { std::string s; size_t n = R.below(mx + 1); for (size_t i = 0; i < n; ++i) s += (char)(33 + R.below(94)); if (mode == 2 && n > 3) { s[n - 2] = (char)0xc3; s[n - 1] = (char)0xa9; } return s; };
  const int names = (int)P(p, "names");
  h.dataset_name = word(R.chance(1, 2) ? 64 : 32, names); h.file_type = R.chance(2, 3) ? "DATA" : word(8, 0); h.sas_release = R.chance(1, 2) ? "9.0401M5" : word(8, 0);
  h.server_type = word(16, 0); h.os_type = word(16, 0); h.os_name = word(16, 0);
  const bool os_alt = R.chance(1, 2);
  if (h.os_name.empty()) h.os_name = "x";
  h.created = (double)R.range(0, 2000000000) + (double)R.below(64) / 64.0; h.modified = h.created + (double)R.below(1000000);
  if (R.chance(1, 20)) h.created = (double)R.range(-5000000000ll, -1);
  if (R.chance(1, 20)) h.created = std::nan("");
  if (R.chance(1, 20)) h.modified = std::nan("");
  h.header_length = (size_t)std::max<int64_t>(512, P(p, "header_length", 1024));

  // columns
  const int typemix = (int)P(p, "typemix"), strmode = (int)P(p, "strmode");
  // doubles first (aligned) then others, as SAS does, but sometimes not
  for (size_t i = 0; i < ncols; ++i) {
    Rng r(hash3(seed, 1000 + i, 5));
    ColSpec c; c.name = name_for(seed, i, names, "name"); c.label = name_for(seed, i, names, "label");
    unsigned t = (unsigned)r.below(10);
    if (i == 0 && ncols > 1) t = 9; // row id column
    int kind;
    switch (typemix) {
    case 0: kind = t < 4 ? 0 : t < 7 ? 1 : t < 8 ? 2 : t < 9 ? 3 : 1; break;
    case 1: kind = 1; break;
    case 2: kind = t < 8 ? 0 : 1; break;
    case 3: kind = t < 3 ? 2 : t < 6 ? 3 : t < 8 ? 4 : 1; break;
    case 4: kind = t < 5 ? 5 : 1; break;
    default: kind = (int)r.below(6);
    }
    if (i == 0 && ncols > 1) kind = 1;
    static const std::vector<std::string> nf = {"", "BEST", "F", "COMMA", "DOLLAR", "PERCENT", "HEX", "E", "MYFMT"};
    if (kind == 0) { c.numeric = false; c.format = r.chance(1, 2) ? "$" : r.chance(1, 2) ? "" : "$CHAR";
      c.length = strmode == 0 ? 1 + r.below(8) : strmode == 1 ? 1 + r.below(40) : strmode == 2 ? 1 + r.below(page_length / 4) : 1 + r.below(120); }
    else {
      c.numeric = true; c.length = r.chance(1, 2) ? 8 : 3 + r.below(6);
      if (kind == 1) c.format = r.pick(nf);
      else if (kind == 2) c.format = r.chance(1, 2) ? "DATETIME" : r.pick(F_DATETIME);
      else if (kind == 3) c.format = r.chance(1, 2) ? "DATE" : r.pick(F_DATE);
      else if (kind == 4) c.format = "TIME";
      else { c.length = r.chance(3, 4) ? 1 + r.below(2) : 3 + r.below(6); c.format = r.pick(nf); }
      if (i == 0 && ncols > 1) { c.length = 8; c.format = "BEST"; }
    }
    if (P(p, "narrow")) { c.length = 1; if (c.numeric) c.format = ""; }
    c.kind = kind_of(c.numeric, c.length, c.format);
    D.cols.push_back(c);
  }
  // keep the row inside one page
  const size_t poff = h.bits64 ? 32 : 16, maxrow = page_length - poff - 8 - 6 * (size_t)L - 16;
  size_t off = 0; std::vector<size_t> order(ncols); for (size_t i = 0; i < ncols; ++i) order[i] = i;
  if (R.chance(1, 2)) std::stable_sort(order.begin(), order.end(), [&](size_t a, size_t b) { return (D.cols[a].numeric && D.cols[a].length == 8) > (D.cols[b].numeric && D.cols[b].length == 8); });
  for (size_t k = 0; k < ncols; ++k) {
    ColSpec &c = D.cols[order[k]];
    if (off + c.length > maxrow && !c.numeric) c.length = std::max<size_t>(1, std::min<size_t>(c.length, 4));
    c.offset = off; off += c.length;
  }
  m.row_length = off + (R.chance(1, 3) ? R.below(8) : 0);
  if (m.row_length > maxrow) { // page too small for this row: enlarge the page
    while (m.row_length + poff + 8 + 6 * (size_t)L + 16 > page_length) page_length += 1024;
  }
  h.page_length = page_length;

  // rows
  const int valmode = (int)P(p, "valmode");
  for (size_t i = 0; i < total; ++i) {
    Bytes row(m.row_length, 0);
    for (size_t j = 0; j < ncols; ++j) {
      const ColSpec &c = D.cols[j]; uint8_t *q = row.data() + c.offset;
      Rng r(hash3(seed ^ 0xabcd, i, j));
      if (c.kind == K_STRING) {
        for (size_t k = 0; k < c.length; ++k) q[k] = ' ';
        size_t n = r.chance(1, 6) ? 0 : r.chance(1, 4) ? c.length : r.below(c.length + 1);
        unsigned pat = (unsigned)(valmode == 3 ? 3 : r.below(7));
        if (pat == 0) { for (size_t k = 0; k < n; ++k) q[k] = (uint8_t)(33 + r.below(94)); }
        else if (pat == 1) { uint8_t ch = (uint8_t)(33 + r.below(94)); for (size_t k = 0; k < n; ++k) q[k] = ch; }
        else if (pat == 2) { for (size_t k = 0; k < n; ++k) q[k] = (uint8_t)(r.chance(1, 3) ? 32 + r.below(224) : 'a'); }
        else if (pat == 3) { size_t per = 3 + r.below(20); for (size_t k = 0; k < n; ++k) q[k] = (uint8_t)('A' + (k % per) % 26); }
        else if (pat == 4) { static const char *odd[] = {"a\"b", ",", "line\nbreak", "{}", "\xc3\xa9", "@@@@", "a,b\"", "\"\"", "'", "tab\tx"}; std::string s; while (s.size() < n) s += odd[r.below(10)]; for (size_t k = 0; k < n; ++k) q[k] = (uint8_t)s[k]; }
        else { for (size_t k = 0; k < n; ++k) q[k] = r.chance(1, 2) ? '@' : 'z'; }
        if (pat == 6) { for (size_t k = 0; k < n; ++k) q[k] = r.chance(1, 3) ? 0 : r.chance(1, 3) ? ' ' : (uint8_t)r.next(); } // any byte, zeros and leading blanks too
        // padding: blanks or NULs; value must not end in other white space
        if (n && n <= c.length) { uint8_t &e = q[n - 1]; if (e < 32 || e == ' ') e = 'k'; }
        if (r.chance(1, 5)) for (size_t k = n; k < c.length; ++k) q[k] = 0;
      } else if (c.kind == K_INTEGER) {
        for (size_t k = 0; k < c.length; ++k) q[k] = (uint8_t)r.next();
      } else if (c.kind == K_UNKNOWN) {
        for (size_t k = 0; k < c.length; ++k) q[k] = (uint8_t)r.next();
      } else if (j == 0 && ncols > 1 && c.length == 8) {
        put_number(q, c.length, big, (double)(i * 3 + 1));
      } else if (r.chance(1, 8)) put_missing(q, c.length, big, r);
      else {
        double d = 0;
        if (c.kind == K_NUMBER) {
          switch (r.below(8)) {
          case 0: d = 0; break;
          case 1: d = (double)r.range(-1000, 1000); break;
          case 2: d = (double)r.range(-1000000, 1000000) / 16.0; break;
          case 3: { uint64_t x = r.next(); if ((x >> 52 & 0x7ff) == 0x7ff) x ^= 1ull << 60; std::memcpy(&d, &x, 8); break; }
          case 4: d = 32.0 * (double)(1ull << r.below(8)); break;
          case 5: d = std::ldexp(1.0, (int)r.range(-1000, 1000)); break;
          case 6: d = (double)r.range(0, 255); break;
          default: d = (double)r.range(-100, 100) * 1e-3;
          }
        } else if (c.kind == K_DATE) d = r.chance(1, 6) ? (double)r.range(-130000, 2936549) : (double)r.range(-5000, 30000);
        else if (c.kind == K_TIME) d = (double)r.range(0, 86399) + (r.chance(1, 3) ? (double)r.below(64) / 64.0 : 0);
        else { d = (r.chance(1, 6) ? (double)r.range(-11000000000ll, 253000000000ll) : (double)r.range(-400000000, 2600000000ll)); if (r.chance(1, 3)) d += (double)r.below(64) / 64.0; }
        if (c.length < 8) { // stored truncated: make the truncated value itself a valid instant
          uint64_t x; std::memcpy(&x, &d, 8); x &= ~0ull << (8 * (8 - c.length)); std::memcpy(&d, &x, 8);
          if (c.kind == K_DATE) { double t = std::trunc(d); if (t != d) d = t; }
        }
        put_number(q, c.length, big, d);
      }
    }
    for (size_t k = off; k < m.row_length; ++k) row[k] = (uint8_t)(valmode == 1 ? 0x5a : valmode == 2 ? 0x40 : 0);
    D.rows.push_back(std::move(row));
  }
  m.row_count = nrows; m.column_count = ncols;
  m.col_count_p1 = R.chance(1, 2) ? ncols : R.below(ncols + 1); m.col_count_p2 = ncols - m.col_count_p1;

  // text blocks
  const int creator = (int)P(p, "creator");
  std::vector<std::string> blocks;
  {
    std::string b(28, ' ');
    b[0] = b[1] = 0; for (int i = 2; i < 12; ++i) b[(size_t)i] = 0;
    if (m.compression == 1) {
      b.replace(12, 8, "SASYZCRL"); b.resize(36, ' ');
      if (creator) { m.creator_proc = creator == 1 ? "DATASTEP" : "SORT"; m.lcp = m.creator_proc.size(); b += m.creator_proc; }
    } else if (m.compression == 2) {
      b.replace(12, 8, "SASYZCR2"); b.resize(36, ' ');
    } else if (creator == 1) { m.creator_proc = "DATASTEP"; m.lcp = 8; b += m.creator_proc; }
    else if (creator == 2) { m.creator = "SAS Creator"; m.lcs = m.creator.size(); b.replace(12, m.lcs, m.creator); }
    blocks.push_back(b);
  }
  const size_t nblocks = (size_t)std::max<int64_t>(1, P(p, "textblocks", 1));
  const size_t blockmax = std::min<size_t>(page_length - 400 - (size_t)L * 4, P(p, "textpad") ? 65000 : 30000);
  if (P(p, "textpad")) blocks[0].resize(std::max(blocks[0].size(), std::min<size_t>(blockmax - 300, (size_t)P(p, "textpad"))), '.');
  for (size_t i = 1; i < nblocks; ++i) blocks.push_back(std::string(12, '\0'));
  struct Ref { size_t idx = 0, off = 0, len = 0; };
  auto intern = [&](const std::string &s, size_t col) -> Ref {
    Ref t; t.len = s.size();
    if (s.empty()) return t;
    size_t b = nblocks == 1 ? 0 : (size_t)(hash2(seed, col) % nblocks);
    while (blocks[b].size() + s.size() + 4 > blockmax) { ++b; if (b == blocks.size()) blocks.push_back(std::string(12, '\0')); }
    while (blocks[b].size() % 4) blocks[b] += '\0';
    t.idx = b; t.off = blocks[b].size(); blocks[b] += s; return t;
  };
  std::vector<Ref> rn, rf, rl;
  for (size_t i = 0; i < ncols; ++i) { rn.push_back(intern(D.cols[i].name, i)); rf.push_back(intern(D.cols[i].format, i)); rl.push_back(intern(D.cols[i].label, i)); }

  // subheaders
  struct Sub { Bytes b; uint8_t comp = 0, type = 0; std::string what; size_t row = 0; bool data = false; };
  std::vector<Sub> subs;
  auto mk = [&](const char *what, size_t len, uint64_t sig32, bool sig_hi_first) {
    Sub s; s.what = what; s.b.assign(len, 0); W w{s.b, big, L};
    if (L == 4) w.u32(0, sig32);
    else if (sig_hi_first) w.u(0, 0xFFFFFFFF00000000ull | sig32, 8); // sign-extended
    else { // F7F7F7F7 / F6F6F6F6: four bytes and four zeros, by byte order
      uint64_t v = sig32; if (big && P(p, "sigvar")) v = (uint64_t)sig32 << 32 | (P(p, "sigvar") == 2 ? 0xFFFFFBFEull : 0); // real big-endian files use the last form
      w.u(0, v, 8);
    }
    return s;
  };
  size_t i_rowsize = subs.size();
  { Sub s = mk("rowsize", L == 4 ? 480 : 808, 0xF7F7F7F7u, false); W w{s.b, big, L};
    w.ul((size_t)L * 5, m.row_length); w.ul((size_t)L * 6, m.row_count); w.ul((size_t)L * 9, m.col_count_p1); w.ul((size_t)L * 10, m.col_count_p2);
    w.ul((size_t)L * 13, page_length); w.u16(L == 4 ? 354 : 682, m.lcs); w.u16(L == 4 ? 378 : 706, m.lcp); subs.push_back(s); }
  { Sub s = mk("colsize", (size_t)L * 3, 0xF6F6F6F6u, false); W w{s.b, big, L}; w.ul((size_t)L, ncols); subs.push_back(s); }
  if (R.chance(1, 2)) subs.push_back(mk("counts", L == 4 ? 304 : 600, 0xFFFFFC00u, true));
  for (auto &t : blocks) {
    Sub s = mk("text", (size_t)L, 0xFFFFFFFDu, true);
    std::string tt = t; W w0{s.b, big, L};
    size_t n = tt.size(); s.b.resize((size_t)L + n); std::memcpy(s.b.data() + L, tt.data(), n); w0.u16((size_t)L, n);
    while (s.b.size() % 4) s.b.push_back(0);
    // an all-blank/NUL first block must still cover the creator fields
    size_t need = (size_t)L + 12 + 24 + m.lcp; if (s.b.size() < need) s.b.resize(need);
    subs.push_back(s);
  }
  const bool chunk = P(p, "chunk");
  const size_t cap = page_length - poff - 8 - 4 * 3 * (size_t)L - 64;
  auto chunks = [&](size_t per_item, size_t fixed) { // split ncols into pieces that fit
    std::vector<size_t> v; size_t left = ncols, mx = std::max<size_t>(1, (cap - fixed) / per_item);
    while (left) { size_t k = std::min(left, mx); if (chunk && k > 1) k = 1 + R.below(k); v.push_back(k); left -= k; }
    return v;
  };
  auto shorts = [&](Sub &s) { W w{s.b, big, L}; w.u16((size_t)L, s.b.size() - 2 * (size_t)L - 12 + 8); };
  size_t at = 0;
  for (size_t k : chunks(8, 2 * (size_t)L + 12)) { Sub s = mk("names", 2 * (size_t)L + 12 + 8 * k, 0xFFFFFFFFu, true); shorts(s); W w{s.b, big, L};
    for (size_t i = 0; i < k; ++i, ++at) { size_t o = (size_t)L + 8 + 8 * i; w.u16(o, rn[at].idx); w.u16(o + 2, rn[at].off); w.u16(o + 4, rn[at].len); } subs.push_back(s); }
  at = 0;
  for (size_t k : chunks((size_t)L + 8, 2 * (size_t)L + 12)) { Sub s = mk("attrs", 2 * (size_t)L + 12 + ((size_t)L + 8) * k, 0xFFFFFFFCu, true); shorts(s); W w{s.b, big, L};
    for (size_t i = 0; i < k; ++i, ++at) { size_t o = (size_t)L + 8 + ((size_t)L + 8) * i; w.ul(o, D.cols[at].offset); w.u32(o + (size_t)L, D.cols[at].length); w.u16(o + (size_t)L + 4, 0); s.b[o + (size_t)L + 4] = 0; s.b[o + (size_t)L + 6] = D.cols[at].numeric ? 1 : 2; } subs.push_back(s); }
  if (R.chance(1, 2)) { Sub s = mk("collist", 30 + 2 * std::min<size_t>(ncols, 100), 0xFFFFFFFEu, true); subs.push_back(s); }
  for (size_t i = 0; i < ncols; ++i) { Sub s = mk("format", L == 4 ? 52 : 64, 0xFFFFFBFEu, true); W w{s.b, big, L}; size_t o = 3 * (size_t)L;
    w.u16(o + 22, rf[i].idx); w.u16(o + 24, rf[i].off); w.u16(o + 26, rf[i].len); w.u16(o + 28, rl[i].idx); w.u16(o + 30, rl[i].off); w.u16(o + 32, rl[i].len); subs.push_back(s); }

  // pages
  struct Page { Bytes b; size_t type; size_t first_row = 0, nrows = 0; bool meta = false; std::vector<std::pair<size_t, std::string>> lm; };
  std::vector<Page> pages;
  const size_t PH = poff + 8, PTR = 3 * (size_t)L;
  struct Cur { size_t lo, hi, n; };
  Cur cur{0, 0, 0};
  auto new_page = [&](size_t type) { Page pg; pg.type = type; pg.b.assign(page_length, 0); // unused space is not zero in real files either
    if (hash2(seed, pages.size()) & 1) for (size_t i = PH; i < page_length; ++i) pg.b[i] = (uint8_t)(0x11 * (pages.size() % 15 + 1));
    pages.push_back(std::move(pg)); cur = {PH, page_length, 0}; };
  auto fits = [&](size_t len) { return cur.lo + PTR + len + 8 <= cur.hi; };
  auto finish = [&](size_t block_count) { Page &pg = pages.back(); W w{pg.b, big, L}; w.u16(poff, pg.type); w.u16(poff + 2, block_count); w.u16(poff + 4, cur.n); w.u16(poff + 6, 0); };
  auto add_ptr = [&](size_t o, size_t len, uint8_t comp, uint8_t type) { Page &pg = pages.back(); W w{pg.b, big, L}; for (size_t i = 0; i < PTR; ++i) pg.b[cur.lo + i] = 0; w.ul(cur.lo, o); w.ul(cur.lo + (size_t)L, len); pg.b[cur.lo + 2 * (size_t)L] = comp; pg.b[cur.lo + 2 * (size_t)L + 1] = type; cur.lo += PTR; ++cur.n; };
  auto add_sub = [&](const Sub &s) { Page &pg = pages.back(); cur.hi -= s.b.size(); if (cur.hi % 4 && !s.data) cur.hi -= cur.hi % 4; std::memcpy(pg.b.data() + cur.hi, s.b.data(), s.b.size()); pg.lm.push_back({cur.lo, "ptr." + s.what}); pg.lm.push_back({cur.hi, s.what}); add_ptr(cur.hi, s.b.size(), s.comp, s.type); };
  auto filler = [&](size_t salt) { static const size_t t[] = {1024, 16384, 0, 0x9000, 1024}; new_page(t[hash2(seed, salt) % 5]); pages.back().meta = false; finish(0); };

  const unsigned spread = (unsigned)P(p, "spread");
  new_page(0); pages.back().meta = true;
  bool after_meta_filler = P(p, "filler") && R.chance(1, 3);
  for (size_t i = 0; i < subs.size(); ++i) {
    bool brk = i && spread && R.below(12) < (spread == 3 ? 4u : spread);
    if (cur.n && (!fits(subs[i].b.size()) || brk)) {
      finish(cur.n);
      if (after_meta_filler && R.chance(1, 3)) { new_page(16384); finish(0); }
      new_page(0); pages.back().meta = true;
    }
    if (subs[i].what == "text" && R.chance(1, 6) && cur.lo + PTR + subs[i].b.size() + 200 < cur.hi) { add_ptr(cur.hi - 8, R.chance(1, 2) ? 0 : 8, 1, 0); }
    add_sub(subs[i]);
  }
  if (P(p, "amd") && pages.size() > 1) { // an AMD page carries (part of) the metadata
    size_t k = 1 + R.below(pages.size() - 1); if (pages[k].type == 0 && pages[k].meta) { pages[k].type = 1024; W w{pages[k].b, big, L}; w.u16(poff, 1024); }
  }
  size_t r = 0; D.row_page.assign(total, 0);
  const bool under = P(p, "under"), fill = P(p, "filler");
  if (m.compression == 0) {
    int mix = (int)P(p, "mix");
    size_t per_page = m.row_length ? (page_length - PH) / m.row_length : 1000; if (per_page > 60000) per_page = 60000;
    if (mix && pages.back().type == 1024) mix = 0;
    if (mix) {
      size_t o = cur.lo; o += o % 8;
      size_t room = cur.hi > o && m.row_length ? (cur.hi - o) / m.row_length : 0;
      size_t k = room; if (under && k) k = R.below(k + 1);
      if (k == 0 && total) mix = 0;
      if (total == 0) k = room;
      if (mix) {
        pages.back().type = mix == 1 ? 512 : 640;
        m.mix_page_row_count = k; size_t use = std::min(k, total);
        pages.back().first_row = 0; pages.back().nrows = use;
        for (size_t i = 0; i < use; ++i, ++r) { std::memcpy(pages.back().b.data() + o + i * m.row_length, D.rows[r].data(), m.row_length); D.row_page[r] = pages.size() - 1; }
        finish(cur.n + use);
      }
    }
    if (!mix) { finish(cur.n); m.mix_page_row_count = R.chance(1, 2) ? 0 : R.below(20); }
    while (r < total) {
      if (fill && r && R.chance(1, 4)) filler(pages.size());
      if (P(p, "empty") && r && R.chance(1, 4)) { new_page(256); finish(0); }
      new_page(256);
      size_t k = std::min(per_page, total - r); if (under && k > 1) k = 1 + R.below(k);
      pages.back().first_row = r; pages.back().nrows = k;
      for (size_t i = 0; i < k; ++i, ++r) { std::memcpy(pages.back().b.data() + PH + i * m.row_length, D.rows[r].data(), m.row_length); D.row_page[r] = pages.size() - 1; }
      finish(k);
    }
  } else {
    bool open = P(p, "share") && pages.back().type == 0;
    if (!open) finish(cur.n);
    bool trunc = P(p, "trunc");
    while (r < total) {
      Rng er(hash3(seed, r, 99));
      if (m.row_length >= (size_t)L) { // a raw row that looks like a metadata subheader would be ambiguous
        Bytes &x = D.rows[r]; int ff = 0, f7 = 0;
        for (size_t k = 0; k < (size_t)L; ++k) { ff += x[k] == 0xFF; f7 += x[k] == 0xF7 || x[k] == 0xF6; }
        if (f7 >= 4 || ff >= (int)L / 2) x[0] = x[1] = 0x41;
      }
      Sub s; s.data = true; s.what = "data"; s.type = 1;
      Bytes e = m.compression == 1 ? rle_encode(D.rows[r], er) : rdc_encode(D.rows[r], er);
      if (m.compression == 2 && e.size() < m.row_length) { // known finding rdc-tail
        Bytes alt; if (rdc_decode_short(e.data(), e.size(), m.row_length, alt) && alt != D.rows[r]) { if (P(p, "safetail")) e = D.rows[r]; else D.known_rows[r] = alt; }
      }
      if (e.size() < m.row_length && !e.empty()) { s.b = e; s.comp = 4; } else { s.b = D.rows[r]; s.comp = 0; }
      bool brk = open && pages.back().nrows && under && R.chance(1, 6);
      if (open && (!fits(s.b.size()) || brk)) {
        if (trunc && cur.lo + PTR + 8 < cur.hi && R.chance(1, 2)) add_ptr(cur.hi - 4, R.chance(1, 2) ? 0 : 4, 1, R.chance(1, 2));
        finish(cur.n); open = false;
      }
      if (!open) {
        if (fill && r && R.chance(1, 4)) filler(pages.size());
        new_page(0); open = true;
        if (trunc && R.chance(1, 4)) add_ptr(cur.hi - 4, 0, 0, 0);
      }
      if (!pages.back().nrows) pages.back().first_row = r;
      add_sub(s); ++pages.back().nrows; D.row_page[r] = pages.size() - 1; ++r;
      if (trunc && R.chance(1, 12) && cur.lo + PTR + 8 < cur.hi) add_ptr(cur.hi - 4, 0, R.chance(1, 2) ? 4 : 1, 1);
    }
    if (open) finish(cur.n);
  }
  if (P(p, "tail")) { filler(12345); if (R.chance(1, 2)) filler(12346); }
  // patch the mix page row count, known only now
  {
    bool done = false;
    for (auto &pg : pages) for (auto &lm : pg.lm) if (!done && lm.second == "rowsize") { W w{pg.b, big, L}; w.ul(lm.first + (size_t)L * 15, m.mix_page_row_count); done = true; }
    (void)i_rowsize;
  }
  h.page_count = P(p, "pcount") ? (size_t)P(p, "pcount") : pages.size();

  // header
  Bytes &img = D.image; img.assign(h.header_length, 0);
  std::memcpy(img.data(), magic_number().data(), 32);
  W w{img, big, L}; const size_t a1 = h.align1 ? 4 : 0, ta = a1 + (h.bits64 ? 4 : 0);
  img[32] = h.bits64 ? '3' : '"'; img[35] = h.align1 ? '3' : '2'; img[37] = big ? 0 : 1;
  img[39] = h.platform == 1 ? '1' : h.platform == 2 ? '2' : 'x'; img[70] = h.encoding;
  w.str(84, "SAS FILE", 8); w.str(92, h.dataset_name, 64); w.str(156, h.file_type, 8);
  w.d(164 + a1, h.created); w.d(172 + a1, h.modified);
  w.u32(196 + a1, h.header_length); w.u32(200 + a1, h.page_length); w.u32(204 + a1, h.page_count);
  w.str(216 + ta, h.sas_release, 8); w.str(224 + ta, h.server_type, 16); w.str(240 + ta, h.os_type, 16);
  if (os_alt) w.str(272 + ta, h.os_name, 16); else { w.str(256 + ta, h.os_name, 16); }
  for (auto &k : {std::pair<size_t, const char *>{32, "h.bits"}, {35, "h.align"}, {37, "h.endian"}, {196 + a1, "h.hlen"}, {200 + a1, "h.plen"}, {204 + a1, "h.pcount"}, {164 + a1, "h.created"}}) D.landmarks.push_back({k.first, k.second});
  // page info and landmarks
  for (size_t k = 0; k < pages.size(); ++k) {
    PageInfo pi; pi.offset = img.size(); pi.type = pages[k].type; pi.first_row = pages[k].first_row; pi.nrows = pages[k].nrows; pi.meta = pages[k].meta;
    D.landmarks.push_back({pi.offset + poff, "page.type"}); D.landmarks.push_back({pi.offset + poff + 2, "page.blocks"}); D.landmarks.push_back({pi.offset + poff + 4, "page.subs"});
    for (auto &l : pages[k].lm) D.landmarks.push_back({pi.offset + l.first, l.second});
    D.pages.push_back(pi); img.insert(img.end(), pages[k].b.begin(), pages[k].b.end());
  }
  // last page consumed by the constructor: the first page that carries rows (or data/mix type), else all
  D.meta_end = img.size();
  for (size_t k = 0; k < pages.size(); ++k) {
    bool stop = pages[k].type == 256 || pages[k].type == 512 || pages[k].type == 640 || (m.compression && pages[k].nrows);
    if (stop) { D.meta_end = D.pages[k].offset + page_length; D.first_data_page = (int)k; break; }
  }
  // the rows behind the announced ones are not part of the data
  D.rows.resize(nrows); D.row_page.resize(nrows); D.known_rows.erase(D.known_rows.lower_bound(nrows), D.known_rows.end());
  for (auto &pi : D.pages) { if (pi.first_row >= nrows) pi.nrows = 0; else pi.nrows = std::min(pi.nrows, nrows - pi.first_row); }
  return D;
}

// ---------------------------------------------------------------- reference decoder
namespace {
struct Rd {
  const Bytes &b; bool big; int L;
  bool ok(size_t o, size_t n) const { return o <= b.size() && n <= b.size() - o; }
  uint64_t u(size_t o, int n) const { uint64_t v = 0; for (int i = 0; i < n; ++i) v |= (uint64_t)b[o + (size_t)(big ? n - 1 - i : i)] << (8 * i); return v; }
  double d(size_t o) const { uint64_t v = u(o, 8); double x; std::memcpy(&x, &v, 8); return x; }
};
bool isctl(uint8_t c) { return c < 32 || c == 127; }
bool isws(uint8_t c) { return c == ' ' || (c >= 9 && c <= 13); }
std::string trimmed(const uint8_t *p, size_t n) {
  size_t a = 0; while (a < n && isws(p[a])) ++a;
  while (n > a && (isctl(p[n - 1]) || isws(p[n - 1]))) --n;
  return std::string((const char *)p + a, n - a);
}
} // namespace

bool ref_decode(const Bytes &img, Dataset &D, std::string &why) {
  HeaderInfo &h = D.h; MetaInfo &m = D.m;
  auto fail = [&](const char *w) { why = w; return false; };
  if (img.size() < 296) return fail("short");
  h.bits64 = img[32] == '3'; h.align1 = img[35] == '3'; h.big = img[37] != 1;
  const int L = h.bits64 ? 8 : 4; const size_t a1 = h.align1 ? 4 : 0, ta = a1 + (h.bits64 ? 4 : 0);
  Rd rd{img, h.big, L};
  h.platform = img[39] == '1' ? 1 : img[39] == '2' ? 2 : 0; h.encoding = img[70];
  h.dataset_name = trimmed(&img[92], 64); h.file_type = trimmed(&img[156], 8);
  h.created = rd.d(164 + a1); h.modified = rd.d(172 + a1);
  h.header_length = rd.u(196 + a1, 4); h.page_length = rd.u(200 + a1, 4); h.page_count = rd.u(204 + a1, 4);
  if (h.header_length < 288 + ta || h.header_length > img.size() || h.page_length < 64) return fail("geometry");
  h.sas_release = trimmed(&img[216 + ta], 8); h.server_type = trimmed(&img[224 + ta], 16); h.os_type = trimmed(&img[240 + ta], 16);
  if (288 + ta > img.size()) return fail("short header");
  h.os_name = img[272 + ta] ? trimmed(&img[272 + ta], 16) : trimmed(&img[256 + ta], 16);
  const size_t poff = h.bits64 ? 32 : 16, PTR = 3 * (size_t)L;
  std::vector<std::string> texts, names, labels, formats; std::vector<size_t> offs, lens; std::vector<bool> nums;
  bool in_meta = true;
  auto sub = [&](size_t idx, size_t off, size_t len) -> std::string {
    if (idx >= texts.size()) return "";
    const std::string &t = texts[idx]; if (off >= t.size()) return ""; if (len > t.size() - off) len = t.size() - off;
    if (!len || isctl((uint8_t)t[off])) return "";
    return trimmed((const uint8_t *)t.data() + off, len);
  };
  size_t npages = (img.size() - h.header_length) / h.page_length;
  for (size_t k = 0; k < npages; ++k) {
    size_t base = h.header_length + k * h.page_length;
    size_t type = rd.u(base + poff, 2), blocks = rd.u(base + poff + 2, 2), nsub = rd.u(base + poff + 4, 2);
    PageInfo pi; pi.offset = base; pi.type = type; pi.first_row = D.rows.size();
    bool meta = type == 0 || type == 512 || type == 640 || (type == 1024 && in_meta), stop = false;
    std::vector<std::pair<size_t, size_t>> data;
    if (meta) for (size_t i = 0; i < nsub; ++i) {
      size_t q = base + poff + 8 + i * PTR; if (q + PTR > base + h.page_length) return fail("pointer outside page");
      size_t so = rd.u(q, L), sl = rd.u(q + (size_t)L, L); uint8_t comp = img[q + 2 * (size_t)L], ty = img[q + 2 * (size_t)L + 1];
      if (so > h.page_length || sl > h.page_length - so) return fail("subheader outside page");
      if (!sl || comp == 1) continue;
      size_t o = base + so; if (sl < (size_t)L) return fail("short subheader");
      uint64_t sig = rd.u(o, L); bool matched = true;
      auto is = [&](uint32_t s, bool ext) { if (L == 4) return sig == s; if (ext) return sig == (0xFFFFFFFF00000000ull | s); return sig == s || sig == (uint64_t)s << 32 || (h.big && sig == ((uint64_t)s << 32 | 0xFFFFFBFEull)); };
      if (!in_meta) matched = false;
      else if (is(0xF7F7F7F7u, false)) {
        m.row_length = rd.u(o + 5 * (size_t)L, L); m.row_count = rd.u(o + 6 * (size_t)L, L); m.col_count_p1 = rd.u(o + 9 * (size_t)L, L); m.col_count_p2 = rd.u(o + 10 * (size_t)L, L); m.mix_page_row_count = rd.u(o + 15 * (size_t)L, L);
        m.lcs = rd.u(o + (L == 4 ? 354 : 682), 2); m.lcp = rd.u(o + (L == 4 ? 378 : 706), 2);
      } else if (is(0xF6F6F6F6u, false)) m.column_count = rd.u(o + (size_t)L, L);
      else if (is(0xFFFFFC00u, true)) {}
      else if (is(0xFFFFFFFDu, true)) {
        size_t n = rd.u(o + (size_t)L, 2); if ((size_t)L + n > h.page_length - so) return fail("text outside page");
        texts.emplace_back((const char *)&img[o + (size_t)L], n);
        if (texts.size() == 1) {
          if (texts[0].find("SASYZCRL") != std::string::npos) m.compression = 1; else if (texts[0].find("SASYZCR2") != std::string::npos) m.compression = 2;
          size_t c = o + (size_t)L + 12; std::string cs = trimmed(&img[c], 8);
          if (cs == "") { m.lcs = 0; m.creator_proc = trimmed(&img[c + 16], m.lcp); }
          else if (cs == "SASYZCRL") m.creator_proc = trimmed(&img[c + 24], m.lcp);
          else if (m.lcs > 0) { m.lcp = 0; m.creator = trimmed(&img[c], m.lcs); }
        }
      } else if (sig == (L == 4 ? 0xFFFFFFFFull : ~0ull)) {
        size_t n = (sl - 2 * (size_t)L - 12) / 8; for (size_t j = 0; j < n; ++j) { size_t e = o + (size_t)L + 8 + 8 * j; names.push_back(sub(rd.u(e, 2), rd.u(e + 2, 2), rd.u(e + 4, 2))); }
      } else if (is(0xFFFFFFFCu, true)) {
        size_t n = (sl - 2 * (size_t)L - 12) / ((size_t)L + 8); for (size_t j = 0; j < n; ++j) { size_t e = o + (size_t)L + 8 + ((size_t)L + 8) * j; offs.push_back(rd.u(e, L)); lens.push_back(rd.u(e + (size_t)L, 4)); nums.push_back(img[e + (size_t)L + 6] == 1); }
      } else if (is(0xFFFFFBFEu, true)) {
        size_t e = o + 3 * (size_t)L; formats.push_back(sub(rd.u(e + 22, 2), rd.u(e + 24, 2), rd.u(e + 26, 2))); labels.push_back(sub(rd.u(e + 28, 2), rd.u(e + 30, 2), rd.u(e + 32, 2)));
      } else if (is(0xFFFFFFFEu, true)) {}
      else matched = false;
      if (!matched && m.compression && (comp == 4 || comp == 0) && ty == 1) { data.push_back({o, sl}); stop = true; }
    }
    if (type == 256 || type == 512 || type == 640) stop = true;
    if (meta && in_meta) pi.meta = true;
    if (stop && in_meta) {
      in_meta = false; D.first_data_page = (int)k; D.meta_end = base + h.page_length;
      size_t n = m.column_count; if (names.size() < n || labels.size() < n || formats.size() < n || offs.size() < n) return fail("missing column metadata");
    }
    auto push_raw = [&](size_t o) { if (o + m.row_length > base + h.page_length) return false; D.rows.emplace_back(img.begin() + (long)o, img.begin() + (long)(o + m.row_length)); D.row_page.push_back(k); return true; };
    if (!in_meta && D.rows.size() < m.row_count) {
      if (!data.empty()) {
        for (auto &dd : data) { if (D.rows.size() == m.row_count) break;
          if (dd.second < m.row_length) { Bytes out; bool okd = m.compression == 1 ? rle_decode(&img[dd.first], dd.second, m.row_length, out) : rdc_decode(&img[dd.first], dd.second, m.row_length, out); if (!okd) return fail("decompression"); Bytes alt; if (m.compression == 2 && rdc_decode_short(&img[dd.first], dd.second, m.row_length, alt) && alt != out) D.known_rows[D.rows.size()] = alt; D.rows.push_back(out); D.row_page.push_back(k); }
          else if (!push_raw(dd.first)) return fail("row outside page"); }
      } else if (type == 256) { for (size_t i = 0; i < blocks && D.rows.size() < m.row_count; ++i) if (!push_raw(base + poff + 8 + i * m.row_length)) return fail("row outside page"); }
      else if (type == 512 || type == 640) { size_t o = poff + 8 + nsub * PTR; o += o % 8; size_t n = std::min(m.row_count, m.mix_page_row_count); for (size_t i = 0; i < n && D.rows.size() < m.row_count; ++i) if (!push_raw(base + o + i * m.row_length)) return fail("row outside page"); }
    }
    pi.nrows = D.rows.size() - pi.first_row; D.pages.push_back(pi);
  }
  if (in_meta) { D.meta_end = img.size(); size_t n = m.column_count; if (names.size() < n || labels.size() < n || formats.size() < n || offs.size() < n) return fail("missing column metadata"); }
  for (size_t i = 0; i < m.column_count; ++i) { ColSpec c; c.name = names[i]; c.label = labels[i]; c.format = formats[i]; c.numeric = nums[i]; c.length = lens[i]; c.offset = offs[i]; c.kind = kind_of(c.numeric, c.length, c.format); if (c.offset + c.length > m.row_length) return fail("column outside row"); D.cols.push_back(c); }
  D.image = img;
  return true;
}

Bytes read_file(const std::string &path) {
  Bytes b; FILE *f = fopen(path.c_str(), "rb"); if (!f) return b;
  uint8_t buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n);
  fclose(f); return b;
}
const std::vector<std::string> &corpus_files() {
  static std::vector<std::string> v;
  if (v.empty()) {
    const char *env = getenv("SIM_REPO"); std::string root = std::string(env ? env : "/repo") + "/test";
    if (DIR *d = opendir(root.c_str())) { while (auto e = readdir(d)) { std::string sub = e->d_name; if (sub.rfind("data", 0) != 0) continue;
        if (DIR *d2 = opendir((root + "/" + sub).c_str())) { while (auto e2 = readdir(d2)) { std::string f = e2->d_name; if (f.size() > 9 && f.substr(f.size() - 9) == ".sas7bdat") v.push_back(root + "/" + sub + "/" + f); } closedir(d2); } } closedir(d); }
    std::sort(v.begin(), v.end());
  }
  return v;
}
} // namespace sim
