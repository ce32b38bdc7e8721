// Comparison of what the library reports with the reference model.
#include "world.hpp"
#include <cmath>
#include <cstring>
namespace sim {
static const char *tname(cs::Column::Type t) {
  switch (t) { case cs::Column::Type::string: return "string"; case cs::Column::Type::number: return "number"; case cs::Column::Type::integer: return "integer"; case cs::Column::Type::datetime: return "datetime"; case cs::Column::Type::date: return "date"; case cs::Column::Type::time: return "time"; default: return "unknown"; }
}
static std::string q(const std::string &s) { std::string o = "'"; for (unsigned char c : s) { if (c >= 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } } o += "'"; if (o.size() > 160) o = o.substr(0, 160) + "..."; return o; }
static std::string num(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string val_text(const Val &v) {
  switch (v.kind) {
  case K_STRING: return q(v.s);
  case K_INTEGER: return std::to_string(v.i);
  case K_UNKNOWN: return "unknown";
  default: return v.missing ? "missing" : num(v.d);
  }
}
static const int64_t US_DAY = 86400000000ll;
static const boost::gregorian::date &epoch() { static const boost::gregorian::date d(1960, 1, 1); return d; }
static bool to_days_us(const cs::DATETIME &t, int64_t &day, int64_t &us) {
  if (t.is_special()) return false;
  day = (t.date() - epoch()).days(); us = t.time_of_day().total_microseconds(); return true;
}

std::string check_columns(const cs::COLUMNS &cols, const Data &d, const std::vector<int> &map) {
  if (cols.size() != map.size()) return "expected " + std::to_string(map.size()) + " columns, got " + std::to_string(cols.size());
  for (size_t i = 0; i < map.size(); ++i) {
    const ColSpec &c = d.D.cols[(size_t)map[i]]; const cs::Column &k = cols[i];
    std::string at = "column " + std::to_string(i) + ": ";
    if (k.name != c.name) return at + "name " + q(k.name) + " instead of " + q(c.name);
    if (k.label != c.label) return at + "label " + q(k.label) + " instead of " + q(c.label);
    if (k.format != c.format) return at + "format " + q(k.format) + " instead of " + q(c.format);
    if (std::string(tname(k.type)) != kind_names[c.kind]) return at + "type " + tname(k.type) + " instead of " + kind_names[c.kind];
    if (k.length() != c.length) return at + "length " + std::to_string(k.length()) + " instead of " + std::to_string(c.length);
  }
  return "";
}

const char *encoding_name(uint8_t e) { // the published names of SAS encodings; null where there is none or several are in use
  static const char *iso[] = {"ISO-8859-1", "ISO-8859-2", "ISO-8859-3", "ISO-8859-4", "ISO-8859-5", "ISO-8859-6", "ISO-8859-7", "ISO-8859-8", "ISO-8859-9", nullptr, "ISO-8859-11", "ISO-8859-15",
    "CP437", "CP850", "CP852", "CP857", "CP858", "CP862", "CP864", "CP865", "CP866", "CP869", "CP874", "CP921", "CP922", "CP1129", "CP720", "CP737", "CP775", "CP860", "CP863",
    "WINDOWS-1250", "WINDOWS-1251", "WINDOWS-1252", "WINDOWS-1253", "WINDOWS-1254", "WINDOWS-1255", "WINDOWS-1256", "WINDOWS-1257", "WINDOWS-1258", "MACROMAN", "MACARABIC", "MACHEBREW", "MACGREEK", "MACTHAI", nullptr, "MACTURKISH", "MACUKRAINE"}; // 29..76
  if (e >= 29 && e < 29 + sizeof iso / sizeof *iso) return iso[e - 29];
  switch (e) {
  case 20: return "UTF-8"; case 28: return "US-ASCII"; case 118: return "CP950"; case 119: return "EUC-TW"; case 123: return "BIG5-HKSCS"; case 125: case 205: return "GB18030"; case 126: return "CP936"; case 128: return "CP1381";
  case 134: return "EUC-JP"; case 136: case 141: case 142: return "CP949"; case 137: return "CP942"; case 140: return "EUC-KR"; case 163: return "MACICELAND"; case 167: return "ISO-2022-JP"; case 168: return "ISO-2022-KR"; case 169: return "ISO-2022-CN";
  case 172: return "ISO-2022-CN-EXT"; case 227: return "ISO-8859-14"; case 242: return "ISO-8859-13"; case 245: return "MACCROATIAN"; case 246: return "MACCYRILLIC"; case 247: return "MACROMANIA"; case 248: return "SHIFT_JISX0213";
  default: return nullptr;
  }
}

static std::string check_groups(const cs::COLUMNS &cols) { // Columns: the same columns grouped by type, in file order
  cs::Columns g(cols);
  const std::pair<const cs::COLUMNS *, cs::Column::Type> all[] = {{&g.strings, cs::Column::Type::string}, {&g.numbers, cs::Column::Type::number}, {&g.integers, cs::Column::Type::integer}, {&g.datetimes, cs::Column::Type::datetime}, {&g.dates, cs::Column::Type::date}, {&g.times, cs::Column::Type::time}};
  for (auto &[v, t] : all) {
    size_t i = 0;
    for (auto &c : cols) if (c.type == t) { if (i >= v->size() || (*v)[i].name != c.name || (*v)[i].label != c.label || (*v)[i].format != c.format || (*v)[i].type != t || (*v)[i].length() != c.length()) return std::string("the columns grouped as ") + tname(t) + " differ at " + std::to_string(i); ++i; }
    if (i != v->size()) return std::string("there are surplus columns grouped as ") + tname(t);
  }
  return "";
}

std::string check_properties(const cs::Properties &p, const Data &d, const std::vector<int> &map, bool all) {
  const HeaderInfo &h = d.D.h; const MetaInfo &m = d.D.m;
#define EQ(what, got, want) do { auto g_ = (got); decltype(g_) w_ = (want); if (!(g_ == w_)) return std::string(what) + " is wrong"; } while (0)
#define SEQ(what, got, want) do { if ((got) != (want)) return std::string(what) + " is " + q(got) + " instead of " + q(want); } while (0)
  if (p.format != (h.bits64 ? cs::Format::bit64 : cs::Format::bit32)) return "format is wrong";
  if (p.endianness != (h.big ? cs::Endian::big : cs::Endian::little)) return "endianness is wrong";
  if (p.platform != (h.platform == 1 ? cs::Platform::unix : h.platform == 2 ? cs::Platform::windows : cs::Platform::unknown)) return "platform is wrong";
  SEQ("dataset name", p.dataset_name, h.dataset_name); SEQ("file type", p.file_type, h.file_type); SEQ("SAS release", p.sas_release, h.sas_release);
  SEQ("server type", p.sas_server_type, h.server_type); SEQ("OS type", p.os_type, h.os_type); SEQ("OS name", p.os_name, h.os_name);
  const char *enc = encoding_name(h.encoding);
  if (enc) SEQ("encoding", p.encoding, std::string(enc));
  EQ("header length", p.header_length, h.header_length); EQ("page length", p.page_length, h.page_length); EQ("page count", p.page_count, h.page_count);
  for (int k = 0; k < 2; ++k) {
    double v = k ? h.modified : h.created; const cs::DATETIME &t = k ? p.date_modified : p.date_created;
    ColSpec c; c.kind = K_DATETIME; c.length = 8; uint8_t raw[8]; memcpy(raw, &v, 8); Val e = ref_value(c, false, raw);
    const char *what = k ? "modification time" : "creation time"; int64_t day, us;
    if (e.missing) { if (!t.is_special()) return std::string(what) + " should be not-a-date"; }
    else if (e.representable) { if (!to_days_us(t, day, us)) return std::string(what) + " is not a date, stored " + num(v); int64_t diff = (day - e.day) * US_DAY + us - e.us; if (diff > e.tol || diff < -e.tol) return std::string(what) + " differs from the stored " + num(v); }
  }
  if (!all) return "";
  if (p.compression != (m.compression == 0 ? cs::Compression::none : m.compression == 1 ? cs::Compression::RLE : cs::Compression::RDC)) return "compression is wrong";
  SEQ("creator", p.creator, m.creator); SEQ("creator proc", p.creator_proc, m.creator_proc);
  EQ("row length", p.row_length, m.row_length); EQ("row count", p.row_count, m.row_count); EQ("column count", p.column_count, m.column_count);
  EQ("col_count_p1", p.col_count_p1, m.col_count_p1); EQ("col_count_p2", p.col_count_p2, m.col_count_p2); EQ("mix page row count", p.mix_page_row_count, m.mix_page_row_count);
  auto e = check_columns(p.columns, d, map);
  return e.empty() ? check_groups(p.columns) : e;
}

uint64_t hash_properties(const cs::Properties &p) {
  Fnv f; f.u64((uint64_t)p.format); f.u64((uint64_t)p.endianness); f.u64((uint64_t)p.platform);
  for (auto *s : {&p.dataset_name, &p.encoding, &p.file_type, &p.sas_release, &p.sas_server_type, &p.os_type, &p.os_name, &p.creator, &p.creator_proc}) f.str(*s);
  for (auto v : {p.header_length, p.page_length, p.page_count, p.row_length, p.row_count, p.column_count, p.col_count_p1, p.col_count_p2, p.mix_page_row_count, p.lcs, p.lcp}) f.u64(v);
  f.u64((uint64_t)p.compression);
  for (auto *t : {&p.date_created, &p.date_modified}) { int64_t a = 0, b = 0; if (to_days_us(*t, a, b)) { f.u64((uint64_t)a); f.u64((uint64_t)b); } else f.u64(~0ull); }
  for (auto &c : p.columns) { f.str(c.name); f.str(c.label); f.str(c.format); f.u64((uint64_t)c.type); f.u64(c.length()); }
  return f.h;
}

static std::string check_row_bytes(const cs::COLUMNS &cols, const Data &d, const std::vector<int> &map, size_t row, const void *p, const Bytes &raw) {
  if (cols.size() != map.size()) return "expected " + std::to_string(map.size()) + " columns, got " + std::to_string(cols.size());
  count(C_VALUES, map.size());
  for (size_t i = 0; i < map.size(); ++i) {
    const ColSpec &c = d.D.cols[(size_t)map[i]]; const cs::Column &k = cols[i];
    Val e = ref_value(c, d.D.h.big, raw.data());
    std::string at = "row " + std::to_string(row) + " column " + std::to_string(i) + " (" + kind_names[c.kind] + ", " + std::to_string(c.length) + " bytes) ";
    if (e.missing) count(P_MISSING);
    if (c.kind != K_UNKNOWN && (row < 4 || (row + i) % 4 == 0) && (e.missing || c.kind == K_STRING || c.kind == K_INTEGER || c.kind == K_NUMBER || e.representable)) {
      std::string s; bool got = true; { LibScope l; try { s = k.to_string(p); } catch (const std::bad_alloc &) { got = false; } }
      auto w = got ? text_error(c, e, s) : ""; if (!w.empty()) return at + w;
    }
    switch (c.kind) {
    case K_STRING: {
      std::string_view s; { LibScope l; s = k.get_string(p); }
      if (s != e.s) return at + "get_string gives " + q(std::string(s)) + " instead of " + q(e.s);
      break;
    }
    case K_UNKNOWN: break;
    case K_INTEGER: {
      int g; double n; { LibScope l; g = k.get_integer(p); n = k.get_number(p); }
      if (g != e.i) return at + "get_integer gives " + std::to_string(g) + " instead of " + std::to_string(e.i);
      if (n != (double)e.i) return at + "get_number gives " + num(n) + " instead of " + std::to_string(e.i);
      break;
    }
    default: {
      double n; { LibScope l; n = k.get_number(p); }
      if (e.missing ? !std::isnan(n) : !(n == e.d)) return at + "get_number gives " + num(n) + " instead of " + (e.missing ? "NaN" : num(e.d));
      if (c.kind == K_NUMBER || (!e.missing && !e.representable)) break;
      int64_t day = 0, us = 0;
      if (c.kind == K_DATE) {
        cs::DATE g; cs::DATETIME t; { LibScope l; g = k.get_date(p); t = k.get_datetime(p); }
        if (e.missing) { if (!g.is_special()) return at + "get_date of a missing value is a date"; if (!t.is_special()) return at + "get_datetime of a missing value is an instant"; }
        else {
          if (g.is_special() || (g - epoch()).days() != e.day) return at + "get_date differs from stored day " + std::to_string(e.day);
          if (!to_days_us(t, day, us) || day != e.day || us != 0) return at + "get_datetime differs from stored day " + std::to_string(e.day);
        }
      } else if (c.kind == K_DATETIME) {
        cs::DATETIME t; cs::DATE g; cs::TIME o; { LibScope l; t = k.get_datetime(p); g = k.get_date(p); o = k.get_time(p); }
        if (e.missing) { if (!t.is_special()) return at + "get_datetime of a missing value is an instant"; if (!g.is_special()) return at + "get_date of a missing value is a date"; }
        else {
          if (!to_days_us(t, day, us)) return at + "get_datetime is not a date, stored " + num(e.d);
          int64_t diff = (day - e.day) * US_DAY + us - e.us;
          if (diff > e.tol || diff < -e.tol) return at + "get_datetime is off by " + std::to_string(diff) + " us, stored " + num(e.d);
          if (g.is_special() || (g - epoch()).days() != day || o.is_special() || o.total_microseconds() != us) return at + "get_date/get_time disagree with get_datetime";
        }
      } else if (c.kind == K_TIME) {
        cs::TIME o; { LibScope l; o = k.get_time(p); }
        if (e.missing) { if (!o.is_special()) return at + "get_time of a missing value is a time"; }
        else { if (o.is_special()) return at + "get_time is not a time, stored " + num(e.d); int64_t diff = o.total_microseconds() - e.us; if (diff > e.tol || diff < -e.tol) return at + "get_time is off by " + std::to_string(diff) + " us, stored " + num(e.d); }
      }
    }
    }
  }
  return "";
}

std::string check_row(const cs::COLUMNS &cols, const Data &d, const std::vector<int> &map, size_t row, const void *p) {
  std::string e = check_row_bytes(cols, d, map, row, p, d.D.rows[row]);
  if (!e.empty()) {
    auto k = d.D.known_rows.find(row);
    if (k != d.D.known_rows.end() && check_row_bytes(cols, d, map, row, p, k->second).empty()) { count(K_RDC_TAIL); return ""; }
  }
  return e;
}

uint64_t decode_any(const cs::COLUMNS &cols, const void *p) {
  Fnv f; LibScope l;
  for (auto &k : cols) {
    try {
      switch (k.type) {
      case cs::Column::Type::string: { auto s = k.get_string(p); f.bytes(s.data(), s.size()); break; }
      case cs::Column::Type::integer: f.u64((uint64_t)k.get_integer(p)); break;
      case cs::Column::Type::number: { double d = k.get_number(p); uint64_t x; memcpy(&x, &d, 8); f.u64(std::isnan(d) ? 1 : x); break; }
      case cs::Column::Type::datetime: { auto t = k.get_datetime(p); int64_t a = 0, b = 0; f.u64(to_days_us(t, a, b)); f.u64((uint64_t)a); f.u64((uint64_t)b); k.get_date(p); k.get_time(p); break; }
      case cs::Column::Type::date: { auto t = k.get_date(p); f.u64(t.is_special() ? ~0ull : (uint64_t)(t - epoch()).days()); k.get_datetime(p); break; }
      case cs::Column::Type::time: { auto t = k.get_time(p); f.u64(t.is_special() ? ~0ull : (uint64_t)t.total_microseconds()); break; }
      default: break;
      }
      auto s = k.to_string(p); f.str(s);
    } catch (const std::exception &) { f.u64(0xbad); }
  }
  return f.h;
}
} // namespace sim
