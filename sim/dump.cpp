// Files and expected contents for the checks of the Python and R packages (tools/bind.py).
#include "world.hpp"
#include <cmath>
#include <cstring>
namespace sim {
namespace {
std::string js(const std::string &s) { std::string o = "\""; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
std::string hx(const std::string &s) { return s.empty() ? "" : hex(s); }
std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return b; }
std::string val(const Val &v) { // "x": any value will do
  std::string t = std::to_string(v.tol);
  switch (v.kind) {
  case K_STRING: return "[\"s\",\"" + hx(v.s) + "\"]";
  case K_INTEGER: return "[\"i\"," + std::to_string(v.i) + "]";
  case K_NUMBER: return v.missing ? "[\"f\",null]" : "[\"f\",\"" + num(v.d) + "\"]";
  case K_DATE: return v.missing ? "[\"d\",null]" : v.representable ? "[\"d\"," + std::to_string(v.day) + "]" : "[\"x\"]";
  case K_DATETIME: return v.missing ? "[\"dt\",null]" : v.representable ? "[\"dt\"," + std::to_string(v.day) + "," + std::to_string(v.us) + "," + t + "]" : "[\"x\"]";
  case K_TIME: return v.missing ? "[\"t\",null]" : v.representable && v.us >= 0 && v.us < 86400000000ll ? "[\"t\"," + std::to_string(v.us) + "," + t + "]" : "[\"x\"]";
  default: return "[\"u\"]";
  }
}
std::string instant(double v) { ColSpec c; c.kind = K_DATETIME; c.length = 8; uint8_t raw[8]; memcpy(raw, &v, 8); return val(ref_value(c, false, raw)); }
std::string props(const Data &d) {
  const HeaderInfo &h = d.D.h; const MetaInfo &m = d.D.m; std::string o = "{";
  auto S = [&](const char *k, const std::string &v) { o += std::string("\"") + k + "\":" + js(v) + ","; };
  auto I = [&](const char *k, size_t v) { o += std::string("\"") + k + "\":" + std::to_string(v) + ","; };
  S("format", h.bits64 ? "bit64" : "bit32"); S("endianness", h.big ? "big" : "little"); S("platform", h.platform == 1 ? "unix" : h.platform == 2 ? "windows" : "unknown");
  S("compression", m.compression == 0 ? "none" : m.compression == 1 ? "RLE" : "RDC");
  S("dataset_name", h.dataset_name); S("file_type", h.file_type); S("sas_release", h.sas_release); S("sas_server_type", h.server_type); S("os_type", h.os_type); S("os_name", h.os_name);
  S("creator", m.creator); S("creator_proc", m.creator_proc);
  if (encoding_name(h.encoding)) S("encoding", encoding_name(h.encoding));
  I("header_length", h.header_length); I("page_length", h.page_length); I("page_count", h.page_count); I("row_length", m.row_length); I("row_count", m.row_count); I("column_count", m.column_count);
  I("col_count_p1", m.col_count_p1); I("col_count_p2", m.col_count_p2); I("mix_page_row_count", m.mix_page_row_count);
  o += "\"date_created\":" + instant(h.created) + ",\"date_modified\":" + instant(h.modified) + "}";
  return o;
}
void put(const std::string &path, const void *p, size_t n) { FILE *f = fopen(path.c_str(), "wb"); if (f) { fwrite(p, 1, n, f); fclose(f); } }
} // namespace

void dump_plan(const Plan &p, const std::string &dir) {
  std::vector<std::vector<Line>> eps;
  for (auto &l : p.lines) { if (l.w[0] == "ep") eps.emplace_back(); if (eps.empty()) eps.emplace_back(); eps.back().push_back(l); }
  for (size_t k = 0; k < eps.size(); ++k) {
    DataSet ds; std::map<int, std::vector<Line>> cfg; std::string lines, txt;
    for (auto &l : eps[k]) {
      if (ds.line(l)) continue;
      if (l.w.size() > 1 && (l.w[0] == "rdr" || l.w[0] == "flt" || l.w[0] == "fault")) cfg[(int)to_i(l.w[1])].push_back(l);
      for (auto &x : l.w) txt += x + " ";
      txt += "\n";
      std::string t = "["; for (size_t i = 0; i < l.w.size(); ++i) t += (i ? "," : "") + js(l.w[i]); lines += (lines.empty() ? "" : ",") + t + "]";
    }
    ds.build();
    std::string o = "{\"lines\":[" + lines + "],\"datas\":[";
    for (size_t j = 0; j < ds.v.size(); ++j) {
      const Data &d = *ds.v[j];
      o += std::string(j ? "," : "") + "{\"ok\":" + (d.ok ? "true" : "false") + ",\"meta_ok\":" + (d.ok && d.meta_ok && !d.meta_cut ? "true" : "false") + ",\"exact\":" + (d.exact ? "true" : "false") + ",\"cut\":" + (d.cut ? "true" : "false") + ",\"edited\":" + (d.edited ? "true" : "false") + ",\"avail\":" + std::to_string(d.avail) + ",\"N\":" + std::to_string(d.D.rows.size());
      if (d.ok) {
        o += ",\"props\":" + props(d) + ",\"cols\":[";
        for (size_t c = 0; c < d.D.cols.size(); ++c) { auto &q = d.D.cols[c]; o += std::string(c ? "," : "") + "[" + js(q.name) + "," + js(q.label) + "," + js(q.format) + "," + js(kind_names[q.kind]) + "]"; }
        o += "],\"rows\":[";
        for (size_t r = 0; r < d.avail && r < d.D.rows.size(); ++r) { o += r ? ",[" : "["; for (size_t c = 0; c < d.D.cols.size(); ++c) o += (c ? "," : "") + val(ref_value(d.D.cols[c], d.D.h.big, d.D.rows[r].data())); o += "]"; }
        o += "],\"known\":["; bool first = true;
        for (auto &kr : d.D.known_rows) { o += (first ? "" : ",") + std::to_string(kr.first); first = false; }
        o += "]";
      }
      o += "}";
    }
    o += "],\"readers\":{"; bool first = true;
    for (auto &c : cfg) {
      size_t dk = 0; std::string faults, inc, exc;
      for (auto &l : c.second) {
        const auto &w = l.w;
        if (w[0] == "rdr") { for (auto &x : w) if (x.rfind("data=", 0) == 0) dk = (size_t)to_i(x.substr(5)); }
        else if (w[0] == "fault" && w.size() > 4 && w[2] == "sys") faults += w[3] + " " + w[4] + " " + (w.size() > 5 ? w[5] : "0") + "\n";
      }
      if (dk >= ds.v.size()) continue;
      for (auto &l : c.second) if (l.w[0] == "flt" && l.w.size() > 3) { std::string &s = l.w[2] == "inc" ? inc : exc; std::string f = filter_name(ds.v[dk]->D, to_i(l.w[3])); s += (s.empty() ? "" : ",") + js(f); txt += l.w[2] + " " + std::to_string(c.first) + " x" + hx(f) + "\n"; }
      std::string path = "e" + std::to_string(k) + ".r" + std::to_string(c.first) + ".sas7bdat";
      put(dir + "/" + path, ds.v[dk]->image.data(), ds.v[dk]->image.size());
      if (!faults.empty()) put(dir + "/" + path + ".faults", faults.data(), faults.size());
      txt += "file " + std::to_string(c.first) + " " + path + "\n";
      o += std::string(first ? "" : ",") + "\"" + std::to_string(c.first) + "\":{\"path\":" + js(path) + ",\"data\":" + std::to_string(dk) + ",\"inc\":[" + inc + "],\"exc\":[" + exc + "]}"; first = false;
    }
    o += "}}\n";
    std::string jp = dir + "/e" + std::to_string(k) + ".json"; put(jp, o.data(), o.size()); jp = dir + "/e" + std::to_string(k) + ".txt"; put(jp, txt.data(), txt.size());
  }
}
} // namespace sim
