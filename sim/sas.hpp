// Independent model of the SAS7BDAT format: logical data sets, an image writer, a reference decoder
// and reference value semantics. Shares no code with the library under test.
#pragma once
#include "prng.hpp"
#include <map>
#include <string>
#include <vector>
namespace sim {

using Bytes = std::vector<uint8_t>;

enum Kind { K_UNKNOWN = 0, K_STRING, K_NUMBER, K_INTEGER, K_DATETIME, K_DATE, K_TIME };
extern const char *const kind_names[];

struct ColSpec {
  std::string name, label, format;
  bool numeric = true;
  size_t length = 8, offset = 0;
  Kind kind = K_NUMBER;
};
Kind kind_of(bool numeric, size_t length, const std::string &format);

// A decoded value, canonical.
struct Val {
  Kind kind = K_UNKNOWN;
  std::string s;          // K_STRING
  double d = 0;           // raw number of numeric kinds
  bool missing = false;   // NaN for numeric kinds
  int32_t i = 0;          // K_INTEGER
  int64_t day = 0;        // K_DATE, K_DATETIME: days since 1960-01-01
  int64_t us = 0;         // K_DATETIME, K_TIME: microseconds within the day / of the time
  int64_t tol = 0;        // tolerated microseconds when the stored fraction is not dyadic
  bool representable = true; // instant inside the range of the library's date type
};
Val ref_value(const ColSpec &c, bool big, const uint8_t *row);

struct HeaderInfo {
  bool bits64 = false, big = false, align1 = false;
  int platform = 1; // 1 unix 2 windows 0 other
  uint8_t encoding = 20;
  double created = 0, modified = 0;
  std::string dataset_name, file_type, sas_release, server_type, os_type, os_name;
  size_t header_length = 1024, page_length = 4096, page_count = 0;
};
struct MetaInfo {
  int compression = 0; // 0 none 1 RLE 2 RDC
  std::string creator, creator_proc;
  size_t row_length = 0, row_count = 0, column_count = 0, col_count_p1 = 0, col_count_p2 = 0, mix_page_row_count = 0, lcs = 0, lcp = 0;
};
struct PageInfo { size_t offset = 0, type = 0, first_row = 0, nrows = 0; bool meta = false; };

struct Dataset {
  HeaderInfo h;
  MetaInfo m;
  std::vector<ColSpec> cols;
  std::vector<Bytes> rows;     // raw rows, row_length bytes each
  std::map<size_t, Bytes> known_rows; // known finding rdc-tail: what the library yields instead for these rows
  Bytes image;
  std::vector<PageInfo> pages;
  // field positions of interest for targeted damage
  std::vector<std::pair<size_t, std::string>> landmarks;
  std::vector<size_t> row_page; // page index holding row i
  size_t meta_end = 0;          // image bytes needed before construction can succeed (end of last page read by ctor)
  int first_data_page = -1;     // page read by constructor as the last one
};

// All parameters are integers so that a plan is a list of key/value lines.
using Params = std::map<std::string, int64_t>;
Params random_ds_params(Rng &r, const std::string &profile);
Dataset make_dataset(const Params &p);

// Reference decoder (bounds-checked). Returns false + why when it cannot decode.
const Bytes &magic_number();
bool ref_decode(const Bytes &img, Dataset &out, std::string &why);

// compression (encoders make varied but valid streams)
Bytes rle_encode(const Bytes &row, Rng &r);
Bytes rdc_encode(const Bytes &row, Rng &r);
bool rle_decode(const uint8_t *p, size_t n, size_t out_len, Bytes &out);
bool rdc_decode(const uint8_t *p, size_t n, size_t out_len, Bytes &out);

// known finding rdc-tail: commands that start when fewer than 3 compressed bytes are left are ignored
bool rdc_decode_short(const uint8_t *p, size_t n, size_t out_len, Bytes &out);

const std::vector<std::string> &corpus_files(); // absolute paths, sorted
Bytes read_file(const std::string &path);

} // namespace sim
