// Executes reader plans against the real library and checks them against the reference model.
#pragma once
#include "core.hpp"
#include "sas.hpp"
#include <cppsas7bdat/column.hpp>
#include <cppsas7bdat/properties.hpp>
#include <functional>
#include <memory>
#include <optional>
namespace sim {
namespace cs = cppsas7bdat;

struct Data {
  Dataset D; Bytes image; bool corpus = false, ok = false, cut = false, edited = false, meta_ok = true, meta_cut = false;
  size_t avail = 0;      // rows that must be delivered correctly
  bool exact = true;     // and nothing after them
  size_t first_edit = ~(size_t)0, cut_at = ~(size_t)0;
  std::string path, why;
  std::string file(); // on disk, written on first use
  void finish();
};
using PData = std::shared_ptr<Data>;

// checks against the model; empty string when fine
const char *encoding_name(uint8_t byte);
std::string check_columns(const cs::COLUMNS &cols, const Data &d, const std::vector<int> &map);
std::string check_properties(const cs::Properties &p, const Data &d, const std::vector<int> &map, bool all);
std::string check_row(const cs::COLUMNS &cols, const Data &d, const std::vector<int> &map, size_t row, const void *p);
std::string text_error(const ColSpec &c, const Val &v, const std::string &text); // empty if the text of a value is right
uint64_t decode_any(const cs::COLUMNS &cols, const void *p); // every accessor; hash of what came out
uint64_t hash_properties(const cs::Properties &p);
std::string val_text(const Val &v);

struct SimExc { int id; };
// kinds of exceptions that user code throws: 0 a plain struct, 1 runtime_error, 2 an int, 3.. other families of the standard library
template <typename Base, int Kind> struct SimOf : Base { int id; template <typename... A> explicit SimOf(int i, A &&...a) : Base(std::forward<A>(a)...), id(i) {} };
using SimStdExc = SimOf<std::runtime_error, 1>; using SimArg = SimOf<std::invalid_argument, 3>; using SimRange = SimOf<std::out_of_range, 4>; using SimLen = SimOf<std::length_error, 5>;
using SimIos = SimOf<std::ios_base::failure, 6>; using SimBad = SimOf<std::exception, 7>; using SimMem = SimOf<std::bad_alloc, 8>;
constexpr int EXC_KINDS = 9;

// Parses "data/dp/corpus/cut/edit" lines into data sets
struct DataSet { std::vector<PData> v; bool line(const Line &l); void build(); std::vector<Params> params; std::vector<std::string> corpus; std::vector<std::vector<Line>> mods; };

std::string filter_name(const Dataset &D, int64_t k);
void dump_plan(const Plan &p, const std::string &dir); // files and expectations for the language bindings
void run_reader_episode(const std::vector<Line> &lines);
void run_out_episode(const std::vector<Line> &lines);  // csv and print sinks
void run_cli_episode(const std::vector<Line> &lines);  // command line tool
void run_plan(const Plan &p);
Plan gen_plan(const std::string &prop, uint64_t seed, const std::string &tier);
std::string what_of(const std::exception &e);
void gen_data(Plan &p, Rng &r, int k, const std::string &profile, unsigned corpus_in_100);
} // namespace sim
