#pragma once
#include "rt.hpp"
#include "sut_api.h"
#include <map>
#include <set>
#include <tuple>
#include <sstream>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <algorithm>
#include <functional>
#include <memory>
using std::string; using std::vector; using sim::Rng;

struct Data { int type = 1; int cols = 1; bool rowwise = true; vector<vector<double>> pts; bool pow2 = false, many = false; long base = 0; // base: added to every coordinate of an integer buffer
  // rowwise: every pts entry is one point; element-wise: every entry is a row of `cols` one-dimensional points
  int n() const { return rowwise ? (int)pts.size() : (int)pts.size() * cols; }
  double coord(int p, int k) const { return rowwise ? pts[p][k] : pts[p / cols][p % cols]; }
  int dim() const { return rowwise ? cols : 1; } };
struct Op { int thread; vector<string> a; const string& name() const { return a[0]; } 
  long i(size_t k, long d = 0) const { return k < a.size() ? atol(a[k].c_str()) : d; }
  double f(size_t k, double d = 0) const { return k < a.size() ? strtod(a[k].c_str(), nullptr) : d; }
  string s(size_t k, const string& d = "") const { return k < a.size() ? a[k] : d; } };
struct Case { string prop, family; sim::Config cfg; vector<Data> data; vector<Op> ops; std::map<string, string> opt;
  string o(const string& k, const string& d = "") const { auto it = opt.find(k); return it == opt.end() ? d : it->second; } };

string num(double v);                       // exact text of a double
string cfg_text(const sim::Config& c);
Case parse_case(const string& text);
sim::Config ref_config(const sim::Config& c);   // sequential, one thread, zeroed memory
sim::Config random_config(Rng& r, bool threads, bool memory, bool clock);
string data_text(int id, const Data& d);
struct DataProfile { int maxn = 36; bool rowwise_false = true; bool all_types = true; bool exact_only = false; int maxcols = 3; bool small = false; bool wide = true; int minn = 0; };
Data gen_data(Rng& r, const DataProfile& p);
void* data_buffer(const Data& d);           // in the checked arena
bool near(double a, double b, double rel, double abs_ = 0);

// families: each generates the text of a case and runs one
string gen_cluster(const string& prop, Rng& r, const string& variant, long index);
void run_cluster(const Case& c);
string gen_container(const string& prop, Rng& r, const string& variant, long index);
void run_container(const Case& c);
string gen_misc(const string& prop, Rng& r, const string& variant, long index);
void run_misc(const Case& c);
string gen_parts(const string& prop, Rng& r, const string& variant, long index);
void run_parts(const Case& c);
string gen_jni(const string& prop, Rng& r, const string& variant, long index);
void run_jni(const Case& c);
void jni_prepare(const string& text, bool again);
void py_boot(); // starts the interpreter, once, before any case
string gen_py(const string& prop, Rng& r, const string& variant, long index);
void run_py(const Case& c);

[[noreturn]] void fail(const string& cls, const string& detail);
void checked();                             // one oracle comparison made
extern bool multi_callers;                  // several caller threads share the step counter, so per-call limits do not apply
// runs one call into the system under test
#define SUT(opname, limit, ...) do { sim::paint_stack(); sim::set_step_limit(multi_callers ? 0 : (uint64_t)(limit)); sim::sut_enter(opname); { __VA_ARGS__; } sim::sut_leave(); sim::clear_step_limit(); } while (0)
#define SUTQ(opname, limit, ...) do { sim::set_step_limit(multi_callers ? 0 : (uint64_t)(limit)); sim::sut_enter(opname); { __VA_ARGS__; } sim::sut_leave(); sim::clear_step_limit(); } while (0)
string strf(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- observations of one finished object ----
struct Level { long key; double w; vector<long> lab; };
struct Snap { int n = 0; long minpts = 0; vector<double> dist, core; vector<long> lab; vector<Level> hier; vector<drv_cl> cl; struct O { long id; double score, core; }; vector<O> out; struct E { long a, b; double w; }; bool has_mst = false; vector<E> mst; };
Snap snapshot(void* s);
string snap_text(const Snap& s);
string first_diff(const string& a, const string& b);
string oracle_dist(const Snap& s, const Data& d);
string oracle_mst(const Snap& s);
struct Model;
string oracle_hier(const Snap& s, Model& m);
string oracle_flat(const Snap& s, Model& m, bool strict);
string oracle_outlier(const Snap& s, Model& m);
struct MCluster { int parent = -1; double birth = NAN, death = 0; double stab = 0; vector<int> birth_members; vector<int> kids; long impl = 0; int birth_level = 0; };
struct Model { vector<MCluster> cl; struct L { double w; vector<int> lab; }; vector<L> levels; vector<double> noise; vector<int> last; };
Model build_model(const Snap& s);
