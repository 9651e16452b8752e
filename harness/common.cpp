#include "common.hpp"
#include <cstdarg>
using namespace sim;
string strf(const char* f, ...) { va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
string num(double v) { if (std::isnan(v)) return "nan"; if (std::isinf(v)) return v > 0 ? "inf" : "-inf"; char b[64]; snprintf(b, sizeof b, "%.17g", v); return b; }
bool near(double a, double b, double rel, double abs_) { if (std::isnan(a) && std::isnan(b)) return true; if (a == b) return true; if (std::isinf(a) || std::isinf(b)) return false; return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b)); }
void fail(const string& cls, const string& d) { violation(cls, d); }
bool multi_callers = false;
void checked() { shared->oracle_checks++; }
string cfg_text(const Config& c) {
  string s = strf("cfg policy=%s sseed=%lu period=%u depth=%d plen=%lu threads=%d short=%d tseed=%lu races=%d memcheck=%d fill=%lu fillmode=%d reuse=%d place=%lu clock0=%ld clockmode=%d cseed=%lu qsort=%d budget=%lu cap=%ld\n",
    policy_names[c.policy], (unsigned long)c.sched_seed, c.period, c.pct_depth, (unsigned long)c.pct_len, c.threads, c.short_pct, (unsigned long)c.team_seed, c.races, c.memcheck, (unsigned long)c.fill_seed, c.fill_mode, c.reuse, (unsigned long)c.place_seed, (long)c.clock0, c.clock_mode, (unsigned long)c.clock_seed, c.qsort_mode, (unsigned long)c.step_budget, (long)c.disk_capacity);
  for (auto& x : c.switches) s += strf("sw %lu %d\n", (unsigned long)x.step, x.fiber);
  for (auto& x : c.teams) s += strf("team %d %d\n", x.first, x.second);
  for (auto& x : c.io_faults) s += strf("iofault %d %d\n", x.first, x.second);
  return s;
}
static const char* type_names[] = {"int", "double", "float", "long", "short", "char"};
string data_text(int id, const Data& d) {
  string s = strf("data %d type=%s cols=%d rowwise=%d pow2=%d", id, type_names[d.type], d.cols, d.rowwise, d.pow2) + (d.base ? strf(" base=%ld\n", d.base) : string("\n"));
  for (auto& p : d.pts) { s += strf("pt %d", id); for (double v : p) s += " " + num(v); s += "\n"; }
  return s;
}
Case parse_case(const string& text) {
  Case c; std::istringstream in(text); string line;
  while (std::getline(in, line)) {
    std::istringstream l(line); string k; if (!(l >> k) || k[0] == '#') continue;
    if (k == "case") { string w; l >> c.family; while (l >> w) { size_t e = w.find('='); if (e != string::npos) c.opt[w.substr(0, e)] = w.substr(e + 1); } c.prop = c.o("prop"); }
    else if (k == "opt") { string w; while (l >> w) { size_t e = w.find('='); if (e != string::npos) c.opt[w.substr(0, e)] = w.substr(e + 1); } }
    else if (k == "cfg") { string w; while (l >> w) { size_t e = w.find('='); string n = w.substr(0, e), v = w.substr(e + 1); uint64_t u = strtoull(v.c_str(), nullptr, 10); long sl = atol(v.c_str());
        if (n == "policy") { for (int i = 0; i < P_COUNT; i++) if (v == policy_names[i]) c.cfg.policy = i; } else if (n == "sseed") c.cfg.sched_seed = u; else if (n == "period") c.cfg.period = (uint32_t)u; else if (n == "depth") c.cfg.pct_depth = (int)sl; else if (n == "plen") c.cfg.pct_len = u; else if (n == "threads") c.cfg.threads = (int)sl; else if (n == "short") c.cfg.short_pct = (int)sl; else if (n == "tseed") c.cfg.team_seed = u; else if (n == "races") c.cfg.races = sl; else if (n == "memcheck") c.cfg.memcheck = sl; else if (n == "fill") c.cfg.fill_seed = u; else if (n == "fillmode") c.cfg.fill_mode = (int)sl; else if (n == "reuse") c.cfg.reuse = (int)sl; else if (n == "place") c.cfg.place_seed = u; else if (n == "clock0") c.cfg.clock0 = sl; else if (n == "clockmode") c.cfg.clock_mode = (int)sl; else if (n == "cseed") c.cfg.clock_seed = u; else if (n == "qsort") c.cfg.qsort_mode = (int)sl; else if (n == "budget") c.cfg.step_budget = u; else if (n == "cap") c.cfg.disk_capacity = sl; } }
    else if (k == "sw") { unsigned long s; int f; l >> s >> f; c.cfg.switches.push_back({s, f}); }
    else if (k == "team") { int o, n; l >> o >> n; c.cfg.teams.push_back({o, n}); }
    else if (k == "iofault") { int o, n; l >> o >> n; c.cfg.io_faults.push_back({o, n}); }
    else if (k == "data") { size_t id; l >> id; if (c.data.size() <= id) c.data.resize(id + 1); Data& d = c.data[id]; string w; while (l >> w) { size_t e = w.find('='); string n = w.substr(0, e), v = w.substr(e + 1); if (n == "type") { for (int i = 0; i < 6; i++) if (v == type_names[i]) d.type = i; } else if (n == "cols") d.cols = atoi(v.c_str()); else if (n == "rowwise") d.rowwise = atoi(v.c_str()); else if (n == "pow2") d.pow2 = atoi(v.c_str()); else if (n == "base") d.base = atol(v.c_str()); } }
    else if (k == "pt") { size_t id; l >> id; if (c.data.size() <= id) c.data.resize(id + 1); vector<double> p; string w; while (l >> w) p.push_back(strtod(w.c_str(), nullptr)); p.resize((size_t)c.data[id].cols); c.data[id].pts.push_back(p); }
    else if (k == "op") { Op o; string w; l >> w; o.thread = w == "s" ? -1 : atoi(w.c_str()); while (l >> w) o.a.push_back(w); if (!o.a.empty()) c.ops.push_back(o); }
  }
  return c;
}
Config ref_config(const Config& c) { Config r; r.policy = P_SEQ; r.threads = 1; r.short_pct = 0; r.races = false; r.memcheck = false; r.fill_mode = 1; r.reuse = 0; r.place_seed = 1; r.clock_mode = 0; r.qsort_mode = 0; r.step_budget = c.step_budget; return r; }
Config random_config(Rng& r, bool threads, bool memory, bool clock) {
  Config c;
  if (threads) {
    static const int pol[] = {P_RANDOM, P_RANDOM, P_PCT, P_PCT, P_STARVE, P_RR, P_REVERSE, P_CONFLICT, P_CONFLICT, P_SEQ};
    c.policy = pol[r.below(10)]; c.sched_seed = r.next() >> 20; static const int per[] = {1, 2, 4, 9, 25, 80, 300, 2000}; c.period = (uint32_t)per[r.below(8)]; c.pct_depth = r.range(1, 6); static const int pl[] = {300, 2000, 12000, 60000, 250000}; c.pct_len = (uint64_t)pl[r.below(5)];
    static const int th[] = {1, 2, 2, 3, 3, 4, 4, 5, 8, 12}; c.threads = th[r.below(10)]; c.short_pct = r.chance(1, 3) ? r.range(10, 90) : 0; c.team_seed = r.next() >> 20;
  } else { c.policy = P_SEQ; c.threads = 1 + (int)r.below(2); }
  if (memory) { c.fill_seed = r.next() >> 20; c.fill_mode = (int)r.below(5); c.reuse = r.chance(1, 2) ? r.range(10, 100) : 0; c.place_seed = r.next() >> 20; c.qsort_mode = (int)r.below(3); } else c.fill_mode = 0;
  if (clock) { c.clock_mode = (int)r.below(4); c.clock_seed = r.next() >> 20; c.clock0 = (int64_t)r.below(4000000000ull); }
  return c;
}
Data gen_data(Rng& r, const DataProfile& p) {
  Data d; d.cols = r.range(1, p.maxcols); if (r.chance(1, 3)) d.cols = 1; if (r.chance(1, 25) && p.maxcols > 2) d.cols = r.range(4, 6);
  int n; switch (r.below(10)) { case 0: n = r.range(1, 6); break; case 1: case 2: n = r.range(5, 12); break; case 9: n = r.range(p.maxn / 2, p.maxn); break; default: n = r.range(6, std::max(8, p.maxn * 2 / 3)); }
  if (p.minn) n = r.range(p.minn, p.maxn);
  if (p.small) n = r.range(2, 12);
  if (p.exact_only) d.cols = 1;
  static const int types[] = {1, 1, 1, 2, 0, 3, 4, 5}; d.type = p.all_types ? types[r.below(8)] : 1; if (p.exact_only) { static const int t2[] = {1, 2, 0, 3, 4}; d.type = t2[r.below(5)]; }
  int shape = (int)r.below(12); double lim = d.type == 5 ? 60 : d.type == 4 ? 2000 : 1e4; bool ints = d.type == 0 || d.type >= 3 || p.exact_only;
  int k = p.minn && r.chance(1, 2) ? r.range(6, std::max(6, n / 5)) : r.range(1, 5); vector<vector<double>> cen; vector<double> sd; for (int i = 0; i < k; i++) { vector<double> c; for (int j = 0; j < d.cols; j++) c.push_back((r.unit() * 2 - 1) * std::min(lim * 0.7, k > 5 ? 600.0 : 50.0)); cen.push_back(c); sd.push_back(0.2 + r.unit() * 6); }
  auto gauss = [&]() { double s = 0; for (int i = 0; i < 6; i++) s += r.unit(); return (s - 3) * 1.4; };
  double step = 1 + (double)r.below(4);
  for (int i = 0; i < n; i++) {
    vector<double> q((size_t)d.cols);
    switch (shape) {
      case 0: case 1: case 2: case 3: { int c = (int)r.below((uint64_t)k); for (int j = 0; j < d.cols; j++) q[j] = cen[c][j] + gauss() * sd[c]; break; }
      case 4: for (auto& v : q) v = (r.unit() * 2 - 1) * std::min(lim, 30.0); break;
      case 5: for (auto& v : q) v = (double)r.range(-3, 3); break;                    // many ties and duplicates
      case 6: for (auto& v : q) v = (double)r.range(0, 1 + (int)n / 3) * step; break;
      case 7: q[0] = i * step; break;                                                // equal spacing
      case 8: { double x = 0; for (int e = 0; e < i % 11; e++) x += (double)(1 << (e % 7)); q[0] = x + (i / 11) * 2; break; } // powers of two
      case 9: if (i && r.chance(1, 2)) q = d.pts[r.below((uint64_t)i)]; else { int c = (int)r.below((uint64_t)k); for (int j = 0; j < d.cols; j++) q[j] = cen[c][j] + gauss() * sd[c]; } break; // duplicates
      case 10: for (auto& v : q) v = (double)(3 * k); if (r.chance(1, 4)) q[0] += (double)r.range(-5, 5); break;             // nearly all the same
      default: { int c = (int)r.below((uint64_t)k); q[0] = c * 40 + (double)(1 << r.below(4)) * (double)r.below(3); break; } // power-of-two gaps in groups
    }
    for (auto& v : q) { if (v > lim) v = lim; if (v < -lim) v = -lim; if (d.type == 5) v = std::floor(v + 0.5); else if (ints) v = std::floor(v + 0.5); else if (d.type == 2) v = (double)(float)v; if (p.exact_only) v = std::max(-1000.0, std::min(1000.0, v)); }
    d.pts.push_back(q);
  }
  if (p.minn >= 100 && !p.exact_only && r.chance(1, 2)) { // a hierarchy of hundreds of clusters: little groups scattered at random
    d.many = true; d.type = r.chance(1, 3) ? 2 : 1; d.pts.clear(); n = r.range(p.maxn - p.maxn / 6, p.maxn); d.cols = r.range(1, 2); int g = r.chance(1, 2) ? 2 : r.range(2, 4);
    while ((int)d.pts.size() < n) { vector<double> c; for (int j = 0; j < d.cols; j++) c.push_back((double)r.range(-4000, 4000)); for (int i = g > 2 ? r.range(2, g) : g; i; i--) { vector<double> q = c; q[0] += i * 0.25; d.pts.push_back(q); } }
    d.pts.resize((size_t)n); if (r.chance(1, 2)) for (size_t i = d.pts.size(); i > 1; i--) std::swap(d.pts[i - 1], d.pts[r.below(i)]); return d; }
  if (shape == 8 || shape == 11 || shape == 7) d.pow2 = false;
  if (!p.exact_only && !p.small && r.chance(1, 30)) { // big magnitudes
    double big = d.type == 0 ? 2.0e9 : d.type == 3 ? 4.0e15 : d.type == 4 ? 32000 : d.type == 5 ? 127 : 1e6; for (auto& q : d.pts) for (auto& v : q) { v = (r.unit() * 2 - 1) * big; if (d.type == 2) v = (double)(float)v; else if (d.type != 1) v = std::trunc(v); } }
  if (p.wide && !p.small && r.chance(1, 14)) { // many columns
    int cols = drv_distance_size() == 4 ? r.range(8, 24) : r.chance(1, 5) ? r.range(41, 140) : r.range(8, 40); size_t cap = p.minn ? 70 : 14; if (d.pts.size() > cap) d.pts.resize(cap); for (auto& q : d.pts) { double b = q[0]; q.resize((size_t)cols); for (int j = d.cols; j < cols; j++) { double v = b / (1 + j % 7) + (r.unit() * 2 - 1) * 3; if (v > lim) v = lim; if (v < -lim) v = -lim; q[j] = ints ? std::floor(v + 0.5) : d.type == 2 ? (double)(float)v : v; } } d.cols = cols; }
  if ((d.type == 1 || d.type == 2) && !p.exact_only && r.chance(1, 4)) {
    bool flt = d.type == 2 || drv_distance_size() == 4;
    switch (r.below(4)) {
      case 0: { for (auto& q : d.pts) for (auto& v : q) v = std::floor(v * 2 + 0.5) / 2; double u = std::ldexp(1.0, -(d.type == 2 ? r.range(8, 13) : r.range(20, flt ? 22 : 42))); for (auto& q : d.pts) for (auto& v : q) { v = std::max(-60.0, std::min(60.0, v)); v += (double)r.range(0, 3) * u; } break; } // near ties
      case 1: { int e = !flt && r.chance(1, 4) ? r.range(-440, 440) : r.range(flt ? -18 : -60, flt ? 18 : 40); for (auto& q : d.pts) for (auto& v : q) v = std::ldexp(v, e); break; } // another scale
      case 2: { double big = std::ldexp(1.0, d.type == 2 ? r.range(8, 14) : r.range(24, 34)), g = d.type == 2 ? 256 : 1024; for (auto& q : d.pts) for (auto& v : q) v = big + std::floor(std::max(-500.0, std::min(500.0, v)) * g + 0.5) / g; if (d.type == 2) for (auto& q : d.pts) for (auto& v : q) v = (double)(float)v; break; } // small differences far from the origin
      default: { // a cluster whose stability is exactly that of its two children (or misses it by one point)
        int k = r.range(4, 7), m = k * 2 + (r.chance(1, 3) ? r.range(-1, 1) : 0), ka = r.range(2, k - 2), kb = k - ka, singles = m - k; vector<double> x; double at = 0; for (int i = 0; i < ka; i++) { x.push_back(at); at += 0.25; } at += 0.25; int left = singles; for (int i = 0; i < left; i++) { x.push_back(at); at += 0.5; } for (int i = 0; i < kb; i++) { x.push_back(at); at += 0.25; }
        double gap = x.back() + 1; int other = r.range(2, 6); double sp = r.chance(1, 2) ? 0.5 : 0.25; for (int i = 0; i < other; i++) x.push_back(gap + i * sp); if (r.chance(1, 3)) { double g2 = x.back() + 2; for (int i = 0; i < r.range(2, 4); i++) x.push_back(g2 + i * 0.5); }
        double sc = std::ldexp(1.0, r.range(-6, 8)); bool sh = r.chance(1, 2); if (sh) for (size_t i = x.size(); i > 1; i--) std::swap(x[i - 1], x[r.below(i)]); d.cols = r.chance(1, 4) ? 2 : 1; d.pts.clear(); for (double v : x) { vector<double> q((size_t)d.cols, 3.0); q[0] = v * sc; d.pts.push_back(q); } d.pow2 = true; } } }
  if (!d.pow2 && p.rowwise_false && r.chance(1, 6) && d.cols >= 1) { d.rowwise = false; if ((int)d.pts.size() * d.cols > p.maxn) d.pts.resize((size_t)std::max(1, p.maxn / d.cols)); }
  return d;
}
void* data_buffer(const Data& d) {
  static const size_t sz[] = {4, 8, 4, 8, 2, 1}; size_t n = d.pts.size() * (size_t)d.cols; char* b = (char*)user_alloc(n * sz[d.type] ? n * sz[d.type] : 1); size_t i = 0;
  for (auto& q : d.pts) for (double v : q) { switch (d.type) { case 0: ((int*)b)[i] = (int)((long)v + d.base); break; case 1: ((double*)b)[i] = v; break; case 2: ((float*)b)[i] = (float)v; break; case 3: ((long*)b)[i] = (long)v + d.base; break; case 4: ((short*)b)[i] = (short)v; break; case 5: ((signed char*)b)[i] = (signed char)v; break; } i++; }
  return b;
}
string first_diff(const string& a, const string& b) {
  std::istringstream x(a), y(b); string p, q; int ln = 0;
  for (;;) { bool u = (bool)std::getline(x, p), v = (bool)std::getline(y, q); ln++; if (!u && !v) return ""; if (!u) p = "<end>"; if (!v) q = "<end>"; if (p != q) { size_t k = 0; while (k < p.size() && k < q.size() && p[k] == q[k]) k++; size_t s = k > 40 ? k - 40 : 0; return strf("line %d: expected '...%.120s' got '...%.120s' (%.60s)", ln, p.substr(s).c_str(), q.substr(s).c_str(), p.c_str()); } }
}
