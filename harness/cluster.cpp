// Clustering objects: histories of runs, re-runs, cleaning and post-processing, judged per property.
#include "common.hpp"
#include <array>
using namespace sim;
string container_ops(Rng& r, int thread, const string& pre, int kind, int nops, bool oom, bool may_bulk = false);
namespace {
enum Probe { PB_SPLIT, PB_PARENT, PB_DUP, PB_INF, PB_FEW, PB_OOM, PB_RECOVER, PB_NAN, PB_ELEM, PB_TIE, PB_OOM_OK, PB_FRESH, PB_RELABEL, PB_BIGSTATS, PB_BASE, PB_COMPACT, PB_NOSELF };
struct Obj { void* c = nullptr; void* cpp = nullptr; void* mem = nullptr; int data = -1; int flags = 0; long minpts = 0; bool good = false, failed_before = false; void* any() const { return c ? c : cpp; } };
struct World {
  const Case* c; string prop; bool logging = false, adv = false, multi = false; std::map<string, Obj> slots; vector<uint64_t> counts; std::map<int, vector<uint64_t>> sites; std::map<std::pair<int, long>, string> fresh; std::map<std::pair<int, long>, Snap> fsnap; uint64_t budget = 0;
};
struct Th { World* w; int thread; string log; double arm = -1; bool persist = false, site = false; double nth = 0; const vector<std::pair<Op, int>>* ops = nullptr; };
bool is(const World& w, const char* p) { return w.prop == p; }
string where(const Th& t, const Op& o) { string s = strf("thread %d:", t.thread); for (auto& x : o.a) s += " " + x; return s; }
// Step bounds: fixed polynomials, calibrated with a wide margin against the unchanged code (DESIGN.md).
uint64_t lim_run(const World& w, double n, double d, double k) { if (w.multi) return 0; return (uint64_t)(400000 + 12000 * n + n * n * (3000 + 300 * d + 60 * k) + 30 * n * n * n + n * k * 400); }
uint64_t lim_post(const World& w, double n, double cl) { if (w.multi) return 0; return (uint64_t)(400000 + 3000 * n * n + 6000 * cl * cl + 20000 * cl); }
uint64_t lim_small(const World& w, double n) { return w.multi ? 0 : (uint64_t)(200000 + 20000 * n + 400 * n * n); }

struct Post { vector<std::pair<long, vector<long>>> map; struct MM { long key; std::array<double, 6> a, b; }; vector<MM> mm; long count = -1; std::array<double, 12> st{}; int validity = -9; vector<std::pair<string, vector<long>>> orders; bool ordered = true;
  string text() const { string s; for (auto& m : map) { s += strf("map %ld:", m.first); for (long x : m.second) s += " " + std::to_string(x); s += "\n"; } for (auto& m : mm) { s += strf("mm %ld", m.key); for (double x : m.a) s += " " + num(x); s += " |"; for (double x : m.b) s += " " + num(x); s += "\n"; } s += strf("stats %ld", count); for (double x : st) s += " " + num(x); s += strf(" validity %d\n", validity); for (auto& o : orders) { s += o.first + ":"; for (long x : o.second) s += " " + std::to_string(x); s += "\n"; } return s; } };
vector<long> pick_list(const vector<long>& keys, int mode, uint64_t seed) { vector<long> v; if (mode < 2) return v; v = keys; Rng r(seed); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]); if (mode == 3 && v.size() > 1) v.resize(v.size() / 2 + 1); return v; }
// one post-processing pass through the C or the C++ interface
Post run_post(const World& w, void* s, bool cpp, long b, long e, int what, uint64_t seed, const vector<i64>* own = nullptr) {
  Post p; long n = (long)drv_n(s); uint64_t L = lim_post(w, (double)n, (double)(e - b)); void* labels = drv_labels_ptr(s); void* mine = nullptr; if (own) { size_t z = (size_t)drv_label_size(); mine = user_alloc(z * own->size()); for (size_t i = 0; i < own->size(); i++) memcpy((char*)mine + i * z, &(*own)[i], z); labels = mine; } void *m = nullptr, *d = nullptr; vector<i64> buf((size_t)n + 4);
  if (cpp) SUT("createClusterMap", L, m = cpp_map(labels, b, e)); else SUT("hdbscan_create_cluster_map", L, m = drv_map(labels, b, e));
  if (!m) fail("post:map", "no cluster map was created");
  i64 k = cpp ? cpp_map_size(m) : drv_map_size(m); vector<long> keys; for (i64 i = 0; i < k; i++) { i64 key = cpp ? cpp_map_key(m, i) : drv_map_key(m, i); keys.push_back((long)key); i64 z = cpp ? cpp_map_list(m, key, buf.data(), (i64)buf.size()) : drv_map_list(m, key, buf.data(), (i64)buf.size()); vector<long> l; for (i64 j = 0; j < z && j < (i64)buf.size(); j++) l.push_back((long)buf[j]); if (z < 0) fail("post:map", strf("key %ld of the cluster map has no list", (long)key)); p.map.push_back({(long)key, l}); }
  if (!cpp && drv_map_ordered(m) == 0) p.ordered = false;
  if (!cpp && !drv_map_usable(m)) fail("post:unusable", "searching a member list of the cluster map does not find its members");
  if (what & 1) {
    if (cpp) SUT("getMinMaxDistances", L, d = cpp_minmax(s, m)); else SUT("hdbscan_get_min_max_distances", L, d = drv_minmax(s, m));
    if (!d) fail("post:minmax", "no distance map was created");
    i64 q = cpp ? cpp_mm_size(d) : drv_mm_size(d); for (i64 i = 0; i < q; i++) { Post::MM x; x.key = (long)(cpp ? cpp_mm_key(d, i) : drv_mm_key(d, i)); x.b.fill(0); if (!(cpp ? cpp_mm_get(d, x.key, x.a.data()) : drv_mm_get(d, x.key, x.a.data()))) fail("post:minmax", "distance map key without a value"); p.mm.push_back(x); }
    {
      void* st = drv_stats_new(); if (cpp) SUT("calculateStats", L, cpp_stats(d, st)); else SUT("hdbscan_calculate_stats", L, drv_stats(d, st));
      i64 c; drv_stats_get(st, &c, p.st.data()); p.count = (long)c; if (cpp) SUT("analyseStats", L, p.validity = cpp_analyse(st)); else SUT("hdbscan_analyse_stats", L, p.validity = drv_analyse(st));
      for (auto& x : p.mm) { if (cpp) cpp_mm_get(d, x.key, x.b.data()); else drv_mm_get(d, x.key, x.b.data()); }
      drv_stats_free(st);
      if (what & 2) for (int type = 0; type < 2; type++) { int mode = (int)((seed >> (2 * type)) & 3); vector<long> g = pick_list(keys, mode, seed + (uint64_t)type); vector<i64> gi(g.begin(), g.end()); vector<long> out;
        if (cpp) { void* l = cpp_list_new((i64)gi.size(), gi.data()); SUT("sortBySimilarity", L, cpp_sort_sim(d, l, type)); for (i64 i = 0; i < cpp_list_size(l); i++) out.push_back((long)cpp_list_at(l, i)); cpp_list_free(l); }
        else { void* l = mode == 0 ? nullptr : drv_list_new((i64)gi.size(), gi.data()); void* o = nullptr; SUT("hdbscan_sort_by_similarity", L, o = drv_sort_sim(d, l, type)); for (i64 i = 0; i < drv_list_size(o); i++) out.push_back((long)drv_list_at(o, i)); if (!drv_list_usable(o, 0)) fail("order:unusable", "searching the ordered list does not find its clusters"); drv_list_free(o); }
        p.orders.push_back({strf("sim%d", type), out}); }
    }
  }
  if (what & 2) { int mode = (int)((seed >> 4) & 3); vector<long> g = pick_list(keys, mode, seed + 5); vector<i64> gi(g.begin(), g.end()); vector<long> out;
    if (cpp) { void* l = cpp_list_new((i64)gi.size(), gi.data()); SUT("sortByLength", L, cpp_sort_len(m, l)); for (i64 i = 0; i < cpp_list_size(l); i++) out.push_back((long)cpp_list_at(l, i)); cpp_list_free(l); }
    else { void* l = mode == 0 ? nullptr : drv_list_new((i64)gi.size(), gi.data()); void* o = nullptr; SUT("hdbscan_sort_by_length", L, o = drv_sort_len(m, l)); for (i64 i = 0; i < drv_list_size(o); i++) out.push_back((long)drv_list_at(o, i)); if (!drv_list_usable(o, 0)) fail("order:unusable", "searching the ordered list does not find its clusters"); drv_list_free(o); }
    p.orders.push_back({"len", out}); }
  if (d) { if (cpp) SUT("release", L, cpp_minmax_free(d)); else SUT("hdbscan_destroy_distance_map", L, drv_minmax_free(d)); }
  if (cpp) SUT("release", L, cpp_map_free(m)); else SUT("hdbscan_destroy_cluster_map", L, drv_map_free(m));
  if (mine) user_free(mine);
  return p;
}
string oracle_stats(const Post& p, const vector<double>& rc, const vector<double>& rd) {
  double eps = drv_distance_size() == 4 ? 2e-4 : 1e-9;
  if (p.count != (long)rc.size()) return strf("statistics count %ld clusters, expected %zu", p.count, rc.size());
  if (rc.empty()) { for (int q : {0, 2, 3, 6, 8, 9}) if (p.st[(size_t)q] != 0) return strf("statistic %d of no clusters is %.17g", q, p.st[(size_t)q]); if (p.validity != -2) return strf("validity of no clusters is %d", p.validity); return ""; }
  for (int h = 0; h < 2; h++) { const vector<double>& r = h ? rd : rc; const double* st = p.st.data() + 6 * h; const char* nm = h ? "intra" : "core"; bool fin = true; for (double x : r) if (!std::isfinite(x)) fin = false; if (!fin) continue;
    double mx = *std::max_element(r.begin(), r.end()); if (st[0] != mx) return strf("maximum %s ratio is %.17g, expected %.17g", nm, st[0], mx); long double mean = 0; for (double x : r) mean += x; mean /= r.size(); if (!near(st[1], (double)mean, eps)) return strf("mean %s ratio is %.17g, expected %.17g", nm, st[1], (double)mean);
    for (size_t i = 0; i < r.size(); i++) { double cf = (mx - r[i]) / mx * 100, got = p.mm[i].b[h ? 5 : 2]; if (!near(got, cf, eps * 100, eps * 100)) return strf("%s confidence of cluster %ld is %.17g, expected %.17g", nm, p.mm[i].key, got, cf); }
    if (r.size() < 2) { if (!std::isnan(st[2]) || !std::isnan(st[3])) return strf("variance of a single %s ratio is %.17g", nm, st[2]); continue; }
    long double v = 0, s3 = 0, s4 = 0; for (double x : r) { long double t = x - mean; v += t * t; s3 += t * t * t; s4 += t * t * t * t; } v /= (r.size() - 1); long double sd = sqrtl(v); double scale = std::max(1.0, std::fabs((double)mean));
    if (!std::isfinite((double)(scale * scale))) continue; if (drv_distance_size() == 4 && (scale > 1e15)) continue;
    if (!near(st[2], (double)v, eps * 100, eps * eps * scale * scale * 10 + (drv_distance_size() == 4 ? 1e-6 * scale * scale : 0))) return strf("variance of the %s ratios is %.17g, expected %.17g", nm, st[2], (double)v); if (!near(st[3], std::sqrt(std::fabs(st[2])), eps)) return strf("standard deviation of the %s ratios is %.17g for a variance of %.17g", nm, st[3], st[2]);
    if ((double)sd > 1e-3 * scale && scale < 1e30 && drv_distance_size() == 8) { long double n = r.size(); double sk = (double)(s3 / (n * sd * sd * sd)), ku = (double)(s4 / (n * sd * sd * sd * sd) - 3); if (!near(st[4], sk, 1e-6, 1e-6)) return strf("skewness of the %s ratios is %.17g, expected %.17g", nm, st[4], sk); if (!near(st[5], ku, 1e-6, 1e-6)) return strf("kurtosis of the %s ratios is %.17g, expected %.17g", nm, st[5], ku); } }
  auto part = [](double sk, double ku) { if (sk > 0 && ku > 0) return 2; if (sk < 0 && ku > 0) return 1; if (sk > 0 && ku < 0) return 0; return -1; };
  int v = part(p.st[10], p.st[11]) + part(p.st[4], p.st[5]); if (v != p.validity) return strf("validity is %d, expected %d from skewness and kurtosis", p.validity, v);
  return "";
}
// C14: everything recomputed from the object's own labels, distances and core distances
string oracle_post(const Post& p, const Snap& s, long b, long e) {
  checked(); double eps = drv_distance_size() == 4 ? 2e-4 : 1e-9; std::map<long, vector<long>> m; for (long i = b; i < e; i++) m[s.lab[(size_t)i]].push_back(i);
  if (p.map.size() != m.size()) return strf("cluster map holds %zu clusters, expected %zu", p.map.size(), m.size()); for (auto& x : p.map) { auto it = m.find(x.first); if (it == m.end()) return strf("cluster map holds label %ld which is not in the range", x.first); if (it->second != x.second) return strf("cluster map lists %zu points for label %ld, expected %zu in increasing order", x.second.size(), x.first, it->second.size()); }
  if (p.count < 0) return ""; if (p.mm.size() != m.size()) return strf("distance map holds %zu clusters, expected %zu", p.mm.size(), m.size());
  vector<double> rc, rd;
  for (auto& x : p.mm) { auto it = m.find(x.key); if (it == m.end()) return strf("distance map holds label %ld", x.key); const vector<long>& v = it->second; double mnc = INFINITY, mxc = -INFINITY, mnd = drv_dmax(), mxd = drv_dmin(); for (long i : v) { double c = s.core[(size_t)i]; mxc = std::max(mxc, c); if (c != 0) mnc = std::min(mnc, c); } bool zc = s.core[(size_t)v[0]] == 0; // the range starts at the first point's own core distance, zeros are ignored from there on
    for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) { double d = s.dist[(size_t)v[i] * s.n + v[j]]; mxd = std::max(mxd, d); if (d != 0) mnd = std::min(mnd, d); }
    if (x.a[1] != mxc) return strf("largest core distance of cluster %ld is %.17g, expected %.17g", x.key, x.a[1], mxc); if (!zc && x.a[0] != mnc) return strf("smallest core distance of cluster %ld is %.17g, expected %.17g", x.key, x.a[0], mnc); if (zc && !(x.a[0] == 0 || x.a[0] == mnc)) return strf("smallest core distance of cluster %ld is %.17g, expected %.17g", x.key, x.a[0], mnc);
    if (v.size() > 1) { if (x.a[4] != mxd) return strf("largest distance inside cluster %ld is %.17g, expected %.17g", x.key, x.a[4], mxd); if (x.a[3] != mnd) return strf("smallest distance inside cluster %ld is %.17g, expected %.17g", x.key, x.a[3], mnd); }
    if (x.a[2] != 0 || x.a[5] != 0) return strf("confidences of cluster %ld are set before the statistics", x.key);
    for (int q : {0, 1, 3, 4}) if (x.a[q] != x.b[q]) return "computing the statistics changed the distance map";
    if (drv_distance_size() == 4) { rc.push_back((float)x.a[1] / (float)x.a[0]); rd.push_back((float)x.a[4] / (float)x.a[3]); } else { rc.push_back(x.a[1] / x.a[0]); rd.push_back(x.a[4] / x.a[3]); } }
  return oracle_stats(p, rc, rd);
}
string check_order(const vector<long>& out, vector<long> want, const std::map<long, double>& key) {
  checked(); vector<long> o = out; std::sort(o.begin(), o.end()); std::sort(want.begin(), want.end()); if (o != want) { string s; for (long x : out) s += " " + std::to_string(x); return strf("the result (%zu entries:%.200s) is not a permutation of the %zu clusters asked for", out.size(), s.c_str(), want.size()); }
  for (long x : out) if (std::isnan(key.at(x))) return ""; for (size_t i = 1; i < out.size(); i++) if (key.at(out[i - 1]) > key.at(out[i])) return strf("cluster %ld (key %.17g) comes before cluster %ld (key %.17g)", out[i - 1], key.at(out[i - 1]), out[i], key.at(out[i])); return "";
}
string oracle_orders(const Post& p, uint64_t seed) {
  vector<long> keys; for (auto& x : p.map) keys.push_back(x.first);
  for (auto& o : p.orders) { int type = o.first == "sim0" ? 0 : o.first == "sim1" ? 1 : 2; int mode = (int)((seed >> (2 * type)) & 3); vector<long> want = mode < 2 ? keys : pick_list(keys, mode, seed + (uint64_t)(type == 2 ? 5 : type)); std::map<long, double> k; if (type == 2) for (auto& x : p.map) k[x.first] = (double)x.second.size(); else for (auto& x : p.mm) k[x.key] = x.b[type ? 5 : 2]; string e = check_order(o.second, want, k); if (!e.empty()) return o.first + ": " + e; }
  return "";
}
bool all_pow2(const Snap& s, const Model& m) { int e; for (auto& l : m.levels) if (l.w != 0 && (l.w >= drv_dmax() || frexp(l.w, &e) != 0.5)) return false; (void)s; return true; }
// gives model clusters the labels used by the flat labelling, without looking at the hierarchy
string map_flat(const Snap& s, Model& m) {
  std::map<long, vector<int>> g; for (int i = 0; i < s.n; i++) if (s.lab[i] != 0) g[s.lab[i]].push_back(i); for (auto& c : m.cl) c.impl = -1;
  long next = -2; for (size_t c = 1; c < m.cl.size(); c++) m.cl[c].impl = next--;
  for (auto& x : g) { bool ok = false; for (size_t c = 1; c < m.cl.size(); c++) if (m.cl[c].birth_members == x.second) { m.cl[c].impl = x.first; ok = true; } if (!ok) return strf("the %zu points labelled %ld are not the members of any cluster at its birth", x.second.size(), x.first); }
  return "";
}
// C30: what the steps taken one at a time have to leave behind, from what one run leaves behind
void steps_judge(Th& t, const Obj& o, const Op& op, Snap want, Snap got) {
  checked(); string how = strf(" (%s hierarchy, %s self edges)", o.flags & 1 ? "compact" : "full", o.flags & 2 ? "no" : "with");
  if (o.flags & 1) { // a level stays when it is the first, splits a cluster or follows one that does; the entry at 0 stays
    std::set<long> splits; for (auto& c : want.cl) if (!c.null && c.label > 1) splits.insert((long)c.offset); std::map<long, long> to; vector<long> keys; for (auto& l : want.hier) if (l.key > 0) keys.push_back(l.key); std::sort(keys.begin(), keys.end()); long next = 1; for (long k : keys) if (k == 1 || splits.count(k) || splits.count(k - 1)) to[k] = next++; if (to.size() < keys.size()) probe(PB_COMPACT); to[0] = 0;
    vector<Level> h; for (auto& l : want.hier) if (to.count(l.key)) { Level q = l; q.key = to[l.key]; h.push_back(q); } want.hier = h; for (auto& c : want.cl) if (!c.null && c.label > 1) c.offset = to.count((long)c.offset) ? to[(long)c.offset] : -1; }
  if ((o.flags & 2) && want.n > 1) { probe(PB_NOSELF); vector<Snap::E> e; for (auto& q : want.mst) if (q.a != q.b) e.push_back(q); want.mst = e; }
  auto canon = [](Snap& s) { std::sort(s.hier.begin(), s.hier.end(), [](const Level& a, const Level& b) { return a.key < b.key; }); for (auto& e : s.mst) if (e.a > e.b) std::swap(e.a, e.b); std::sort(s.mst.begin(), s.mst.end(), [](const Snap::E& a, const Snap::E& b) { return std::tie(a.w, a.a, a.b) < std::tie(b.w, b.a, b.b); }); }; canon(want); canon(got);
  string df = first_diff(snap_text(want), snap_text(got)); if (!df.empty()) fail("steps:differ", where(t, op) + how + " differs from one run: " + df);
}
void judge(Th& t, Obj& o, const Op& op) { // after a successful run or re-run
  World& w = *t.w; const Data& d = w.c->data[(size_t)o.data]; void* s = o.any(); if (!drv_has_result(s)) fail("result:missing", where(t, op) + ": success was reported but results are missing");
  Snap sn = snapshot(s); string e; const string& p = w.prop; bool C24 = p == "C24";
  auto bad = [&](const char* cls) { if (!e.empty()) fail(string("wrong:") + cls, where(t, op) + strf(" (%d points, minPts %ld): ", sn.n, o.minpts) + e); };
  if (sn.n != d.n() || sn.minpts != o.minpts) { e = strf("the object reports %d points and minPts %ld, expected %d and %ld", sn.n, sn.minpts, d.n(), o.minpts); bad("shape"); }
  if (sn.n >= 4 && sn.hier.size() > 1) shared->nontrivial = 1; if (sn.cl.size() > 2) probe(PB_SPLIT); for (double c : sn.core) if (c == 0) probe(PB_DUP); if (o.minpts > sn.n) probe(PB_FEW); if (d.base) probe(PB_BASE); if (!d.rowwise && d.cols > 1) probe(PB_ELEM); for (auto& c : sn.cl) if (!c.null && std::isinf(c.stability)) probe(PB_INF);
  if (p == "C03" || C24) { e = oracle_dist(sn, d); bad("distances"); }
  if (p == "C13" || C24) { e = oracle_mst(sn); bad("tree"); }
  if (p == "C04" || p == "C05" || p == "C06" || C24) {
    Model m = build_model(sn);
    if (p == "C04" || C24) { e = oracle_hier(sn, m); bad("hierarchy"); }
    if (p == "C05" || C24) { Model m2 = m; bool strict = all_pow2(sn, m); if (strict) probe(PB_TIE); e = oracle_hier(sn, m2); if (e.empty()) { e = oracle_flat(sn, m2, strict); } else { m2 = m; e = map_flat(sn, m2); if (e.empty()) e = oracle_flat(sn, m2, strict); } bad("labels"); std::set<long> ls(sn.lab.begin(), sn.lab.end()); for (auto& c : m2.cl) if (c.parent > 0 && !c.kids.empty() && ls.count(c.impl)) probe(PB_PARENT); }
    if (p == "C06" || C24) { e = oracle_outlier(sn, m); bad("outliers"); }
  }
  string txt = snap_text(sn); note_bytes(txt.data(), txt.size()); if (w.logging) t.log += txt;
  if (p == "C07" || p == "C11" || p == "C30") {
    string& f = w.fresh[{o.data, o.minpts}]; if (f.empty()) { uint64_t L = lim_run(w, d.n(), d.dim(), (double)o.minpts); void* x = nullptr; SUT("hdbscan_init", L, x = drv_init(o.minpts)); void* b = data_buffer(d); int r = 0; SUT("hdbscan_run", L, r = drv_run(x, b, (i64)d.pts.size(), d.cols, d.rowwise, d.type)); user_free(b); if (r != 0) fail("error:run", "a fresh object reports an error for the same data"); { Snap q = snapshot(x); f = snap_text(q); if (p == "C30") w.fsnap[{o.data, o.minpts}] = q; } SUT("hdbscan_destroy", L, drv_destroy(x)); }
    if (p == "C30") { steps_judge(t, o, op, w.fsnap[{o.data, o.minpts}], sn); } else { checked(); string df = first_diff(f, txt); if (!df.empty()) fail("history:differs", where(t, op) + " differs from a fresh object: " + df); } if (o.failed_before) probe(PB_RECOVER); probe(PB_FRESH);
  }
  if (o.c && o.cpp) { checked(); if (!drv_has_result(o.cpp)) fail("result:missing", where(t, op) + ": the C++ object has no results"); Snap s2 = snapshot(o.cpp); string df = first_diff(txt, snap_text(s2)); if (!df.empty()) fail("c++:differs", where(t, op) + ": C++ object differs from the C object: " + df); }
  if (o.cpp && (p == "C15" || p == "C08")) { // the members as the C++ declarations describe them
    checked(); Snap v = sn; v.out.clear(); v.mst.clear(); v.cl.clear(); SUTQ("reading through the C++ declarations", 0, i64 ne = v.has_mst ? cpp_edges(o.cpp) : 0; if (ne != (i64)sn.mst.size()) fail("c++:view", where(t, op) + strf(": C++ sees %lld edges, C %zu", ne, sn.mst.size())); for (i64 i = 0; i < ne; i++) { i64 a, b; Snap::E x; cpp_edge(o.cpp, i, &a, &b, &x.w); x.a = (long)a; x.b = (long)b; v.mst.push_back(x); } for (int i = 0; i < sn.n; i++) { i64 id; Snap::O x; cpp_outlier(o.cpp, i, &id, &x.score, &x.core); x.id = (long)id; v.out.push_back(x); } for (i64 i = 0; i < cpp_clusters(o.cpp); i++) { drv_cl c; cpp_cluster(o.cpp, i, &c); v.cl.push_back(c); });
    string df = first_diff(txt, snap_text(v)); if (!df.empty()) fail("c++:view", where(t, op) + ": seen through the C++ declarations the object differs: " + df); }
}
string norm_log(const string& s) { // removes "[YYYY-MM-DD HH:MM:SS]" and the like
  string o; for (size_t i = 0; i < s.size();) { if (s[i] == '[') { size_t e = s.find(']', i); if (e != string::npos && e - i < 40) { string q = s.substr(i + 1, e - i - 1); if (std::count(q.begin(), q.end(), ':') == 2 && std::count(q.begin(), q.end(), '-') >= 2 && q.find_first_not_of("0123456789:- ") == string::npos) { o += "[time]"; i = e + 1; continue; } } } o += s[i++]; } return o;
}
void read_all(Th& t, void* s) { // a reader of a finished object
  int n = (int)drv_n(s); double sum = 0; SUTQ("reading", 0, for (int i = 0; i < n; i++) for (int j = 0; j < n; j += 1 + n / 8) sum += drv_dist(s, i, j));
  t.log += "read " + num(sum); i64 L = 0; SUTQ("reading", 0, L = drv_levels(s); for (i64 i = 0; i < L && i < 12; i++) { i64 k; double w; if (drv_level(s, i, &k, &w)) t.log += strf(" %lld:%a", k, w); }); t.log += "\n";
}
// the numbers in a printed text, in order
vector<double> numbers(const string& s, size_t b = 0, size_t e = string::npos) {
  vector<double> v; e = std::min(e, s.size()); for (size_t i = b; i < e;) { bool word = i > b && (isalnum((unsigned char)s[i - 1]) || s[i - 1] == '_' || s[i - 1] == '.'); size_t j = i; if (j < e && (s[j] == '-' || s[j] == '+')) j++; bool num_ = j < e && isdigit((unsigned char)s[j]), nan_ = j + 3 <= e && (!strncmp(s.c_str() + j, "nan", 3) || !strncmp(s.c_str() + j, "inf", 3)) && !(j + 3 < e && isalpha((unsigned char)s[j + 3])); if (!word && (num_ || nan_)) { char* q; v.push_back(strtod(s.c_str() + i, &q)); i = (size_t)(q - s.c_str()); } else i++; }
  return v; }
string check_numbers(const string& text, const vector<double>& want, double tol, const char* what) {
  checked(); vector<double> got = numbers(text); if (got.size() != want.size()) return strf("%s: %zu numbers were printed, expected %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) { double g = got[i], x = want[i]; if (std::isnan(x) ? std::isnan(g) : std::isinf(x) ? g == x : std::fabs(g - x) <= tol + 1e-9 * std::fabs(x)) continue; return strf("%s: number %zu printed is %.17g, expected %.17g", what, i, g, x); }
  return ""; }
// groups of the form "head [ list ]": one line per group, numbers only
string check_lines(const string& text, const vector<vector<double>>& want, double tol, const char* what) {
  checked(); vector<vector<double>> got; size_t p = 0; while (p < text.size()) { size_t e = text.find('\n', p); if (e == string::npos) e = text.size(); bool has = text.find_first_of("[]:", p) < e; if (has && text.compare(p, 2, "//") != 0) got.push_back(numbers(text, p, e)); p = e + 1; }
  if (got.size() != want.size()) return strf("%s: %zu lines were printed, expected %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); i++) { if (got[i].size() != want[i].size()) return strf("%s: line %zu has %zu numbers, expected %zu", what, i, got[i].size(), want[i].size()); for (size_t j = 0; j < got[i].size(); j++) { double g = got[i][j], x = want[i][j]; if (std::isnan(x) ? std::isnan(g) : std::isinf(x) ? g == x : std::fabs(g - x) <= tol + 1e-9 * std::fabs(x)) continue; return strf("%s: number %zu of line %zu is %.17g, expected %.17g", what, j, i, g, x); } }
  return ""; }
vector<i64> own_labels(uint64_t lseed, long n) {
  vector<i64> own; Rng q(lseed); i64 top = drv_label_size() == 2 ? 32767 : drv_label_size() == 4 ? 2147483647 : (i64)1 << 62; vector<i64> vals; int k = q.range(1, (int)std::max(1l, n)), style = (int)q.below(4); for (int i = 0; i < k; i++) vals.push_back(style == 0 ? i : style == 1 ? (i64)q.below((uint64_t)top) : style == 2 ? top - i : (i64)q.below(2) + 2 * (i64)q.below((uint64_t)k));
  for (long i = 0; i < n; i++) own.push_back(style == 3 && q.chance(1, 2) ? vals[(size_t)(i % k)] : vals[q.below((uint64_t)k)]); return own; }
void step(Th& t, const Op& o, int oi) {
  World& w = *t.w; const string& op = o.name(); if (op == "arm" || op == "armfrom" || op == "armsite") { t.arm = o.f(1); t.persist = op == "armfrom"; t.site = op == "armsite"; if (t.site) { t.nth = o.f(2); t.persist = o.i(3) != 0; } return; }
  double arm = t.arm, nth = t.nth; bool persist = t.persist, site = t.site; t.arm = -1; uint64_t ord0 = 0, fired = 0;
  auto start = [&]() {
    ord0 = alloc_ordinal(); if (!w.adv && arm >= 0 && site) record_alloc_sites(true); if (!w.adv || arm < 0) return;
    if (site) { auto& v = w.sites[oi]; vector<uint64_t> d; for (uint64_t x : v) if (std::find(d.begin(), d.end(), x) == d.end()) d.push_back(x); if (d.empty()) return; uint64_t h = d[std::min(d.size() - 1, (size_t)(arm * (double)d.size()))]; uint64_t k = (uint64_t)std::count(v.begin(), v.end(), h); arm_alloc_site(h, std::min(k - 1, (uint64_t)(nth * (double)k)), persist); return; }
    uint64_t cnt = (size_t)oi < w.counts.size() ? w.counts[(size_t)oi] : 0; uint64_t at = (uint64_t)(arm * (double)std::max<uint64_t>(cnt, 1)); if (persist) arm_alloc_failures({}, (int64_t)at); else arm_alloc_failures({at}, -1); };
  auto stop = [&]() {
    if (w.adv && arm >= 0) { fired = alloc_failures_fired(); disarm_alloc_failures(); }
    else if (!w.adv) { if (w.counts.size() <= (size_t)oi) w.counts.resize((size_t)oi + 1); w.counts[(size_t)oi] = alloc_ordinal() - ord0; if (arm >= 0 && site) { w.sites[oi] = alloc_sites(); record_alloc_sites(false); } } };
#define ARMED(nm, lim, ...) do { start(); SUT(nm, lim, __VA_ARGS__); stop(); } while (0)
  if (op == "sortconf" || op == "sortlen") {
    string who = o.s(1, "c"); bool sim_ = op == "sortconf"; int type = sim_ ? (int)o.i(2) & 1 : 2, mode = (int)o.i(3) & 3; uint64_t seed = (uint64_t)o.i(4); vector<i64> keys; vector<double> v6; std::map<long, double> key; vector<i64> labels;
    for (size_t k = 5; k < o.a.size(); k++) { const string& q = o.a[k]; size_t c1 = q.find(':'); if (c1 == string::npos) continue; long kk = atol(q.c_str()); if (key.count(kk)) continue; string rest = q.substr(c1 + 1); if (sim_) { size_t c2 = rest.find(':'); double a = strtod(rest.c_str(), nullptr), b = c2 == string::npos ? a : strtod(rest.c_str() + c2 + 1, nullptr); if (drv_distance_size() == 4) { a = (float)a; b = (float)b; } keys.push_back(kk); for (double x : {1.0, 2.0, a, 1.0, 2.0, b}) v6.push_back(x); key[kk] = type ? b : a; } else { long z = std::max(1l, std::min(900l, atol(rest.c_str()))); keys.push_back(kk); key[kk] = (double)z; for (long i = 0; i < z; i++) labels.push_back(kk); } }
    if (keys.empty()) return; vector<long> kl(keys.begin(), keys.end()); vector<long> g = pick_list(kl, mode, seed); vector<i64> gi(g.begin(), g.end()); vector<long> want = mode < 2 ? kl : g; vector<long> outs[2]; double K = (double)keys.size(); uint64_t L = w.multi ? 0 : (uint64_t)(100000 + 20000 * K + 1500 * K * K); if (keys.size() > 1) shared->nontrivial = 1; for (auto& x : key) if (std::isnan(x.second)) probe(PB_NAN);
    for (int cpp = 0; cpp < 2; cpp++) { if (who == "c" && cpp) continue; if (who == "cpp" && !cpp) continue; vector<long>& out = outs[cpp]; void* lab = nullptr; void* m = nullptr;
      if (sim_) m = cpp ? cpp_mm_make((i64)keys.size(), keys.data(), v6.data()) : drv_mm_make((i64)keys.size(), keys.data(), v6.data()); else { size_t z = (size_t)drv_label_size(); lab = user_alloc(z * labels.size()); Rng r(seed); vector<i64> l2 = labels; for (size_t i = l2.size(); i > 1; i--) std::swap(l2[i - 1], l2[r.below(i)]); for (size_t i = 0; i < l2.size(); i++) { if (z == 4) ((int*)lab)[i] = (int)l2[i]; else if (z == 8) ((long*)lab)[i] = (long)l2[i]; else ((short*)lab)[i] = (short)l2[i]; } if (cpp) SUT("createClusterMap", 0, m = cpp_map(lab, 0, (i64)l2.size())); else SUT("hdbscan_create_cluster_map", 0, m = drv_map(lab, 0, (i64)l2.size())); }
      if (cpp) { void* l = cpp_list_new((i64)gi.size(), gi.data()); if (sim_) SUT("sortBySimilarity", L, cpp_sort_sim(m, l, type)); else SUT("sortByLength", L, cpp_sort_len(m, l)); for (i64 i = 0; i < cpp_list_size(l); i++) out.push_back((long)cpp_list_at(l, i)); cpp_list_free(l); }
      else { void* l = mode == 0 ? nullptr : drv_list_new((i64)gi.size(), gi.data()); void* q = nullptr; if (sim_) SUT("hdbscan_sort_by_similarity", L, q = drv_sort_sim(m, l, type)); else SUT("hdbscan_sort_by_length", L, q = drv_sort_len(m, l)); if (!q) fail("order:none", where(t, o) + ": no list was returned"); for (i64 i = 0; i < drv_list_size(q); i++) out.push_back((long)drv_list_at(q, i)); if (!drv_list_usable(q, 0)) fail("order:unusable", where(t, o) + ": searching the ordered list does not find its clusters"); drv_list_free(q); }
      if (sim_) { if (cpp) cpp_minmax_free(m); else SUT("hdbscan_destroy_distance_map", 0, drv_minmax_free(m)); } else { if (cpp) cpp_map_free(m); else SUT("hdbscan_destroy_cluster_map", 0, drv_map_free(m)); user_free(lab); }
      string e = check_order(out, want, key); if (!e.empty() && (is(w, "C16") || is(w, "C15"))) fail("order:wrong", where(t, o) + (cpp ? " (C++): " : " (C): ") + e);
      string tx = "order"; for (long x : out) tx += " " + std::to_string(x); note_bytes(tx.data(), tx.size()); if (w.logging) t.log += tx + "\n"; }
    if (who == "both" && is(w, "C15")) { checked(); if (outs[0] != outs[1]) fail("c++:differs", where(t, o) + ": C and C++ orders differ"); }
    return;
  }
  if (op == "stats") { // stats who clusters seed: a distance map of the caller's own making
    long k = std::max(0l, std::min(4000l, o.i(2))); Rng q((uint64_t)o.i(3)); int style = (int)q.below(6); bool flt = drv_distance_size() == 4; vector<i64> keys; vector<double> v6; std::set<i64> used;
    for (long i = 0; i < k; i++) { i64 key = style & 1 ? i : (i64)q.below(drv_label_size() == 2 ? 32000 : 1u << 30); while (!used.insert(key).second) key++; keys.push_back(key);
      for (int h = 0; h < 2; h++) { double lo = style == 0 ? 1 : style == 1 ? 0.5 + q.unit() : style == 2 ? 1 + (double)q.below(8) : std::ldexp(1 + q.unit(), q.range(-8, 8)), ratio = style == 0 ? 1 + (double)q.below(5) : style == 2 ? (q.chance(1, 9) ? 40 + q.unit() : 2) : style == 3 ? 1 : style == 4 ? 1 / (0.01 + q.unit()) : 1 + q.unit() * 9; double hi = lo * ratio; if (flt) { lo = (float)lo; hi = (float)hi; } v6.push_back(lo); v6.push_back(hi); v6.push_back(0); } }
    if (k > 64) probe(PB_BIGSTATS); string who = o.s(1), tx;
    for (int cpp = 0; cpp < 2; cpp++) { if (cpp ? who == "c" : who == "cpp") continue; void* m = cpp ? cpp_mm_make((i64)k, keys.data(), v6.data()) : drv_mm_make((i64)k, keys.data(), v6.data()); uint64_t L = w.multi ? 0 : 400000 + 20000 * (uint64_t)k; Post p; void* st = drv_stats_new();
      if (cpp) SUT("calculateStats", L, cpp_stats(m, st)); else SUT("hdbscan_calculate_stats", L, drv_stats(m, st)); i64 c; drv_stats_get(st, &c, p.st.data()); p.count = (long)c; if (cpp) SUT("analyseStats", L, p.validity = cpp_analyse(st)); else SUT("hdbscan_analyse_stats", L, p.validity = drv_analyse(st)); drv_stats_free(st); vector<double> rc, rd;
      for (long i = 0; i < k; i++) { Post::MM x; x.key = (long)keys[(size_t)i]; for (int j = 0; j < 6; j++) x.a[(size_t)j] = v6[(size_t)(6 * i + j)]; if (!(cpp ? cpp_mm_get(m, x.key, x.b.data()) : drv_mm_get(m, x.key, x.b.data()))) fail("wrong:stats", strf("cluster %ld vanished from the distance map", x.key)); for (int j : {0, 1, 3, 4}) if (x.a[(size_t)j] != x.b[(size_t)j]) fail("wrong:stats", strf("computing the statistics changed the distances of cluster %ld", x.key)); if (flt) { rc.push_back((float)x.a[1] / (float)x.a[0]); rd.push_back((float)x.a[4] / (float)x.a[3]); } else { rc.push_back(x.a[1] / x.a[0]); rd.push_back(x.a[4] / x.a[3]); } p.mm.push_back(x); }
      if ((cpp ? cpp_mm_size(m) : drv_mm_size(m)) != k) fail("wrong:stats", "computing the statistics changed the number of clusters in the distance map");
      if (cpp) cpp_minmax_free(m); else SUT("hdbscan_destroy_distance_map", 0, drv_minmax_free(m)); checked(); if (is(w, "C14")) { string q2 = oracle_stats(p, rc, rd); if (!q2.empty()) fail("wrong:stats", where(t, o) + (cpp ? " (C++): " : ": ") + q2); }
      string ty = p.text(); note_bytes(ty.data(), ty.size()); if (w.logging) t.log += ty; if (tx.empty()) tx = ty; else { string df = first_diff(tx, ty); if (!df.empty() && is(w, "C15")) fail("c++:differs", where(t, o) + ": C++ statistics differ: " + df); } }
    shared->nontrivial = 1; return;
  }
  if (op == "analyse") { // validity from arbitrary statistics
    double v[12] = {0}; v[4] = o.f(1); v[5] = o.f(2); v[10] = o.f(3); v[11] = o.f(4); void* st = drv_stats_new(); drv_stats_set(st, 3, v); if (drv_distance_size() == 4) for (double& q : v) q = (float)q; int a = 0, b = 0; SUT("hdbscan_analyse_stats", 100000, a = drv_analyse(st)); SUT("analyseStats", 100000, b = cpp_analyse(st)); drv_stats_free(st);
    auto part = [](double sk, double ku) { if (sk > 0 && ku > 0) return 2; if (sk < 0 && ku > 0) return 1; if (sk > 0 && ku < 0) return 0; return -1; }; int e = part(v[10], v[11]) + part(v[4], v[5]); checked(); if (a != e || b != e) fail("wrong:validity", where(t, o) + strf(": validity is %d (C++ %d), expected %d", a, b, e)); return;
  }
  if (op == "new") {
    if (w.slots.count(o.s(1))) return; Obj x; x.minpts = std::max(2l, o.i(3, 2)); string k = o.s(2); uint64_t L = lim_small(w, 0);
    if (k == "at") { x.mem = user_alloc(drv_sizeof()); ARMED("hdbscan_init", L, x.c = drv_init_at(x.mem, x.minpts)); } else if (k != "cpp") ARMED("hdbscan_init", L, x.c = drv_init(x.minpts));
    if (k == "cpp") { start(); let_new_fail(w.adv && arm >= 0); SUT("hdbscan::hdbscan", L, x.cpp = cpp_new(x.minpts == 3 ? -1 : x.minpts)); stop(); } if (k == "both") SUT("hdbscan::hdbscan", L, x.cpp = cpp_new(x.minpts == 3 ? -1 : x.minpts));
    if (!x.any()) { if (!fired) fail("error:init", where(t, o) + ": no object was created"); probe(PB_OOM); if (w.logging) t.log += "init failed\n"; return; }
    w.slots[o.s(1)] = x; return;
  }
  auto it = w.slots.find(o.s(1)); if (it == w.slots.end()) return; Obj& x = it->second;
  if (op == "selfedges") { int on = (int)o.i(2) & 1; for (void* h : {x.c, x.cpp}) if (h) drv_self_edges(h, on); return; }
  if (op == "run" || op == "rerun" || op == "steps") {
    bool steps = op == "steps", run = op == "run" || steps; int flags = steps ? (int)o.i(3) & 0xffff : 0; int di = run ? (int)o.i(2) : x.data; long mp = run ? x.minpts : std::max(2l, o.i(2, 2)); if (run && (di < 0 || di >= (int)w.c->data.size() || w.c->data[(size_t)di].n() < 1)) return;
    static const Data none; const Data& d = di >= 0 ? w.c->data[(size_t)di] : none; uint64_t L = lim_run(w, d.n(), d.dim(), (double)mp); bool was_good = x.good; int r = -7; uint64_t s0 = now_step();
    int warned[2] = {-1, -1};
    for (int c = 0; c < 2; c++) { void* h = c ? x.cpp : x.c; if (!h) continue; void* b = run ? data_buffer(d) : nullptr; size_t o0 = w.multi ? 0 : out().size();
      if (steps) { if (c) SUT("the steps of hdbscan::run", L, cpp_steps(h, b, (i64)d.pts.size(), d.cols, d.rowwise, d.type, flags)); else ARMED("the steps of hdbscan_run", L, r = drv_steps(h, b, (i64)d.pts.size(), d.cols, d.rowwise, d.type, flags)); } else
      if (run) { if (c) { ARMED("hdbscan::run", L, cpp_run(h, b, (i64)d.pts.size(), d.cols, d.rowwise, d.type)); } else ARMED("hdbscan_run", L, r = drv_run(h, b, (i64)d.pts.size(), d.cols, d.rowwise, d.type)); } else { if (c) ARMED("hdbscan::reRun", L, cpp_rerun(h, mp)); else ARMED("hdbscan_rerun", L, r = drv_rerun(h, mp)); }
      if (!w.multi) warned[c] = out().find("(infinite)", o0) != string::npos; if (b) user_free(b); }
    if (getenv("SIM_CAL")) fprintf(stderr, "CAL %s n=%d d=%d k=%ld steps=%lu limit=%lu ratio=%.4f\n", op.c_str(), d.n(), d.dim(), mp, (unsigned long)(now_step() - s0), (unsigned long)L, L ? (double)(now_step() - s0) / (double)L : 0);
    if (!x.c) r = drv_has_result(x.cpp) ? 0 : 1;
    if (run) { x.data = di; } x.flags = flags & 1; if (!drv_self_edges(x.any(), -1)) x.flags |= 2; if (steps && (x.flags & 2) != (flags & 2)) fail("steps:differ", where(t, o) + ": the caller's choice of self edges was changed"); long oldmp = x.minpts; x.minpts = mp;
    if (r == 0) { x.good = true; if (fired) probe(PB_OOM_OK); if (is(w, "C05") && !drv_debug()) { bool inf = false; for (auto& c : snapshot(x.any()).cl) if (!c.null && std::isinf(c.stability)) inf = true; checked(); for (int c = 0; c < 2; c++) if (warned[c] >= 0 && warned[c] != inf) fail("wrong:warning", where(t, o) + (inf ? ": a cluster has infinite stability and the caller was not warned" : ": the caller was warned of infinite stability and no cluster has it")); } if (!run && di < 0) fail("error:rerun", where(t, o) + ": re-running an object that never ran reported success"); judge(t, x, o); x.failed_before = false; }
    else { bool may = fired > 0 || (!run && !was_good); if (!may) fail("error:unexpected", where(t, o) + strf(": returned %d without any failure", r)); if (r != 1 && x.c) fail("error:code", where(t, o) + strf(": returned %d, neither success nor error", r)); x.good = false; x.minpts = (long)drv_minpts(x.any()); if (x.minpts != mp && x.minpts != oldmp) fail("wrong:shape", where(t, o) + strf(": minPts is %ld after the error", x.minpts)); if (fired) { probe(PB_OOM); x.failed_before = true; shared->nontrivial = 1; } if (w.logging) t.log += "error\n"; }
    return;
  }
  if (op == "huge") { // more points than the simulated memory can hold distances for: the run has to say so
    bool none = o.i(2) == 0; i64 hn = none ? 0 : std::max<i64>(20000, std::min<i64>(o.i(2), drv_index_size() == 2 ? 65535 : 140000)); int rw = (int)o.i(3) & 1; char* v = (char*)user_alloc((size_t)hn + 16); for (i64 i = 0; i < hn; i++) v[i] = (char)(i % 100); int r = -7; uint64_t L = 20000000; i64 hr = rw ? hn : none ? (o.i(3) & 2 ? 4 : 0) : 1, hc = rw ? (none ? 3 : 1) : none ? (o.i(3) & 2 ? 0 : 2) : hn;
    if (x.c) SUT("hdbscan_run", L, r = drv_run(x.c, v, hr, hc, rw, 5)); if (x.cpp) SUT("hdbscan::run", L, cpp_run(x.cpp, v, hr, hc, rw, 5)); user_free(v); checked(); shared->nontrivial = 1; if (!none) probe(PB_OOM);
    if (x.c && r != 1) fail("error:missed", where(t, o) + (none ? strf(": returned %d for a dataset without points", r) : strf(": returned %d although the distances of %lld points cannot be held", r, (long long)hn))); for (void* h : {x.c, x.cpp}) if (h && drv_has_result(h)) fail("error:missed", where(t, o) + ": results although the distances cannot be held");
    x.good = false; x.data = -1; x.failed_before = true; if (w.logging) t.log += "error\n"; return;
  }
  if (op == "clean") { uint64_t L = lim_small(w, x.data >= 0 ? w.c->data[(size_t)x.data].n() : 0); if (x.c) SUT("hdbscan_clean", L, drv_clean(x.c)); if (x.cpp) SUT("hdbscan::clean", L, cpp_clean(x.cpp)); for (void* h : {x.c, x.cpp}) if (h && !drv_is_empty(h)) fail("clean:leftover", where(t, o) + ": a cleaned object still holds results"); x.good = false; x.data = -1; return; }
  if (op == "destroy") { uint64_t L = lim_small(w, x.data >= 0 ? w.c->data[(size_t)x.data].n() : 0); if (x.c) { if (x.mem) { SUT("hdbscan_clean", L, drv_clean(x.c)); user_free(x.mem); } else SUT("hdbscan_destroy", L, drv_destroy(x.c)); } if (x.cpp) SUT("hdbscan::~hdbscan", L, cpp_delete(x.cpp)); w.slots.erase(it); return; }
  if (op == "mst") {
    if (!x.c || x.good || x.cpp) return; int di = (int)o.i(2); if (di < 0 || di >= (int)w.c->data.size()) return; const Data& d = w.c->data[(size_t)di]; if (!d.rowwise || d.n() < 1 || x.data >= 0 || drv_has_mst(x.c)) return; void* b = data_buffer(d); int r = 0; SUT("hdbscan_construct_mst", lim_run(w, d.n(), d.dim(), (double)x.minpts), r = drv_mst_only(x.c, b, (i64)d.pts.size(), d.cols, d.type)); user_free(b); if (r != 0) fail("error:unexpected", where(t, o) + ": constructing the tree reported an error");
    int n = d.n(); auto edges = [&]() { vector<Snap::E> v; for (i64 e = 0; e < drv_edges(x.c); e++) { i64 a, c; Snap::E q; drv_edge(x.c, e, &a, &c, &q.w); q.a = (long)a; q.b = (long)c; v.push_back(q); } return v; };
    auto adj = [&](const vector<Snap::E>& es) -> string { vector<std::multiset<long>> want((size_t)n); for (auto& e : es) { if (e.a < 0 || e.b < 0 || e.a >= n || e.b >= n) return "an edge joins points out of range"; want[(size_t)e.a].insert(e.b); if (e.a != e.b) want[(size_t)e.b].insert(e.a); } vector<i64> buf((size_t)(2 * n + 4)); for (int v = 0; v < n; v++) { i64 k = drv_adj(x.c, v, buf.data(), (i64)buf.size()); std::multiset<long> got(buf.begin(), buf.begin() + std::min<i64>(k, (i64)buf.size())); if (got != want[(size_t)v]) return strf("adjacency list of point %d has %lld entries, expected %zu", v, k, want[(size_t)v].size()); } return ""; };
    checked(); vector<Snap::E> e0 = edges(); string e = adj(e0); if (!e.empty() && is(w, "C13")) fail("wrong:adjacency", where(t, o) + ": " + e); SUT("graph_quicksort_by_edge_weight", lim_run(w, n, 1, 2), drv_mst_sort(x.c)); auto key = [](const Snap::E& q) { return std::make_tuple(std::min(q.a, q.b), std::max(q.a, q.b), q.w); }; vector<std::tuple<long, long, double>> A, B; for (auto& q : e0) A.push_back(key(q)); for (auto& q : edges()) B.push_back(key(q)); std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end()); if (A != B && is(w, "C13")) fail("wrong:tree", where(t, o) + ": sorting changed the set of edges"); e = adj(edges()); if (!e.empty() && is(w, "C13")) fail("wrong:adjacency", where(t, o) + " after sorting: " + e);
    x.data = di; x.good = false; return;
  }
  if (!x.good || !drv_has_result(x.any())) return;
  long n = (long)drv_n(x.any()), b = std::max(0l, std::min(n, o.i(2))), e = o.i(3, n); if (e < b || e > n) e = n;
  if (op == "post") {
    int what = (int)o.i(4, 3); uint64_t seed = (uint64_t)o.i(5, 7), lseed = (uint64_t)o.i(6); vector<i64> own; // labels of the caller's own
    if (lseed) { own = own_labels(lseed, n); probe(PB_RELABEL); }
    auto snap = [&](void* s) { Snap q = snapshot(s); if (lseed) for (long i = 0; i < n; i++) q.lab[(size_t)i] = (long)own[(size_t)i]; return q; }; const vector<i64>* ol = lseed ? &own : nullptr;
    Post pc, pp; if (x.c) pc = run_post(w, x.c, false, b, e, what, seed, ol); if (x.cpp) pp = run_post(w, x.cpp, true, b, e, what, seed, ol);
    if (is(w, "C14") || is(w, "C24")) { if (x.c) { string q = oracle_post(pc, snap(x.c), b, e); if (!q.empty()) fail("wrong:post", where(t, o) + ": " + q); } if (x.cpp) { string q = oracle_post(pp, snap(x.cpp), b, e); if (!q.empty()) fail("wrong:post", where(t, o) + " (C++): " + q); } }
    if (is(w, "C16") || is(w, "C24")) { if (x.c) { string q = oracle_orders(pc, seed); if (!q.empty()) fail("order:wrong", where(t, o) + ": " + q); } if (x.cpp) { string q = oracle_orders(pp, seed); if (!q.empty()) fail("order:wrong", where(t, o) + " (C++): " + q); } }
    string tx = x.c ? pc.text() : pp.text(); note_bytes(tx.data(), tx.size()); if (w.logging) t.log += tx; if (x.c && x.cpp) { checked(); string df = first_diff(tx, pp.text()); if (!df.empty()) fail("c++:differs", where(t, o) + ": C++ results differ: " + df); }
    return;
  }
  if (op == "derive") { // map, distance map, statistics and orders while memory runs out, then what came of it
    bool cpp = !x.c; void* s = x.any(); int mode = (int)o.i(4) & 3; uint64_t seed = (uint64_t)o.i(5), L = lim_post(w, (double)n, (double)(e - b)) * 2; void *m = nullptr, *d = nullptr, *st = drv_stats_new(), *l[2] = {nullptr, nullptr}; bool done[2] = {false, false}; int statd = 1; vector<long> keys; { std::set<long> u; for (long i = b; i < e; i++) u.insert((long)drv_label(s, i)); keys.assign(u.begin(), u.end()); } vector<long> g = pick_list(keys, mode, seed); vector<i64> gi(g.begin(), g.end()); if (mode || cpp) for (auto& y : l) y = cpp ? cpp_list_new((i64)gi.size(), gi.data()) : drv_list_new((i64)gi.size(), gi.data());
    start(); if (cpp) let_new_fail(w.adv && arm >= 0);
    if (cpp) SUT("createClusterMap", L, m = cpp_map(drv_labels_ptr(s), b, e)); else SUT("hdbscan_create_cluster_map", L, m = drv_map(drv_labels_ptr(s), b, e));
    if (m) { if (cpp) SUT("getMinMaxDistances", L, d = cpp_minmax(s, m)); else SUT("hdbscan_get_min_max_distances", L, d = drv_minmax(s, m));
      if (d) { if (cpp) { SUT("calculateStats", L, statd = cpp_stats(d, st)); if (statd) SUT("sortBySimilarity", L, done[0] = cpp_sort_sim(d, l[0], (int)(seed & 1))); } else { void* q = nullptr; SUT("hdbscan_calculate_stats", L, drv_stats(d, st)); SUT("hdbscan_sort_by_similarity", L, q = drv_sort_sim(d, l[0], (int)(seed & 1))); if (q) l[0] = q; done[0] = q; } }
      if (cpp) SUT("sortByLength", L, done[1] = cpp_sort_len(m, l[1])); else { void* q = nullptr; SUT("hdbscan_sort_by_length", L, q = drv_sort_len(m, l[1])); if (q) l[1] = q; done[1] = q; } }
    stop(); checked(); if (!statd) SUT("calculateStats", L, statd = cpp_stats(d, st));
    bool lost = !m || !d || !done[0] || !done[1]; if (lost && !fired) fail("error:unexpected", where(t, o) + ": a map or an order is missing without any failure"); if (fired) { probe(lost ? PB_OOM : PB_OOM_OK); shared->nontrivial = 1; }
    Post p; vector<i64> buf((size_t)n + 4); if (m) { i64 k = cpp ? cpp_map_size(m) : drv_map_size(m); for (i64 i = 0; i < k; i++) { i64 key = cpp ? cpp_map_key(m, i) : drv_map_key(m, i), z = cpp ? cpp_map_list(m, key, buf.data(), (i64)buf.size()) : drv_map_list(m, key, buf.data(), (i64)buf.size()); vector<long> v; for (i64 j = 0; j < z && j < (i64)buf.size(); j++) v.push_back((long)buf[(size_t)j]); p.map.push_back({(long)key, v}); } }
    if (d) { i64 c = 0; drv_stats_get(st, &c, p.st.data()); p.count = (long)c; SUT("hdbscan_analyse_stats", L, p.validity = drv_analyse(st)); i64 k = cpp ? cpp_mm_size(d) : drv_mm_size(d); for (i64 i = 0; i < k; i++) { Post::MM y; y.key = (long)(cpp ? cpp_mm_key(d, i) : drv_mm_key(d, i)); if (cpp) cpp_mm_get(d, y.key, y.a.data()); else drv_mm_get(d, y.key, y.a.data()); y.b = y.a; y.a[2] = y.a[5] = 0; p.mm.push_back(y); } }
    if (m) { string bad = oracle_post(p, snapshot(s), b, e); if (!bad.empty()) fail("wrong:post", where(t, o) + strf(" (%lu allocations failed): ", (unsigned long)fired) + bad); }
    for (int h = 0; h < 2; h++) { vector<long> out, want = mode < 2 ? keys : g; std::map<long, double> key; if (h) for (auto& y : p.map) key[y.first] = (double)y.second.size(); else for (auto& y : p.mm) key[y.key] = y.b[(seed & 1) ? 5 : 2]; void* y = l[h]; if (y) { i64 k = cpp ? cpp_list_size(y) : drv_list_size(y); for (i64 i = 0; i < k; i++) out.push_back((long)(cpp ? cpp_list_at(y, i) : drv_list_at(y, i))); }
      if (done[h]) { string bad = check_order(out, want, key); if (!bad.empty()) fail("order:wrong", where(t, o) + ": " + bad); } else if (y && mode == 1) { if (!out.empty()) fail("order:part", where(t, o) + strf(": the empty list given to a sort that failed now has %zu of the %zu clusters", out.size(), keys.size())); } else if (y && mode > 1) { std::sort(out.begin(), out.end()); vector<long> s2 = g; std::sort(s2.begin(), s2.end()); if (out != s2) fail("order:lost", where(t, o) + strf(": the list given to a sort that failed had %zu clusters and now has %zu", s2.size(), out.size())); } if (y) { if (cpp) cpp_list_free(y); else drv_list_free(y); } }
    if (d) { if (cpp) cpp_minmax_free(d); else SUT("hdbscan_destroy_distance_map", L, drv_minmax_free(d)); } if (m) { if (cpp) cpp_map_free(m); else SUT("hdbscan_destroy_cluster_map", L, drv_map_free(m)); } drv_stats_free(st); return;
  }
  if (op == "read") { read_all(t, x.any()); Post p = run_post(w, x.any(), !x.c, b, e, 1, 1); t.log += p.text(); return; }
  if (op == "report") { // report slot b e what lseed: what is printed against what the results hold
    int what = (int)o.i(4) & 7; uint64_t lseed = (uint64_t)o.i(5), L = w.multi ? 0 : lim_post(w, (double)n, (double)n) * 4; vector<i64> own; void *mine = nullptr, *labels = drv_labels_ptr(x.any()); if (lseed) { own = own_labels(lseed, n); size_t z = (size_t)drv_label_size(); mine = user_alloc(z * own.size() + 1); for (size_t i = 0; i < own.size(); i++) memcpy((char*)mine + i * z, &own[i], z); labels = mine; probe(PB_RELABEL); }
    for (int c = 0; c < 2; c++) { void* s = c ? x.cpp : x.c; if (!s) continue; bool cpp = c && what < 4; if (what == 6 && !drv_has_mst(s)) continue; if (!mine) labels = drv_labels_ptr(s); void *m = nullptr, *d = nullptr, *st = drv_stats_new(); Snap sn = snapshot(s);
      if (what < 4) { if (cpp) SUT("createClusterMap", L, m = cpp_map(labels, b, e)); else SUT("hdbscan_create_cluster_map", L, m = drv_map(labels, b, e)); if (!m) fail("post:map", "no cluster map was created"); }
      if (what == 2 || what == 3) { if (cpp) { SUT("getMinMaxDistances", L, d = cpp_minmax(s, m)); SUT("calculateStats", L, cpp_stats(d, st)); } else { SUT("hdbscan_get_min_max_distances", L, d = drv_minmax(s, m)); SUT("hdbscan_calculate_stats", L, drv_stats(d, st)); } }
      vector<vector<double>> lines; vector<double> flat; vector<i64> buf((size_t)n + 4); i64 k = !m ? 0 : cpp ? cpp_map_size(m) : drv_map_size(m);
      if (what < 2) for (i64 i = 0; i < k; i++) { i64 key = cpp ? cpp_map_key(m, i) : drv_map_key(m, i), z = cpp ? cpp_map_list(m, key, buf.data(), (i64)buf.size()) : drv_map_list(m, key, buf.data(), (i64)buf.size()); vector<double> l{(double)key}; if (what == 1) l.push_back((double)z); else for (i64 j = 0; j < z; j++) l.push_back((double)buf[(size_t)j]); lines.push_back(l); }
      if (what == 2) { i64 q = cpp ? cpp_mm_size(d) : drv_mm_size(d); for (i64 i = 0; i < q; i++) { double v[6]; i64 key = cpp ? cpp_mm_key(d, i) : drv_mm_key(d, i); if (!(cpp ? cpp_mm_get(d, key, v) : drv_mm_get(d, key, v))) fail("post:minmax", "distance map key without a value"); flat.push_back((double)key); for (double y : v) flat.push_back(y); } }
      if (what == 3) { i64 cn; double v[12]; drv_stats_get(st, &cn, v); flat.push_back((double)cn); for (int h = 0; h < 2; h++) for (int q : {0, 1, 4, 5, 2, 3}) flat.push_back(v[6 * h + q]); }
      if (what == 4) for (auto& l : sn.hier) { vector<double> q{(double)l.key, l.w}; for (long y : l.lab) q.push_back((double)y); lines.push_back(q); }
      if (what == 5) for (auto& y : sn.out) lines.push_back({(double)y.id, y.core, y.score});
      if (what == 6) { flat = {(double)n, (double)sn.mst.size(), (double)sn.mst.size(), (double)sn.mst.size(), (double)n}; for (auto& y : sn.mst) flat.push_back((double)y.a); for (auto& y : sn.mst) flat.push_back((double)y.b); for (auto& y : sn.mst) flat.push_back(y.w); vector<i64> adj(4 * (size_t)n + 8); for (long i = 0; i < n; i++) { i64 z = drv_adj(s, i, adj.data(), (i64)adj.size()); for (i64 j = 0; j < z; j++) flat.push_back((double)adj[(size_t)j]); } }
      if (what == 7) for (long i = 0; i < n; i++) { vector<double> q; for (long j = i + 1; j < n; j++) q.push_back(drv_dist(s, i, j)); lines.push_back(q); }
      size_t o0 = out().size(); string l0 = file_data("hdbscan.log"); if (cpp) SUT("printing", L, cpp_print(what, m, d, st)); else SUT("printing", L, drv_print(s, what, m, d, st)); string text = out().substr(o0) + file_data("hdbscan.log").substr(l0.size()); note_bytes(text.data(), text.size());
      static const char* names[] = {"cluster map", "cluster sizes", "distance map", "statistics", "hierarchy", "outlier scores", "graph", "distances"}; string bad;
      if (what == 4) { string h; size_t p = 0; while (p < text.size()) { size_t q = text.find('\n', p); if (q == string::npos) q = text.size(); if (text.find("-> [", p) < q) h += text.substr(p, q - p) + "\n"; p = q + 1; } bad = check_lines(h, lines, 1e-14, names[what]); }
      else if (what < 2 || what == 5 || what == 7) bad = check_lines(text, lines, 5.1e-7, names[what]); else bad = check_numbers(text, flat, what == 3 ? 5.1e-6 : 5.1e-7, names[what]);
      if (!bad.empty()) fail("report:wrong", where(t, o) + (cpp ? " (C++): " : ": ") + bad);
      if (d) { if (cpp) cpp_minmax_free(d); else SUT("hdbscan_destroy_distance_map", L, drv_minmax_free(d)); } if (m) { if (cpp) cpp_map_free(m); else SUT("hdbscan_destroy_cluster_map", L, drv_map_free(m)); } drv_stats_free(st); }
    if (mine) user_free(mine); return;
  }
  if (op == "print") {
    void* s = x.c ? x.c : x.cpp; int what = (int)o.i(4) & 7; uint64_t L = w.multi ? 0 : lim_post(w, (double)n, (double)n) * 4; string before = out(); void *m = nullptr, *d = nullptr, *st = drv_stats_new(); SUT("hdbscan_create_cluster_map", L, m = drv_map(drv_labels_ptr(s), b, e)); if (e > b) { SUT("hdbscan_get_min_max_distances", L, d = drv_minmax(s, m)); SUT("hdbscan_calculate_stats", L, drv_stats(d, st)); }
    if ((what != 2 && what != 3) || d) SUT("printing", L, drv_print(s, what, m, d, st)); if (d) SUT("hdbscan_destroy_distance_map", L, drv_minmax_free(d)); SUT("hdbscan_destroy_cluster_map", L, drv_map_free(m)); drv_stats_free(st);
    if (!x.c && (what == 0 || what == 1)) { SUT("createClusterMap", L, m = cpp_map(drv_labels_ptr(s), b, e)); SUT("printing", L, cpp_print(what, m, nullptr, nullptr)); cpp_map_free(m); }
    return;
  }
  if (op == "export") { string name = o.s(2, "h"); void* nm = user_alloc(name.size() + 1); memcpy(nm, name.c_str(), name.size() + 1); SUT("hdbscan_print_hierarchies", w.multi ? 0 : 2000000 + 4000 * (uint64_t)n * (uint64_t)n, drv_export(x.any(), (char*)nm)); user_free(nm); return; }
}
void teardown(Th& t) { vector<string> k; for (auto& s : t.w->slots) k.push_back(s.first); for (auto& s : k) { Op d; d.thread = -1; d.a = {"destroy", s}; step(t, d, 1 << 20); } }
// one whole simulated run; returns the text of everything observed
std::map<int, string> phase(World& w, const Config& cfg, const std::map<int, vector<std::pair<Op, int>>>& by) {
  begin(cfg); std::map<int, string> logs; size_t callers = 0; for (auto& t : by) if (t.first >= 0) callers++; w.multi = callers > 1; multi_callers = false;
  auto stage = [&](std::function<bool(int)> pick) { vector<std::unique_ptr<Th>> th; for (auto& t : by) if (pick(t.first)) { Th* x = new Th(); x->w = &w; x->thread = t.first; x->ops = &t.second; th.emplace_back(x); spawn([x]() { for (auto& o : *x->ops) step(*x, o.first, o.second); }); } if (th.empty()) return; run_all(); for (auto& x : th) logs[x->thread] += x->log; };
  bool m = w.multi; w.multi = false; stage([](int t) { return t < 0; }); multi_callers = w.multi = m; stage([](int t) { return t >= 0; }); multi_callers = w.multi = false;
  Th end; end.w = &w; end.thread = -2; spawn([&]() { teardown(end); }); run_all(); w.slots.clear();
  return logs;
}
void leak_check(const char* what) { if (live_count()) { auto b = live_blocks(); fail("leak", strf("%zu blocks (%zu bytes) still allocated after everything was destroyed%s; first is allocation %lu of %zu bytes", b.size(), live_bytes(), what, (unsigned long)b[0].ord, b[0].size)); } }
string minpts(Rng& r, int n) { if (r.chance(1, 40)) { static const char* far[] = {"100", "3000", "32769", "65535"}; return far[r.below(4)]; } return std::to_string(r.chance(1, 14) ? std::max(2, n + r.range(-1, 2)) : r.range(2, std::max(2, std::min(n, 8)))); }
}
string gen_cluster(const string& prop, Rng& r, const string& variant, long index) {
  auto P = [&](std::initializer_list<const char*> l) { for (auto x : l) if (prop == x) return true; return false; };
  if (prop == "C12" && r.chance(1, 4)) return gen_container(prop, r, variant, index); if (prop == "C24" && r.chance(1, 3)) return gen_container(prop, r, variant, index);
  bool threads = !P({"C09"}) && (P({"C01", "C02", "C12", "C25"}) || r.chance(1, 2)), memory = P({"C08", "C09", "C11", "C12", "C15", "C07", "C30"}) || r.chance(1, 3); Config c = random_config(r, threads, memory, P({"C09"}) || r.chance(1, 4)); c.races = P({"C02", "C12"}); c.memcheck = P({"C08", "C11", "C12", "C30"}) || (P({"C24"}) && variant.compare(0, 4, "asan") == 0) || (P({"C15"}) && r.chance(1, 2)); if (P({"C01"})) { c.fill_mode = 1; c.reuse = 0; c.place_seed = 1; c.qsort_mode = 0; } if (P({"C09"})) { c.threads = 1; c.short_pct = 0; } if (P({"C02"})) { c.threads = std::max(2, c.threads); if (r.chance(2, 3)) c.short_pct = 0; } if (P({"C01"}) && r.chance(3, 4)) c.threads = std::max(2, c.threads);
  c.step_budget = 80000000;
  string s = "case cluster prop=" + prop + "\n" + ""; vector<Data> ds; DataProfile dp; dp.maxn = P({"C02", "C12", "C15", "C11"}) ? 22 : P({"C25"}) && r.chance(1, 6) ? 64 : 36; if (P({"C16"})) dp.maxn = 20; bool med = r.chance(1, P({"C07", "C11", "C12"}) ? 32 : 16); if (med) { int z = (int)r.below(20); dp.minn = z < 14 ? 37 : z < 19 ? 131 : 301; dp.maxn = z < 14 ? 130 : z < 19 ? 300 : P({"C03", "C04", "C05", "C06", "C13", "C14", "C16", "C25"}) ? 600 : 330; c.step_budget = 600000000; if (z == 19 && !P({"C02", "C12", "C07", "C11", "C08"}) && r.chance(1, 8)) { dp.minn = 601; dp.maxn = 1300; c.step_budget = 3000000000; } } s += cfg_text(c); dp.exact_only = P({"C24"}); auto minpts = [&](Rng& r, int n) { return !ds.empty() && ds[0].many && r.chance(3, 4) ? string("2") : med && r.chance(1, 3) ? std::to_string(r.range(2, r.chance(1, 5) ? n : std::min(n, 70))) : ::minpts(r, n); };
  int nd = P({"C07", "C08", "C11", "C12", "C15", "C09", "C30"}) ? r.range(1, 3) : 1; for (int i = 0; i < nd; i++) { DataProfile q = dp; if (i && r.chance(1, 3)) q.small = true; ds.push_back(gen_data(r, q)); if (P({"C03", "C01", "C13", "C29"}) && (ds.back().type == 3 || ds.back().type == 0) && r.chance(1, 3)) { Data& d = ds.back(); double m = 0; for (auto& p : d.pts) for (double v : p) m = std::max(m, std::fabs(v)); static const long lb[] = {1l << 62, 1l << 53, (1l << 61) + 12345, 1l << 57}; if (d.type == 3) d.base = lb[r.below(4)]; else if (m < 1e8) d.base = 2000000000; if (r.chance(1, 2)) d.base = -d.base; } 
    if (P({"C01", "C02", "C07", "C08", "C09", "C11", "C12", "C15", "C25"}) && (ds.back().type == 1 || ds.back().type == 2) && r.chance(1, 20)) { // coordinates that are no numbers, or whose distances overflow
      static const double odd[] = {NAN, INFINITY, -INFINITY, 1e200, -1e200, 3e38, 1e-300, 1e20}; int kinds = r.range(1, 2); double v[2] = {odd[r.below(8)], odd[r.below(8)]}; int part = r.range(1, 8); ds.back().pow2 = false; for (auto& p : ds.back().pts) for (double& x : p) if (r.below(8) < (uint64_t)part) { x = v[r.below((uint64_t)kinds)]; if (ds.back().type == 2) x = (double)(float)x; } }
    s += data_text(i, ds.back()); }
  auto kind = [&]() -> string { if (P({"C15"})) return r.chance(5, 6) ? "both" : "cpp"; if (P({"C11"})) return r.chance(1, 4) ? "cpp" : r.chance(1, 4) ? "at" : "c"; int k = (int)r.below(8); return k < 4 ? "c" : k < 6 ? "cpp" : "at"; };
  auto D = [&]() { return std::to_string(r.below((uint64_t)nd)); };
  auto post = [&](int n) { int b = r.chance(1, 2) ? 0 : (int)r.below((uint64_t)n), e = r.chance(1, 2) ? n : r.range(b, n); if (r.chance(1, 12)) e = std::min(n, b + (int)r.below(3)); string q = strf("%d %d %d %d", b, e, 3, (int)r.below(64)); if (r.chance(1, P({"C14"}) ? 3 : 8)) q += strf(" %d", r.range(1, 1 << 20)); return q; };
  auto statop = [&]() { return strf("op 0 stats %s %d %d\n", P({"C15"}) ? "both" : r.chance(1, 3) ? "c" : r.chance(1, 2) ? "cpp" : "both", r.chance(1, 4) ? r.range(200, 900) : r.range(P({"C14"}) ? 0 : 1, 40), r.range(0, 1 << 20)); };
  auto sortop = [&](const string& T) { bool sim_ = r.chance(2, 3); string who = P({"C15"}) ? "both" : r.chance(1, 3) ? "c" : r.chance(1, 2) ? "cpp" : "both"; int k = r.chance(1, 12) ? r.chance(1, 6) ? r.range(200, 900) : r.range(40, 90) : r.range(1, 14); string q = "op " + T + (sim_ ? " sortconf " : " sortlen ") + who + strf(" %d %d %d", (int)r.below(2), (int)r.below(4), (int)r.below(1000)); int style = (int)r.below(6); int off = r.chance(1, 2) ? 0 : r.range(1, 9); for (int i = 0; i < k; i++) { auto v = [&]() -> string { switch (style) { case 0: return num(r.range(0, 4)); case 1: return num(r.unit() * 100); case 2: return r.chance(1, 3) ? "nan" : num(r.range(0, 9)); case 3: return r.chance(1, 4) ? (r.chance(1, 2) ? "inf" : "-inf") : num(r.range(-4, 4)); case 4: return r.chance(1, 5) ? "nan" : r.chance(1, 5) ? "inf" : "0"; default: return num(i * (r.chance(1, 9) ? -1 : 1)); } }; if (sim_) q += strf(" %d:", i * (off ? off : 1)) + v() + ":" + v(); else q += strf(" %d:%d", i + off, style == 5 && k < 9 && i % 3 == 0 ? r.range(200, 700) : r.range(1, style < 2 ? 3 : 12)); } return q + "\n"; };
  int n0 = ds[0].n();
  if (P({"C16"})) { int k = r.range(1, 4); for (int i = 0; i < k; i++) s += sortop("0"); if (r.chance(1, 4)) { s += "op 0 new a " + kind() + " " + minpts(r, n0) + "\nop 0 run a 0\nop 0 post a " + post(n0) + "\n"; } return s; }
  if (P({"C03", "C04", "C05", "C06", "C13", "C24", "C14", "C01", "C02", "C25"})) {
    if (P({"C13"}) && r.chance(1, 3)) { s += "op 0 new m c " + minpts(r, n0) + "\nop 0 mst m 0\n"; }
    bool tie = (ds[0].pow2 || ds[0].many) && r.chance(5, 6); s += "op 0 new a " + kind() + " " + (tie ? string("2") : minpts(r, n0)) + "\nop 0 run a 0\n";
    auto tail = [&]() { if (P({"C14"})) { int k = r.range(1, 3); while (k--) s += "op 0 post a " + post(n0) + "\n"; if (r.chance(1, 2)) { static const char* vs[] = {"0", "1", "-1", "nan", "inf", "-inf", "-0", "0.25", "-3e-300"}; s += "op 0 analyse"; for (int i = 0; i < 4; i++) s += string(" ") + vs[r.below(9)]; s += "\n"; } } else if (P({"C01", "C02", "C24", "C25"}) && r.chance(1, 2)) { s += "op 0 post a " + post(n0) + "\n"; if (r.chance(1, 3)) s += sortop("0"); } };
    tail(); if (P({"C14", "C01", "C02"}) && r.chance(1, 3)) s += statop(); if (r.chance(1, 3)) { s += "op 0 rerun a " + minpts(r, n0) + "\n"; tail(); }
    return s;
  }
  if (P({"C29"})) { s += "op 0 new a " + kind() + " " + minpts(r, n0) + "\nop 0 run a 0\n"; int k = r.range(1, 5); for (int i = 0; i < k; i++) { string q = post(n0); vector<string> f; std::istringstream is_(q); string y; while (is_ >> y) f.push_back(y); s += "op 0 report a " + f[0] + " " + f[1] + strf(" %d %d\n", (int)r.below(8), r.chance(1, 3) ? r.range(1, 1 << 20) : 0); } if (r.chance(1, 4)) { s += "op 0 rerun a " + minpts(r, n0) + strf("\nop 0 report a 0 99999 %d 0\n", (int)r.below(8)); } return s; }
  auto huge = [&](const string& sl) { static const int far[] = {65536, 65537, 65538, 65600, 66000, 70000, 92682, 92683, 131072, 131073}; if (r.chance(1, 3)) return strf("huge %s 0 %d\n", sl.c_str(), (int)r.below(4)); return strf("huge %s %d %d\n", sl.c_str(), r.chance(1, 4) ? r.range(20000, 140000) : far[r.below(10)], (int)r.below(2)); };
  if (P({"C11"})) {
    auto arm = [&]() { if (!r.chance(3, 4)) return; if (r.chance(1, 2)) s += strf("op 0 armsite %.6f %.6f %d\n", r.unit(), r.chance(1, 3) ? 0.0 : r.unit(), (int)r.chance(1, 4)); else s += strf("op 0 %s %.6f\n", r.chance(1, 3) ? "armfrom" : "arm", r.chance(1, 4) ? r.unit() * 0.1 : r.unit()); };
    if (r.chance(1, 10)) s += "op 0 arm 0\n"; s += "op 0 new a " + kind() + " " + minpts(r, n0) + "\nop 0 new a c 3\n"; int k = r.range(1, 4); bool ran = false; for (int i = 0; i < k; i++) { arm(); if (!ran || r.chance(1, 2)) { s += "op 0 run a " + D() + "\n"; ran = true; } else s += "op 0 rerun a " + minpts(r, n0) + "\n"; if (r.chance(1, 12)) s += "op 0 " + huge("a"); if (r.chance(1, 8)) s += "op 0 clean a\n"; else if (r.chance(1, 3)) { arm(); int b = r.chance(1, 2) ? 0 : (int)r.below((uint64_t)n0); s += strf("op 0 derive a %d %d %d %d\n", b, r.chance(1, 2) ? 99999 : r.range(b, n0), (int)r.below(4), (int)r.below(64)); } } if (r.chance(3, 4)) s += "op 0 run a " + D() + "\n"; return s;
  }
  if (P({"C12"})) {
    int T = r.range(2, 3); bool sh = r.chance(1, 3); if (sh) s += "op s new z " + kind() + " " + minpts(r, n0) + "\nop s run z 0\n";
    for (int t = 0; t < T; t++) { string th = std::to_string(t), nm(1, (char)('a' + t)); if (sh && r.chance(2, 3)) { s += "op " + th + " read z 0 " + std::to_string(n0) + "\n"; if (r.chance(1, 2)) continue; } s += "op " + th + " new " + nm + " " + kind() + " " + minpts(r, n0) + "\n"; int k = r.range(1, 2); for (int i = 0; i < k; i++) s += "op " + th + " run " + nm + " " + D() + "\n"; if (r.chance(1, 3)) s += "op " + th + " rerun " + nm + " " + minpts(r, n0) + "\n"; if (r.chance(1, 2)) s += "op " + th + " post " + nm + " 0 99999 3 " + std::to_string(r.below(64)) + "\n"; if (r.chance(1, 4)) s += sortop(th); if (r.chance(1, 3)) for (int i = r.range(1, 2); i; i--) s += "op " + th + " export " + nm + " h" + th + "\n"; if (r.chance(1, 5)) s += "op " + th + " print " + nm + " 0 99999 " + std::to_string(r.below(8)) + "\n"; if (r.chance(1, 3)) s += "op " + th + " destroy " + nm + "\n"; }
    return s;
  }
  if (P({"C30"})) {
    s += "op 0 new a " + kind() + " " + minpts(r, n0) + "\n"; int k = r.range(1, 3); for (int i = 0; i < k; i++) { if (r.chance(1, 6)) s += strf("op 0 arm %.6f\n", r.unit()); int q = i == 0 ? 0 : (int)r.below(6); if (q < 4) s += "op 0 steps a " + D() + strf(" %d\n", (int)r.below(4) + 4 * (int)r.below(400)); else if (q == 4) s += (r.chance(1, 2) ? strf("op 0 selfedges a %d\n", (int)r.below(2)) : string()) + "op 0 run a " + D() + "\n"; else s += "op 0 rerun a " + minpts(r, n0) + "\n"; if (r.chance(1, 8)) s += "op 0 clean a\n"; else if (r.chance(1, 4)) s += "op 0 post a " + post(n0) + "\n"; } return s;
  }
  // C07, C08, C09, C15: histories
  int objs = r.chance(1, 4) ? 2 : 1; for (int j = 0; j < objs; j++) s += "op 0 new " + string(1, (char)('a' + j)) + " " + kind() + " " + minpts(r, n0) + "\n";
  int k = r.range(1, P({"C07", "C08"}) ? 7 : 5); if (P({"C08"}) && r.chance(1, 12)) k = 0;
  for (int i = 0; i < k; i++) { string o(1, (char)('a' + r.below((uint64_t)objs))); int q = (int)r.below(20); if (i == 0 && q > 3) q = 10;
    if (q < 6) s += "op 0 rerun " + o + " " + minpts(r, n0) + "\n"; else if (q < 8) s += r.chance(1, 5) && P({"C07", "C08"}) ? "op 0 " + huge(o) : "op 0 clean " + o + "\n"; else if (q < 9 && P({"C08", "C15"})) s += "op 0 destroy " + o + "\nop 0 new " + o + " " + kind() + " " + minpts(r, n0) + "\n"; else s += "op 0 run " + o + " " + D() + "\n";
    if (!P({"C07"}) && r.chance(1, 2)) s += "op 0 post " + o + " " + post(n0) + "\n";
    if (P({"C09", "C08"}) && r.chance(1, 2)) s += "op 0 print " + o + " 0 99999 " + std::to_string(r.below(8)) + "\n"; if (P({"C09"}) && r.chance(1, 4)) s += "op 0 export " + o + " h" + std::to_string(r.below(3)) + "\n"; if (P({"C15", "C08", "C09"}) && r.chance(1, 6)) s += sortop("0"); if (P({"C15", "C08", "C09"}) && r.chance(1, 12)) s += statop(); }
  return s;
}
void run_cluster(const Case& c) {
  World w; w.c = &c; w.prop = c.prop; std::map<int, vector<std::pair<Op, int>>> by; for (size_t i = 0; i < c.ops.size(); i++) by[c.ops[i].thread].push_back({c.ops[i], (int)i});
  string sm; for (size_t i = 0; i < c.ops.size() && i < 14; i++) { for (auto& x : c.ops[i].a) sm += x + " "; sm += "; "; } for (auto& d : c.data) sm += strf("[%d points, %d columns]", d.n(), d.dim()); snprintf(shared->sample, sizeof shared->sample, "%s; %d workers: %.1700s", policy_names[c.cfg.policy], c.cfg.threads, sm.c_str());
  bool ref = is(w, "C01") || is(w, "C09") || is(w, "C12") || is(w, "C11") || is(w, "C30"); std::map<int, string> want; string rout; vector<std::pair<string, string>> rfiles; auto files = [&]() { vector<std::pair<string, string>> v; for (auto& n : file_names()) v.push_back({n, norm_log(file_data(n))}); return v; };
  if (ref) { w.logging = true; Config rc = ref_config(c.cfg); if (is(w, "C11") || is(w, "C30")) rc.memcheck = c.cfg.memcheck; want = phase(w, rc, by); rout = norm_log(out()); rfiles = files(); if (is(w, "C11") || is(w, "C30")) leak_check(" (no failures)"); w.fresh.clear(); w.fsnap.clear(); }
  w.adv = true; std::map<int, string> got = phase(w, c.cfg, by);
  if (is(w, "C01") || is(w, "C09") || is(w, "C12")) { checked(); for (auto& t : want) { string d = first_diff(t.second, got[t.first]); if (!d.empty()) fail(is(w, "C01") ? "schedule:differs" : is(w, "C09") ? "memory:differs" : "concurrent:differs", strf("thread %d: ", t.first) + d); } }
  if (is(w, "C09") || is(w, "C12")) { bool C9 = is(w, "C09"); string k = C9 ? "memory:" : "concurrent:"; checked(); if (C9) { string d = first_diff(rout, norm_log(out())); if (!d.empty()) fail("memory:output-differs", "printed text: " + d); } auto f = files(); if (f.size() != rfiles.size()) fail(k + "files-differ", strf("%zu files written, %zu expected", f.size(), rfiles.size())); for (size_t i = 0; i < f.size(); i++) { if (f[i].first != rfiles[i].first) fail(k + "files-differ", "file '" + f[i].first + "' written instead of '" + rfiles[i].first + "'"); string d = first_diff(rfiles[i].second, f[i].second); if (!d.empty()) fail(k + "files-differ", "file " + f[i].first + ": " + d); } string t = norm_log(out()); if (C9) note_bytes(t.data(), t.size()); }
   if (is(w, "C08") || is(w, "C11") || is(w, "C15") || is(w, "C30")) { checked(); leak_check(""); }
}
