// Distance tables, graphs and clusters used on their own (C28).
#include "common.hpp"
using namespace sim;
namespace {
enum Probe { PB_OOM, PB_AGAIN, PB_CPP, PB_TIES, PB_SELF, PB_MANY, PB_DESC, PB_CONS, PB_RELEASE };
struct Edge { long a, b; double w; bool operator<(const Edge& o) const { return std::tie(w, a, b) < std::tie(o.w, o.a, o.b); } bool operator==(const Edge& o) const { return a == o.a && b == o.b && w == o.w; } };
struct Table { void* p = nullptr; int how = 0, type = 1, data = -1; long k = 0; };
struct Graph { void* p = nullptr; int how = 0; long n = 0; vector<Edge> e; vector<vector<long>> adj; };
struct Clus { void* p = nullptr; bool at = false, broken = false, released = false; long label = 0; string parent; double birth = 0, death = 0, stab = 0, pstab = 0, plow = 0; long n = 0, con = 0, pcon = 0; bool kids = false; vector<string> desc; std::set<long> virt; };
struct Ctx { const Case* c; int thread; std::map<string, Table> tab; std::map<string, Graph> gr; std::map<string, Clus> cl; string armed; uint64_t arm_at = 0; };
string where(const Ctx& x, const Op& o) { string s = strf("thread %d:", x.thread); for (auto& w : o.a) { s += " " + w; if (s.size() > 300) { s += " ..."; break; } } return s; }
#define BAD(...) fail(string("part:") + o.name(), where(x, o) + ": " + strf(__VA_ARGS__))
// weights for which a quicksort that takes the first element as its pivot leaves `left` smaller ones on one side every time
vector<double> sort_depth(size_t m, int left) {
  vector<size_t> a(m); for (size_t i = 0; i < m; i++) a[i] = i; vector<double> w(m, -1); double v = 0; size_t s = 0;
  while (s + (size_t)left + 1 < m) { size_t p = a[s]; for (int j = 1; j <= left; j++) w[a[s + (size_t)j]] = v++; w[p] = v++; std::swap(a[s], a[m - 1]); size_t low = s; for (size_t i = s; i + 1 < m; i++) if (w[a[i]] >= 0 && w[a[i]] < w[p]) std::swap(a[i], a[low++]); std::swap(a[low], a[m - 1]); s = low + 1; }
  for (; s < m; s++) w[a[s]] = v++; return w; }
bool close_to(double a, double b) { double r = drv_distance_size() == 4 ? 1e-5 : 1e-11; return (std::isnan(a) && std::isnan(b)) || near(a, b, r, r); }

void check_table(Ctx& x, Table& t, const Op& o) {
  if (t.data < 0) { if (pd_has(t.p)) BAD("an empty table holds distances"); return; }
  if (pd_has(t.p) != 3) BAD("the table holds no distances or no core distances"); const Data& d = x.c->data[(size_t)t.data]; Snap s; s.n = d.n(); s.minpts = t.k + 1;
  SUTQ("distance_get", 400000 + 2000 * (uint64_t)s.n * s.n, for (int i = 0; i < s.n; i++) for (int j = 0; j < s.n; j++) s.dist.push_back(pd_get(t.p, i, j))); for (int i = 0; i < s.n; i++) s.core.push_back(pd_corev(t.p, i));
  if (t.k == 0) { checked(); for (int i = 0; i < s.n; i++) { if (s.core[i] != 0) BAD("core distance of point %d for no neighbours is %g", i, s.core[i]); } s.minpts = 2; for (int i = 0; i < s.n; i++) { double m = drv_dmax(); for (int j = 0; j < s.n; j++) if (j != i) m = std::min(m, s.dist[(size_t)(i * s.n + j)]); s.core[i] = m; } }
  string e = oracle_dist(s, d); if (!e.empty()) BAD("%s", e.c_str()); for (double v : s.core) note_bytes(&v, 8); for (double v : s.dist) note_bytes(&v, 8);
}
void check_graph(Ctx& x, Graph& g, const Op& o) {
  checked(); if (pg_nv(g.p) != g.n) BAD("the graph has %lld vertices, expected %ld", pg_nv(g.p), g.n); if (pg_m(g.p) != (i64)g.e.size()) BAD("the graph has %lld edges, expected %zu", pg_m(g.p), g.e.size());
  vector<Edge> got; for (i64 i = 0; i < (i64)g.e.size(); i++) { i64 a, b; Edge e; pg_edge(g.p, i, &a, &b, &e.w); e.a = (long)a; e.b = (long)b; got.push_back(e); } if (!(got == g.e)) { for (size_t i = 0; i < got.size(); i++) if (!(got[i] == g.e[i])) BAD("edge %zu is %ld-%ld of weight %g, expected %ld-%ld of weight %g", i, got[i].a, got[i].b, got[i].w, g.e[i].a, g.e[i].b, g.e[i].w); }
  if (g.how == 2) { if (cpp_graph_nv(g.p) != g.n || cpp_graph_m(g.p) != (i64)g.e.size()) BAD("seen from C++ the graph has %lld vertices and %lld edges", cpp_graph_nv(g.p), cpp_graph_m(g.p)); for (i64 i = 0; i < (i64)g.e.size(); i++) { i64 a, b; Edge e; cpp_graph_edge(g.p, i, &a, &b, &e.w); e.a = (long)a; e.b = (long)b; if (!(e == g.e[(size_t)i])) BAD("seen from C++ edge %lld is %ld-%ld of weight %g", i, e.a, e.b, e.w); } }
  for (long v = 0; v < g.n; v++) { vector<i64> b(g.e.size() * 2 + 2); i64 n = pg_adj(g.p, v, b.data(), (i64)b.size()); if (n != (i64)g.adj[(size_t)v].size()) BAD("vertex %ld has %lld neighbours, expected %zu", v, n, g.adj[(size_t)v].size()); vector<long> l(b.begin(), b.begin() + n), w = g.adj[(size_t)v]; std::sort(l.begin(), l.end()); std::sort(w.begin(), w.end()); if (l != w) BAD("the neighbours of vertex %ld are wrong", v); for (long q : l) note((uint64_t)q); }
  for (auto& e : got) { note((uint64_t)e.a); note((uint64_t)e.b); note_bytes(&e.w, 8); }
}
void check_cluster(Ctx& x, Clus& c, const Op& o) {
  if (c.broken) return; checked(); drv_cl g; i64 con, pcon; void* par; pc_get(c.p, &g, &con, &pcon, &par); void* want = c.parent.empty() ? nullptr : x.cl[c.parent].p;
  if (g.label != c.label || g.npoints != c.n || par != want || (g.kids != 0) != c.kids || con != c.con || pcon != c.pcon || g.offset != 0) BAD("cluster %ld has label %lld, %lld points, children %d, %lld/%lld constraints; expected %ld points, children %d, %ld/%ld constraints%s", c.label, g.label, g.npoints, g.kids, con, pcon, c.n, (int)c.kids, c.con, c.pcon, par != want ? " and another parent" : "");
  if (!close_to(g.birth, c.birth) || !close_to(g.death, c.death) || !close_to(g.stability, c.stab) || !close_to(g.pstab, c.pstab) || !close_to(g.plow, c.plow)) BAD("cluster %ld has birth %g, death %g, stability %.12g, propagated stability %.12g, lowest death %g; expected %g, %g, %.12g, %.12g, %g", c.label, g.birth, g.death, g.stability, g.pstab, g.plow, c.birth, c.death, c.stab, c.pstab, c.plow);
  vector<void*> d(c.desc.size() + 64); i64 n = pc_desc(c.p, d.data(), (i64)d.size()); if (n != (i64)c.desc.size()) BAD("cluster %ld keeps %lld descendants, expected %zu", c.label, n, c.desc.size()); std::multiset<void*> a(d.begin(), d.begin() + n), b; for (auto& q : c.desc) b.insert(x.cl[q].p); if (a != b) BAD("cluster %ld keeps other descendants than expected", c.label);
  if (c.released) { if (pc_vsize(c.p) >= 0) BAD("the virtual child of cluster %ld is still there", c.label); } else { if (pc_vsize(c.p) != (i64)c.virt.size()) BAD("the virtual child of cluster %ld holds %lld points, expected %zu", c.label, pc_vsize(c.p), c.virt.size()); for (long q = 0; q < 24; q++) { int r = 0; SUTQ("cluster_virtual_child_contains_point", 20000, r = pc_vhas(c.p, q)); if ((r != 0) != (c.virt.count(q) > 0)) BAD("the virtual child of cluster %ld reports point %ld as %d", c.label, q, r); } }
  note_bytes(&g.stability, 8); note_bytes(&g.pstab, 8); note((uint64_t)g.npoints); note((uint64_t)n);
}
void check_all(Ctx& x, const Op& o) { for (auto& t : x.tab) if (t.second.p) check_table(x, t.second, o); for (auto& g : x.gr) if (g.second.p) check_graph(x, g.second, o); for (auto& c : x.cl) check_cluster(x, c.second, o); }

void drop_table(Table& t) { if (t.how == 2) SUT("Distance::~Distance", 40000, cpp_dist_delete(t.p)); else if (t.how == 1) { SUT("distance_clean", 40000, pd_clean(t.p)); user_free(t.p); } else SUT("distance_destroy", 40000, pd_destroy(t.p)); t.p = nullptr; }
void drop_graph(Graph& g) { uint64_t l = 60000 + 4000 * (uint64_t)(g.n + 1); if (g.how == 2) SUT("UndirectedGraph::~UndirectedGraph", l, cpp_graph_delete(g.p)); else if (g.how == 1) { SUT("graph_clean", l, pg_clean(g.p)); user_free(g.p); } else SUT("graph_destroy", l, pg_destroy(g.p)); g.p = nullptr; }
void drop_cluster(Clus& c) { if (c.at) { SUT("set_delete", 60000, pc_free_parts(c.p)); user_free(c.p); } else SUT("cluster_destroy", 60000, pc_destroy(c.p)); c.p = nullptr; }

void step(Ctx& x, const Op& o) {
  const string& op = o.name(); if (op == "arm" || op == "armp") { x.armed = op; x.arm_at = (uint64_t)o.i(1); return; }
  string how = x.armed; x.armed.clear(); bool arm = !how.empty(), fired = false; size_t live0 = 0;
  auto start = [&]() { live0 = live_count(); if (arm) { if (how == "arm") arm_alloc_failures({x.arm_at}, -1); else arm_alloc_failures({}, (int64_t)x.arm_at); let_new_fail(true); } };
  auto stop = [&]() { if (arm) { fired = alloc_failures_fired() > 0; disarm_alloc_failures(); if (fired) probe(PB_OOM); } };
  auto refused = [&]() { if (!fired) BAD("failed although memory was there"); if (!multi_callers && live_count() != live0) BAD("a call that failed left %zd more blocks allocated", (ssize_t)(live_count() - live0)); };
#define CALL(nm, lim, ...) do { start(); SUT(nm, lim, __VA_ARGS__); stop(); } while (0)
  auto data = [&](size_t k) -> int { int i = (int)o.i(k); return i >= 0 && i < (int)x.c->data.size() ? i : -1; };
  if (op[0] == 'd') { // distance tables
    if (op == "dnew") { // dnew slot how data
      if (x.tab.count(o.s(1)) || data(3) < 0) return; Table t; t.how = (int)o.i(2) % 3; t.type = x.c->data[(size_t)data(3)].type; void* mem = t.how == 1 ? user_alloc(pd_sizeof()) : nullptr; if (mem) memset(mem, 0x5a, pd_sizeof());
      if (t.how == 2) { int ctor = t.type == 1 ? (int)o.i(4) % 3 : 2; CALL("Distance::Distance", 40000, t.p = cpp_dist_new(ctor, t.type)); probe(PB_CPP); } else CALL("distance_init", 40000, t.p = mem ? pd_new_at(mem, t.type) : pd_new(t.type));
      if (!t.p) { refused(); if (mem) user_free(mem); return; } if (mem && t.p != mem) BAD("did not use the memory it was given"); x.tab[o.s(1)] = t; }
    else { auto it = x.tab.find(o.s(1)); if (it == x.tab.end()) return; Table& t = it->second;
      if (op == "dcomp") { int di = data(2); if (di < 0 || x.c->data[(size_t)di].type != t.type || x.c->data[(size_t)di].n() < 1) return; const Data& d = x.c->data[(size_t)di]; long k = o.i(3); void* b = data_buffer(d); uint64_t n = (uint64_t)d.n(); if (t.data >= 0) probe(PB_AGAIN); size_t had = t.data >= 0 ? 2 : 0;
        CALL("distance_compute", 400000 + 4000 * n * n * (uint64_t)(d.dim() + 2), pd_compute(t.p, b, d.n(), d.dim(), k)); user_free(b); if (k >= d.n()) probe(PB_MANY); live0 -= had;
        if (pd_has(t.p) != 3) { if (pd_has(t.p)) BAD("kept only one of its two arrays"); t.data = -1; refused(); } else { t.data = di; t.k = k; if (!multi_callers && live_count() != live0 + 2) BAD("computing distances leaves %zd blocks, expected 2", (ssize_t)(live_count() - live0)); shared->nontrivial = 1; } }
      else if (op == "dcore") { if (t.data < 0) return; long k = o.i(2); uint64_t n = (uint64_t)x.c->data[(size_t)t.data].n(); start(); if (t.how == 2) SUT("Distance::getCoreDistances", 400000 + 4000 * n * n, cpp_dist_core(t.p, k)); else SUT("distance_get_core_distances", 400000 + 4000 * n * n, pd_core(t.p, k)); stop(); t.k = k; if (!multi_callers && live_count() != live0) BAD("left %zd more blocks allocated", (ssize_t)(live_count() - live0)); }
      else if (op == "dclean") { SUT("distance_clean", 40000, pd_clean(t.p)); t.data = -1; }
      else if (op == "dprint") { if (t.data < 0 || arm) return; uint64_t n = (uint64_t)x.c->data[(size_t)t.data].n(); SUT("distances_print", 0, pd_print(t.p)); (void)n; if (!multi_callers) (void)take_out(); }
      else if (op == "ddel") { drop_table(t); x.tab.erase(it); } }
  } else if (op[0] == 'x') { // what needs no slot
    if (op == "xnull") { start(); SUT("hdbscan_destroy", 60000, px_null()); stop(); checked(); if (!multi_callers && live_count() != live0) BAD("destroying nothing changed what is allocated"); }
    else if (op == "xcons") { int r = 0; CALL("hdbscan_destroy", 200000 + 20000 * (uint64_t)o.i(1), r = px_cons(o.i(1))); checked(); if (r < 0) BAD("a constraint does not hold what it was made with"); if (r == 0) refused(); else if (!multi_callers && live_count() != live0) BAD("a clustering object with constraints leaves %zd blocks", (ssize_t)(live_count() - live0)); }
    else if (op == "xocmp") { double v[6]; for (int i = 0; i < 6; i++) { v[i] = o.f((size_t)i + 1); if (i % 3 != 2 && drv_distance_size() == 4) v[i] = (float)v[i]; } int r = 0, s[3] = {0, 0, 0}; CALL("outlier_score_compare", 60000, r = px_ocmp(v, s)); checked(); if (r == 0) { refused(); return; } if (r < 0) BAD("a score does not hold what it was made with"); auto sg = [](double d) { return (d > 0) - (d < 0); }; int w = v[0] != v[3] ? sg(v[0] - v[3]) : v[1] != v[4] ? sg(v[1] - v[4]) : sg(v[2] - v[5]); if (sg(s[0]) != w || sg(s[1]) != -w || s[2] != 0) BAD("compares as %d and %d, with itself %d; expected the sign of %d", s[0], s[1], s[2], w); }
    else if (op == "xcmp") { // xcmp type a b: the values through the comparison functions of every type, directly and through pointers
      int ty = (int)(o.i(1) % 7); double x1 = o.f(2), y1 = o.f(3); auto whole = [&](double d) { double lo = ty == 0 ? -2147483648.0 : ty == 2 ? -32768 : ty == 5 ? -128 : -4.6e18, hi = ty == 0 ? 2147483647.0 : ty == 2 ? 32767 : ty == 5 ? 127 : 4.6e18; if (!(d == d)) d = 0; return (i64)std::max(lo, std::min(hi, d)); };
      i64 a = whole(x1), b = whole(y1); if (ty == 3) { a += o.i(4); b += o.i(5); } if (ty == 4) { x1 = (float)x1; y1 = (float)y1; } if (x1 != x1) x1 = 0; if (y1 != y1) y1 = 0; auto sg = [](auto p, auto q) { return (p > q) - (p < q); }; int w = ty == 1 || ty == 4 ? sg(x1, y1) : ty == 6 ? sg(a & 3, b & 3) : sg(a, b);
      for (int bp = 0; bp < (ty == 6 ? 1 : 2); bp++) for (int sw = 0; sw < 2; sw++) { int r = 0; SUT("comparing", 20000, r = sw ? px_cmp(ty, b, a, y1, x1, bp) : px_cmp(ty, a, b, x1, y1, bp)); checked(); if (sg(r, 0) != (sw ? -w : w)) BAD("comparing%s gives %d, expected the sign of %d", bp ? " through pointers" : "", r, sw ? -w : w); } }
  } else if (op[0] == 'g') {
    if (op == "gnew") { // gnew slot how vertices a b w ...
      if (x.gr.count(o.s(1))) return; Graph g; g.how = (int)o.i(2) % 3; g.n = o.i(3); g.adj.resize((size_t)g.n); vector<i64> a, b; vector<double> w; for (size_t i = 4; i + 2 < o.a.size(); i += 3) { Edge e{o.i(i), o.i(i + 1), o.f(i + 2)}; if (e.a < 0 || e.b < 0 || e.a >= g.n || e.b >= g.n) continue; if (drv_distance_size() == 4) e.w = (float)e.w; g.e.push_back(e); a.push_back(e.a); b.push_back(e.b); w.push_back(e.w); g.adj[(size_t)e.a].push_back(e.b); if (e.a != e.b) g.adj[(size_t)e.b].push_back(e.a); else probe(PB_SELF); }
      void* l[3]; uint64_t lim = 200000 + 8000 * (uint64_t)(g.n + 1) + 20000 * (uint64_t)(a.size() + 1); SUT("array_list_append", lim, pg_lists((i64)a.size(), a.data(), b.data(), w.data(), l)); void* mem = g.how == 1 ? user_alloc(pg_sizeof()) : nullptr; if (mem) memset(mem, 0x5a, pg_sizeof());
      if (g.how == 2) { SUT("UndirectedGraph::UndirectedGraph", 40000, mem = cpp_graph_new(); pg_clean(mem)); probe(PB_CPP); }
      CALL("graph_init", lim, g.p = pg_init(mem, g.n, l)); if (!g.p) { refused(); SUT("array_list_delete", 40000, pg_lists_free(l)); if (g.how == 1) user_free(mem); if (g.how == 2) SUT("UndirectedGraph::~UndirectedGraph", lim, cpp_graph_delete(mem)); return; }
      if (mem && g.p != mem) BAD("did not use the memory it was given"); x.gr[o.s(1)] = g; shared->nontrivial = 1; }
    else if (op == "gempty") { void* g = nullptr; CALL("UndirectedGraph::UndirectedGraph", 60000, g = cpp_graph_new()); if (!g) { refused(); return; } probe(PB_CPP); SUT("UndirectedGraph::~UndirectedGraph", 60000, cpp_graph_delete(g)); if (!multi_callers && live_count() != live0) BAD("creating and destroying an empty graph leaves %zd blocks", (ssize_t)(live_count() - live0)); }
    else { auto it = x.gr.find(o.s(1)); if (it == x.gr.end()) return; Graph& g = it->second; uint64_t m = g.e.size();
      if (op == "gsort") { long which = o.i(2); size_t s = 0, e = m; uint64_t lim = 100000 + 6000 * (m + 1) * (m + 1); if (which && m) { s = (size_t)o.i(3) % m; e = s + 1 + (size_t)o.i(4) % (m - s); }
        start(); if (which) { if (m) SUT("graph_quicksort", lim, pg_sort2(g.p, (i64)s, (i64)e - 1)); } else SUT("graph_quicksort_by_edge_weight", lim, pg_sort(g.p)); stop(); if (!multi_callers && live_count() != live0) BAD("left %zd more blocks allocated", (ssize_t)(live_count() - live0)); if (pg_m(g.p) != (i64)m) BAD("%lld edges left of %zu", pg_m(g.p), g.e.size());
        vector<Edge> got; for (i64 i = 0; i < (i64)m; i++) { i64 a, b; Edge q; pg_edge(g.p, i, &a, &b, &q.w); q.a = (long)a; q.b = (long)b; got.push_back(q); } for (size_t i = s + 1; i < e; i++) { if (got[i].w < got[i - 1].w) BAD("edge %zu of weight %g follows one of %g", i, got[i].w, got[i - 1].w); if (got[i].w == got[i - 1].w) probe(PB_TIES); } vector<Edge> p = got, q = g.e; std::sort(p.begin() + (long)s, p.begin() + (long)e); std::sort(q.begin() + (long)s, q.begin() + (long)e); if (!(p == q)) BAD("the sorted edges are not the edges there were"); g.e = got; }
      else if (op == "grem") { if (g.n < 1) return; long a = o.i(2) % g.n, b = o.i(3) % g.n; if (o.i(4) && m) { a = g.e[(size_t)o.i(2) % m].a; b = g.e[(size_t)o.i(2) % m].b; if (o.i(3) % 2) std::swap(a, b); } CALL("graph_remove_edge", 60000 + 4000 * (m + 1), pg_remove(g.p, a, b)); auto rm = [&](long u, long v) { auto& l = g.adj[(size_t)u]; auto f = std::find(l.begin(), l.end(), v); if (f != l.end()) l.erase(f); }; rm(a, b); rm(b, a); if (!multi_callers && live_count() != live0) BAD("left %zd more blocks allocated", (ssize_t)(live_count() - live0)); }
      else if (op == "gprint") { if (arm) return; SUT("graph_print", 0, pg_print(g.p)); if (!multi_callers) (void)take_out(); }
      else if (op == "gdel") { drop_graph(g); x.gr.erase(it); } }
  } else if (op[0] == 'c') {
    if (op == "cnew") { // cnew slot at label parent birth points
      if (x.cl.count(o.s(1))) return; Clus c; c.at = o.i(2); c.label = o.i(3); string par = o.s(4); if (par == "-" || !x.cl.count(par)) par.clear(); c.parent = par; c.birth = o.f(5); if (drv_distance_size() == 4) c.birth = (float)c.birth; c.n = o.i(6); c.plow = drv_dmax(); void* mem = c.at ? user_alloc(pc_sizeof()) : nullptr; if (mem) memset(mem, 0x5a, pc_sizeof());
      CALL("cluster_init", 60000, c.p = pc_init(mem, c.label, par.empty() ? nullptr : x.cl[par].p, c.birth, c.n)); if (!c.p) { refused(); if (mem) user_free(mem); } else { if (!par.empty()) x.cl[par].kids = true; x.cl[o.s(1)] = c; shared->nontrivial = 1; } }
    else { auto it = x.cl.find(o.s(1)); if (it == x.cl.end()) return; Clus& c = it->second; if (c.broken) return;
      if (op == "cdet") { long k = std::min(o.i(2), c.n); double lev = o.f(3); if (drv_distance_size() == 4) lev = (float)lev; int r = 0; CALL("cluster_detach_points", 20000, r = pc_detach(c.p, k, lev)); if (r != 1) BAD("returned %d", r); c.n -= k; if (drv_distance_size() == 4) c.stab = (float)((float)c.stab + (float)((float)k * (1 / (float)lev - 1 / (float)c.birth))); else c.stab += (double)k * (1 / lev - 1 / c.birth); if (!c.n) c.death = lev; }
      else if (op == "cprop") { Clus* p = c.parent.empty() ? nullptr : &x.cl[c.parent]; if (p && p->broken) return; int r = 0; CALL("cluster_propagate", 60000 + 6000 * (uint64_t)(c.desc.size() + (p ? p->desc.size() : 0)), r = pc_propagate(c.p)); if (r != 1) { refused(); c.broken = true; if (p) p->broken = true; return; }
        if (c.plow == drv_dmax()) c.plow = c.death; if (p) { if (c.plow < p->plow) p->plow = c.plow; bool self = !c.kids || c.con > c.pcon || (c.con == c.pcon && c.stab >= c.pstab); if (c.kids && c.con == c.pcon && std::isnan(c.stab)) self = false; double add = self ? c.stab : c.pstab; p->pcon += self ? c.con : c.pcon; p->pstab = drv_distance_size() == 4 ? (float)((float)p->pstab + (float)add) : p->pstab + add; if (self) p->desc.push_back(o.s(1)); else { p->desc.insert(p->desc.end(), c.desc.begin(), c.desc.end()); probe(PB_DESC); } } }
      else if (op == "cvadd") { if (c.released) return; vector<i64> v; for (size_t i = 2; i < o.a.size(); i++) v.push_back(o.i(i)); void* s = nullptr; SUT("set_insert", 200000, s = pi_set((i64)v.size(), v.data())); int r = 0; CALL("cluster_add_points_to_virtual_child_cluster", 100000, r = pc_vadd(c.p, s)); SUT("set_delete", 40000, ct_set_del(s)); live0 -= 2; if (r != 1) { if (!fired) BAD("returned %d", r); c.broken = true; } else for (i64 q : v) c.virt.insert((long)q); }
      else if (op == "ccon") { CALL("cluster_add_constraints_satisfied", 20000, pc_con(c.p, o.i(2))); c.con += o.i(2); if (o.i(2)) probe(PB_CONS); }
      else if (op == "cvcon") { CALL("cluster_add_virtual_child_constraints_satisfied", 20000, pc_vcon(c.p, o.i(2))); c.pcon += o.i(2); }
      else if (op == "crel") { if (c.released) return; CALL("cluster_release_virtual_child", 40000, pc_release(c.p)); c.released = true; probe(PB_RELEASE); }
      else if (op == "ccmp") { auto b = x.cl.find(o.s(2)); if (b == x.cl.end()) return; int r = 0; SUT("cluster_compare", 20000, r = pc_compare(c.p, b->second.p)); checked(); if ((r > 0) != (c.label > b->second.label) || (r < 0) != (c.label < b->second.label)) BAD("comparing labels %ld and %ld gave %d", c.label, b->second.label, r); } }
  }
  check_all(x, o);
}
}
string gen_parts(const string& prop, Rng& r, const string& variant, long index) {
  (void)index; int T = r.chance(1, 6) ? 2 : 1; Config c = random_config(r, T > 1 || r.chance(2, 3), true, false); c.races = r.chance(1, 2); c.memcheck = true; bool sh = drv_label_size() == 2; (void)sh; bool oom = T == 1 && r.chance(1, 2);
  string s = "case parts prop=" + prop + "\n" + cfg_text(c); vector<Data> ds; DataProfile dp; dp.maxn = 20; int nd = r.range(1, 3); for (int i = 0; i < nd; i++) { DataProfile q = dp; if (i && r.chance(1, 3)) q.small = true; Data d = gen_data(r, q); if (i && r.chance(2, 3)) { int want = ds[0].type; for (int k = 0; k < 20 && d.type != want; k++) d = gen_data(r, q); } ds.push_back(d); s += data_text(i, d); }
  for (int t = 0; t < T; t++) { string th = std::to_string(t); auto arm = [&]() { if (oom && r.chance(1, 2)) s += "op " + th + (r.chance(1, 3) ? " armp " : " arm ") + std::to_string(r.chance(1, 2) ? r.below(4) : r.below(30)) + "\n"; };
    int focus = (int)r.below(4); int n = r.range(4, 24); int clusters = 0; vector<string> order;
    for (int i = 0; i < n; i++) { int q = focus < 3 && r.chance(3, 4) ? focus : (int)r.below(3); string p = string(1, (char)('a' + t)) + std::to_string(r.below(2)); arm();
      if (r.chance(1, 14)) { auto sc = [&]() { return num(r.chance(1, 8) ? (r.chance(1, 2) ? INFINITY : -INFINITY) : r.chance(1, 2) ? (double)r.below(3) : r.chance(1, 2) ? 0.5 + r.unit() * 1e-14 : -1e-300 * r.unit()); }; switch (r.below(6)) { case 4: case 5: { auto v = [&]() { switch (r.below(6)) { case 0: return (double)r.below(4); case 1: return -(double)r.below(4); case 2: return (double)(1ll << r.below(62)) * (r.chance(1, 2) ? 1 : -1); case 3: return r.chance(1, 2) ? 1e30 : -1e30; case 4: return (double)r.below(70000) - 35000; default: return r.unit() * 4 - 2; } }; double a = v(), b = r.chance(1, 4) ? a + (r.chance(1, 2) ? 1e-7 : 65536.0 * (double)r.below(3)) : v(); s += "op " + th + strf(" xcmp %d ", (int)r.below(7)) + num(a) + " " + num(b) + strf(" %d %d\n", (int)r.below(3), (int)r.below(3)); break; } case 0: s += "op " + th + " xnull\n"; break; case 1: s += "op " + th + strf(" xcons %d\n", (int)r.below(6)); break; default: s += "op " + th + " xocmp " + sc() + " " + sc() + strf(" %d ", (int)r.below(r.chance(1, 4) ? 60000 : 4)); { string f = sc(); s += f + " " + sc() + strf(" %d\n", (int)r.below(4)); } } continue; }
      if (q == 0) { string sl = "d" + p; int di = (int)r.below((uint64_t)nd); int N = ds[(size_t)di].n(); switch (r.below(8)) { case 0: s += "op " + th + strf(" dnew %s %d %d %d\n", sl.c_str(), (int)r.below(3), (int)r.below((uint64_t)nd), (int)r.below(3)); break; case 1: case 2: case 3: { if (i < 3) s += "op " + th + strf(" dnew %s %d %d %d\n", sl.c_str(), (int)r.below(3), di, (int)r.below(3)); arm(); s += "op " + th + strf(" dcomp %s %d %d\n", sl.c_str(), di, r.chance(1, 8) ? 0 : r.chance(1, 6) ? N + (int)r.below(3) - 1 : 1 + (int)r.below((uint64_t)std::max(1, N))); break; } case 4: case 5: s += "op " + th + strf(" dcore %s %d\n", sl.c_str(), r.chance(1, 8) ? 0 : r.chance(1, 6) ? N + (int)r.below(3) - 1 : 1 + (int)r.below((uint64_t)std::max(1, N))); break; case 6: s += "op " + th + (r.chance(1, 3) ? " dprint " : " dclean ") + sl + "\n"; break; default: s += "op " + th + " ddel " + sl + "\n"; } }
      else if (q == 1) { string sl = "g" + p; switch (r.below(8)) { case 0: case 1: { int nv = r.chance(1, 12) ? 0 : 1 + (int)r.below(14), m = nv ? (int)r.below(r.chance(1, 8) ? 60 : 24) : 0, style = (int)r.below(6); if (nv && r.chance(1, 24)) { m = r.range(60, 330); nv = r.range(40, 90); style = r.chance(1, 2) ? 5 : style; } string e; std::set<int> self; vector<double> deep; if (style == 5) deep = sort_depth((size_t)m, 1 + (int)r.below(3)); for (int k = 0; k < m; k++) { int a = (int)r.below((uint64_t)nv), b = (int)r.below((uint64_t)nv); if (a == b && !self.insert(a).second) continue; double w = style == 0 ? (double)r.below(4) : style == 1 ? r.unit() * 10 : style == 2 ? k : style == 3 ? m - k : style == 5 ? deep[(size_t)k] : r.chance(1, 6) ? INFINITY : (double)r.below(100) / 8; e += strf(" %d %d ", a, b) + num(w); } s += "op " + th + strf(" gnew %s %d %d", sl.c_str(), (int)r.below(3), nv) + e + "\n"; break; } case 2: case 3: s += "op " + th + strf(" gsort %s %d %d %d\n", sl.c_str(), (int)r.chance(1, 3), (int)r.below(100), (int)r.below(100)); break; case 4: case 5: s += "op " + th + strf(" grem %s %d %d %d\n", sl.c_str(), (int)r.below(100), (int)r.below(100), (int)r.chance(3, 4)); break; case 6: s += "op " + th + (r.chance(1, 2) ? " gempty\n" : r.chance(1, 2) ? " gprint " + sl + "\n" : " gdel " + sl + "\n"); break; default: s += "op " + th + " gdel " + sl + "\n"; } }
      else { auto any = [&]() { return strf("c%c%d", 'a' + t, (int)r.below((uint64_t)std::max(1, clusters))); }; auto wide_label = [&]() -> long { if (!r.chance(1, 4)) return clusters; if (drv_label_size() == 2 || r.chance(1, 2)) return (long)r.below(60000); long top = drv_label_size() == 4 ? (1L << 31) : (1L << r.range(31, 61)); return top - 40 + (long)r.below(r.chance(1, 2) ? 80 : (uint64_t)top); }; switch (r.below(9)) { case 0: case 1: case 2: { string sl = strf("c%c%d", 'a' + t, clusters); string par = clusters && r.chance(3, 4) ? any() : "-"; clusters++; s += "op " + th + strf(" cnew %s %d %ld %s ", sl.c_str(), (int)r.chance(1, 4), wide_label(), par.c_str()) + (par == "-" ? string("nan") : num((double)(1 + r.below(64)) / 4)) + strf(" %d\n", r.chance(1, 6) ? (int)r.below(60000) : (int)r.below(40)); break; } case 3: case 4: s += "op " + th + " cdet " + any() + strf(" %d ", r.chance(1, 3) ? 99999 : r.chance(1, 6) ? (int)r.below(50000) : (int)r.below(12)) + num(r.chance(1, 10) ? 0.0 : (double)(1 + r.below(64)) / 8) + "\n"; break; case 5: { for (int k = clusters - 1; k >= 0; k--) if (r.chance(1, 2)) { arm(); s += "op " + th + strf(" cprop c%c%d\n", 'a' + t, k); } break; } case 6: { s += "op " + th + " cvadd " + any(); int k = (int)r.below(8); for (int j = 0; j < k; j++) s += strf(" %d", (int)r.below(24)); s += "\n"; break; } case 7: s += "op " + th + (r.chance(1, 2) ? " ccon " : " cvcon ") + any() + strf(" %d\n", (int)r.below(4)); break; default: s += r.chance(1, 3) ? "op " + th + " crel " + any() + "\n" : "op " + th + " ccmp " + any() + " " + any() + "\n"; } }
    } }
  return s;
}
void run_parts(const Case& c) {
  std::map<int, vector<Op>> by; string sm; for (auto& o : c.ops) { by[std::max(0, o.thread)].push_back(o); for (auto& w : o.a) { if (sm.size() < 1800) sm += w + " "; } sm += "; "; } snprintf(shared->sample, sizeof shared->sample, "%s: %.1800s", policy_names[c.cfg.policy], sm.c_str());
  begin(c.cfg); multi_callers = by.size() > 1; vector<std::unique_ptr<Ctx>> ctx;
  for (auto& t : by) { auto* x = new Ctx(); x->c = &c; x->thread = t.first; ctx.emplace_back(x); const vector<Op>* ops = &t.second;
    spawn([x, ops]() { for (auto& o : *ops) step(*x, o); for (auto& t : x->tab) drop_table(t.second); for (auto& g : x->gr) drop_graph(g.second); for (auto& q : x->cl) drop_cluster(q.second); }); }
  run_all();
  if (live_count()) { auto b = live_blocks(); fail("leak", strf("%zu blocks (%zu bytes) still allocated after everything was destroyed; first is allocation %lu of %zu bytes", b.size(), live_bytes(), (unsigned long)b[0].ord, b[0].size)); }
  finish_ok();
}
