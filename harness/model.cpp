// Observation of a finished object, and the executable reference model it is judged by.
#include "common.hpp"
using namespace sim;
static double EPS() { return drv_distance_size() == 4 ? 2e-5 : 1e-9; }
Snap snapshot(void* s) {
  Snap r; r.n = (int)drv_n(s); r.minpts = drv_minpts(s); int n = r.n;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r.dist.push_back(drv_dist(s, i, j));
  for (int i = 0; i < n; i++) { r.core.push_back(drv_core(s, i)); r.lab.push_back((long)drv_label(s, i)); Snap::O o; i64 id; drv_outlier(s, i, &id, &o.score, &o.core); o.id = (long)id; r.out.push_back(o); }
  for (i64 i = 0; i < drv_levels(s); i++) { Level l; i64 k; if (!drv_level(s, i, &k, &l.w)) fail("result:hierarchy", "hierarchy key without an entry"); l.key = (long)k; for (int j = 0; j < n; j++) l.lab.push_back((long)drv_level_label(s, k, j)); r.hier.push_back(l); }
  for (i64 i = 0; i < drv_clusters(s); i++) { drv_cl c; drv_cluster(s, i, &c); r.cl.push_back(c); }
  r.has_mst = drv_has_mst(s); if (r.has_mst) for (i64 e = 0; e < drv_edges(s); e++) { i64 a, b; Snap::E x; drv_edge(s, e, &a, &b, &x.w); x.a = (long)a; x.b = (long)b; r.mst.push_back(x); }
  return r;
}
static void hx(string& t, double v) { char b[40]; snprintf(b, sizeof b, " %a", v); t += b; }
string snap_text(const Snap& s) {
  string t = strf("n %d minpts %ld\n", s.n, s.minpts); t += "dist"; for (double d : s.dist) hx(t, d); t += "\ncore"; for (double d : s.core) hx(t, d); t += "\nlabels"; for (long l : s.lab) t += " " + std::to_string(l); t += "\n";
  for (auto& l : s.hier) { t += strf("level %ld", l.key); hx(t, l.w); for (long x : l.lab) t += " " + std::to_string(x); t += "\n"; }
  for (auto& c : s.cl) { if (c.null) t += "cluster null\n"; else { t += strf("cluster %lld parent %lld kids %d left %lld offset %lld", c.label, c.parent, c.kids, c.npoints, c.offset); hx(t, c.birth); hx(t, c.death); hx(t, c.stability); t += "\n"; } }
  t += "outliers"; for (auto& o : s.out) { t += " " + std::to_string(o.id); hx(t, o.score); hx(t, o.core); } t += "\nmst"; for (auto& e : s.mst) { t += strf(" (%ld,%ld", e.a, e.b); hx(t, e.w); t += ")"; } t += "\n";
  return t;
}
string oracle_dist(const Snap& s, const Data& d) {
  checked(); int n = d.n(); if (s.n != n) return strf("%d points reported for a dataset of %d", s.n, n);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
    double v = s.dist[i * n + j]; if (i == j) { if (v != 0) return strf("distance of point %d and itself is %g", i, v); continue; }
    long double q = 0; for (int k = 0; k < d.dim(); k++) { long double x = (long double)d.coord(i, k) - (long double)d.coord(j, k); q += x * x; } double e = (double)sqrtl(q);
    if (!near(v, e, d.type == 2 ? 2e-6 + EPS() : EPS() * 0.1)) return strf("distance of points %d and %d is %.17g, not %.17g", i, j, v, e);
    if (v != s.dist[j * n + i]) return strf("distance is not symmetric for points %d and %d: %.17g / %.17g", i, j, v, s.dist[j * n + i]);
    if (e > 0 && v == 0) return strf("distance of distinct points %d and %d is zero", i, j);
  }
  for (int i = 0; i < n; i++) { vector<double> v; for (int j = 0; j < n; j++) if (j != i) v.push_back(s.dist[i * n + j]); std::sort(v.begin(), v.end()); size_t k = (size_t)s.minpts - 1; double e = v.size() >= k ? v[k - 1] : drv_dmax(); if (s.core[i] != e) return strf("core distance of point %d is %.17g, not %.17g (minPts %ld, %d points)", i, s.core[i], e, s.minpts, n); }
  return "";
}
static double mrd(const Snap& s, int i, int j) { double v = s.dist[i * s.n + j]; if (s.core[i] > v) v = s.core[i]; if (s.core[j] > v) v = s.core[j]; return v; }
static vector<double> prim(const Snap& s, double* total) { // weights of a minimum spanning tree
  int n = s.n; vector<double> best(n, INFINITY), w; vector<char> in(n, 0); if (!n) return w; int c = n - 1; in[c] = 1; for (int k = 1; k < n; k++) { int p = -1; for (int j = 0; j < n; j++) if (!in[j]) { best[j] = std::min(best[j], mrd(s, c, j)); if (p < 0 || best[j] < best[p]) p = j; } in[p] = 1; w.push_back(best[p]); c = p; }
  std::sort(w.begin(), w.end()); return w;
}
string oracle_mst(const Snap& s) {
  checked(); int n = s.n; if (!s.has_mst) return "no spanning tree"; if ((int)s.mst.size() != 2 * n - 1) return strf("%zu edges for %d points", s.mst.size(), n);
  vector<int> uf(n); for (int i = 0; i < n; i++) uf[i] = i; std::function<int(int)> find = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
  vector<double> w; vector<int> self(n, 0); double last = -1;
  for (size_t e = 0; e < s.mst.size(); e++) { auto& x = s.mst[e]; if (x.a < 0 || x.b < 0 || x.a >= n || x.b >= n) return strf("edge %zu joins points %ld and %ld", e, x.a, x.b);
    if (e && x.w < last) return strf("edge %zu of weight %.17g follows one of %.17g", e, x.w, last); last = x.w;
    if (x.a == x.b) { self[x.a]++; if (x.w != s.core[x.a]) return strf("self edge of point %ld has weight %.17g, core distance %.17g", x.a, x.w, s.core[x.a]); }
    else { if (x.w != mrd(s, (int)x.a, (int)x.b)) return strf("edge %ld-%ld has weight %.17g, mutual reachability is %.17g", x.a, x.b, x.w, mrd(s, (int)x.a, (int)x.b)); int p = find((int)x.a), q = find((int)x.b); if (p == q) return strf("edge %ld-%ld closes a cycle", x.a, x.b); uf[p] = q; w.push_back(x.w); } }
  for (int i = 0; i < n; i++) if (self[i] != 1) return strf("point %d has %d self edges", i, self[i]);
  if ((int)w.size() != n - 1) return strf("%zu proper edges for %d points", w.size(), n);
  std::sort(w.begin(), w.end()); vector<double> m = prim(s, nullptr); for (size_t i = 0; i < w.size(); i++) if (w[i] != m[i]) return strf("not minimal: sorted weight %zu is %.17g, minimum is %.17g", i, w[i], m[i]);
  return "";
}
Model build_model(const Snap& s) {
  Model m; int n = s.n; m.noise.assign(n, 0); m.last.assign(n, 0); MCluster none, root; m.cl.push_back(none); root.birth_level = 0; for (int i = 0; i < n; i++) root.birth_members.push_back(i); m.cl.push_back(root); vector<int> lab(n, 1), left{0, n};
  std::set<double, std::greater<double>> ws(s.core.begin(), s.core.end()); for (double w : prim(s, nullptr)) ws.insert(w);
  for (double w : ws) {
    // connected groups of the strict sub-graph
    vector<int> comp(n, -1), cnt; for (int i = 0; i < n; i++) if (comp[i] < 0) { int c = (int)cnt.size(); cnt.push_back(0); vector<int> st{i}; comp[i] = c; while (!st.empty()) { int x = st.back(); st.pop_back(); cnt[c]++; for (int y = 0; y < n; y++) if (comp[y] < 0 && y != x && mrd(s, x, y) < w) { comp[y] = c; st.push_back(y); } } }
    vector<int> nl = lab; bool changed = false; int top = (int)m.cl.size();
    for (int c = 1; c < top; c++) {
      std::map<int, vector<int>> parts; for (int i = 0; i < n; i++) if (lab[i] == c) parts[comp[i]].push_back(i); if (parts.empty()) continue;
      int valid = 0; for (auto& p : parts) if ((long)p.second.size() >= s.minpts) valid++;
      for (auto& p : parts) {
        double q = m.cl[c].birth; bool ok = (long)p.second.size() >= s.minpts;
        if (ok && valid == 1) continue;
        changed = true; m.cl[c].stab += (double)p.second.size() * (1 / w - 1 / q); left[c] -= (int)p.second.size(); if (left[c] == 0) m.cl[c].death = w;
        if (ok) { MCluster k; k.parent = c; k.birth = w; k.birth_members = p.second; k.birth_level = (int)m.levels.size() + 1; int id = (int)m.cl.size(); m.cl[c].kids.push_back(id); m.cl.push_back(k); left.push_back((int)p.second.size()); for (int i : p.second) nl[i] = id; }
        else for (int i : p.second) { nl[i] = 0; m.noise[i] = w; m.last[i] = c; }
      }
    }
    if (changed) m.levels.push_back({w, lab}); lab = nl;
  }
  return m;
}
string oracle_hier(const Snap& s, Model& m) {
  checked(); int n = s.n; size_t L = m.levels.size(); if (s.hier.size() != L + 1) return strf("hierarchy has %zu levels, expected %zu", s.hier.size(), L + 1);
  if (s.hier[0].key != 0 || s.hier[0].w != 0) return "no final level with threshold zero numbered 0"; for (long x : s.hier[0].lab) if (x != 0) return "final level is not all noise";
  std::map<int, long> f{{0, 0}, {1, 1}}; std::map<long, int> g{{0, 0}, {1, 1}};
  for (size_t l = 0; l < L; l++) {
    const Level& h = s.hier[l + 1]; if (h.key != (long)l + 1) return strf("level %zu is numbered %ld", l + 1, h.key); if (h.w != m.levels[l].w) return strf("level %zu has threshold %.17g, expected %.17g", l + 1, h.w, m.levels[l].w);
    for (int i = 0; i < n; i++) { int a = m.levels[l].lab[i]; long b = h.lab[i]; auto p = f.find(a); auto q = g.find(b); if (p == f.end() && q == g.end()) { f[a] = b; g[b] = a; } else if (p == f.end() || q == g.end() || p->second != b || q->second != a) return strf("level %zu (threshold %.17g): point %d has label %ld, inconsistent with the density hierarchy", l + 1, h.w, i, b); }
  }
  for (auto& p : f) m.cl[p.first].impl = p.second;
  if (s.cl.size() != m.cl.size()) return strf("%zu clusters, expected %zu", s.cl.size() - 1, m.cl.size() - 1);
  for (size_t c = 1; c < m.cl.size(); c++) { long k = m.cl[c].impl; if (k < 1 || k >= (long)s.cl.size() || s.cl[k].null) return strf("no cluster record for label %ld", k); auto& x = s.cl[k]; if (x.label != k) return strf("cluster record %ld has label %lld", k, x.label); if (c > 1) { if (x.birth != m.cl[c].birth) return strf("cluster %ld born at %.17g, expected %.17g", k, x.birth, m.cl[c].birth); long pl = m.cl[m.cl[c].parent].impl; if (x.parent != pl) return strf("cluster %ld has parent %lld, expected %ld", k, x.parent, pl); } }
  return "";
}
string oracle_flat(const Snap& s, Model& m, bool strict) {
  checked(); int n = s.n; size_t C = m.cl.size(); std::map<long, int> g; for (size_t c = 1; c < C; c++) g[m.cl[c].impl] = (int)c;
  std::set<int> sel; for (int i = 0; i < n; i++) { if (s.lab[i] == 0) continue; auto it = g.find(s.lab[i]); if (it == g.end()) return strf("point %d has label %ld which is no cluster", i, s.lab[i]); sel.insert(it->second); }
  if (sel.count(1)) return "the root is selected";
  for (int c : sel) for (int p = m.cl[c].parent; p > 0; p = m.cl[p].parent) if (sel.count(p)) return strf("clusters %ld and %ld overlap", m.cl[c].impl, m.cl[p].impl);
  for (int i = 0; i < n; i++) { long e = 0; for (int c : sel) if (std::find(m.cl[c].birth_members.begin(), m.cl[c].birth_members.end(), i) != m.cl[c].birth_members.end()) e = m.cl[c].impl; if (s.lab[i] != e) return strf("point %d has label %ld, expected %ld from the selected clusters' members", i, s.lab[i], e); }
  vector<double> best(C, 0), impl(C, 0), ks(C, 0);
  for (size_t c = C; c-- > 1;) { double k = 0, ki = 0; for (int x : m.cl[c].kids) { k += best[x]; ki += impl[x]; } ks[c] = k; best[c] = m.cl[c].kids.empty() ? m.cl[c].stab : std::max(m.cl[c].stab, k); impl[c] = sel.count((int)c) ? m.cl[c].stab : ki; }
  std::function<string(int)> visit = [&](int c) -> string {
    if (sel.count(c)) { if (!m.cl[c].kids.empty() && m.cl[c].stab < ks[c] && !near(m.cl[c].stab, ks[c], EPS() * 50)) return strf("cluster %ld (stability %.17g) selected over descendants of total stability %.17g", m.cl[c].impl, m.cl[c].stab, ks[c]); return ""; }
    if (m.cl[c].kids.empty()) return strf("cluster %ld and its ancestors are not selected", m.cl[c].impl);
    if (m.cl[c].stab > ks[c] && !near(m.cl[c].stab, ks[c], EPS() * 50)) return strf("cluster %ld (stability %.17g) passed over for descendants of total stability %.17g", m.cl[c].impl, m.cl[c].stab, ks[c]);
    if (strict && m.cl[c].stab == ks[c]) return strf("cluster %ld ties with its descendants (stability %.17g) and is not selected", m.cl[c].impl, m.cl[c].stab);
    for (int k : m.cl[c].kids) { string e = visit(k); if (!e.empty()) return e; } return "";
  };
  for (int k : m.cl[1].kids) { string e = visit(k); if (!e.empty()) return e; }
  return "";
}
string oracle_outlier(const Snap& s, Model& m) {
  checked(); int n = s.n; vector<double> low(m.cl.size(), 0); for (size_t c = m.cl.size(); c-- > 1;) { low[c] = m.cl[c].death; for (int k : m.cl[c].kids) low[c] = std::min(low[c], low[k]); }
  vector<char> seen(n, 0); if ((int)s.out.size() != n) return strf("%zu scores", s.out.size());
  for (int i = 0; i < n; i++) { auto& o = s.out[i]; if (o.id < 0 || o.id >= n || seen[o.id]) return strf("score %d is for point %ld (missing or repeated)", i, o.id); seen[o.id] = 1; if (o.core != s.core[o.id]) return strf("score of point %ld carries core distance %.17g, not %.17g", o.id, o.core, s.core[o.id]);
    double d = m.noise[o.id], e = low[m.last[o.id]], x = d == 0 ? 0 : 1 - e / d; if (!near(o.score, x, EPS(), EPS())) return strf("outlier score of point %ld is %.17g, expected %.17g", o.id, o.score, x); if (!(o.score >= 0 && o.score <= 1)) return strf("outlier score of point %ld is %.17g", o.id, o.score);
    if (i) { auto& p = s.out[i - 1]; bool ok = p.score < o.score || (p.score == o.score && (p.core < o.core || (p.core == o.core && p.id < o.id))); if (!ok) return strf("scores %d and %d are out of order", i - 1, i); } }
  return "";
}
