// Hierarchy export under I/O faults (C21) and the logger under threads, clocks and faults (C22).
#include "common.hpp"
#include <ctime>
using namespace sim;
namespace {
enum Probe { PB_OPEN, PB_SHORT, PB_FULL, PB_CLOSE, PB_REAL, PB_STDOUT, PB_LONG, PB_BADTIME, PB_OOM, PB_MIXED };
struct Hier { void* h = nullptr; void* obj = nullptr; int n = 0; vector<Level> lv; };
struct LogMsg { int type; string text; vector<int64_t> times; bool faulted; bool oom; };
struct World { const Case* c; std::map<string, Hier> slots; std::map<int, vector<LogMsg>> sent; bool single = true; };
struct Th { World* w; int thread; vector<Op> ops; string io; bool arm = false; uint64_t arm_at = 0; };
string where(const Th& t, const Op& o) { string s = strf("thread %d:", t.thread); for (auto& x : o.a) s += " " + x.substr(0, 80); return s; }
string unesc(const string& s) { string o; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; } return o == "-" ? "" : o; }
string esc(const string& s) { string o; for (unsigned char c : s) { if (c <= 32 || c >= 127 || c == '\\') o += strf("\\%02x", c); else o += (char)c; } return o.empty() ? "-" : o; }
vector<Level> read_hier(void* h, int n) { vector<Level> v; i64 k = drv_hier_levels(h); vector<i64> lab((size_t)n + 1); for (i64 i = 0; i < k; i++) { i64 key; double w; if (!drv_hier_level(h, i, &key, &w, lab.data(), n)) { v.push_back({-999, 0, {}}); continue; } v.push_back({(long)key, w, vector<long>(lab.begin(), lab.begin() + n)}); } return v; }
bool same(const vector<Level>& a, const vector<Level>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) { if (a[i].key != b[i].key || a[i].lab != b[i].lab) return false; if (!(a[i].w == b[i].w || (std::isnan(a[i].w) && std::isnan(b[i].w)))) return false; } return true; }
bool weight_ok(double want, const string& t) { char* e; if (t.empty()) return false; double g = strtod(t.c_str(), &e); while (*e == ' ') e++; if (*e) return false; if (std::isnan(want)) return std::isnan(g); if (std::isinf(want)) return g == want; return std::fabs(g - want) <= 1e-15 + std::fabs(want) * 1e-15; }
string check_vis(const string& d, size_t levels) { // the last number in the file is the number of levels
  std::istringstream in(d); string t, last; while (in >> t) last = t; if (last != std::to_string(levels)) return strf("the visualization file ends with '%.40s', expected %zu levels", last.c_str(), levels); if (d.empty() || d.back() != '\n') return "the visualization file does not end with a complete line"; return ""; }
string check_csv(const string& d, const vector<Level>& lv, int n) {
  vector<string> lines; size_t p = 0; while (p < d.size()) { size_t e = d.find('\n', p); if (e == string::npos) return "the hierarchy file ends within a line"; lines.push_back(d.substr(p, e - p)); p = e + 1; }
  if (lines.size() != lv.size()) return strf("the hierarchy file has %zu lines, expected %zu levels", lines.size(), lv.size());
  for (size_t i = 0; i < lv.size(); i++) { vector<string> f; std::istringstream in(lines[i]); string t; while (std::getline(in, t, ',')) f.push_back(t); if ((int)f.size() != n + 1) return strf("line %zu of the hierarchy file has %zu fields, expected %d", i, f.size(), n + 1); if (!weight_ok(lv[i].w, f[0])) return strf("line %zu gives threshold '%.40s', expected %.17g", i, f[0].c_str(), lv[i].w); for (int j = 0; j < n; j++) { char* e; long g = strtol(f[j + 1].c_str(), &e, 10); if (*e || f[j + 1].empty() || g != lv[i].lab[j]) return strf("line %zu gives label '%.40s' for point %d, expected %ld", i, f[j + 1].c_str(), j, lv[i].lab[j]); } }
  return "";
}
void apply_io(Th& t) { vector<std::pair<int, int>> f; int64_t cap = -1; std::istringstream in(t.io); string x; if (in >> x) cap = atoll(x.c_str()); while (in >> x) f.push_back({atoi(x.c_str()), atoi(x.substr(x.find(':') + 1).c_str())}); if (cap >= 0) { int64_t used = 0; for (auto& n : file_names()) used += (int64_t)file_data(n).size(); cap += used; } io_fault_set(f, cap); }
void step(Th& t, const Op& o) {
  World& w = *t.w; const string& op = o.name();
  if (op == "fault") { t.io.clear(); for (size_t i = 1; i < o.a.size(); i++) t.io += o.a[i] + " "; if (o.a.size() == 1) t.io = "-1"; return; }
  if (op == "arm") { t.arm = true; t.arm_at = (uint64_t)o.i(1); return; }
  if (op == "put") { file_put(unesc(o.s(1)), unesc(o.s(2))); return; }
  // ---- hierarchies
  if (op == "hier") { // hier slot points seed
    if (w.slots.count(o.s(1))) return; Hier h; h.n = (int)o.i(2); Rng r((uint64_t)o.i(3)); int L = h.n <= 40 && r.chance(1, 24) ? 14 + (int)r.below(400) : (int)r.below(14); vector<i64> keys, lab; vector<double> ws; std::set<long> ks; for (int i = 0; i < L; i++) ks.insert(L > 14 || r.chance(1, 10) ? (long)r.below(1000000) : (long)r.below(40)); vector<long> kv(ks.begin(), ks.end()); L = (int)kv.size(); vector<long> order = kv; for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
    for (long k : order) { keys.push_back(k); double x; switch (r.below(8)) { case 0: x = 0; break; case 1: x = drv_dmax(); break; case 2: x = (double)r.below(1000) / 8; break; case 3: x = r.unit() * 1e-9; break; case 4: x = INFINITY; break; default: x = r.unit() * 100; } if (drv_distance_size() == 4) x = (float)x; ws.push_back(x); for (int j = 0; j < h.n; j++) lab.push_back(r.chance(1, 20) ? (i64)(r.chance(1, 8) && drv_label_size() > 2 ? r.below(4294967296ull) : r.below(65535)) : (i64)r.below(9)); }
    for (size_t i = 0; i < order.size(); i++) h.lv.push_back({order[i], ws[i], vector<long>(lab.begin() + (long)(i * (size_t)h.n), lab.begin() + (long)((i + 1) * (size_t)h.n))}); std::sort(h.lv.begin(), h.lv.end(), [](const Level& a, const Level& b) { return a.key < b.key; });
    SUT("hashtable_insert", 4000000 + 20000 * (uint64_t)L + 400 * (uint64_t)(L * h.n), h.h = drv_hier_make(L, h.n, keys.data(), ws.data(), lab.data())); w.slots[o.s(1)] = h; return; }
  if (op == "object") { // object slot data minPts
    if (w.slots.count(o.s(1))) return; int di = (int)o.i(2); if (di < 0 || di >= (int)w.c->data.size() || w.c->data[(size_t)di].n() < 1) return; const Data& d = w.c->data[(size_t)di]; Hier h; int r = 0; void* b = data_buffer(d); SUT("hdbscan_init", 200000, h.obj = drv_init(o.i(3, 3))); SUT("hdbscan_run", 0, r = drv_run(h.obj, b, (i64)d.pts.size(), d.cols, d.rowwise, d.type)); user_free(b); if (r) { SUT("hdbscan_destroy", 0, drv_destroy(h.obj)); return; }
    Snap s = snapshot(h.obj); h.n = s.n; h.lv = s.hier; w.slots[o.s(1)] = h; probe(PB_REAL); return; }
  if (op == "export") { // export slot name
    auto it = w.slots.find(o.s(1)); if (it == w.slots.end()) return; Hier& h = it->second; string name = unesc(o.s(2)); bool null = o.s(2) == "NULL"; void* nm = nullptr; if (!null) { nm = user_alloc(name.size() + 1); memcpy(nm, name.c_str(), name.size() + 1); }
    std::map<string, string> before; for (auto& f : file_names()) before[f] = file_data(f); size_t live = live_count(); if (w.single) apply_io(t); t.io.clear(); string so = w.single ? take_out() : "";
    uint64_t lim = w.single ? 300000 + 3000 * (uint64_t)(h.lv.size() + 1) * (uint64_t)(h.n + 4) + 200 * name.size() : 0; if (h.obj) SUT("hdbscan_print_hierarchies", lim, drv_export(h.obj, (char*)nm)); else SUT("hdbscan_print_hierarchies", lim, drv_hier_export(h.h, h.n, (char*)nm));
    if (nm) { if (memcmp(nm, name.c_str(), name.size() + 1)) fail("export:name", where(t, o) + ": the caller's name was changed"); user_free(nm); }
    checked(); shared->nontrivial = 1; if (name.size() > 200) probe(PB_LONG); vector<Level> now = h.obj ? snapshot(h.obj).hier : read_hier(h.h, h.n); if (!same(now, h.lv)) fail("export:hierarchy-changed", where(t, o) + ": the hierarchy changed"); note(now.size());
    if (!w.single) return;
    if (open_streams()) fail("export:stream-left-open", where(t, o) + strf(": %d streams are still open", open_streams())); if (live_count() != live) fail("export:leak", where(t, o) + strf(": %zu blocks allocated before the call, %zu after", live, live_count()));
    string vis = name + "_visualization.vis", csv = name + "_hierarchy.csv"; std::map<string, string> after; for (auto& f : file_names()) after[f] = file_data(f);
    for (auto& f : before) { if (!null && (f.first == vis || f.first == csv)) continue; if (!after.count(f.first) || after[f.first] != f.second) fail("export:other-file", where(t, o) + ": file '" + f.first.substr(0, 100) + "' was changed"); }
    for (auto& f : after) { if (!null && (f.first == vis || f.first == csv)) { note_bytes(f.second.data(), f.second.size()); continue; } if (!before.count(f.first)) fail("export:other-file", where(t, o) + ": file '" + f.first.substr(0, 100) + "' appeared"); }
    if (null) { probe(PB_STDOUT); io_fault_clear(); io_fault_set({}, -1); return; }
    string e; if (!file_faulted(vis)) { if (!after.count(vis)) e = "the visualization file was not written"; else e = check_vis(after[vis], h.lv.size()); } if (e.empty() && !file_faulted(csv)) { if (!after.count(csv)) e = "the hierarchy file was not written"; else e = check_csv(after[csv], h.lv, h.n); }
    if (!e.empty()) fail("export:wrong", where(t, o) + strf(" (%d points, %zu levels, %d faults on the way): ", h.n, h.lv.size(), io_faults_fired()) + e);
    if (io_faults_fired()) { if (!file_exists(vis) || !file_exists(csv)) probe(PB_OPEN); probe(PB_SHORT); } io_fault_set({}, -1); return; }
  if (op == "drop") { auto it = w.slots.find(o.s(1)); if (it == w.slots.end()) return; if (it->second.obj) SUT("hdbscan_destroy", 0, drv_destroy(it->second.obj)); else SUT("hashtable_destroy", 0, drv_hier_free(it->second.h)); w.slots.erase(it); return; }
  // ---- logger
  if (op == "init" || op == "close") { bool in = op == "init"; if (in) { apply_io(t); t.io.clear(); } string keep = w.single ? out() : ""; if (t.arm) { arm_alloc_failures({}, 0); } if (in) SUT("logger_init", 200000, lg_init()); else SUT("logger_close", 200000, lg_close()); disarm_alloc_failures(); t.arm = false; if (w.single) out() = keep; if (open_streams() > 1 || (!in && open_streams())) fail("log:stream-left-open", where(t, o) + strf(": %d streams are open", open_streams())); if (in) io_fault_set({}, -1); return; }
  if (op == "log") { // log type size text
    LogMsg m; m.type = (int)o.i(1); string body = unesc(o.s(3)); long size = o.i(2); while ((long)body.size() < size) body += (char)('a' + body.size() % 23); string id = strf("<%d.%zu>", t.thread, w.sent[t.thread].size()); m.text = id + body + id + (o.i(4) ? "\n" : ""); m.faulted = m.oom = false; if (m.text.size() > 900) probe(PB_LONG);
    void* b = user_alloc(m.text.size() + 1); memcpy(b, m.text.c_str(), m.text.size() + 1); size_t live = live_count(); if (w.single) apply_io(t); t.io.clear(); size_t r0 = clock_reads().size(); uint64_t f0 = alloc_failures_fired(); if (t.arm && w.single) arm_alloc_failures({}, (int64_t)t.arm_at); t.arm = false;
    shared->nontrivial = 1; if (w.single) SUT("logger_write", 60000 + 200 * m.text.size(), lg_write(m.type, (const char*)b)); else SUTQ("logger_write", 0, lg_write(m.type, (const char*)b)); 
    if (w.single) { disarm_alloc_failures(); m.oom = alloc_failures_fired() != f0; if (m.oom) probe(PB_OOM); m.faulted = io_faults_fired() > 0; io_fault_set({}, -1); if (live_count() != live) fail("log:leak", where(t, o) + strf(": %zu blocks allocated before the call, %zu after", live, live_count())); }
    if (memcmp(b, m.text.c_str(), m.text.size() + 1)) fail("log:message-changed", where(t, o) + ": the caller's message was changed"); user_free(b);
    for (size_t i = r0; i < clock_reads().size(); i++) if (clock_reads()[i].first == self()) m.times.push_back(clock_reads()[i].second); w.sent[t.thread].push_back(m); return; }
}
// Reads the log text: it must be made of complete messages and nothing else.  Returns how many of each thread's messages were seen.
void check_log(World& w, const string& where_, const string& text, std::map<int, size_t>& next) {
  static const char* sev[] = {"FATAL", "ERROR", "INFO", "WARN"}; size_t p = 0; checked(); int lastthread = -99; int alternations = 0;
  while (p < text.size()) {
    size_t q = text.find('<', p); auto bad = [&](const string& why) { fail("log:wrong", where_ + strf(" at byte %zu: ", p) + why + ": '" + text.substr(p, 120) + "'"); };
    if (q == string::npos) { bad("text that belongs to no message"); } int th; size_t ix; if (sscanf(text.c_str() + q, "<%d.%zu>", &th, &ix) != 2) bad("text that belongs to no message");
    auto it = w.sent.find(th); if (it == w.sent.end() || ix >= it->second.size()) bad("a message nobody wrote"); const LogMsg& m = it->second[ix]; if (next[th] > ix) bad("a message appears twice or out of order"); while (next[th] < ix) { const LogMsg& x = it->second[next[th]]; if (!x.faulted && !x.oom) bad(strf("message %zu of thread %d is missing before", next[th], th)); next[th]++; } next[th]++;
    string head = text.substr(p, q - p); bool whole = text.compare(q, m.text.size(), m.text) == 0; if (!whole && !m.faulted && !m.oom) bad("the message is not complete and unmixed");
    if (m.type == 4) { if (!head.empty()) bad("text before a message without severity"); }
    else { if (head.size() > 80 || head.find('\n') != string::npos || head.find(sev[m.type]) == string::npos) bad(string("the prefix does not carry the severity ") + sev[m.type]); for (int k = 0; k < 4; k++) if (k != m.type && head.find(sev[k]) != string::npos) bad("the prefix carries another severity");
      bool ok = m.times.empty(), rep = true; for (int64_t tm_ : m.times) { struct tm x; time_t tt = (time_t)tm_; char b[80]; if (!gmtime_r(&tt, &x) || !strftime(b, sizeof b, "%F %T", &x)) { rep = false; ok = true; probe(PB_BADTIME); continue; } if (head.find(b) != string::npos) ok = true; } if (m.times.empty()) bad("the message was stamped without reading the clock"); if (!ok) bad("the time stamp is not what the clock read"); (void)rep; }
    if (th != lastthread) alternations++; lastthread = th;
    if (whole) p = q + m.text.size(); else { size_t k = 0; while (k < m.text.size() && q + k < text.size() && text[q + k] == m.text[k]) k++; p = q + k; }
  }
  if (alternations > 3) probe(PB_MIXED);
}
}
string gen_misc(const string& prop, Rng& r, const string& variant, long index) {
  bool C22 = prop == "C22"; int T = C22 ? (r.chance(1, 2) ? 1 : r.range(2, 5)) : (r.chance(1, 8) ? 2 : 1); Config c = random_config(r, T > 1, true, C22); if (T == 1) c.policy = P_SEQ; c.races = T > 1; c.memcheck = true; if (!C22) c.threads = 1 + (int)r.below(3); if (C22 && r.chance(1, 2)) c.clock_mode = (int)r.below(4); if (C22 && r.chance(1, 6)) { c.clock0 = (int64_t)(r.next() >> r.below(24)); if (r.chance(1, 4)) c.clock0 = -(c.clock0 >> 1); if (c.clock0 > INT64_MAX / 2 || c.clock0 < 0) c.clock0 /= 2; }
  string s = "case misc prop=" + prop + "\n" + cfg_text(c);
  auto ugly = [&](int k) { string o; static const char* bits[] = {"a", "b", " ", "%s", "%n", "%d%%", "/", "..", "\\", "\"", "\xc3\xa9", "'", ";", "_hierarchy.csv", "\t", "%", "x1", ".", ","}; while (k--) o += bits[r.below(19)]; return o; };
  auto plan = [&](int ops) { string p; int k = (int)r.below(4); if (k == 0) { p = strf("%d", (int)r.below(1 + r.below(4000))); } else { p = "-1"; int m = r.range(1, 3); while (m--) p += strf(" %d:%d", (int)r.below((uint64_t)ops), 1 + (int)r.below(2)); } return p; };
  if (!C22) {
    DataProfile dp; dp.maxn = 24; bool real = r.chance(1, 3); if (real) s += data_text(0, gen_data(r, dp));
    auto name = [&]() { switch (r.below(7)) { case 0: return string("-"); case 1: return esc(ugly(r.range(1, 12))); case 2: return esc(string((size_t)r.range(80, 5000), 'n')); case 3: return esc("dir/" + ugly(3)); case 4: return r.chance(1, 3) ? string("NULL") : string("h"); default: return string("h") + std::to_string(r.below(3)); } };
    if (r.chance(1, 2)) s += "op s put other kept\\0a\n"; if (r.chance(1, 3)) s += "op s put h_hierarchy.csv old\\0aold\\0a\nop s put h_visualization.vis 1\\0a77777\\0a\n"; if (r.chance(1, 3)) s += "op s put h keep\nop s put h0 keep\n";
    for (int t = 0; t < T; t++) { string th = std::to_string(t), a(1, (char)('a' + t)); int n = r.chance(1, 6) ? (int)r.below(3) : r.chance(1, 8) ? r.range(41, r.chance(1, 2) ? 300 : 2000) : r.range(1, 40); s += "op s " + string(real && t == 0 ? strf("object %s 0 %d", a.c_str(), r.range(2, 6)) : strf("hier %s %d %d", a.c_str(), n, (int)r.below(1000000))) + "\n"; 
      int k = r.range(1, 5); for (int i = 0; i < k; i++) { if (T == 1 && r.chance(2, 3)) s += "op " + th + " fault " + plan(r.chance(1, 3) ? 6 : 8 + 12 * n) + "\n"; s += "op " + th + " export " + a + " " + (T > 1 ? a + std::to_string(r.below(2)) : name()) + "\n"; } if (r.chance(2, 3)) s += "op " + th + " export " + a + " " + (T > 1 ? a : string("h")) + "\n"; }
    return s;
  }
  bool dbg = drv_debug(); if (r.chance(1, 3)) s += "op s put hdbscan.log earlier\\20text\\0a\n";
  int inits = dbg ? (int)r.below(4) : (int)r.below(2); for (int i = 0; i < inits && i < 2; i++) { if (r.chance(1, 4)) s += "op s fault -1 0:1\n"; s += "op s init\n"; }
  for (int t = 0; t < T; t++) { string th = std::to_string(t); int k = r.range(1, T > 1 ? 8 : 14); for (int i = 0; i < k; i++) {
      if (T == 1 && r.chance(1, 8)) s += "op " + th + " arm " + std::to_string(r.below(3)) + "\n"; if (T == 1 && dbg && r.chance(1, 8)) s += "op " + th + " fault " + plan(3) + "\n";
      if (T == 1 && r.chance(1, 14)) { s += "op " + th + (r.chance(1, 2) ? " close\n" : " init\n"); continue; }
      long size = r.chance(1, 8) ? (long)r.below(20000) : r.chance(1, 3) ? r.range(80, 300) : (long)r.below(60); s += "op " + th + " log " + std::to_string(r.below(5)) + " " + std::to_string(size) + " " + esc(r.chance(1, 3) ? ugly(r.range(0, 8)) : "") + " " + std::to_string(r.below(2)) + "\n"; } }
  return s;
}
void run_misc(const Case& c) {
  World w; w.c = &c; std::map<int, Th> th; string sm; for (auto& o : c.ops) { Th& t = th[o.thread]; t.w = &w; t.thread = o.thread; t.ops.push_back(o); for (auto& x : o.a) sm += x.substr(0, 60) + " "; sm += "; "; } snprintf(shared->sample, sizeof shared->sample, "%s: %.1800s", policy_names[c.cfg.policy], sm.c_str());
  begin(c.cfg); bool C22 = c.prop == "C22"; size_t callers = 0; for (auto& t : th) if (t.first >= 0) callers++;
  auto stage = [&](bool setup) { bool any = false; for (auto& t : th) if ((t.first < 0) == setup) { Th* x = &t.second; any = true; spawn([x]() { for (auto& o : x->ops) step(*x, o); }); } if (any) run_all(); };
  w.single = true; stage(true); string file0 = file_data("hdbscan.log"); (void)take_out(); w.single = callers < 2; multi_callers = callers > 1; stage(false); multi_callers = false; w.single = true;
  // exports made side by side: every file must be exact
  if (!C22 && callers > 1) { Th end; end.w = &w; end.thread = -2; std::map<string, string> files; for (auto& t : th) for (auto& o : t.second.ops) if (o.name() == "export" && w.slots.count(o.s(1))) files[unesc(o.s(2))] = o.s(1); for (auto& f : files) { const Hier& h = w.slots[f.second]; checked(); string e = !file_exists(f.first + "_visualization.vis") || !file_exists(f.first + "_hierarchy.csv") ? "a file is missing" : check_vis(file_data(f.first + "_visualization.vis"), h.lv.size()); if (e.empty()) e = check_csv(file_data(f.first + "_hierarchy.csv"), h.lv, h.n); if (!e.empty()) fail("export:concurrent", "export to '" + f.first + "': " + e); } if (open_streams()) fail("export:stream-left-open", "streams are still open after concurrent exports"); }
  if (C22) {
    std::map<int, size_t> next; string so = take_out(); string fd = file_data("hdbscan.log"); bool hadfault = false; for (auto& t : w.sent) for (auto& m : t.second) if (m.faulted) hadfault = true;
    if (fd.compare(0, file0.size(), file0)) fail("log:wrong", "earlier contents of the log file changed"); note_bytes(so.data(), so.size()); note_bytes(fd.data(), fd.size());
    // messages go to one place at a time; when the log was opened or closed in between, each message is in exactly one of them
    bool sw = false; for (auto& o : c.ops) if (o.thread >= 0 && (o.name() == "init" || o.name() == "close")) sw = true; 
    if (!hadfault && (!sw || so.empty() || fd.size() == file0.size())) { check_log(w, "log text", so.empty() ? fd.substr(file0.size()) : so, next); if (!so.empty() && fd.size() > file0.size()) { std::map<int, size_t> n2; bool all = false; (void)all; (void)n2; fail("log:wrong", "part of the messages went to the file and part to the output"); } 
      for (auto& t : w.sent) { size_t k = next[t.first]; for (; k < t.second.size(); k++) if (!t.second[k].faulted && !t.second[k].oom) fail("log:wrong", strf("message %zu of thread %d is missing at the end", k, t.first)); } }
    else { // merge by message number: every complete message is in exactly one of the two
      for (auto& t : w.sent) for (auto& m : t.second) { if (m.faulted || m.oom) continue; size_t k = 0; for (const string* x : {&so, &fd}) for (size_t p = 0; (p = x->find(m.text, p)) != string::npos; p++) k++; checked(); if (k != 1) fail("log:wrong", strf("a message appears %zu times: %.80s", k, m.text.c_str())); } }
    spawn([]() { SUT("logger_close", 200000, lg_close()); }); run_all(); if (open_streams()) fail("log:stream-left-open", "a stream is open after closing the log");
  } else { Th end; end.w = &w; end.thread = -2; spawn([&]() { vector<string> k; for (auto& s : w.slots) k.push_back(s.first); for (auto& s : k) { Op d; d.thread = -2; d.a = {"drop", s}; step(end, d); } }); run_all(); }
  if (live_count()) fail("leak", strf("%zu blocks are still allocated at the end", live_count()));
}
