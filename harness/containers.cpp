// Containers against plain reference sequences / maps (C10, C17-C20, parts of C12 and C24).
#include "common.hpp"
using namespace sim;
namespace {
// Element values are written as decimal text; LONG extremes are kept exact through strtol.
struct Val { char b[8]; };
void enc(int type, const string& t, void* out) {
  double d = strtod(t.c_str(), nullptr);
  switch (type) { case 0: { int v = (int)strtol(t.c_str(), nullptr, 10); memcpy(out, &v, 4); break; } case 1: memcpy(out, &d, 8); break; case 2: { float v = (float)d; memcpy(out, &v, 4); break; } case 3: { long v = strtol(t.c_str(), nullptr, 10); memcpy(out, &v, 8); break; } case 4: { short v = (short)strtol(t.c_str(), nullptr, 10); memcpy(out, &v, 2); break; } case 5: { signed char v = (signed char)strtol(t.c_str(), nullptr, 10); memcpy(out, &v, 1); break; } }
}
typedef std::string B; // encoded bytes of one element
// Types 0-5 are the numeric HTYPES, 6 a pointer to a string compared by content, 8 a record of 24 bytes, 9 three bytes.
// Strings: "17" and "17'" are the same text at two addresses.
std::map<string, void*> pool; std::set<const void*> pool_texts;
string text_of(long k) { string d = std::to_string(k); if (k == 0) return ""; switch (((k % 5) + 5) % 5) { case 0: return d; case 1: return string(40, 'x') + d; case 2: return "\xc3\xa9" + d; case 3: return d + string(9, 'y'); default: return "key" + d; } }
void* text_at(const string& t) { void*& p = pool[t]; if (!p) { string x = text_of(strtol(t.c_str(), nullptr, 10)); p = user_alloc(x.size() + 1); memcpy(p, x.c_str(), x.size() + 1); pool_texts.insert(p); } return p; }
B be(int type, const string& t) {
  if (type == 6) { void* p = text_at(t); return B((char*)&p, 8); }
  if (type == 8) { long v = strtol(t.c_str(), nullptr, 10); char b[24]; for (int i = 0; i < 16; i++) b[8 + i] = (char)(v * 31 + i * 7); memcpy(b, &v, 8); return B(b, 24); }
  if (type == 9) { long v = strtol(t.c_str(), nullptr, 10); char b[3] = {(char)v, (char)(v >> 8), (char)(v >> 16)}; return B(b, 3); }
  char b[8]; enc(type, t, b); return B(b, ct_size(type)); }
const char* str_in(const B& b) { void* p; memcpy(&p, b.data(), 8); return (const char*)p; }
long int3(const B& b) { return (long)(unsigned char)b[0] | (long)(unsigned char)b[1] << 8 | (long)(signed char)b[2] << 16; }
int cmpb(int type, const B& a, const B& b) {
  if (type == 6) { int c = strcmp(str_in(a), str_in(b)); return c < 0 ? -1 : c > 0; } if (type == 8) type = 3; if (type == 9) { long x = int3(a), y = int3(b); return x < y ? -1 : x > y; }
  switch (type) { case 0: { int x, y; memcpy(&x, a.data(), 4); memcpy(&y, b.data(), 4); return x < y ? -1 : x > y; } case 1: { double x, y; memcpy(&x, a.data(), 8); memcpy(&y, b.data(), 8); return x < y ? -1 : x > y; } case 2: { float x, y; memcpy(&x, a.data(), 4); memcpy(&y, b.data(), 4); return x < y ? -1 : x > y; } case 3: { long x, y; memcpy(&x, a.data(), 8); memcpy(&y, b.data(), 8); return x < y ? -1 : x > y; } case 4: { short x, y; memcpy(&x, a.data(), 2); memcpy(&y, b.data(), 2); return x < y ? -1 : x > y; } case 5: { signed char x = a[0], y = b[0]; return x < y ? -1 : x > y; } } return 0;
}
string show(int type, const B& b) { if (type == 6) return !pool_texts.count(str_in(b)) ? strf("the string at %p", (void*)str_in(b)) : strf("'%s'", str_in(b)); if (type == 8) return show(3, b); if (type == 9) return std::to_string(int3(b)); switch (type) { case 0: { int v; memcpy(&v, b.data(), 4); return std::to_string(v); } case 1: { double v; memcpy(&v, b.data(), 8); return num(v); } case 2: { float v; memcpy(&v, b.data(), 4); return num(v); } case 3: { long v; memcpy(&v, b.data(), 8); return std::to_string(v); } case 4: { short v; memcpy(&v, b.data(), 2); return std::to_string(v); } case 5: return std::to_string((int)(signed char)b[0]); } return "?"; }
enum { AL, SET, HT, LL };
struct Cont { int kind = -1, type = 0, dtype = 0; void* p = nullptr; vector<B> seq; vector<std::pair<B, B>> map; vector<void*> detached; bool ptrvals = false, ownkeys = false; size_t buckets = 0; };
struct Ctx { int thread; bool quiet = false; uint64_t pick = 1; std::map<string, Cont> slots; string armed; uint64_t arm_at = 0; bool oom_case = false; };
bool same_key(int type, const B& a, const B& b) { return a == b || ((type == 6 || type == 1 || type == 2) && cmpb(type, a, b) == 0); }
B ptr_bytes(void* p) { return B((char*)&p, 8); }
// arena scratch handed to the library as the caller's buffers
struct Buf { void* p; size_t n; Buf(size_t n_) : n(n_) { p = user_alloc(n ? n : 1); memset(p, 0x5a, n); } Buf(const B& b) : n(b.size()) { p = user_alloc(n ? n : 1); memcpy(p, b.data(), n); } ~Buf() { user_free(p); } B get() const { return B((char*)p, n); } };
string where(const Ctx& x, const Op& o) { string s = strf("thread %d:", x.thread); for (auto& w : o.a) s += " " + w; return s; }
#define BAD(...) fail(string("container:") + o.name(), where(x, o) + ": " + strf(__VA_ARGS__))

// which elements of n are read back after an operation: all, unless there are very many and the operation is not "verify"
vector<size_t> picks(Ctx& x, size_t n, size_t all, bool full) { vector<size_t> v; if (n <= all || full) { for (size_t i = 0; i < n; i++) v.push_back(i); return v; } Rng r(mix(x.pick++, n)); for (size_t i = 0; i < 6; i++) { v.push_back(i); v.push_back(n - 1 - i); } for (size_t q : {127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536}) if (q < n) v.push_back(q); for (int i = 0; i < 40; i++) v.push_back(r.below(n)); return v; }
void verify(Ctx& x, Cont& c, const Op& o) { // complete state of a container against its model, with the library's own read operations
  if (x.quiet) return; checked(); bool full = o.name() == "verify";
  switch (c.kind) {
    case AL: case SET: {
      size_t n = 0; int em = 0; SUTQ("size", 4000, n = c.kind == AL ? ct_al_size(c.p) : ct_set_size(c.p); em = c.kind == AL ? ct_al_empty(c.p) : ct_set_empty(c.p)); if (n != c.seq.size()) BAD("holds %zu elements, expected %zu", n, c.seq.size()); if ((em != 0) != (n == 0)) BAD("emptiness reported as %d with %zu elements", em, n);
      for (size_t i : picks(x, n, 600, full)) { Buf b(ct_size(c.type)); int r = 0; SUTQ("value_at", 8000, r = c.kind == AL ? ct_al_value_at(c.p, i, b.p) : ct_set_value_at(c.p, i, b.p)); if (r != 1 || b.get() != c.seq[i]) BAD("element %zu is %s (returned %d), expected %s", i, show(c.type, b.get()).c_str(), r, show(c.type, c.seq[i]).c_str()); if (c.type == 6) { string t = show(6, b.get()); note_bytes(t.data(), t.size()); } else note_bytes(b.p, b.n); }
      break; }
    case HT: {
      size_t n = 0, e = 0; int em = 0; SUTQ("size", 4000, n = ct_ht_size(c.p); em = ct_ht_empty(c.p)); e = ct_ht_entries(c.p); if (n != c.map.size()) BAD("size is %zu, expected %zu", n, c.map.size()); if (e != c.map.size()) BAD("entry count is %zu, expected %zu", e, c.map.size()); if ((em != 0) != (n == 0)) BAD("emptiness reported as %d with %zu entries", em, n); if (ct_ht_nkeys(c.p) != (i64)c.map.size()) BAD("key set holds %lld keys, expected %zu", ct_ht_nkeys(c.p), c.map.size());
      vector<B> ks; for (auto& kv : c.map) ks.push_back(kv.first); std::sort(ks.begin(), ks.end(), [&](const B& a, const B& b) { return cmpb(c.type, a, b) < 0; });
      for (size_t i : picks(x, n, 600, full)) { Buf b(ct_size(c.type)); int r = ct_ht_key_at(c.p, (i64)i, b.p); if (r != 1 || b.get() != ks[i]) BAD("key %zu is %s, expected %s", i, show(c.type, b.get()).c_str(), show(c.type, ks[i]).c_str()); if (c.type == 6) { const char* t = str_in(ks[i]); note_bytes(t, strlen(t)); } else note_bytes(b.p, b.n); }
      for (size_t j : picks(x, n, 600, full)) { auto& kv = c.map[j]; Buf k(kv.first), v(c.ptrvals ? 8 : ct_size(c.dtype)); int r = 0; SUTQ("lookup", 20000 + 300 * n, r = ct_ht_lookup(c.p, k.p, v.p)); if (r != 1 || v.get() != kv.second) BAD("looking up key %s returned %d with %s value", show(c.type, kv.first).c_str(), r, r == 1 ? "another" : "no"); if (k.get() != kv.first) BAD("look-up changed the caller's key"); }
      break; }
    case LL: {
      int n = ct_ll_size(c.p); if (n != (int)c.seq.size()) BAD("holds %d elements, expected %zu", n, c.seq.size()); int em = 0; SUTQ("empty", 4000, em = ct_ll_empty(c.p)); (void)em;
      size_t z = ct_size(c.type); for (int back = 0; back < 2; back++) { vector<char> w((c.seq.size() + 2) * z); i64 m = ct_ll_walk(c.p, back, w.data(), (i64)c.seq.size() + 2, c.type); if (m != (i64)c.seq.size()) BAD("a %s walk sees %lld elements, expected %zu", back ? "backward" : "forward", m, c.seq.size()); for (i64 i = 0; i < m; i++) { B b(w.data() + i * z, z); const B& e = c.seq[(size_t)(back ? m - 1 - i : i)]; if (b != e) BAD("element %lld of a %s walk is %s, expected %s", i, back ? "backward" : "forward", show(c.type, b).c_str(), show(c.type, e).c_str()); } if (m) note_bytes(w.data(), (size_t)m * z); }
      void *h = nullptr, *t = nullptr; SUTQ("head", 4000, h = ct_ll_head(c.p); t = ct_ll_tailp(c.p)); if (c.seq.empty()) { if (h || t) BAD("head or tail of an empty list"); } else { if (!h || B((char*)h, z) != c.seq.front()) BAD("head is wrong"); if (!t || B((char*)t, z) != c.seq.back()) BAD("tail is wrong"); }
      for (size_t i : picks(x, c.seq.size(), 220, false)) { Buf b(z); int r = 0; SUTQ("value_at", 8000 + 200 * c.seq.size(), r = ct_ll_value_at(c.p, (int)i, b.p)); if (r != (int)i || b.get() != c.seq[i]) BAD("position %zu returned %d with %s, expected %s", i, r, show(c.type, b.get()).c_str(), show(c.type, c.seq[i]).c_str()); }
      break; }
  }
}
void destroy(Ctx& x, Cont& c, const Op& o) {
  for (void* d : c.detached) SUT("free", 4000, ct_ll_free_detached(d)); c.detached.clear();
  if (!c.p) return; size_t steps = 100000 + 3000 * (c.seq.size() + c.map.size()) + 30 * c.buckets;
  switch (c.kind) { case AL: SUT("array_list_delete", steps, ct_al_del(c.p)); break; case SET: SUT("set_delete", steps, ct_set_del(c.p)); break; case HT: { int r = 0; SUT("hashtable_destroy", steps, r = ct_ht_destroy(c.p, c.ptrvals | c.ownkeys << 1)); if (r != 1) BAD("hashtable_destroy returned %d", r); break; } case LL: SUT("linkedlist_delete", steps, ct_ll_del(c.p)); break; }
  c.p = nullptr; c.seq.clear(); c.map.clear();
}
bool sorted(const Cont& c) { for (size_t i = 1; i < c.seq.size(); i++) if (cmpb(c.type, c.seq[i - 1], c.seq[i]) > 0) return false; return true; }
size_t lower(const Cont& c, const B& v, bool& found) { size_t i = (size_t)(std::lower_bound(c.seq.begin(), c.seq.end(), v, [&](const B& a, const B& b) { return cmpb(c.type, a, b) < 0; }) - c.seq.begin()); found = i < c.seq.size() && c.seq[i] == v; return i; }

void step(Ctx& x, const Op& o) {
  const string& op = o.name(); if (op == "arm" || op == "armp") { x.armed = op; x.arm_at = (uint64_t)o.i(1); return; }
  auto it = x.slots.find(o.s(1)); bool isnew = op == "new"; if (isnew ? (it != x.slots.end() && it->second.p) : (it == x.slots.end() || !it->second.p)) { x.armed.clear(); return; }
  Cont& c = x.slots[o.s(1)]; bool arm = !x.armed.empty(); string how = x.armed; x.armed.clear(); size_t live0 = 0; size_t lim = 60000 + 3000 * (c.seq.size() + c.map.size()) + 30 * c.buckets;
  shared->nontrivial = 1;
  auto start = [&]() { if (x.quiet) return; live0 = live_count(); if (arm) { if (how == "arm") arm_alloc_failures({x.arm_at}, -1); else arm_alloc_failures({}, (int64_t)x.arm_at); } };
  auto stop = [&]() -> bool { if (arm) disarm_alloc_failures(); return arm && alloc_failures_fired() > 0; };
  auto pos = [&](size_t k) -> size_t { long v = o.i(k); size_t n = c.seq.size(); return v < 0 ? (size_t)((long)n - 1 - v) : v >= 1000000 ? (size_t)(v - 1000000) % (n + 1) : (size_t)v; }; // -1 = n, -2 = n+1 ...
#define CALL(nm, ...) (start(), [&]() { if (x.quiet) SUTQ(nm, lim, __VA_ARGS__); else SUT(nm, lim, __VA_ARGS__); }(), stop())
  bool fired = false; int r = 0; bool failed = false;
  if (isnew) {
    string k = o.s(2); c = Cont(); c.kind = k == "al" ? AL : k == "set" ? SET : k == "ht" ? HT : LL; c.type = (int)o.i(3, 0); if (c.type < 0 || c.type > (c.kind == HT ? 6 : 9) || c.type == 7) c.type = 0;
    if (c.kind == AL) { size_t cap = (size_t)std::max(1l, o.i(4, 1)); fired = CALL("array_list_init", c.p = ct_al_new(cap, c.type)); }
    else if (c.kind == SET) fired = CALL("set_init", c.p = ct_set_new(c.type));
    else if (c.kind == LL) fired = CALL("linkedlist_init", c.p = ct_ll_new(c.type));
    else { string dt = o.s(4, "0"); c.ptrvals = dt == "p"; c.dtype = c.ptrvals ? 7 : atoi(dt.c_str()); c.ownkeys = c.type == 6 && o.i(7); c.buckets = (size_t)std::max((i64)0, (i64)o.i(5, 7)); lim += 30 * c.buckets; fired = CALL("hashtable_init", c.p = ct_ht_new(o.i(5, 7), c.type, c.dtype, (int)o.i(6, 1))); }
    if (!c.p) { if (!fired) BAD("could not be created"); failed = true; }
    if (failed && !multi_callers && live_count() != live0) BAD("a failed creation left %zd blocks allocated", (ssize_t)(live_count() - live0));
    if (!c.p) { x.slots.erase(o.s(1)); return; }
    verify(x, c, o); return;
  }
  if (op == "del") { destroy(x, c, o); x.slots.erase(o.s(1)); return; }
  if (op == "verify") { verify(x, c, o); return; }
  auto val = [&]() -> B { string t = o.s(2); if (t.empty() || t[0] != '@') return be(c.type, t); size_t k = (size_t)atol(t.c_str() + 1); if (c.kind == HT) return c.map.empty() ? be(c.type, "0") : c.map[k % c.map.size()].first; return c.seq.empty() ? be(c.type, "0") : c.seq[k % c.seq.size()]; }; // @k: a value that is there
  if (op == "fill" || op == "drain") { // many operations, looked at together afterwards: fill <n> <mode> <seed> adds elements, drain <n> <mode> <seed> takes some away
    bool f = op == "fill"; long n = std::min(70000l, o.i(2)); int mode = (int)o.i(3); Rng g((uint64_t)o.i(4) * 7 + 3); x.quiet = true;
    for (long i = 0; i < n; i++) { long v = mode == 0 ? i : mode == 1 ? n - i : mode == 2 ? (long)g.below(2000000000) - 1000000000 : mode == 3 ? (i * 65536) % 2000000000 : (long)g.below((uint64_t)n * 2 + 1); size_t have = c.kind == HT ? c.map.size() : c.seq.size(); string t = std::to_string(v); Op q; q.thread = o.thread;
      if (f) switch (c.kind) { case AL: if (mode == 4 && g.chance(1, 4)) q.a = {"ins", o.s(1), std::to_string(1000000 + (long)g.below(have + 1)), t}; else q.a = {"app", o.s(1), t}; break; case SET: q.a = {"sins", o.s(1), t}; break; case LL: q.a = {mode == 1 || (mode == 4 && (v & 1)) ? "front" : "tail", o.s(1), t}; break; default: q.a = {"put", o.s(1), t, std::to_string(i % 100)}; }
      else { if (!have) break; string p = std::to_string(mode == 0 ? 0 : mode == 1 ? (long)have - 1 : 1000000 + (long)g.below(have)); switch (c.kind) { case AL: case SET: if (mode == 1 && c.kind == AL) q.a = {"pop", o.s(1)}; else q.a = {"rat", o.s(1), p}; break; default: q.a = {"rem", o.s(1), t}; } }
      step(x, q); }
    x.quiet = false; auto again = x.slots.find(o.s(1)); if (again != x.slots.end()) { Op q = o; q.a[0] = "verify"; verify(x, again->second, q); } return; }
  size_t z = ct_size(c.type); int expect_fail_live = 1;
  auto ret = [&](int want, const char* w) { if (r != want) { if (fired && r != want) { failed = true; return; } BAD("returned %d, expected %d (%s)", r, want, w); } };
  if (c.kind == AL || c.kind == SET) {
    bool S = c.kind == SET;
    if (op == "app" && !S) { B v = val(); Buf b(v); fired = CALL("array_list_append", r = ct_al_append(c.p, b.p)); ret(1, "appended"); if (!failed) c.seq.push_back(v); if (b.get() != v) BAD("changed the caller's element"); }
    else if (op == "ins" && !S) { size_t p = pos(2); B v = be(c.type, o.s(3)); Buf b(v); fired = CALL("array_list_insert_at", r = ct_al_insert(c.p, b.p, p)); if (p > c.seq.size()) { if (r > 0) BAD("inserting at position %zu of %zu returned %d", p, c.seq.size(), r); } else { ret(1, "inserted"); if (!failed) c.seq.insert(c.seq.begin() + (long)p, v); } }
    else if (op == "rep" && !S) { size_t p = pos(2); B v = be(c.type, o.s(3)); Buf b(v); fired = CALL("array_list_replace_at", r = ct_al_replace(c.p, b.p, p)); if (p >= c.seq.size()) { if (r > 0) BAD("replacing position %zu of %zu returned %d", p, c.seq.size(), r); } else { ret(1, "replaced"); if (!failed) c.seq[p] = v; } }
    else if (op == "rat") { size_t p = pos(2); Buf b(z); B keep = b.get(); fired = CALL("remove_at", r = S ? ct_set_remove_at(c.p, p, b.p) : ct_al_remove_at(c.p, p, b.p)); if (p >= c.seq.size()) { if (r > 0) BAD("removing position %zu of %zu returned %d", p, c.seq.size(), r); if (b.get() != keep) BAD("a failed removal wrote to the caller's buffer"); } else { ret(1, "removed"); if (!failed) { if (b.get() != c.seq[p]) BAD("handed back %s, expected %s", show(c.type, b.get()).c_str(), show(c.type, c.seq[p]).c_str()); c.seq.erase(c.seq.begin() + (long)p); } } }
    else if (op == "rem") { B v = val(); Buf b(v); fired = CALL("remove", r = S ? ct_set_remove(c.p, b.p) : ct_al_remove(c.p, b.p)); auto f = std::find(c.seq.begin(), c.seq.end(), v); if (f == c.seq.end()) { if (r > 0) BAD("removing an absent element returned %d", r); } else { ret(1, "removed"); if (!failed) c.seq.erase(f); } if (b.get() != v) BAD("handed back %s for %s", show(c.type, b.get()).c_str(), show(c.type, v).c_str()); }
    else if (op == "pop" && !S) { Buf b(z); B keep = b.get(); fired = CALL("array_list_pop", r = ct_al_pop(c.p, b.p)); if (c.seq.empty()) { if (r > 0) BAD("popping an empty list returned %d", r); if (b.get() != keep) BAD("popping an empty list wrote to the caller's buffer"); } else { ret(1, "popped"); if (!failed) { if (b.get() != c.seq.back()) BAD("popped %s, expected %s", show(c.type, b.get()).c_str(), show(c.type, c.seq.back()).c_str()); c.seq.pop_back(); } } }
    else if (op == "get") { size_t p = pos(2); Buf b(z); B keep = b.get(); fired = CALL("value_at", r = S ? ct_set_value_at(c.p, p, b.p) : ct_al_value_at(c.p, p, b.p)); if (p >= c.seq.size()) { if (r > 0) BAD("reading position %zu of %zu returned %d", p, c.seq.size(), r); if (b.get() != keep) BAD("a failed read wrote to the caller's buffer"); } else { ret(1, "read"); if (!failed && b.get() != c.seq[p]) BAD("read %s, expected %s", show(c.type, b.get()).c_str(), show(c.type, c.seq[p]).c_str()); } }
    else if (op == "find") { B v = val(); Buf b(v); i64 q = -9; int so = S ? 1 : (int)(o.i(3) && sorted(c)); fired = CALL("find", q = S ? ct_set_find(c.p, b.p) : ct_al_find(c.p, b.p, so)); auto f = std::find(c.seq.begin(), c.seq.end(), v); if (f == c.seq.end()) { if (q >= 0) BAD("found an absent element at %lld", q); } else if (so) { if (q < 0 || q >= (i64)c.seq.size() || c.seq[(size_t)q] != v) BAD("found at %lld, which does not hold %s", q, show(c.type, v).c_str()); } else if (q != f - c.seq.begin()) BAD("found at %lld, first position is %ld", q, (long)(f - c.seq.begin())); if (b.get() != v) BAD("changed the caller's element"); }
    else if (op == "clear") { int rs = (int)o.i(2); fired = CALL("clear", S ? ct_set_clear(c.p) : ct_al_clear(c.p, rs)); c.seq.clear(); }
    else if (op == "sort" && !S) { lim += 4000 * c.seq.size(); fired = CALL("array_list_sort", ct_al_sort(c.p)); std::sort(c.seq.begin(), c.seq.end(), [&](const B& a, const B& b) { return cmpb(c.type, a, b) < 0; }); }
    else if (op == "grow" && !S) { if (ct_al_max(c.p) > 4096) return; fired = CALL("array_list_grow", r = ct_al_grow(c.p)); if (fired) failed = r != 1; else if (r != 1) BAD("returned %d", r); }
    else if (op == "sins" && S) { B v = val(); Buf b(v); bool dup; size_t p = lower(c, v, dup); fired = CALL("set_insert", r = ct_set_insert(c.p, b.p)); if (dup) { if (r != 0) BAD("inserting a present element returned %d, documented as 0", r); } else { ret(1, "new element"); if (failed && r != -1) BAD("a failed insertion returned %d, documented as -1", r); if (!failed) c.seq.insert(c.seq.begin() + (long)p, v); } if (b.get() != v) BAD("changed the caller's element"); }
    else return;
  } else if (c.kind == LL) {
    auto f = std::find(c.seq.begin(), c.seq.end(), val());
    if (op == "front") { B v = val(); Buf b(v); fired = CALL("linkedlist_front_add", r = ct_ll_front(c.p, b.p)); ret(1, "added"); if (!failed) c.seq.insert(c.seq.begin(), v); }
    else if (op == "tail") { B v = val(); Buf b(v); fired = CALL("linkedlist_tail_add", r = ct_ll_tail(c.p, b.p)); ret(1, "added"); if (!failed) c.seq.push_back(v); }
    else if (op == "look") { B v = val(); Buf b(v); int rm = o.i(3) ? 1 : 0; void* q = nullptr; fired = CALL("linkedlist_lookup", q = ct_ll_lookup(c.p, b.p, rm, c.type)); if (f == c.seq.end()) { if (q) BAD("found an absent element"); } else { if (!q && fired) failed = true; else if (!q) BAD("did not find %s", show(c.type, v).c_str()); else { if (B((char*)q, z) != v) BAD("found another element"); if (rm) { c.seq.erase(f); c.detached.push_back(q); if (!multi_callers && live_count() + 1 != live0) BAD("removing one element left %zd blocks beside the element handed over", (ssize_t)(live_count() - live0 + 1)); SUT("free", 4000, ct_ll_free_detached(q)); c.detached.pop_back(); } } } }
    else if (op == "rem") { B v = val(); Buf b(v); fired = CALL("linkedlist_remove", r = ct_ll_remove(c.p, b.p, c.type)); if (f == c.seq.end()) { if (r > 0) BAD("removing an absent element returned %d", r); } else { ret(1, "removed"); if (!failed) c.seq.erase(f); } }
    else if (op == "get") { long p = (long)pos(2); Buf b(z); B keep = b.get(); fired = CALL("linkedlist_value_at", r = ct_ll_value_at(c.p, (int)p, b.p)); if (p >= (long)c.seq.size()) { if (r >= 0) BAD("reading position %ld of %zu returned %d", p, c.seq.size(), r); if (b.get() != keep) BAD("a failed read wrote to the caller's buffer"); } else { ret((int)p, "position"); if (!failed && b.get() != c.seq[(size_t)p]) BAD("read %s, expected %s", show(c.type, b.get()).c_str(), show(c.type, c.seq[(size_t)p]).c_str()); } }
    else if (op == "clear") { fired = CALL("linkedlist_clear", ct_ll_clear(c.p)); c.seq.clear(); }
    else return;
  } else {
    B k = val(); auto f = std::find_if(c.map.begin(), c.map.end(), [&](const std::pair<B, B>& e) { return same_key(c.type, e.first, k); });
    if (op == "put") {
      void* own = c.ptrvals ? ct_val_new() : nullptr; B v = c.ptrvals ? ptr_bytes(own) : be(c.dtype, o.s(3)); void* mykey = nullptr; if (c.ownkeys) { const char* t = str_in(k); mykey = ct_str_new(t, (i64)strlen(t)); k = ptr_bytes(mykey); } Buf kb(k), vb(v); fired = CALL("hashtable_insert", r = ct_ht_insert(c.p, kb.p, vb.p));
      if (kb.get() != k) BAD("changed the caller's key");
      bool fresh = f == c.map.end(); struct Rel { void* p; bool* keep; ~Rel() { if (p && !*keep) ct_val_free(p); } }; bool kept = false; Rel rel{mykey, &kept};
      if (fresh) { ret(1, "new key"); if (failed) { if (r != 0) BAD("returned %d for a failed insertion, documented as 0", r); if (vb.get() != v) BAD("a failed insertion changed the caller's value"); if (own) ct_val_free(own); live0 -= own ? 0 : 0; } else { c.map.push_back({k, v}); kept = true; } if (failed && own) live0 -= 1; if (failed && mykey) live0 -= 1; }
      else { ret(-1, "replaced"); if (failed) { if (r != 0) BAD("returned %d for a failed replacement, documented as 0", r); if (vb.get() != v) BAD("a failed replacement changed the caller's value"); if (own) { ct_val_free(own); live0 -= 1; } if (mykey) live0 -= 1; } else { if (vb.get() != f->second) BAD("did not hand back the replaced value"); if (c.ptrvals) { void* old; memcpy(&old, f->second.data(), 8); ct_val_free(old); } f->second = v; } }
    } else if (op == "look") { Buf kb(k), vb(c.ptrvals ? 8 : ct_size(c.dtype)); B keep = vb.get(); fired = CALL("hashtable_lookup", r = ct_ht_lookup(c.p, kb.p, vb.p)); if (f == c.map.end()) { if (r > 0) BAD("found an absent key"); if (vb.get() != keep) BAD("a failed look-up wrote to the caller's buffer"); } else { ret(1, "found"); if (!failed && vb.get() != f->second) BAD("found another value"); } }
    else if (op == "rem") { Buf kb(k), vb(c.ptrvals ? 8 : ct_size(c.dtype)); B keep = vb.get(); fired = CALL("hashtable_remove", r = ct_ht_remove(c.p, kb.p, vb.p)); if (f == c.map.end()) { if (r > 0) BAD("removed an absent key"); if (vb.get() != keep) BAD("a failed removal wrote to the caller's buffer"); } else { ret(1, "removed"); if (!failed) { if (vb.get() != f->second) BAD("handed back another value"); if (c.ptrvals) { void* old; memcpy(&old, f->second.data(), 8); ct_val_free(old); } if (c.ownkeys) { void* old; memcpy(&old, f->first.data(), 8); k = f->first; if (kb.get() != k && strcmp(str_in(kb.get()), str_in(k))) BAD("changed the caller's key"); ct_val_free(old); } c.map.erase(f); } } if (!c.ownkeys && !same_key(c.type, kb.get(), k)) BAD("changed the caller's key to %s", show(c.type, kb.get()).c_str()); }
    else if (op == "clear") { if (!c.ptrvals || true) { fired = CALL("hashtable_clear", r = ct_ht_clear(c.p, c.ptrvals | c.ownkeys << 1)); if (r != 1) { if (!fired) BAD("returned %d", r); failed = true; } else c.map.clear(); } }
    else return;
  }
  (void)expect_fail_live;
  if (failed) { probe(1); if (!multi_callers && live_count() != live0) BAD("a failed call changed the number of allocated blocks by %zd", (ssize_t)(live_count() - live0)); }
  if (fired) probe(0);
  verify(x, c, o);
  if (!x.quiet && c.kind == AL && sorted(c) && c.seq.size() > 1) probe(2);
}
const char* pick_val(Rng& r, int type, bool narrow) {
  static thread_local char b[40];
  if (narrow) { snprintf(b, sizeof b, "%d", (int)r.below(7)); return b; }
  switch (r.below(8)) {
    case 0: case 1: case 2: snprintf(b, sizeof b, "%d", r.range(-5, 9)); break;
    case 3: case 4: snprintf(b, sizeof b, "%d", (int)r.below(24) * 7); if (type == 5) snprintf(b, sizeof b, "%d", (int)r.below(18) * 7); break;
    case 5: if (type == 1 || type == 2) snprintf(b, sizeof b, "%g", (double)r.range(-64, 64) / 8); else snprintf(b, sizeof b, "%d", r.range(-100, 100)); break;
    case 6: switch (type) { case 0: snprintf(b, sizeof b, "%d", r.chance(1, 2) ? 2147483647 - (int)r.below(2) : (int)(-2147483647 - 1) + (int)r.below(2)); break; case 3: snprintf(b, sizeof b, "%ld", r.chance(1, 2) ? 9223372036854775807l - (long)r.below(2) : (-9223372036854775807l - 1) + (long)r.below(2)); break; case 4: snprintf(b, sizeof b, "%d", r.chance(1, 2) ? 32767 - (int)r.below(2) : -32768 + (int)r.below(2)); break; case 5: snprintf(b, sizeof b, "%d", r.chance(1, 2) ? 127 : -128); break; default: snprintf(b, sizeof b, "%d", r.chance(1, 2) ? 1000000 : -1000000); } break;
    default: if (type == 0 || type == 3) snprintf(b, sizeof b, "%d", (int)r.below(2000000000) - 1000000000); else snprintf(b, sizeof b, "%d", r.range(-120, 120)); break;
  }
  return b;
}
}
void* ct_make_dummy;
string container_ops(Rng& r, int thread, const string& pre, int kind, int nops, bool oom, bool may_bulk) {
  string s; int type; { static const int ts[] = {0, 0, 3, 4, 5, 1, 2, 6, 8, 9}; type = ts[r.below(kind == HT ? 8 : 10)]; } bool narrow = r.chance(1, 3); string T = std::to_string(thread);
  auto arm = [&]() { if (oom && r.chance(1, 2)) s += "op " + T + (r.chance(1, 4) ? " armp " : " arm ") + std::to_string(r.below(r.chance(1, 3) ? 6 : 3)) + "\n"; };
  auto V = [&]() { string v = pick_val(r, type > 5 ? 5 : type, narrow); if (type == 6 && kind == HT && r.chance(1, 2)) v += "'"; return v; };
  bool bulk = false; auto P = [&]() { return std::to_string(bulk && r.chance(1, 2) ? 1000000 + (int)r.below(70000) : r.chance(1, 4) ? (int)-(1 + (long)r.below(3)) : (int)r.below(12)); };
  auto X = [&]() { return r.chance(bulk ? 1 : 1, bulk ? 2 : 8) ? strf("@%d", (int)r.below(bulk ? 70000 : 40)) : V(); }; // something to look for
  auto mk = [&]() { arm(); s += "op " + T + " new " + pre; switch (kind) { case AL: s += strf(" al %d %d\n", type, 1 + (int)r.below(r.chance(1, 2) ? 3 : 9)); break; case SET: s += strf(" set %d\n", type); break; case LL: s += strf(" ll %d\n", type); break; default: { bool exact = r.chance(2, 3) && (!bulk || r.chance(1, 2)); int dt[] = {0, 3, 1, 4, 5, 2}; s += strf(" ht %d %s %d %d\n", type, r.chance(1, 2) ? "p" : std::to_string(dt[r.below(6)]).c_str(), bulk ? (int)r.below(r.chance(1, 2) ? 300 : 20000) : exact ? 1 + (int)r.below(r.chance(1, 2) ? 3 : 13) : (int)r.below(40), exact) ; if (type == 6 && r.chance(1, 2)) { s.pop_back(); s += " 1\n"; } } } };
  bulk = may_bulk && !oom && r.chance(1, 40); if (bulk) { nops = std::min(nops, 14); narrow = false; }
  mk(); int growth = (int)r.below(3); if (oom) { mk(); }
  for (int i = 0; i < nops; i++) {
    if (bulk && r.chance(i == 0 ? 3 : 1, i == 0 ? 3 : 9)) { int most = kind == LL ? 1200 : kind == HT ? 3000 : kind == SET ? 5000 : 9000; static const int ns[] = {130, 140, 260, 260, 300, 520, 1030, 2100, 4200, 9000}; int z = std::min(most, ns[r.below(r.chance(1, 3) ? 10 : 7)]); if (i == 0 && r.chance(1, 60) && (kind == AL || kind == SET)) z = 66000; s += strf("op %s fill %s %d %d %d\n", T.c_str(), pre.c_str(), z, z > 60000 ? (kind == SET ? 0 : (int)r.below(4)) : (int)r.below(5), (int)r.below(1000)); }
    else if (bulk && r.chance(1, 9)) s += strf("op %s drain %s %d %d %d\n", T.c_str(), pre.c_str(), (int)r.below(r.chance(1, 4) ? 600 : 60), (int)r.below(5), (int)r.below(1000));
    bool more = r.chance(growth == 0 ? 1 : growth == 1 ? 3 : 5, 6); arm(); s += "op " + T + " "; string q;
    switch (kind) {
      case AL: if (more) { switch (r.below(4)) { case 0: q = "ins " + pre + " " + P() + " " + V(); break; case 1: q = "rep " + pre + " " + P() + " " + V(); break; default: q = "app " + pre + " " + V(); } } else switch (r.below(9)) { case 0: q = "rat " + pre + " " + P(); break; case 1: q = "rem " + pre + " " + X(); break; case 2: q = "pop " + pre; break; case 3: q = "get " + pre + " " + P(); break; case 4: q = "find " + pre + " " + X() + " 0"; break; case 5: q = "find " + pre + " " + X() + " 1"; break; case 6: q = "sort " + pre; break; case 7: q = r.chance(1, 2) ? "clear " + pre + (r.chance(1, 2) ? " 1" : " 0") : "pop " + pre; break; default: q = r.chance(1, 2) ? "grow " + pre : "rat " + pre + " 0"; } break;
      case SET: if (more) q = "sins " + pre + " " + V(); else switch (r.below(7)) { case 0: q = "rat " + pre + " " + P(); break; case 1: case 2: q = "rem " + pre + " " + X(); break; case 3: q = "get " + pre + " " + P(); break; case 4: q = r.chance(1, 2) ? "clear " + pre : "rat " + pre + " 0"; break; default: q = "find " + pre + " " + X(); } break;
      case LL: if (more) q = (r.chance(1, 2) ? "front " : "tail ") + pre + " " + V(); else switch (r.below(7)) { case 0: q = "look " + pre + " " + X() + " 0"; break; case 1: case 2: q = "look " + pre + " " + X() + " 1"; break; case 3: case 4: q = "rem " + pre + " " + X(); break; case 5: q = "get " + pre + " " + P(); break; default: q = r.chance(1, 3) ? "clear " + pre : "rem " + pre + " " + X(); } break;
      default: if (more) q = "put " + pre + " " + V() + " " + std::to_string(r.range(-100, 100)); else switch (r.below(5)) { case 0: q = "look " + pre + " " + X(); break; case 4: q = r.chance(1, 3) ? "clear " + pre : "rem " + pre + " " + X(); break; default: q = "rem " + pre + " " + X(); } break;
    }
    if (kind == HT && (type == 1 || type == 2) && r.chance(1, 8)) { size_t z = q.find(" 0", q.find(pre)); if (z != string::npos && (z + 2 == q.size() || q[z + 2] == ' ')) q.replace(z, 2, " -0"); }
    s += q + "\n";
    if (r.chance(1, 40)) { s += "op " + T + " del " + pre + "\n"; mk(); }
  }
  return s;
}
string container_ops(Rng& r, int thread, const string& pre, int kind, int nops, bool oom, bool may_bulk);
string gen_container(const string& prop, Rng& r, const string& variant, long index) {
  (void)variant; (void)index; Config c = random_config(r, false, true, false); c.races = false; c.memcheck = true;
  bool oom = prop == "C10" || (prop != "C12" && prop != "C24" && r.chance(1, 4)); int threads = prop == "C12" ? r.range(2, 3) : 1; if (threads > 1) { c = random_config(r, true, true, false); c.races = true; c.short_pct = 0; }
  string s = "case container prop=" + prop + (oom ? " oom=1" : "") + "\n" + cfg_text(c);
  int kinds = 1 + (int)r.below(2); for (int t = 0; t < threads; t++) for (int k = 0; k < kinds; k++) { int kind = prop == "C17" ? AL : prop == "C18" ? HT : prop == "C19" ? LL : prop == "C20" ? SET : (int)r.below(4); int n = r.chance(1, 6) ? r.range(60, 200) : r.range(5, 60); if (oom || threads > 1) n = std::min(n, 40); s += container_ops(r, t, strf("%c%d", 'A' + t, k), kind, n, oom, threads == 1); }
  return s;
}
void run_container(const Case& c) {
  begin(c.cfg); pool.clear(), pool_texts.clear(); std::map<int, vector<Op>> by; for (auto& o : c.ops) by[std::max(0, o.thread)].push_back(o); multi_callers = by.size() > 1;
  vector<std::unique_ptr<Ctx>> ctx; string sm;
  for (auto& t : by) { auto* x = new Ctx(); x->thread = t.first; ctx.emplace_back(x); const vector<Op>* ops = &t.second;
    spawn([x, ops]() { for (auto& o : *ops) step(*x, o); Op d; d.thread = x->thread; d.a = {"destroy", "all"}; for (auto& s : x->slots) destroy(*x, s.second, d); }); }
  run_all(); for (auto& p : pool) user_free(p.second); pool.clear(), pool_texts.clear();
  if (live_count()) { auto b = live_blocks(); fail("leak", strf("%zu blocks (%zu bytes) still allocated after everything was destroyed; first is allocation %lu of %zu bytes", b.size(), live_bytes(), (unsigned long)b[0].ord, b[0].size)); }
  for (size_t i = 0; i < c.ops.size() && i < 25; i++) { for (auto& w : c.ops[i].a) sm += w + " "; sm += "; "; } snprintf(shared->sample, sizeof shared->sample, "%.1900s", sm.c_str());
  finish_ok();
}
