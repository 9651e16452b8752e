// Deterministic simulator run time.  See rt.hpp and DESIGN.md.
#include "rt.hpp"
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <cmath>
#include <map>
#include <set>
#include <deque>
#include <algorithm>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define RA __builtin_return_address(0)

namespace sim {
const char* policy_names[] = {"sequential", "random", "pct", "starve", "roundrobin", "reverse", "conflict", "explicit"};
const char* fault_names[] = {"preemption", "short_team", "alloc_failure", "alloc_exhaustion", "garbage_fill", "freed_memory_reuse", "clock_jump", "open_failure", "short_write", "disk_full", "close_failure", "starved_worker", "abandoned_object"};

// ---- memory map ---------------------------------------------------------------------------------
static const uintptr_t REGION = 0x100000000000ull;
static const size_t STACK_SZ = 512 * 1024;
static const int MAXF = 40;
static const uintptr_t STACKS = REGION;
static const size_t STACKS_SZ = STACK_SZ * MAXF;
static const uintptr_t ARENA = REGION + 0x10000000ull;
static const size_t ARENA_SZ = 512ull << 20;
static const size_t REGION_SZ = 0x10000000ull + ARENA_SZ;
static const uintptr_t SHADOW_OFF = 0x7fff8000ull;
static const uintptr_t GLOB = 0x400000ull;
static const size_t GLOB_SZ = 32ull << 20; extern "C" char _end[]; static const size_t glob_sz = std::min<size_t>(GLOB_SZ, (uintptr_t)_end - GLOB); // the executable's own data ends at _end; the host's heap may follow it
static inline uint8_t* shadow_of(uintptr_t a) { return (uint8_t*)((a >> 3) + SHADOW_OFF); }

struct Rd { uint32_t clk; uint8_t slot, mask; uint16_t pad; };
struct Cell { uint32_t gen, wclk; uint8_t wslot, wmask, nr, pad; uint32_t wpc; Rd r[4]; };
static Cell* cells_region;   // for REGION
static Cell* cells_glob;     // for GLOB
static uint32_t* block_index; // ARENA 16-byte granules -> block number

Shared* shared;

// ---- fibers ----------------------------------------------------------------------------------------
struct Lock { int owner = -1; int depth = 0; };
typedef std::vector<uint32_t> VC;
struct Team;
struct WS { bool init = false; unsigned long long next = 0, end = 0, incr = 1, chunk = 1; bool up = true; int kind = 0; int done = 0; int single_owner = -1; void* copy = nullptr; unsigned sec_next = 0, sec_n = 0; unsigned long long ordered_next = 0; };
struct Task { void (*fn)(void*); std::vector<char> data; void* arg; };
struct Team { int size = 1; int finished = 0; int bar_arrived = 0; uint64_t bar_gen = 0; VC barvc; std::map<int, WS> ws; Team* parent = nullptr; std::deque<Task> tasks; int running_tasks = 0; void (*fn)(void*) = nullptr; void* data = nullptr; };
static int next_fiber_id;
struct Fiber {
  int id = next_fiber_id++; bool used = false, done = false; bool blocked = false; std::function<bool()> pred;
  void* sp = nullptr; std::function<void()> body;
  Team* team = nullptr; int tid = 0; int level = 0; int ws_seq = 0; int want_threads = 0;
  VC vc; uint64_t prio = 0; bool caller = false; Fiber* parentf = nullptr;
  uintptr_t pw_addr = 0; unsigned pw_size = 0; unsigned char pw_old[16]; uint32_t pw_pc = 0;
  const char* op = ""; bool in_sut = false; bool was_conflict = false;
  unsigned long long loop_cur = 0; bool loop_has = false;
};
static Fiber fibers[MAXF];
static Fiber* cur = nullptr;
static void* main_sp;
static Config cfg;
static Rng srng(1), trng(1), prng(1), crng(1), mrng(1);
static uint64_t step_no, countdown_, step_limit;
static int alive;            // fibers not done
static size_t sw_pos; static size_t team_pos;
static uint64_t region_no;
static uint32_t race_gen = 1;
static bool race_on = false;
static int starve_victim = -1;
static std::map<uintptr_t, VC> sync_vc;
static std::map<uintptr_t, Lock> locks;
static const uint64_t NEVER = ~0ull >> 1;
static uint64_t last_decision;

static inline bool runnable(Fiber& f) { if (!f.used || f.done) return false; if (f.blocked) return f.pred(); return true; }

extern "C" void sim_switch(void** save_sp, void* new_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void fiber_exit();
extern "C" void sim_fiber_main() { Fiber* f = cur; f->body(); fiber_exit(); __builtin_unreachable(); }

static void flush_pending(Fiber* f);
static void set_countdown();
static void race_new_epoch() { race_gen++; }

static void fill_bytes(void* p, size_t n, uint64_t key) {
  unsigned char* b = (unsigned char*)p;
  switch (cfg.fill_mode) {
    case 1: memset(p, 0, n); return;
    case 2: memset(p, 0xff, n); return;
    case 3: { uint32_t v = (uint32_t)(mix(cfg.fill_seed, key) % 9); for (size_t i = 0; i + 4 <= n; i += 4) { memcpy(b + i, &v, 4); v = (v + 1) % 9; } for (size_t i = n & ~3ull; i < n; i++) b[i] = (unsigned char)v; return; }
    case 4: { Rng r(mix(cfg.fill_seed, key)); for (size_t i = 0; i + 8 <= n; i += 8) { double d = (double)(int64_t)(r.below(2000)) / 16.0 - 20.0; memcpy(b + i, &d, 8); } for (size_t i = n & ~7ull; i < n; i++) b[i] = 0x41; return; }
    default: { Rng r(mix(cfg.fill_seed, key)); size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v = r.next(); memcpy(b + i, &v, 8); } uint64_t v = r.next(); memcpy(b + i, &v, n - i); return; }
  }
}
static uint64_t paint_no;
void paint_stack() {
  // overwrite the dead area below the current stack pointer
  volatile char probe_; uintptr_t sp = (uintptr_t)&probe_; (void)probe_;
  if (!cur) return;
  uintptr_t lo = STACKS + (uintptr_t)cur->id * STACK_SZ + 8192;
  uintptr_t hi = sp - 2048;
  size_t n = hi > lo ? hi - lo : 0; if (n > 24576) n = 24576;
  uintptr_t a = (hi - n) & ~15ull;
  // stay below any frame of fill_bytes: it uses little stack, and hi leaves 2 KiB for it
  fill_bytes((void*)a, n & ~15ull, 0x5151 + paint_no++);
}
static void start_fiber(Fiber* f, std::function<void()> body) {
  f->body = std::move(body); f->done = false; f->used = true; f->blocked = false; f->pw_addr = 0; f->level = 0; f->ws_seq = 0; f->in_sut = false; f->loop_has = false;
  uintptr_t base = STACKS + (uintptr_t)f->id * STACK_SZ; uintptr_t top = base + STACK_SZ - 64;
  memset(shadow_of(base), 0, STACK_SZ / 8);
  fill_bytes((void*)(top - 8192), 8192 - 128, 0x7171 + paint_no++);
  top &= ~15ull; uint64_t* s = (uint64_t*)top; *--s = 0; *--s = (uint64_t)&sim_fiber_main; for (int i = 0; i < 6; i++) *--s = 0;
  f->sp = s; f->prio = prng.next() | (1ull << 62); alive++;
}
static Fiber* free_fiber() { for (int i = 0; i < MAXF; i++) if (!fibers[i].used) return &fibers[i]; return nullptr; }

static void record_switch(uint64_t step, int to) {
  shared->trace_hash = mix(shared->trace_hash ^ step, (uint64_t)to);
  if (shared->nsw < sizeof(shared->sw) / sizeof(shared->sw[0])) { shared->sw[shared->nsw].step = step; shared->sw[shared->nsw].fiber = to; shared->nsw++; }
}
static void switch_to(Fiber* f) {
  if (f == cur) return;
  shared->switches++;
  Fiber* from = cur; cur = f; f->blocked = false;
  sim_switch(&from->sp, f->sp);
}
static std::vector<Fiber*> runnables() { std::vector<Fiber*> v; for (int i = 0; i < MAXF; i++) if (runnable(fibers[i])) v.push_back(&fibers[i]); return v; }

[[noreturn]] static void deadlock() {
  std::string d = "no fiber can make progress:"; for (int i = 0; i < MAXF; i++) if (fibers[i].used && !fibers[i].done) d += " fiber" + std::to_string(i) + "(in " + fibers[i].op + ")";
  violation("deadlock", d);
}
// Decide who runs next.  `must` = current fiber cannot continue.
static void decide(bool must) {
  step_no++; last_decision = step_no;
  std::vector<Fiber*> r = runnables();
  if (must) r.erase(std::remove(r.begin(), r.end(), cur), r.end());
  if (r.empty()) { if (!must) return; deadlock(); }
  Fiber* dflt = (!must) ? cur : r[0];
  Fiber* pick = dflt;
  if (r.size() > 1) {
    switch (cfg.policy) {
      case P_SEQ: break;
      case P_EXPLICIT: {
        while (sw_pos < cfg.switches.size() && cfg.switches[sw_pos].step < step_no) sw_pos++;
        if (sw_pos < cfg.switches.size() && cfg.switches[sw_pos].step == step_no) { for (auto f : r) if (f->id == cfg.switches[sw_pos].fiber) pick = f; sw_pos++; }
        break; }
      case P_RANDOM: case P_CONFLICT: pick = r[srng.below(r.size())]; break;
      case P_PCT: { if (!must) cur->prio = srng.next() & 0xffffffff; pick = r[0]; for (auto f : r) if (f->prio > pick->prio) pick = f; break; }
      case P_STARVE: { std::vector<Fiber*> q; for (auto f : r) if (f->id != starve_victim) q.push_back(f); if (q.empty()) q = r; else if (q.size() < r.size()) shared->faults[F_STARVE]++; pick = q[srng.below(q.size())]; break; }
      case P_RR: { int id = cur ? cur->id : 0; pick = r[0]; for (auto f : r) if (f->id > id) { pick = f; break; } break; }
      case P_REVERSE: pick = must ? r.back() : r.back(); break;
    }
  }
  if (pick != dflt) record_switch(step_no, pick->id);
  if (!must && pick != cur) shared->faults[F_PREEMPT]++;
  Fiber* target = pick;
  set_countdown();
  switch_to(target);
  set_countdown();
}
static void set_countdown() {
  uint64_t c = NEVER;
  if (alive > 1) {
    switch (cfg.policy) {
      case P_SEQ: break;
      case P_REVERSE: break;
      case P_EXPLICIT: { size_t p = sw_pos; while (p < cfg.switches.size() && cfg.switches[p].step <= step_no) p++; if (p < cfg.switches.size()) c = cfg.switches[p].step - step_no; break; }
      case P_RANDOM: case P_STARVE: { uint64_t per = cfg.period ? cfg.period : 1; c = 1 + srng.below(2 * per); break; }
      case P_CONFLICT: c = 1 + srng.below(512); break;
      case P_PCT: { double u = srng.unit(); double l = (double)cfg.pct_len / (cfg.pct_depth ? cfg.pct_depth : 1); c = 1 + (uint64_t)(-std::log(1.0 - u) * l); break; }
      case P_RR: c = cfg.period ? cfg.period : 1; break;
    }
  }
  countdown_ = c;
}
static void over_budget() { violation("no-termination", std::string("step budget exceeded in ") + current_op()); }
static inline void tick() {
  step_no++;
  if (step_no > step_limit) over_budget();
  if (--countdown_ == 0) {
    if (alive > 1) { step_no--; decide(false); }
    else countdown_ = NEVER;
  }
}
static void block_until(std::function<bool()> pred) {
  if (pred()) return;
  Fiber* me = cur; flush_pending(me);
  me->pred = std::move(pred); me->blocked = true;
  decide(true);
  // resumed: predicate holds
  me->blocked = false;
}
static void fiber_exit() {
  flush_pending(cur); cur->done = true; alive--; 
  Fiber* me = cur;
  if (me->team) me->team->finished++;
  bool any = false; for (int i = 0; i < MAXF; i++) if (fibers[i].used && !fibers[i].done) any = true;
  if (!any) { Fiber* from = cur; cur = nullptr; sim_switch(&from->sp, main_sp); __builtin_unreachable(); }
  decide(true);
  __builtin_unreachable();
}

// ---- vector clocks ---------------------------------------------------------------------------------
static void vc_merge(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
static void vc_tick(Fiber* f) { if (f->vc.size() < (size_t)MAXF) f->vc.resize(MAXF); f->vc[f->id]++; }
static void hb_release(VC& s) { flush_pending(cur); vc_merge(s, cur->vc); vc_tick(cur); }
static void hb_acquire(const VC& s) { vc_merge(cur->vc, s); }

// ---- races ---------------------------------------------------------------------------------------------
static inline Cell* cell_of(uintptr_t a) {
  if (a - REGION < REGION_SZ) return cells_region + ((a - REGION) >> 3);
  if (a - GLOB < glob_sz) return cells_glob + ((a - GLOB) >> 3);
  return nullptr;
}
static void report_race(uintptr_t a, const char* what, int other, uint32_t opc, uint32_t pc) {
  char b[400]; snprintf(b, sizeof b, "%s at 0x%lx between fiber %d (pc 0x%x) and fiber %d (pc 0x%x), region %lu, op %s", what, (unsigned long)a, other, opc, cur->id, pc, (unsigned long)region_no, cur->op);
  violation("data-race", b);
}
static inline bool hb_before(int slot, uint32_t clk) { return clk <= cur->vc[slot]; }
static void race_access(uintptr_t a, unsigned size, bool write, uint32_t pc) {
  while (size) {
    unsigned off = a & 7, n = std::min(size, 8 - off); uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
    Cell* c = cell_of(a); if (!c) return;
    if (c->gen != race_gen) { c->gen = race_gen; c->wmask = 0; c->nr = 0; }
    if (c->wmask & mask && c->wslot != cur->id && !hb_before(c->wslot, c->wclk)) report_race(a, write ? "write/write race" : "write/read race", c->wslot, c->wpc, pc);
    if (write) {
      for (int i = 0; i < c->nr; i++) if ((c->r[i].mask & mask) && c->r[i].slot != cur->id && !hb_before(c->r[i].slot, c->r[i].clk)) report_race(a, "read/write race", c->r[i].slot, 0, pc);
      if (c->wslot == cur->id && c->wclk == cur->vc[cur->id]) c->wmask |= mask; else if (c->wmask && c->wslot != cur->id && (c->wmask & ~mask) && !hb_before(c->wslot, c->wclk)) { /* keep older unordered bytes: lose precision rather than alarm */ c->wmask = mask; } else c->wmask = mask;
      c->wslot = (uint8_t)cur->id; c->wclk = cur->vc[cur->id]; c->wpc = pc;
    } else {
      int i; for (i = 0; i < c->nr; i++) if (c->r[i].slot == cur->id) { if (c->r[i].clk == cur->vc[cur->id]) c->r[i].mask |= mask; else { c->r[i].mask = mask; c->r[i].clk = cur->vc[cur->id]; } break; }
      if (i == c->nr) { if (c->nr < 4) i = c->nr++; else i = (int)(step_no & 3); c->r[i].slot = (uint8_t)cur->id; c->r[i].mask = mask; c->r[i].clk = cur->vc[cur->id]; }
    }
    a += n; size -= n; shared->races_checked++;
  }
}
static void flush_pending(Fiber* f) {
  if (!f || !f->pw_addr) return;
  uintptr_t a = f->pw_addr; f->pw_addr = 0;
  if (!race_on) return;
  bool changed = memcmp((void*)a, f->pw_old, f->pw_size) != 0;
  race_access(a, f->pw_size, changed, f->pw_pc);
}
static void race_forget(uintptr_t a, size_t n) { if (!race_on) return; Cell* c = cell_of(a & ~7ull); if (!c) return; for (size_t i = 0; i < (n + 7) / 8 + 1; i++) c[i].gen = 0; }

static void bad_access(uintptr_t a, size_t n, bool write, uint32_t pc);
static bool memcheck = true;
static inline bool shadow_ok(uintptr_t a, size_t n) {
  const int8_t* s = (const int8_t*)shadow_of(a);
  unsigned off = a & 7;
  if (off + n <= 8) { int8_t v = *s; return v == 0 || (v > 0 && (int)(off + n) <= v); }
  for (uintptr_t p = a; p < a + n;) { uintptr_t e = std::min((p | 7) + 1, a + n); int8_t v = *(const int8_t*)shadow_of(p); if (!(v == 0 || (v > 0 && (int)((e - 1) & 7) < v))) return false; p = e; }
  return true;
}
bool addressable(const void* p, size_t n) { uintptr_t a = (uintptr_t)p; if (a - REGION >= REGION_SZ) return true; return n == 0 || shadow_ok(a, n); }

static inline void on_access(uintptr_t a, unsigned size, bool write, uint32_t pc) {
  if (!cur || !cur->in_sut) return;
  if (cur->pw_addr) flush_pending(cur);
  if (a - ARENA < ARENA_SZ) { if (__builtin_expect(!shadow_ok(a, size), 0)) bad_access(a, size, write, pc); }
#ifdef SIM_STACK_SHADOW
  else if (a - STACKS < STACKS_SZ) { if (__builtin_expect(!shadow_ok(a, size), 0)) bad_access(a, size, write, pc); }
  else if (a - GLOB < glob_sz) { if (__builtin_expect(!shadow_ok(a, size), 0)) bad_access(a, size, write, pc); }
#endif
  if (race_on && cfg.policy == P_CONFLICT && alive > 1) {
    Cell* c = cell_of(a);
    if (c && c->gen == race_gen) { bool hot = (c->wmask && c->wslot != cur->id); for (int i = 0; write && i < c->nr; i++) if (c->r[i].slot != cur->id) hot = true;
      if (hot && srng.below(4) == 0) countdown_ = 1; }
  }
  tick();
  if (race_on) {
    if (write) { cur->pw_addr = a; cur->pw_size = size; cur->pw_pc = pc; memcpy(cur->pw_old, (void*)a, size); }
    else race_access(a, size, false, pc);
  }
}
static void on_range(uintptr_t a, size_t n, bool write, uint32_t pc) { // check only, no switch
  if (!cur || !cur->in_sut || !n) return;
  if (a < 4096) { char b[120]; snprintf(b, sizeof b, "null pointer range of %zu bytes, pc 0x%x", n, pc); violation("memory:null", b); }
  if (a - REGION < REGION_SZ && !shadow_ok(a, n)) bad_access(a, n, write, pc);
  if (race_on && !write) { for (size_t i = 0; i < n;) { unsigned c = (unsigned)std::min<size_t>(n - i, 8 - ((a + i) & 7)); race_access(a + i, c, false, pc); i += c; } }
}
static void range_written(uintptr_t a, const unsigned char* old, size_t n, uint32_t pc) {
  if (!race_on || !cur) return;
  for (size_t i = 0; i < n;) { unsigned c = (unsigned)std::min<size_t>(n - i, 8 - ((a + i) & 7)); race_access(a + i, c, memcmp((void*)(a + i), old + i, c) != 0, pc); i += c; }
}
static inline void entry_point() { if (cur && cur->in_sut) { flush_pending(cur); tick(); } }

// ---- heap -----------------------------------------------------------------------------------------------
enum { K_MALLOC = 0, K_NEW = 1, K_NEWA = 2, K_USER = 3, K_LIB = 4 };
struct Block { uintptr_t addr; size_t size, cap; uint64_t ord; int kind; bool live; };
static std::vector<Block> blocks; static std::map<size_t, std::vector<uint32_t>> freelist;
static uintptr_t brk_; static uint64_t alloc_ord; static size_t nlive, blive;
static std::set<uint64_t> fail_at; static int64_t fail_from = -1; static bool armed; static uint64_t arm_base, fails_fired;
static bool site_record; static std::vector<uint64_t> sites; static uint64_t site_arm, site_left; static bool site_from, site_on; // failures chosen by the chain of calls that allocates
static bool new_may_fail; void let_new_fail(bool b) { new_may_fail = b; }
static int heap_hold; // >0: never fail

static void poison(uintptr_t a, size_t n, uint8_t v) { if (n) memset(shadow_of(a), v, n / 8); }
static void unpoison(uintptr_t a, size_t n) { memset(shadow_of(a), 0, n / 8); if (n & 7) *shadow_of(a + (n & ~7ull)) = (uint8_t)(n & 7); }
static uint64_t call_chain() {
  uint64_t h = 1469598103934665603ull; uintptr_t f = (uintptr_t)__builtin_frame_address(0), top = f - STACKS < STACKS_SZ ? STACKS + ((f - STACKS) / STACK_SZ + 1) * STACK_SZ : 0;
  for (int i = 0; i < 16 && f && !(f & 7) && f + 16 <= top; i++) { uintptr_t pc = ((uintptr_t*)f)[1], up = ((uintptr_t*)f)[0]; h = (h ^ pc) * 1099511628211ull; h ^= h >> 29; if (up <= f) break; f = up; }
  return h ? h : 1;
}
__attribute__((noinline)) static void* heap_alloc(size_t n, int kind, bool zero, bool may_fail) {
  uint64_t ord = alloc_ord++;
  shared->allocs++;
  if (alloc_ord - (armed ? arm_base : 0) > shared->max_alloc_ord) shared->max_alloc_ord = alloc_ord - (armed ? arm_base : 0);
  if (may_fail && (site_record || site_arm)) {
    uint64_t c = call_chain(); if (site_record) sites.push_back(c);
    if (armed && site_arm) { bool f = site_on; if (!f && c == site_arm) { f = site_left == 0; if (!f) site_left--; } if (f) { fails_fired++; shared->faults[site_from ? F_ALLOC_PERSIST : F_ALLOC_FAIL]++; site_on = site_from; if (!site_from) site_arm = 0; return nullptr; } }
  }
  if (may_fail && armed) {
    uint64_t rel = ord - arm_base;
    bool f = fail_at.count(rel) > 0; bool pf = fail_from >= 0 && (int64_t)rel >= fail_from;
    if (f || pf) { fails_fired++; shared->faults[f ? F_ALLOC_FAIL : F_ALLOC_PERSIST]++; return nullptr; }
  }
  if (n > (64ull << 20)) return nullptr;
  size_t cap = ((n + 15) & ~15ull); if (cap == 0) cap = 16;
  uint32_t bi = 0; uintptr_t a = 0;
  if (cfg.reuse) { auto it = freelist.find(cap); if (it != freelist.end() && !it->second.empty() && mrng.below(100) < (uint64_t)cfg.reuse) { bi = it->second.back(); it->second.pop_back(); a = blocks[bi].addr; blocks[bi].live = true; blocks[bi].size = n; blocks[bi].kind = kind; blocks[bi].ord = ord; shared->faults[F_REUSE]++; } }
  if (!a) {
    uintptr_t gap = 32 + 16 * mrng.below(cfg.place_seed % 3 == 0 ? 1 : 12);
    a = brk_ + gap; 
    if (a + cap + 64 > ARENA + ARENA_SZ) violation("memory:unbounded", "the heap grew beyond every bound");
    shared->heap_top = a + cap - ARENA;
    poison(brk_, gap, 0xfa); brk_ = a + cap; poison(brk_, 32, 0xfa);
    bi = (uint32_t)blocks.size(); blocks.push_back({a, n, cap, ord, kind, true}); block_index[(a - ARENA) >> 4] = bi + 1;
  }
  unpoison(a, n); if (((n + 7) & ~7ull) < cap) poison(a + ((n + 7) & ~7ull), cap - ((n + 7) & ~7ull), 0xfa);
  if (zero) memset((void*)a, 0, n); else { fill_bytes((void*)a, n, ord); shared->faults[F_GARBAGE_FILL]++; }
  race_forget(a, n);
  if (kind < K_USER) { nlive++; blive += n; }
  return (void*)a;
}
static Block* find_block(uintptr_t a) { if (a - ARENA >= ARENA_SZ || (a & 15)) return nullptr; uint32_t b = block_index[(a - ARENA) >> 4]; return b ? &blocks[b - 1] : nullptr; }
static std::string block_desc(uintptr_t a) {
  for (auto& b : blocks) if (a >= b.addr - 48 && a < b.addr + b.cap + 32) { char s[160]; snprintf(s, sizeof s, "%s block #%lu of %zu bytes, offset %ld", b.live ? "live" : "freed", (unsigned long)b.ord, b.size, (long)(a - b.addr)); return s; }
  return "no block";
}
static void bad_access(uintptr_t a, size_t n, bool write, uint32_t pc) {
  const char* kind = "heap"; if (a - STACKS < STACKS_SZ) kind = "stack"; else if (a - GLOB < GLOB_SZ) kind = "global";
  uint8_t sv = 0; for (size_t i = 0; i < n; i++) { sv = *shadow_of(a + i); if (sv) break; }
  bool freed = (a - ARENA < ARENA_SZ) && sv == 0xfd;
  if (!memcheck && a >= 4096) return;
  char b[400]; snprintf(b, sizeof b, "%s of %zu bytes at 0x%lx (%s), pc 0x%x, op %s", write ? "write" : "read", n, (unsigned long)a, (a - ARENA < ARENA_SZ) ? block_desc(a).c_str() : kind, pc, cur ? cur->op : "");
  violation(std::string("memory:") + (freed ? "use-after-free" : (std::string(kind) + "-out-of-bounds")), b);
}
static void heap_free(void* p, int kind, uint32_t pc) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p; Block* b = find_block(a);
  if (!b || b->addr != a) { char s[200]; snprintf(s, sizeof s, "free of 0x%lx which is not a heap block (%s), pc 0x%x, op %s", (unsigned long)a, (a - ARENA < ARENA_SZ) ? block_desc(a).c_str() : "outside the heap", pc, cur ? cur->op : ""); violation("memory:invalid-free", s); }
  if (!b->live) { char s[200]; snprintf(s, sizeof s, "block #%lu freed twice, pc 0x%x, op %s", (unsigned long)b->ord, pc, cur ? cur->op : ""); violation("memory:double-free", s); }
  if (b->kind != kind && memcheck) { char s[200]; const char* nm[] = {"malloc", "new", "new[]", "harness", "lib"}; snprintf(s, sizeof s, "block #%lu obtained with %s released as if from %s, pc 0x%x, op %s", (unsigned long)b->ord, nm[b->kind], nm[kind], pc, cur ? cur->op : ""); violation("memory:mismatched-release", s); }
  if (race_on && cur && b->size <= 4096) for (size_t i = 0; i < b->size; i += 8) race_access(a + i, (unsigned)std::min<size_t>(8, b->size - i), true, pc);
  b->live = false; if (b->kind < K_USER) { nlive--; blive -= b->size; }
  if (cfg.fill_mode != 1) memset(p, 0xdd, b->size);
  poison(a, b->cap, 0xfd);
  if (cfg.reuse) freelist[b->cap].push_back((uint32_t)(b - &blocks[0]));
}
void arm_alloc_failures(const std::vector<uint64_t>& o, int64_t from) { fail_at.clear(); for (auto x : o) fail_at.insert(x); fail_from = from; armed = true; arm_base = alloc_ord; fails_fired = 0; shared->max_alloc_ord = 0; }
void record_alloc_sites(bool b) { site_record = b; if (b) sites.clear(); }
const std::vector<uint64_t>& alloc_sites() { return sites; }
void arm_alloc_site(uint64_t site, uint64_t skip, bool from) { arm_alloc_failures({}, -1); site_arm = site; site_left = skip; site_from = from; site_on = false; }
void disarm_alloc_failures() { site_arm = 0; armed = false; new_may_fail = false; fail_at.clear(); fail_from = -1; }
uint64_t alloc_ordinal() { return alloc_ord; }
uint64_t alloc_failures_fired() { return fails_fired; }
std::vector<BlockInfo> live_blocks() { std::vector<BlockInfo> v; for (auto& b : blocks) if (b.live && b.kind != K_USER && b.kind != K_LIB) v.push_back({b.addr, b.size, b.ord, b.kind}); return v; }
size_t live_count() { return nlive; }
size_t live_bytes() { return blive; }
void* user_alloc(size_t n) { return heap_alloc(n, K_USER, false, false); }
void user_free(void* p) { heap_free(p, K_USER, 0); }
void* host_alloc(size_t n, bool zero) { void* p = heap_alloc(n, K_LIB, zero, true); if (p && !zero && memcheck) memset(p, 0xcd, n); return p; }
void host_free(void* p) { heap_free(p, K_LIB, 0); }
bool in_heap(const void* p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
size_t host_size(const void* p) { Block* b = find_block((uintptr_t)p); return b && b->live ? b->size : 0; }
size_t host_live() { size_t n = 0; for (auto& b : blocks) if (b.live && b.kind == K_LIB) n++; return n; }

// ---- control ---------------------------------------------------------------------------------------------
static void* map_fixed(uintptr_t a, size_t n) { void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void*)a) { fprintf(stderr, "cannot map %lx (%zu)\n", (unsigned long)a, n); _exit(3); } return p; }
static void* map_any(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; }
static bool booted;
void boot() {
  if (booted) return; booted = true;
  map_fixed(REGION, REGION_SZ);
  map_fixed((uintptr_t)shadow_of(REGION) & ~4095ull, REGION_SZ / 8 + 4096);
  map_fixed((uintptr_t)shadow_of(GLOB) & ~4095ull, GLOB_SZ / 8 + 4096);
  cells_region = (Cell*)map_any(REGION_SZ / 8 * sizeof(Cell));
  cells_glob = (Cell*)map_any(GLOB_SZ / 8 * sizeof(Cell));
  block_index = (uint32_t*)map_any(ARENA_SZ / 16 * 4);
  for (int i = 0; i < MAXF; i++) { mprotect((void*)(STACKS + (uintptr_t)i * STACK_SZ), 4096, PROT_NONE); }
  shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  brk_ = ARENA + 64;
}
static char altstack[65536];
static void on_signal(int sig, siginfo_t* si, void*) {
  static volatile int once; if (once++) _exit(4);
  char b[300]; 
  if (sig == SIGVTALRM) { snprintf(b, sizeof b, "CPU time limit reached in op %s", current_op()); violation("no-termination", b); }
  uintptr_t a = (uintptr_t)si->si_addr; const char* w = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : "signal";
  bool guard = (a - STACKS < STACKS_SZ) && ((a - STACKS) % STACK_SZ < 4096);
  if (sig == SIGSEGV || sig == SIGBUS || sig == SIGFPE) snprintf(b, sizeof b, "%s at address 0x%lx in op %s", w, (unsigned long)a, current_op());
  else { guard = false; snprintf(b, sizeof b, "%s in op %s", w, current_op()); } // si_addr holds the sender's pid there
  violation(guard ? "crash:stack-overflow" : (std::string("crash:") + w), b);
}
static int64_t clk_now, clk_last; static std::vector<std::pair<int, int64_t>> clk_reads; static std::set<std::string> faulted; static uint64_t clk_ns;
static std::string out_; static size_t block_no0;
struct SFile { uint64_t magic; std::string name; bool open; bool wr; bool err; size_t pos; std::string buf; bool over = false; };
static std::map<std::string, std::string> files; static std::deque<SFile> streams; static std::map<int, int> io_plan; static int io_ord; static int io_fired; static int64_t disk_cap = -1; static std::set<std::string> close_err;
void begin(const Config& c) {
  shared->steps += step_no; shared->regions += region_no; shared->sim_ms += clk_ns / 1000000;
  cfg = c; srng = Rng(c.sched_seed); trng = Rng(c.team_seed); prng = Rng(mix(c.sched_seed, 77)); mrng = Rng(c.place_seed); crng = Rng(c.clock_seed);
  step_no = 0; countdown_ = NEVER; step_limit = c.step_budget; sw_pos = team_pos = 0; region_no = 0; clk_now = c.clock0; clk_last = clk_now; clk_ns = 0;
  stack_t ss{}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
  struct itimerval it{}; it.it_value.tv_sec = 40; setitimer(ITIMER_VIRTUAL, &it, nullptr);
  starve_victim = -1; memcheck = c.memcheck; freelist.clear(); paint_no = 0; locks.clear(); sync_vc.clear(); armed = false; site_record = false; site_arm = 0; fail_at.clear(); fail_from = -1;
  files.clear(); io_plan.clear(); disk_cap = -1; io_ord = 0; close_err.clear(); clk_reads.clear(); out_.clear();
  race_on = false; cur = nullptr; alive = 0; block_no0 = blocks.size();
}
void spawn(std::function<void()> body) { Fiber* f = free_fiber(); if (!f) abort(); f->caller = true; f->team = nullptr; f->tid = 0; f->op = ""; f->parentf = nullptr; f->want_threads = 0; if (f->vc.size() < MAXF) f->vc.resize(MAXF); vc_tick(f); start_fiber(f, std::move(body)); }
void run_all() {
  race_new_epoch();
  int n = 0; for (int i = 0; i < MAXF; i++) if (fibers[i].used && !fibers[i].done) n++;
  if (!n) return;
  race_on = cfg.races && n > 1;
  if (cfg.policy == P_STARVE) starve_victim = (int)srng.below((uint64_t)n);
  std::vector<Fiber*> r = runnables(); step_no++;
  Fiber* f = r[0]; cur = f; set_countdown();
  sim_switch(&main_sp, f->sp);
  // join: everything the threads did happens before what follows
  VC j; for (int i = 0; i < MAXF; i++) if (fibers[i].used) { vc_merge(j, fibers[i].vc); }
  for (int i = 0; i < MAXF; i++) { fibers[i].used = false; fibers[i].done = false; fibers[i].vc = j; fibers[i].vc.resize(MAXF); vc_tick(&fibers[i]); }
  race_on = false; alive = 0;
}
static void finalize(int st) {
  shared->steps += step_no; shared->regions += region_no; shared->sim_ms += (uint64_t)((clk_ns / 1000000)); shared->status = st;
}
void violation(const std::string& cls, const std::string& detail) {
  if (!shared || shared->status != 0) _exit(5);
  snprintf(shared->cls, sizeof shared->cls, "%s", cls.c_str()); snprintf(shared->detail, sizeof shared->detail, "%s", detail.c_str());
  finalize(2); _exit(0);
}
void finish_ok() { finalize(1); _exit(0); }
void probe(int bit) { shared->probes |= 1ull << bit; }
void note(uint64_t v) { shared->result_hash = mix(shared->result_hash, v); }
void note_bytes(const void* p, size_t n) { uint64_t h = 1469598103934665603ull; const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } note(h ^ n); }
int self() { return cur ? cur->id : -1; }
uint64_t now_step() { return step_no; }
void set_step_limit(uint64_t k) { step_limit = k ? step_no + k : cfg.step_budget; }
void clear_step_limit() { step_limit = std::max(cfg.step_budget, step_no + cfg.step_budget); }
void sut_enter(const char* what) { if (cur) { cur->op = what; cur->in_sut = true; } }
void sut_leave() { if (cur) { flush_pending(cur); cur->in_sut = false; } }
const char* current_op() { return cur ? cur->op : ""; }
void set_threads(int n) { cfg.threads = n; }
int region_ordinal() { return (int)region_no; }

// ---- stdio -------------------------------------------------------------------------------------------------
static int io_fault() { int o = io_ord++; auto it = io_plan.find(o); return it == io_plan.end() ? 0 : it->second; }
void io_fault_clear() { io_plan.clear(); disk_cap = -1; }
void io_fault_set(const std::vector<std::pair<int,int>>& f, int64_t cap) { io_plan.clear(); for (auto& x : f) io_plan[x.first] = x.second; disk_cap = cap; io_ord = 0; io_fired = 0; close_err.clear(); faulted.clear(); }
int io_faults_fired() { return io_fired; }
int io_ops() { return io_ord; }
bool closed_with_error(const std::string& n) { return close_err.count(n) > 0; }
std::string& out() { return out_; }
std::string take_out() { std::string s; s.swap(out_); return s; }
bool file_exists(const std::string& n) { return files.count(n) > 0; }
std::string file_data(const std::string& n) { auto it = files.find(n); return it == files.end() ? "" : it->second; }
std::vector<std::string> file_names() { std::vector<std::string> v; for (auto& x : files) v.push_back(x.first); return v; }
void file_put(const std::string& n, const std::string& d) { files[n] = d; }
int open_streams() { int n = 0; for (auto& s : streams) if (s.open) n++; return n; }
int64_t clock_last() { return clk_last; }
std::vector<std::pair<int, int64_t>>& clock_reads() { return clk_reads; }
bool file_faulted(const std::string& n) { return faulted.count(n) > 0; }
static SFile* stream_of(FILE* f, const char* what) {
  for (auto& s : streams) if ((FILE*)&s == f) { if (!s.open) violation("stdio:closed-stream", std::string(what) + " on a closed stream in op " + current_op()); return &s; }
  violation("stdio:bad-stream", std::string(what) + (f ? " on an invalid stream in op " : " on a null stream in op ") + current_op());
}
static bool is_std(FILE* f) { return f == stdout || f == stderr; }
static int stream_write(FILE* f, const char* d, size_t n, const char* what) {
  if (is_std(f)) { out_.append(d, n); return (int)n; }
  SFile* s = stream_of(f, what);
  int k = io_fault(); size_t m = n; bool bad = false;
  if (k == 1 || k == 2) { io_fired++; shared->faults[F_SHORT_WRITE]++; m = n / 2; bad = true; faulted.insert(s->name); }
  if (disk_cap >= 0) { int64_t used = 0; for (auto& x : files) used += (int64_t)x.second.size(); if (used + (int64_t)m > disk_cap) { int64_t left = disk_cap - used; m = left > 0 ? (size_t)left : 0; bad = true; io_fired++; shared->faults[F_DISK_FULL]++; faulted.insert(s->name); } }
  if (s->over) { std::string& t = files[s->name]; if (s->pos > t.size()) t.resize(s->pos, 0); t.replace(s->pos, std::min(m, t.size() - s->pos), d, m); s->pos += m; } else files[s->name].append(d, m);
  if (bad) { s->err = true; return -1; }
  return (int)n;
}
static std::string vfmt(const char* fmt, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, fmt, a2); va_end(a2); if (n < 0) n = 0; std::string s((size_t)n + 1, 0); vsnprintf(&s[0], s.size(), fmt, ap); s.resize((size_t)n); return s; }
} // namespace sim
using namespace sim;

// ---- TSan ABI -------------------------------------------------------------------------------------------------
#define PC ((uint32_t)(uintptr_t)RA)
#define ACC(n, sz) \
  EXPORT void __tsan_read##n(void* a) { on_access((uintptr_t)a, sz, false, PC); } \
  EXPORT void __tsan_write##n(void* a) { on_access((uintptr_t)a, sz, true, PC); } \
  EXPORT void __tsan_volatile_read##n(void* a) { on_access((uintptr_t)a, sz, false, PC); } \
  EXPORT void __tsan_volatile_write##n(void* a) { on_access((uintptr_t)a, sz, true, PC); } \
  EXPORT void __tsan_unaligned_read##n(void* a) { on_access((uintptr_t)a, sz, false, PC); } \
  EXPORT void __tsan_unaligned_write##n(void* a) { on_access((uintptr_t)a, sz, true, PC); } \
  EXPORT void __tsan_unaligned_volatile_read##n(void* a) { on_access((uintptr_t)a, sz, false, PC); } \
  EXPORT void __tsan_unaligned_volatile_write##n(void* a) { on_access((uintptr_t)a, sz, true, PC); } \
  EXPORT void __asan_load##n##_noabort(void* a) { on_access((uintptr_t)a, sz, false, PC); } \
  EXPORT void __asan_store##n##_noabort(void* a) { on_access((uintptr_t)a, sz, true, PC); }
ACC(1, 1) ACC(2, 2) ACC(4, 4) ACC(8, 8) ACC(16, 16)
static void acc_range(uintptr_t a, size_t n, bool w, uint32_t pc) { while (n) { unsigned c = (unsigned)std::min<size_t>(n, 16); on_access(a, c, w, pc); a += c; n -= c; } }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void** a, void*) { on_access((uintptr_t)a, 8, true, PC); }
EXPORT void __tsan_vptr_read(void** a) { on_access((uintptr_t)a, 8, false, PC); }
EXPORT void __tsan_read_range(void* a, size_t n) { acc_range((uintptr_t)a, n, false, PC); }
EXPORT void __tsan_write_range(void* a, size_t n) { acc_range((uintptr_t)a, n, true, PC); }
EXPORT void __asan_loadN_noabort(void* a, size_t n) { acc_range((uintptr_t)a, n, false, PC); }
EXPORT void __asan_storeN_noabort(void* a, size_t n) { acc_range((uintptr_t)a, n, true, PC); }
EXPORT void __asan_handle_no_return() { // the frames up to whoever catches are left without their epilogues
#ifdef SIM_STACK_SHADOW
  uintptr_t sp = (uintptr_t)__builtin_frame_address(0) & ~63ull; if (sp - STACKS < STACKS_SZ) { uintptr_t top = STACKS + ((sp - STACKS) / STACK_SZ + 1) * STACK_SZ; memset(shadow_of(sp), 0, (top - sp) / 8); }
#endif
}
EXPORT void __asan_init() {}
EXPORT void __asan_version_mismatch_check_v8() {}
struct AsanGlobal { uintptr_t beg; uintptr_t size, size_rz; const char* name; const char* module; uintptr_t init; void* loc; uintptr_t odr; };
EXPORT void __asan_register_globals(void* p, uintptr_t n) { boot(); AsanGlobal* g = (AsanGlobal*)p; for (uintptr_t i = 0; i < n; i++) { if (g[i].beg - GLOB >= GLOB_SZ) continue; uintptr_t e = (g[i].beg + g[i].size + 7) & ~7ull; if (g[i].size & 7) *shadow_of(g[i].beg + (g[i].size & ~7ull)) = (uint8_t)(g[i].size & 7); uintptr_t end = g[i].beg + g[i].size_rz; if (end > e) memset(shadow_of(e), 0xf9, (end - e) / 8); } }
EXPORT void __asan_unregister_globals(void*, uintptr_t) {}
EXPORT void __asan_before_dynamic_init(void*) {}
EXPORT void __asan_after_dynamic_init() {}
EXPORT void __asan_alloca_poison(uintptr_t addr, uintptr_t size) {
  if (addr - STACKS >= STACKS_SZ) return;
  uintptr_t lrz = addr - 32; memset(shadow_of(lrz), 0xca, 4);
  memset(shadow_of(addr), 0, size / 8); uintptr_t e = addr + (size & ~7ull); if (size & 7) { *shadow_of(e) = (uint8_t)(size & 7); e += 8; }
  uintptr_t rend = ((addr + size + 31) & ~31ull) + 32; if (rend > e) memset(shadow_of(e), 0xcb, (rend - e) / 8);
}
// variables of an inner scope: out of reach once the scope is left
EXPORT void __asan_poison_stack_memory(uintptr_t a, size_t n) { if (a - STACKS < STACKS_SZ) memset(shadow_of(a), 0xf8, (n + 7) / 8); }
EXPORT void __asan_unpoison_stack_memory(uintptr_t a, size_t n) { if (a - STACKS < STACKS_SZ) unpoison(a, n); }
EXPORT void __asan_allocas_unpoison(uintptr_t top, uintptr_t bottom) { if (!top || top > bottom || top - STACKS >= STACKS_SZ) return; memset(shadow_of(top), 0, (bottom - top) / 8); }
EXPORT void __tsan_atomic_thread_fence(int) { entry_point(); }
EXPORT void __tsan_atomic_signal_fence(int) {}
template <class T, class F> static T atomic_op(volatile T* p, F f) {
  if (cur && cur->in_sut) { entry_point(); uintptr_t a = (uintptr_t)p; if (a - ARENA < ARENA_SZ && !shadow_ok(a, sizeof(T))) bad_access(a, sizeof(T), true, 0); VC& v = sync_vc[a]; hb_acquire(v); T r = f((T*)p); hb_release(v); return r; }
  return f((T*)p);
}
typedef unsigned __int128 u128;
#define ATOM(b, T) \
  EXPORT T __tsan_atomic##b##_load(const volatile T* p, int) { return atomic_op<T>((volatile T*)p, [](T* q) { return *q; }); } \
  EXPORT void __tsan_atomic##b##_store(volatile T* p, T v, int) { atomic_op<T>(p, [v](T* q) { T o = *q; *q = v; return o; }); } \
  EXPORT T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { return atomic_op<T>(p, [v](T* q) { T o = *q; *q = v; return o; }); } \
  EXPORT T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { return atomic_op<T>(p, [v](T* q) { T o = *q; *q = (T)(o + v); return o; }); } \
  EXPORT T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { return atomic_op<T>(p, [v](T* q) { T o = *q; *q = (T)(o - v); return o; }); } \
  EXPORT T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { return atomic_op<T>(p, [v](T* q) { T o = *q; *q = (T)(o & v); return o; }); } \
  EXPORT T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { return atomic_op<T>(p, [v](T* q) { T o = *q; *q = (T)(o | v); return o; }); } \
  EXPORT T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { return atomic_op<T>(p, [v](T* q) { T o = *q; *q = (T)(o ^ v); return o; }); } \
  EXPORT T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { return atomic_op<T>(p, [v](T* q) { T o = *q; *q = (T) ~(o & v); return o; }); } \
  EXPORT bool __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* e, T d, int, int) { bool ok = false; T ex = *e; T o = atomic_op<T>(p, [&](T* q) { T c = *q; if (c == ex) { *q = d; ok = true; } return c; }); if (!ok) *e = o; return ok; } \
  EXPORT bool __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* e, T d, int, int) { bool ok = false; T ex = *e; T o = atomic_op<T>(p, [&](T* q) { T c = *q; if (c == ex) { *q = d; ok = true; } return c; }); if (!ok) *e = o; return ok; } \
  EXPORT T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T ex, T d, int, int) { return atomic_op<T>(p, [&](T* q) { T c = *q; if (c == ex) *q = d; return c; }); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, u128)

// ---- GOMP ABI ---------------------------------------------------------------------------------------------------
static int ask_threads() { return cur && cur->want_threads > 0 ? cur->want_threads : cfg.threads; }
static int team_size(unsigned req) {
  int want = req ? (int)req : ask_threads();
  if (cur && cur->level > 0) want = 1; // nested parallelism is off by default
  if (want < 1) want = 1;
  int freeslots = 0; for (int i = 0; i < MAXF; i++) if (!fibers[i].used) freeslots++;
  if (want - 1 > freeslots) want = freeslots + 1;
  int dflt = want, got = want; int ord = (int)region_no;
  if (cfg.policy == P_EXPLICIT) { while (team_pos < cfg.teams.size() && cfg.teams[team_pos].first < ord) team_pos++; if (team_pos < cfg.teams.size() && cfg.teams[team_pos].first == ord) got = std::min(std::max(1, cfg.teams[team_pos].second), freeslots + 1); }
  else if (want > 1 && cfg.short_pct && (int)trng.below(100) < cfg.short_pct) got = 1 + (int)trng.below((uint64_t)want);
  if (got != dflt) { shared->faults[F_SHORT_TEAM]++; if (shared->nteam < sizeof(shared->team) / sizeof(shared->team[0])) { shared->team[shared->nteam].ord = ord; shared->team[shared->nteam].size = got; shared->nteam++; } shared->trace_hash = mix(shared->trace_hash ^ 0x7ea3, (uint64_t)ord * 64 + (uint64_t)got); }
  return got;
}
static void run_parallel(void (*fn)(void*), void* data, unsigned req, std::function<void(Team*)> setup = nullptr) {
  if (!cur) { fn(data); return; }
  flush_pending(cur); tick();
  Fiber* me = cur; int n = team_size(req); region_no++; if (n > 1) shared->multi_regions++;
  Team* t = new Team; t->size = n; t->parent = me->team; Team* oldteam = me->team; int oldtid = me->tid, oldlevel = me->level, oldws = me->ws_seq;
  if (setup) setup(t);
  bool outer_race = race_on;
  if (n > 1 && !race_on) { race_new_epoch(); race_on = cfg.races; }
  std::vector<Fiber*> w;
  vc_tick(me);
  for (int i = 1; i < n; i++) { Fiber* f = free_fiber(); f->used = true; w.push_back(f); }
  for (int i = 1; i < n; i++) {
    Fiber* f = w[(size_t)i - 1]; f->caller = false; f->team = t; f->tid = i; f->op = me->op; f->parentf = me; f->want_threads = me->want_threads;
    if (f->vc.size() < (size_t)MAXF) f->vc.resize(MAXF); vc_merge(f->vc, me->vc); vc_tick(f);
    start_fiber(f, [fn, data]() { cur->in_sut = true; cur->level = 1; fn(data); flush_pending(cur); cur->in_sut = false; });
  }
  vc_tick(me);
  if (cfg.policy == P_STARVE && n > 1) { int k = (int)srng.below((uint64_t)n); starve_victim = k == 0 ? me->id : w[(size_t)k - 1]->id; }
  me->team = t; me->tid = 0; me->level = oldlevel + (n > 1); me->ws_seq = 0; // a region of one thread is not an active level
  if (n > 1) { set_countdown(); if (cfg.policy == P_REVERSE || cfg.policy == P_PCT || srng.below(2)) { if (cfg.policy != P_SEQ) decide(false); } else if (cfg.policy == P_EXPLICIT) decide(false); else step_no++; }
  fn(data);
  flush_pending(me);
  if (n > 1) block_until([t, n]() { return t->finished == n - 1; });
  while (!t->tasks.empty()) { Task k = t->tasks.front(); t->tasks.pop_front(); k.fn(k.arg); }
  for (auto f : w) { vc_merge(me->vc, f->vc); f->used = false; f->done = false; f->team = nullptr; }
  vc_tick(me);
  me->team = oldteam; me->tid = oldtid; me->level = oldlevel; me->ws_seq = oldws; if (cfg.policy == P_STARVE) starve_victim = -1;
  race_on = outer_race; delete t; set_countdown();
}
EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_parallel(fn, data, n); }
static WS& my_ws() { static WS solo; Fiber* f = cur; if (!f->team) { f->team = new Team; } return f->team->ws[f->ws_seq]; }
EXPORT void GOMP_barrier() {
  if (!cur || !cur->team || cur->team->size == 1) return;
  flush_pending(cur); tick(); Team* t = cur->team; hb_release(t->barvc); uint64_t g = t->bar_gen;
  if (++t->bar_arrived == t->size) { t->bar_arrived = 0; t->bar_gen++; } else block_until([t, g]() { return t->bar_gen != g; });
  hb_acquire(t->barvc);
}
static void lock_acquire(uintptr_t a, bool nest = false) {
  if (!cur) return; flush_pending(cur); tick(); Fiber* me = cur; Lock* l = &locks[a];
  if (nest && l->owner == me->id) { l->depth++; return; }
  block_until([l]() { return l->owner < 0; }); l->owner = me->id; l->depth = 1; hb_acquire(sync_vc[a]);
}
static void lock_release(uintptr_t a) { if (!cur) return; Lock* l = &locks[a]; if (--l->depth > 0) return; hb_release(sync_vc[a]); l->owner = -1; tick(); }
EXPORT void GOMP_critical_start() { lock_acquire(1); }
EXPORT void GOMP_critical_end() { lock_release(1); }
EXPORT void GOMP_critical_name_start(void** p) { lock_acquire((uintptr_t)p); }
EXPORT void GOMP_critical_name_end(void** p) { lock_release((uintptr_t)p); }
EXPORT void GOMP_atomic_start() { lock_acquire(2); }
EXPORT void GOMP_atomic_end() { lock_release(2); }
EXPORT bool GOMP_single_start() { if (!cur) return true; entry_point(); WS& w = my_ws(); cur->ws_seq++; if (w.single_owner < 0) { w.single_owner = cur->id; return true; } return false; }
EXPORT void* GOMP_single_copy_start() { if (!cur) return nullptr; entry_point(); WS* w = &my_ws(); if (w->single_owner < 0) { w->single_owner = cur->id; return nullptr; } cur->ws_seq++; block_until([w]() { return w->copy != nullptr; }); hb_acquire(sync_vc[(uintptr_t)w]); return w->copy; }
EXPORT void GOMP_single_copy_end(void* d) { if (!cur) return; WS* w = &my_ws(); cur->ws_seq++; hb_release(sync_vc[(uintptr_t)w]); w->copy = d; GOMP_barrier(); }
// loops, handled in unsigned arithmetic with explicit direction
static bool loop_next(WS& w, unsigned long long* s, unsigned long long* e) {
  tick();
  unsigned long long left;
  if (w.up) { if (w.next >= w.end) return false; left = (w.end - w.next + w.incr - 1) / w.incr; }
  else { if (w.next <= w.end) return false; unsigned long long d = 0 - w.incr; left = (w.next - w.end + d - 1) / d; }
  unsigned long long c = w.chunk ? w.chunk : 1;
  if (w.kind == 2) { unsigned long long g = (left + (unsigned)cur->team->size - 1) / (unsigned)cur->team->size; if (g > c) c = g; }
  if (w.kind == 0) { c = w.chunk ? w.chunk : (left + (unsigned)cur->team->size - 1) / (unsigned)cur->team->size; if (c == 0) c = 1; }
  if (c > left) c = left;
  *s = w.next; *e = w.next + c * w.incr; w.next = *e; return true;
}
static bool ls(long a, long b, long inc, long ch, int kind, long* s, long* e) { // signed: bias to unsigned
  entry_point(); WS& w = my_ws(); const unsigned long long B = 1ull << 63;
  if (!w.init) { w.init = true; w.next = (unsigned long long)a + B; w.end = (unsigned long long)b + B; w.incr = (unsigned long long)inc; w.up = inc > 0; w.chunk = (unsigned long long)ch; w.kind = kind; if (w.up ? w.end < w.next : w.end > w.next) w.end = w.next; }
  unsigned long long x, y; if (!loop_next(w, &x, &y)) return false; *s = (long)(x - B); *e = (long)(y - B); cur->loop_cur = x; return true;
}
static bool ln(long* s, long* e) { entry_point(); WS& w = my_ws(); const unsigned long long B = 1ull << 63; unsigned long long x, y; if (!loop_next(w, &x, &y)) return false; *s = (long)(x - B); *e = (long)(y - B); cur->loop_cur = x; return true; }
typedef unsigned long long ull;
static bool uls(bool up, ull a, ull b, ull inc, ull ch, int kind, ull* s, ull* e) { entry_point(); WS& w = my_ws(); if (!w.init) { w.init = true; w.next = a; w.end = b; w.incr = inc; w.up = up; w.chunk = ch; w.kind = kind; if (up ? b < a : b > a) w.end = a; } if (!loop_next(w, s, e)) return false; cur->loop_cur = *s; return true; }
static bool uln(ull* s, ull* e) { entry_point(); WS& w = my_ws(); if (!loop_next(w, s, e)) return false; cur->loop_cur = *s; return true; }
#define LOOP(nm, kind) \
  EXPORT bool GOMP_loop_##nm##_start(long a, long b, long i, long c, long* s, long* e) { return ls(a, b, i, c, kind, s, e); } \
  EXPORT bool GOMP_loop_##nm##_next(long* s, long* e) { return ln(s, e); } \
  EXPORT bool GOMP_loop_ull_##nm##_start(bool up, ull a, ull b, ull i, ull c, ull* s, ull* e) { return uls(up, a, b, i, c, kind, s, e); } \
  EXPORT bool GOMP_loop_ull_##nm##_next(ull* s, ull* e) { return uln(s, e); }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2) LOOP(ordered_static, 0) LOOP(ordered_dynamic, 1) LOOP(ordered_guided, 2)
#define RLOOP(nm) \
  EXPORT bool GOMP_loop_##nm##_start(long a, long b, long i, long* s, long* e) { return ls(a, b, i, 1, 1, s, e); } \
  EXPORT bool GOMP_loop_##nm##_next(long* s, long* e) { return ln(s, e); } \
  EXPORT bool GOMP_loop_ull_##nm##_start(bool up, ull a, ull b, ull i, ull* s, ull* e) { return uls(up, a, b, i, 1, 1, s, e); } \
  EXPORT bool GOMP_loop_ull_##nm##_next(ull* s, ull* e) { return uln(s, e); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime) RLOOP(ordered_runtime)
EXPORT void GOMP_loop_end_nowait() { if (cur) { entry_point(); cur->ws_seq++; } }
EXPORT void GOMP_loop_end() { if (cur) { entry_point(); cur->ws_seq++; GOMP_barrier(); } }
#define PLOOP(nm, KD) EXPORT void GOMP_parallel_loop_##nm(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { run_parallel(fn, d, n, [=](Team* t) { WS& w = t->ws[0]; const ull B = 1ull << 63; w.init = true; w.next = (ull)a + B; w.end = (ull)b + B; w.incr = (ull)i; w.up = i > 0; w.chunk = (ull)c; w.kind = KD; if (w.up ? w.end < w.next : w.end > w.next) w.end = w.next; }); }
PLOOP(static, 0) PLOOP(dynamic, 1) PLOOP(guided, 2) PLOOP(nonmonotonic_dynamic, 1) PLOOP(nonmonotonic_guided, 2)
#define PRLOOP(nm) EXPORT void GOMP_parallel_loop_##nm(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, unsigned) { run_parallel(fn, d, n, [=](Team* t) { WS& w = t->ws[0]; const ull B = 1ull << 63; w.init = true; w.next = (ull)a + B; w.end = (ull)b + B; w.incr = (ull)i; w.up = i > 0; w.chunk = 1; w.kind = 1; if (w.up ? w.end < w.next : w.end > w.next) w.end = w.next; }); }
PRLOOP(runtime) PRLOOP(nonmonotonic_runtime) PRLOOP(maybe_nonmonotonic_runtime)
EXPORT void GOMP_ordered_start() { if (!cur || !cur->team || cur->team->size == 1) return; flush_pending(cur); tick(); WS* w = &my_ws(); Fiber* me = cur; block_until([w, me]() { return w->ordered_next == me->loop_cur; }); hb_acquire(sync_vc[(uintptr_t)w]); }
EXPORT void GOMP_ordered_end() { if (!cur || !cur->team || cur->team->size == 1) return; WS* w = &my_ws(); hb_release(sync_vc[(uintptr_t)w]); w->ordered_next += w->incr; cur->loop_cur += w->incr; }
EXPORT unsigned GOMP_sections_start(unsigned n) { entry_point(); WS& w = my_ws(); if (!w.init) { w.init = true; w.sec_n = n; w.sec_next = 0; } return w.sec_next < w.sec_n ? ++w.sec_next : 0; }
EXPORT unsigned GOMP_sections_next() { entry_point(); WS& w = my_ws(); return w.sec_next < w.sec_n ? ++w.sec_next : 0; }
EXPORT void GOMP_sections_end() { cur->ws_seq++; GOMP_barrier(); }
EXPORT void GOMP_sections_end_nowait() { cur->ws_seq++; }
EXPORT void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { run_parallel(fn, d, n, [=](Team* t) { WS& w = t->ws[0]; w.init = true; w.sec_n = cnt; }); }
EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int) { if (cur) entry_point(); if (cpy) { std::vector<char> b((size_t)(sz + al)); char* a = (char*)(((uintptr_t)b.data() + (uintptr_t)al - 1) & ~(uintptr_t)(al - 1)); cpy(a, data); fn(a); } else fn(data); }
EXPORT void GOMP_taskwait() {} EXPORT void GOMP_taskyield() { entry_point(); } EXPORT void GOMP_taskgroup_start() {} EXPORT void GOMP_taskgroup_end() {}
EXPORT bool GOMP_cancel(int, bool) { return false; } EXPORT bool GOMP_cancellation_point(int) { return false; } EXPORT bool GOMP_barrier_cancel() { GOMP_barrier(); return false; } EXPORT bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
EXPORT int omp_get_thread_num() { return cur && cur->team ? cur->tid : 0; }
EXPORT int omp_get_num_threads() { return cur && cur->team ? cur->team->size : 1; }
EXPORT int omp_get_max_threads() { return ask_threads(); }
EXPORT int omp_get_num_procs() { return cfg.threads; }
EXPORT int omp_in_parallel() { return cur && cur->team && cur->team->size > 1; }
EXPORT void omp_set_num_threads(int n) { if (cur && n > 0) cur->want_threads = n; }
EXPORT int omp_get_level() { return cur ? cur->level : 0; }
EXPORT int omp_get_dynamic() { return 0; } EXPORT void omp_set_dynamic(int) {} EXPORT void omp_set_nested(int) {} EXPORT int omp_get_nested() { return 0; } EXPORT int omp_get_thread_limit() { return MAXF; }
EXPORT double omp_get_wtime() { return (double)clk_now + (double)step_no * 1e-9; } EXPORT double omp_get_wtick() { return 1e-9; }
EXPORT void omp_init_lock(void**) {} EXPORT void omp_destroy_lock(void**) {} EXPORT void omp_set_lock(void** p) { lock_acquire((uintptr_t)p); } EXPORT void omp_unset_lock(void** p) { lock_release((uintptr_t)p); }
EXPORT int omp_test_lock(void** p) { entry_point(); if (locks[(uintptr_t)p].owner >= 0) return 0; lock_acquire((uintptr_t)p); return 1; }
EXPORT void omp_init_nest_lock(void**) {} EXPORT void omp_destroy_nest_lock(void**) {} EXPORT void omp_set_nest_lock(void** p) { lock_acquire((uintptr_t)p, true); } EXPORT void omp_unset_nest_lock(void** p) { lock_release((uintptr_t)p); }
EXPORT int sim_pthread_mutex_init(void*, void*) { return 0; } EXPORT int sim_pthread_mutex_destroy(void*) { return 0; } EXPORT int sim_pthread_mutex_lock(void* p) { lock_acquire((uintptr_t)p); return 0; } EXPORT int sim_pthread_mutex_unlock(void* p) { lock_release((uintptr_t)p); return 0; }
EXPORT int sim_pthread_mutex_trylock(void* p) { if (!cur) return 0; tick(); if (locks[(uintptr_t)p].owner >= 0) return EBUSY; lock_acquire((uintptr_t)p); return 0; }
EXPORT int sim_pthread_once(int* o, void (*f)()) { lock_acquire((uintptr_t)o); if (!*o) { *o = 1; f(); } lock_release((uintptr_t)o); return 0; }

// ---- allocation shims ------------------------------------------------------------------------------------------
static bool boot_heap() { if (!booted) { boot(); } return true; }
#define HEAPIN boot_heap(); entry_point();
EXPORT void* sim_malloc(size_t n) { HEAPIN return heap_alloc(n, K_MALLOC, false, true); }
EXPORT void* sim_calloc(size_t a, size_t b) { HEAPIN if (b && a > (size_t)-1 / b) return nullptr; return heap_alloc(a * b, K_MALLOC, true, true); }
EXPORT void sim_free(void* p) { HEAPIN heap_free(p, K_MALLOC, PC); }
EXPORT void* sim_realloc(void* p, size_t n) {
  HEAPIN if (!p) return heap_alloc(n, K_MALLOC, false, true);
  Block* b = find_block((uintptr_t)p); if (!b || b->addr != (uintptr_t)p || b->kind != K_MALLOC) violation("memory:invalid-free", std::string("realloc of a pointer that is not a heap block in op ") + current_op());
  if (!b->live) violation("memory:double-free", std::string("realloc of a freed block in op ") + current_op());
  if (n == 0) { heap_free(p, K_MALLOC, PC); return nullptr; }
  size_t old = b->size; void* q = heap_alloc(n, K_MALLOC, false, true); if (!q) return nullptr;
  memcpy(q, p, std::min(old, n)); heap_free(p, K_MALLOC, PC); return q;
}
EXPORT void* sim_reallocarray(void* p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) return nullptr; return sim_realloc(p, a * b); }
EXPORT void* sim_aligned_alloc(size_t, size_t n) { HEAPIN return heap_alloc(n, K_MALLOC, false, true); }
EXPORT int sim_posix_memalign(void** o, size_t, size_t n) { HEAPIN void* p = heap_alloc(n, K_MALLOC, false, true); if (!p) return 12; *o = p; return 0; }
static void* or_throw(void* p) { // only where the caller can catch it
  if (p) return p;
  __asan_handle_no_return();
  throw std::bad_alloc();
}
EXPORT void* sim_new(size_t n) { HEAPIN return or_throw(heap_alloc(n, K_NEW, false, new_may_fail)); }
EXPORT void* sim_new_arr(size_t n) { HEAPIN return or_throw(heap_alloc(n, K_NEWA, false, new_may_fail)); }
EXPORT void* sim_new_nt(size_t n, void*) { HEAPIN return heap_alloc(n, K_NEW, false, true); }
EXPORT void* sim_new_arr_nt(size_t n, void*) { HEAPIN return heap_alloc(n, K_NEWA, false, true); }
EXPORT void sim_delete(void* p) { HEAPIN heap_free(p, K_NEW, PC); }
EXPORT void sim_delete_sz(void* p, size_t) { HEAPIN heap_free(p, K_NEW, PC); }
EXPORT void sim_delete_arr(void* p) { HEAPIN heap_free(p, K_NEWA, PC); }
EXPORT void sim_delete_arr_sz(void* p, size_t) { HEAPIN heap_free(p, K_NEWA, PC); }
static void* do_copy(void* d, const void* s, size_t n, uint32_t pc, bool overlap_ok) {
  if (!cur || !cur->in_sut) return memmove(d, s, n);
  entry_point(); if (!n) return d;
  on_range((uintptr_t)s, n, false, pc); on_range((uintptr_t)d, n, true, pc);
  if (!overlap_ok && d != s && ((char*)d < (char*)s + n && (char*)s < (char*)d + n)) { char b[160]; snprintf(b, sizeof b, "memcpy of %zu bytes between overlapping ranges, pc 0x%x, op %s", n, pc, current_op()); violation("memory:overlapping-copy", b); }
  if (race_on) { std::vector<unsigned char> old((unsigned char*)d, (unsigned char*)d + n); memmove(d, s, n); range_written((uintptr_t)d, old.data(), n, pc); } else memmove(d, s, n);
  return d;
}
EXPORT void* sim_memcpy(void* d, const void* s, size_t n) { return do_copy(d, s, n, PC, false); }
namespace sim {
void sut_copy(void* d, const void* s, size_t n) { do_copy(d, s, n, PC, true); }
void wait_until(std::function<bool()> f) { entry_point(); block_until(f); }
void sync_acquire(uintptr_t k) { hb_acquire(sync_vc[k]); }
void sync_release(uintptr_t k) { hb_release(sync_vc[k]); }
}
EXPORT void* sim_memmove(void* d, const void* s, size_t n) { return do_copy(d, s, n, PC, true); }
EXPORT void* sim_memset(void* d, int c, size_t n) { if (!cur || !cur->in_sut) return memset(d, c, n); entry_point(); if (!n) return d; on_range((uintptr_t)d, n, true, PC); if (race_on) { std::vector<unsigned char> old((unsigned char*)d, (unsigned char*)d + n); memset(d, c, n); range_written((uintptr_t)d, old.data(), n, PC); } else memset(d, c, n); return d; }
EXPORT int sim_memcmp(const void* a, const void* b, size_t n) { if (cur && cur->in_sut) { entry_point(); on_range((uintptr_t)a, n, false, PC); on_range((uintptr_t)b, n, false, PC); } return memcmp(a, b, n); }
static size_t checked_len(const char* s, uint32_t pc) { if (!cur || !cur->in_sut) return strlen(s); size_t n = 0; for (;; n++) { uintptr_t a = (uintptr_t)s + n; if (a < 4096 || (a - REGION < REGION_SZ && !shadow_ok(a, 1))) bad_access(a, 1, false, pc); if (!s[n]) break; if (n > (1u << 24)) violation("memory:unterminated-string", current_op()); } return n; }
EXPORT size_t sim_strlen(const char* s) { entry_point(); size_t n = checked_len(s, PC); on_range((uintptr_t)s, n + 1, false, PC); return n; }
EXPORT char* sim_strcpy(char* d, const char* s) { size_t n = checked_len(s, PC); do_copy(d, s, n + 1, PC, false); return d; }
EXPORT char* sim_strcat(char* d, const char* s) { size_t m = checked_len(d, PC), n = checked_len(s, PC); do_copy(d + m, s, n + 1, PC, false); return d; }
EXPORT char* sim_strncpy(char* d, const char* s, size_t k) { size_t n = strnlen(s, k); do_copy(d, s, n, PC, false); if (n < k) sim_memset(d + n, 0, k - n); return d; }
EXPORT char* sim_strncat(char* d, const char* s, size_t k) { size_t m = checked_len(d, PC), n = strnlen(s, k); do_copy(d + m, s, n, PC, false); sim_memset(d + m + n, 0, 1); return d; }
EXPORT char* sim_strdup(const char* s) { size_t n = checked_len(s, PC); char* p = (char*)sim_malloc(n + 1); if (p) do_copy(p, s, n + 1, PC, false); return p; }
EXPORT char* sim_strndup(const char* s, size_t k) { size_t n = strnlen(s, k); char* p = (char*)sim_malloc(n + 1); if (p) { do_copy(p, s, n, PC, false); p[n] = 0; } return p; }
EXPORT int sim_strcmp(const char* a, const char* b) { entry_point(); checked_len(a, PC); checked_len(b, PC); return strcmp(a, b); }
// qsort: any algorithm is legal, so the run picks one
EXPORT void sim_qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  entry_point(); if (n * sz) { on_range((uintptr_t)base, n * sz, true, PC); }
  if (n < 2) return;
  char* b = (char*)base; std::vector<std::vector<char>> items(n); std::vector<char> old(b, b + n * sz);
  // comparator works on copies held in harness memory so that the algorithm is free to move them
  for (size_t i = 0; i < n; i++) items[i].assign(b + i * sz, b + (i + 1) * sz);
  std::vector<size_t> ix(n); for (size_t i = 0; i < n; i++) ix[i] = i;
  auto c = [&](size_t x, size_t y) { return cmp(items[x].data(), items[y].data()); };
  uint64_t guard = 0, lim = 64 * (uint64_t)n * (uint64_t)(n + 8); (void)lim; (void)guard;
  switch (n > 2000 ? 1 : cfg.qsort_mode % 3) {
    case 0: { // stable insertion
      for (size_t i = 1; i < n; i++) { size_t v = ix[i]; size_t j = i; while (j > 0 && c(ix[j - 1], v) > 0) { ix[j] = ix[j - 1]; j--; } ix[j] = v; } break; }
    case 1: { // heap sort (unstable)
      auto sift = [&](size_t i, size_t m) { for (;;) { size_t l = 2 * i + 1; if (l >= m) return; if (l + 1 < m && c(ix[l], ix[l + 1]) < 0) l++; if (c(ix[i], ix[l]) >= 0) return; std::swap(ix[i], ix[l]); i = l; } };
      for (size_t i = n / 2; i-- > 0;) sift(i, n); for (size_t m = n; m-- > 1;) { std::swap(ix[0], ix[m]); sift(0, m); } break; }
    default: { // selection from the back: reverses equal items
      for (size_t i = 0; i + 1 < n; i++) { size_t m = i; for (size_t j = i + 1; j < n; j++) if (c(ix[j], ix[m]) <= 0) m = j; std::swap(ix[i], ix[m]); } break; }
  }
  for (size_t i = 0; i < n; i++) memcpy(b + i * sz, items[ix[i]].data(), sz);
  if (cur && cur->in_sut) range_written((uintptr_t)base, (unsigned char*)old.data(), n * sz, PC);
}
// ---- clock -----------------------------------------------------------------------------------------------------
EXPORT time_t sim_time(time_t* p) {
  entry_point(); clk_ns += 1000000; 
  switch (cfg.clock_mode) {
    case 1: { int64_t j = (int64_t)crng.below(100000); clk_now += j; clk_ns += (uint64_t)j * 1000000000ull; shared->faults[F_CLOCK_JUMP]++; break; }
    case 2: { int64_t j = (int64_t)crng.below(20000000) - 10000000; clk_now += j; if (j > 0) clk_ns += (uint64_t)j * 1000000000ull; shared->faults[F_CLOCK_JUMP]++; break; }
    case 3: { static const int64_t ex[] = {0, -1, 1, 951782399, 951782400, 253402300799ll, 253402300800ll, -62135596800ll, 4102444800ll, 67767976233532799ll}; clk_now = ex[crng.below(10)]; shared->faults[F_CLOCK_JUMP]++; break; }
    default: clk_now += (crng.below(4) == 0); if (clk_now != clk_last) clk_ns += 1000000000ull;
  }
  clk_last = clk_now; clk_reads.push_back({cur ? cur->id : -1, clk_now}); if (p) *p = (time_t)clk_now; return (time_t)clk_now;
}
EXPORT long sim_clock() { return (long)(step_no / 1000); }
static struct tm sim_tm __attribute__((aligned(16)));
static struct tm* tm_fill(const time_t* t, struct tm* r, uint32_t pc) {
  entry_point(); struct tm x; memset(&x, 0, sizeof x); on_range((uintptr_t)t, sizeof *t, false, pc); if (!gmtime_r(t, &x)) return nullptr;
  std::vector<unsigned char> old((unsigned char*)r, (unsigned char*)r + sizeof x); on_range((uintptr_t)r, sizeof x, true, pc); 
  // two halves, with a scheduling point between them, as in a real libc
  memcpy(r, &x, sizeof x / 2); if (cur && cur->in_sut) tick(); memcpy((char*)r + sizeof x / 2, (char*)&x + sizeof x / 2, sizeof x - sizeof x / 2);
  if (cur && cur->in_sut) range_written((uintptr_t)r, old.data(), sizeof x, pc);
  return r;
}
EXPORT struct tm* sim_gmtime(const time_t* t) { return tm_fill(t, &sim_tm, PC); }
EXPORT struct tm* sim_gmtime_r(const time_t* t, struct tm* r) { return tm_fill(t, r, PC); }
EXPORT int sim_gettimeofday(struct timeval* v, void*) { time_t t = sim_time(nullptr); if (v) { struct timeval x = {t, (long)(clk_ns % 1000000000ull / 1000)}; do_copy(v, &x, sizeof x, PC, true); } return 0; }
EXPORT int sim_clock_gettime(int id, struct timespec* v) { time_t t = id == CLOCK_REALTIME ? sim_time(nullptr) : (time_t)(clk_ns / 1000000000ull); struct timespec x = {t, (long)(clk_ns % 1000000000ull)}; do_copy(v, &x, sizeof x, PC, true); return 0; }
EXPORT int sim_sched_yield() { entry_point(); return 0; }
EXPORT int sim_usleep(unsigned us) { entry_point(); clk_ns += (uint64_t)us * 1000; return 0; }
EXPORT int sim_nanosleep(const struct timespec* a, struct timespec*) { entry_point(); clk_ns += (uint64_t)a->tv_sec * 1000000000ull + (uint64_t)a->tv_nsec; return 0; }
EXPORT struct tm* sim_localtime(const time_t* t) { return tm_fill(t, &sim_tm, PC); }
EXPORT struct tm* sim_localtime_r(const time_t* t, struct tm* r) { return tm_fill(t, r, PC); }
EXPORT size_t sim_strftime(char* d, size_t m, const char* f, const struct tm* t) {
  entry_point(); if (!t) { violation("crash:SIGSEGV", std::string("strftime with a null time in op ") + current_op()); }
  on_range((uintptr_t)t, sizeof *t, false, PC); if (m > 4096) m = 4096; std::vector<char> b(m + 1); size_t n = strftime(b.data(), m, f, t); if (n) do_copy(d, b.data(), n + 1, PC, true); return n; }
EXPORT char* sim_ctime(const time_t* t) { static char b[64]; struct tm x; gmtime_r(t, &x); strftime(b, 64, "%a %b %e %T %Y\n", &x); return b; }
// ---- stdio shims --------------------------------------------------------------------------------------------------
EXPORT int sim_vprintf(const char* f, va_list ap) { entry_point(); std::string s = vfmt(f, ap); out_ += s; return (int)s.size(); }
EXPORT int sim_printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vprintf(f, ap); va_end(ap); return r; }
EXPORT int sim_puts(const char* s) { entry_point(); out_ += s; out_ += '\n'; return 1; }
EXPORT int sim_putchar(int c) { entry_point(); out_ += (char)c; return c; }
EXPORT int sim_vfprintf(FILE* fp, const char* f, va_list ap) { entry_point(); std::string s = vfmt(f, ap); return stream_write(fp, s.data(), s.size(), "fprintf"); }
EXPORT int sim_fprintf(FILE* fp, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vfprintf(fp, f, ap); va_end(ap); return r; }
EXPORT int sim_fputs(const char* s, FILE* fp) { entry_point(); return stream_write(fp, s, strlen(s), "fputs") < 0 ? EOF : 1; }
EXPORT int sim_fputc(int c, FILE* fp) { entry_point(); char ch = (char)c; return stream_write(fp, &ch, 1, "fputc") < 0 ? EOF : c; }
EXPORT size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* fp) { entry_point(); on_range((uintptr_t)p, a * b, false, PC); return stream_write(fp, (const char*)p, a * b, "fwrite") < 0 ? 0 : b; }
EXPORT FILE* sim_fopen(const char* n, const char* m) {
  entry_point(); checked_len(n, PC); int k = io_fault(); if (k == 1) { io_fired++; shared->faults[F_OPEN_FAIL]++; faulted.insert(n); return nullptr; }
  bool w = m[0] == 'w', a = m[0] == 'a'; if (w) files[n] = ""; else if (a) files[n]; else if (!files.count(n)) return nullptr;
  bool plus = strchr(m, '+') != nullptr; streams.push_back({0x5f, n, true, w || a || plus, false, 0, "", !a}); return (FILE*)&streams.back();
}
EXPORT int sim_fclose(FILE* fp) { entry_point(); if (is_std(fp)) return 0; SFile* s = stream_of(fp, "fclose"); s->open = false; int k = io_fault(); if (k == 1 || k == 2) { io_fired++; shared->faults[F_CLOSE_FAIL]++; faulted.insert(s->name); std::string& d = files[s->name]; d.resize(d.size() - std::min<size_t>(d.size(), 1 + d.size() / 3)); close_err.insert(s->name); return EOF; } return s->err ? EOF : 0; }
EXPORT int sim_fflush(FILE* fp) { entry_point(); if (!fp || is_std(fp)) return 0; SFile* s = stream_of(fp, "fflush"); return s->err ? EOF : 0; }
EXPORT int sim_ferror(FILE* fp) { entry_point(); if (is_std(fp)) return 0; return stream_of(fp, "ferror")->err; }
EXPORT int sim_feof(FILE* fp) { entry_point(); return 0; }
EXPORT char* sim_fgets(char* b, int n, FILE* fp) { entry_point(); SFile* s = stream_of(fp, "fgets"); const std::string& d = files[s->name]; if (s->pos >= d.size() || n <= 1) return nullptr; size_t e = d.find('\n', s->pos); size_t len = (e == std::string::npos ? d.size() : e + 1) - s->pos; if (len > (size_t)n - 1) len = (size_t)n - 1; std::string t = d.substr(s->pos, len); s->pos += len; do_copy(b, t.c_str(), len + 1, PC, true); return b; }
EXPORT int sim_fseek(FILE* fp, long off, int wh) { entry_point(); if (is_std(fp)) return -1; SFile* s = stream_of(fp, "fseek"); long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)s->pos : (long)files[s->name].size(); if (b + off < 0) return -1; s->pos = (size_t)(b + off); return 0; }
EXPORT long sim_ftell(FILE* fp) { entry_point(); if (is_std(fp)) return -1; SFile* s = stream_of(fp, "ftell"); return (long)(s->over ? s->pos : files[s->name].size()); }
EXPORT void sim_rewind(FILE* fp) { entry_point(); if (!is_std(fp)) { SFile* s = stream_of(fp, "rewind"); s->pos = 0; s->err = false; } }
EXPORT size_t sim_fread(void* p, size_t a, size_t b, FILE* fp) { entry_point(); if (is_std(fp) || !a || !b) return 0; SFile* s = stream_of(fp, "fread"); const std::string& d = files[s->name]; size_t left = s->pos < d.size() ? d.size() - s->pos : 0, k = std::min(b, left / a); if (k) { std::string t = d.substr(s->pos, k * a); s->pos += k * a; do_copy(p, t.data(), k * a, PC, true); } return k; }
EXPORT int sim_putc(int c, FILE* fp) { return sim_fputc(c, fp); }
EXPORT int sim_setvbuf(FILE*, char*, int, size_t) { entry_point(); return 0; }
EXPORT void sim_setbuf(FILE*, char*) { entry_point(); }
EXPORT void sim_clearerr(FILE* fp) { entry_point(); if (!is_std(fp)) stream_of(fp, "clearerr")->err = false; }
EXPORT void sim_perror(const char* m) { entry_point(); out_ += m ? m : ""; out_ += ": error\n"; }
EXPORT int sim_remove(const char* n) { entry_point(); return files.erase(n) ? 0 : -1; }
EXPORT int sim_rename(const char* a, const char* b) { entry_point(); if (!files.count(a)) return -1; files[b] = files[a]; files.erase(a); return 0; }
EXPORT int sim_vsnprintf(char* d, size_t m, const char* f, va_list ap) { entry_point(); std::string s = vfmt(f, ap); if (m) { size_t n = std::min(s.size(), m - 1); s[n] = 0; do_copy(d, s.c_str(), n + 1, PC, true); } return (int)s.size(); }
EXPORT int sim_snprintf(char* d, size_t m, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); int r = (int)s.size(); entry_point(); if (m) { size_t n = std::min(s.size(), m - 1); std::string t = s.substr(0, n); do_copy(d, t.c_str(), n + 1, PC, true); } return r; }
static int out_to_new(char** p, const std::string& s) { char* q = (char*)sim_malloc(s.size() + 1); if (!q) { *p = nullptr; return -1; } do_copy(q, s.c_str(), s.size() + 1, PC, true); *p = q; return (int)s.size(); }
EXPORT int sim_vasprintf(char** p, const char* f, va_list ap) { entry_point(); return out_to_new(p, vfmt(f, ap)); }
EXPORT int sim_asprintf(char** p, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); entry_point(); return out_to_new(p, s); }
EXPORT int sim_vsprintf(char* d, const char* f, va_list ap) { entry_point(); std::string s = vfmt(f, ap); do_copy(d, s.c_str(), s.size() + 1, PC, true); return (int)s.size(); }
EXPORT int sim_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); entry_point(); do_copy(d, s.c_str(), s.size() + 1, PC, true); return (int)s.size(); }
// ---- process ------------------------------------------------------------------------------------------------------
EXPORT void sim_assert_fail(const char* e, const char* f, unsigned l, const char* fn) { (void)l; (void)f; violation(std::string("assertion:") + (fn ? fn : ""), std::string("assertion '") + e + "' failed in " + (fn ? fn : "") + " during op " + current_op()); }
EXPORT void sim_abort() { violation("crash:abort", std::string("abort() in op ") + current_op()); }
EXPORT void sim_exit(int c) { violation("crash:exit", "exit(" + std::to_string(c) + ") in op " + current_op()); }
EXPORT int sim_rand() { entry_point(); return (int)(crng.next() & 0x7fffffff); }
EXPORT void sim_srand(unsigned) {}
EXPORT char* sim_getenv(const char*) { return nullptr; }
