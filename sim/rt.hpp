// Deterministic simulator run time: fibers, scheduler, GOMP/TSan ABI, heap, clock, stdio.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>

namespace sim {

// ---- deterministic PRNG (splitmix64) ---------------------------------------------------------
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  bool chance(unsigned num, unsigned den) { return below(den) < num; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567); r.next(); return r.next(); }

// ---- configuration of one simulated run -------------------------------------------------------
enum Policy { P_SEQ = 0, P_RANDOM, P_PCT, P_STARVE, P_RR, P_REVERSE, P_CONFLICT, P_EXPLICIT, P_COUNT };
extern const char* policy_names[];
struct Switch { uint64_t step; int fiber; };
struct Config {
  int policy = P_SEQ;
  uint64_t sched_seed = 1;
  uint32_t period = 8;           // mean steps between preemptions (random), slice (rr)
  int pct_depth = 3;
  uint64_t pct_len = 20000;
  int threads = 4;               // omp_get_max_threads()
  int short_pct = 0;             // chance (%) that a region gets fewer workers than asked for
  uint64_t team_seed = 1;
  std::vector<Switch> switches;  // P_EXPLICIT
  std::vector<std::pair<int,int>> teams; // explicit team sizes: region ordinal -> size
  bool races = true;             // data-race detection
  bool memcheck = true;          // out-of-bounds / use-after-free detection
  uint64_t fill_seed = 1;        // contents of fresh heap and stacks
  int fill_mode = 0;             // 0 seeded bytes, 1 all 0x00, 2 all 0xff, 3 repeating small ints, 4 NaN-ish doubles
  int reuse = 0;                 // 0 never reuse freed memory, else percent chance of LIFO reuse
  uint64_t place_seed = 1;       // placement gaps
  int64_t clock0 = 1700000000;   // simulated time at start
  int clock_mode = 0;            // 0 steady, 1 jumps forward, 2 jumps both ways, 3 extreme values
  uint64_t clock_seed = 1;
  int qsort_mode = 0;            // which legal qsort
  uint64_t step_budget = 80000000;
  // I/O fault plan: ordinals of stream operations (open/write/close) that fail
  std::vector<std::pair<int,int>> io_faults; // (ordinal, kind)
  int64_t disk_capacity = -1;    // bytes until ENOSPC, -1 = unlimited
};

// ---- result shared with the parent ------------------------------------------------------------
enum FaultKind { F_PREEMPT, F_SHORT_TEAM, F_ALLOC_FAIL, F_ALLOC_PERSIST, F_GARBAGE_FILL, F_REUSE, F_CLOCK_JUMP, F_OPEN_FAIL, F_SHORT_WRITE, F_DISK_FULL, F_CLOSE_FAIL, F_STARVE, F_ABANDON, F_NKINDS };
extern const char* fault_names[];
struct Shared {
  volatile int status;      // 0 running, 1 ok, 2 violation, 3 invalid case
  char cls[160];
  char detail[6000];
  uint64_t steps, switches, regions, multi_regions, allocs, accesses, races_checked;
  uint64_t faults[F_NKINDS];
  uint64_t trace_hash;      // schedule
  uint64_t result_hash;     // observable results
  uint64_t sim_ms;          // simulated time covered
  uint64_t probes;          // bitmask of rare conditions reached (harness defined)
  uint32_t oracle_checks;
  uint32_t nontrivial;
  char sample[2000];
  uint32_t nsw, nteam;
  uint64_t max_alloc_ord, heap_top;
  struct { uint64_t step; int32_t fiber; } sw[400000];
  struct { int32_t ord, size; } team[40000];
};
extern Shared* shared;

// ---- control -------------------------------------------------------------------------------------
void boot();                                   // map regions (once, in the parent)
void begin(const Config& c);                   // start a simulated run (in the child)
void spawn(std::function<void()> body);        // add a caller thread
void run_all();                                // run caller threads to completion
[[noreturn]] void violation(const std::string& cls, const std::string& detail);
[[noreturn]] void finish_ok();
void probe(int bit);
void note(uint64_t v);                         // add to result hash
void note_bytes(const void* p, size_t n);
int self();                                    // current fiber id
uint64_t now_step();
void set_step_limit(uint64_t steps_from_now);  // for the current op, 0 = default
void clear_step_limit();
void sut_enter(const char* what);              // what the caller thread is doing (for reports)
void sut_leave();
void paint_stack();                            // garbage below the stack pointer
const char* current_op();
void set_threads(int n);
int  region_ordinal();

// ---- heap ----------------------------------------------------------------------------------------
struct BlockInfo { uintptr_t addr; size_t size; uint64_t ord; int kind; };
void arm_alloc_failures(const std::vector<uint64_t>& ordinals_from_now, int64_t persist_from); // relative to arming, 0 based; -1 = none
void record_alloc_sites(bool b); const std::vector<uint64_t>& alloc_sites(); void arm_alloc_site(uint64_t site, uint64_t skip, bool from); // the chain of calls that allocates
void disarm_alloc_failures(); void let_new_fail(bool b); // operator new throws as well, until disarmed
uint64_t alloc_ordinal();
uint64_t alloc_failures_fired();
std::vector<BlockInfo> live_blocks();
size_t live_count();
size_t live_bytes();
bool addressable(const void* p, size_t n);
// Memory for the harness itself inside the checked arena (inputs handed to the system under test)
void* user_alloc(size_t n);
void user_free(void* p);
// Memory of a language run time that hosts the system under test: also checked, and its allocations fail with the others
void* host_alloc(size_t n, bool zero); void host_free(void* p); bool in_heap(const void* p); size_t host_size(const void* p); size_t host_live();

// ---- stdio ---------------------------------------------------------------------------------------
std::string& out();                            // captured stdout
std::string take_out();
bool file_exists(const std::string& n);
std::string file_data(const std::string& n);
std::vector<std::string> file_names();
void file_put(const std::string& n, const std::string& d);
int open_streams();
int io_ops();
void io_fault_clear();
void io_fault_set(const std::vector<std::pair<int,int>>& f, int64_t cap);
int io_faults_fired();
bool closed_with_error(const std::string& n);
int64_t clock_last();                          // last value time() returned
std::vector<std::pair<int, int64_t>>& clock_reads();   // who read the clock, and what it said
void sut_copy(void* d, const void* s, size_t n);   // a checked copy made on behalf of the calling system under test
void wait_until(std::function<bool()> ready);  // the calling fiber blocks
void sync_acquire(uintptr_t key);              // happens-before edges
void sync_release(uintptr_t key);
bool file_faulted(const std::string& n);       // an injected fault hit this file since the last io_fault_set
}
