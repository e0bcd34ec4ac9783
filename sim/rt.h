// Deterministic runtime: fibers, scheduler, simulated clock, instrumented-memory
// shadow, arena heap.  The code under test is compiled with -fsanitize=thread
// and linked against this runtime instead of libtsan, so every memory access,
// atomic, mutex, once, future and clock read of the real code passes through it.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace rt {

constexpr int kMaxFibers = 400;

// ---- PRNG (splitmix64 / xorshift) ----
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

enum Strategy { kSequential = 0, kRandom = 1, kPct = 2, kUnlockBias = 3, kReplay = 4, kCallOrder = 5 };

struct SwitchRec { uint64_t point; int target; };   // preempt at point -> fiber
struct ChoiceRec { uint64_t n; int target; };       // n-th forced choice -> fiber
struct StallRec { uint64_t point; int64_t us; };    // stall current fiber at point

struct SchedConfig {
  Strategy strategy = kSequential;
  uint64_t seed = 1;
  double p_mem = 0.0;      // preemption probability per shared memory access
  double p_sync = 0.0;     // per synchronisation operation
  double p_stall = 0.0;    // per sync operation: stall the thread for a while
  int64_t stall_max_us = 0;
  int max_stalls = 0;
  int pct_depth = 0;
  uint64_t pct_len = 0;
  // replay
  std::vector<SwitchRec> pre;
  std::vector<ChoiceRec> cho;
  std::vector<StallRec> stl;
};

struct SchedTrace {
  std::vector<SwitchRec> pre;
  std::vector<ChoiceRec> cho;
  std::vector<StallRec> stl;
};

struct Stats {
  uint64_t points = 0, switches = 0, sync_ops = 0, mem_ops = 0, atomics = 0;
  uint64_t stalls = 0, blocks = 0, allocs = 0, live = 0, fibers = 0;
  uint64_t spins = 0;
  uint64_t interleaving_hash = 1469598103934665603ull;
};

// one-time, in the parent before any fork: maps regions.
// Runs fn on a thread whose stack and thread-local variables lie at the same
// addresses in every process, so that nothing depends on address randomisation.
int on_fixed_stack(const std::function<int()>& fn);
void init_process();
// per run
void start(const SchedConfig& cfg, int64_t epoch_us);
int spawn(const char* name, std::function<void()> fn, bool daemon = false);
// runs until every non-daemon fiber is done; false on deadlock/hang (reported)
void run_all();
bool in_fiber();
int cur_id();
const char* fiber_name(int id);
bool fiber_done(int id);
void sleep_us(int64_t us);              // simulated
void wait_until(const std::function<bool()>& pred);  // block current fiber until pred (re-evaluated by wake_waiters)
void wake_waiters();                    // wake every fiber in wait_until
void yield_point();                     // an explicit scheduling point
void hb_release(const void* p);          // happens-before edges of the user's own synchronisation
void hb_acquire(const void* p);
int64_t now_us();                       // simulated elapsed time since start
int64_t client_clock_us();              // what gettimeofday returns
void jump_clock(int64_t delta_us);      // wall-clock step
uint64_t next_seq();                    // global event sequence number
uint64_t seq_now();
const SchedTrace& trace();
Stats& stats();

// memory errors, races, deadlocks, crashes are reported through this.
enum FaultKind { kRace, kMemory, kDeadlock, kCrash, kLeak, kHang, kGiveUp };
extern void (*on_fault)(FaultKind, const std::string& msg);  // crash/memory/deadlock: must not return
std::string stack_string();
uint64_t live_blocks();
std::string describe_leaks(int max);
std::string describe_addr(const void* p);
void set_reuse(bool on);                // hand out freed memory again
void set_sim_cap(int64_t us);           // give up (hang) beyond this simulated time

// Harness code: no preemption, no tracking, allocations from the C heap.
struct HarnessScope { HarnessScope(); ~HarnessScope(); };
// Code that plays the library's user: arena allocations and tracking stay on,
// no preemption inside.
struct UserScope { UserScope(); ~UserScope(); int h; };
// Re-enter the library from harness/user code: everything on.
struct LibScope { LibScope(); ~LibScope(); int h, u; };

}  // namespace rt
