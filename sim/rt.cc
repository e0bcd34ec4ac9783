#include "rt.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <mutex>
#include <new>
#include <unordered_map>

extern "C" char __libc_single_threaded;

namespace rt {

// ------------------------------------------------------------------ layout
static const uintptr_t kArena = 0x200000000000ull;
static const size_t kArenaSize = 256ull << 20;
static uintptr_t g_bump = kArena, g_instant_bump = kArena;  // next free byte, now and when time last advanced
static const uintptr_t kStacks = 0x210000000000ull;
static const size_t kStackSize = 256 << 10;
static const size_t kStackSlot = kStackSize + 4096;  // guard page below
static const size_t kStackArea = kStackSlot * kMaxFibers;
static const uintptr_t kShadowArena = 0x220000000000ull;
static const uintptr_t kShadowStack = 0x230000000000ull;
static const uintptr_t kShadowGlob = 0x240000000000ull;
static const uintptr_t kStatic = 0x250000000000ull;  // blocks made by static initialisers
static const size_t kStaticSize = 64ull << 20;
static const uintptr_t kShadowStatic = 0x251000000000ull;
static uintptr_t g_data_lo, g_data_hi;  // the executable's writable data

typedef uint64_t Slot;  // [epoch:32][tid:12][mask:8][flags:8]
static const Slot kFreed = ~0ull;
static const Slot kRedzone = ~1ull;
struct Cell { Slot s[4]; };
enum { kFlagWrite = 1, kFlagAtomic = 2, kFlagUsed = 4 };

static_assert(kMaxFibers < 4095, "thread ids fit their field");
static inline int slot_tid(Slot s) { return (s >> 16) & 0xfff; }
static inline uint32_t slot_epoch(Slot s) { return (uint32_t)(s >> 28); }

static int g_nfibers;
struct VC {
  uint32_t c[kMaxFibers];
  VC() { for (auto& x : c) x = 0; }
  VC(const VC& o) { for (size_t i = 0; i < sizeof c / sizeof c[0]; i++) c[i] = o.c[i]; }
  VC& operator=(const VC& o) { for (size_t i = 0; i < sizeof c / sizeof c[0]; i++) c[i] = o.c[i]; return *this; }
  void join(const VC& o) {
    for (int i = 0; i < g_nfibers; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

enum State { kRunnable, kBlocked, kSleeping, kDone };

struct Fiber {
  int id = 0;
  const char* name = "";
  void* sp = nullptr;
  uintptr_t lo = 0, hi = 0;
  State state = kRunnable;
  int64_t wake = 0;
  const void* wait_on = nullptr;
  bool timed_out = false;
  bool daemon = false;
  std::function<void()> fn;
  VC vc;
  int harness = 0, user = 0, stat_init = 0;
  // saved thread-locals of the C++ runtime
  void* eh[2] = {nullptr, nullptr};
  void* once_callable = nullptr;
  void (*once_call)() = nullptr;
  int err = 0;
  // thread-locals of the executable
  char* tls = nullptr;
  struct AtExit { void (*fn)(void*); void* obj; };
  std::vector<AtExit> at_exit;
  std::map<unsigned, void*> specific;
  // busy waiting
  const volatile void* spin_addr = nullptr;
  int spin_n = 0, yields = 0;
  int64_t spin_woke = -1, spin_sleep = 1;
  // call stack of instrumented frames
  uint32_t depth = 0;
  uintptr_t calls[256];
  int prio = 0;
  std::function<bool()> pred;
};

static Fiber* g_fibers[kMaxFibers];
static Fiber* g_cur;
static Fiber g_mainf;  // scheduler context
static bool g_active;  // hooks live (in a fiber, not harness scope)
static int64_t g_now, g_epoch;
static uint64_t g_seq;
static SchedConfig g_cfg;
static SchedTrace g_trace;
static Stats g_stats;
static Rng g_rng(1);
static uint64_t g_next_pre;
// Steps allowed without the simulated time advancing: the budget is renewed
// whenever it does (time itself is capped), so a long run of many short timer
// ticks is not mistaken for a livelock.
static const uint64_t kPointBudget = 30000000ull;
static uint64_t g_point_cap = kPointBudget;
static uint64_t g_trigger;  // the earlier of the two
static size_t g_ri_pre, g_ri_cho, g_ri_stl;
static uint64_t g_choice_n;
static std::vector<uint64_t> g_pct_points;
static int g_low_prio;
void (*on_fault)(FaultKind, const std::string&) = nullptr;
static bool g_race_reported;
static int64_t g_sim_cap = 20ll * 3600 * 1000000;
void set_sim_cap(int64_t us) { g_sim_cap = us; }

static inline void recompute_active() {
  g_active = g_cur && g_cur != &g_mainf && g_cur->harness == 0;
}

HarnessScope::HarnessScope() { if (g_cur) { g_cur->harness++; recompute_active(); } }
HarnessScope::~HarnessScope() { if (g_cur) { g_cur->harness--; recompute_active(); } }
UserScope::UserScope() : h(0) {
  if (g_cur) { h = g_cur->harness; g_cur->harness = 0; g_cur->user++; recompute_active(); }
}
UserScope::~UserScope() {
  if (g_cur) { g_cur->user--; g_cur->harness = h; recompute_active(); }
}
LibScope::LibScope() : h(0), u(0) {
  if (g_cur) { h = g_cur->harness; u = g_cur->user; g_cur->harness = g_cur->user = 0; recompute_active(); }
}
LibScope::~LibScope() {
  if (g_cur) { g_cur->harness = h; g_cur->user = u; recompute_active(); }
}

static void fault(FaultKind k, const std::string& m) {
  g_active = false;
  if (g_cur) g_cur->harness += 1000;
  if (on_fault) on_fault(k, m);
  if (g_cur) g_cur->harness -= 1000;
  recompute_active();
}

// ------------------------------------------------------------- fiber switch
extern "C" void rt_switch(void** save, void* to);
asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch,.-rt_switch
)");

// The code under test may use thread_local variables: the executable's block of
// them is swapped with the fiber, and destroyed when the fiber ends.
static char* g_tls;  // of the one real thread
static const char* g_tls_image;
static size_t g_tls_size, g_tls_filesz;
static inline void raw_copy(void* d, const void* s, size_t n) {
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static inline void raw_zero(void* d, size_t n) {
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory");
}
static int find_tls(struct dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_TLS) {
      g_tls = (char*)i->dlpi_tls_data;
      g_tls_image = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr);
      g_tls_size = i->dlpi_phdr[k].p_memsz;
      g_tls_filesz = i->dlpi_phdr[k].p_filesz;
    }
  return 1;  // the executable comes first
}
static void save_block(Fiber* f) {
  if (!g_tls) return;
  if (!f->tls) f->tls = (char*)malloc(g_tls_size);
  raw_copy(f->tls, g_tls, g_tls_size);
}
static void load_block(Fiber* f) {
  if (!g_tls) return;
  if (f->tls) {
    raw_copy(g_tls, f->tls, g_tls_size);
  } else {
    raw_copy(g_tls, g_tls_image, g_tls_filesz);
    raw_zero(g_tls + g_tls_filesz, g_tls_size - g_tls_filesz);
  }
}
struct Key { void (*dtor)(void*); bool used; };
static std::vector<Key>* g_keys;
static const unsigned kKeyBase = 1u << 20;

static void save_tls(Fiber* f) {
  save_block(f);
  void** g = reinterpret_cast<void**>(__cxxabiv1::__cxa_get_globals());
  f->eh[0] = g[0];
  f->eh[1] = g[1];
  f->once_callable = std::__once_callable;
  f->once_call = std::__once_call;
  f->err = errno;
}
static void load_tls(Fiber* f) {
  load_block(f);
  void** g = reinterpret_cast<void**>(__cxxabiv1::__cxa_get_globals());
  g[0] = f->eh[0];
  g[1] = f->eh[1];
  std::__once_callable = f->once_callable;
  std::__once_call = f->once_call;
  errno = f->err;
}

static void switch_to(Fiber* to) {
  Fiber* from = g_cur;
  if (from == to) return;
  save_tls(from);
  g_cur = to;
  load_tls(to);
  g_stats.switches++;
  g_stats.interleaving_hash = (g_stats.interleaving_hash ^ (uint64_t)(to->id + 1)) * 1099511628211ull;
  g_stats.interleaving_hash = (g_stats.interleaving_hash ^ g_stats.sync_ops) * 1099511628211ull;
  recompute_active();
  rt_switch(&from->sp, to->sp);
  recompute_active();
}

// Destroys the current fiber's thread-locals, as the end of a thread does.
void end_thread_locals() {
  Fiber* f = g_cur;
  for (int round = 0; round < 4; round++) {
    while (!f->at_exit.empty()) {
      Fiber::AtExit a = f->at_exit.back();
      f->at_exit.pop_back();
      LibScope ls;
      a.fn(a.obj);
    }
    std::map<unsigned, void*> m;
    m.swap(f->specific);
    for (auto& kv : m) {
      const Key& k = (*g_keys)[kv.first - kKeyBase];
      if (!k.used || !k.dtor || !kv.second) continue;
      LibScope ls;
      k.dtor(kv.second);
    }
  }
}

static void fiber_main() {
  Fiber* f = g_cur;
  recompute_active();
  f->fn();
  f->harness = 1;
  recompute_active();
  end_thread_locals();
  recompute_active();
  f->state = kDone;
  f->fn = nullptr;
  switch_to(&g_mainf);
  __builtin_trap();
}

static void set_next_pre() {
  switch (g_cfg.strategy) {
    case kReplay:
      g_next_pre = g_ri_pre < g_cfg.pre.size() ? g_cfg.pre[g_ri_pre].point : ~0ull;
      break;
    case kPct:
      g_next_pre = g_ri_pre < g_pct_points.size() ? g_pct_points[g_ri_pre] : ~0ull;
      break;
    default:
      if (g_cfg.p_mem > 0) {
        // geometric gap
        double u = g_rng.unit();
        uint64_t gap = 1;
        if (u > 0) {
          double g = __builtin_log(1 - u) / __builtin_log(1 - g_cfg.p_mem);
          gap = g > 1e9 ? 1000000000ull : (uint64_t)g + 1;
        }
        g_next_pre = g_stats.points + gap;
      } else {
        g_next_pre = ~0ull;
      }
  }
  if (g_next_pre <= g_stats.points) g_next_pre = g_stats.points + 1;
  g_trigger = g_next_pre < g_point_cap ? g_next_pre : g_point_cap;
}

static int collect_runnable(Fiber** out, Fiber* except) {
  int n = 0;
  for (int i = 0; i < g_nfibers; i++)
    if (g_fibers[i]->state == kRunnable && g_fibers[i] != except) out[n++] = g_fibers[i];
  return n;
}

static void do_stall(int64_t us) {
  g_trace.stl.push_back({g_stats.points, us});
  g_stats.stalls++;
  Fiber* f = g_cur;
  f->state = kSleeping;
  f->wake = g_now + us;
  switch_to(&g_mainf);
}

static void preempt(Fiber* target) {
  g_trace.pre.push_back({g_stats.points, target->id});
  switch_to(target);
}

static Fiber* best_prio(Fiber** c, int n) {
  Fiber* b = c[0];
  for (int i = 1; i < n; i++)
    if (c[i]->prio > b->prio) b = c[i];
  return b;
}

static void slow_point(bool sync, bool unlock) {
  if (g_cur->user) {  // user code never preempted, but keep counters deterministic
    if (g_stats.points >= g_next_pre) {
      if (g_cfg.strategy == kReplay) {
        while (g_ri_pre < g_cfg.pre.size() && g_cfg.pre[g_ri_pre].point <= g_stats.points) g_ri_pre++;
      } else if (g_cfg.strategy == kPct) {
        g_ri_pre++;
      }
      set_next_pre();
    }
    return;
  }
  g_cur->harness++;
  g_active = false;
  Fiber* c[kMaxFibers];
  Fiber* target = nullptr;
  int64_t stall = 0;
  if (g_cfg.strategy == kReplay) {
    while (g_ri_stl < g_cfg.stl.size() && g_cfg.stl[g_ri_stl].point < g_stats.points) g_ri_stl++;
    if (g_ri_stl < g_cfg.stl.size() && g_cfg.stl[g_ri_stl].point == g_stats.points) {
      stall = g_cfg.stl[g_ri_stl].us;
      g_ri_stl++;
    }
    if (g_stats.points >= g_next_pre) {
      int want = -1;
      while (g_ri_pre < g_cfg.pre.size() && g_cfg.pre[g_ri_pre].point <= g_stats.points) {
        if (g_cfg.pre[g_ri_pre].point == g_stats.points) want = g_cfg.pre[g_ri_pre].target;
        g_ri_pre++;
      }
      set_next_pre();
      if (want >= 0 && want < g_nfibers && g_fibers[want]->state == kRunnable && g_fibers[want] != g_cur)
        target = g_fibers[want];
    }
  } else {
    bool hit = g_stats.points >= g_next_pre;
    if (g_cfg.strategy == kPct) {
      if (hit) {
        g_cur->prio = --g_low_prio;
        g_ri_pre++;
        set_next_pre();
      }
      if (hit || sync) {
        int n = collect_runnable(c, nullptr);
        Fiber* b = best_prio(c, n);
        if (b != g_cur) target = b;
      }
    } else {
      if (hit) set_next_pre();
      if (!hit && sync) {
        double p = g_cfg.p_sync;
        if (g_cfg.strategy == kUnlockBias && !unlock) p *= 0.1;
        hit = p > 0 && g_rng.chance(p);
      }
      if (hit) {
        int n = collect_runnable(c, g_cur);
        if (n) target = c[g_rng.below(n)];
      }
    }
    if (sync && g_cfg.p_stall > 0 && (int)g_stats.stalls < g_cfg.max_stalls && g_rng.chance(g_cfg.p_stall)) {
      stall = 1 + (int64_t)g_rng.below(g_cfg.stall_max_us);
      target = nullptr;
    }
  }
  if (stall) do_stall(stall);
  else if (target) preempt(target);
  g_cur->harness--;
  recompute_active();
}


static void budget_spent() {
  if (g_cur) g_cur->harness++;
  g_active = false;
  fault(kHang, "livelock: step budget exhausted without time advancing");
  _exit(99);
}
static inline void mem_point() {
  if (__builtin_expect(++g_stats.points >= g_trigger, 0)) {
    if (g_stats.points > g_point_cap) budget_spent();
    if (g_stats.points >= g_next_pre) slow_point(false, false);
  }
}
static void sync_point(bool unlock = false) {
  if (!g_active) return;
  g_stats.sync_ops++;
  ++g_stats.points;
  if (g_stats.points > g_point_cap) budget_spent();
  bool need = g_stats.points >= g_next_pre || g_cfg.strategy != kReplay ||
              (g_ri_stl < g_cfg.stl.size());
  if (need) slow_point(true, unlock);
}

// block current fiber until made runnable
static void block(const void* on, int64_t deadline = -1) {
  Fiber* f = g_cur;
  if (f == &g_mainf || !f) {
    fault(kDeadlock, "blocked outside any simulated thread");
    abort();
  }
  g_stats.blocks++;
  f->wait_on = on;
  f->timed_out = false;
  if (deadline >= 0) {
    f->state = kSleeping;
    f->wake = deadline;
  } else {
    f->state = kBlocked;
  }
  switch_to(&g_mainf);
  f->wait_on = nullptr;
}
// A thread that waits by spinning takes time: it sleeps, longer and longer
// while nothing but its spinning fills the time, so that whoever it waits for
// gets to run (or wakes up) under every scheduling strategy.
static void spin_pause() {
  Fiber* f = g_cur;
  f->harness++;
  recompute_active();
  g_stats.spins++;
  f->spin_sleep = f->spin_woke == g_now ? std::min<int64_t>(f->spin_sleep * 2, 10000) : 1;
  f->state = kSleeping;
  f->wake = g_now + f->spin_sleep;
  f->wait_on = nullptr;
  switch_to(&g_mainf);
  f->spin_woke = g_now;
  f->harness--;
  recompute_active();
}
static inline void spin_check(const volatile void* a) {
  Fiber* f = g_cur;
  if (f->spin_addr != a) {
    f->spin_addr = a;
    f->spin_n = 0;
  } else if (a && ++f->spin_n >= 200) {
    f->spin_n = 150;
    spin_pause();
  }
}
static int wake(const void* on, int max) {
  int n = 0;
  for (int i = 0; i < g_nfibers && n < max; i++) {
    Fiber* f = g_fibers[i];
    if ((f->state == kBlocked || f->state == kSleeping) && f->wait_on == on && on) {
      f->state = kRunnable;
      f->wait_on = nullptr;
      n++;
    }
  }
  return n;
}

static Fiber* choose(Fiber** c, int n) {
  g_choice_n++;
  Fiber* pick = c[0];
  if (g_cfg.strategy == kReplay) {
    while (g_ri_cho < g_cfg.cho.size() && g_cfg.cho[g_ri_cho].n < g_choice_n) g_ri_cho++;
    if (g_ri_cho < g_cfg.cho.size() && g_cfg.cho[g_ri_cho].n == g_choice_n) {
      int want = g_cfg.cho[g_ri_cho++].target;
      for (int i = 0; i < n; i++)
        if (c[i]->id == want) pick = c[i];
    }
  } else if (g_cfg.strategy == kPct) {
    pick = best_prio(c, n);
  } else if (n > 1) {
    pick = c[g_rng.below(n)];
  }
  if (pick != c[0]) g_trace.cho.push_back({g_choice_n, pick->id});
  return pick;
}

void run_all() {
  g_cur = &g_mainf;
  g_mainf.id = -1;
  g_mainf.harness = 1;
  recompute_active();
  for (;;) {
    Fiber* c[kMaxFibers];
    // due sleepers become runnable
    for (int i = 0; i < g_nfibers; i++) {
      Fiber* f = g_fibers[i];
      if (f->state == kSleeping && f->wake <= g_now) {
        f->state = kRunnable;
        if (f->wait_on) { f->timed_out = true; f->wait_on = nullptr; }
      }
    }
    bool all_done = true;
    for (int i = 0; i < g_nfibers; i++)
      if (g_fibers[i]->state != kDone && !g_fibers[i]->daemon) all_done = false;
    if (all_done) {
      return;
    }
    int n = collect_runnable(c, nullptr);
    if (n == 0) {
      int64_t best = -1;
      for (int i = 0; i < g_nfibers; i++)
        if (g_fibers[i]->state == kSleeping && (best < 0 || g_fibers[i]->wake < best)) best = g_fibers[i]->wake;
      if (best < 0 || best > g_sim_cap) {
        std::string m = best < 0 ? "deadlock: no thread can run;" : "hang: no progress within the simulated time budget;";
        for (int i = 0; i < g_nfibers; i++) {
          Fiber* f = g_fibers[i];
          if (f->state == kBlocked || (f->state == kSleeping && !f->daemon)) {
            m += std::string(" ") + f->name + " blocked";
            if (f->depth) {
              Fiber* save = g_cur;
              g_cur = f;
              m += " at " + stack_string();
              g_cur = save;
            }
            m += ";";
          }
        }
        fault(best < 0 ? kDeadlock : kHang, m);
        return;
      }
      if (best > g_now) {
        g_now = best;
        g_instant_bump = g_bump;
        g_point_cap = g_stats.points + kPointBudget;
        g_trigger = g_next_pre < g_point_cap ? g_next_pre : g_point_cap;
      }
      continue;
    }
    switch_to(choose(c, n));
  }
}

int spawn(const char* name, std::function<void()> fn, bool daemon) {
  HarnessScope hs;
  if (g_nfibers >= kMaxFibers) {
    fault(kGiveUp, "too many threads");
    abort();
  }
  Fiber* f = new Fiber();
  f->id = g_nfibers;
  f->name = name;
  f->fn = std::move(fn);
  f->daemon = daemon;
  uintptr_t base = kStacks + (uintptr_t)f->id * kStackSlot;
  mprotect((void*)(base + 4096), kStackSize, PROT_READ | PROT_WRITE);
  f->lo = base + 4096;
  f->hi = base + kStackSlot;
  uintptr_t* sp = (uintptr_t*)(f->hi - 64);
  *--sp = 0;
  *--sp = (uintptr_t)&fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f->sp = sp;
  f->prio = 1000 + (int)g_rng.below(100000);
  if (g_cur && g_cur != &g_mainf) {
    f->vc = g_cur->vc;
    g_cur->vc.c[g_cur->id]++;
  }
  f->vc.c[f->id] = 1;
  g_fibers[g_nfibers++] = f;
  g_stats.fibers++;
  return f->id;
}

void start(const SchedConfig& cfg, int64_t epoch_us) {
  g_cfg = cfg;
  g_rng = Rng(cfg.seed ^ 0x5eedf00dull);
  g_epoch = epoch_us;
  g_now = 0;
  g_seq = 0;
  g_nfibers = 0;
  g_ri_pre = g_ri_cho = g_ri_stl = 0;
  g_choice_n = 0;
  g_low_prio = 0;
  g_race_reported = false;
  g_stats = Stats();
  g_point_cap = kPointBudget;
  g_trace = SchedTrace();
  g_pct_points.clear();
  if (cfg.strategy == kPct) {
    for (int i = 0; i < cfg.pct_depth; i++) g_pct_points.push_back(1 + g_rng.below(cfg.pct_len));
    std::sort(g_pct_points.begin(), g_pct_points.end());
  }
  set_next_pre();
}

bool in_fiber() { return g_cur && g_cur != &g_mainf; }
int cur_id() { return g_cur ? g_cur->id : -1; }
const char* fiber_name(int id) { return g_fibers[id]->name; }
bool fiber_done(int id) { return g_fibers[id]->state == kDone; }
void sleep_us(int64_t us) {
  HarnessScope hs;
  Fiber* f = g_cur;
  f->state = kSleeping;
  f->wake = g_now + us;
  f->wait_on = nullptr;
  switch_to(&g_mainf);
}
static char g_pred_token;
void wait_until(const std::function<bool()>& pred) {
  HarnessScope hs;
  while (!pred()) block(&g_pred_token);
}
void wake_waiters() { wake(&g_pred_token, kMaxFibers); }
void yield_point() {
  LibScope ls;
  sync_point();
}
int64_t now_us() { return g_now; }
int64_t client_clock_us() { return g_epoch + g_now; }
void jump_clock(int64_t d) { g_epoch += d; }
uint64_t next_seq() { return ++g_seq; }
uint64_t seq_now() { return g_seq; }
const SchedTrace& trace() { return g_trace; }
Stats& stats() { return g_stats; }

extern "C" char __executable_start, etext;
// addresses outside the executable differ from process to process
static std::string code(uintptr_t a) {
  if (a < (uintptr_t)&__executable_start || a >= (uintptr_t)&etext) return "lib";
  char buf[32];
  snprintf(buf, sizeof buf, "%#lx", (unsigned long)a);
  return buf;
}

std::string stack_string() {
  std::string r;
  uint32_t d = g_cur ? g_cur->depth : 0;
  if (d > 256) d = 256;
  int n = 0;
  for (uint32_t i = d; i-- > 0 && n < 14; n++) {
    r += (n ? "<" : "") + code((uintptr_t)g_cur->calls[i]);
  }
  return r;
}

// ------------------------------------------------------------------- shadow
static inline Cell* shadow(uintptr_t a) {
  if (a - kArena < kArenaSize) return (Cell*)(kShadowArena + ((a - kArena) & ~7ull) * 4);
  if (a - kStacks < kStackArea) return (Cell*)(kShadowStack + ((a - kStacks) & ~7ull) * 4);
  if (a >= g_data_lo && a < g_data_hi) return (Cell*)(kShadowGlob + ((a - g_data_lo) & ~7ull) * 4);
  if (a - kStatic < kStaticSize) return (Cell*)(kShadowStatic + ((a - kStatic) & ~7ull) * 4);
  return nullptr;
}

static const char* region(uintptr_t a) {
  if (a - kArena < kArenaSize) return "heap";
  if (a - kStacks < kStackArea) return "stack";
  return "global";
}

static void report_race(uintptr_t a, int flags, Slot other, uintptr_t pc) {
  if (g_race_reported) return;
  g_race_reported = true;
  char buf[512];
  g_cur->harness++;
  g_active = false;
  int otid = slot_tid(other);
  snprintf(buf, sizeof buf, "data race: %s of %s memory by thread %d (%s) is unordered with an earlier %s by thread %d (%s); pc %s stack ",
           (flags & kFlagWrite) ? "write" : "read", region(a), g_cur->id, g_cur->name,
           (other & kFlagWrite) ? "write" : "read", otid, otid < g_nfibers ? g_fibers[otid]->name : "?", code(pc).c_str());
  std::string m = std::string(buf) + stack_string();
  g_cur->harness--;
  fault(kRace, m);
}

static void bad_access(uintptr_t a, Slot s, int flags, uintptr_t pc) {
  char buf[256];
  g_cur->harness++;
  g_active = false;
  snprintf(buf, sizeof buf, "%s: %s by thread %d (%s) pc %s stack ",
           s == kFreed ? "use of freed memory" : "access outside an allocation",
           (flags & kFlagWrite) ? "write" : "read", g_cur->id, g_cur->name, code(pc).c_str());
  std::string m = std::string(buf) + stack_string();
  fault(kMemory, m);
  _exit(99);
}

static inline void cell_access(Cell* c, uintptr_t a, uint8_t mask, int flags, uintptr_t pc) {
  const int tid = g_cur->id;
  const uint32_t ep = g_cur->vc.c[tid];
  const Slot mine = ((Slot)ep << 28) | ((Slot)tid << 16) | ((Slot)mask << 8) | (Slot)(flags | kFlagUsed);
  Slot s0 = c->s[0];
  if (__builtin_expect(s0 >= kRedzone, 0)) bad_access(a, s0, flags, pc);
  int store = -1;
  for (int i = 0; i < 4; i++) {
    Slot s = c->s[i];
    if (!(s & kFlagUsed)) {
      if (store < 0) store = i;
      break;  // slots fill in order
    }
    if (s == mine) return;
    int st = slot_tid(s);
    uint8_t sm = (s >> 8) & 0xff;
    if (st == tid) {
      if (sm == mask && (((s & kFlagWrite) <= (Slot)(flags & kFlagWrite)))) store = i;
      continue;
    }
    if (!(sm & mask)) continue;
    if (!((s | flags) & kFlagWrite)) continue;
    if ((s & kFlagAtomic) && (flags & kFlagAtomic)) continue;
    if (slot_epoch(s) > g_cur->vc.c[st]) {
      report_race(a, flags, s, pc);
    } else if (sm == mask && (flags & kFlagWrite)) {
      if (store < 0) store = i;  // ordered before us and covered: replace
    }
  }
  if (store < 0) store = (int)(g_stats.points & 3);
  c->s[store] = mine;
}

static void access(uintptr_t a, size_t n, int flags, uintptr_t pc) {
  Cell* c = shadow(a);
  if (c && !(a >= g_cur->lo && a < g_cur->hi)) {  // harness memory has no shadow and is no scheduling point
    g_stats.mem_ops++;
    mem_point();
  }
  if (__builtin_expect((a & 7) + n <= 8, 1)) {
    if (c) cell_access(c, a, (uint8_t)(((1u << n) - 1) << (a & 7)), flags, pc);
    return;
  }
  uintptr_t end = a + n;
  while (a < end) {
    uintptr_t lim = (a | 7) + 1;
    size_t k = (end < lim ? end : lim) - a;
    c = shadow(a);
    if (c) cell_access(c, a, (uint8_t)(((1u << k) - 1) << (a & 7)), flags, pc);
    a += k;
  }
}

// --------------------------------------------------------------- sync vars
struct SyncMap {
  std::unordered_map<uintptr_t, VC*> m;
  VC& get(uintptr_t a) {
    VC*& v = m[a];
    if (!v) v = new VC();
    return *v;
  }
};
static SyncMap* g_sync;
static void acquire(const void* a) {
  auto it = g_sync->m.find((uintptr_t)a);
  if (it != g_sync->m.end()) g_cur->vc.join(*it->second);
}
static void release(const void* a) {
  g_sync->get((uintptr_t)a).join(g_cur->vc);
  g_cur->vc.c[g_cur->id]++;
}

void hb_release(const void* p) { HarnessScope hs; release(p); }
void hb_acquire(const void* p) { HarnessScope hs; acquire(p); }

// ------------------------------------------------------------------- heap
struct Hdr {
  uint64_t size;
  uint32_t magic;
  uint32_t fiber;
  uintptr_t pc;
  uint64_t state;  // 1 live, 2 freed
};
static_assert(sizeof(Hdr) == 32, "");
static uint64_t g_live;

static inline void raw_set(void* d, int v, size_t n) {
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}
// In some runs freed blocks are handed out again at once, as a real allocator
// does: whoever takes an address for an identity is wrong.  (In all others
// freed memory stays poisoned.)
static bool g_reuse;
static uintptr_t g_freed[129];
void set_reuse(bool on) { g_reuse = on; }
static inline size_t reuse_class(size_t n) { return n <= 1024 ? (n + 7) / 8 : 0; }

static void* arena_alloc(size_t n, size_t align, uintptr_t pc) {
  g_stats.allocs++;
  size_t k = g_reuse && align <= 16 ? reuse_class(n) : 0;
  if (k && g_freed[k]) {
    uintptr_t p = g_freed[k];
    g_freed[k] = *(uintptr_t*)p;
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->size = n;
    h->fiber = g_cur->id;
    uint32_t d = g_cur->depth;
    h->pc = d && d <= 256 ? g_cur->calls[d - 1] : pc;
    h->state = 1;
    for (uintptr_t a = p, end = p + 8 * k; a < end; a += 8) {
      Cell* c = shadow(a);
      for (auto& s : c->s) s = 0;
    }
    g_live++;
    raw_set((void*)p, 0xA5, n);
    return (void*)p;
  }
  uintptr_t p = g_bump + sizeof(Hdr);
  if (align < 16) align = 16;
  p = (p + align - 1) & ~(align - 1);
  uintptr_t end = (p + n + 7) & ~7ull;
  if (end + 16 > kArena + kArenaSize) {
    g_active = false;
    // memory is never used twice within a run: all of it gone at one instant of simulated time is a
    // defect, but a long run may come here as well
    if (g_bump - g_instant_bump > kArenaSize / 4) fault(kCrash, "memory exhausted (unbounded allocation)");
    else fault(kGiveUp, "");
    abort();
  }
  Hdr* h = (Hdr*)(p - sizeof(Hdr));
  h->size = n;
  h->magic = 0xA110C8ED;
  h->fiber = g_cur->id;
  uint32_t d = g_cur->depth;
  h->pc = d && d <= 256 ? g_cur->calls[d - 1] : pc;
  h->state = 1;
  // redzones: header and the 16 bytes after the block
  for (uintptr_t a = p - sizeof(Hdr); a < p; a += 8) shadow(a)->s[0] = kRedzone;
  for (uintptr_t a = end; a < end + 16; a += 8) shadow(a)->s[0] = kRedzone;
  g_bump = end + 16;
  g_live++;
  raw_set((void*)p, 0xA5, n);  // whoever relies on fresh memory being zero is wrong
  return (void*)p;
}

static bool in_arena(const void* p) { return (uintptr_t)p - kArena < kArenaSize; }

static void arena_free(void* p, uintptr_t pc) {
  Hdr* h = (Hdr*)((uintptr_t)p - sizeof(Hdr));
  if (h->magic != 0xA110C8ED || h->state != 1) {
    char buf[128];
    snprintf(buf, sizeof buf, "%s by thread %d stack ", h->magic == 0xA110C8ED ? "double free" : "free of an invalid pointer", cur_id());
    fault(kMemory, std::string(buf) + stack_string());
    _exit(99);
  }
  h->state = 2;
  g_live--;
  uintptr_t a = (uintptr_t)p, end = (a + h->size + 7) & ~7ull;
  bool track = g_active;
  for (; a < end; a += 8) {
    Cell* c = shadow(a);
    if (track) cell_access(c, a, 0xff, kFlagWrite, pc);
    c->s[0] = kFreed;
  }
  raw_set(p, 0xDD, h->size);
  if (size_t k = g_reuse ? reuse_class(h->size) : 0) {
    *(uintptr_t*)p = g_freed[k];
    g_freed[k] = (uintptr_t)p;
  }
}

// Blocks made by static initialisers, before main or inside a guarded static:
// never freed, and roots for what the code later hangs on them.
// They have fixed addresses as well.
static uintptr_t g_static_bump;
static bool g_main_started;
static void map_at(uintptr_t a, size_t n, int prot);
static void* static_alloc(size_t n, size_t al) {
  if (!g_static_bump) {
    map_at(kStatic, kStaticSize, PROT_READ | PROT_WRITE);
    g_static_bump = kStatic;
  }
  if (al < 16) al = 16;
  uintptr_t p = (g_static_bump + al - 1) & ~(al - 1);
  if (p + n > kStatic + kStaticSize) return nullptr;
  g_static_bump = p + n;
  return (void*)p;
}
static bool in_static(const void* p) { return (uintptr_t)p - kStatic < kStaticSize; }

// A block is leaked when it is live and cannot be reached any more from global
// or thread-local variables (a lazily filled static table is no leak).
static std::vector<Hdr*>* leaked() {
  auto* out = new std::vector<Hdr*>();
  std::vector<Hdr*> blocks, todo;
  for (uintptr_t p = kArena; p < g_bump;) {
    Hdr* h = (Hdr*)p;
    if (h->magic != 0xA110C8ED) { p += 8; continue; }
    if (h->state == 1) blocks.push_back(h);
    p += sizeof(Hdr) + ((h->size + 7) & ~7ull);
  }
  std::vector<char> seen(blocks.size());
  auto mark = [&](uintptr_t v) {
    if (v - kArena >= kArenaSize) return;
    size_t lo = 0, hi = blocks.size();
    while (lo < hi) {
      size_t m = (lo + hi) / 2;
      if ((uintptr_t)blocks[m] + sizeof(Hdr) <= v) lo = m + 1;
      else hi = m;
    }
    if (!lo || seen[lo - 1]) return;
    Hdr* h = blocks[lo - 1];
    if (v > (uintptr_t)h + sizeof(Hdr) + h->size) return;
    seen[lo - 1] = 1;
    todo.push_back(h);
  };
  auto scan = [&](uintptr_t lo, uintptr_t hi) {
    for (lo = (lo + 7) & ~7ull; lo + 8 <= hi; lo += 8) mark(*(uintptr_t*)lo);
  };
  scan(g_data_lo, g_data_hi);
  if (g_static_bump) scan(kStatic, g_static_bump);
  if (g_tls) scan((uintptr_t)g_tls, (uintptr_t)g_tls + g_tls_size);
  for (int i = 0; i < g_nfibers; i++) {
    Fiber* f = g_fibers[i];
    if (f->state == kDone) continue;
    if (f->tls && f != g_cur) scan((uintptr_t)f->tls, (uintptr_t)f->tls + g_tls_size);
    for (auto& kv : f->specific) mark((uintptr_t)kv.second);
  }
  while (!todo.empty()) {
    Hdr* h = todo.back();
    todo.pop_back();
    scan((uintptr_t)h + sizeof(Hdr), (uintptr_t)h + sizeof(Hdr) + h->size);
  }
  for (size_t i = 0; i < blocks.size(); i++)
    if (!seen[i]) out->push_back(blocks[i]);
  return out;
}
uint64_t live_blocks() {
  if (g_cur != &g_mainf && g_cur) end_thread_locals();
  HarnessScope hs;
  if (!g_live) return 0;
  auto* l = leaked();
  uint64_t n = l->size();
  delete l;
  return n;
}
std::string describe_leaks(int max) {
  HarnessScope hs;
  std::string r;
  auto* l = leaked();
  for (int i = 0; i < max && i < (int)l->size(); i++) {
    char buf[96];
    snprintf(buf, sizeof buf, " [%lu bytes, allocated in %s]", (unsigned long)(*l)[i]->size, code((uintptr_t)(*l)[i]->pc).c_str());
    r += buf;
  }
  delete l;
  return r;
}

// --------------------------------------------------------------- mutexes
struct Mtx {
  int owner = -1;
  int count = 0;
};
static std::unordered_map<uintptr_t, Mtx>* g_mtx;
struct RwL { int writer = -1; int readers = 0; };
static std::unordered_map<uintptr_t, RwL>* g_rw;

static bool sim_on() { return g_cur && g_cur != &g_mainf; }

struct Off {  // runtime internals: keep bookkeeping allocations off the arena
  bool a;
  Off() : a(g_active) { g_active = false; if (g_cur) g_cur->harness++; }
  ~Off() { if (g_cur) g_cur->harness--; recompute_active(); }
};

static void check_live(const void* p, size_t n) {
  if (!g_active) return;
  for (uintptr_t a = (uintptr_t)p & ~7ull; a < (uintptr_t)p + n; a += 8) {
    Cell* c = shadow(a);
    if (c && c->s[0] >= kRedzone) bad_access(a, c->s[0], kFlagWrite, 0);
  }
}

static int mutex_lock(pthread_mutex_t* m, bool try_only) {
  if (!sim_on()) return 0;
  check_live(m, sizeof *m);
  spin_check(nullptr);
  sync_point();
  Off off;
  for (;;) {
    Mtx& x = (*g_mtx)[(uintptr_t)m];
    if (x.owner < 0) {
      x.owner = g_cur->id;
      x.count = 1;
      acquire(m);
      return 0;
    }
    if (x.owner == g_cur->id) {
      int kind = m->__data.__kind & 3;
      if (kind == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
      if (try_only) return EBUSY;
      if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
      fault(kDeadlock, "deadlock: a thread locks a mutex it already holds; stack " + stack_string());
      _exit(99);
    }
    if (try_only) return EBUSY;
    block(m);
  }
}
static int mutex_unlock(pthread_mutex_t* m) {
  if (!sim_on()) return 0;
  check_live(m, sizeof *m);
  {
    Off off;
    Mtx& x = (*g_mtx)[(uintptr_t)m];
    if (x.owner != g_cur->id) {
      if (x.owner < 0 || true) {
        // locked before the simulation started, or by another thread
        if (x.owner < 0) return 0;
        fault(kCrash, "mutex unlocked by a thread that does not hold it; stack " + stack_string());
        _exit(99);
      }
    }
    if (--x.count > 0) return 0;
    x.owner = -1;
    release(m);
    wake(m, kMaxFibers);
  }
  sync_point(true);
  return 0;
}

}  // namespace rt

using namespace rt;

// ============================================================ interposition
extern "C" {
#define PC ((uintptr_t)__builtin_return_address(0))

void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  if (g_cur) {
    uint32_t d = g_cur->depth++;
    if (d < 256) g_cur->calls[d] = (uintptr_t)pc;
  }
}
void __tsan_func_exit() {
  if (g_cur && g_cur->depth) g_cur->depth--;
}
#define RW(n)                                                                   \
  void __tsan_read##n(void* a) { if (g_active) access((uintptr_t)a, n, 0, PC); } \
  void __tsan_write##n(void* a) { if (g_active) access((uintptr_t)a, n, kFlagWrite, PC); } \
  void __tsan_unaligned_read##n(void* a) { if (g_active) access((uintptr_t)a, n, 0, PC); } \
  void __tsan_unaligned_write##n(void* a) { if (g_active) access((uintptr_t)a, n, kFlagWrite, PC); } \
  void __tsan_volatile_read##n(void* a) { if (g_active) access((uintptr_t)a, n, 0, PC); } \
  void __tsan_volatile_write##n(void* a) { if (g_active) access((uintptr_t)a, n, kFlagWrite, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (g_active && n) access((uintptr_t)a, n, 0, PC); }
void __tsan_write_range(void* a, size_t n) { if (g_active && n) access((uintptr_t)a, n, kFlagWrite, PC); }
void __tsan_vptr_update(void** a, void* v) { if (g_active) access((uintptr_t)a, 8, *a == v ? 0 : kFlagWrite, PC); }
void __tsan_vptr_read(void* a) { if (g_active) access((uintptr_t)a, 8, 0, PC); }

static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void at_pre(const volatile void* a, size_t n, bool write, int mo, uintptr_t pc, bool rd) {
  g_stats.atomics++;
  spin_check(a);
  sync_point();
  uintptr_t x = (uintptr_t)a;
  uintptr_t end = x + n;
  (void)end;
  Cell* c = shadow(x);
  if (c) cell_access(c, x, (uint8_t)(((n >= 8 ? 0xffu : (1u << n) - 1)) << (x & 7)), (write ? kFlagWrite : 0) | kFlagAtomic, pc);
  Off off;
  if (rd && acq(mo)) acquire((void*)a);
  if (write && rel(mo)) release((void*)a);
}
#define ATOMIC(bits, T)                                                                     \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                               \
    if (g_active) at_pre(a, sizeof(T), false, mo, PC, true);                                \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                            \
  }                                                                                         \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {                            \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, false);                                \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                         \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {                            \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                     \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {                           \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {                           \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {                           \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {                            \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                       \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {                           \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                      \
  }                                                                                         \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {                          \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                     \
  }                                                                                         \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
    (void)fmo;                                                                              \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  }                                                                                         \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { \
    (void)fmo;                                                                              \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
  }                                                                                         \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {  \
    (void)fmo;                                                                              \
    if (g_active) at_pre(a, sizeof(T), true, mo, PC, true);                                 \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);       \
    return c;                                                                               \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  (void)mo;
  if (g_active) {
    static char fence;
    sync_point();
    Off off;
    acquire(&fence);
    release(&fence);
  }
}
void __tsan_atomic_signal_fence(int) {}

// memcpy family: gives the shadow sight of copies made inside the C++ library.
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) {
  if (g_active && n) {
    access((uintptr_t)s, n, 0, PC);
    access((uintptr_t)d, n, kFlagWrite, PC);
  }
  void* r = d;
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  return r;
}
void* memmove(void* d, const void* s, size_t n) {
  if (g_active && n) {
    access((uintptr_t)s, n, 0, PC);
    access((uintptr_t)d, n, kFlagWrite, PC);
  }
  void* r = d;
  if ((uintptr_t)d - (uintptr_t)s >= n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
  } else {
    char* dd = (char*)d + n - 1;
    const char* ss = (const char*)s + n - 1;
    asm volatile("std\n rep movsb\n cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory");
  }
  return r;
}
void* memset(void* d, int v, size_t n) {
  if (g_active && n) access((uintptr_t)d, n, kFlagWrite, PC);
  void* r = d;
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
  return r;
}
int memcmp(const void* a, const void* b, size_t n) {
  if (g_active && n) {
    access((uintptr_t)a, n, 0, PC);
    access((uintptr_t)b, n, 0, PC);
  }
  const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
  for (size_t i = 0; i < n; i++) {
    if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    asm volatile("" ::: "memory");
  }
  return 0;
}

// ---- pthread
int pthread_mutex_lock(pthread_mutex_t* m) { return mutex_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mutex_lock(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return mutex_lock(m, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return mutex_unlock(m); }

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!sim_on()) return 0;
  sync_point();
  Off off;
  for (;;) {
    RwL& x = (*g_rw)[(uintptr_t)l];
    if (x.writer < 0) { x.readers++; acquire(l); return 0; }
    if (x.writer == g_cur->id) { fault(kDeadlock, "deadlock: read lock of a lock held for writing; stack " + stack_string()); _exit(99); }
    block(l);
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!sim_on()) return 0;
  sync_point();
  Off off;
  for (;;) {
    RwL& x = (*g_rw)[(uintptr_t)l];
    if (x.writer < 0 && x.readers == 0) { x.writer = g_cur->id; acquire(l); acquire((char*)l + 1); return 0; }
    if (x.writer == g_cur->id) { fault(kDeadlock, "deadlock: write lock taken twice; stack " + stack_string()); _exit(99); }
    block(l);
  }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!sim_on()) return 0;
  RwL& x = (*g_rw)[(uintptr_t)l];
  if (x.writer >= 0) return EBUSY;
  return pthread_rwlock_rdlock(l);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!sim_on()) return 0;
  RwL& x = (*g_rw)[(uintptr_t)l];
  if (x.writer >= 0 || x.readers) return EBUSY;
  return pthread_rwlock_wrlock(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  if (!sim_on()) return 0;
  {
    Off off;
    RwL& x = (*g_rw)[(uintptr_t)l];
    if (x.writer == g_cur->id) { x.writer = -1; release(l); }
    else if (x.readers > 0) { x.readers--; release((char*)l + 1); }
    else return 0;
    wake(l, kMaxFibers);
  }
  sync_point(true);
  return 0;
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  if (!sim_on()) return 0;
  Off off;
  {
    Mtx& x = (*g_mtx)[(uintptr_t)m];
    x.owner = -1;
    x.count = 0;
    release(m);
    wake(m, kMaxFibers);
  }
  block(c, deadline);
  bool to = g_cur->timed_out;
  acquire(c);
  for (;;) {
    Mtx& x = (*g_mtx)[(uintptr_t)m];
    if (x.owner < 0) { x.owner = g_cur->id; x.count = 1; acquire(m); break; }
    block(m);
  }
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, -1); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  int64_t us = (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
  return cond_wait(c, m, us - g_epoch < 0 ? 0 : us - g_epoch);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) {
  int64_t us = (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
  if (id == CLOCK_MONOTONIC) return cond_wait(c, m, us);
  return cond_wait(c, m, us - g_epoch < 0 ? 0 : us - g_epoch);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!sim_on()) return 0;
  { Off off; release(c); wake(c, 1); }
  sync_point(true);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!sim_on()) return 0;
  { Off off; release(c); wake(c, kMaxFibers); }
  sync_point(true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

int pthread_once(pthread_once_t* o, void (*fn)()) {
  volatile int* st = (volatile int*)o;  // 0 new, 1 running, 2 done
  if (!sim_on()) {
    if (*st != 2) { *st = 1; fn(); *st = 2; }
    return 0;
  }
  sync_point();
  {
    Off off;
    while (*st == 1) block(o);
    if (*st == 2) { acquire(o); return 0; }
    *st = 1;
  }
  fn();
  {
    Off off;
    *st = 2;
    release(o);
    wake(o, kMaxFibers);
  }
  return 0;
}

int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  if (b[0]) { if (sim_on()) { Off off; acquire(g); } return 0; }
  if (!sim_on()) { return 1; }
  sync_point();
  Off off;
  while (b[1] && !b[0]) block(g);
  if (b[0]) { acquire(g); return 0; }
  b[1] = 1;
  g_cur->stat_init++;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  b[0] = 1;
  b[1] = 0;
  if (sim_on()) {
    Off off;
    if (g_cur->stat_init) g_cur->stat_init--;
    release(g);
    wake(g, kMaxFibers);
  }
}
void __cxa_guard_abort(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  b[1] = 0;
  if (sim_on()) { Off off; if (g_cur->stat_init) g_cur->stat_init--; wake(g, kMaxFibers); }
}

static bool from_exe(void* pc) { return (uintptr_t)pc >= (uintptr_t)&__executable_start && (uintptr_t)pc < (uintptr_t)&etext; }
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso) {
  if (sim_on() && from_exe(__builtin_return_address(0))) {
    HarnessScope hs;
    g_cur->at_exit.push_back({fn, obj});
    return 0;
  }
  static int (*real)(void (*)(void*), void*, void*);
  if (!real) real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_thread_atexit");
  return real(fn, obj, dso);
}
int pthread_key_create(pthread_key_t* k, void (*dtor)(void*)) {
  if (from_exe(__builtin_return_address(0))) {
    HarnessScope hs;
    if (!g_keys) g_keys = new std::vector<Key>();
    *k = kKeyBase + g_keys->size();
    g_keys->push_back({dtor, true});
    return 0;
  }
  static int (*real)(pthread_key_t*, void (*)(void*));
  if (!real) real = (int (*)(pthread_key_t*, void (*)(void*)))dlsym(RTLD_NEXT, "pthread_key_create");
  return real(k, dtor);
}
int pthread_key_delete(pthread_key_t k) {
  if (k >= kKeyBase) { (*g_keys)[k - kKeyBase].used = false; return 0; }
  static int (*real)(pthread_key_t);
  if (!real) real = (int (*)(pthread_key_t))dlsym(RTLD_NEXT, "pthread_key_delete");
  return real(k);
}
void* pthread_getspecific(pthread_key_t k) {
  if (k >= kKeyBase) {
    Fiber* f = g_cur ? g_cur : &g_mainf;
    auto it = f->specific.find(k);
    return it == f->specific.end() ? nullptr : it->second;
  }
  static void* (*real)(pthread_key_t);
  if (!real) real = (void* (*)(pthread_key_t))dlsym(RTLD_NEXT, "pthread_getspecific");
  return real(k);
}
int pthread_setspecific(pthread_key_t k, const void* v) {
  if (k >= kKeyBase) {
    HarnessScope hs;
    (g_cur ? g_cur : &g_mainf)->specific[k] = (void*)v;
    return 0;
  }
  static int (*real)(pthread_key_t, const void*);
  if (!real) real = (int (*)(pthread_key_t, const void*))dlsym(RTLD_NEXT, "pthread_setspecific");
  return real(k, v);
}

struct SimThread { int fid; std::function<void*()> body; void* ret; };
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  if (!sim_on()) { fault(kCrash, "thread created outside the simulation"); abort(); }
  {
    Off off;
    int id = spawn("libthread", [fn, arg]() {
      LibScope ls;
      fn(arg);
      Off o2;
      release((void*)(uintptr_t)(0x1000 + g_cur->id));
      g_cur->state = kDone;
      wake((void*)(uintptr_t)(0x1000 + g_cur->id), kMaxFibers);
    }, true);
    *t = (pthread_t)(id + 1);
  }
  sync_point();
  return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (r) *r = nullptr;
  if (!sim_on()) return 0;
  Off off;
  int id = (int)t - 1;
  while (g_fibers[id]->state != kDone) block((void*)(uintptr_t)(0x1000 + id));
  acquire((void*)(uintptr_t)(0x1000 + id));
  return 0;
}
int pthread_detach(pthread_t) { return 0; }
pthread_t pthread_self() {
  if (sim_on()) return (pthread_t)(g_cur->id + 1);
  return (pthread_t)0x7fff;
}
int sched_yield() {
  if (!sim_on()) return 0;
  sync_point(true);
  if (++g_cur->yields >= 4) {
    g_cur->yields = 0;
    spin_pause();
  }
  return 0;
}

// ---- futex (std::future / std::promise)
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && sim_on()) {
    int op = (int)b & FUTEX_CMD_MASK;
    unsigned* w = (unsigned*)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      check_live(w, 4);
      Off off;
      if (*(volatile unsigned*)w != (unsigned)c) { errno = EAGAIN; return -1; }
      int64_t dl = -1;
      if (d) {
        const struct timespec* ts = (const struct timespec*)d;
        int64_t us = (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
        if (op == FUTEX_WAIT) dl = g_now + us;
        else dl = ((int)b & FUTEX_CLOCK_REALTIME) ? us - g_epoch : us;
        if (dl < g_now) dl = g_now;
      }
      block(w, dl);
      if (g_cur->timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int k;
      { Off off; k = wake(w, (int)c > 0 ? (int)c : 1); }
      sync_point(true);
      return k;
    }
  }
  long ret;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (ret < 0 && ret > -4096) { errno = (int)-ret; return -1; }
  return ret;
}

// ---- clocks
int gettimeofday(struct timeval* __restrict tv, void* __restrict tz) {
  if (sim_on()) {
    sync_point();
    int64_t v = client_clock_us();
    tv->tv_sec = v / 1000000;
    tv->tv_usec = v % 1000000;
    return 0;
  }
  return (int)syscall(SYS_gettimeofday, (long)tv, (long)tz, 0, 0, 0, 0);
}
int clock_gettime(clockid_t id, struct timespec* ts) {
  if (sim_on()) {
    sync_point();
    int64_t v = (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ? client_clock_us() : g_now + 1000000;
    ts->tv_sec = v / 1000000;
    ts->tv_nsec = (v % 1000000) * 1000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, (long)id, (long)ts, 0, 0, 0, 0);
}
time_t time(time_t* p) {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  if (p) *p = tv.tv_sec;
  return tv.tv_sec;
}
int nanosleep(const struct timespec* ts, struct timespec*) {
  if (sim_on()) { sleep_us((int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000); return 0; }
  return (int)syscall(SYS_nanosleep, (long)ts, 0, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* ts, struct timespec*) {
  if (sim_on()) {
    int64_t us = (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
    if (flags & TIMER_ABSTIME) us -= (id == CLOCK_REALTIME) ? client_clock_us() : g_now + 1000000;
    sleep_us(us < 0 ? 0 : us);
    return 0;
  }
  return (int)syscall(SYS_clock_nanosleep, (long)id, flags, (long)ts, 0, 0, 0);
}
int usleep(useconds_t us) {
  if (sim_on()) { sleep_us(us); return 0; }
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000l};
  return nanosleep(&ts, nullptr);
}

// ---- process death
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
  (void)fn;
  std::string m = std::string("assertion failed: ") + e + " (" + (strrchr(f, '/') ? strrchr(f, '/') + 1 : f) + ")";
  (void)l;
  if (on_fault) { Off off; fault(kCrash, m + " stack " + stack_string()); }
  fprintf(stderr, "%s\n", m.c_str());
  _exit(98);
}
void abort() {
  if (on_fault) { if (g_cur) g_cur->harness++; fault(kCrash, "abort() / std::terminate; stack " + stack_string()); }
  _exit(98);
}
}  // extern "C"

static void on_signal(int sig, siginfo_t* si, void*) {
  char buf[128];
  uintptr_t a = (uintptr_t)si->si_addr;
  const char* extra = "";
  if (g_cur && g_cur->lo && a < g_cur->lo && a >= g_cur->lo - 4096) extra = " (stack overflow)";
  else if (a > 0xDDDDDDDDDDD00000ull || (a >> 40) == 0xDDDDDD || si->si_addr == nullptr) extra = "";
  snprintf(buf, sizeof buf, "signal %d%s; stack ", sig, extra);
  if (g_cur) g_cur->harness++;
  fault(kCrash, std::string(buf) + stack_string());
  _exit(98);
}

// ---- operator new / delete
static inline bool use_arena() { return g_active && g_cur->stat_init == 0; }
static void* op_new(size_t n, size_t al, uintptr_t pc) {
  if (use_arena()) return arena_alloc(n ? n : 1, al, pc);
  if (!g_main_started || (g_active && g_cur->stat_init)) {
    void* p = static_alloc(n ? n : 1, al);
    if (p) return p;
  }
  void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void op_delete(void* p, uintptr_t pc) {
  if (!p) return;
  if (in_arena(p)) { arena_free(p, pc); return; }
  if (in_static(p)) return;
  free(p);
}
void* operator new(size_t n) { return op_new(n, 16, PC); }
void* operator new[](size_t n) { return op_new(n, 16, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16, PC); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, PC); }
void operator delete(void* p) noexcept { op_delete(p, PC); }
void operator delete[](void* p) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_delete(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }

extern "C" char __data_start, _end;

namespace rt {
static void map_at(uintptr_t a, size_t n, int prot) {
  void* p = mmap((void*)a, n, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)a) {
    perror("mmap");
    _exit(97);
  }
}
static const uintptr_t kMainStack = 0x260000000000ull;
static int g_main_rc;
static void* main_thread(void* p) {
  g_main_rc = (*(const std::function<int()>*)p)();
  return nullptr;
}
int on_fixed_stack(const std::function<int()>& fn) {
  auto create = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
  auto join = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
  const size_t n = 16 << 20;
  map_at(kMainStack, n, PROT_READ | PROT_WRITE);
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, (void*)kMainStack, n);
  pthread_t t;
  if (create(&t, &at, main_thread, (void*)&fn)) { perror("pthread_create"); _exit(97); }
  join(t, nullptr);
  return g_main_rc;
}
static char g_altstack[64 << 10];
void init_process() {
  __libc_single_threaded = 0;
  g_main_started = true;
  dl_iterate_phdr(find_tls, nullptr);
  g_sync = new SyncMap();
  g_mtx = new std::unordered_map<uintptr_t, Mtx>();
  g_rw = new std::unordered_map<uintptr_t, RwL>();
  map_at(kArena, kArenaSize, PROT_READ | PROT_WRITE);
  map_at(kStacks, kStackArea, PROT_NONE);
  map_at(kShadowStatic, kStaticSize * 4, PROT_READ | PROT_WRITE);
  map_at(kShadowArena, kArenaSize * 4, PROT_READ | PROT_WRITE);
  map_at(kShadowStack, kStackArea * 4, PROT_READ | PROT_WRITE);
  g_data_lo = (uintptr_t)&__data_start & ~7ull;
  g_data_hi = (uintptr_t)&_end;
  map_at(kShadowGlob, ((g_data_hi - g_data_lo) * 4 + 8191) & ~4095ull, PROT_READ | PROT_WRITE);
  stack_t ss = {};
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof g_altstack;
  sigaltstack(&ss, nullptr);
  struct sigaction sa = {};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
}
}  // namespace rt
