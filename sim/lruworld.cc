// World 2: the LRU container, used by simulated threads that share it under a lock, against a reference model.
//
// A plan's ops: kind = operation (see step()), key, bits = amount, hi = option, delay = simulated time before it.
#include <math.h>
#include <string.h>

#include <algorithm>

#include "lru.h"
#include "world.h"

namespace sim {
namespace {
struct Entry {
  int key, val;
  u64 units;
  int pins;
  i64 stamp;
  u64 ord;
  bool off;   // pinned in a way that takes it out of the eviction order
  bool live;  // else removed, waiting for its pins
  bool gone;
};
struct Held { int e; void* v; bool nu; };
struct LW {
  const Plan* p;
  History* h;
  LruBox* box;
  std::vector<Entry> m;
  std::map<int, std::vector<Held>> held;  // by fiber
  std::map<int, int> deleted;             // value -> times
  std::vector<int> now_deleted;
  std::set<int> expect;
  i64 max, idle = -1, now = 0;
  bool age;
  int kind, limit, keys;
  u64 ord = 0;
  int callers = 0;
  bool dead = false;
} * L;
std::string S(i64 v) { return std::to_string(v); }
void log(const std::string& m) {
  L->h->log.push_back(std::to_string(rt::next_seq()) + " thread " + S(rt::cur_id()) + " t=" + S(rt::now_us()) + "us " + m);
}
void bad(const std::string& m) {
  if (L->h->viol.size() < 5) L->h->viol.push_back(m);
  L->dead = true;
}

// ------------------------------------------------------------ the model
i64 size() { i64 s = 0; for (auto& e : L->m) if (!e.gone) s += e.units; return s; }
int live() { int n = 0; for (auto& e : L->m) n += !e.gone && e.live; return n; }
int find(int key) {
  for (size_t i = 0; i < L->m.size(); i++)
    if (!L->m[i].gone && L->m[i].live && L->m[i].key == key) return (int)i;
  return -1;
}
bool overfull() { return size() > L->max || (L->kind == 2 && live() > L->limit); }
void discard(Entry& e) {
  e.gone = true;
  L->expect.insert(e.val);
}
void remove(Entry& e) {
  e.live = false;
  if (!e.pins) discard(e);
}
void gc() {
  while (overfull()) {
    Entry* o = nullptr;
    for (auto& e : L->m)
      if (!e.gone && e.live && !e.pins && (!o || std::make_pair(e.stamp, e.ord) < std::make_pair(o->stamp, o->ord))) o = &e;
    if (!o) return;
    remove(*o);
    L->h->faults["capacity_eviction"]++;
  }
}
void expire() {
  if (L->idle < 0) return;
  i64 thr = L->now - L->idle;
  for (auto& e : L->m)
    if (!e.gone && e.live && e.stamp < thr && (L->age || !e.pins)) {
      remove(e);
      L->h->faults["expiry"]++;
    }
}
int m_insert(int key, int val, u64 units) {
  int o = find(key);
  if (o >= 0) remove(L->m[o]);
  L->m.push_back({key, val, units, 1, L->now, ++L->ord, !L->age, true, false});
  int i = (int)L->m.size() - 1;
  gc();
  return i;
}
void m_release(int i, bool nu) {
  Entry& e = L->m[i];
  if (!e.live) {
    if (!--e.pins) discard(e);
    return;
  }
  if (!L->age && !nu) e.stamp = L->now, e.ord = ++L->ord;
  if (!--e.pins) {
    if (!L->age && e.off) e.ord = ++L->ord;
    e.off = false;
    if (overfull()) remove(e);
  }
}
int m_lookup(int key, bool nu) {
  expire();
  int i = find(key);
  if (i < 0) return -1;
  if (!L->age && !nu) L->m[i].off = true;
  L->m[i].pins++;
  return i;
}
int pins() { int n = 0; for (auto& e : L->m) if (!e.gone) n += e.pins; return n; }

// ------------------------------------------------------------ comparison
void compare(const std::string& what, bool debug) {
  LruView* v = new LruView;
  {
    rt::LibScope ls;
    lru_view(L->box, v, debug);
  }
  L->h->ob++;
  auto neq = [&](const char* n, i64 got, i64 want) {
    if (got != want) bad(std::string(n) + " is " + S(got) + ", expected " + S(want) + " after " + what);
  };
  std::set<int> nd(L->now_deleted.begin(), L->now_deleted.end());
  for (int x : nd)
    if (!L->expect.count(x)) bad("value deleted that should be kept: " + S(x) + " after " + what);
  for (int x : L->expect)
    if (!nd.count(x)) bad("value kept that should be deleted: " + S(x) + " after " + what);
  L->now_deleted.clear();
  L->expect.clear();
  i64 ds = 0, de = 0, ps = 0;
  std::map<int, const Entry*> lv;
  const Entry* old = nullptr;
  for (auto& e : L->m) {
    if (e.gone) continue;
    if (!e.live) ds += e.units, de++;
    else {
      if (e.pins) ps += e.units;
      lv[e.key] = &e;
      if (!old || std::make_pair(e.stamp, e.ord) < std::make_pair(old->stamp, old->ord)) old = &e;
    }
  }
  neq("size", v->size, size());
  neq("number of entries", v->entries, live());
  neq("size of removed pinned entries", v->def_size, ds);
  neq("number of removed pinned entries", v->def_entries, de);
  neq("pinned size", v->pinned, ps);
  neq("capacity", v->max, L->max);
  if (L->age || !pins()) neq("age of the oldest entry", v->age, old ? L->now - old->stamp : 0);
  std::string sum = S(ps) + "/" + S(ds) + "/" + S(size()) + " p/d/a";
  if (sum != v->summary) bad("summary is " + std::string(v->summary) + ", expected " + sum + " after " + what);
  std::set<int> seen;
  for (int i = 0; i < v->n; i++) {
    auto it = lv.find(v->e[i].key);
    if (!seen.insert(v->e[i].key).second) bad("iteration visits a key twice after " + what);
    if (it == lv.end()) bad("iteration visits key " + S(v->e[i].key) + " that is not there after " + what);
    else {
      neq("value of iterated key", v->e[i].val, it->second->val);
      neq("time of iterated key", v->e[i].stamp, it->second->stamp);
    }
  }
  neq("number of iterated entries", v->n, (i64)lv.size());
  if (debug && v->nd >= 0) {
    std::multiset<std::vector<int>> a, b;
    for (int i = 0; i < v->nd; i++) a.insert({v->d[i].val, v->d[i].pin, v->d[i].deferred});
    for (auto& e : L->m)
      if (!e.gone) b.insert({e.val, e.pins, !e.live});
    if (a != b) bad("debug output lists the wrong elements or pins after " + what);
  }
  for (int k = 0; k < L->keys && !L->dead; k++) {
    i64 st;
    bool in;
    {
      rt::LibScope ls;
      st = lru_stamp(L->box, k, L->age);
      in = lru_in_use(L->box, k, nullptr);
    }
    neq("time of key", st, lv.count(k) ? lv[k]->stamp : -1);
    bool want = false;
    for (auto& e : L->m) want |= !e.gone && e.key == k;
    neq("in-use state of key", in, want);
  }
  for (auto& f : L->held)
    for (auto& x : f.second) {
      if (L->dead) break;
      Entry& e = L->m[x.e];
      int id;
      bool in;
      {
        rt::LibScope ls;
        id = lru_peek(x.v);
        in = lru_in_use(L->box, e.key, x.v);
      }
      neq("pinned value", id, e.val);
      neq("in-use state of pinned value", in, 1);
    }
  delete v;
}

void release_one(int f, size_t n, const std::string& what) {
  auto& hv = L->held[f];
  Held x = hv[n];
  hv.erase(hv.begin() + n);
  int key = L->m[x.e].key;
  m_release(x.e, x.nu);
  rt::LibScope ls;
  lru_release(L->box, key, x.v, x.nu);
}

void step(const POp& o) {
  const Sub& s = o.subs[0];
  int k = s.key % L->keys;
  bool nu = s.hi & 1;
  u64 units = s.bits < 0 ? 0 : s.bits;
  std::string what = "op " + S(o.id) + " " + o.kind + " key " + S(k) + " amount " + S(s.bits) + (nu ? " without reordering" : "");
  {
    rt::LibScope ls;
    lru_lock(L->box);
  }
  if (L->dead) {
    rt::LibScope ls;
    lru_unlock(L->box);
    return;
  }
  {
    rt::LibScope ls;
    L->now = lru_now();
  }
  log(what);
  switch (o.kind) {
    case 'i':
    case 'I': {
      void* v;
      int e = m_insert(k, o.id, units);
      if (o.kind == 'i') m_release(e, false);
      {
        rt::LibScope ls;
        v = lru_insert(L->box, k, o.id, units, o.kind == 'I');
      }
      if (o.kind == 'I') L->held[o.fiber].push_back({e, v, false});
      break;
    }
    case 'l': {
      int e = m_lookup(k, nu), id;
      void* v;
      {
        rt::LibScope ls;
        v = lru_lookup(L->box, k, nu, &id);
      }
      if (id != (e < 0 ? -1 : L->m[e].val)) bad("lookup returned value " + S(id) + ", expected " + S(e < 0 ? -1 : L->m[e].val) + " at " + what);
      else if (e >= 0) L->held[o.fiber].push_back({e, v, nu});
      break;
    }
    case 's': {
      int e = m_lookup(k, nu), id, want = e < 0 ? -1 : L->m[e].val;
      if (e >= 0) m_release(e, nu);
      {
        rt::LibScope ls;
        id = lru_scoped(L->box, k, nu);
      }
      if (id != want) bad("scoped lookup returned value " + S(id) + ", expected " + S(want) + " at " + what);
      break;
    }
    case 'r': {
      auto& hv = L->held[o.fiber];
      if (!hv.empty()) release_one(o.fiber, s.bits % hv.size(), what);
      break;
    }
    case 'u': {
      // hi: 0 any value of the key, 2 one that is held, 4 a value of another key
      void* v = nullptr;
      int want = -1;
      auto& hv = L->held[o.fiber];
      if (s.hi >= 2 && !hv.empty()) {
        Held& x = hv[s.logs % hv.size()];
        v = x.v;
        want = x.e;
        if (s.hi < 4) k = L->m[x.e].key;
      }
      int t = find(k);
      if (t >= 0 && (!v || t == want)) L->m[t].units = units;
      else
        for (size_t i = 0; i < L->m.size(); i++) {
          Entry& e = L->m[i];
          if (!e.gone && !e.live && e.key == k && (!v || (int)i == want)) e.units = units;
        }
      gc();
      rt::LibScope ls;
      lru_update(L->box, k, v, units);
      break;
    }
    case 'R': {
      int e = find(k);
      if (e >= 0) remove(L->m[e]);
      rt::LibScope ls;
      lru_remove(L->box, k);
      break;
    }
    case 'A': {
      for (auto& e : L->m)
        if (!e.gone && e.live) remove(e);
      rt::LibScope ls;
      lru_remove_all(L->box);
      break;
    }
    case 'U': {
      for (auto& e : L->m)
        if (!e.gone && e.live && !e.pins) remove(e);
      rt::LibScope ls;
      lru_remove_unpinned(L->box);
      break;
    }
    case 'C': {
      if (pins()) break;
      for (auto& e : L->m)
        if (!e.gone) remove(e);
      rt::LibScope ls;
      lru_clear(L->box);
      break;
    }
    case 'm': {
      L->max = s.bits;
      gc();
      rt::LibScope ls;
      lru_max(L->box, s.bits);
      break;
    }
    case 't': {
      // amount: 1/64 seconds; negative: none; very large: never
      double sec = s.bits < 0 ? -1 : s.bits > 100000000 ? (s.bits & 1 ? HUGE_VAL : 1e300) : s.bits / 64.0;
      L->idle = s.bits < 0 ? -1 : s.bits > 100000000 ? -1 : s.bits * 15625ll;
      expire();
      rt::LibScope ls;
      lru_timeout(L->box, sec, L->age);
      break;
    }
    case 'q': {
      // the other policy, once nothing is pinned and no timeout is set
      if (pins()) break;
      L->idle = -1;
      bool was = L->age;
      L->age = !L->age;
      rt::LibScope ls;
      lru_timeout(L->box, -1, was);
      lru_timeout(L->box, -1, !was);
      break;
    }
    case 'x': {
      expire();
      rt::LibScope ls;
      lru_expire(L->box);
      break;
    }
    case 'J':
      rt::jump_clock((i64)s.bits * 1000);
      L->h->faults["wall_clock_jump"]++;
      break;
    default: break;
  }
  i64 after;
  {
    rt::LibScope ls;
    after = lru_now();
  }
  if (after != L->now) bad("harness: time passed during an operation");
  if (!L->dead) compare(what, o.id % 3 == 0);
  rt::LibScope ls;
  lru_unlock(L->box);
}

void main_fiber() {
  rt::HarnessScope hs;
  const Plan& p = *L->p;
  {
    rt::LibScope ls;
    L->box = lru_new(L->kind, L->max, (int)p.get("mod", 7), L->limit);
    if (L->age) lru_timeout(L->box, -1, true);
  }
  std::set<int> fibers;
  for (auto& o : p.ops) fibers.insert(o.fiber);
  L->callers = (int)fibers.size();
  for (int f : fibers)
    rt::spawn("caller", [f]() {
      rt::HarnessScope hs;
      for (auto& o : L->p->ops)
        if (o.fiber == f) {
          if (o.delay) rt::sleep_us(o.delay);
          step(o);
        }
      L->callers--;
      rt::wake_waiters();
    });
  rt::wait_until([]() { return L->callers == 0; });
  if (L->dead) return;
  // everything is released, then cleared: every value must be gone exactly once
  {
    rt::LibScope ls;
    lru_lock(L->box);
    rt::HarnessScope h2;
    rt::LibScope l2;
    L->now = lru_now();
  }
  log("release everything");
  for (auto& f : L->held)
    while (!f.second.empty() && !L->dead) {
      release_one(f.first, 0, "the end");
      compare("the final releases", true);
    }
  if (L->dead) return;
  for (auto& e : L->m)
    if (!e.gone) remove(e);
  {
    rt::LibScope ls;
    lru_clear(L->box);
  }
  compare("clear", true);
  if (L->dead) return;
  rt::LibScope ls;
  lru_unlock(L->box);
  lru_delete(L->box);
}

void run_lru(const Plan& p, History* h) {
  L = new LW;
  L->p = &p;
  L->h = h;
  L->max = p.get("cap", 5);
  L->age = p.get("age", 0);
  L->kind = (int)p.get("kind", 0);
  L->limit = (int)p.get("limit", 3);
  L->keys = (int)p.get("keys", 4);
  rt::start(p.sched, 1600000000ll * 1000000);
  rt::set_sim_cap(1ll << 60);
  rt::spawn("main", main_fiber);
  rt::run_all();
  if (rt::trace().pre.size()) h->faults["preemption"] += rt::trace().pre.size();
  for (auto& o : p.ops)
    if (!L->dead && (o.kind == 'i' || o.kind == 'I') && L->deleted[o.id] != 1) bad("value " + S(o.id) + " was deleted " + S(L->deleted[o.id]) + " times");
  if (!L->dead) {
    u64 l = rt::live_blocks();
    if (l) bad(S((i64)l) + " blocks leaked: " + rt::describe_leaks(4));
  }
  h->complete = true;
}

void gen_lru(const std::string&, u64 seed, Plan* p) {
  rt::Rng r(seed);
  r.next();
  auto& c = p->cfg;
  c["world"] = 2;
  c["cap"] = r.chance(0.1) ? r.below(3) : 1 + r.below(12);
  c["age"] = r.chance(0.4);
  c["kind"] = r.below(3);
  c["limit"] = 1 + r.below(6);
  c["keys"] = 1 + r.below(8);
  c["mod"] = r.chance(0.5) ? 1 + r.below(3) : 1000;
  bool big = r.chance(0.05);  // many entries, many evicted or expired at once
  if (big) c["cap"] = 70 + r.below(80), c["keys"] = 100 + r.below(80), c["limit"] = 70 + r.below(80), c["mod"] = 1000;
  int n = big ? 150 + (int)r.below(250) : 5 + (int)r.below(r.chance(0.3) ? 150 : 50), callers = r.chance(0.5) ? 1 : 2 + (int)r.below(3);
  double p_nu = r.chance(0.4) ? 0 : r.unit() * 0.6;
  bool timed = r.chance(0.6);
  int maxu = r.chance(0.3) ? 1 : 5;
  double w_hold = 0.2 + r.unit() * 2, w_admin = r.unit() * 1.2;
  // weights
  struct W { char k; double w; } ws[] = {{'i', 4}, {'I', w_hold}, {'l', 2 * w_hold}, {'s', 2}, {'r', 3 * w_hold}, {'u', 0.7 * w_admin}, {'R', w_admin},
                                         {'A', 0.15 * w_admin}, {'U', 0.2 * w_admin}, {'C', 0.3 * w_admin}, {'m', 0.4 * w_admin}, {'t', timed ? 0.5 : 0}, {'q', 0.15 * w_admin},
                                         {'x', timed ? 0.7 : 0.05}, {'J', 0.1}};
  double tot = 0;
  for (auto& w : ws) tot += w.w;
  for (int i = 0; i < n; i++) {
    POp o;
    o.id = i;
    o.fiber = (int)r.below(callers);
    double x = r.unit() * tot;
    o.kind = 'x';
    for (auto& w : ws) {
      if (x < w.w) { o.kind = w.k; break; }
      x -= w.w;
    }
    if (timed && i == 0) o.kind = 't';
    o.delay = r.chance(timed ? 0.5 : 0.85) ? 0 : r.chance(0.3) ? 1 + (i64)r.below(3) : std::max<i64>(0, (i64)r.below(6) * 15625 + r.range(-1, 1));
    Sub s;
    s.key = (int)r.below(c["keys"]);
    s.hi = r.chance(p_nu);
    s.bits = r.chance(0.08) ? 0 : 1 + (int)r.below(maxu);
    s.logs = (int)r.below(100);
    if (o.kind == 'r') s.bits = (int)r.below(100);
    if (o.kind == 'u') s.hi = 2 * (int)r.below(3);
    if (big && r.chance(0.6)) o.kind = 'i', s.bits = r.chance(0.02) ? (int)c["cap"] : 1;
    if (o.kind == 'm') s.bits = (int)r.below(big ? c["cap"] + 20 : 14);
    if (o.kind == 't') s.bits = r.chance(0.15) ? -1 : r.chance(0.08) ? 100000001 + (int)r.below(2) : (int)r.below(8);
    if (o.kind == 'J') s.bits = (int)r.range(-3600000, 3600000);
    o.subs.push_back(s);
    p->ops.push_back(o);
  }
  rt::SchedConfig& s = p->sched;
  s.seed = r.next();
  if (callers > 1) {
    s.strategy = r.chance(0.3) ? rt::kSequential : rt::kRandom;
    s.p_sync = r.unit();
    s.p_mem = r.chance(0.7) ? 0 : 0.001;
  } else {
    s.strategy = rt::kSequential;
  }
}
struct Reg {
  Reg() {
    world_main[2] = run_lru;
    world_gen[2] = gen_lru;
  }
} reg;
}  // namespace
}  // namespace sim

using namespace sim;
void sim_lru_deleted(int val, int key) {
  rt::HarnessScope hs;
  if (!L) return;
  log("deleted value " + S(val));
  L->now_deleted.push_back(val);
  if (++L->deleted[val] > 1) bad("value " + S(val) + " of key " + S(key) + " was deleted twice");
  if (val < 0) bad("a value was deleted under the wrong key or after it was destroyed");
}
