// Drives the real container (header-only, so compiled here with instrumentation).
#include "lru.h"

#include <stdio.h>
#include <string.h>

#include <mutex>
#include <string>
#include <vector>

#include "utils/simple_lru_cache_inl.h"

using namespace google::service_control_client;
namespace {
struct Val {
  Val(int i, int k) : id(i), key(k), canary(i ^ 0x5a5a) {}
  ~Val() {
    if (canary != (id ^ 0x5a5a)) id = -2;
    sim_lru_deleted(id, key);
    canary = 0;
  }
  int id, key, canary;
};
int g_mod = 1;
struct Hash {
  size_t operator()(const std::string& s) const { return (size_t)(atoi(s.c_str() + 1) % g_mod); }
};
struct Drop {
  void operator()(Val* v) { delete v; }
};
std::string K(int k) { return "k" + std::to_string(k); }
int unK(const std::string& s) { return atoi(s.c_str() + 1); }

struct Api {
  virtual ~Api() {}
  virtual void Insert(int k, Val* v, size_t u, bool pin) = 0;
  virtual Val* Lookup(int k, bool nu) = 0;
  virtual int Scoped(int k, bool nu) = 0;
  virtual void Release(int k, Val* v, bool nu) = 0;
  virtual void Update(int k, Val* v, size_t u) = 0;
  virtual bool InUse(int k, Val* v) = 0;
  virtual void Remove(int k) = 0;
  virtual void Do(int what) = 0;
  virtual void Max(int64_t u) = 0;
  virtual void Timeout(double s, bool age) = 0;
  virtual int64_t Stamp(int k, bool age) = 0;
  virtual void View(LruView* v, bool debug) = 0;
};
SimpleLRUCacheOptions opt(bool nu) {
  SimpleLRUCacheOptions o;
  o.set_update_eviction_order(!nu);
  return o;
}
// C: a concrete cache class
template <class C>
struct Impl : Api {
  C c;
  template <class... A>
  Impl(A... a) : c(a...) {}
  void Insert(int k, Val* v, size_t u, bool pin) override {
    if (pin) c.InsertPinned(K(k), v, u);
    else c.Insert(K(k), v, u);
  }
  Val* Lookup(int k, bool nu) override { return nu ? c.LookupWithOptions(K(k), opt(true)) : c.Lookup(K(k)); }
  int Scoped(int k, bool nu) override {
    if (nu) {
      typename C::ScopedLookup l(&c, K(k), opt(true));
      return l.Found() ? l.value()->id : -1;
    }
    typename C::ScopedLookup l(&c, K(k));
    return l.Found() ? l.value()->id : -1;
  }
  void Release(int k, Val* v, bool nu) override {
    if (nu) c.ReleaseWithOptions(K(k), v, opt(true));
    else c.Release(K(k), v);
  }
  void Update(int k, Val* v, size_t u) override { c.UpdateSize(K(k), v, u); }
  bool InUse(int k, Val* v) override { return v ? c.StillInUse(K(k), v) : c.StillInUse(K(k)); }
  void Remove(int k) override { c.Remove(K(k)); }
  void Do(int w) override {
    if (w == 0) c.RemoveAll();
    else if (w == 1) c.RemoveUnpinned();
    else if (w == 2) c.Clear();
    else c.RemoveExpiredEntries();
  }
  void Max(int64_t u) override { c.SetMaxSize(u); }
  void Timeout(double s, bool age) override {
    if (age) c.SetAgeBasedEviction(s);
    else c.SetMaxIdleSeconds(s);
  }
  int64_t Stamp(int k, bool age) override { return age ? c.GetInsertionTime(K(k)) : c.GetLastUseTime(K(k)); }
  void View(LruView* v, bool debug) override {
    v->size = c.Size();
    v->entries = c.Entries();
    v->def_size = c.DeferredSize();
    v->def_entries = c.DeferredEntries();
    v->pinned = c.PinnedSize();
    v->max = c.MaxSize();
    v->age = c.AgeOfLRUItemInMicroseconds();
    v->now = SimpleCycleTimer::Now();
    std::string s = c.Summary();
    snprintf(v->summary, sizeof v->summary, "%s", s.c_str());
    v->n = 0;
    for (typename C::const_iterator it = c.begin(); it != c.end() && v->n < 256; ++it) {
      LruEntry& e = v->e[v->n++];
      e.key = unK(it->first);
      e.val = it->second->id;
      e.stamp = it.last_use_time();
    }
    v->nd = 0;
    if (debug) Debug(v);
  }
  virtual void Debug(LruView* v) { v->nd = -1; }
};
typedef SimpleLRUCache<std::string, Val, Hash> Plain;
typedef SimpleLRUCacheWithDeleter<std::string, Val, Drop, Hash> WithDeleter;
struct Limited : SimpleLRUCache<std::string, Val, Hash> {
  Limited(int64_t u, int m) : SimpleLRUCache<std::string, Val, Hash>(u), max_entries(m) {}
  int max_entries;
  mutable std::vector<LruDebug> dbg;
  bool IsOverfull() const override { return Size() > MaxSize() || Entries() > max_entries; }
  void RemoveElement(const std::string& k, Val* v) override {
    if (unK(k) != v->key) v->id = -3;
    delete v;
  }
  void DebugIterator(const std::string& k, const Val* v, int pins, int64_t, bool deferred, std::string*) const override {
    dbg.push_back({unK(k) == v->key ? v->id : -3, pins, deferred});
  }
};
struct LimitedImpl : Impl<Limited> {
  LimitedImpl(int64_t u, int m) : Impl<Limited>(u, m) {}
  void Debug(LruView* v) override {
    std::string s;
    c.dbg.clear();
    c.DebugOutput(&s);
    for (auto& d : c.dbg)
      if (v->nd < 512) v->d[v->nd++] = d;
  }
};
}  // namespace
struct LruBox {
  std::mutex mu;
  Api* a;
};

LruBox* lru_new(int kind, int64_t units, int mod, int max_entries) {
  g_mod = mod;
  LruBox* b = new LruBox;
  if (kind == 0) b->a = new Impl<Plain>(units);
  else if (kind == 1) b->a = new Impl<WithDeleter>(units);
  else b->a = new LimitedImpl(units, max_entries);
  return b;
}
void lru_delete(LruBox* b) {
  delete b->a;
  delete b;
}
void lru_lock(LruBox* b) { b->mu.lock(); }
void lru_unlock(LruBox* b) { b->mu.unlock(); }
void* lru_insert(LruBox* b, int k, int id, uint64_t u, bool pin) {
  Val* v = new Val(id, k);
  b->a->Insert(k, v, u, pin);
  return v;
}
void* lru_lookup(LruBox* b, int k, bool nu, int* id) {
  Val* v = b->a->Lookup(k, nu);
  *id = v ? v->id : -1;
  return v;
}
int lru_scoped(LruBox* b, int k, bool nu) { return b->a->Scoped(k, nu); }
void lru_release(LruBox* b, int k, void* v, bool nu) { b->a->Release(k, (Val*)v, nu); }
void lru_update(LruBox* b, int k, void* v, uint64_t u) { b->a->Update(k, (Val*)v, u); }
bool lru_in_use(LruBox* b, int k, void* v) { return b->a->InUse(k, (Val*)v); }
void lru_remove(LruBox* b, int k) { b->a->Remove(k); }
void lru_remove_all(LruBox* b) { b->a->Do(0); }
void lru_remove_unpinned(LruBox* b) { b->a->Do(1); }
void lru_clear(LruBox* b) { b->a->Do(2); }
void lru_expire(LruBox* b) { b->a->Do(3); }
void lru_max(LruBox* b, int64_t u) { b->a->Max(u); }
void lru_timeout(LruBox* b, double s, bool age) { b->a->Timeout(s, age); }
int64_t lru_stamp(LruBox* b, int k, bool age) { return b->a->Stamp(k, age); }
int lru_peek(void* v) {
  Val* x = (Val*)v;
  return x->canary == (x->id ^ 0x5a5a) ? x->id : -2;
}
void lru_view(LruBox* b, LruView* v, bool debug) { b->a->View(v, debug); }
int64_t lru_now() { return SimpleCycleTimer::Now(); }
