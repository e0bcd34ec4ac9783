// Between the LRU container's driver (instrumented) and its world.
#pragma once
#include <stdint.h>
#include <functional>
struct LruEntry { int key, val; int64_t stamp; };
struct LruDebug { int val, pin, deferred; };
struct LruView {
  int64_t size, entries, def_size, def_entries, pinned, max, age, now;
  char summary[96];
  int n;
  LruEntry e[256];
  int nd;
  LruDebug d[512];
};
struct LruBox;
// kind: 0 SimpleLRUCache, 1 SimpleLRUCacheWithDeleter, 2 a subclass with a limit on the number of entries
LruBox* lru_new(int kind, int64_t units, int hash_mod, int max_entries);
void lru_delete(LruBox*);
void lru_lock(LruBox*);
void lru_unlock(LruBox*);
void* lru_insert(LruBox*, int key, int val, uint64_t units, bool pinned);
void* lru_lookup(LruBox*, int key, bool no_update, int* val);
int lru_scoped(LruBox*, int key, bool no_update);  // value found or -1
void lru_release(LruBox*, int key, void* v, bool no_update);
void lru_update(LruBox*, int key, void* v, uint64_t units);
bool lru_in_use(LruBox*, int key, void* v);
void lru_remove(LruBox*, int key);
void lru_remove_all(LruBox*);
void lru_remove_unpinned(LruBox*);
void lru_clear(LruBox*);
void lru_max(LruBox*, int64_t units);
void lru_timeout(LruBox*, double s, bool age);
void lru_expire(LruBox*);
int64_t lru_stamp(LruBox*, int key, bool age);
int lru_peek(void* v);  // id of a value that is held
int64_t lru_now();
void lru_view(LruBox*, LruView*, bool debug);
// called back
void sim_lru_deleted(int val, int key);
