// Plans (explicit, replayable inputs of a run), recorded histories, oracles.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "google/api/servicecontrol/v1/quota_controller.pb.h"
#include "google/api/servicecontrol/v1/service_controller.pb.h"
#include "rt.h"

namespace sim {

namespace sc = ::google::api::servicecontrol::v1;
typedef int64_t i64;
typedef uint64_t u64;
const u64 kOpen = ~0ull;

// ------------------------------------------------------------------- plan
struct Sub {  // one operation inside a request
  int key = 0;
  int hi = 0;      // high importance
  int logs = 0;
  int bits = 0;    // which metrics it carries
};
struct POp {
  int id = 0;
  int fiber = 0;
  char kind = 'c';   // c check, q quota, r report, s statistics
  char mode = 'a';   // a async, s sync, p per-request transport, n null per-request transport
  i64 delay = 0;     // us to wait before issuing
  int bad = 0;       // 1 wrong service name, 2 no operation
  int dirty = 0;     // the caller's response object still holds an older answer
  int cl = 0;        // which client
  int par = -1;      // issued inside the completion callback of this op
  int at = 0;        // 1: inside the transport function called for op par instead
  std::vector<Sub> subs;
};
struct Outcome {
  i64 delay = 1000;
  int st = 0;      // status code delivered
  int pay = 0;     // 0 pass, 1 deny, 2 pass with extra content
  int inl = 0;     // complete inside the transport call
  int stall = 0;   // transport call itself takes this long (us)
};
struct Plan {
  std::map<std::string, i64> cfg;
  std::vector<POp> ops;
  std::map<std::pair<char, int>, Outcome> outs;
  std::map<int, i64> ticks;                 // extra delay before n-th tick
  std::vector<std::pair<i64, i64>> jumps;   // (sim time, delta)
  rt::SchedConfig sched;
  i64 get(const std::string& k, i64 d = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
};
std::string plan_to_text(const Plan& p);
// the plan as client k sees it (settings of its own are named c<k>.name)
Plan client_plan(const Plan& p, int k);
bool plan_from_text(const std::string& s, Plan* p);
void generate(const std::string& prop, u64 seed, Plan* p);

// --------------------------------------------------------------- key pool
struct KeyDef {
  std::string consumer, opname;
  std::vector<std::pair<std::string, std::string>> labels;
  std::vector<std::string> metrics;  // extra metric names (check / quota)
  std::string mlabel;                // label value on check metric values ("" = none)
  bool bare = false;                 // its check requests name no metric at all
};
const KeyDef& key_def(int key);
const int kNamedKeys = 27;
constexpr int kOddKeys = 500, kOddPairs = 22;  // pairs of keys that are easily taken for one another
constexpr int kBulkKeys = 1000;  // from here on: plain keys for bulk runs
std::string check_key(int key);
// an operation without metrics, known by its log entries
bool metricless(const POp& p, int sub, char kind);
std::string quota_key(int key);
std::string report_key(int key);

// ---------------------------------------------------------------- history
enum CallType { kCallOp, kCallDeliv, kCallTick, kCallCreate, kCallDestroy, kCallStats };
struct Call {
  CallType type;
  int ref;      // op index / send index / tick index
  int fiber;
  int outer;    // enclosing call on the same fiber, or -1
  u64 b = 0, e = kOpen;
  i64 tb = 0, te = 0, cb = 0, ce = 0;  // sim time, client clock
};
struct DoneRec {
  u64 seq;
  i64 t, c;
  int fiber, call;
  int code;
  std::string msg;
  std::string body;  // serialized response
  std::string tag;   // id of the server answer it carries
  bool deny;
};
struct OpRec {
  const POp* p = nullptr;
  int call = -1;
  bool issued = false, returned = false;
  int ret_code = -1;  // sync status
  std::vector<DoneRec> done;
  std::string req;    // serialized request
  std::string before; // serialized response object when the call was made
  const void* resp = nullptr;
  std::vector<int> direct;  // sends
  // statistics snapshot
  u64 st[10] = {0};
};
struct Send {
  int id;
  char kind;
  int nth;      // n-th send of this kind
  int via;      // -1 global transport, else op id of the per-request transport
  int call;     // innermost library call on that fiber
  int fiber;
  u64 b = 0, e = kOpen;  // transport function entered / returned
  i64 tb = 0, cb = 0;
  std::string req;
  const void* resp = nullptr;
  int direct = -1;  // op whose response object this send fills
  Outcome out;
  int deliv = -1;   // call index of the delivery
  std::string resp_body, tag;
  bool deny = false;
  std::shared_ptr<sc::CheckRequest> cr;
  std::shared_ptr<sc::AllocateQuotaRequest> qr;
  std::shared_ptr<sc::ReportRequest> rr;
};
struct History {
  std::vector<OpRec> ops;     // parallel to plan.ops
  std::vector<Send> sends;
  std::vector<Call> calls;
  int create_call = -1, destroy_call = -1;
  int timer_created = 0, timer_interval = 0, timer_stopped = 0;
  u64 timer_stop_seq = 0;
  int timer_destroyed = 0;
  int ticks = 0;
  u64 final_stats[10] = {0};
  bool have_final_stats = false;
  u64 final_stats_seq = 0, final_stats_end = 0;
  // worlds other than the client's (HTTP transport, LRU container)
  std::vector<std::string> log;
  u64 ob = 0;
  bool complete = false;      // run reached its end
  u64 leaks = 0;
  u64 spins = 0;  // pauses of threads that wait by spinning
  std::string leak_desc;
  // the other clients' histories, when there are several
  std::vector<std::shared_ptr<History>> more;
  std::vector<std::string> viol;  // violations seen while running: "P01 text"
  // fault counters
  std::map<std::string, u64> faults;
};

extern const char* const kService;
extern const char* const kConfigId;
std::string ser(const ::google::protobuf::Message& m);
// digit index of every (op index, sub) inside its (kind, key) group
std::map<std::pair<int, int>, int> digits(const Plan& p);
void fill_operation(const POp& p, int sub, int idx, char kind, sc::Operation* o);
void fill_check(const POp& p, int idx, sc::CheckRequest* r);
void fill_quota(const POp& p, int idx, sc::AllocateQuotaRequest* r);
sc::QuotaOperation::QuotaMode quota_mode_of(const POp& p);
void fill_report(const POp& p, int opi, const std::map<std::pair<int, int>, int>& dg, sc::ReportRequest* r);

// worlds registered by optional objects: cfg "world" selects one
extern void (*world_main[4])(const Plan& p, History* h);
extern void (*world_gen[4])(const std::string& prop, u64 seed, Plan* p);

// run the plan in this (forked) process; history is filled even on a fault.
void execute(const Plan& p, History* h);

struct Violation { std::string prop, msg; };
// *obligations counts how often the property's premise held in this history
std::vector<Violation> judge(const Plan& p, const History& h, const std::string& prop, u64* obligations);
u64 history_hash(const History& h);
void history_dump(const Plan& p, const History& h, FILE* f);
// per-run facts used as "this rare condition was hit" probes
void probes(const Plan& p, const History& h, std::map<std::string, u64>* out);

}  // namespace sim
