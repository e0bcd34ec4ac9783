// Drives the real client through its public API inside the simulator and
// records everything an outside observer could see.
#include <string.h>

#include <algorithm>

#include "google/protobuf/io/coded_stream.h"
#include "google/protobuf/io/zero_copy_stream_impl_lite.h"
#include "include/service_control_client.h"
#include <limits.h>

#include <deque>

#include "dist.h"
#include "world.h"

namespace sim {

using ::google::protobuf::util::Status;
using ::google::protobuf::util::StatusCode;
namespace scc = ::google::service_control_client;

const char* const kService = "library.sim.example.com";
const char* const kConfigId = "lib-config-7";

// ---------------------------------------------------------------- key pool
static std::vector<KeyDef> make_keys() {
  std::vector<KeyDef> k = {
      {"project:a", "read", {}, {}, ""},
      {"project:a", "write", {}, {}, ""},
      {"project:b", "read", {}, {}, ""},
      {"project:a", "read", {{"zone", "us"}}, {}, ""},
      {"project:a", "read", {{"zone", "eu"}}, {}, ""},
      {"project:a", "read", {{"us", "zone"}}, {}, ""},
      {"project:a", "read", {{"zone", "us"}, {"user", "eu"}}, {}, ""},
      {"project:a", "read", {{"zone", "eu"}, {"user", "us"}}, {}, ""},
      {"project:a", "read", {{"a", "bc"}}, {}, ""},
      {"project:a", "read", {{"ab", "c"}}, {}, ""},
      {"project:ar", "ead", {}, {}, ""},
      {"project:", "aread", {}, {}, ""},
      {"project:a", "read", {}, {"m/x"}, ""},
      {"project:a", "read", {}, {"m/y"}, ""},
      {"project:a", "read", {}, {"m/x", "m/y"}, ""},
      {"project:a", "read", {{"zone", "us"}}, {"m/x"}, ""},
      {"read", "project:a", {}, {}, ""},
      {"project:a", "read", {}, {}, "gold"},
      {"project:a", "read", {}, {}, "iron"},
      {"project:a", "read", {{"zone", ""}}, {}, ""},
      {"project:a", "read", {{"", "zone"}}, {}, ""},
      {"", "read", {}, {}, ""},
      {"project:a", "", {}, {}, ""},
      {"project:b", "write", {{"zone", "us"}, {"user", "eu"}, {"ip", "10"}}, {"m/x"}, ""},
      {"dproject:a", "rea", {}, {}, ""},
      {"project:am/x", "read", {}, {}, ""},
      {"project:a", "read", {}, {"m/xm/y"}, ""},
  };
  for (int i = 0; i < 200; i++) k.push_back({"consumer:" + std::to_string(i), "get", {}, {}, ""});
  // From here on: only named by the scripted plans under known/.
  // 227 and 228 share their check signature: a label against two metric names.
  k.push_back({"project:a", "read", {{"m/a", "m/b"}}, {}, ""});
  k.push_back({"project:a", "read", {}, {"m/a", "m/b"}, ""});
  // 229 shares its report signature with {project:a, read, zone=us}: the separator occurs inside a string.
  k.push_back({"project:a", std::string("read\0zone\0us", 12), {}, {}, ""});
  return k;
}
const KeyDef& key_def(int key) {
  static std::vector<KeyDef>* k = new std::vector<KeyDef>(make_keys());
  static std::vector<KeyDef>* big = [] {
    auto* b = new std::vector<KeyDef>;
    for (int i = 0; i < 2500; i++) b->push_back({"bulk:" + std::to_string(i), "get", {}, {}, ""});
    return b;
  }();
  static std::vector<KeyDef>* odd = [] {
    // pairs that differ late, in case, in blanks or in a rarely used character
    const std::string L(300, 'l');
    return new std::vector<KeyDef>{
        {"project:" + L + "1", "read", {}, {}, ""},
        {"project:" + L + "2", "read", {}, {}, ""},
        {"project:a", "method." + L + "1", {}, {}, ""},
        {"project:a", "method." + L + "2", {}, {}, ""},
        {"project:a", "read", {{L + "1", "us"}}, {}, ""},
        {"project:a", "read", {{L + "2", "us"}}, {}, ""},
        {"project:a", "read", {{"zone", L + "1"}}, {}, ""},
        {"project:a", "read", {{"zone", L + "2"}}, {}, ""},
        {"project:a", "read", {}, {"m/" + L + "1"}, ""},
        {"project:a", "read", {}, {"m/" + L + "2"}, ""},
        {"project:a", "read", {}, {}, L + "1"},
        {"project:a", "read", {}, {}, L + "2"},
        {"project:q", "read", {}, {}, ""},
        {"project:Q", "read", {}, {}, ""},
        {"project:q", "list", {}, {}, ""},
        {"project:q", "List", {}, {}, ""},
        {"project:q", "read", {{"zone", "us"}}, {}, ""},
        {"project:q", "read", {{"Zone", "us"}}, {}, ""},
        {"project:q", "read", {{"zone", "eu"}}, {}, ""},
        {"project:q", "read", {{"zone", "EU"}}, {}, ""},
        {"project:q", "read", {}, {"m/z"}, ""},
        {"project:q", "read", {}, {"m/Z"}, ""},
        {"project:q", "read", {}, {}, "steel"},
        {"project:q", "read", {}, {}, "Steel"},
        {"project:q ", "read", {}, {}, ""},
        {" project:q", "read", {}, {}, ""},
        {"project:q", "read ", {}, {}, ""},
        {"project:q", "read\n", {}, {}, ""},
        {"project:q", "read", {{"zone", " "}}, {}, ""},
        {"project:q", "read", {{"zone", "  "}}, {}, ""},
        {"projet:\xc3\xa9", "read", {}, {}, ""},
        {"projet:\xc3\xa8", "read", {}, {}, ""},
        {"project:q", "read", {{"a", "1"}, {"b", "2"}, {"c", "3"}, {"d", "4"}, {"e", "5"}}, {}, ""},
        {"project:q", "read", {{"a", "1"}, {"b", "2"}, {"c", "3"}, {"d", "4"}, {"e", "6"}}, {}, ""},
        {"project:q", "read", {}, {"m/1", "m/2", "m/3", "m/4"}, ""},
        {"project:q", "read", {}, {"m/1", "m/2", "m/3", "m/5"}, ""},
        {"project:q", "read/v1", {}, {}, ""},
        {"project:q", "read/v1/", {}, {}, ""},
        {"project:q", "read", {{"zone", "0"}}, {}, ""},
        {"project:q", "read", {{"zone", "00"}}, {}, ""},
        {"project:q", "bare", {}, {}, "", true},
        {"project:q", "bare", {}, {}, ""},
        {"project:q", "bare", {{"zone", "us"}}, {}, "", true},
        {"project:q", "bare", {{"zone", "eu"}}, {}, "", true},
    };
  }();
  if (key >= kOddKeys && key < kBulkKeys) return (*odd)[(key - kOddKeys) % odd->size()];
  if (key >= kBulkKeys) return (*big)[(key - kBulkKeys) % big->size()];
  return (*k)[key % k->size()];
}
static std::string lab(const KeyDef& k) {
  std::map<std::string, std::string> m(k.labels.begin(), k.labels.end());
  std::string r;
  for (auto& l : m) r += "{" + l.first + "=" + l.second + "}";
  return r;
}
std::string report_key(int key) {
  const KeyDef& k = key_def(key);
  return k.consumer + "|" + k.opname + "|" + lab(k);
}
std::string check_key(int key) {
  const KeyDef& k = key_def(key);
  std::set<std::string> m(k.metrics.begin(), k.metrics.end());
  std::string r = report_key(key);
  for (auto& x : m) r += "/" + x;
  return r + "#" + k.mlabel + (k.bare ? "!" : "");
}
bool metricless(const POp& p, int sub, char kind) {
  const Sub& s = p.subs[sub];
  return kind == 'c' ? key_def(s.key).bare : kind == 'r' && (s.bits & 512) && s.logs > 0;
}
std::string quota_key(int key) {
  const KeyDef& k = key_def(key);
  std::set<std::string> m(k.metrics.begin(), k.metrics.end());
  std::string r = k.consumer + "|" + k.opname;
  for (auto& x : m) r += "/" + x;
  return r;
}

// --------------------------------------------------------------- requests
static u64 mix(u64 a, u64 b) {
  rt::Rng r(a * 1000003 + b + 17);
  r.next();
  return r.next();
}

// Serialization that is a function of the message's value (maps sorted).
std::string ser(const ::google::protobuf::Message& m) {
  std::string out;
  {
    ::google::protobuf::io::StringOutputStream ss(&out);
    ::google::protobuf::io::CodedOutputStream cs(&ss);
    cs.SetSerializationDeterministic(true);
    m.SerializeToCodedStream(&cs);
  }
  return out;
}

struct World {
  int client_index = 0;
  const Plan* plan;
  History* h;
  std::map<int, int> op_index;             // op id -> index
  std::map<std::pair<int, int>, int> digit;  // (op index, sub) -> digit index in its group
  std::map<int, std::vector<int>> nested;  // op id -> indices issued in its callback
  std::map<int, std::vector<int>> nested_send;  // op id -> indices issued in the transport function called for it
  std::map<const void*, int> resp_op;
  std::map<char, int> nth;
  std::vector<std::vector<int>> call_stack;  // per fiber
  int pending = 0;
  int callers_left = 0;
  int active = 0;  // calls into the client in progress
  std::unique_ptr<scc::ServiceControlClient> client;
  // timer
  bool timer_stopped = false;
  int timer_running = 0;   // ticks under way
  int ticks_begun = 0;
  int tick_slot = -1;      // tick handed to the second timer thread
  bool ticker_busy = false;
  int timer_fiber = -1;
  std::function<void()> timer_func;
  World() : call_stack(rt::kMaxFibers) {}
};
// One world per client; W is the one whose code (or callback) the current thread is in.
static std::vector<World*> worlds;
static World* g_in[rt::kMaxFibers];
struct In {
  int f;
  World* old;
  explicit In(World* w) : f(rt::cur_id()), old(g_in[f]) { g_in[f] = w; }
  ~In() { g_in[f] = old; }
};
#define W (g_in[rt::cur_id()])
// a new thread starts in the world of the one that created it
static int spawn(const char* name, std::function<void()> fn, bool daemon = false) {
  World* w = W;
  return rt::spawn(name, [w, fn]() {
    In in(w);
    fn();
  }, daemon);
}

std::map<std::pair<int, int>, int> digits(const Plan& p) {
  std::map<std::pair<int, int>, int> d;
  std::map<std::string, int> n;
  for (size_t i = 0; i < p.ops.size(); i++) {
    const POp& o = p.ops[i];
    for (size_t s = 0; s < o.subs.size(); s++) {
      std::string g(1, o.kind);
      int key = o.subs[s].key;
      g += o.kind == 'c' ? check_key(key) : o.kind == 'q' ? quota_key(key) : report_key(key);
      d[{(int)i, (int)s}] = n[g]++;
    }
  }
  return d;
}

template <class Op>
static void set_times(Op* o, u64 h) {
  // sometimes within a few seconds of each other, so that nanoseconds decide the order
  i64 range = (h >> 60) & 1 ? 3 : 4000;
  i64 st = 1000000000 + (i64)((h >> 1) % range);
  o->mutable_start_time()->set_seconds(st);
  o->mutable_start_time()->set_nanos((int)((h >> 20) % 1000000000));
  o->mutable_end_time()->set_seconds(st + (i64)((h >> 32) % range));
  o->mutable_end_time()->set_nanos((int)((h >> 13) % 1000000000));
  switch (mix(h, 21) % 12) {  // only one end of the span known
    case 0: o->clear_start_time(); break;
    case 1: o->clear_end_time(); break;
  }
}
static void set_labels(::google::protobuf::Map<std::string, std::string>* m, const KeyDef& k, u64 h) {
  size_t n = k.labels.size();
  for (size_t i = 0; i < n; i++) {
    auto& l = k.labels[(i + h) % n];
    (*m)[l.first] = l.second;
  }
}
template <class Op>
static void add_int(Op* o, const char* name, i64 v, const std::string& mlabel, u64 h, bool times) {
  auto* s = o->add_metric_value_sets();
  s->set_metric_name(name);
  auto* m = s->add_metric_values();
  m->set_int64_value(v);
  if (!mlabel.empty()) (*m->mutable_labels())["tier"] = mlabel;
  if (times) set_times(m, h);
}

// End times of gauges and cumulative values: mostly distinct, often tied, sometimes absent.
static void tie_times(sc::MetricValue* m, int distinct, u64 h) {
  switch (h % 8) {
    case 0: m->clear_end_time(); break;
    case 1: case 2: case 3:
      m->mutable_end_time()->set_seconds(1000002000);
      m->mutable_end_time()->set_nanos((int)((h >> 8) % 2) * 500);
      break;
    default: m->mutable_end_time()->set_nanos(distinct);
  }
}

// any type of value, for metrics whose latest value counts
static void widen(sc::MetricValue* m, u64 h) {
  i64 v = m->int64_value();
  switch (h % 6) {
    case 0: m->set_string_value("s" + std::to_string(v)); break;
    case 1: m->set_bool_value(v & 1); break;
    case 2: m->set_double_value(v * 0.5); break;
    case 3: {
      auto* d = m->mutable_distribution_value();
      d->set_count(1);
      d->set_mean((double)v);
      d->set_minimum((double)v);
      d->set_maximum((double)v);
      d->mutable_explicit_buckets()->add_bounds((double)(v % 7));
      d->add_bucket_counts(v % 2);
      d->add_bucket_counts(1 - v % 2);
      break;
    }
    default: break;
  }
}

void fill_operation(const POp& p, int sub, int idx, char kind, sc::Operation* o) {
  const Sub& s = p.subs[sub];
  const KeyDef& k = key_def(s.key);
  u64 h = mix(p.id, sub);
  std::string me = std::to_string(p.id) + "." + std::to_string(sub);
  if (mix(h, 12) % 5) o->set_operation_id("op" + me);
  o->set_operation_name(k.opname);
  o->set_consumer_id(k.consumer);
  set_labels(o->mutable_labels(), k, h);
  o->set_importance(s.hi ? sc::Operation::HIGH : sc::Operation::LOW);
  if (!(s.bits & 32)) set_times(o, h);
  const bool bare = metricless(p, sub, kind);
  for (int i = 0; i < std::max(s.logs, bare ? 1 : 0); i++) {
    auto* l = o->add_log_entries();
    l->set_name("L" + me + "." + std::to_string(i));
    if (h & 2) l->set_severity(::google::logging::type::ERROR);
    if (h & 4) l->set_text_payload("line " + std::to_string(i));
    if (h & 32) l->mutable_timestamp()->set_seconds(1000000000 + i);
    if (i == 0 && (h & 64)) (*l->mutable_labels())["unit"] = me;
  }
  if (bare) return;
  if (kind == 'c') {
    // metric order varies between requests of one key
    std::vector<std::string> names = k.metrics;
    names.push_back("m/tok");
    for (size_t i = 0; i < names.size(); i++) {
      const std::string& n = names[(i + h) % names.size()];
      add_int(o, n.c_str(), n == "m/tok" ? (i64)1 << (2 * (idx % 30)) : p.id + 1, k.mlabel, mix(h, 3), s.bits & 1);
    }
    return;
  }
  std::string tok = "m/tok" + std::to_string(idx / 30);
  add_int(o, tok.c_str(), (i64)1 << (2 * (idx % 30)), "", mix(h, 5), s.bits & 64);
  if (s.bits & 1) {
    add_int(o, "m/int", (i64)(h % 1000), (h & 8) ? "gold" : "", mix(h, 6), true);
    if ((h >> 5) % 4 == 0) {  // a second value, with other labels or the same, in the same set or another of that name
      auto* ms = (h >> 7) & 1 ? o->mutable_metric_value_sets(o->metric_value_sets_size() - 1) : o->add_metric_value_sets();
      ms->set_metric_name("m/int");
      auto* m = ms->add_metric_values();
      m->set_int64_value((i64)((h >> 9) % 1000));
      if ((h >> 8) & 1) (*m->mutable_labels())["tier"] = "gold";
      set_times(m, mix(h, 13));
    }
  }
  if (s.bits & 2) {
    auto* st = o->add_metric_value_sets();
    st->set_metric_name("m/dbl");
    auto* m = st->add_metric_values();
    // sums stay exact, but not in single precision
    m->set_double_value((double)(h % 4096) * 0.25 + ((h >> 41) % 4 == 0 ? (double)((i64)1 << 33) : 0));
    set_times(m, mix(h, 7));
  }
  if (s.bits & 4) {
    auto* st = o->add_metric_value_sets();
    st->set_metric_name("m/dist");
    auto* m = st->add_metric_values();
    auto* d = m->mutable_distribution_value();
    i64 tot = 0;
    auto* eb = d->mutable_explicit_buckets();
    eb->add_bounds(1);
    eb->add_bounds(2);
    eb->add_bounds(4);
    for (int i = 0; i < 4; i++) {
      i64 c = (i64)((h >> (8 * i)) % 7);
      d->add_bucket_counts(c);
      tot += c;
    }
    if (tot == 0) { d->set_bucket_counts(0, 1); tot = 1; }
    d->set_count(tot);
    d->set_mean((double)(h % 64) * 0.125);
    d->set_minimum(d->mean() - 1 - (double)(h % 5));
    d->set_maximum(d->mean() + 1 + (double)(h % 3));
    d->set_sum_of_squared_deviation((double)(h % 100));
    set_times(m, mix(h, 8));
  }
  if (s.bits & 8) {
    add_int(o, "m/gauge", (i64)p.id * 100 + sub, "", mix(h, 9), true);
    auto* m = o->mutable_metric_value_sets(o->metric_value_sets_size() - 1)->mutable_metric_values(0);
    tie_times(m, p.id * 64 + sub, mix(h, 11));
    if (s.bits & 256) widen(m, mix(h, 14));
  }
  if (s.bits & 16) {
    add_int(o, "m/cum", (i64)p.id * 100 + sub, (h & 16) ? "gold" : "", mix(h, 10), true);
    auto* m = o->mutable_metric_value_sets(o->metric_value_sets_size() - 1)->mutable_metric_values(0);
    tie_times(m, p.id * 64 + sub, mix(h, 11));
    if (s.bits & 256) widen(m, mix(h, 14));
  }
  // the sets come in any order
  for (int n = o->metric_value_sets_size(), i = n - 1; i > 0; i--)
    o->mutable_metric_value_sets()->SwapElements(i, (int)(mix(h, 30 + i) % (i + 1)));
}

// a field that this version of the protocol does not know
static void newer_field(::google::protobuf::Message* m, int n, int v) {
  if (mix(n, 57) % 6 == 0) m->GetReflection()->MutableUnknownFields(m)->AddVarint(900, v);
}
// which request it is: told by its config id or, where the caller has none, by a field of the future
template <class R>
static void name_request(const POp& p, R* r) {
  if (mix(p.id, 58) % 6) r->set_service_config_id("u" + std::to_string(p.id));
  else r->GetReflection()->MutableUnknownFields(r)->AddLengthDelimited(902, "u" + std::to_string(p.id));
}
void fill_check(const POp& p, int idx, sc::CheckRequest* r) {
  newer_field(r, p.id, p.id);
  r->set_service_name(p.bad == 1 ? "other.example.com" : kService);
  name_request(p, r);
  if (p.bad == 2) return;
  fill_operation(p, 0, idx, 'c', r->mutable_operation());
}
sc::QuotaOperation::QuotaMode quota_mode_of(const POp& p) {
  switch (mix(p.id, 91) % 10) {
    case 0: return sc::QuotaOperation::NORMAL;
    case 1: return sc::QuotaOperation::CHECK_ONLY;
    case 2: return sc::QuotaOperation::UNSPECIFIED;
    default: return sc::QuotaOperation::BEST_EFFORT;
  }
}
void fill_quota(const POp& p, int idx, sc::AllocateQuotaRequest* r) {
  newer_field(r, p.id, p.id);
  r->set_service_name(p.bad == 1 ? "other.example.com" : kService);
  name_request(p, r);
  if (p.bad == 2) return;
  auto* o = r->mutable_allocate_operation();
  const KeyDef& k = key_def(p.subs[0].key);
  u64 h = mix(p.id, 77);
  if (mix(h, 12) % 5) o->set_operation_id("op" + std::to_string(p.id));
  o->set_method_name(k.opname);
  o->set_consumer_id(k.consumer);
  set_labels(o->mutable_labels(), k, h);
  o->set_quota_mode(quota_mode_of(p));
  std::vector<std::string> names = k.metrics;
  names.push_back("q/tok");
  i64 amount = (i64)1 << (2 * (idx % 30));
  auto add = [&](const std::string& n, i64 v, u64 hh) {
    auto* s = o->add_quota_metrics();
    s->set_metric_name(n);
    auto* m = s->add_metric_values();
    m->set_int64_value(v);
    if (p.subs[0].bits & 1) set_times(m, hh);
  };
  // one operation may list a metric twice: the amounts add up
  bool twice = (p.subs[0].bits & 6) == 6 && amount > 1;
  i64 part = (p.subs[0].bits & 8) ? amount / 4 : amount / 2;
  for (size_t i = 0; i < names.size(); i++) {
    const std::string& n = names[(i + h) % names.size()];
    add(n, twice && n == "q/tok" ? part : amount, mix(h, i));
  }
  if (twice) add("q/tok", amount - part, mix(h, 99));
}
void fill_report(const POp& p, int opi, const std::map<std::pair<int, int>, int>& dg, sc::ReportRequest* r) {
  newer_field(r, p.id, p.id);
  r->set_service_name(p.bad == 1 ? "other.example.com" : kService);
  name_request(p, r);
  for (size_t i = 0; i < p.subs.size(); i++) {
    auto it = dg.find({opi, (int)i});
    fill_operation(p, (int)i, it->second, 'r', r->add_operations());
  }
}

// ------------------------------------------------------------------ calls
struct CallScope {
  int idx, fiber;
  CallScope(CallType t, int ref) {
    fiber = rt::cur_id();
    Call c;
    c.type = t;
    c.ref = ref;
    c.fiber = fiber;
    c.outer = W->call_stack[fiber].empty() ? -1 : W->call_stack[fiber].back();
    c.b = rt::next_seq();
    c.tb = rt::now_us();
    c.cb = rt::now_us();
    idx = (int)W->h->calls.size();
    W->h->calls.push_back(c);
    W->call_stack[fiber].push_back(idx);
  }
  ~CallScope() {
    Call& c = W->h->calls[idx];
    c.e = rt::next_seq();
    c.te = rt::now_us();
    c.ce = rt::now_us();
    W->call_stack[fiber].pop_back();
  }
};

// Who sent an answer is told by its operation id or, where the server does not
// fill that in, by a field this version of the protocol does not know.
static void put_tag(const Send& s, ::google::protobuf::Message* m) {
  m->GetReflection()->MutableUnknownFields(m)->AddLengthDelimited(901, s.tag);
}
template <class R>
static std::string tag_of(const R& r) {
  if (!r.operation_id().empty()) return r.operation_id();
  auto& u = r.GetReflection()->GetUnknownFields(r);
  for (int i = 0; i < u.field_count(); i++)
    if (u.field(i).number() == 901) return u.field(i).length_delimited();
  return "";
}
static std::string tag_of(const sc::ReportResponse& r) { return r.service_config_id(); }
static bool deny_of(const sc::CheckResponse& r) { return r.check_errors_size() > 0; }
static bool deny_of(const sc::AllocateQuotaResponse& r) { return r.allocate_errors_size() > 0; }
static bool deny_of(const sc::ReportResponse& r) { return r.report_errors_size() > 0; }

static void fill_response(const Send& s, sc::CheckResponse* r) {
  r->Clear();
  newer_field(r, s.id + 3, s.id);
  if (s.out.pay == 2) r->set_service_rollout_id("rollout-" + s.tag);
  if (mix(s.id, 59) % 5) r->set_operation_id(s.tag);
  else put_tag(s, r);
  if (s.out.pay == 1) {
    // any error denies, whatever its code; sometimes there are several
    for (int n = 1 + (mix(s.id, 60) % 5 == 0), i = 0; i < n; i++) {
      auto* e = r->add_check_errors();
      static const int codes[] = {0, 5, 7, 8, 100, 101, 104, 105, 110, 300, 301, 302, 999};
      int c = mix(s.id, 61 + i) % 3 ? 7 : codes[mix(s.id, 63 + i) % 13];
      e->set_code((sc::CheckError::Code)c);
      e->set_detail(s.tag + (i ? "+" : ""));
    }
  } else if (s.out.pay == 2) {
    r->set_service_config_id("server-config-" + s.tag);
    r->mutable_check_info()->mutable_consumer_info()->set_project_number(1000 + s.id);
  }
}
static void fill_response(const Send& s, sc::AllocateQuotaResponse* r) {
  r->Clear();
  newer_field(r, s.id + 3, s.id);
  if (mix(s.id, 59) % 5) r->set_operation_id(s.tag);
  else put_tag(s, r);
  if (s.out.pay == 1) {
    for (int n = 1 + (mix(s.id, 60) % 5 == 0), i = 0; i < n; i++) {
      auto* e = r->add_allocate_errors();
      static const int codes[] = {0, 8, 105, 106, 107, 108, 109, 116, 120, 999};
      int c = mix(s.id, 61 + i) % 3 ? 8 : codes[mix(s.id, 63 + i) % 10];
      e->set_code((sc::QuotaError::Code)c);
      e->set_description(s.tag + (i ? "+" : ""));
    }
  } else if (s.out.pay == 2) {
    r->set_service_config_id("server-config-" + s.tag);
    auto* m = r->add_quota_metrics();
    m->set_metric_name("served");
    m->add_metric_values()->set_int64_value(s.id);
  }
}
static void fill_response(const Send& s, sc::ReportResponse* r) {
  r->Clear();
  newer_field(r, s.id + 3, s.id);
  if (s.out.pay == 2) r->set_service_rollout_id("rollout-" + s.tag);
  r->set_service_config_id(s.tag);
  if (s.out.pay == 1) r->add_report_errors()->set_operation_id(s.tag);
}

static Status make_status(const Outcome& o, const std::string& tag) {
  if (o.st == 0) return Status();
  return Status(static_cast<StatusCode>(o.st), "net " + tag);
}

template <class Resp>
static void deliver(int si, Resp* resp, scc::TransportDoneFunc* done) {
  // harness mode on entry
  std::string tag = W->h->sends[si].tag;
  Outcome out = W->h->sends[si].out;
  {
    const Send& s = W->h->sends[si];
    if (out.st == 0 || out.pay) {
      rt::UserScope us;
      fill_response(s, resp);
    }
    Resp copy(*resp);
    W->h->sends[si].resp_body = ser(copy);
    W->h->sends[si].deny = deny_of(copy);
  }
  {
    CallScope cs(kCallDeliv, si);
    W->h->sends[si].deliv = cs.idx;
    {
      rt::LibScope ls;
      Status st = make_status(out, tag);
      (*done)(st);
    }
  }
  {
    rt::UserScope us;
    *done = nullptr;  // the transport drops its reference to the completion closure
  }
  W->pending--;
  rt::wake_waiters();
}

template <class Req>
static void keep_request(Send* s, const Req& r);
template <>
void keep_request(Send* s, const sc::CheckRequest& r) { s->cr.reset(new sc::CheckRequest(r)); }
template <>
void keep_request(Send* s, const sc::AllocateQuotaRequest& r) { s->qr.reset(new sc::AllocateQuotaRequest(r)); }
template <>
void keep_request(Send* s, const sc::ReportRequest& r) { s->rr.reset(new sc::ReportRequest(r)); }

static void issue(int opi);

// The transport handed to the library: the simulated network and server.
template <class Req, class Resp>
static void transport(World* w, char kind, int via, const Req& req, Resp* resp, const scc::TransportDoneFunc& done) {
  rt::HarnessScope hs;
  In in(w);
  Send s;
  s.id = (int)W->h->sends.size();
  s.kind = kind;
  s.nth = W->nth[kind]++;
  s.via = via;
  s.fiber = rt::cur_id();
  s.call = W->call_stack[s.fiber].empty() ? -1 : W->call_stack[s.fiber].back();
  s.b = rt::next_seq();
  s.tb = rt::now_us();
  s.cb = rt::now_us();
  s.tag = (W->client_index ? "x" : "w") + std::to_string(s.id);
  {
    rt::UserScope us;  // the transport reads the request: tracked
    Req* copy = new Req(req);
    delete copy;
  }
  keep_request(&s, req);
  s.req = ser(req);
  s.resp = resp;
  auto ri = W->resp_op.find(resp);
  // (where memory is used twice, the address names its latest owner only)
  if (ri != W->resp_op.end() && !(W->plan->get("reuse", 0) && !W->h->ops[ri->second].done.empty())) s.direct = ri->second;
  auto oi = W->plan->outs.find({kind, s.nth});
  if (oi != W->plan->outs.end()) s.out = oi->second;
  auto& F = W->h->faults;
  if (s.out.st) F["transport_error"]++;
  if (s.out.pay == 1) F["server_denial"]++;
  if (s.out.inl) F["inline_completion"]++;
  if (s.out.delay > 100000) F["slow_reply"]++;
  if (s.out.st && s.out.pay) F["partial_reply_then_error"]++;
  if (s.out.stall) F["blocking_transport"]++;
  W->h->sends.push_back(s);
  int si = s.id;
  W->pending++;
  Outcome out = s.out;
  if (out.stall) rt::sleep_us(out.stall);
  if (s.direct >= 0) {
    auto it = W->nested_send.find(W->plan->ops[s.direct].id);
    if (it != W->nested_send.end())
      for (int n : it->second)
        if (!worlds[W->plan->ops[n].cl % worlds.size()]->h->ops[n].issued) issue(n);
  }
  if (out.inl) {
    scc::TransportDoneFunc* d;
    {
      rt::UserScope us;
      d = new scc::TransportDoneFunc(done);
    }
    deliver(si, resp, d);
    rt::UserScope us;
    delete d;
  } else {
    scc::TransportDoneFunc* d;
    {
      rt::UserScope us;
      d = new scc::TransportDoneFunc(done);
    }
    spawn("delivery", [si, resp, d, out]() {
      rt::HarnessScope hs;
      if (out.delay) rt::sleep_us(out.delay);
      deliver(si, resp, d);
      rt::UserScope us;
      delete d;
    });
  }
  W->h->sends[si].e = rt::next_seq();
}

// ----------------------------------------------------------------- issuing
template <class Resp>
static void on_done(World* w, int opi, Resp* resp, const Status& st, bool sync) {
  rt::HarnessScope hs;
  In in(w);
  OpRec& o = W->h->ops[opi];
  DoneRec d;
  d.seq = rt::next_seq();
  d.t = rt::now_us();
  d.c = rt::now_us();
  d.fiber = rt::cur_id();
  d.call = W->call_stack[d.fiber].empty() ? -1 : W->call_stack[d.fiber].back();
  d.code = (int)st.code();
  d.msg = std::string(st.message().data(), st.message().size());
  bool first = o.done.empty();
  if (first) {
    {
      rt::UserScope us;  // the user reads the answer
      Resp* c = new Resp(*resp);
      delete c;
    }
    Resp copy(*resp);
    d.body = ser(copy);
    d.tag = tag_of(copy);
    d.deny = deny_of(copy);
  }
  o.done.push_back(d);
  if (!first) return;
  if (!sync) {
    rt::UserScope us;
    delete resp;  // allowed from here on: the answer has been consumed
  }
  auto it = W->nested.find(o.p->id);
  if (it != W->nested.end())
    for (int n : it->second) issue(n);
}

template <class Req, class Resp, class TF>
static void call_client(int opi, Req* req, Resp* resp,
                        void (scc::ServiceControlClient::*async)(const Req&, Resp*, scc::ServiceControlClient::DoneCallback),
                        Status (scc::ServiceControlClient::*sync)(const Req&, Resp*),
                        void (scc::ServiceControlClient::*per)(const Req&, Resp*, scc::ServiceControlClient::DoneCallback, TF)) {
  OpRec& o = W->h->ops[opi];
  char kind = o.p->kind, mode = o.p->mode;
  int id = o.p->id;
  o.req = ser(*req);
  if (o.p->dirty) {
    Send old;
    old.id = 900 + id;
    old.tag = "old";
    old.out.pay = 1 + (id & 1);
    rt::UserScope us;
    fill_response(old, resp);
  }
  o.before = ser(*resp);
  o.resp = resp;
  o.issued = true;
  W->resp_op[resp] = opi;
  scc::ServiceControlClient* c = W->client.get();
  World* w = W;
  auto cb = [w, opi, resp](const Status& st) { on_done(w, opi, resp, st, false); };
  {
    CallScope cs(kCallOp, opi);
    o.call = cs.idx;
    if (mode == 's') {
      Status st;
      {
        rt::LibScope ls;
        st = (c->*sync)(*req, resp);
      }
      W->h->ops[opi].returned = true;
      on_done(w, opi, resp, st, true);
    } else if (mode == 'a') {
      rt::LibScope ls;
      (c->*async)(*req, resp, cb);
    } else {
      TF t;
      if (mode == 'p') t = [w, kind, id](const Req& rq, Resp* rs, scc::TransportDoneFunc d) { transport(w, kind, id, rq, rs, d); };
      rt::LibScope ls;
      (c->*per)(*req, resp, cb, t);
    }
  }
  W->h->ops[opi].returned = true;
  rt::UserScope us;
  delete req;
  if (mode == 's') delete resp;
}

static void stats_to(const scc::Statistics& s, u64* v) {
  v[0] = s.total_called_quotas;
  v[1] = s.send_quotas_by_flush;
  v[2] = s.send_quotas_in_flight;
  v[3] = s.total_called_checks;
  v[4] = s.send_checks_by_flush;
  v[5] = s.send_checks_in_flight;
  v[6] = s.total_called_reports;
  v[7] = s.send_reports_by_flush;
  v[8] = s.send_reports_in_flight;
  v[9] = s.send_report_operations;
}

static void issue_now(int opi);

static void issue(int opi) {
  const POp& p = W->plan->ops[opi];
  In in(worlds[p.cl % worlds.size()]);
  if (p.delay && p.par < 0) rt::sleep_us(p.delay);
  if (!W->client) return;  // a callback that ran after the client was destroyed
  // from here on the destruction waits for this call
  W->active++;
  issue_now(opi);
  rt::hb_release(&W->active);
  W->active--;
  rt::wake_waiters();
}

static void issue_now(int opi) {
  const POp& p = W->plan->ops[opi];
  typedef scc::ServiceControlClient C;
  if (p.kind == 'c') {
    sc::CheckRequest* rq;
    sc::CheckResponse* rs;
    { rt::UserScope us; rq = new sc::CheckRequest; rs = new sc::CheckResponse; fill_check(p, W->digit[{opi, 0}], rq); }
    call_client<sc::CheckRequest, sc::CheckResponse, scc::TransportCheckFunc>(opi, rq, rs, &C::Check, &C::Check, &C::Check);
  } else if (p.kind == 'q') {
    sc::AllocateQuotaRequest* rq;
    sc::AllocateQuotaResponse* rs;
    { rt::UserScope us; rq = new sc::AllocateQuotaRequest; rs = new sc::AllocateQuotaResponse; fill_quota(p, W->digit[{opi, 0}], rq); }
    call_client<sc::AllocateQuotaRequest, sc::AllocateQuotaResponse, scc::TransportQuotaFunc>(opi, rq, rs, &C::Quota, &C::Quota, &C::Quota);
  } else if (p.kind == 'r') {
    sc::ReportRequest* rq;
    sc::ReportResponse* rs;
    { rt::UserScope us; rq = new sc::ReportRequest; rs = new sc::ReportResponse; fill_report(p, opi, W->digit, rq); }
    dist_build(*W->plan, W->h, p, rq);
    call_client<sc::ReportRequest, sc::ReportResponse, scc::TransportReportFunc>(opi, rq, rs, &C::Report, &C::Report, &C::Report);
  } else {
    scc::Statistics st;
    memset(&st, 0, sizeof st);
    {
      CallScope cs(kCallStats, opi);
      W->h->ops[opi].call = cs.idx;
      W->h->ops[opi].issued = true;
      rt::LibScope ls;
      (void)W->client->GetStatistics(&st);
    }
    W->h->ops[opi].returned = true;
    stats_to(st, W->h->ops[opi].st);
  }
}

// ------------------------------------------------------------------- timer
class SimTimer : public scc::PeriodicTimer {
  World* w;

 public:
  explicit SimTimer(World* x) : w(x) {}
  ~SimTimer() override {
    rt::HarnessScope hs;
    In in(w);
    W->h->timer_destroyed++;
    W->timer_stopped = true;
  }
  void Stop() override {
    rt::HarnessScope hs;
    In in(w);
    W->h->timer_stopped++;
    W->h->timer_stop_seq = rt::next_seq();
    W->timer_stopped = true;
    if (W->plan->get("stop_blocks", 1) && W->timer_fiber != rt::cur_id()) {
      rt::wait_until([]() { return !W->timer_running; });
      rt::hb_acquire(&W->timer_running);
    }
    rt::yield_point();
  }
};

static void run_tick(int n) {
  W->ticks_begun++;
  rt::wake_waiters();
  {
    CallScope cs(kCallTick, n);
    rt::LibScope ls;
    W->timer_func();
  }
  W->h->ticks++;
  rt::hb_release(&W->timer_running);
  W->timer_running--;
  rt::wake_waiters();
}
// a timer with two threads: takes over the tick that comes due while the last one is still running
static void ticker_main() {
  rt::HarnessScope hs;
  for (;;) {
    rt::wait_until([]() { return W->tick_slot >= 0; });
    rt::hb_acquire(&W->tick_slot);
    int n = W->tick_slot;
    W->tick_slot = -1;
    run_tick(n);
    W->ticker_busy = false;
  }
}
static void timer_main() {
  rt::HarnessScope hs;
  int n = 0;
  while (!W->timer_stopped) {
    i64 extra = 0;
    auto it = W->plan->ticks.find(n);
    if (it != W->plan->ticks.end()) {
      extra = it->second;
      W->h->faults["late_tick"]++;
    }
    rt::sleep_us((i64)W->h->timer_interval * 1000 + extra);
    if (W->timer_stopped) break;
    if (W->plan->get("tick_par", 0) && !W->ticker_busy) {
      W->ticker_busy = true;
      W->timer_running++;
      W->tick_slot = n++;
      rt::hb_release(&W->tick_slot);
      rt::wake_waiters();
      continue;
    }
    W->timer_running++;
    run_tick(n++);
  }
}

// -------------------------------------------------------------------- main
static void caller_main(int fiber) {
  rt::HarnessScope hs;
  const Plan& plan = *worlds[0]->plan;
  std::vector<int> left(worlds.size());
  for (auto& p : plan.ops)
    if (p.par < 0 && p.fiber == fiber) left[p.cl % worlds.size()]++;
  auto leave = [&](size_t k) {
    worlds[k]->callers_left--;
    rt::wake_waiters();
  };
  for (size_t k = 0; k < worlds.size(); k++)
    if (!left[k]) leave(k);
  for (size_t i = 0; i < plan.ops.size(); i++) {
    const POp& p = plan.ops[i];
    if (p.par >= 0 || p.fiber != fiber) continue;
    issue((int)i);
    size_t k = p.cl % worlds.size();
    if (!--left[k]) leave(k);
  }
}

static void create_client() {
  const Plan& p = *W->plan;
  World* w = W;
  {
    CallScope cs(kCallCreate, 0);
    W->h->create_call = cs.idx;
    rt::UserScope us;
    scc::CheckAggregationOptions co((int)p.get("chk_n", 100), (int)p.get("chk_f", 500), (int)p.get("chk_e", 1000));
    scc::QuotaAggregationOptions qo((int)p.get("quo_n", 100), (int)p.get("quo_r", 1000), (int)p.get("quo_x", 600000));
    scc::ReportAggregationOptions ro((int)p.get("rep_n", 100), (int)p.get("rep_f", 1000));
    if (p.get("dflt", 0)) qo = scc::QuotaAggregationOptions();
    scc::ServiceControlClientOptions opt = p.get("dflt", 0) == 1 ? scc::ServiceControlClientOptions() : scc::ServiceControlClientOptions(co, qo, ro);
    if (p.get("kinds", 1)) {
      opt.metric_kinds.reset(new scc::MetricKindMap());
      (*opt.metric_kinds)["m/gauge"] = ::google::api::MetricDescriptor::GAUGE;
      (*opt.metric_kinds)["m/cum"] = ::google::api::MetricDescriptor::CUMULATIVE;
      (*opt.metric_kinds)["m/int"] = ::google::api::MetricDescriptor::DELTA;
    }
    if (p.get("t_chk", 1))
      opt.check_transport = [w](const sc::CheckRequest& r, sc::CheckResponse* s, scc::TransportDoneFunc d) { transport(w, 'c', -1, r, s, d); };
    if (p.get("t_quo", 1))
      opt.quota_transport = [w](const sc::AllocateQuotaRequest& r, sc::AllocateQuotaResponse* s, scc::TransportDoneFunc d) { transport(w, 'q', -1, r, s, d); };
    if (p.get("t_rep", 1))
      opt.report_transport = [w](const sc::ReportRequest& r, sc::ReportResponse* s, scc::TransportDoneFunc d) { transport(w, 'r', -1, r, s, d); };
    if (p.get("timer", 1))
      opt.periodic_timer = [w](int interval, std::function<void()> f) -> std::unique_ptr<scc::PeriodicTimer> {
        In in(w);
        W->h->timer_created++;
        W->h->timer_interval = interval;
        {
          rt::UserScope us;
          W->timer_func = f;
        }
        {
          rt::HarnessScope hs;
          W->timer_fiber = spawn("timer", timer_main, true);
          if (w->plan->get("tick_par", 0)) spawn("ticker", ticker_main, true);
        }
        return std::unique_ptr<scc::PeriodicTimer>(new SimTimer(w));
      };
    rt::LibScope ls;
    W->client = scc::CreateServiceControlClient(kService, kConfigId, opt);
  }
}

// the rest of a client's life, from when its callers work to its end
static void client_main() {
  rt::HarnessScope hs;
  const Plan& p = *W->plan;
  rt::wait_until([]() { return W->callers_left == 0 && W->active == 0; });
  if (p.get("quiesce", 0)) {
    rt::wait_until([]() { return W->pending == 0; });
    rt::sleep_us(p.get("settle", 5000) * 1000);
    rt::wait_until([]() { return W->pending == 0 && !W->timer_running; });
    scc::Statistics st;
    memset(&st, 0, sizeof st);
    W->h->final_stats_seq = rt::next_seq();
    {
      rt::LibScope ls;
      (void)W->client->GetStatistics(&st);
    }
    W->h->final_stats_end = rt::next_seq();
    stats_to(st, W->h->final_stats);
    W->h->have_final_stats = true;
  } else if (p.get("end_tick", 0) && W->h->timer_created && W->h->timer_interval < INT_MAX) {
    // destroyed while a tick is running
    int want = W->ticks_begun + (int)p.get("end_tick", 0);
    rt::wait_until([want]() { return W->ticks_begun >= want; });
    for (i64 k = p.get("end_yields", 0); k > 0; k--) rt::yield_point();
    if (W->timer_running) W->h->faults["destroyed_during_tick"]++;
  } else if (p.get("end_delay", 0)) {
    rt::sleep_us(p.get("end_delay", 0));
  }
  // no call may be in progress when the client is destroyed (API contract)
  rt::wait_until([]() { return W->active == 0; });
  rt::hb_acquire(&W->active);
  if (W->pending) W->h->faults["destroyed_with_requests_in_flight"]++;
  {
    CallScope cs(kCallDestroy, 0);
    W->h->destroy_call = cs.idx;
    rt::LibScope ls;
    W->client.reset();
  }
  rt::wait_until([]() { return W->pending == 0 && !W->timer_running; });
  W->timer_stopped = true;
  {
    rt::UserScope us;
    W->timer_func = nullptr;
  }
}


static void main_fiber() {
  rt::HarnessScope hs;
  const Plan& p = *worlds[0]->plan;
  for (auto* w : worlds) {
    In in(w);
    create_client();
  }
  In in(worlds[0]);
  if (!p.jumps.empty()) {
    spawn("clock", []() {
      rt::HarnessScope hs;
      for (auto& j : W->plan->jumps) {
        if (j.first > rt::now_us()) rt::sleep_us(j.first - rt::now_us());
        rt::jump_clock(j.second);
        W->h->faults[j.second > 0 ? "clock_jump_forward" : "clock_jump_backward"]++;
      }
    }, true);
  }
  std::set<int> fibers;
  for (auto& o : p.ops)
    if (o.par < 0) fibers.insert(o.fiber);
  for (auto* w : worlds) w->callers_left = (int)fibers.size();
  for (int f : fibers) spawn("caller", [f]() { caller_main(f); });
  for (size_t k = 1; k < worlds.size(); k++) {
    In other(worlds[k]);
    spawn("owner", client_main);
  }
  client_main();
}

void (*world_main[4])(const Plan& p, History* h);

void execute(const Plan& p, History* h) {
  if (int w = (int)p.get("world", 0)) {
    if (world_main[w & 3]) world_main[w & 3](p, h);
    else h->viol.push_back("this plan needs another simulator");
    return;
  }
  i64 cap = 0;
  int clients = std::max(1, (int)p.get("clients", 1));
  for (int k = 1; k < clients; k++) h->more.emplace_back(new History);
  for (int k = 0; k < clients; k++) {
    World* w = new World();
    worlds.push_back(w);
    w->client_index = k;
    w->plan = k ? new Plan(client_plan(p, k)) : &p;
    w->h = k ? h->more[k - 1].get() : h;
    w->digit = digits(p);
    w->h->ops.resize(p.ops.size());
    for (size_t i = 0; i < p.ops.size(); i++) {
      w->h->ops[i].p = &p.ops[i];
      w->op_index[p.ops[i].id] = (int)i;
      if (p.ops[i].par < 0) continue;
      (p.ops[i].at ? w->nested_send : w->nested)[p.ops[i].par].push_back((int)i);
    }
    w->h->calls.reserve(256);
    w->h->sends.reserve(128);
  }
  for (auto& o : p.ops) cap += o.delay;
  for (auto& o : p.outs) cap += clients * (o.second.delay + o.second.stall);  // each client uses them
  for (auto& t : p.ticks) cap += t.second;
  cap += p.get("settle", 0) * 1000 + p.get("end_delay", 0) + p.sched.stall_max_us * p.sched.max_stalls;
  for (auto& s : p.sched.stl) cap += s.us;
  cap += 20000000;
  if (p.get("end_tick", 0)) cap += (p.get("end_tick", 0) + 1) * 1000 * std::max(p.get("chk_e", 1000), std::max(p.get("quo_r", 1000), p.get("rep_f", 1000)));
  rt::start(p.sched, 1600000000ll * 1000000 + p.get("epoch", 0));
  rt::set_sim_cap(cap);
  rt::set_reuse(p.get("reuse", 0));
  rt::spawn("main", main_fiber);
  rt::run_all();
  if (rt::stats().stalls) h->faults["thread_stall"] += rt::stats().stalls;
  if (rt::trace().pre.size()) h->faults["preemption"] += rt::trace().pre.size();
  h->spins = rt::stats().spins;
  h->leaks = rt::live_blocks();
  if (h->leaks) h->leak_desc = rt::describe_leaks(4);
  h->complete = true;
  for (auto& x : h->more) x->complete = true;
}

}  // namespace sim
