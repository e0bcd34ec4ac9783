// World 1: the sample HTTP transport against a simulated HTTP server.
//
// A plan's ops are requests: kind c/r, key selects the transport object, bits the content; outs[(kind, op id)] says what
// the server does: st = HTTP status (0: no connection), pay = body (0 valid, 1 truncated, 2 garbage, 3 empty, 4 valid but
// the transfer breaks), inl = number of chunks, delay.  bad = 1: no curl handle can be had.
#include <string.h>

#include <iostream>
#include <algorithm>

#include "http.h"
#include "sample/transport/http_transport.h"
#include "world.h"

namespace sim {
namespace {
using ::google::service_control_client::sample::transport::LibCurlTransport;
using ::google::protobuf::util::Status;

struct Server {
  std::string url, method, headers, body;
  long code = 0;
  int op = -1;
  std::vector<std::string> chunks;
  i64 chunk_delay = 0;
};
struct Req {
  bool issued = false, inside = false;
  std::string body, resp;  // what is to be sent; what the server answers
  int posts = 0, dones = 0, code = -1;
  bool unparsable = false;
  std::string msg, got;
  int expect = -2;   // -1: any error; else the code
  u64 posted = 0, done = 0;
};
struct HW {
  const Plan* p;
  History* h;
  std::vector<Req> r;
  std::map<int, int> index;
  std::map<int, std::vector<int>> nested;
  std::vector<int> fiber_op;  // op whose library thread runs on this fiber (by body)
  LibCurlTransport* t[2];
  int callers = 0, pending = 0, init_fail = 0;
} * H;
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
void bad(const std::string& m) { H->h->viol.push_back(m); }
void log(const std::string& m) {
  H->h->log.push_back(std::to_string(rt::next_seq()) + " thread " + std::to_string(rt::cur_id()) + " t=" + std::to_string(rt::now_us()) + "us " + m);
}
std::string S(i64 v) { return std::to_string(v); }
const char* kToken[2] = {"secret-A", "secret-B"};
const char* kUrl[2] = {"https://a.example.com", "http://b.example.com:8080"};
const char* kSvc[2] = {"library.example.com", "other.example.com"};

std::string blob(u64 x, int n) {
  rt::Rng r(x);
  std::string s;
  for (int i = 0; i < n; i++) s += (char)(r.below(4) ? 'a' + r.below(26) : r.below(2) ? 0 : r.below(128));
  return s;
}
void fill(int i, sc::Operation* o) {
  const POp& p = H->p->ops[i];
  rt::Rng r(p.subs[0].bits * 7919u + p.id);
  o->set_operation_id("id" + S(p.id));
  o->set_operation_name(blob(r.next(), (int)r.below(40)));
  o->set_consumer_id("project:" + S(r.below(100)));
  if (r.below(2)) {
    auto* s = o->add_metric_value_sets();
    s->set_metric_name("m");
    s->add_metric_values()->set_double_value((double)r.below(100));
    s->add_metric_values()->set_int64_value((i64)r.next());
  }
  if (p.subs[0].logs) o->add_log_entries()->set_name(blob(r.next(), p.subs[0].logs * 1000));
}
std::string make_body(int i, char kind, int t) {
  if (kind == 'c') {
    sc::CheckRequest q;
    q.set_service_name(kSvc[t]);
    fill(i, q.mutable_operation());
    return ser(q);
  }
  sc::ReportRequest q;
  q.set_service_name(kSvc[t]);
  for (int k = 0; k < 1 + H->p->ops[i].subs[0].bits % 3; k++) fill(i, q.add_operations());
  return ser(q);
}
std::string make_resp(int i, char kind) {
  const POp& p = H->p->ops[i];
  rt::Rng r(p.id * 31 + 7);
  if (kind == 'c') {
    sc::CheckResponse s;
    s.set_operation_id("answer" + S(p.id));
    int n = (int)r.below(3) * (r.below(10) == 0 ? 300 : 1);
    for (int k = 0; k < n; k++) s.add_check_errors()->set_detail(blob(r.next(), 60));
    return ser(s);
  }
  sc::ReportResponse s;
  s.set_service_config_id("answer" + S(p.id));
  int n = (int)r.below(3) * (r.below(10) == 0 ? 300 : 1);
  for (int k = 0; k < n; k++) s.add_report_errors()->set_operation_id(blob(r.next(), 60));
  return ser(s);
}
template <class Resp>
bool parses(const std::string& b, std::string* canon) {
  Resp r;
  if (!r.ParseFromString(b)) return false;
  *canon = ser(r);
  return true;
}
int code_of(long http) {
  switch (http) {
    case 400: return 3;
    case 401: return 16;
    case 403: return 7;
    case 404: return 5;
    case 409: return 10;
    case 416: return 11;
    case 429: return 8;
    case 499: return 1;
    case 501: return 12;
    case 503: return 14;
    case 504: return 4;
  }
  if (http >= 400 && http < 500) return 9;
  if (http >= 500 && http < 600) return 13;
  return 2;
}

void issue(int i);

template <class Resp>
void on_done(int i, Resp* resp, const Status& st) {
  rt::HarnessScope hs;
  Req& q = H->r[i];
  q.dones++;
  log("done request " + S(H->p->ops[i].id) + " code=" + S((int)st.code()));
  if (q.dones > 1) {
    bad("request " + S(H->p->ops[i].id) + " completed " + S(q.dones) + " times");
    return;
  }
  q.done = rt::next_seq();
  q.code = (int)st.code();
  {
    rt::UserScope us;
    Resp* c = new Resp(*resp);
    delete c;
  }
  q.got = ser(*resp);
  {
    rt::UserScope us;
    delete resp;
  }
  auto it = H->nested.find(H->p->ops[i].id);
  if (it != H->nested.end())
    for (int n : it->second) issue(n);
  H->pending--;
  rt::wake_waiters();
}

template <class Req_, class Resp>
void send(int i, int t, void (LibCurlTransport::*f)(const Req_&, Resp*, ::google::service_control_client::TransportDoneFunc)) {
  Req_* rq;
  Resp* rs;
  {
    rt::UserScope us;
    rq = new Req_;
    rs = new Resp;
    rq->ParseFromString(H->r[i].body);
  }
  H->pending++;
  H->r[i].issued = true;
  log(std::string("call ") + (H->p->ops[i].kind == 'c' ? "Check" : "Report") + " request " + S(H->p->ops[i].id) + " (" + S((i64)H->r[i].body.size()) + " bytes)");
  LibCurlTransport* tr = H->t[t];
  {
    rt::LibScope ls;
    (tr->*f)(*rq, rs, [i, rs](const Status& st) { on_done(i, rs, st); });
  }
  rt::UserScope us;
  delete rq;  // the transport must not need it any more
}
void issue(int i) {
  const POp& p = H->p->ops[i];
  if (p.delay && p.par < 0) rt::sleep_us(p.delay);
  int t = p.subs[0].key & 1;
  if (p.bad) H->init_fail = i + 1;
  if (p.kind == 'c') send<sc::CheckRequest, sc::CheckResponse>(i, t, &LibCurlTransport::Check);
  else send<sc::ReportRequest, sc::ReportResponse>(i, t, &LibCurlTransport::Report);
}

void judge_all() {
  for (size_t i = 0; i < H->r.size(); i++) {
    Req& q = H->r[i];
    if (!q.issued) continue;
    const POp& p = H->p->ops[i];
    std::string nm = "request " + S(p.id);
    H->h->ob++;
    if (q.dones != 1) { bad(nm + " completed " + S(q.dones) + " times"); continue; }
    if (q.posts != 1) {
      // without a handle nothing can be sent
      if (q.posts == 0 && H->h->faults["no_curl_handle"] && q.code != 0) continue;
      bad(nm + " was posted " + S(q.posts) + " times");
      continue;
    }
    if (q.posted > q.done) bad(nm + " completed before it was sent");
    if (q.expect == -1 ? q.code == 0 : q.code != q.expect) bad(nm + " completed with code " + S(q.code) + ", expected " + (q.expect == -1 ? "an error" : S(q.expect)));
    if (q.expect != 0 && q.code != 0 && !q.unparsable && !q.got.empty()) bad(nm + " failed with code " + S(q.code) + " and got an answer of " + S((i64)q.got.size()) + " bytes all the same");
    if (q.expect == 0 && q.code == 0 && q.got != q.resp) bad(nm + " got a wrong answer (" + S((i64)q.got.size()) + " bytes, expected " + S((i64)q.resp.size()) + ")");
  }
}

void main_fiber() {
  rt::HarnessScope hs;
  const Plan& p = *H->p;
  {
    rt::UserScope us;
    rt::LibScope ls;
    for (int t = 0; t < 2; t++) H->t[t] = new LibCurlTransport(kUrl[t], kSvc[t], kToken[t]);
  }
  std::set<int> fibers;
  for (auto& o : p.ops)
    if (o.par < 0) fibers.insert(o.fiber);
  H->callers = (int)fibers.size();
  for (int f : fibers)
    rt::spawn("caller", [f]() {
      rt::HarnessScope hs;
      for (size_t i = 0; i < H->p->ops.size(); i++)
        if (H->p->ops[i].par < 0 && H->p->ops[i].fiber == f) issue((int)i);
      H->callers--;
      rt::wake_waiters();
    });
  rt::wait_until([]() { return H->callers == 0 && H->pending == 0; });
  // the transport's threads run on for a moment after their callback
  for (;;) {
    bool more = false;
    for (int i = 0; i < (int)rt::stats().fibers; i++) more |= rt::fiber_name(i) == std::string("libthread") && !rt::fiber_done(i);
    if (!more) break;
    rt::sleep_us(1000);
  }
  {
    rt::UserScope us;
    rt::LibScope ls;
    for (int t = 0; t < 2; t++) delete H->t[t];
  }
}

void run_http(const Plan& p, History* h) {
  H = new HW;
  H->p = &p;
  H->h = h;
  H->r.resize(p.ops.size());
  i64 cap = 0;
  for (size_t i = 0; i < p.ops.size(); i++) {
    const POp& o = p.ops[i];
    H->index[o.id] = (int)i;
    if (o.par >= 0) H->nested[o.par].push_back((int)i);
    H->r[i].body = make_body((int)i, o.kind, o.subs[0].key & 1);
    cap += o.delay;
  }
  for (auto& o : p.outs) cap += o.second.delay * 40;
  for (auto& s : p.sched.stl) cap += s.us;
  cap += p.sched.stall_max_us * p.sched.max_stalls + 20000000;
  static NullBuf nb;
  std::cout.rdbuf(&nb);
  rt::start(p.sched, 1600000000ll * 1000000);
  rt::set_sim_cap(cap);
  rt::set_reuse(p.get("reuse", 0));
  rt::spawn("main", main_fiber);
  rt::run_all();
  if (rt::stats().stalls) h->faults["thread_stall"] += rt::stats().stalls;
  if (rt::trace().pre.size()) h->faults["preemption"] += rt::trace().pre.size();
  judge_all();
  u64 l = rt::live_blocks();
  if (l) bad(S((i64)l) + " blocks leaked: " + rt::describe_leaks(4));
  h->complete = true;
}

void gen_http(const std::string&, u64 seed, Plan* p) {
  rt::Rng r(seed);
  r.next();
  p->cfg["world"] = 1;
  int n = 1 + (int)r.below(12), callers = 1 + (int)r.below(4);
  double p_err = r.chance(0.3) ? 0 : r.unit() * 0.8;
  int max_delay = r.chance(0.5) ? 2000 : 200000;
  for (int i = 0; i < n; i++) {
    POp o;
    o.id = i;
    o.fiber = (int)r.below(callers);
    o.kind = r.chance(0.5) ? 'c' : 'r';
    o.delay = r.chance(0.6) ? 0 : (i64)r.below(max_delay);
    Sub s;
    s.key = (int)r.below(2);
    s.bits = (int)r.below(100000);
    s.logs = r.chance(0.1) ? 1 + (int)r.below(30) : 0;
    o.subs.push_back(s);
    o.bad = r.chance(0.02);
    if (i && r.chance(0.15)) o.par = (int)r.below(i);
    p->ops.push_back(o);
    Outcome u;
    u.delay = r.chance(0.3) ? 0 : (i64)r.below(max_delay);
    u.inl = r.chance(0.5) ? 1 : 1 + (int)r.below(6);
    u.st = 200;
    if (r.chance(p_err)) {
      static const int codes[] = {0, 0, 200, 200, 200, 200, 204, 301, 302, 304, 400, 401, 403, 404, 409, 416, 429, 499, 500, 501, 502, 503, 504, 505};
      u.st = codes[r.below(24)];
      if (r.chance(0.2)) u.st = 400 + (int)r.below(200);
      if (r.chance(0.1)) {
        static const int edge[] = {201, 206, 299, 300, 399, 400, 499, 500, 599, 600};
        u.st = r.chance(0.7) ? edge[r.below(10)] : 200 + (int)r.below(500);
      }
      u.pay = (int)r.below(5);
    }
    p->outs[{o.kind, i}] = u;
  }
  rt::SchedConfig& s = p->sched;
  s.seed = r.next();
  switch (r.below(5)) {
    case 0: s.strategy = rt::kSequential; break;
    case 1: s.strategy = rt::kRandom; s.p_sync = 0.02 + r.unit() * 0.5; s.p_mem = r.chance(0.5) ? 0 : 0.0005 + r.unit() * 0.02; break;
    case 2: s.strategy = rt::kUnlockBias; s.p_sync = 0.2 + r.unit() * 0.7; s.p_mem = r.unit() * 0.004; break;
    case 3: s.strategy = rt::kRandom; s.p_sync = r.unit() * 0.05; s.p_mem = 0.00005 + r.unit() * 0.002; break;
    default:
      s.strategy = rt::kPct;
      s.pct_depth = 1 + (int)r.below(6);
      s.pct_len = 1ull << (8 + r.below(10));
  }
  if (r.chance(0.2)) {
    s.p_stall = 0.002 + r.unit() * 0.03;
    s.max_stalls = 1 + (int)r.below(4);
    s.stall_max_us = 1 + (int)r.below(max_delay);
  }
}
struct Reg {
  Reg() {
    world_main[1] = run_http;
    world_gen[1] = gen_http;
  }
} reg;
}  // namespace
}  // namespace sim

using namespace sim;
void sim_http_misuse(const char* what) {
  rt::HarnessScope hs;
  bad(what);
}
bool sim_http_init_fails() {
  rt::HarnessScope hs;
  if (!H->init_fail) return false;
  H->init_fail = 0;
  H->h->faults["no_curl_handle"]++;
  return true;
}
void sim_http_begin(SimHttp* h) {
  rt::HarnessScope hs;
  h->req = new Server;
}
void sim_http_put(SimHttp* h, int part, char c) {
  rt::HarnessScope hs;
  Server* s = (Server*)h->req;
  (part == 0 ? s->url : part == 1 ? s->method : part == 2 ? s->headers : s->body) += c;
}
void sim_http_send(SimHttp* h) {
  rt::HarnessScope hs;
  Server* s = (Server*)h->req;
  log("POST " + s->url + " (" + S((i64)s->body.size()) + " bytes)");
  // whose is it?  URL and exact body identify the request; equal requests are interchangeable
  int op = -1;
  for (size_t i = 0; i < H->r.size() && op < 0; i++) {
    const POp& p = H->p->ops[i];
    int t = p.subs[0].key & 1;
    std::string url = std::string(kUrl[t]) + "/v1/services/" + kSvc[t] + (p.kind == 'c' ? ":check" : ":report");
    if (H->r[i].issued && !H->r[i].posts && H->r[i].body == s->body && s->url == url) {
      op = (int)i;
      std::string hd = "\n" + s->headers;
      std::transform(hd.begin(), hd.end(), hd.begin(), [](char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; });
      std::string auth = std::string("\nauthorization: bearer ") + kToken[t] + "\n";
      std::transform(auth.begin(), auth.end(), auth.begin(), [](char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; });
      if (hd.find(auth) == std::string::npos) bad("request " + S(p.id) + " was sent without its credentials");
      if (hd.find("\ncontent-type: application/x-protobuf\n") == std::string::npos) bad("request " + S(p.id) + " was sent without its content type");
      if (s->method != "POST") bad("request " + S(p.id) + " was sent with method " + s->method);
    }
  }
  h->error = 0;
  h->chunks = 0;
  if (op < 0) {
    bad("the server received a body of " + S((i64)s->body.size()) + " bytes at " + s->url + " that is nobody's request");
    h->code = 500;
    return;
  }
  Req& q = H->r[op];
  q.posts++;
  q.posted = rt::next_seq();
  s->op = op;
  const POp& p = H->p->ops[op];
  Outcome o;
  auto it = H->p->outs.find({p.kind, p.id});
  o.st = 200;
  if (it != H->p->outs.end()) o = it->second;
  if (it == H->p->outs.end()) o.delay = 0, o.inl = 1;
  auto& F = H->h->faults;
  if (o.delay) rt::sleep_us(o.delay);
  h->code = o.st;
  std::string body = make_resp(op, p.kind);
  if (o.st == 0) {
    h->error = o.pay & 1 ? CURLE_COULDNT_CONNECT : CURLE_OPERATION_TIMEDOUT;
    F[o.pay & 1 ? "connection_refused" : "connection_timeout"]++;
    q.expect = -1;
    return;
  }
  if (o.st == 204) body = "";
  if (o.pay == 1 && !body.empty()) { body.resize(body.size() / 2); F["truncated_body"]++; }
  else if (o.pay == 2) { body = "\xff\xff\xff" + body; F["corrupt_body"]++; }
  else if (o.pay == 3) { body = ""; F["empty_body"]++; }
  if (o.st < 200 || o.st >= 300) {
    q.expect = code_of(o.st);
    F[o.st < 400 ? "http_3xx" : o.st < 500 ? "http_4xx" : "http_5xx"]++;
  } else if (o.pay == 4) {
    q.expect = -1;
    h->error = CURLE_PARTIAL_FILE;
    body.resize(body.size() * 2 / 3);
    F["broken_transfer"]++;
  } else {
    bool ok = p.kind == 'c' ? parses<sc::CheckResponse>(body, &q.resp) : parses<sc::ReportResponse>(body, &q.resp);
    q.expect = ok ? 0 : -1;
    q.unparsable = !ok;
  }
  int n = std::max(1, o.inl);
  for (int i = 0; i < n; i++) {
    size_t a = body.size() * i / n, b = body.size() * (i + 1) / n;
    if (b > a) s->chunks.push_back(body.substr(a, b - a));
  }
  if (n > 1) s->chunk_delay = o.delay / n;
  h->chunks = (int)s->chunks.size();
}
const char* sim_http_chunk(SimHttp* h, int i, size_t* n) {
  rt::HarnessScope hs;
  Server* s = (Server*)h->req;
  if (i && s->chunk_delay) rt::sleep_us(s->chunk_delay);
  *n = s->chunks[i].size();
  return s->chunks[i].data();
}
void sim_http_end(SimHttp* h) {
  rt::HarnessScope hs;
  delete (Server*)h->req;
}
