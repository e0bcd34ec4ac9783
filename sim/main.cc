// simctl: runs seeded simulations, replays and minimises recorded ones.
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <fstream>
#include <iostream>
#include <sstream>

#include "google/protobuf/stubs/logging.h"
#include "world.h"

using namespace sim;

namespace {

struct Result {
  u64 done = 0;         // child finished writing
  u64 obligations = 0, hash = 0, il_hash = 0, points = 0, switches = 0, sim_us = 0, nviol = 0, fibers = 0;
  u64 overflow = 0;
  u64 text_len = 0;
  char text[(4 << 20)];  // "counter name value" lines, then violations, then plan
};
Result* R;
const Plan* g_plan;
History* g_hist;
std::string g_prop;
bool g_want_plan, g_want_dump;

void put(const std::string& s) {
  if (R->text_len + s.size() >= sizeof R->text) { R->overflow = 1; return; }
  memcpy(R->text + R->text_len, s.data(), s.size());
  R->text_len += s.size();
}

void finish() {
  rt::HarnessScope hs;
  std::vector<Violation> v = judge(*g_plan, *g_hist, g_prop, (uint64_t*)&R->obligations);
  R->hash = history_hash(*g_hist);
  R->il_hash = rt::stats().interleaving_hash;
  R->points = rt::stats().points;
  R->switches = rt::stats().switches;
  R->fibers = rt::stats().fibers;
  R->sim_us = (u64)rt::now_us();
  R->nviol = v.size();
  for (auto& f : g_hist->faults) put("F " + f.first + " " + std::to_string(f.second) + "\n");
  if (g_hist->complete) {
    std::map<std::string, u64> pr;
    probes(*g_plan, *g_hist, &pr);
    for (auto& f : pr) put("P " + f.first + " " + std::to_string(f.second) + "\n");
  }
  for (auto& x : v) {
    std::string m = x.msg;
    for (auto& c : m)
      if (c == '\n') c = '\x01';
    put("V " + m + "\n");
  }
  if (!v.empty() || g_want_plan) {
    Plan q = *g_plan;
    if (q.sched.strategy != rt::kReplay || true) {
      q.sched.strategy = rt::kReplay;
      q.sched.pre = rt::trace().pre;
      q.sched.cho = rt::trace().cho;
      q.sched.stl = rt::trace().stl;
    }
    put("X\n" + plan_to_text(q));
  }
  if (g_want_dump) {
    history_dump(*g_plan, *g_hist, stdout);
    fflush(stdout);
  }
  R->done = 1;
}

void fault(rt::FaultKind k, const std::string& msg) {
  static const char* names[] = {"data race", "memory error", "deadlock", "crash", "leak", "no progress"};
  if (k == rt::kRace) {
    if (g_prop == "P17") g_hist->viol.push_back(std::string(names[k]) + ": " + msg);
    return;
  }
  if (k == rt::kGiveUp) put("P run_given_up 1\n");
  else g_hist->viol.push_back(std::string(names[k]) + ": " + msg);
  finish();
  _exit(0);
}

void warm_up() {
  google::protobuf::SetLogHandler(nullptr);
  sc::CheckRequest c;
  c.mutable_operation()->add_metric_value_sets()->add_metric_values()->mutable_distribution_value()->mutable_explicit_buckets()->add_bounds(1);
  c.mutable_operation()->add_log_entries()->set_name("x");
  (*c.mutable_operation()->mutable_labels())["a"] = "b";
  sc::AllocateQuotaRequest q;
  q.mutable_allocate_operation()->add_quota_metrics()->add_metric_values()->set_int64_value(1);
  sc::ReportRequest r;
  *r.add_operations() = c.operation();
  sc::CheckResponse cr;
  cr.add_check_errors();
  sc::AllocateQuotaResponse qr;
  qr.add_allocate_errors();
  sc::ReportResponse rr;
  rr.add_report_errors();
  for (const google::protobuf::Message* m : std::initializer_list<const google::protobuf::Message*>{&c, &q, &r, &cr, &qr, &rr}) {
    std::string s = m->DebugString() + m->ShortDebugString() + ser(*m);
    std::unique_ptr<google::protobuf::Message> n(m->New());
    n->ParseFromString(ser(*m));
    n->MergeFrom(*m);
  }
  c.operation().metric_value_sets(0).metric_values(0).DebugString();
  check_key(0);
  std::ostringstream o;
  o << 1 << 2.0 << "x";
}

// run one plan in a forked child
void run_child(const Plan& p, const std::string& prop, bool want_plan, bool dump, int secs = 120) {
  memset(R, 0, offsetof(Result, text));
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(secs);
    g_plan = &p;
    g_prop = prop;
    g_want_plan = want_plan;
    g_want_dump = dump;
    g_hist = new History;
    rt::on_fault = fault;
    execute(p, g_hist);
    finish();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!R->done) {
    // the child died without reporting
    R->nviol = 1;
    char b[200];
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
      snprintf(b, sizeof b, "V no progress: the run used %d s of real time\n", secs);
    else
      snprintf(b, sizeof b, "V the process ended (wait status 0x%x) before the run finished\n", st);
    R->text_len = 0;
    put(b);
    Plan q = p;
    put("X\n" + plan_to_text(q));
    R->done = 1;
  }
}
struct Parsed {
  std::map<std::string, u64> F, P;
  std::vector<std::string> V;
  std::string plan;
};
Parsed parse() {
  Parsed r;
  std::string t(R->text, R->text_len);
  size_t x = t.find("X\n");
  // "X" starts a line of its own
  while (x != std::string::npos && x != 0 && t[x - 1] != '\n') x = t.find("X\n", x + 1);
  if (x != std::string::npos) { r.plan = t.substr(x + 2); t.resize(x); }
  std::istringstream in(t);
  std::string l;
  while (std::getline(in, l)) {
    if (l.size() < 2) continue;
    if (l[0] == 'V') { r.V.push_back(l.substr(2)); continue; }
    size_t sp = l.rfind(' ');
    (l[0] == 'F' ? r.F : r.P)[l.substr(2, sp - 2)] += strtoull(l.c_str() + sp + 1, 0, 10);
  }
  return r;
}
std::string un1(std::string s) {
  for (auto& c : s)
    if (c == '\x01') c = '\n';
  return s;
}
bool load(const char* path, Plan* p) {
  std::ifstream f(path);
  if (!f) return false;
  std::stringstream ss;
  ss << f.rdbuf();
  return plan_from_text(ss.str(), p);
}
double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
std::string jq(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

// ------------------------------------------------------------ minimising
struct Min {
  std::string prop;
  double deadline;
  Plan best;
  std::string first_msg;
  int runs = 0;
  // kind of failure, so that minimisation does not drift to another one
  static std::string cls(const std::string& m) {
    std::string r;
    for (char c : m.substr(0, 400)) {
      if (c >= '0' && c <= '9') { if (r.empty() || r.back() != '#') r += '#'; }
      else r += c;
      if (r.size() > 18 && (r.compare(0, 9, "data race") == 0 || r.compare(0, 8, "deadlock") == 0 || r.compare(0, 6, "memory") == 0 || r.compare(0, 5, "crash") == 0)) break;
    }
    return r;
  }
  bool fails(const Plan& p, Plan* got) {
    runs++;
    run_child(p, prop, true, false, 60);
    if (!R->nviol) return false;
    Parsed r = parse();
    if (r.V.empty() || r.plan.empty()) return false;
    bool fatal_now = cls(r.V[0]).compare(0, 8, cls(first_msg).substr(0, 8)) == 0;
    if (!fatal_now && (first_msg.compare(0, 9, "data race") == 0 || first_msg.compare(0, 6, "memory") == 0)) return false;
    got->cfg.clear();
    Plan q;
    plan_from_text(r.plan, &q);
    *got = q;
    return true;
  }
  // try candidate: recorded schedule first, then fresh schedules
  bool attempt(Plan c, int fresh) {
    Plan got;
    if (now() > deadline) return false;
    if (fails(c, &got)) { best = got; return true; }
    static const rt::Strategy st[] = {rt::kSequential, rt::kUnlockBias, rt::kRandom, rt::kPct};
    for (int i = 0; i < fresh && now() < deadline; i++) {
      Plan d = c;
      d.sched = rt::SchedConfig();
      d.sched.strategy = st[i % 4];
      d.sched.seed = 1000 + i;
      d.sched.p_sync = 0.3;
      d.sched.p_mem = i % 3 ? 0 : 0.002;
      d.sched.pct_depth = 3;
      d.sched.pct_len = 1024;
      if (fails(d, &got)) { best = got; return true; }
      if (i == 0 && fresh == 1) break;
    }
    return false;
  }
  template <class V>
  void shrink_vec(std::function<V*(Plan&)> sel, int fresh) {
    size_t chunk = std::max<size_t>(1, sel(best)->size() / 2);
    while (now() < deadline) {
      bool any = false;
      for (size_t i = 0; i < sel(best)->size() && now() < deadline;) {
        Plan c = best;
        V* v = sel(c);
        size_t n = std::min(chunk, v->size() - i);
        v->erase(v->begin() + i, v->begin() + i + n);
        Plan norm;
        plan_from_text(plan_to_text(c), &norm);
        if (attempt(norm, fresh)) any = true;
        else i += chunk;
      }
      if (chunk > 1) chunk /= 2;
      else if (!any) break;
    }
  }
  void go() {
    shrink_vec<std::vector<POp>>([](Plan& p) { return &p.ops; }, 12);
    // sub-operations and options of what is left
    for (size_t i = 0; i < best.ops.size(); i++)
      for (size_t k = 0; k < best.ops[i].subs.size() && best.ops[i].subs.size() > 1;) {
        Plan c = best;
        c.ops[i].subs.erase(c.ops[i].subs.begin() + k);
        if (!attempt(c, 4)) k++;
      }
    {
      std::vector<std::pair<char, int>> ks;
      for (auto& o : best.outs) ks.push_back(o.first);
      for (size_t chunk = ks.size(); chunk >= 1; chunk /= 2) {
        for (size_t i = 0; i < ks.size() && now() < deadline; i += chunk) {
          Plan c = best;
          bool had = false;
          for (size_t j = i; j < std::min(ks.size(), i + chunk); j++) had |= c.outs.erase(ks[j]) > 0;
          if (had) attempt(c, chunk > 2 ? 4 : 2);
        }
        if (chunk == 1) break;
      }
    }
    {
      Plan c = best;
      c.ticks.clear();
      if (!best.ticks.empty()) attempt(c, 4);
      c = best;
      c.jumps.clear();
      if (!best.jumps.empty()) attempt(c, 4);
    }
    for (size_t i = 0; i < best.ops.size(); i++)
      if (best.ops[i].delay) {
        Plan c = best;
        c.ops[i].delay = 0;
        attempt(c, 2);
      }
    shrink_vec<std::vector<rt::StallRec>>([](Plan& p) { return &p.sched.stl; }, 0);
    shrink_vec<std::vector<rt::SwitchRec>>([](Plan& p) { return &p.sched.pre; }, 0);
  }
};

// one property's seeds do not repeat another's
u64 seed_of(const std::string& prop, u64 base, u64 i) { return base * 1000000007ull + i * 2654435761ull + std::hash<std::string>()(prop); }

void print_plan_result(const Parsed& r) {
  for (auto& v : r.V) printf("VIOL %s\n", un1(v).c_str());
}

}  // namespace

static int real_main(int argc, char** argv) {
  std::map<std::string, std::string> a;
  std::string cmd = argc > 1 ? argv[1] : "";
  for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  rt::init_process();
  R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  warm_up();
  std::string prop = a["--prop"];
  auto num = [&](const char* k) { return strtoull(a[k].c_str(), 0, 10); };
  if (a.count("--base")) a["--seed"] = std::to_string(seed_of(prop, num("--base"), num("--index")));
  if (cmd == "gen") {
    Plan p;
    generate(prop, strtoull(a["--seed"].c_str(), 0, 10), &p);
    fputs(plan_to_text(p).c_str(), stdout);
    return 0;
  }
  if (cmd == "replay" || cmd == "one") {
    Plan p;
    if (cmd == "one") generate(prop, strtoull(a["--seed"].c_str(), 0, 10), &p);
    else if (!load(a["--plan"].c_str(), &p)) { fprintf(stderr, "cannot read plan\n"); return 2; }
    run_child(p, prop, true, a["--dump"] == "1");
    Parsed r = parse();
    printf("HASH %016llx obligations %llu sim_us %llu points %llu switches %llu\n", (unsigned long long)R->hash, (unsigned long long)R->obligations,
           (unsigned long long)R->sim_us, (unsigned long long)R->points, (unsigned long long)R->switches);
    print_plan_result(r);
    if (!a["--out"].empty()) { std::ofstream f(a["--out"]); f << r.plan; }
    return R->nviol ? 1 : 0;
  }
  if (cmd == "min") {
    Plan p;
    if (!load(a["--plan"].c_str(), &p)) return 2;
    Min m;
    m.prop = prop;
    m.deadline = now() + atof(a["--time"].c_str());
    run_child(p, prop, true, false);
    Parsed r = parse();
    if (!R->nviol || r.V.empty()) { printf("not reproduced\n"); return 3; }
    m.first_msg = r.V[0];
    plan_from_text(r.plan, &m.best);
    m.go();
    run_child(m.best, prop, true, false);
    r = parse();
    printf("MIN runs %d\n", m.runs);
    print_plan_result(r);
    std::ofstream f(a["--out"]);
    f << plan_to_text(m.best);
    return R->nviol ? 1 : 3;
  }
  if (cmd == "run") {
    u64 seed0 = strtoull(a["--seed"].c_str(), 0, 10);
    u64 from = strtoull(a["--from"].c_str(), 0, 10), step = strtoull(a["--step"].c_str(), 0, 10), count = strtoull(a["--count"].c_str(), 0, 10);
    double limit = atof(a["--time"].c_str());
    int max_viol = a.count("--maxviol") ? atoi(a["--maxviol"].c_str()) : 1;
    double t0 = now();
    std::map<std::string, u64> F, P;
    u64 runs = 0, nontrivial = 0, ob = 0, points = 0, switches = 0, sim = 0, rechecked = 0, mismatch = 0, fibers = 0;
    std::set<u64> hist, ils;
    int viol = 0;
    std::string outdir = a["--out"];
    std::ostringstream viols;
    for (u64 i = from; i < count; i += step) {
      if (now() - t0 > limit) break;
      u64 seed = seed_of(prop, seed0, i);
      Plan p;
      generate(prop, seed, &p);
      run_child(p, prop, false, false);
      Parsed r = parse();
      runs++;
      ob += R->obligations;
      points += R->points;
      switches += R->switches;
      sim += R->sim_us;
      fibers += R->fibers;
      for (auto& f : r.F) F[f.first] += f.second;
      for (auto& f : r.P) P[f.first] += 1;
      ils.insert(R->il_hash);
      if (R->obligations) {
        if (hist.insert(R->hash).second) nontrivial++;
      }
      if (R->nviol) {
        viol++;
        std::string path = outdir + "/" + prop + "-" + std::to_string(i) + ".plan";
        std::ofstream f(path);
        f << r.plan;
        if (viol > 1) viols << ",";
        viols << "{\"index\":" << i << ",\"seed\":" << seed << ",\"plan\":" << jq(path) << ",\"msg\":" << jq(r.V.empty() ? "?" : un1(r.V[0])) << "}";
        if (viol >= max_viol) break;
      } else if (runs % 64 == 1) {
        u64 h = R->hash;
        // the same seed must give the same execution, and its recorded schedule must replay it
        run_child(p, prop, true, false);
        rechecked++;
        if (R->hash != h) mismatch++;
        Parsed q = parse();
        Plan rp;
        plan_from_text(q.plan, &rp);
        run_child(rp, prop, false, false);
        if (R->hash != h) { mismatch++; fprintf(stderr, "replay differs: seed index %llu\n", (unsigned long long)i); }
      }
    }
    auto save = [&](const char* ext, const std::set<u64>& v) {
      std::ofstream f(outdir + "/" + prop + "-" + std::to_string(from) + ext, std::ios::binary);
      for (u64 x : v) f.write((const char*)&x, 8);
    };
    save(".hist", hist);
    save(".il", ils);
    printf("{\"runs\":%llu,\"nontrivial\":%llu,\"obligations\":%llu,\"points\":%llu,\"switches\":%llu,\"sim_us\":%llu,\"interleavings\":%llu,\"fibers\":%llu,"
           "\"rechecked\":%llu,\"mismatch\":%llu,\"wall\":%.3f,\"faults\":{",
           (unsigned long long)runs, (unsigned long long)nontrivial, (unsigned long long)ob, (unsigned long long)points, (unsigned long long)switches,
           (unsigned long long)sim, (unsigned long long)ils.size(), (unsigned long long)fibers, (unsigned long long)rechecked, (unsigned long long)mismatch, now() - t0);
    bool c = false;
    for (auto& f : F) { printf("%s%s:%llu", c ? "," : "", jq(f.first).c_str(), (unsigned long long)f.second); c = true; }
    printf("},\"probes\":{");
    c = false;
    for (auto& f : P) { printf("%s%s:%llu", c ? "," : "", jq(f.first).c_str(), (unsigned long long)f.second); c = true; }
    printf("},\"violations\":[%s]}\n", viols.str().c_str());
    return 0;
  }
  fprintf(stderr, "usage: simctl run|one|replay|min|gen ...\n");
  return 2;
}

int main(int argc, char** argv) {
  return rt::on_fixed_stack([=] { return real_main(argc, argv); });
}
