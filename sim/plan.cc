// Text form of plans and seeded plan generation.
#include <stdio.h>
#include <stdlib.h>

#include <algorithm>
#include <sstream>

#include "world.h"

namespace sim {

std::string plan_to_text(const Plan& p) {
  std::ostringstream o;
  for (auto& c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
  for (auto& x : p.ops) {
    o << "op " << x.id << " f=" << x.fiber << " k=" << x.kind << " m=" << x.mode << " d=" << x.delay << " bad=" << x.bad
      << " par=" << x.par;
    if (x.cl) o << " cl=" << x.cl;
    if (x.dirty) o << " dirty=" << x.dirty;
    if (x.at) o << " at=" << x.at;
    for (auto& s : x.subs) o << " s=" << s.key << ":" << s.hi << ":" << s.logs << ":" << s.bits;
    o << "\n";
  }
  for (auto& x : p.outs)
    o << "out " << x.first.first << " " << x.first.second << " d=" << x.second.delay << " st=" << x.second.st
      << " pay=" << x.second.pay << " inl=" << x.second.inl << " stall=" << x.second.stall << "\n";
  for (auto& t : p.ticks) o << "tick " << t.first << " " << t.second << "\n";
  for (auto& j : p.jumps) o << "jump " << j.first << " " << j.second << "\n";
  const rt::SchedConfig& s = p.sched;
  char b[256];
  snprintf(b, sizeof b, "sched %d %llu %.9g %.9g %.9g %lld %d %d %llu\n", (int)s.strategy, (unsigned long long)s.seed, s.p_mem,
           s.p_sync, s.p_stall, (long long)s.stall_max_us, s.max_stalls, s.pct_depth, (unsigned long long)s.pct_len);
  o << b;
  for (auto& x : s.pre) o << "pre " << x.point << " " << x.target << "\n";
  for (auto& x : s.cho) o << "cho " << x.n << " " << x.target << "\n";
  for (auto& x : s.stl) o << "stl " << x.point << " " << x.us << "\n";
  return o.str();
}

Plan client_plan(const Plan& p, int k) {
  Plan q = p;
  std::string pre = "c" + std::to_string(k) + ".";
  for (auto& c : p.cfg)
    if (c.first.compare(0, pre.size(), pre) == 0) q.cfg[c.first.substr(pre.size())] = c.second;
  return q;
}

bool plan_from_text(const std::string& text, Plan* p) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string w;
    if (!(l >> w) || w[0] == '#') continue;
    if (w == "cfg") {
      std::string k;
      i64 v;
      l >> k >> v;
      p->cfg[k] = v;
    } else if (w == "op") {
      POp o;
      l >> o.id;
      std::string f;
      while (l >> f) {
        size_t e = f.find('=');
        std::string k = f.substr(0, e), v = f.substr(e + 1);
        if (k == "f") o.fiber = atoi(v.c_str());
        else if (k == "k") o.kind = v[0];
        else if (k == "m") o.mode = v[0];
        else if (k == "d") o.delay = atoll(v.c_str());
        else if (k == "bad") o.bad = atoi(v.c_str());
        else if (k == "cl") o.cl = atoi(v.c_str());
        else if (k == "dirty") o.dirty = atoi(v.c_str());
        else if (k == "at") o.at = atoi(v.c_str());
        else if (k == "par") o.par = atoi(v.c_str());
        else if (k == "s") {
          Sub s;
          sscanf(v.c_str(), "%d:%d:%d:%d", &s.key, &s.hi, &s.logs, &s.bits);
          o.subs.push_back(s);
        }
      }
      p->ops.push_back(o);
    } else if (w == "out") {
      char k;
      int n;
      l >> k >> n;
      Outcome o;
      std::string f;
      while (l >> f) {
        size_t e = f.find('=');
        std::string kk = f.substr(0, e);
        i64 v = atoll(f.c_str() + e + 1);
        if (kk == "d") o.delay = v;
        else if (kk == "st") o.st = (int)v;
        else if (kk == "pay") o.pay = (int)v;
        else if (kk == "inl") o.inl = (int)v;
        else if (kk == "stall") o.stall = (int)v;
      }
      p->outs[{k, n}] = o;
    } else if (w == "tick") {
      int n;
      i64 d;
      l >> n >> d;
      p->ticks[n] = d;
    } else if (w == "jump") {
      i64 a, b;
      l >> a >> b;
      p->jumps.push_back({a, b});
    } else if (w == "sched") {
      int st;
      unsigned long long seed, len;
      long long sm;
      l >> st >> seed >> p->sched.p_mem >> p->sched.p_sync >> p->sched.p_stall >> sm >> p->sched.max_stalls >>
          p->sched.pct_depth >> len;
      p->sched.strategy = (rt::Strategy)st;
      p->sched.seed = seed;
      p->sched.stall_max_us = sm;
      p->sched.pct_len = len;
    } else if (w == "pre") {
      rt::SwitchRec r;
      l >> r.point >> r.target;
      p->sched.pre.push_back(r);
    } else if (w == "cho") {
      rt::ChoiceRec r;
      l >> r.n >> r.target;
      p->sched.cho.push_back(r);
    } else if (w == "stl") {
      rt::StallRec r;
      l >> r.point >> r.us;
      p->sched.stl.push_back(r);
    } else {
      return false;
    }
  }
  // an op whose parent was removed (minimisation) becomes unreachable: drop it
  std::set<int> ids;
  for (auto& o : p->ops) ids.insert(o.id);
  p->ops.erase(std::remove_if(p->ops.begin(), p->ops.end(), [&](const POp& o) { return o.par >= 0 && !ids.count(o.par); }),
               p->ops.end());
  return true;
}

// -------------------------------------------------------------- generation
namespace {
struct Profile {
  int wc = 3, wq = 3, wr = 3, ws = 0;   // operation kind weights
  double p_sync = 0.25, p_per = 0.15, p_null = 0.02, p_bad = 0.03, p_hi = 0.1, p_nested = 0.12;
  bool cap_small = false;               // favour tiny caches
  double p_cache_off = 0.04;
  double p_quiesce = 0.5;
  double p_notimer = 0.1;
  double p_no_transport = 0.05;
  double p_jump = 0.1;
  double p_inl = 0.3;                   // chance that the run uses in-place completion
  int min_callers = 1, max_callers = 4;
  bool many_keys = false;
  bool adversarial_keys = false;
  bool timing = false;                  // op delays near the cache thresholds
  bool big_logs = false;
  bool nonblocking_stop = true;
  double p_stallrun = 0.25;
  bool always_timer = false;
  int max_ops = 26;
  int min_ops = 4;
  double p_smallx = 0.15;
  double p_dirty = 0.1;
  int clients = 1;
  bool dist = false;                    // distributions built with the helper
};

Profile profile_for(const std::string& prop, rt::Rng& r) {
  Profile f;
  f.many_keys = r.chance(0.12);
  auto only = [&](int c, int q, int rr, int s) { f.wc = c; f.wq = q; f.wr = rr; f.ws = s; };
  if (prop == "P01") { f.p_nested = 0.25; f.p_inl = 0.5; f.p_sync = 0.4; f.p_null = 0.06; f.p_bad = 0.06; }
  else if (prop == "P02") { f.p_bad = 0.08; f.p_null = 0.05; f.p_per = 0.25; f.p_cache_off = 0.15; f.p_dirty = 0.35; }
  else if (prop == "P03") { only(8, 0, 0, 0); f.timing = true; f.p_null = 0; f.p_bad = 0; f.p_hi = 0.12; }
  else if (prop == "P04") { only(8, 0, 0, 0); f.timing = true; f.p_null = 0; f.p_bad = 0; f.p_jump = 0.25; }
  else if (prop == "P05") { only(8, 0, 0, 0); f.timing = true; f.p_null = 0; f.p_bad = 0; f.p_hi = 0.02; }
  else if (prop == "P06") { only(4, 0, 4, 0); f.p_hi = 0.5; f.p_cache_off = 0; }
  else if (prop == "P07") { only(0, 0, 8, 0); f.cap_small = r.chance(0.4); f.big_logs = r.chance(0.25); f.p_null = 0.02; f.timing = true; f.p_cache_off = 0; f.many_keys = r.chance(0.25); }
  else if (prop == "P08") { only(1, 0, 8, 0); f.timing = true; f.always_timer = true; f.p_cache_off = 0; f.p_quiesce = 0.9; f.big_logs = r.chance(0.1); }
  else if (prop == "P09") { only(0, 0, 8, 0); f.big_logs = r.chance(0.35); f.timing = r.chance(0.5); f.p_cache_off = 0; f.p_hi = 0.05; f.many_keys = r.chance(0.2); }
  else if (prop == "P10") { only(8, 0, 0, 0); f.timing = r.chance(0.5); f.p_null = 0; f.p_hi = 0.05; f.cap_small = r.chance(0.3); f.p_cache_off = 0; }
  else if (prop == "P11") { only(0, 8, 0, 0); f.timing = true; f.p_null = 0; f.p_cache_off = 0; f.p_smallx = 0.05; }
  else if (prop == "P12") { only(0, 8, 0, 0); f.timing = true; f.p_null = 0; f.p_cache_off = 0; f.p_smallx = 0.05; f.always_timer = r.chance(0.5); }
  else if (prop == "P13") { only(0, 8, 0, 0); f.timing = true; f.p_null = 0; f.p_cache_off = 0; f.p_smallx = 0.2; }
  else if (prop == "P14") { only(0, 8, 0, 0); f.timing = true; f.p_null = 0; f.p_cache_off = 0; f.p_smallx = 0.1; }
  else if (prop == "P15") { f.p_cache_off = 0.75; }
  else if (prop == "P16") { f.ws = 3; f.p_quiesce = 0.8; f.min_callers = 2; f.p_bad = 0.06; f.p_null = 0.05; }
  else if (prop == "P17") { f.min_callers = 2; f.ws = 1; f.p_nested = 0.15; f.cap_small = r.chance(0.25); }
  else if (prop == "P18") { f.p_quiesce = 0.15; f.min_callers = 1; f.timing = r.chance(0.5); }
  else if (prop == "P19") {
    switch (r.below(4)) {
      case 0: only(0, 8, 0, 0); break;
      case 1: only(8, 0, 0, 0); break;
      default: only(4, 4, 4, 0);
    }
    f.cap_small = true; f.many_keys = r.chance(0.5); f.p_cache_off = 0; }
  else if (prop == "P20") { f.p_per = 0.45; f.p_null = 0.06; f.p_no_transport = 0.3; }
  else if (prop == "P21") { f.adversarial_keys = true; only(4, 3, 4, 0); f.p_null = 0; f.p_bad = 0; f.p_cache_off = 0; f.p_hi = 0.03; }
  else if (prop == "P24") { f.clients = 2; f.p_jump = 0.05; f.p_notimer = 0.05; }
  else if (prop == "P31") { only(0, 0, 8, 0); f.timing = r.chance(0.3); f.p_null = 0; f.p_bad = 0.01; f.p_cache_off = 0.05; f.p_hi = 0.05; f.p_no_transport = 0.01; f.dist = true; }
  return f;
}
}  // namespace

void (*world_gen[4])(const std::string& prop, u64 seed, Plan* p);

void generate(const std::string& prop, u64 seed, Plan* p) {
  int world = prop == "P22" ? 1 : prop == "P23" ? 2 : 0;
  if (rt::Rng(seed ^ 0x5eed).chance(prop == "P21" || prop == "P22" || prop == "P24" ? 0.3 : 0.12)) p->cfg["reuse"] = 1;
  if (world_gen[world]) {
    world_gen[world](prop, seed, p);
    return;
  }
  rt::Rng r(seed);
  r.next();
  Profile f = profile_for(prop, r);
  auto& c = p->cfg;
  // --- configuration
  static const int ivals[] = {1, 2, 5, 10, 50, 100, 300, 500, 1000, 2000};
  // mostly milliseconds to seconds; sometimes minutes, hours or days
  i64 scale = 1;
  if (r.chance(0.06)) {
    static const int scales[] = {60, 1000, 3600, 86400};
    scale = scales[r.below(4)];
  }
  auto interval = [&]() { return (i64)ivals[r.below(10)] * scale; };
  i64 F = interval(), R = interval(), RF = interval(), E = F + 1;
  // very different intervals mean thousands of idle ticks per run: rarely
  if (!r.chance(0.1))
    for (int k = 0; k < 20 && std::max(F, std::max(R, RF)) > 50 * std::min(F, std::min(R, RF)); k++) F = interval(), R = interval(), RF = interval();
  switch (r.below(4)) {
    case 0: E = F + 1; break;
    case 1: E = F + interval(); break;
    case 2: E = 2 * F; break;
    default: E = 4 * F + 1;
  }
  if (r.chance(0.06)) E = (i64)r.below(F + 1);  // raised to just above the flush interval by the options
  i64 X = r.chance(f.p_smallx) ? R * (i64)(1 + r.below(4)) + (i64)r.below(2) : std::max((i64)600000, scale > 1 ? 10 * R : 0);
  auto size = [&](bool small) -> i64 {
    if (r.chance(f.p_cache_off)) return r.chance(0.8) ? 0 : -1;
    if (small) return 1 + (i64)r.below(4);
    return r.chance(0.15) ? 1 + (i64)r.below(5) : 100;
  };
  bool all_off = prop == "P15" && r.chance(0.3);
  c["chk_n"] = all_off ? 0 : size(f.cap_small);
  c["chk_f"] = F;
  c["chk_e"] = E;
  c["quo_n"] = all_off ? 0 : size(f.cap_small);
  c["quo_r"] = R;
  c["quo_x"] = X;
  c["rep_n"] = all_off ? 0 : size(f.cap_small);
  c["rep_f"] = RF;
  // an interval of 0: as soon as possible
  if (r.chance(getenv("ZERO") ? 1 : 0.02)) {
    int z = 1 + (int)r.below(7);
    auto small = [&]() { return (i64)ivals[r.below(5)]; };  // idle ticks again
    F = c["chk_f"] = z & 1 ? 0 : small();
    E = c["chk_e"] = r.chance(0.5) ? 0 : F + small();
    R = c["quo_r"] = z & 2 ? 0 : small();
    RF = c["rep_f"] = z & 4 ? 0 : small();
  }
  if (!all_off && !f.cap_small && f.clients <= 1 && r.chance(0.03)) {  // default constructed options
    c["dflt"] = 1;
    c["chk_n"] = c["quo_n"] = c["rep_n"] = 10000;
    F = c["chk_f"] = 500; E = c["chk_e"] = 1000;
    R = c["quo_r"] = 1000; X = c["quo_x"] = 600000;
    RF = c["rep_f"] = 1000;
  }
  if (f.clients > 1 && r.chance(0.5)) {
    c["c1.chk_n"] = size(false);
    c["c1.quo_n"] = size(false);
    c["c1.rep_n"] = size(false);
    c["c1.chk_f"] = interval();
    c["c1.chk_e"] = c["c1.chk_f"] + interval();
    c["c1.quo_r"] = interval();
    c["c1.rep_f"] = interval();
    c["c1.t_quo"] = !r.chance(f.p_no_transport);
    c["c1.kinds"] = r.chance(0.5);
  }
  c["t_chk"] = !r.chance(f.p_no_transport);
  c["t_quo"] = !r.chance(f.p_no_transport);
  c["t_rep"] = !r.chance(f.p_no_transport);
  c["timer"] = f.always_timer || !r.chance(f.p_notimer);
  c["stop_blocks"] = f.nonblocking_stop ? !r.chance(0.2) : 1;
  if (r.chance(0.15)) c["tick_par"] = 1;
  c["kinds"] = !r.chance(0.1);
  if (f.clients > 1) c["clients"] = f.clients;
  c["epoch"] = (i64)r.below(1000000);
  c["quiesce"] = r.chance(f.p_quiesce);
  i64 maxint = std::max(E, std::max(R, RF));
  c["settle"] = c["quiesce"] ? (r.chance(0.7) ? 3 * maxint + 5 : (i64)r.below(maxint + 1)) : 0;
  if (c["timer"] && !c["quiesce"] && r.chance(prop == "P17" || prop == "P18" ? 0.3 : 0.06)) {
    c["end_tick"] = 1 + (i64)r.below(3);
    c["end_yields"] = r.chance(0.5) ? 0 : (i64)r.below(40);
    if (f.nonblocking_stop && r.chance(0.5)) c["stop_blocks"] = 0;
  }
  c["end_delay"] = r.chance(0.5) ? 0 : (i64)r.below(2 * maxint * 1000 + 1);

  if (f.dist) {
    c["dist"] = 1 + (i64)r.below(1000000);
    c["dist_mixed"] = r.chance(0.1);
    c["dist_wild"] = r.chance(0.4);
  }
  // gauges of any type need their kind known
  bool wide = c["kinds"] && f.clients <= 1 && r.chance(0.3);
  // many keys at once: what is flushed together fills more than one request
  bool bulk = false;
  static const std::set<std::string> bulk_props = {"P01", "P07", "P08", "P09", "P10", "P12", "P16"};
  if (bulk_props.count(prop) && f.clients <= 1 && !f.dist && !f.adversarial_keys && r.chance(getenv("BULK") ? 1.0 : prop == "P10" || prop == "P12" ? 0.01 : prop == "P09" ? 0.002 : 0.004)) {
    bulk = true;
    f.p_hi = r.chance(0.1) ? 0.01 : 0;
    if (prop == "P10" || prop == "P12") f.min_ops = 150, f.max_ops = 210, f.max_callers = f.min_callers = r.chance(0.7) ? 1 : 2;
    else f.min_ops = 1, f.max_ops = 4;
    for (const char* n : {"chk_n", "quo_n", "rep_n"})
      if (c[n] > 0 && r.chance(0.7)) c[n] = 10000;
  }
  // --- workload
  int callers = f.min_callers + (int)r.below(f.max_callers - f.min_callers + 1);
  int nops = f.min_ops + (int)r.below(f.max_ops - f.min_ops + 1);
  if (!bulk && r.chance(0.3)) nops = f.min_ops + (int)r.below(6);
  bool longrun = !bulk && r.chance(getenv("LONG") ? 1 : 0.015);  // a longer history
  if (longrun) nops = 40 + (int)r.below(100);
  int nkeys = 1 + (int)r.below(r.chance(0.6) ? 3 : 6);
  if (f.many_keys) nkeys = 6 + (int)r.below(20);
  std::vector<int> keys;
  for (int i = 0; i < nkeys; i++) {
    if (f.many_keys && !f.adversarial_keys && r.chance(0.8)) keys.push_back(kNamedKeys + (int)r.below(60));
    else if (r.chance(f.adversarial_keys ? 0.25 : 0.08)) {
      int k = kOddKeys + 2 * (int)r.below(kOddPairs);
      keys.push_back(k + (int)r.below(2));
      if (r.chance(0.7)) keys.push_back(keys.back() ^ 1);
    } else keys.push_back((int)r.below(kNamedKeys));
  }
  int bulk_key = kBulkKeys, bulk_keys = prop == "P10" || prop == "P12" ? 66 + (int)r.below(20) : 400 + (int)r.below(r.chance(0.4) ? 300 : 1700);
  int wsum = f.wc + f.wq + f.wr + f.ws;
  bool inl_run = r.chance(f.p_inl);
  double p_inl = inl_run ? (r.chance(0.3) ? 1.0 : 0.4) : 0.0;
  double p_err = r.chance(0.5) ? 0 : r.unit() * 0.5;
  double p_deny = r.chance(0.35) ? 0 : r.unit() * 0.6;
  double sync = f.p_sync;
  if (r.chance(0.1)) sync = 1.0;
  bool reentrant = r.chance(0.2);  // transport functions that call the client
  if (reentrant) f.p_nested = std::max(f.p_nested, 0.2);
  // delays that sit on the thresholds of the caches
  std::vector<i64> th = {F * 1000, E * 1000, R * 1000, RF * 1000};
  if (X < 100000) th.push_back(X * 1000);
  i64 unit = (f.wq >= f.wc && f.wq >= f.wr) ? R * 1000 : f.wr > f.wc ? RF * 1000 : F * 1000;
  auto delay = [&]() -> i64 {
    switch (r.below(f.timing ? 8 : 6)) {
      case 0: case 1: return 0;
      case 2: return (i64)r.below(2000);
      case 3: return (i64)r.below(unit + 1);
      case 4: return (i64)r.below(unit / 4 + 1);
      default: {
        i64 t = th[r.below(th.size())];
        static const i64 dd[] = {-1000, -1, 0, 1, 2, 1000, 1500};
        i64 v = t + dd[r.below(7)];
        if (r.chance(0.3)) v = v / 2;
        if (r.chance(0.15)) v += th[r.below(th.size())];
        return v < 0 ? 0 : v;
      }
    }
  };
  std::map<std::string, int> used;
  for (int i = 0; i < nops; i++) {
    POp o;
    o.id = i;
    o.fiber = (int)r.below(callers);
    int w = (int)r.below(wsum);
    o.kind = w < f.wc ? 'c' : w < f.wc + f.wq ? 'q' : w < f.wc + f.wq + f.wr ? 'r' : 's';
    o.mode = 'a';
    if (f.clients > 1) o.cl = (int)r.below(f.clients);
    if (r.chance(sync)) o.mode = 's';
    else if (r.chance(f.p_per)) o.mode = 'p';
    else if (r.chance(f.p_null)) o.mode = 'n';
    o.delay = bulk && nops > 100 && !r.chance(0.05) ? (i64)r.below(20) : delay();
    if (bulk && nops > 100 && i == bulk_keys) o.delay = (i64)r.below(2 * unit + 1);  // lets the first answers arrive
    if (r.chance(f.p_bad)) o.bad = o.kind == 'r' ? 1 : 1 + (int)r.below(2);
    if ((o.kind == 'c' || o.kind == 'q') && r.chance(f.p_dirty)) o.dirty = 1;
    int nsub = o.kind == 's' ? 0 : o.kind == 'r' && r.chance(f.many_keys ? 0.6 : 0.3) ? 1 + (int)r.below(f.many_keys ? 12 : 4) : 1;
    if (o.kind == 'r' && r.chance(0.02)) nsub = 0;  // nothing to report
    if (bulk && o.kind == 'r' && r.chance(0.8)) nsub = r.chance(0.3) ? 990 + (int)r.below(30) : 60 + (int)r.below(r.chance(0.5) ? 200 : 1200);
    for (int s = 0; s < nsub; s++) {
      Sub u;
      u.key = keys[r.below(keys.size())];
      if (longrun && o.kind != 'r' && o.kind != 's') {
        // amounts are unique for 30 operations of a key
        auto g = [&]() { return o.kind + (o.kind == 'c' ? check_key(u.key) : quota_key(u.key)); };
        for (int t = 0; t < 20 && used[g()] >= 30; t++) u.key = keys[r.below(keys.size())];
        for (int t = 0; used[g()] >= 30; t++) u.key = kNamedKeys + t;
        used[g()]++;
      }
      if (bulk && (nsub > 50 || o.kind != 'r')) u.key = kBulkKeys + bulk_key++ % bulk_keys;
      u.hi = o.kind != 'q' && r.chance(f.p_hi);
      u.bits = (int)r.below(128) | (wide ? 256 : 0);
      if (f.dist && r.chance(0.85)) u.bits |= 128;
      if (o.kind == 'r' && r.chance(0.15)) u.bits |= 512;
      if (o.kind == 'r') {
        u.logs = bulk ? 0 : f.big_logs && r.chance(0.6) ? 10 + (int)r.below(r.chance(0.1) ? 120 : 85) : (int)r.below(3);
      } else if (o.kind == 'c') {
        u.logs = (int)r.below(2);
      }
      o.subs.push_back(u);
    }
    if (i > 0 && r.chance(f.p_nested)) {
      // issued from inside an earlier op's completion callback
      int par = (int)r.below(i);
      if (p->ops[par].mode != 's' && p->ops[par].kind != 's') o.par = par;
      // Not in those of flushes: SetFlushCallback rules calls back into the
      // aggregator out.
      if (o.par >= 0 && reentrant) o.at = r.chance(0.5);
    }
    p->ops.push_back(o);
  }
  // --- server behaviour
  for (char k : {'c', 'q', 'r'}) {
    int n = k == 'r' ? nops + 4 : nops * 2;
    for (int i = 0; i < n; i++) {
      Outcome o;
      switch (r.below(5)) {
        case 0: o.delay = 0; break;
        case 1: o.delay = 1 + (i64)r.below(3000); break;
        case 2: o.delay = (i64)r.below(unit / 2 + 1); break;
        case 3: o.delay = r.chance(0.5) ? (i64)r.below(unit + 1) : delay(); break;
        default: o.delay = r.chance(0.3) ? (i64)r.below(3 * unit + 1) : (i64)r.below(1000);
      }
      o.inl = r.chance(p_inl);
      if (r.chance(p_err)) {
        // mostly what servers and transports return, but any code is possible
        static const int codes[] = {14, 4, 13, 5, 7, 2};
        o.st = r.chance(0.6) ? codes[r.below(6)] : 1 + (int)r.below(16);
      }
      o.pay = r.chance(p_deny) ? 1 : r.chance(0.2) ? 2 : 0;
      if (o.st && !r.chance(0.4)) o.pay = 0;
      if (r.chance(0.02)) o.stall = 1 + (int)r.below(std::min<i64>(unit / 2, 1000000000) + 1);
      p->outs[{k, i}] = o;
    }
  }
  // --- timer and clock faults
  if (r.chance(0.25)) {
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; i++) p->ticks[(int)r.below(6)] = (i64)r.below(2 * maxint * 1000 + 1);
  }
  if (r.chance(f.p_jump)) {
    int n = 1 + (int)r.below(2);
    i64 t = 0;
    for (int i = 0; i < n; i++) {
      t += (i64)r.below(4 * unit + 1);
      i64 d = r.chance(0.5) ? (i64)r.below(3 * maxint * 1000 + 1) : r.chance(0.5) ? unit - 1 : 3600000000ll;
      if (r.chance(0.4)) d = -d;
      p->jumps.push_back({t, d});
    }
  }
  // --- scheduling
  rt::SchedConfig& s = p->sched;
  s.seed = r.next();
  switch (r.below(8)) {
    case 0: s.strategy = rt::kSequential; break;
    case 1: case 2: s.strategy = rt::kRandom; s.p_sync = 0.02 + r.unit() * 0.5; s.p_mem = r.chance(0.5) ? 0 : 0.0005 + r.unit() * 0.02; break;
    case 3: case 4: s.strategy = rt::kUnlockBias; s.p_sync = 0.2 + r.unit() * 0.7; s.p_mem = r.chance(0.7) ? 0 : r.unit() * 0.002; break;
    case 5: s.strategy = rt::kRandom; s.p_sync = r.unit() * 0.05; s.p_mem = 0.00005 + r.unit() * 0.002; break;
    default:
      s.strategy = rt::kPct;
      s.pct_depth = 1 + (int)r.below(6);
      s.pct_len = 1ull << (8 + r.below(10));
  }
  if (r.chance(f.p_stallrun)) {
    s.p_stall = 0.002 + r.unit() * 0.03;
    s.max_stalls = 1 + (int)r.below(4);
    s.stall_max_us = r.chance(0.5) ? unit * 2 : unit / 2 + 1;
  }
}

}  // namespace sim
