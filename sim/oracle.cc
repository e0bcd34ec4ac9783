// Judges a recorded history against each property.  Every rule reasons about
// intervals of recorded API events only (calls, transport sends, deliveries),
// never about the library's internals; where the order of two events cannot be
// known from outside, both orders are accepted.
#include <math.h>
#include <string.h>

#include <algorithm>
#include <functional>

#include "dist.h"
#include "world.h"

namespace sim {
namespace {

const i64 kSlack = 1000;  // us; tolerance on every duration comparison that could round

std::string S(i64 v) { return std::to_string(v); }

struct SendInfo {
  bool agg = false;            // carries the library's own config id
  int token = -1;              // op id in "u<id>" config ids
  int direct = -1;             // op index it is the direct send of
  std::string qkey;            // quota: group
  // (group, digit index) -> count; per operation for reports
  std::vector<std::map<std::pair<std::string, int>, int>> ops;  // one per operation in the request
  std::vector<std::string> okeys;
};

struct D {
  const Plan& p;
  const History& h;
  std::map<std::pair<int, int>, int> dig;
  std::map<std::pair<std::string, int>, std::pair<int, int>> undig;  // (group, idx) -> (op, sub)
  std::vector<bool> valid, cached;  // valid: reaches the cache/transport; cached: eligible for the cache
  std::vector<SendInfo> si;
  std::vector<std::vector<int>> direct;  // op -> sends
  std::map<int, int> opidx;
  i64 N[3], rep_f, chk_f, chk_e, quo_r, quo_x;
  u64 ob = 0;
  std::vector<Violation> out;
  std::string prop;
  char tag_prefix = 'w';

  D(const Plan& p_, const History& h_, const std::string& pr) : p(p_), h(h_), prop(pr) { build(); }

  void bad(const std::string& m) { out.push_back({prop, m}); }

  static int ki(char k) { return k == 'c' ? 0 : k == 'q' ? 1 : 2; }
  static std::string group(char kind, int key) {
    return std::string(1, kind) + (kind == 'c' ? check_key(key) : kind == 'q' ? quota_key(key) : report_key(key));
  }
  std::string gkey(int op, int sub = 0) const {
    return h.ops[op].p->subs.empty() ? "" : group(h.ops[op].p->kind, h.ops[op].p->subs[sub].key);
  }
  bool transport_ok(const POp& o) const {
    if (o.mode == 'n') return false;
    if (o.mode == 'p') return true;
    return p.get(o.kind == 'c' ? "t_chk" : o.kind == 'q' ? "t_quo" : "t_rep", 1) != 0;
  }
  bool global_transport(char kind) const { return p.get(kind == 'c' ? "t_chk" : kind == 'q' ? "t_quo" : "t_rep", 1) != 0; }
  static bool any_hi(const POp& o) {
    for (auto& s : o.subs)
      if (s.hi) return true;
    return false;
  }
  const Call& call(int op) const { return h.calls[h.ops[op].call]; }
  const Call& scall(int s) const { return h.calls[h.sends[s].call]; }
  bool has_deliv(int s) const { return h.sends[s].deliv >= 0; }
  u64 db(int s) const { return has_deliv(s) ? h.calls[h.sends[s].deliv].b : kOpen; }
  u64 de(int s) const { return has_deliv(s) ? h.calls[h.sends[s].deliv].e : kOpen; }
  // end of the moment the answer of send s was handed over
  u64 wend(int s) const {
    if (si[s].direct >= 0 && !h.ops[si[s].direct].done.empty()) return std::min(de(s), h.ops[si[s].direct].done[0].seq);
    return de(s);
  }

  static std::string lab(const ::google::protobuf::Map<std::string, std::string>& m) {
    std::map<std::string, std::string> o(m.begin(), m.end());
    std::string r;
    for (auto& l : o) r += "{" + l.first + "=" + l.second + "}";
    return r;
  }
  static std::string rkey_of(const sc::Operation& o) { return "r" + o.consumer_id() + "|" + o.operation_name() + "|" + lab(o.labels()); }
  static std::string ckey_of(const sc::Operation& o) {
    std::string r = "c" + o.consumer_id() + "|" + o.operation_name() + "|" + lab(o.labels());
    std::set<std::string> m;
    std::string ml;
    bool bare = true;
    for (auto& s : o.metric_value_sets()) {
      if (s.metric_name() == "m/tok") {
        bare = false;
        for (auto& v : s.metric_values()) {
          auto it = v.labels().find("tier");
          if (it != v.labels().end() && ml.empty()) ml = it->second;
        }
      } else {
        m.insert(s.metric_name());
      }
    }
    for (auto& x : m) r += "/" + x;
    return r + "#" + ml + (bare ? "!" : "");
  }
  static std::string qkey_of(const sc::QuotaOperation& o) {
    std::string r = "q" + o.consumer_id() + "|" + o.method_name();
    std::set<std::string> m;
    for (auto& s : o.quota_metrics())
      if (s.metric_name() != "q/tok") m.insert(s.metric_name());
    for (auto& x : m) r += "/" + x;
    return r;
  }
  static void digs(i64 v, int base, const std::string& g, std::map<std::pair<std::string, int>, int>* m) {
    for (int i = 0; i < 31 && v; i++, v >>= 2)
      if (v & 3) (*m)[{g, base + i}] += (int)(v & 3);
  }
  // what is known by its log entries only: entry L<op>.<sub>.0
  template <class Op>
  void marks(const Op& o, char kind, const std::string& g, std::map<std::pair<std::string, int>, int>* m) {
    for (auto& l : o.log_entries()) {
      int id, sub, n;
      if (sscanf(l.name().c_str(), "L%d.%d.%d", &id, &sub, &n) != 3 || n != 0 || !opidx.count(id)) continue;
      const POp& p = *h.ops[opidx[id]].p;
      if (p.kind == kind && sub < (int)p.subs.size() && metricless(p, sub, kind)) (*m)[{g, dig[{opidx[id], sub}]}]++;
    }
  }
  static int token_of(const std::string& cfg) {
    if (cfg.size() < 2 || cfg[0] != 'u') return -1;
    return atoi(cfg.c_str() + 1);
  }

  void build() {
    dig = digits(p);
    for (size_t i = 0; i < h.ops.size(); i++) {
      const POp& o = *h.ops[i].p;
      opidx[o.id] = (int)i;
      for (size_t s = 0; s < o.subs.size(); s++) undig[{group(o.kind, o.subs[s].key), dig[{(int)i, (int)s}]}] = {(int)i, (int)s};
    }
    N[0] = p.get("chk_n", 100);
    N[1] = p.get("quo_n", 100);
    N[2] = p.get("rep_n", 100);
    rep_f = p.get("rep_f", 1000) * 1000;
    chk_f = p.get("chk_f", 500) * 1000;
    chk_e = std::max(p.get("chk_f", 500) + 1, p.get("chk_e", 1000)) * 1000;
    quo_r = p.get("quo_r", 1000) * 1000;
    quo_x = p.get("quo_x", 600000) * 1000;
    valid.resize(h.ops.size());
    cached.resize(h.ops.size());
    direct.resize(h.ops.size());
    for (size_t i = 0; i < h.ops.size(); i++) {
      const POp& o = *h.ops[i].p;
      valid[i] = h.ops[i].issued && o.kind != 's' && !o.bad && transport_ok(o);
      cached[i] = valid[i] && N[ki(o.kind)] > 0 && (o.kind == 'q' || !any_hi(o));
    }
    si.resize(h.sends.size());
    for (size_t s = 0; s < h.sends.size(); s++) {
      const Send& x = h.sends[s];
      SendInfo& f = si[s];
      const std::string& cfg = x.cr ? x.cr->service_config_id() : x.qr ? x.qr->service_config_id() : x.rr->service_config_id();
      f.token = token_of(cfg);
      if (cfg.empty()) {
        const ::google::protobuf::Message& m = x.cr ? (const ::google::protobuf::Message&)*x.cr : x.qr ? (const ::google::protobuf::Message&)*x.qr : *x.rr;
        auto& u = m.GetReflection()->GetUnknownFields(m);
        for (int i = 0; i < u.field_count(); i++)
          if (u.field(i).number() == 902) f.token = token_of(u.field(i).length_delimited());
      }
      f.agg = f.token < 0;
      f.direct = x.direct;
      if (f.direct < 0 && x.via >= 0 && opidx.count(x.via)) f.direct = opidx[x.via];
      if (f.direct < 0 && f.token >= 0 && opidx.count(f.token)) {
        int op = opidx[f.token];
        if (h.ops[op].p->kind == x.kind && !(x.kind == 'q' && N[1] > 0)) f.direct = op;
      }
      if (f.direct >= 0) direct[f.direct].push_back((int)s);
      if (x.cr) {
        std::map<std::pair<std::string, int>, int> m;
        std::string g = ckey_of(x.cr->operation());
        for (auto& ms : x.cr->operation().metric_value_sets())
          if (ms.metric_name() == "m/tok")
            for (auto& v : ms.metric_values()) digs(v.int64_value(), 0, g, &m);
        marks(x.cr->operation(), 'c', g, &m);
        f.ops.push_back(m);
        f.okeys.push_back(g);
      } else if (x.qr) {
        std::map<std::pair<std::string, int>, int> m;
        f.qkey = qkey_of(x.qr->allocate_operation());
        i64 amount = 0;
        for (auto& ms : x.qr->allocate_operation().quota_metrics())
          if (ms.metric_name() == "q/tok")
            for (auto& v : ms.metric_values()) amount += v.int64_value();
        digs(amount, 0, f.qkey, &m);
        f.ops.push_back(m);
        f.okeys.push_back(f.qkey);
      } else {
        for (auto& o : x.rr->operations()) {
          std::map<std::pair<std::string, int>, int> m;
          std::string g = rkey_of(o);
          for (auto& ms : o.metric_value_sets())
            if (ms.metric_name().compare(0, 5, "m/tok") == 0)
              for (auto& v : ms.metric_values()) digs(v.int64_value(), 30 * atoi(ms.metric_name().c_str() + 5), g, &m);
          marks(o, 'r', g, &m);
          f.ops.push_back(m);
          f.okeys.push_back(g);
        }
      }
    }
  }

  std::string opn(int i) const {
    const POp& o = *h.ops[i].p;
    return std::string("op ") + S(o.id) + "(" + o.kind + "," + o.mode + ")";
  }
  std::string sdn(int s) const { return std::string("send w") + S(s) + "(" + h.sends[s].kind + ")"; }

  bool overlap(const Call& a, const Call& b) const { return a.b < b.e && b.b < a.e; }
  // end of `c` or of any call overlapping it
  u64 overlap_end(const Call& c) const {
    u64 e = c.e;
    for (auto& o : h.calls)
      if (overlap(o, c)) e = std::max(e, o.e);
    return e;
  }
  std::vector<const Call*> ticks() const {
    std::vector<const Call*> r;
    for (auto& c : h.calls)
      if (c.type == kCallTick) r.push_back(&c);
    return r;
  }
  bool tick_overlaps_destroy() const {
    if (h.destroy_call < 0) return true;
    for (auto& c : h.calls)
      if (c.type == kCallTick && overlap(c, h.calls[h.destroy_call])) return true;
    return false;
  }
  // a flush under way at seq may find the client destroyed and drop what it took from a cache
  bool shutdown_drop(u64 seq) const {
    if (h.destroy_call < 0) return false;
    for (auto& c : h.calls)
      if ((c.type == kCallTick || c.type == kCallDeliv) && c.b < seq && c.e > h.calls[h.destroy_call].b) return true;
    return false;
  }
  bool lossy_shutdown() const { return !p.get("stop_blocks", 1) && tick_overlaps_destroy(); }
  u64 destroy_end() const { return h.destroy_call < 0 ? kOpen : h.calls[h.destroy_call].e; }
  // requests that must appear verbatim
  std::string verbatim(int op) {
    const POp& o = *h.ops[op].p;
    if (o.kind == 'c') {
      sc::CheckRequest r;
      fill_check(o, dig[{op, 0}], &r);
      return ser(r);
    }
    if (o.kind == 'q') {
      sc::AllocateQuotaRequest r;
      fill_quota(o, dig[{op, 0}], &r);
      return ser(r);
    }
    sc::ReportRequest r;
    fill_report(o, op, dig, &r);
    return ser(r);
  }
  bool in_call(int s, int op) const { return h.sends[s].b > call(op).b && h.sends[s].b < call(op).e; }
  // distinct check keys other than g that had any activity overlapping [a, b]
  int other_check_keys(const std::string& g, u64 a, u64 b) const {
    std::set<std::string> k;
    for (size_t i = 0; i < h.ops.size(); i++) {
      if (!valid[i] || h.ops[i].p->kind != 'c' || gkey((int)i) == g) continue;
      bool act = call((int)i).b < b && call((int)i).e > a;
      for (int s : direct[i])
        if (has_deliv(s) && db(s) < b && de(s) > a) act = true;
      if (act) k.insert(gkey((int)i));
    }
    return (int)k.size();
  }
  // check answers stored: direct sends delivered OK
  std::vector<int> check_writes(const std::string& g) const {
    std::vector<int> w;
    for (size_t s = 0; s < h.sends.size(); s++)
      if (h.sends[s].kind == 'c' && si[s].direct >= 0 && has_deliv((int)s) && h.sends[s].out.st == 0 && gkey(si[s].direct) == g)
        w.push_back((int)s);
    return w;
  }
  bool check_hit(int i) const {
    return h.ops[i].p->kind == 'c' && cached[i] && direct[i].empty() && !h.ops[i].done.empty() && h.ops[i].done[0].code == 0;
  }
  int tag_send(const std::string& tag) const {
    if (tag.size() < 2 || tag[0] != tag_prefix) return -1;
    int s = atoi(tag.c_str() + 1);
    return s >= 0 && s < (int)h.sends.size() ? s : -1;
  }
  int quota_keys() const {
    std::set<std::string> k;
    for (size_t i = 0; i < h.ops.size(); i++)
      if (valid[i] && h.ops[i].p->kind == 'q') k.insert(gkey((int)i));
    return (int)k.size();
  }
  // could the library have forgotten quota key state (expiration, capacity)?
  bool may_drop() const { return quota_keys() > N[1] || may_expire(); }
  bool may_expire() const {
    i64 lo = INT64_MAX, hi = INT64_MIN;
    for (auto& c : h.calls) {
      lo = std::min(lo, c.cb);
      hi = std::max(hi, std::max(c.cb, c.ce));
    }
    return hi - lo + kSlack >= quo_x;
  }
  std::vector<int> quota_sends(const std::string& g) const {
    std::vector<int> r;
    for (size_t s = 0; s < h.sends.size(); s++)
      if (h.sends[s].kind == 'q' && si[s].direct < 0 && si[s].qkey == g) r.push_back((int)s);
    return r;
  }
  bool any_stall() const {
    auto it = h.faults.find("thread_stall");
    if (it != h.faults.end() && it->second) return true;
    for (auto& s : h.sends)
      if (s.out.stall) return true;
    return false;
  }

  // ------------------------------------------------------------------ rules
  void p01() {
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (!o.issued || o.p->kind == 's') continue;
      ob++;
      if (!o.returned) bad(opn((int)i) + " never returned");
      if (o.done.size() != 1) bad(opn((int)i) + " completed " + S(o.done.size()) + " times");
      if (o.done.empty()) continue;
      if (direct[i].empty()) {
        // answered locally: must not have to wait for anyone else
        if (o.done[0].fiber != call((int)i).fiber)
          bad(opn((int)i) + " needed no server answer but was completed by another thread");
      } else if (o.p->mode != 's') {
        bool ok = false;
        for (int s : direct[i])
          if (has_deliv(s) && o.done[0].seq > db(s)) ok = true;
        if (!ok) bad(opn((int)i) + " completed before the server's answer arrived");
        for (int s : direct[i])
          if (has_deliv(s) && o.done[0].seq > de(s)) bad(opn((int)i) + " completed only after its answer's delivery had returned");
      }
    }
  }
  void p02() {
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (!o.issued || o.p->kind == 's' || o.done.empty()) continue;
      ob++;
      const DoneRec& d = o.done[0];
      if (!valid[i]) {
        if (d.code != 3) bad(opn((int)i) + " is invalid but completed with code " + S(d.code));
        if (!direct[i].empty()) bad(opn((int)i) + " is invalid but was sent");
        if (d.body != o.before) bad(opn((int)i) + " is invalid but has an answer body");
        continue;
      }
      if (!direct[i].empty()) {
        if (direct[i].size() != 1) {
          bad(opn((int)i) + " was sent " + S(direct[i].size()) + " times");
          continue;
        }
        const Send& s = h.sends[direct[i][0]];
        std::string want = s.out.st ? "net " + s.tag : "";
        if (d.code != s.out.st || d.msg != want)
          bad(opn((int)i) + " completed with (" + S(d.code) + ",'" + d.msg + "'), transport said (" + S(s.out.st) + ",'" + want + "')");
        if (d.body != s.resp_body) bad(opn((int)i) + " answer body differs from the server's answer");
        if (s.req != verbatim((int)i)) bad(opn((int)i) + " was not forwarded verbatim");
        continue;
      }
      if (!cached[i]) {
        bad(opn((int)i) + " is not cacheable but was not sent");
        continue;
      }
      if (d.code != 0) bad(opn((int)i) + " answered locally with code " + S(d.code) + " '" + d.msg + "'");
      if (o.p->kind == 'r') {
        if (!d.body.empty()) bad(opn((int)i) + " accepted report has an answer body");
      } else {
        int w = tag_send(d.tag);
        if (w < 0 && (o.p->kind == 'c' || !d.body.empty()))
          bad(opn((int)i) + " answered with a body no server ever sent");
        else if (w >= 0 && (h.sends[w].kind != o.p->kind || h.sends[w].resp_body != d.body))
          bad(opn((int)i) + " answered with an altered copy of " + sdn(w));
      }
    }
  }
  void p03() {
    for (size_t i = 0; i < h.ops.size(); i++) {
      if (!check_hit((int)i)) continue;
      ob++;
      const OpRec& o = h.ops[i];
      int w = tag_send(o.done[0].tag);
      std::string g = gkey((int)i);
      auto W = check_writes(g);
      if (w < 0 || std::find(W.begin(), W.end(), w) == W.end()) {
        bad(opn((int)i) + " answered from the cache with '" + o.done[0].tag + "', not a successful answer for its key");
        continue;
      }
      if (db(w) > o.done[0].seq) bad(opn((int)i) + " answered with " + sdn(w) + " before it was delivered");
      for (int x : W)
        if (x != w && db(x) > wend(w) && wend(x) < call((int)i).b)
          bad(opn((int)i) + " answered with stale " + sdn(w) + ", superseded by " + sdn(x));
    }
    // reads must not go back in time
    for (size_t i = 0; i < h.ops.size(); i++) {
      if (!check_hit((int)i)) continue;
      for (size_t j = 0; j < h.ops.size(); j++) {
        if (i == j || !check_hit((int)j) || gkey((int)i) != gkey((int)j) || call((int)j).b < h.ops[i].done[0].seq) continue;
        int a = tag_send(h.ops[i].done[0].tag), b = tag_send(h.ops[j].done[0].tag);
        if (a < 0 || b < 0 || a == b) continue;
        ob++;
        if (wend(b) < db(a)) bad(opn((int)j) + " answered with " + sdn(b) + " after " + opn((int)i) + " had seen the newer " + sdn(a));
      }
    }
  }
  void p04() {
    for (size_t i = 0; i < h.ops.size(); i++) {
      if (!check_hit((int)i)) continue;
      ob++;
      const Call& c = call((int)i);
      std::string g = gkey((int)i);
      i64 best = INT64_MIN;
      auto W = check_writes(g);
      for (int w : W)
        if (db(w) < h.ops[i].done[0].seq) {
          const Call& dc = h.calls[h.sends[w].deliv];
          best = std::max(best, wend(w) < dc.e ? h.ops[si[w].direct].done[0].c : dc.ce);
        }
      // a refresh request re-arms the old answer while the new one is fetched
      for (size_t j = 0; j < h.ops.size(); j++) {
        if (!cached[j] || h.ops[j].p->kind != 'c' || gkey((int)j) != g) continue;
        for (int s : direct[j]) {
          if (h.sends[s].b > h.ops[i].done[0].seq) {
            // its send may still be ahead while the stamp was taken
            if (call((int)j).b > h.ops[i].done[0].seq) continue;
          }
          bool prior = false;
          for (int w : W)
            if (w != s && db(w) < h.sends[s].b) prior = true;
          if (prior) best = std::max(best, h.sends[s].cb);
        }
      }
      if (best <= c.cb - chk_f)
        bad(opn((int)i) + " answered from the cache although the answer was last confirmed or re-requested " +
            (best == INT64_MIN ? std::string("never") : S(c.cb - best) + " us ago") + " (limit " + S(chk_f) + ")");
    }
  }
  void p05() {
    if (N[0] <= 0) return;
    for (size_t i = 0; i < h.ops.size(); i++) {
      if (h.ops[i].p->kind != 'c' || !cached[i] || direct[i].empty()) continue;
      std::string g = gkey((int)i);
      const Send& m = h.sends[direct[i][0]];
      u64 inv = call((int)i).b;
      for (int w : check_writes(g)) {
        if (wend(w) >= inv) continue;
        if (other_check_keys(g, db(w), m.b) >= N[0]) continue;
        // earliest stamp any event concurrent with or later than w may have left
        i64 t = h.calls[h.sends[w].deliv].cb;
        for (int x : check_writes(g))
          if (de(x) > db(w) && db(x) < m.b) t = std::min(t, h.calls[h.sends[x].deliv].cb);
        for (size_t j = 0; j < h.ops.size(); j++)
          if (j != i && cached[j] && h.ops[j].p->kind == 'c' && gkey((int)j) == g)
            for (int s : direct[j])
              if (h.sends[s].b > db(w) && call((int)j).b < m.b) t = std::min(t, call((int)j).cb);
        if (m.cb - h.calls[h.sends[w].deliv].cb < chk_f && m.cb - t < chk_f) {
          ob++;
          bad(opn((int)i) + " was sent to the server " + S(m.cb - h.calls[h.sends[w].deliv].cb) + " us after " + sdn(w) +
              " answered its key (interval " + S(chk_f) + ")");
          break;
        }
      }
      // at most one refresh per interval
      for (size_t j = 0; j < h.ops.size(); j++) {
        if (j == i || !cached[j] || h.ops[j].p->kind != 'c' || gkey((int)j) != g || direct[j].empty()) continue;
        const Send& a = h.sends[direct[j][0]];
        // the earlier of the two first, or both at once
        if (a.b > m.b) continue;
        i64 lo = std::min(call((int)j).cb, call((int)i).cb);
        if (m.cb - lo >= chk_f) continue;
        for (int w : check_writes(g)) {
          if (wend(w) >= std::min(call((int)j).b, inv)) continue;
          i64 wcb = h.calls[h.sends[w].deliv].cb;
          if (a.b < inv ? a.cb - wcb >= chk_e : m.cb - wcb >= chk_e) continue;
          if (other_check_keys(g, db(w), m.b) >= N[0]) continue;
          ob++;
          bad(opn((int)i) + " asked the server although " + opn((int)j) + " had asked for the same cached key " +
              S(m.cb - call((int)j).cb) + " us before (interval " + S(chk_f) + ")");
          break;
        }
      }
    }
    for (size_t i = 0; i < h.ops.size(); i++)
      if (check_hit((int)i)) ob++;
  }
  void p06() {
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (!valid[i] || o.p->kind == 'q' || !any_hi(*o.p)) continue;
      ob++;
      if (direct[i].size() != 1) {
        bad(opn((int)i) + " is high importance and was sent " + S(direct[i].size()) + " times");
        continue;
      }
      int s = direct[i][0];
      if (!in_call(s, (int)i)) bad(opn((int)i) + " is high importance but was not sent during the call");
      if (h.sends[s].req != verbatim((int)i)) bad(opn((int)i) + " is high importance but was not sent verbatim");
      std::set<std::pair<std::string, int>> mine;
      for (size_t k = 0; k < o.p->subs.size(); k++) mine.insert({gkey((int)i, (int)k), dig[{(int)i, (int)k}]});
      for (size_t t = 0; t < h.sends.size(); t++) {
        if (!si[t].agg || h.sends[t].kind != o.p->kind) continue;
        for (auto& m : si[t].ops)
          for (auto& d : m)
            if (mine.count(d.first)) bad(opn((int)i) + " is high importance but was also merged into " + sdn((int)t));
      }
    }
  }
  // counts of every (group, digit) over aggregated sends of one kind
  std::map<std::pair<std::string, int>, int> agg_counts(char kind, u64 until = kOpen) const {
    std::map<std::pair<std::string, int>, int> n;
    for (size_t s = 0; s < h.sends.size(); s++)
      if (h.sends[s].kind == kind && si[s].agg && si[s].direct < 0 && h.sends[s].b < until)
        for (auto& m : si[s].ops)
          for (auto& d : m) n[d.first] += d.second;
    return n;
  }
  void reports_conserved(bool loss_only_shutdown) {
    auto n = agg_counts('r');
    std::map<std::string, int> logs;
    u64 dend = destroy_end();
    for (auto& s : h.sends) {
      if (!s.rr) continue;
      for (auto& o : s.rr->operations())
        for (auto& l : o.log_entries()) logs[l.name()]++;
    }
    bool lossy = lossy_shutdown() || !global_transport('r');
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (o.p->kind != 'r' || !o.issued) continue;
      bool accepted = valid[i] && cached[i] && direct[i].empty();
      for (size_t k = 0; k < o.p->subs.size(); k++) {
        ob++;
        int c = n[{gkey((int)i, (int)k), dig[{(int)i, (int)k}]}];
        int dl = 0;
        for (int s : direct[i]) {
          (void)s;
          dl++;
        }
        int want = valid[i] ? 1 : 0;
        int got = c + dl;
        std::string nm = opn((int)i) + "." + S((i64)k);
        if (got > want) bad(nm + " was reported " + S(got) + " times, expected " + S(want));
        if (got < want && !(lossy && accepted)) bad(nm + " was never reported");
        for (int l = 0; l < o.p->subs[k].logs; l++) {
          int lc = logs["L" + S(o.p->id) + "." + S((i64)k) + "." + S(l)];
          if (lc > want) {
            bad(nm + " log entry " + S(l) + " was reported " + S(lc) + " times");
            break;
          }
          if (lc < want && !(lossy && accepted)) {
            bad(nm + " log entry " + S(l) + " was never reported");
            break;
          }
        }
      }
    }
    for (auto& x : n)
      if (!undig.count(x.first)) bad("a flushed report carries an amount nobody reported (" + x.first.first + " digit " + S(x.first.second) + ")");
    if (!loss_only_shutdown) return;
    for (size_t s = 0; s < h.sends.size(); s++)
      if (h.sends[s].kind == 'r' && h.sends[s].b > dend) bad(sdn((int)s) + " was sent after destruction had returned");
  }
  void p07() { reports_conserved(true); }
  void p08() {
    if (N[2] > 0 && p.get("timer", 1)) {
      ob++;
      i64 iv = p.get("rep_f", 1000);
      if (iv > 0 && h.timer_created != 1) bad("flush timer created " + S(h.timer_created) + " times");
      else if (h.timer_interval > (iv > 0 ? iv : 1)) bad("flush timer runs every " + S(h.timer_interval) + " ms, slower than the report interval " + S(iv));
    }
    if (!global_transport('r')) return;
    // first send of each (group, digit)
    std::map<std::pair<std::string, int>, u64> first;
    for (size_t s = 0; s < h.sends.size(); s++)
      if (h.sends[s].kind == 'r' && si[s].agg)
        for (auto& m : si[s].ops)
          for (auto& d : m)
            if (!first.count(d.first)) first[d.first] = h.sends[s].b;
    auto T = ticks();
    for (size_t i = 0; i < h.ops.size(); i++) {
      if (h.ops[i].p->kind != 'r' || !cached[i] || !h.ops[i].returned || !direct[i].empty()) continue;
      const Call& c = call((int)i);
      for (const Call* t : T) {
        if (t->b < c.e || t->cb - c.ce < rep_f + kSlack || t->e == kOpen) continue;
        if (h.destroy_call >= 0 && t->e > h.calls[h.destroy_call].b) break;
        ob++;
        u64 lim = overlap_end(*t);
        for (size_t k = 0; k < h.ops[i].p->subs.size(); k++) {
          auto it = first.find({gkey((int)i, (int)k), dig[{(int)i, (int)k}]});
          if (it == first.end() || it->second > lim)
            bad(opn((int)i) + " was still unsent after a timer tick " + S(t->cb - c.ce) + " us after it was accepted (interval " + S(rep_f) + ")");
        }
        break;
      }
    }
  }

  // -------------------------------------------------- aggregation content
  typedef sc::MetricValue MV;
  static bool before(const ::google::protobuf::Timestamp& a, const ::google::protobuf::Timestamp& b) {
    return a.seconds() < b.seconds() || (a.seconds() == b.seconds() && a.nanos() < b.nanos());
  }
  template <class A>
  static void span(const A& from, A* to) {
    if (from.has_start_time() && (!to->has_start_time() || before(from.start_time(), to->start_time()))) *to->mutable_start_time() = from.start_time();
    if (from.has_end_time() && (!to->has_end_time() || before(to->end_time(), from.end_time()))) *to->mutable_end_time() = from.end_time();
  }
  static bool close(double a, double b) { return a == b || fabs(a - b) <= 1e-6 * (fabs(a) + fabs(b) + 1e-3); }
  static void merge_mv(const MV& f, MV* t) {
    span(f, t);
    if (f.value_case() == MV::kInt64Value) t->set_int64_value(t->int64_value() + f.int64_value());
    else if (f.value_case() == MV::kDoubleValue) t->set_double_value(t->double_value() + f.double_value());
    else if (f.value_case() == MV::kDistributionValue) {
      auto& a = f.distribution_value();
      auto* b = t->mutable_distribution_value();
      double na = (double)a.count(), nb = (double)b->count();
      if (na == 0) return;
      if (nb == 0) { *b = a; return; }
      double d = a.mean() - b->mean();
      double mean = (na * a.mean() + nb * b->mean()) / (na + nb);
      double ssd = a.sum_of_squared_deviation() + b->sum_of_squared_deviation() + d * d * na * nb / (na + nb);
      b->set_count(b->count() + a.count());
      b->set_mean(mean);
      b->set_sum_of_squared_deviation(ssd);
      b->set_minimum(std::min(b->minimum(), a.minimum()));
      b->set_maximum(std::max(b->maximum(), a.maximum()));
      for (int i = 0; i < a.bucket_counts_size(); i++) b->set_bucket_counts(i, b->bucket_counts(i) + a.bucket_counts(i));
    }
  }
  // checks one flushed operation against its constituents; "" when right
  std::string content(const sc::Operation& got, const std::vector<std::pair<int, int>>& cons, char kind) {
    sc::Operation base, times;
    std::map<std::string, std::map<std::string, MV>> want;
    // gauges and cumulative metrics: every reported value with its (op, sub)
    struct Cand { MV v; int op, sub; };
    std::map<std::string, std::map<std::string, std::vector<Cand>>> latest;
    std::multiset<std::string> wl, gl;
    bool idok = false;
    bool kinds = p.get("kinds", 1) != 0;
    for (size_t n = 0; n < cons.size(); n++) {
      sc::Operation o;
      fill_operation(*h.ops[cons[n].first].p, cons[n].second, dig[cons[n]], kind, &o);
      if (o.operation_id() == got.operation_id()) idok = true;
      if (n == 0) base = o;
      span(o, &times);
      for (auto& s : o.metric_value_sets())
        for (auto& v : s.metric_values()) {
          auto& slot = want[s.metric_name()];
          std::string l = lab(v.labels());
          bool last = kinds && (s.metric_name() == "m/gauge" || s.metric_name() == "m/cum");
          if (last) latest[s.metric_name()][l].push_back({v, cons[n].first, cons[n].second});
          if (!slot.count(l)) slot[l] = v;
          else if (!last) merge_mv(v, &slot[l]);
        }
      for (auto& l : o.log_entries()) wl.insert(ser(l));
    }
    if (!idok) return "operation id is not one of the merged operations'";
    for (auto& l : got.log_entries()) gl.insert(ser(l));
    if (wl != gl) return "log entries are not the union of the merged operations' (" + S(gl.size()) + " vs " + S(wl.size()) + ")";
    if (got.has_start_time() != times.has_start_time() || got.has_end_time() != times.has_end_time() ||
        ser(got.start_time()) != ser(times.start_time()) || ser(got.end_time()) != ser(times.end_time()))
      return "operation time span is not the union of the merged operations'";
    std::map<std::string, std::map<std::string, MV>> have;
    for (auto& s : got.metric_value_sets())
      for (auto& v : s.metric_values()) {
        if (have[s.metric_name()].count(lab(v.labels()))) return "metric " + s.metric_name() + " has two values with the same labels";
        have[s.metric_name()][lab(v.labels())] = v;
      }
    if (have.size() != want.size()) return "set of metrics differs";
    for (auto& m : want) {
      auto it = have.find(m.first);
      if (it == have.end()) return "metric " + m.first + " is missing";
      if (it->second.size() != m.second.size()) return "metric " + m.first + " has the wrong number of labelled values";
      for (auto& v : m.second) {
        auto jt = it->second.find(v.first);
        if (jt == it->second.end()) return "metric " + m.first + " misses labels " + v.first;
        MV a = v.second, b = jt->second;
        if (latest.count(m.first)) {
          // the latest end time wins; among equal ones the value reported last
          auto& cs = latest[m.first][v.first];
          bool ok = false;
          std::string exp;
          for (auto& x : cs) {
            bool beaten = false;
            for (auto& y : cs) {
              if (before(x.v.end_time(), y.v.end_time())) beaten = true;
              else if (!before(y.v.end_time(), x.v.end_time()) &&
                       (x.op == y.op ? y.sub > x.sub : call(y.op).b > call(x.op).e)) beaten = true;
            }
            if (beaten) continue;
            exp += (exp.empty() ? "" : " or ") + x.v.ShortDebugString();
            if (ser(x.v) == ser(b)) ok = true;
          }
          if (!ok) return "metric " + m.first + " value " + b.ShortDebugString() + " expected " + exp;
          continue;
        }
        if (a.value_case() == MV::kDistributionValue && b.value_case() == MV::kDistributionValue) {
          auto* x = a.mutable_distribution_value();
          auto* y = b.mutable_distribution_value();
          if (!close(x->mean(), y->mean())) return "metric " + m.first + " mean " + std::to_string(y->mean()) + " expected " + std::to_string(x->mean());
          if (!close(x->sum_of_squared_deviation(), y->sum_of_squared_deviation()))
            return "metric " + m.first + " variance sum " + std::to_string(y->sum_of_squared_deviation()) + " expected " + std::to_string(x->sum_of_squared_deviation());
          x->clear_mean(); y->clear_mean();
          x->clear_sum_of_squared_deviation(); y->clear_sum_of_squared_deviation();
        }
        if (ser(a) != ser(b)) return "metric " + m.first + " value " + b.ShortDebugString() + " expected " + a.ShortDebugString();
      }
    }
    sc::Operation g = got;
    for (auto* o : {&g, &base}) {
      o->clear_operation_id();
      o->clear_metric_value_sets();
      o->clear_log_entries();
      o->clear_start_time();
      o->clear_end_time();
    }
    if (ser(g) != ser(base)) return "operation fields differ from the merged operations'";
    return "";
  }
  bool constituents(const std::map<std::pair<std::string, int>, int>& m, std::vector<std::pair<int, int>>* out, std::string* err) {
    for (auto& d : m) {
      auto it = undig.find(d.first);
      if (it == undig.end() || d.second != 1) {
        *err = "amounts do not add up from the operations of its key";
        return false;
      }
      out->push_back(it->second);
    }
    if (out->empty()) {
      *err = "carries no operation's amount";
      return false;
    }
    return true;
  }
  int report_keys() const {
    std::set<std::string> k;
    for (size_t i = 0; i < h.ops.size(); i++)
      if (cached[i] && h.ops[i].p->kind == 'r')
        for (size_t s = 0; s < h.ops[i].p->subs.size(); s++) k.insert(gkey((int)i, (int)s));
    return (int)k.size();
  }
  void p09() {
    std::map<std::pair<int, std::string>, int> per_call;
    for (size_t s = 0; s < h.sends.size(); s++) {
      const Send& x = h.sends[s];
      if (x.kind != 'r' || si[s].direct >= 0) continue;
      ob++;
      std::string nm = sdn((int)s);
      if (!si[s].agg || x.rr->service_name() != kService || x.rr->service_config_id() != kConfigId)
        bad(nm + " flushed under service '" + x.rr->service_name() + "' config '" + x.rr->service_config_id() + "'");
      if (x.rr->operations_size() == 0 || x.rr->operations_size() > 10) bad(nm + " carries " + S(x.rr->operations_size()) + " operations");
      const Call* c = x.call >= 0 ? &h.calls[x.call] : nullptr;
      for (int k = 0; k < x.rr->operations_size(); k++) {
        std::vector<std::pair<int, int>> cons;
        std::string err;
        if (!constituents(si[s].ops[k], &cons, &err)) {
          bad(nm + " operation " + S(k) + " " + err);
          continue;
        }
        err = content(x.rr->operations(k), cons, 'r');
        if (!err.empty()) bad(nm + " operation " + S(k) + " (" + S(cons.size()) + " merged): " + err);
        int tot = 0;
        i64 oldest = INT64_MAX;
        for (auto& q : cons) {
          int l = h.ops[q.first].p->subs[q.second].logs;
          tot += l;
          oldest = std::min(oldest, call(q.first).cb);
        }
// an operation created with 100 entries takes one more before it is noticed
        if (cons.size() > 2) {
          bool fine = false;
          for (auto& l : cons) {  // some operation that can have been the last
            bool last = true;
            for (auto& q : cons)
              if (l.first == q.first ? q.second > l.second : call(l.first).e < call(q.first).b) last = false;
            if (last && tot - h.ops[l.first].p->subs[l.second].logs < 100) fine = true;
          }
          if (!fine) bad(nm + " operation " + S(k) + " kept merging past 100 log entries (" + S(tot) + ")");
        }
        if (c && (c->type == kCallTick || c->type == kCallDestroy) && ++per_call[{x.call, si[s].okeys[k]}] > 1)
          bad(nm + " operation " + S(k) + " is the second for its key in one flush");
        if (c && c->type != kCallDestroy && tot < 100 && report_keys() <= N[2] && x.cb - oldest + kSlack < rep_f)
          bad(nm + " operation " + S(k) + " was flushed " + S(x.cb - oldest) + " us after its first report, with " + S(tot) +
              " log entries and no capacity pressure");
      }
    }
  }
  void p31() {
    for (size_t s = 0; s < h.sends.size(); s++) {
      const Send& x = h.sends[s];
      if (x.kind != 'r') continue;
      for (int k = 0; k < x.rr->operations_size(); k++) {
        std::vector<std::pair<int, int>> cons;
        std::string err;
        if (!constituents(si[s].ops[k], &cons, &err)) {
          bad(sdn((int)s) + " operation " + S(k) + " " + err);
          continue;
        }
        ob++;
        std::vector<std::pair<const POp*, int>> c;
        for (auto& q : cons) c.push_back({h.ops[q.first].p, q.second});
        err = dist_judge(p, c, x.rr->operations(k));
        if (!err.empty()) bad(sdn((int)s) + " operation " + S(k) + " (" + S(cons.size()) + " merged): " + err);
      }
    }
  }
  void p10() {
    if (N[0] <= 0) return;
    if (p.get("timer", 1)) {
      ob++;
      if (h.timer_created == 1 && h.timer_interval > p.get("chk_e", 1000) && h.timer_interval > p.get("chk_f", 500) + 1)
        bad("timer interval " + S(h.timer_interval) + " ms is longer than the check expiration");
      if (h.timer_created != 1) bad("flush timer created " + S(h.timer_created) + " times");
    }
    auto n = agg_counts('c');
    bool lossy = lossy_shutdown() || !global_transport('c');
    const Call* dc = h.destroy_call >= 0 ? &h.calls[h.destroy_call] : nullptr;
    for (size_t s = 0; s < h.sends.size(); s++)
      if (h.sends[s].kind == 'c' && has_deliv((int)s) && dc && overlap(h.calls[h.sends[s].deliv], *dc)) lossy = true;
    std::map<std::pair<std::string, int>, u64> first;
    for (size_t s = 0; s < h.sends.size(); s++) {
      const Send& x = h.sends[s];
      if (x.kind != 'c' || si[s].direct >= 0) continue;
      ob++;
      for (auto& d : si[s].ops[0])
        if (!first.count(d.first)) first[d.first] = x.b;
      if (!si[s].agg || x.cr->service_name() != kService || x.cr->service_config_id() != kConfigId)
        bad(sdn((int)s) + " flushed under service '" + x.cr->service_name() + "' config '" + x.cr->service_config_id() + "'");
      std::vector<std::pair<int, int>> cons;
      std::string err;
      if (!constituents(si[s].ops[0], &cons, &err)) {
        bad(sdn((int)s) + " " + err);
        continue;
      }
      err = content(x.cr->operation(), cons, 'c');
      if (!err.empty()) bad(sdn((int)s) + " (" + S(cons.size()) + " merged): " + err);
    }
    auto T = ticks();
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (o.p->kind != 'c' || !o.issued || o.p->subs.empty() || o.done.empty()) continue;
      int c = n[{gkey((int)i), dig[{(int)i, 0}]}];
      if (c > 1) bad(opn((int)i) + " was flushed " + S(c) + " times");
      if (!check_hit((int)i)) {
        if (c && !cached[i]) bad(opn((int)i) + " was never held by the cache but was flushed");
        continue;
      }
      ob++;
      if (o.done[0].deny) {
        if (c) bad(opn((int)i) + " was denied from the cache but flushed as consumption");
        continue;
      }
      if (!c && !lossy) bad(opn((int)i) + " passed from the cache but its operation never reached the server");
      if (lossy) continue;
      // idle longer than the expiration at a tick: must be flushed by then
      const Call& ic = call((int)i);
      for (const Call* t : T) {
        if (t->b < ic.e || t->cb - ic.ce < chk_e + kSlack || t->e == kOpen) continue;
        if (dc && t->e > dc->b) break;
        bool busy = false;
        for (size_t j = 0; j < h.ops.size(); j++) {
          if (j == i || h.ops[j].p->kind != 'c' || !valid[j] || gkey((int)j) != gkey((int)i)) continue;
          if (call((int)j).e > ic.b && call((int)j).b < t->e) busy = true;
          for (int s : direct[j])
            if (has_deliv(s) && de(s) > ic.b && db(s) < t->e) busy = true;
        }
        if (busy) break;
        auto it = first.find({gkey((int)i), dig[{(int)i, 0}]});
        if (it == first.end() || it->second > overlap_end(*t))
          bad(opn((int)i) + " passed from the cache, its key then stayed idle past the expiration, and a tick did not flush it");
        break;
      }
    }
  }
  void p11() {
    if (N[1] <= 0) return;
    const bool drop = may_drop(), over = quota_keys() > N[1];
    std::set<std::string> keys;
    for (size_t i = 0; i < h.ops.size(); i++)
      if (cached[i] && h.ops[i].p->kind == 'q') keys.insert(gkey((int)i));
    bool stall = any_stall();
    for (size_t i = 0; i < h.ops.size(); i++) {
      if (!cached[i] || h.ops[i].p->kind != 'q' || !h.ops[i].returned) continue;
      ob++;
      if (!direct[i].empty()) bad(opn((int)i) + " had to wait for the server");
      i64 spin = h.spins ? 20000 : 0;  // waiting for a lock by spinning takes simulated time
      if (!stall && h.ops[i].p->mode != 's' && call((int)i).te - call((int)i).tb > spin) bad(opn((int)i) + " blocked for " + S(call((int)i).te - call((int)i).tb) + " us");
      if (!stall && !h.ops[i].done.empty() && h.ops[i].done[0].t - call((int)i).tb > spin) bad(opn((int)i) + " was answered " + S(h.ops[i].done[0].t - call((int)i).tb) + " us late");
    }
    if (!global_transport('q')) return;
    for (auto& g : keys) {
      auto Q = quota_sends(g);
      if (!over)
        for (int a : Q)
          for (int b : Q)
            if (h.sends[a].b < h.sends[b].b && db(a) > h.sends[b].b) {
              // unless the key's entry expired in between, or the answer to an even earlier entry's request
              // was taken for this one's
              if (drop) {
                if (!p.jumps.empty() || scall(b).ce - scall(a).cb + kSlack >= quo_x) continue;
                bool earlier = false;
                for (int z : Q)
                  if (h.sends[z].b < h.sends[a].b && de(z) > scall(a).b) earlier = true;
                if (earlier) continue;
              }
              bad(sdn(b) + " asked for " + g + " while " + sdn(a) + " was still outstanding");
              goto next;
            }
    next:
      // the first request of a key asks the server before it returns
      int f = -1;
      for (size_t i = 0; i < h.ops.size(); i++)
        if (cached[i] && h.ops[i].p->kind == 'q' && gkey((int)i) == g && (f < 0 || call((int)i).b < call(f).b)) f = (int)i;
      if (f < 0 || !h.ops[f].returned) continue;
      u64 lim = call(f).e;
      for (size_t i = 0; i < h.ops.size(); i++)
        if (cached[i] && h.ops[i].p->kind == 'q' && gkey((int)i) == g && overlap(call((int)i), call(f))) lim = std::max(lim, call((int)i).e);
      ob++;
      bool asked = false;
      for (int s : Q)
        if (h.sends[s].b < lim && !si[s].agg) asked = true;
      if (!asked) bad(opn(f) + " is the first for its key but nobody asked the server");
    }
  }
  void p12() {
    if (N[1] <= 0 || !global_transport('q')) return;
    if (p.get("timer", 1)) {
      ob++;
      if (h.timer_created == 1 && h.timer_interval > std::max<int64_t>(1, p.get("quo_r", 1000))) bad("timer interval " + S(h.timer_interval) + " ms is longer than the quota refresh interval");
    }
    bool drop = may_drop(), expires = may_expire();
    auto n = agg_counts('q');
    for (auto& x : n) {
      if (!undig.count(x.first)) bad("a quota refresh carries an amount nobody asked for (" + x.first.first + ")");
    }
    std::map<int, int> verb;  // op index -> verbatim sends
    std::map<std::pair<std::string, int>, int> first;
    std::set<std::string> keys;
    for (size_t s = 0; s < h.sends.size(); s++) {
      const Send& x = h.sends[s];
      if (x.kind != 'q' || si[s].direct >= 0) continue;
      ob++;
      if (si[s].agg) {
        for (auto& d : si[s].ops[0])
          if (!first.count(d.first)) first[d.first] = (int)s;
        if (x.qr->service_name() != kService || x.qr->service_config_id() != kConfigId) bad(sdn((int)s) + " has the wrong service or config id");
        // every metric must carry the same set of amounts, and only those of its key
        std::map<std::string, i64> sums, want;
        for (auto& ms : x.qr->allocate_operation().quota_metrics())
          for (auto& v : ms.metric_values()) sums[ms.metric_name()] += v.int64_value();
        std::map<std::string, sc::MetricValue> span;
        std::set<std::string> rest;
        bool unknown = false;
        for (auto& d : si[s].ops[0]) {
          auto it = undig.find(d.first);
          if (it == undig.end() || d.second != 1) { unknown = true; continue; }
          sc::AllocateQuotaRequest r;
          fill_quota(*h.ops[it->second.first].p, d.first.second, &r);
          for (auto& ms : r.allocate_operation().quota_metrics()) {
            const auto& v = ms.metric_values(0);
            want[ms.metric_name()] += v.int64_value();
            auto& sp = span[ms.metric_name()];
            if (v.has_start_time() && (!sp.has_start_time() || before(v.start_time(), sp.start_time()))) *sp.mutable_start_time() = v.start_time();
            if (v.has_end_time() && (!sp.has_end_time() || before(sp.end_time(), v.end_time()))) *sp.mutable_end_time() = v.end_time();
          }
          r.mutable_allocate_operation()->clear_quota_metrics();
          r.mutable_allocate_operation()->clear_quota_mode();
          rest.insert(ser(r.allocate_operation()));
        }
        if (unknown || sums != want) bad(sdn((int)s) + " amounts do not add up from the operations of its key");
        else if (!si[s].ops[0].empty()) {
          // the time span of every metric covers exactly the merged ones
          std::map<std::string, sc::MetricValue> got;
          for (auto& ms : x.qr->allocate_operation().quota_metrics())
            for (auto& v : ms.metric_values()) {
              auto& sp = got[ms.metric_name()];
              if (v.has_start_time() && (!sp.has_start_time() || before(v.start_time(), sp.start_time()))) *sp.mutable_start_time() = v.start_time();
              if (v.has_end_time() && (!sp.has_end_time() || before(sp.end_time(), v.end_time()))) *sp.mutable_end_time() = v.end_time();
            }
          for (auto& w : span)
            if (ser(w.second) != ser(got[w.first]))
              bad(sdn((int)s) + " metric " + w.first + " spans " + got[w.first].ShortDebugString() + " instead of " + w.second.ShortDebugString());
          auto q = x.qr->allocate_operation();
          q.clear_quota_metrics();
          q.clear_quota_mode();
          if (!rest.count(ser(q))) bad(sdn((int)s) + " operation fields are not those of a merged request");
        }
        if (si[s].ops[0].empty()) bad(sdn((int)s) + " asks for nothing");
      } else {
        int op = opidx.count(si[s].token) ? opidx[si[s].token] : -1;
        if (op < 0) { bad(sdn((int)s) + " is not anybody's request"); continue; }
        verb[op]++;
        sc::AllocateQuotaRequest a(*x.qr), b;
        fill_quota(*h.ops[op].p, dig[{op, 0}], &b);
        a.mutable_allocate_operation()->clear_quota_mode();
        b.mutable_allocate_operation()->clear_quota_mode();
        if (ser(a) != ser(b)) bad(sdn((int)s) + " is an altered copy of " + opn(op));
      }
      keys.insert(si[s].qkey);
    }
    const Call* dc = h.destroy_call >= 0 ? &h.calls[h.destroy_call] : nullptr;
    auto T = ticks();
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (o.p->kind != 'q' || !o.issued || o.p->subs.empty() || o.done.empty()) continue;
      std::string g = gkey((int)i);
      std::pair<std::string, int> me = {g, dig[{(int)i, 0}]};
      int c = n.count(me) ? n[me] : 0;
      ob++;
      if (c > 1) bad(opn((int)i) + " was charged " + S(c) + " times");
      if (!cached[i]) {
        if (c) bad(opn((int)i) + " never entered the quota cache but was charged by a refresh");
        continue;
      }
      if (o.done[0].deny && c) bad(opn((int)i) + " was denied but its amount was charged");
      if (o.done[0].deny || o.done[0].code) continue;
      if (verb.count((int)i)) {
        if (c) bad(opn((int)i) + " was sent verbatim and charged again by a refresh");
        continue;
      }
      const Call& ic = call((int)i);
      auto Q = quota_sends(g);
      u64 mine = first.count(me) ? h.sends[first[me]].b : kOpen;
      // the next refresh whose content was fixed after this request must carry it,
      // unless the server said no in between
      auto denied_until = [&](u64 lim) {
        for (int s : Q)
          if (h.sends[s].deny && h.sends[s].out.st == 0 && has_deliv(s) && de(s) > ic.b && db(s) < lim) return true;
        return false;
      };
      // while it cannot have expired yet, what was granted is not lost
      const bool soft = expires && quota_keys() <= N[1] && p.jumps.empty();
      i64 fresh = INT64_MIN;  // the key's entry was last asked for at this time or later
      for (int s : Q)
        if (h.sends[s].b < ic.b) fresh = std::max(fresh, scall(s).cb);
      auto alive = [&](i64 clock) { return !drop || (fresh != INT64_MIN && clock - fresh + kSlack < quo_x); };
      if (drop && !soft) {
        // when the key starts over its earlier entry was evicted, which hands in its amounts
        if (expires) continue;
        for (size_t j = 0; j < h.ops.size(); j++) {
          if (h.ops[j].p->kind != 'q' || !cached[j] || !h.ops[j].returned || call((int)j).b < ic.e || gkey((int)j) != g) continue;
          bool anew = false;
          for (int s : Q)
            if (!si[s].agg && si[s].token == h.ops[j].p->id && in_call(s, (int)j)) anew = true;
          u64 lim = overlap_end(call((int)j));
          if (!anew || denied_until(lim)) continue;
          ob++;
          if (mine > lim && !shutdown_drop(lim)) bad(opn((int)i) + " was granted locally, its key was evicted before " + opn((int)j) + ", but its amount was not sent");
        }
        continue;
      }
      for (int s : Q) {
        if (scall(s).b < ic.e || (dc && h.sends[s].b > dc->b)) continue;
        if (!alive(scall(s).ce) || denied_until(h.sends[s].b)) break;
        ob++;
        // an earlier-extracted but later-sent request may hold it
        u64 lim = overlap_end(scall(s));
        if (mine > lim && !shutdown_drop(h.sends[s].b)) bad(opn((int)i) + " was granted locally but the next refresh " + sdn(s) + " does not carry its amount");
        break;
      }
      // and a refresh must happen within two intervals of ticks
      const Call* t1 = nullptr;
      for (const Call* t : T) {
        if (t->e == kOpen || (dc && t->e > dc->b)) break;
        if (!t1) {
          if (t->b > ic.e) t1 = t;
          continue;
        }
        if (t->cb - t1->ce < quo_r + kSlack) continue;
        bool outst = false;
        for (int s : Q)
          if (scall(s).b < t->e && de(s) > t1->b && mine != h.sends[s].b) outst = true;
        if (outst || !alive(t->ce) || denied_until(t->e)) break;
        ob++;
        if (mine > overlap_end(*t) && !shutdown_drop(t->e)) bad(opn((int)i) + " was granted locally but its amount was not sent although the refresh interval passed twice");
        break;
      }
    }
  }
  struct QW { u64 b, e; int s; bool deny; std::string tag; };
  std::vector<QW> quota_writes(const std::string& g) const {
    std::vector<QW> w;
    for (int s : quota_sends(g))
      if (has_deliv(s)) w.push_back({db(s), de(s), s, h.sends[s].out.st == 0 && h.sends[s].deny, h.sends[s].out.st == 0 ? h.sends[s].tag : ""});
    return w;
  }

  void p13() {
    if (N[1] <= 0 || !global_transport('q')) return;
    bool drop = may_drop();
    bool back = false;
    for (auto& j : p.jumps) back |= j.second < 0;
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (o.p->kind != 'q' || !cached[i] || o.done.empty()) continue;
      std::string g = gkey((int)i);
      const Call& ic = call((int)i);
      auto W = quota_writes(g);
      ob++;
      const std::string& tag = o.done[0].tag;
      auto superseded = [&](const QW& w) {
        for (auto& x : W)
          if (x.s != w.s && x.b > w.e && x.e < ic.b) return true;
        return false;
      };
      bool ok = false;
      for (auto& w : W)
        if (w.tag == tag && w.b < o.done[0].seq && !superseded(w)) ok = true;
      if (tag.empty() && !ok) {
        if (o.done[0].deny) { bad(opn((int)i) + " was denied by nobody"); continue; }
        ok = drop;
        bool later = false;
        for (auto& w : W)
          if (w.e < ic.b) later = true;
        if (!later) ok = true;
      }
      if (!ok) bad(opn((int)i) + " was answered with verdict '" + tag + "', not the latest one delivered for its key");
      // must ask again once the interval has passed and nothing is outstanding
      i64 last = INT64_MIN;
      bool outst = false, known = false;
      auto Q = quota_sends(g);
      for (int s : Q) {
        if (scall(s).b < ic.b && !(h.sends[s].b < ic.b)) outst = true;  // about to be sent
        if (h.sends[s].b < ic.b) {
          known = true;
          last = std::max(last, h.sends[s].cb);
          if (de(s) > ic.b) outst = true;
        }
      }
      if (!known || outst || ic.cb - last < quo_r || shutdown_drop(ic.b)) continue;
      ob++;
      u64 lim = overlap_end(ic);
      bool asked = false;
      for (int s : Q)
        if (h.sends[s].b > ic.b && h.sends[s].b < lim) asked = true;
      // what has not been refreshed for the expiration interval is forgotten
      if (!back && !any_stall() && ic.cb - last >= quo_x + quo_r + kSlack) {
        bool anew = false, other = false;
        for (int s : Q) {
          if (!(h.sends[s].b > ic.b && h.sends[s].b < lim)) continue;
          if (!si[s].agg && si[s].token == o.p->id) anew = true;
        }
        for (size_t j = 0; j < h.ops.size(); j++)
          if (j != i && h.ops[j].p->kind == 'q' && h.ops[j].issued && call((int)j).b < ic.e && call((int)j).e > ic.b && gkey((int)j) == g) other = true;
        ob++;
        if (!other && (!anew || o.done[0].deny || !tag.empty()))
          bad(opn((int)i) + " came " + S(ic.cb - last) + " us after the last request for its key (expiration " + S(quo_x) + ") but " + (anew ? "was answered with the forgotten verdict '" + tag + "'" : "did not start the key anew"));
      }
      if (!asked) bad(opn((int)i) + " came " + S(ic.cb - last) + " us after the last request for its key (interval " + S(quo_r) + ") but did not make the client ask again");
    }
    // mode of refreshes and pace of refreshes triggered by requests
    std::set<std::string> keys;
    for (size_t s = 0; s < h.sends.size(); s++)
      if (h.sends[s].kind == 'q' && si[s].direct < 0) keys.insert(si[s].qkey);
    for (auto& g : keys) {
      auto Q = quota_sends(g);
      auto W = quota_writes(g);
      for (int s : Q) {
        auto mode = h.sends[s].qr->allocate_operation().quota_mode();
        bool normal = mode == sc::QuotaOperation::NORMAL;
        bool own = false;  // the mode of a request it stands for
        if (si[s].agg) {
          for (auto& d : si[s].ops[0]) {
            auto it = undig.find(d.first);
            if (it != undig.end() && quota_mode_of(*h.ops[it->second.first].p) == mode) own = true;
          }
        } else if (opidx.count(si[s].token)) {
          own = quota_mode_of(*h.ops[opidx[si[s].token]].p) == mode;
        }
        u64 b = scall(s).b, e = h.sends[s].b;
        bool can_neg = false, can_pos = drop;
        bool any_before = false;
        for (auto& w : W) {
          if (w.b > e) continue;
          if (w.e < b) any_before = true;
          bool sup = false;
          for (auto& x : W)
            if (x.s != w.s && x.b > w.e && x.e < b) sup = true;
          if (sup) continue;
          if (w.deny) can_neg = true;
          else can_pos = true;
        }
        if (!any_before) can_pos = true;
        ob++;
        if (!can_pos && !normal) bad(sdn(s) + " probes a denied key without demanding the full amount");
        if (!can_neg && !own) bad(sdn(s) + (normal ? " uses the denied-key mode although the key was never denied" : " uses another mode than the requests it stands for"));
        if (!normal && !own) bad(sdn(s) + " uses another mode than the requests it stands for");
      }
      // Asks come from the refresh age and from the re-insertion age; each is spaced by the interval, so three
      // asks of one key never fit into one interval.
      if (drop || back) continue;
      std::vector<int> o(Q.begin(), Q.end());
      std::sort(o.begin(), o.end(), [&](int a, int c) { return h.sends[a].cb < h.sends[c].cb; });
      for (size_t i = 2; i < o.size(); i++) {
        i64 lo = std::min(scall(o[i]).cb, std::min(scall(o[i - 1]).cb, scall(o[i - 2]).cb));
        ob++;
        if (h.sends[o[i]].cb - lo + kSlack < quo_r)
          bad(sdn(o[i]) + " is the third ask of one key within " + S(h.sends[o[i]].cb - lo) + " us (interval " + S(quo_r) + ")");
      }
    }
  }
  void p14() {
    if (N[1] <= 0 || !global_transport('q')) return;
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (o.p->kind != 'q' || !cached[i] || o.done.empty()) continue;
      std::string g = gkey((int)i);
      const Call& ic = call((int)i);
      if (o.done[0].code) bad(opn((int)i) + " failed with code " + S(o.done[0].code) + " instead of failing open");
      auto Q = quota_sends(g);
      int f = -1;
      for (int s : Q)
        if (h.sends[s].out.st && de(s) < ic.b && (f < 0 || db(s) > db(f))) f = s;
      if (f < 0) continue;
      ob++;
      if (o.done[0].deny) {
        bool later = false;
        for (int s : Q)
          if (s != f && h.sends[s].out.st == 0 && h.sends[s].deny && db(s) < o.done[0].seq && de(s) > db(f)) later = true;
        if (!later) bad(opn((int)i) + " was denied after the quota server failed (" + sdn(f) + ") and no denial arrived since");
      }
      // recovery
      i64 last = INT64_MIN;
      bool outst = false;
      for (int s : Q) {
        if (scall(s).b < ic.b && !(h.sends[s].b < ic.b)) outst = true;
        if (h.sends[s].b < ic.b) {
          last = std::max(last, h.sends[s].cb);
          if (de(s) > ic.b) outst = true;
        }
      }
      if (outst || ic.cb - last < quo_r || shutdown_drop(ic.b)) continue;
      ob++;
      bool asked = false;
      for (int s : Q)
        if (h.sends[s].b > ic.b && h.sends[s].b < overlap_end(ic)) asked = true;
      if (!asked) bad(opn((int)i) + " did not make the client ask the quota server again after " + sdn(f) + " failed");
    }
  }
  void p15() {
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (!valid[i] || N[ki(o.p->kind)] > 0) continue;
      ob++;
      if (direct[i].size() != 1) { bad(opn((int)i) + " was sent " + S(direct[i].size()) + " times with caching disabled"); continue; }
      int s = direct[i][0];
      if (!in_call(s, (int)i)) bad(opn((int)i) + " was not sent during the call");
      if (h.sends[s].req != verbatim((int)i)) bad(opn((int)i) + " was not sent verbatim");
      if (!o.done.empty() && o.done[0].body != h.sends[s].resp_body) bad(opn((int)i) + " did not get its own answer");
    }
    for (size_t s = 0; s < h.sends.size(); s++)
      if (N[ki(h.sends[s].kind)] <= 0 && si[s].direct < 0) bad(sdn((int)s) + " was flushed although that cache is disabled");
    if (N[0] <= 0 && N[1] <= 0 && N[2] <= 0) {
      ob++;
      if (h.timer_created && h.timer_interval < 2147483647) bad("a flush timer runs although every cache is disabled");
    }
  }
  void p16() {
    auto check = [&](const std::string& nm, u64 b, u64 e, const u64* v) {
      u64 lo[10] = {0}, hi[10] = {0};
      auto add = [&](int k, bool in_lo, bool in_hi, u64 n) {
        if (in_lo) lo[k] += n;
        if (in_hi) hi[k] += n;
      };
      for (size_t i = 0; i < h.ops.size(); i++) {
        const OpRec& o = h.ops[i];
        if (!o.issued || o.p->kind == 's') continue;
        int k = o.p->kind == 'q' ? 0 : o.p->kind == 'c' ? 3 : 6;
        add(k, call((int)i).e < b, call((int)i).b < e, 1);
      }
      for (size_t s = 0; s < h.sends.size(); s++) {
        const Send& x = h.sends[s];
        int k = x.kind == 'q' ? 0 : x.kind == 'c' ? 3 : 6;
        k += si[s].direct >= 0 ? 2 : 1;
        // a send may be counted at any moment of the call that makes it
        bool in_lo = x.call >= 0 && h.calls[x.call].e < b, in_hi = (x.call >= 0 ? h.calls[x.call].b : x.b) < e;
        add(k, in_lo, in_hi, 1);
        if (x.kind == 'r') add(9, in_lo, in_hi, x.rr->operations_size());
      }
      static const char* names[] = {"total_called_quotas", "send_quotas_by_flush", "send_quotas_in_flight", "total_called_checks", "send_checks_by_flush",
                                    "send_checks_in_flight", "total_called_reports", "send_reports_by_flush", "send_reports_in_flight", "send_report_operations"};
      for (int k = 0; k < 10; k++) {
        ob++;
        if (v[k] < lo[k] || v[k] > hi[k])
          bad(nm + ": " + names[k] + " is " + std::to_string(v[k]) + ", events say " + std::to_string(lo[k]) + ".." + std::to_string(hi[k]));
      }
    };
    std::vector<std::pair<int, int>> order;
    for (size_t i = 0; i < h.ops.size(); i++)
      if (h.ops[i].p->kind == 's' && h.ops[i].returned) check(opn((int)i), call((int)i).b, call((int)i).e, h.ops[i].st);
    for (size_t i = 0; i < h.ops.size(); i++)
      for (size_t j = 0; j < h.ops.size(); j++)
        if (h.ops[i].p->kind == 's' && h.ops[j].p->kind == 's' && h.ops[i].returned && h.ops[j].returned && call((int)i).e < call((int)j).b)
          for (int k = 0; k < 10; k++)
            if (h.ops[j].st[k] < h.ops[i].st[k]) bad("counter " + S(k) + " went backwards between " + opn((int)i) + " and " + opn((int)j));
    if (h.have_final_stats) check("final statistics", h.final_stats_seq, h.final_stats_end, h.final_stats);
  }
  void p17() {
    ob += h.ops.size();
    if (h.complete && h.leaks) bad(S((i64)h.leaks) + " blocks leaked: " + h.leak_desc);
  }
  void p18() {
    if (h.destroy_call < 0) return;
    u64 e = destroy_end();
    ob++;
    for (size_t s = 0; s < h.sends.size(); s++)
      if (h.sends[s].b > e) bad(sdn((int)s) + " was sent after destruction had returned");
    if (h.timer_created) {
      if (h.timer_stopped != 1) bad("flush timer stopped " + S(h.timer_stopped) + " times");
      else if (h.timer_stop_seq > e) bad("flush timer stopped after destruction");
      if (h.timer_destroyed != 1) bad("flush timer object destroyed " + S(h.timer_destroyed) + " times");
    }
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (!o.issued || o.p->kind == 's') continue;
      for (int s : direct[i])
        if (db(s) > h.calls[h.destroy_call].b) {
          ob++;
          if (o.done.size() != 1) bad(opn((int)i) + " was in flight at destruction and completed " + S(o.done.size()) + " times");
          else if (o.done[0].code != h.sends[s].out.st || o.done[0].body != h.sends[s].resp_body)
            bad(opn((int)i) + " was in flight at destruction and completed with the wrong answer");
        }
    }
    // buffered data is handed over before the destructor returns
    if (global_transport('r')) reports_conserved(true);
    if (N[0] > 0 && global_transport('c') && !lossy_shutdown()) {
      for (auto& s : h.sends)
        if (s.kind == 'c' && s.deliv >= 0 && overlap(h.calls[s.deliv], h.calls[h.destroy_call])) return;
      auto n = agg_counts('c', e);
      for (size_t i = 0; i < h.ops.size(); i++)
        if (check_hit((int)i) && !h.ops[i].done[0].deny) {
          ob++;
          if (!n[{gkey((int)i), dig[{(int)i, 0}]}]) bad(opn((int)i) + " passed from the cache but was not handed over at destruction");
        }
    }
  }
  void p19() {
    if (N[0] > 0)
      for (size_t i = 0; i < h.ops.size(); i++) {
        if (!check_hit((int)i)) continue;
        std::string g = gkey((int)i);
        // last moment before this hit at which its own key may have been used
        u64 a = 0;
        bool conc = false;
        for (size_t j = 0; j < h.ops.size(); j++) {
          if (j == i || !valid[j] || h.ops[j].p->kind != 'c' || gkey((int)j) != g) continue;
          if (call((int)j).b < call((int)i).e) a = std::max(a, call((int)j).e);
          for (int s : direct[j])
            if (has_deliv(s) && db(s) < call((int)i).e) a = std::max(a, de(s));
        }
        if (a > call((int)i).b) conc = true;
        if (conc) continue;
        std::set<std::string> k;
        for (size_t s = 0; s < h.sends.size(); s++)
          if (h.sends[s].kind == 'c' && si[s].direct >= 0 && h.sends[s].out.st == 0 && has_deliv((int)s) && db((int)s) > a && de((int)s) < call((int)i).b)
            k.insert(gkey(si[s].direct));
        k.erase(g);
        ob++;
        if ((i64)k.size() >= N[0]) bad(opn((int)i) + " was answered from the cache although " + S((i64)k.size()) + " other keys were stored since its key was last used (capacity " + S(N[0]) + ")");
      }
    if (N[2] > 0 && global_transport('r')) {
      for (size_t i = 0; i <= h.ops.size(); i++) {
        u64 at;
        if (i == h.ops.size()) {
          if (h.destroy_call < 0) break;
          at = h.calls[h.destroy_call].b;
        } else {
          if (!h.ops[i].issued) continue;
          at = call((int)i).b;
        }
        bool quiet = true;
        for (auto& c : h.calls)
          if (c.b < at && c.e > at) quiet = false;
        if (!quiet) continue;
        std::map<std::pair<std::string, int>, int> sent = agg_counts('r', at);
        std::set<std::string> held;
        for (size_t j = 0; j < h.ops.size(); j++) {
          if (h.ops[j].p->kind != 'r' || !cached[j] || !direct[j].empty() || h.ops[j].call < 0 || call((int)j).e > at) continue;
          for (size_t k = 0; k < h.ops[j].p->subs.size(); k++)
            if (!sent.count({gkey((int)j, (int)k), dig[{(int)j, (int)k}]})) held.insert(gkey((int)j, (int)k));
        }
        ob++;
        if ((i64)held.size() > N[2]) {
          bad(S((i64)held.size()) + " distinct report keys are held back with a capacity of " + S(N[2]));
          break;
        }
      }
    }
    // a key is forgotten once as many other keys were inserted after it
    if (N[1] > 0 && global_transport('q') && p.jumps.empty()) {
      struct Ins { std::string g; int op; };
      std::vector<Ins> ins;
      std::set<int> asked;  // ops whose own call asked the server something
      for (size_t s = 0; s < h.sends.size(); s++) {
        const Send& x = h.sends[s];
        if (x.kind != 'q' || si[s].direct >= 0) continue;
        for (size_t i = 0; i < h.ops.size(); i++)
          if (h.ops[i].p->kind == 'q' && h.ops[i].call >= 0 && in_call((int)s, (int)i)) asked.insert((int)i);
        if (!si[s].agg && opidx.count(si[s].token) && in_call((int)s, opidx[si[s].token])) ins.push_back({si[s].qkey, opidx[si[s].token]});
      }
      for (size_t i = 0; i < h.ops.size(); i++) {
        if (!cached[i] || h.ops[i].p->kind != 'q' || !h.ops[i].returned || asked.count((int)i)) continue;
        std::string g = gkey((int)i);
        int last = -1;
        bool unsure = false;
        for (auto& x : ins)
          if (x.g == g && call(x.op).b < call((int)i).e) {
            if (last >= 0 && overlap(call(last), call(x.op))) unsure = true;
            if (last < 0 || call(x.op).b > call(last).b) last = x.op;
          }
        // a rejected request may have been the one that created the entry
        for (size_t j = 0; j < h.ops.size(); j++)
          if (h.ops[j].p->kind == 'q' && h.ops[j].call >= 0 && !valid[j] && !h.ops[j].p->subs.empty() && gkey((int)j) == g) unsure = true;
        if (last < 0 || unsure) continue;
        i64 span = call((int)i).te - call(last).tb;
        // past the refresh interval the entry may have moved to the front again
        if (span + kSlack >= quo_r || span + kSlack >= quo_x) continue;
        std::set<std::string> k;
        for (auto& x : ins)
          if (x.g != g && call(x.op).b > call(last).e && call(x.op).e < call((int)i).b) k.insert(x.g);
        ob++;
        if ((i64)k.size() >= N[1])
          bad(opn((int)i) + " was answered from a remembered quota answer although " + S((i64)k.size()) +
              " other keys were inserted after its key (capacity " + S(N[1]) + ")");
      }
    }
  }
  void p20() {
    for (size_t s = 0; s < h.sends.size(); s++) {
      const Send& x = h.sends[s];
      ob++;
      if (x.via >= 0) {
        int op = opidx[x.via];
        if (si[s].direct != op || si[s].token != x.via || x.kind != h.ops[op].p->kind || (x.kind == 'q' && N[1] > 0))
          bad(sdn((int)s) + " went through the transport given for " + opn(op) + " alone but is not that request");
      } else if (si[s].direct >= 0) {
        if (h.ops[si[s].direct].p->mode == 'p') bad(opn(si[s].direct) + " has its own transport but went through the shared one");
      }
    }
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (!o.issued || o.p->kind == 's' || transport_ok(*o.p)) continue;
      ob++;
      if (!direct[i].empty()) bad(opn((int)i) + " has no transport but was sent");
      if (o.done.empty() || o.done[0].code != 3) bad(opn((int)i) + " has no transport but was not rejected");
      auto n = agg_counts(o.p->kind);
      for (size_t k = 0; k < o.p->subs.size(); k++)
        if (n.count({gkey((int)i, (int)k), dig[{(int)i, (int)k}]})) bad(opn((int)i) + " was rejected but still reached the server");
    }
  }
  void p21() {
    // answers only from the same key
    for (size_t i = 0; i < h.ops.size(); i++) {
      const OpRec& o = h.ops[i];
      if (!cached[i] || o.p->kind == 'r' || o.done.empty() || !direct[i].empty() || o.done[0].tag.empty()) continue;
      ob++;
      int w = tag_send(o.done[0].tag);
      if (w < 0) continue;
      std::string wk = h.sends[w].kind == 'q' ? si[w].qkey : si[w].direct >= 0 ? gkey(si[w].direct) : "";
      if (h.sends[w].kind != o.p->kind || wk != gkey((int)i)) bad(opn((int)i) + " of key " + gkey((int)i) + " was answered with the answer for key " + wk);
    }
    // merged operations only from one key
    for (size_t s = 0; s < h.sends.size(); s++) {
      if (!si[s].agg || si[s].direct >= 0) continue;
      for (auto& m : si[s].ops) {
        ob++;
        std::vector<std::pair<int, int>> cons;
        std::string err;
        if (!constituents(m, &cons, &err)) bad(sdn((int)s) + ": " + err);
      }
      // the other side of a mix-up: amounts of another key inside one message
      if (h.sends[s].kind == 'r')
        for (int k = 0; k < h.sends[s].rr->operations_size(); k++)
          for (auto& l : h.sends[s].rr->operations(k).log_entries()) {
            int id = 0, sub = 0;
            sscanf(l.name().c_str(), "L%d.%d", &id, &sub);
            if (opidx.count(id) && gkey(opidx[id], sub) != si[s].okeys[k])
              bad(sdn((int)s) + " mixes log entries of key " + gkey(opidx[id], sub) + " into key " + si[s].okeys[k]);
          }
    }
    // equal keys share: reports
    std::map<std::pair<int, std::string>, int> per_call;
    for (size_t s = 0; s < h.sends.size(); s++) {
      if (h.sends[s].kind != 'r' || !si[s].agg || h.sends[s].call < 0) continue;
      auto t = h.calls[h.sends[s].call].type;
      if (t != kCallTick && t != kCallDestroy) continue;
      for (auto& k : si[s].okeys)
        if (++per_call[{h.sends[s].call, k}] > 1) bad(sdn((int)s) + " carries a second operation for " + k + " in one flush");
    }
    // equal keys share: quota
    if (N[1] > 0 && !may_drop() && global_transport('q')) {
      std::map<std::string, std::set<int>> verb;
      for (size_t s = 0; s < h.sends.size(); s++)
        if (h.sends[s].kind == 'q' && !si[s].agg && si[s].direct < 0) verb[si[s].qkey].insert(si[s].token);
      for (auto& v : verb) {
        ob++;
        if (v.second.size() > 1) bad("requests of one quota key " + v.first + " were treated as different keys");
      }
    }
    // equal keys share: checks (a fresh answer of the same key must be used)
    p05();
    p07_nonlossy();
  }
  void p07_nonlossy() {
    if (!lossy_shutdown() && global_transport('r')) reports_conserved(false);
  }
};
}  // namespace

// Several clients in one process: each one's history must look as if it were alone.
static void judge_clients(const Plan& p, const History& h, D* d) {
  static void (D::*const rules[])() = {&D::p01, &D::p02, &D::p03, &D::p04, &D::p06, &D::p08, &D::p09, &D::p10, &D::p12, &D::p13, &D::p14, &D::p16, &D::p18, &D::p19, &D::p20, &D::p21};
  for (size_t k = 0; k <= h.more.size(); k++) {
    const History& x = k ? *h.more[k - 1] : h;
    const Plan q = client_plan(p, (int)k);
    D e(q, x, "P24");
    e.tag_prefix = k ? 'x' : 'w';
    for (auto& r : rules) (e.*r)();
    d->ob += e.ob;
    for (auto& v : e.out) d->bad("client " + S((i64)k) + ": " + v.msg);
  }
}

std::vector<Violation> judge(const Plan& p, const History& h, const std::string& prop, u64* obligations) {
  D d(p, h, prop);
  for (auto& v : h.viol) d.bad(v);
  d.ob += h.ob;
  if (h.complete && !p.get("world", 0)) {
    static const std::map<std::string, void (D::*)()> rules = {
        {"P01", &D::p01}, {"P02", &D::p02}, {"P03", &D::p03}, {"P04", &D::p04}, {"P05", &D::p05}, {"P06", &D::p06}, {"P07", &D::p07},
        {"P08", &D::p08}, {"P09", &D::p09}, {"P10", &D::p10}, {"P11", &D::p11}, {"P12", &D::p12}, {"P13", &D::p13}, {"P14", &D::p14},
        {"P15", &D::p15}, {"P16", &D::p16}, {"P17", &D::p17}, {"P18", &D::p18}, {"P19", &D::p19}, {"P20", &D::p20}, {"P21", &D::p21}, {"P31", &D::p31}};
    auto it = rules.find(prop);
    if (prop == "P24") judge_clients(p, h, &d);
    else if (it != rules.end()) (d.*(it->second))();
  }
  if (obligations) *obligations = d.ob;
  return d.out;
}

u64 history_hash(const History& h) {
  u64 x = 1469598103934665603ull;
  auto a = [&](u64 v) { x = (x ^ v) * 1099511628211ull; x ^= x >> 29; };
  auto s = [&](const std::string& v) { for (unsigned char c : v) x = (x ^ c) * 1099511628211ull; a(v.size()); };
  for (auto& c : h.calls) { a(c.type); a(c.ref); a(c.fiber); a(c.b); a(c.e); a(c.tb); a(c.te); a(c.cb); a(c.ce); }
  for (auto& o : h.ops) {
    a(o.issued); a(o.returned); a(o.done.size());
    for (auto& d : o.done) { a(d.seq); a(d.t); a(d.code); s(d.msg); s(d.body); a(d.fiber); }
    for (u64 v : o.st) a(v);
  }
  for (auto& q : h.sends) { a(q.kind); a(q.via); a(q.b); a(q.e); s(q.req); a(q.direct); s(q.resp_body); }
  a(h.ticks); a(h.timer_stop_seq); a(h.leaks);
  for (u64 v : h.final_stats) a(v);
  for (auto& v : h.viol) s(v);
  for (auto& l : h.log) s(l);
  a(rt::stats().interleaving_hash);
  for (auto& m : h.more) a(history_hash(*m));
  return x;
}

void history_dump(const Plan& p, const History& h, FILE* f) {
  struct E { u64 seq; std::string t; };
  std::vector<E> ev;
  auto ts = [](i64 t) { return "t=" + std::to_string(t) + "us"; };
  for (auto& l : h.log) fprintf(f, "       %s\n", l.c_str());
  if (!h.more.empty()) {
    for (size_t k = 0; k <= h.more.size(); k++) {
      History one = k ? *h.more[k - 1] : h;
      one.more.clear();
      fprintf(f, "client %d\n", (int)k);
      history_dump(p, one, f);
    }
    return;
  }
  static const char* names[] = {"call", "delivery", "tick", "create", "destroy", "stats"};
  auto cname = [&](const Call& c) {
    std::string r = names[c.type];
    if (c.type == kCallOp || c.type == kCallStats) {
      const POp& o = *h.ops[c.ref].p;
      r += std::string(" op ") + std::to_string(o.id) + " " + (o.kind == 'c' ? "Check" : o.kind == 'q' ? "Quota" : o.kind == 'r' ? "Report" : "GetStatistics");
      if (o.mode == 's') r += " sync";
      if (o.mode == 'p') r += " own-transport";
      if (o.mode == 'n') r += " null-transport";
      for (auto& s : o.subs) {
        std::string g = o.kind == 'c' ? check_key(s.key) : o.kind == 'q' ? quota_key(s.key) : report_key(s.key);
        r += " [" + g + (s.hi ? " HIGH" : "") + (s.logs ? " logs=" + std::to_string(s.logs) : "") + "]";
      }
    } else if (c.type == kCallDeliv) {
      const Send& s = h.sends[c.ref];
      r += " of w" + std::to_string(s.id) + " status=" + std::to_string(s.out.st) + (s.deny ? " DENY" : "");
    }
    return r;
  };
  for (auto& c : h.calls) {
    ev.push_back({c.b, "fiber " + std::to_string(c.fiber) + " > " + cname(c) + " " + ts(c.tb)});
    if (c.e != kOpen) ev.push_back({c.e, "fiber " + std::to_string(c.fiber) + " < " + cname(c) + " " + ts(c.te)});
  }
  for (auto& s : h.sends) {
    std::string r = "fiber " + std::to_string(s.fiber) + "   send w" + std::to_string(s.id) + " " + s.kind + (s.via >= 0 ? " via own transport of op " + std::to_string(s.via) : "");
    const ::google::protobuf::Message* m = s.cr ? (const ::google::protobuf::Message*)s.cr.get() : s.qr ? (const ::google::protobuf::Message*)s.qr.get() : s.rr.get();
    std::string d = m->ShortDebugString();
    if (d.size() > 900) d = d.substr(0, 900) + "...";
    ev.push_back({s.b, r + " " + ts(s.tb) + " {" + d + "}"});
  }
  for (auto& o : h.ops)
    for (auto& d : o.done)
      ev.push_back({d.seq, "fiber " + std::to_string(d.fiber) + "   done op " + std::to_string(o.p->id) + " code=" + std::to_string(d.code) + " '" + d.msg + "' answer=" +
                              (d.tag.empty() ? "-" : d.tag) + (d.deny ? " DENY" : "") + " " + ts(d.t)});
  if (h.timer_stop_seq) ev.push_back({h.timer_stop_seq, "timer Stop()"});
  std::sort(ev.begin(), ev.end(), [](const E& a, const E& b) { return a.seq < b.seq; });
  for (auto& e : ev) fprintf(f, "%6llu %s\n", (unsigned long long)e.seq, e.t.c_str());
  (void)p;
}

void probes(const Plan& p, const History& h, std::map<std::string, u64>* out) {
  D d(p, h, "");
  auto& o = *out;
  for (size_t i = 0; i < h.ops.size(); i++) {
    if (d.check_hit((int)i)) o[h.ops[i].done[0].deny ? "check_denied_from_cache" : "check_passed_from_cache"]++;
    if (d.valid[i] && h.ops[i].p->kind == 'c' && !d.direct[i].empty() && d.cached[i] && d.check_writes(d.gkey((int)i)).size() > 1) o["check_refresh_or_remiss"]++;
    if (h.ops[i].p->kind == 'q' && d.cached[i] && !h.ops[i].done.empty()) o[h.ops[i].done[0].deny ? "quota_denied_from_cache" : "quota_granted_from_cache"]++;
    if (h.ops[i].p->kind == 'r' && d.cached[i]) o["report_aggregated"]++;
    if (h.ops[i].p->par >= 0 && h.ops[i].issued) o[h.ops[i].p->at ? "call_from_inside_transport" : "call_from_inside_completion"]++;
    if (h.ops[i].issued && !d.valid[i] && h.ops[i].p->kind != 's') o["rejected_request"]++;
  }
  for (size_t s = 0; s < h.sends.size(); s++) {
    if (d.si[s].direct >= 0) { o["direct_send"]++; continue; }
    auto t = h.sends[s].call >= 0 ? h.calls[h.sends[s].call].type : kCallCreate;
    std::string k = h.sends[s].kind == 'c' ? "check" : h.sends[s].kind == 'q' ? "quota" : "report";
    o[k + "_flush_in_" + (t == kCallTick ? "tick" : t == kCallDestroy ? "destroy" : t == kCallDeliv ? "delivery" : "call")]++;
    for (auto& m : d.si[s].ops)
      if (m.size() > 1) o[k + "_merged_operation"]++;
  }
  for (size_t a = 0; a < h.sends.size(); a++)
    for (size_t b = a + 1; b < h.sends.size(); b++)
      if (h.sends[a].kind == h.sends[b].kind && d.db((int)b) < d.db((int)a)) { o["replies_out_of_order"]++; b = h.sends.size(); }
  for (auto& c : h.calls)
    if (h.destroy_call >= 0 && c.type == kCallDeliv && c.b > h.calls[h.destroy_call].b) o["reply_during_or_after_destroy"]++;
  if (d.lossy_shutdown()) o["tick_overlaps_destroy"]++;
  if (d.quota_keys() > d.N[1] && d.N[1] > 0) o["quota_over_capacity"]++;
  {
    u64 last = 0;
    for (auto& c : h.calls) {
      if (c.type != kCallTick) continue;
      if (c.b < last) { o["overlapping_ticks"]++; break; }
      last = c.e;
    }
  }
  for (size_t i = 0; i < h.calls.size() && !o.count("overlapping_calls"); i++)  // recorded in the order of their begin
    for (size_t j = i + 1; j < h.calls.size() && h.calls[j].b < h.calls[i].e; j++)
      if (h.calls[i].fiber != h.calls[j].fiber) { o["overlapping_calls"]++; break; }
}

}  // namespace sim
