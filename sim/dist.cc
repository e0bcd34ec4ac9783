// Distributions: what callers build with DistributionHelper and what must reach the server (P31).
#include <math.h>

#include <limits>

#include "utils/distribution_helper.h"
#include "dist.h"

namespace sim {
namespace {
typedef ::google::service_control_client::DistributionHelper Helper;
typedef sc::Distribution Dist;
typedef long double ld;
const double kInf = std::numeric_limits<double>::infinity();
const double kNaN = std::numeric_limits<double>::quiet_NaN();
std::string S(i64 v) { return std::to_string(v); }
std::string F(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }

struct Layout {
  int type = 0;  // 0 linear, 1 exponential, 2 explicit
  int n = 0;
  double a = 0, b = 0;  // width, offset / growth factor, scale
  std::vector<double> bounds;
  bool exact = false;   // every bound is a double: samples may sit on it
  ld bound(int i) const { return type == 0 ? (ld)b + (ld)i * a : type == 1 ? (ld)b * powl(a, i) : (ld)bounds[i]; }
  int nbounds() const { return type == 2 ? (int)bounds.size() : n + 1; }
  int buckets() const { return nbounds() + 1; }
  // buckets are [bound i-1, bound i); what is not a number counts as below everything
  int locate(double v) const {
    int k = 0;
    if (v != v) return 0;
    while (k < nbounds() && bound(k) <= (ld)v) k++;
    return k;
  }
};
u64 hs(const std::string& s, u64 x) {
  x = x * 0x9E3779B97F4A7C15ull + 1469598103934665603ull;
  for (unsigned char c : s) x = (x ^ c) * 1099511628211ull;
  return x;
}
Layout layout(const Plan& p, const POp& o, int sub) {
  u64 seed = hs(report_key(o.subs[sub].key), (u64)p.get("dist"));
  // one metric normally has one layout; in some runs callers disagree
  if (p.get("dist_mixed")) seed += (u64)(o.id % 2);
  rt::Rng r(seed);
  r.next();
  Layout l;
  l.type = (int)r.below(3);
  l.exact = r.chance(0.6);
  l.n = r.chance(0.2) ? 1 : 1 + (int)r.below(12);
  if (l.type == 0) {
    static const double w[] = {1, 2, 10, 0.5, 0.25, 100, 3, 7};
    l.a = l.exact ? w[r.below(8)] : 0.01 + r.unit() * 10;
    l.b = r.chance(0.3) ? 0 : l.exact ? (double)r.range(-50, 50) : r.unit() * 100 - 50;
  } else if (l.type == 1) {
    static const double g[] = {2, 3, 10, 2.5, 1.5, 7, 20, 4, 1.25, 5};
    static const double s[] = {1, 2, 0.5, 5, 3, 100, 0.125};
    l.a = l.exact ? g[r.below(10)] : 1.01 + r.unit() * 5;
    l.b = l.exact ? s[r.below(7)] : 0.001 + r.unit() * 10;
    if (r.chance(0.1)) l.a = 1 + 1e-9, l.exact = false;
  } else {
    l.exact = true;
    int n = r.chance(0.15) ? (int)r.below(2) : 1 + (int)r.below(10);
    double x = (double)r.range(-20, 20);
    for (int i = 0; i < n; i++) {
      l.bounds.push_back(x);
      x += r.chance(0.2) ? 0.0625 : 0.1 + r.unit() * 20;
    }
  }
  return l;
}
// values clear of bounds that are not exactly representable
double mid(const Layout& l, rt::Rng& r) {
  if (l.type == 2) return l.bounds.empty() ? r.unit() : l.bounds[r.below(l.bounds.size())] + 0.03;
  int i = (int)r.below(l.n + 2) - 1;
  double f = 0.1 + 0.8 * r.unit();
  return l.type == 0 ? l.b + (i + f) * l.a : l.a < 1.001 ? l.b * (r.chance(0.5) ? 0.5 : 3) : l.b * pow(l.a, i + f);
}
std::vector<double> samples(const Plan& p, const POp& o, int sub, const Layout& l) {
  rt::Rng r(hs("samples", (u64)o.id * 64 + sub));
  std::vector<double> v;
  int n = r.chance(0.15) ? 0 : 1 + (int)r.below(8);
  bool wild = p.get("dist_wild");
  for (int i = 0; i < n; i++) {
    double x = mid(l, r);
    if (l.exact && l.nbounds() && r.chance(0.4)) {
      int k = l.type == 0 && r.chance(0.3) ? l.n : (int)r.below(l.nbounds());
      ld b = l.bound(k);
      if ((ld)(double)b == b) {
        x = (double)b;
        // (inside a linear layout the division may legitimately round across a bound)
        if (l.type != 0 && r.chance(0.4)) x = nextafter(x, r.chance(0.5) ? -1e300 : 1e300);
        else if (l.type == 0 && (k == 0 || k == l.n) && r.chance(0.6)) x = nextafter(x, -1e300);
      }
    }
    if (wild && r.chance(0.3)) {
      static const double w[] = {kInf, -kInf, kNaN, 1e300, -1e300, 1e308, 5e-324, 0, -0.0, 4e9, -4e9};
      x = w[r.below(11)];
    }
    if (r.chance(0.05)) x = -1e6;
    if (r.chance(0.05) && l.a >= 1.001) x = 1e6;
    v.push_back(x);
  }
  return v;
}

struct Sum {
  i64 n = 0;
  std::vector<i64> c;
  ld sum = 0;
  double mn = 0, mx = 0, big = 0;
  bool nan = false;
  std::vector<double> all;
  void add(const Layout& l, double v) {
    c.resize(l.buckets());
    c[l.locate(v)]++;
    if (v != v || fabs(v) > 1e100) nan = true;
    if (n == 0 || v < mn) mn = v;
    if (n == 0 || v > mx) mx = v;
    n++;
    sum += v;
    big = std::max(big, fabs(v));
    all.push_back(v);
  }
};
std::string differs(const Layout& l, const Dist& d, Sum s) {
  s.c.resize(l.buckets());
  if (d.count() != s.n) return "count " + S(d.count()) + ", expected " + S(s.n);
  if (d.bucket_counts_size() != l.buckets()) return S(d.bucket_counts_size()) + " buckets, expected " + S(l.buckets());
  for (int i = 0; i < l.buckets(); i++)
    if (d.bucket_counts(i) != s.c[i]) return "bucket " + S(i) + " holds " + S(d.bucket_counts(i)) + ", expected " + S(s.c[i]);
  bool same = l.type == 0 ? d.has_linear_buckets() && d.linear_buckets().num_finite_buckets() == l.n && d.linear_buckets().width() == l.a && d.linear_buckets().offset() == l.b
            : l.type == 1 ? d.has_exponential_buckets() && d.exponential_buckets().num_finite_buckets() == l.n && d.exponential_buckets().growth_factor() == l.a && d.exponential_buckets().scale() == l.b
                          : d.has_explicit_buckets() && d.explicit_buckets().bounds_size() == (int)l.bounds.size();
  if (same && l.type == 2)
    for (size_t i = 0; i < l.bounds.size(); i++) same &= d.explicit_buckets().bounds((int)i) == l.bounds[i];
  if (!same) return "wrong bucket options";
  if (s.n == 0 || s.nan) return "";
  if (d.minimum() != s.mn || d.maximum() != s.mx) return "range " + F(d.minimum()) + ".." + F(d.maximum()) + ", expected " + F(s.mn) + ".." + F(s.mx);
  ld m = s.sum / s.n, q = 0;
  for (double v : s.all) q += (v - m) * (v - m);
  if (fabsl(d.mean() - m) > 1e-9 * (s.big + 1e-30)) return "mean " + F(d.mean()) + ", expected " + F((double)m);
  if (fabsl(d.sum_of_squared_deviation() - q) > 1e-9 * (s.n * (ld)s.big * s.big + 1e-30)) return "sum of squared deviations " + F(d.sum_of_squared_deviation()) + ", expected " + F((double)q);
  return "";
}
bool same_options(const Layout& a, const Layout& b) { return a.type == b.type && (a.type == 2 ? a.bounds == b.bounds : a.n == b.n && a.a == b.a && a.b == b.b); }
}  // namespace

// In the caller's thread.
void dist_build(const Plan& p, History* h, const POp& o, sc::ReportRequest* rq) {
  if (!p.get("dist")) return;
  for (size_t s = 0; s < o.subs.size(); s++) {
    if (!(o.subs[s].bits & 128)) continue;
    Layout l = layout(p, o, (int)s);
    std::string nm = "distribution of op " + S(o.id) + " operation " + S(s);
    auto bad = [&](const std::string& m) { if (h->viol.size() < 5) h->viol.push_back(nm + ": " + m); };
    Dist* d;
    std::vector<double>* bounds;
    {
      rt::UserScope us;
      auto* set = rq->mutable_operations((int)s)->add_metric_value_sets();
      set->set_metric_name("m/hist");
      d = set->add_metric_values()->mutable_distribution_value();
      bounds = new std::vector<double>(l.bounds);
    }
    rt::Rng r(hs("bad", (u64)o.id * 64 + s));
    // what must be refused, without a trace
    if (r.chance(0.3)) {
      bool ok;
      std::string before = ser(*d);
      int kind = (int)r.below(10);
      std::string what;
      {
        rt::LibScope ls;
        switch (kind) {
          case 0: what = "linear, no buckets"; ok = Helper::InitLinear(-(int)r.below(3), 1, 0, d).ok(); break;
          case 1: what = "linear, width 0"; ok = Helper::InitLinear(3, 0, 0, d).ok(); break;
          case 2: what = "linear, negative width"; ok = Helper::InitLinear(3, -1, 0, d).ok(); break;
          case 3: what = "exponential, no buckets"; ok = Helper::InitExponential(-(int)r.below(3), 2, 1, d).ok(); break;
          case 4: what = "exponential, growth 1"; ok = Helper::InitExponential(3, 1, 1, d).ok(); break;
          case 5: what = "exponential, growth below 1"; ok = Helper::InitExponential(3, r.unit(), 1, d).ok(); break;
          case 6: what = "exponential, scale not positive"; ok = Helper::InitExponential(3, 2, -(double)r.below(2), d).ok(); break;
          case 7: what = "not a number"; ok = r.chance(0.3) ? Helper::InitExponential(3, kNaN, 1, d).ok() : r.chance(0.5) ? Helper::InitExponential(3, 2, kNaN, d).ok() : r.chance(0.5) ? Helper::InitLinear(3, kNaN, 0, d).ok() : Helper::InitLinear(3, 1, kNaN, d).ok(); break;
          case 8: {
            // unsorted or repeated bounds, anywhere in the list
            what = "explicit, bounds out of order";
            std::vector<double> w;
            int n = 2 + (int)r.below(8), at = 1 + (int)r.below(n - 1);
            for (int i = 0; i < n; i++) w.push_back(i == at ? i - 1 - (double)r.below(2) * 0.5 : i);
            ok = Helper::InitExplicit(w, d).ok();
            break;
          }
          default: what = "sample without buckets"; ok = Helper::AddSample(1, d).ok();
        }
      }
      h->ob++;
      h->faults["malformed_buckets"]++;
      if (ok) bad("accepted: " + what);
      if (ser(*d) != before) bad("changed although refused: " + what);
    }
    bool ok;
    {
      rt::LibScope ls;
      ok = l.type == 0 ? Helper::InitLinear(l.n, l.a, l.b, d).ok() : l.type == 1 ? Helper::InitExponential(l.n, l.a, l.b, d).ok() : Helper::InitExplicit(*bounds, d).ok();
    }
    h->ob++;
    if (!ok) bad("valid bucket options refused");
    Sum sum;
    std::string e = differs(l, *d, sum);
    if (!e.empty()) bad("after initialisation: " + e);
    for (double v : samples(p, o, (int)s, l)) {
      if (!ok || !e.empty()) break;
      {
        rt::LibScope ls;
        ok = Helper::AddSample(v, d).ok();
      }
      h->ob++;
      sum.add(l, v);
      if (!ok) bad("sample " + F(v) + " refused");
      e = differs(l, *d, sum);
      if (!e.empty()) bad("after sample " + F(v) + ": " + e);
    }
    // merging what does not fit must be refused, without a trace
    if (ok && r.chance(0.4)) {
      Dist *to, *from;
      std::string what;
      {
        rt::UserScope us;
        to = new Dist(*d);
        from = new Dist(*d);
        if (r.chance(0.3)) from->set_count(0);
        int kind = (int)r.below(7);
        double by = r.chance(0.5) ? 1.001 + r.unit() : 0.999 - r.unit() * 0.5;
        auto other = [&](double x) { return x == 0 ? 0.5 : x * by; };
        switch (kind) {
          case 0: what = "one bucket too few"; from->mutable_bucket_counts()->RemoveLast(); break;
          case 1: what = "one bucket too many"; from->add_bucket_counts(r.below(2)); break;
          case 2: what = "no buckets"; from->clear_bucket_counts(); break;
          case 3:
            what = "no bucket options";
            if (r.chance(0.7)) from->clear_bucket_option();
            if (!from->bucket_option_case() || r.chance(0.5)) to->clear_bucket_option();
            else from->clear_bucket_option();
            break;
          case 4:
            what = "other kind of buckets";
            if (l.type == 0) from->mutable_exponential_buckets()->set_num_finite_buckets(l.n);
            else from->mutable_linear_buckets()->set_num_finite_buckets(l.type == 2 ? (int)l.bounds.size() - 1 : l.n);
            break;
          default:
            what = "other bucket options";
            if (l.type == 0) {
              auto* b = from->mutable_linear_buckets();
              int w = (int)r.below(3);
              if (w == 0) b->set_num_finite_buckets(l.n + 1);
              else if (w == 1) b->set_width(other(l.a));
              else b->set_offset(other(l.b));
            } else if (l.type == 1) {
              auto* b = from->mutable_exponential_buckets();
              int w = (int)r.below(3);
              if (w == 0) b->set_num_finite_buckets(l.n + 1);
              else if (w == 1) b->set_growth_factor(other(l.a));
              else b->set_scale(other(l.b));
            } else {
              auto* b = from->mutable_explicit_buckets();
              if (l.bounds.empty() || r.chance(0.2)) b->add_bounds(1e9);
              else {
                int i = (int)r.below(l.bounds.size());
                b->set_bounds(i, other(b->bounds(i)));
              }
            }
        }
      }
      std::string before = ser(*to);
      bool merged;
      {
        rt::LibScope ls;
        merged = Helper::Merge(*from, to).ok();
      }
      h->ob++;
      h->faults["malformed_merge"]++;
      if (merged) bad("merged: " + what);
      if (ser(*to) != before) bad("changed by a refused merge: " + what);
      rt::UserScope us;
      delete to;
      delete from;
    }
    rt::UserScope us;
    delete bounds;
  }
}

// One operation that reached the server, against the operations merged into it.
std::string dist_judge(const Plan& p, const std::vector<std::pair<const POp*, int>>& cons, const sc::Operation& got) {
  const Dist* d = nullptr;
  int n = 0;
  for (auto& s : got.metric_value_sets())
    if (s.metric_name() == "m/hist")
      for (auto& v : s.metric_values()) d = &v.distribution_value(), n++;
  bool any = false;
  std::string err;
  for (size_t i = 0; i < cons.size(); i++) {
    if (!(cons[i].first->subs[cons[i].second].bits & 128)) continue;
    any = true;
    // the options of the first one merged decide; those with other options leave no trace
    Layout l = layout(p, *cons[i].first, cons[i].second);
    Sum s;
    for (auto& c : cons) {
      if (!(c.first->subs[c.second].bits & 128)) continue;
      Layout k = layout(p, *c.first, c.second);
      if (!same_options(l, k)) continue;
      for (double v : samples(p, *c.first, c.second, k)) s.add(k, v);
    }
    if (!d) return "its distribution is missing";
    err = differs(l, *d, s);
    if (err.empty()) return n == 1 ? "" : "it has " + S(n) + " distributions";
    if (!p.get("dist_mixed")) break;
  }
  if (!any) return d ? "it has a distribution nobody reported" : "";
  return "its distribution has " + err;
}
}  // namespace sim
