// C25: statistical functions against long double and boost references.
#include "harness.h"
#include "StatFuncs.h"
#include "DDWR.h"
#include <boost/math/special_functions/gamma.hpp>
#include <algorithm>
#include <limits>
#include <numeric>

typedef long double L;
static const L SQRT2 = sqrtl(2.0L);
static L Phi(L x) { return 0.5L * erfcl(-x / SQRT2); }
static L phi(L x) { return expl(-0.5L * x * x) / sqrtl(2.0L * M_PIl); }

static double ulps(Rng& r, double x, int n)
{
  for (int i = 0; i < n; ++i) x = std::nextafter(x, r.chance(.5) ? INFINITY : -INFINITY);
  return x;
}

static void cumulative(Harness& h, Rng& r)
{
  for (int i = 0; i < 40; ++i)
  {
    double x;
    switch (r.below(8))
    {
    case 0: x = (r.u() - .5) * 4; break;
    case 1: x = (r.u() - .5) * 20; break;
    case 2: x = -40 * r.u(); break;
    case 3: x = 40 * r.u(); break;
    case 4: x = std::ldexp(r.u() - .5, -(int)r.below(1070)); break;
    case 5: x = std::ldexp(r.u() - .5, r.below(1000)); break;
    case 6: x = ulps(r, std::sqrt(2.0) * std::vector<double>{0.84375, 1.25, 1 / .35, 6, 28, -0.84375, -1.25, -1 / .35, -6, -28, 0}[r.below(11)], r.below(4)); break;
    default: x = std::vector<double>{0.0, -0.0, INFINITY, -INFINITY, 1e308, -1e308, 5e-324, -5e-324, 38.5, -38.5, 8.3, -8.3}[r.below(12)]; break;
    }
    h.inputs = "x " + num(x);
    double c = cumNorm(x);
    L e = Phi(x);
    L tol = x > 0 ? 3e-16L : e * (4 + (L)std::min(x * x, 1e4)) * 4e-16L + 5e-324L;
    check(c >= 0 && c <= 1, "cumNorm-range", num(c));
    check(fabsl(c - e) <= tol || std::isinf(x) && c == e, "cumNorm", num(c) + " instead of " + num(e));
    double y = r.chance(.5) ? ulps(r, x, 3) : x + (r.u() - .5) * (r.chance(.5) ? .01 : 3);
    double d = cumNorm(y);
    check(y >= x ? d >= c - 2 * tol : d <= c + 2 * tol, "cumNorm-monotone", num(x) + " and " + num(y) + ": " + num(c) + " and " + num(d));
    if (std::fabs(x) > 1e-300 && std::fabs(x) < 38) { Hash k; k.add(x); h.observed(k.h); }
    h.count("cumNorm"); if (x < -8.3 && x > -38) h.count("cumNorm_far_tail");
  }
}

static void inverse(Harness& h, Rng& r)
{
  for (int i = 0; i < 40; ++i)
  {
    double p;
    switch (r.below(8))
    {
    case 0: p = r.u(); break;
    case 1: p = std::ldexp(r.u(), -(int)r.below(1070)); break;
    case 2: p = 1 - std::ldexp(r.u(), -(int)r.below(50)); break;
    case 3: p = ulps(r, r.chance(.5) ? 0.02425 : 1 - 0.02425, r.below(5)); break;
    case 4: p = r.below(1ull << 32) * 0x1p-32; break;
    case 5: p = r.chance(.5) ? (1 + r.below(20)) * 0x1p-32 : 1 - (1 + r.below(20)) * 0x1p-32; break;
    case 6: p = ulps(r, 0.5, r.below(6)); break;
    default: p = std::vector<double>{5e-324, 1e-310, 2.3e-308, 0x1p-53, 1e-16, 1 - 0x1p-53, 1e-8, .5}[r.below(8)]; break;
    }
    if (!(p > 0 && p < 1)) continue;
    h.inputs = "p " + num(p);
    double z = invCumNorm(p);
    check(std::isfinite(z), "invCumNorm-finite", num(z));
    L rel = 1e-15L + (z < 0 ? 6e-16L * (4 + (L)z * z) : 0);
    if (p < 1e-290) rel = 4e-6L;                                            // 1.15e-9 relative to z, times z^2, beyond where the density can be represented
    L tol = z <= 0 ? p * rel : 4e-16L;
    check(fabsl(Phi(z) - p) <= tol, "invCumNorm", num(z) + " whose cumulative value is " + num(Phi(z)));
    check(fabsl((L)cumNorm(z) - p) <= 2 * tol + 5e-324L, "invCumNorm-roundtrip", num(z) + " has the value " + num(cumNorm(z)));
    double q = r.chance(.5) ? ulps(r, p, 3) : std::min(p * (1 + (r.u() - .5) * .5), 1 - 0x1p-53);
    if (q > 0 && q < 1)
    {
      double y = invCumNorm(q);
      L slack = 2 * (tol + p * 1e-15L) / std::max(phi(z), (L)1e-4000L);
      check(q >= p ? y >= z - slack : y <= z + slack, "invCumNorm-monotone", num(p) + " and " + num(q) + ": " + num(z) + " and " + num(y));
    }
    Hash k; k.add(p); h.observed(k.h);
    h.count("invCumNorm"); if (p < 1e-16) h.count("invCumNorm_far_tail");
  }
  h.inputs = "limits";
  check(invCumNorm(0.0) < -1e300 && invCumNorm(1.0) > 1e300 && invCumNorm(0.5) == 0.0, "invCumNorm-limits");
  for (double bad: {-0.1, 1.1, -1e300, 1e300, (double)INFINITY, (double)-INFINITY, 2.0, -5e-16, 1 + 1e-15})
  {
    bool threw = false;
    double z = 0;
    try { z = invCumNorm(bad); } catch (const std::exception&) { threw = true; }
    check(threw, "invCumNorm-domain", num(bad) + " gives " + num(z));
    h.count("refused");
  }
}

static void chi2(Harness& h, Rng& r, std::vector<std::string>& known)
{
  for (int i = 0; i < 20; ++i)
  {
    uint32_t d;
    switch (r.below(4))
    {
    case 0: d = r.in(1, 40); break;
    case 1: d = r.in(1, 1000); break;
    case 2: d = (uint32_t)std::min(4294967295.0, std::pow(2.0, r.u() * 32)); break;
    default: d = std::vector<uint32_t>{1, 2, 3, 4, 100, 10000, 1000000, 4294967295u, 2147483648u}[r.below(9)]; break;
    }
    double sd = std::sqrt(2.0 * d), x;
    switch (r.below(6))
    {
    case 0: x = d + sd * (r.u() - .5) * 4; break;
    case 1: x = d + sd * (r.u() - .5) * 16; break;
    case 2: x = d * r.u() * 3; break;
    case 3: x = std::ldexp(r.u(), r.in(-60, 40)); break;
    case 4: x = ulps(r, r.chance(.5) ? d : 2, r.below(4)); break;
    default: x = r.chance(.3) ? 0 : d + r.in(-2, 2); break;
    }
    if (x < 0) x = 0;
    h.inputs = "dof " + std::to_string(d) + " x " + num(x);
    std::pair<double,bool> p = pValue(d, x);
    L a = d * 0.5L, q = boost::math::gamma_q(a, (L)x / 2);
    L logdensity = x > 0 ? a * logl((L)x / 2) - (L)x / 2 - lgammal(a) : -INFINITY;
    const L limit = logl(1e-37L);
    L slack = 1e-3L + 1e-14L * d;
    double tol = 2e-8 + 1e-14 * d;
    if (x > 0 && logdensity < limit - slack)
    {
      if (std::fabs(p.first - (double)q) > tol)
      {
        check(x > d && p.first == 1.0 && !p.second, "pValue-underflow-value", num(p.first) + " instead of " + num(q));
        known.push_back("dof " + std::to_string(d) + " x " + num(x) + ": " + num(p.first) + " instead of " + num(q));
        h.count("known_underflow");
      }
      continue;
    }
    check(std::fabs(p.first - (double)q) <= tol, "pValue", num(p.first) + " instead of " + num(q));
    if (x == 0 || logdensity > limit + slack) check(p.second, "pValue-flag", "flagged as potentially inaccurate");
    Hash k; k.add(d); k.add(x); h.observed(k.h);
    h.count("pValue"); if (d > 5000000) h.count("pValue_many_dof"); if (q < 1e-3) h.count("pValue_upper_tail");
  }
  h.inputs = "special";
  check(std::isnan(pValue(5, NAN).first) && !pValue(5, NAN).second, "pValue-nan");
  check(pValue(5, INFINITY).first == 0.0 && pValue(5, -INFINITY).first == 1.0, "pValue-infinite");
}

// chi-squared statistic and degrees of freedom
static void statistics(Harness& h, Rng& r)
{
  std::vector<int64_t> s(r.in(1, 5));
  int64_t n = 1;
  for (auto& x: s) { x = r.in(1, 5); n *= x; }
  std::vector<int64_t> v(n); std::vector<double> m(n); std::vector<uint32_t> u(n);
  L e = 0, eu = 0;
  for (int64_t i = 0; i < n; ++i)
  {
    bool impossible = r.chance(.1);
    v[i] = impossible ? 0 : r.in(0, 30); u[i] = v[i]; m[i] = impossible ? 0 : r.u() * 20 + 1e-3;
    if (!impossible) e += (L)(v[i] - (L)m[i]) * (v[i] - (L)m[i]) / m[i];
  }
  h.inputs = "sizes " + show(s) + " sample " + show(v) + " mean " + show(m);
  double c = chiSq(NDArray<int64_t>(s, v.data()), NDArray<double>(s, m.data()));
  check(fabsl(c - e) <= 1e-12L * (1 + e), "chiSq", num(c) + " instead of " + num(e));
  c = chiSq(NDArray<uint32_t>(s, u.data()), NDArray<double>(s, m.data()));
  check(fabsl(c - e) <= 1e-12L * (1 + e), "chiSq-unsigned", num(c) + " instead of " + num(e));
  int64_t d = 1;
  for (auto x: s) d *= x - 1;
  check(dof(s) == d, "dof", std::to_string(dof(s)) + " instead of " + std::to_string(d));
  h.count("chiSq");
}

static L exact_inverse(double p)
{
  L z = invCumNorm(p);
  for (int i = 0; i < 3; ++i) { L r = ((z < 0 ? Phi(z) - p : (1 - (L)p) - Phi(-z))) / phi(z); z -= r / (1 + 0.5L * z * r); }
  return z;
}

static void correlate(Harness& h, Rng& r)
{
  double rho;
  switch (r.below(4))
  {
  case 0: rho = std::vector<double>{0, 1, -1, .5, -.5, -0.0, 5e-324, std::nextafter(1.0, 0.0), -std::nextafter(1.0, 0.0)}[r.below(9)]; break;
  case 1: rho = (r.chance(.5) ? 1 : -1) * (1 - std::ldexp(r.u(), -(int)r.below(40))); break;
  default: rho = 2 * r.u() - 1; break;
  }
  h.inputs = "rho " + num(rho);
  Cholesky c(rho);
  const L s = sqrtl((1 - (L)rho) * (1 + (L)rho));
  const int N = r.chance(.05) ? 20000 : 100;
  L sx = 0, sy = 0, sxx = 0, syy = 0, sxy = 0; int n = 0;
  for (int i = 0; i < N; ++i)
  {
    std::vector<uint32_t> u(2);
    bool plain = N > 100;
    for (auto& x: u)
      x = plain || r.chance(.6) ? (uint32_t)r() : r.chance(.5) ? (uint32_t)r.below(4) : r.chance(.5) ? (uint32_t)(0xffffffffu - r.below(4)) : 1u << r.below(32);
    auto g = c(u);
    std::string w = "rho " + num(rho) + " of " + show(u) + " gives " + std::to_string(g.first) + "," + std::to_string(g.second);
    if (!plain) h.inputs = w;
    check(std::llabs((long long)g.first - (long long)u[0]) <= 1, "correlate-first", w);
    if (u[0] && u[1])
    {
      L z0 = exact_inverse(u[0] * 0x1p-32), z1 = exact_inverse(u[1] * 0x1p-32);
      L e = std::min(Phi(z0 * rho + z1 * s) * 0x1p32L, (L)0xffffffffu);
      // the factor sqrt(1-rho^2) is only computed to the rounding of 1-rho^2
      L slack = 1.01L + 0x1p32L * phi(z0 * rho + z1 * s) * (1e-7L * (s < 1e-6L) + (s > 0 ? 3e-16L / s : 0)) * fabsl(z1)
        + 0x1p32L * phi(z0 * rho + z1 * s) * (fabsl(rho) * 4e-16L / phi(z0) + s * 4e-16L / phi(z1));   // the inverse's own precision at the upper end
      check(fabsl(g.second - e) <= slack + 1e-4L, "correlate-second", w + " instead of " + num(e));
      L x = exact_inverse((g.first + .5) * 0x1p-32), y = exact_inverse((g.second + .5) * 0x1p-32);
      sx += x; sy += y; sxx += x * x; syy += y * y; sxy += x * y; ++n;
    }
    h.count("correlated");
    if (i < 20) { Hash k; k.add(rho); k.vec(u); h.observed(k.h); }
  }
  if (N > 100)
  {
    L cor = (sxy - sx * sy / n) / sqrtl((sxx - sx * sx / n) * (syy - sy * sy / n));
    check(fabsl(cor - rho) <= 6 * (1 - (L)rho * rho) / sqrtl(n) + 1e-4L, "correlation", "rho " + num(rho) + " observed " + num(cor));
    h.count("correlations");
  }
  for (double bad: {std::nextafter(1.0, 2.0), -std::nextafter(1.0, 2.0), 1 + r.u(), -1 - r.u(), 1e300, (double)INFINITY, (double)-INFINITY, (double)NAN})
  {
    bool threw = false;
    try { Cholesky x(bad); } catch (const std::exception&) { threw = true; }
    check(threw, "correlation-range", num(bad) + " is accepted");
    h.count("refused");
  }
}

struct Fixed { uint64_t x; uint64_t operator()() { return x; } };

template<typename I> void discrete(Harness& h, Rng& r)
{
  size_t n = r.chance(.1) ? 1 : r.in(1, r.chance(.1) ? 200 : 12);
  std::vector<I> f(n);
  const bool huge = r.chance(.1);
  const bool zeros = r.chance(.4);
  for (auto& x: f) x = zeros && r.chance(.5) ? 0 : huge ? r.in(0, (1ll << 31) / (int64_t)n - 1) : r.in(0, 20);
  if (std::accumulate(f.begin(), f.end(), (I)0) == 0) f[r.below(n)] = 1;
  h.inputs = "frequencies " + show(f);
  std::vector<I> left(f);
  int64_t sum = std::accumulate(f.begin(), f.end(), (int64_t)0);
  {
    discrete_distribution_with_replacement<I> w(f.begin(), f.end());
    for (int i = 0; i < 20; ++i)
    {
      uint32_t x = r.chance(.7) ? (uint32_t)r() : r.chance(.5) ? 0 : 0xffffffffu;
      int64_t k = (int64_t)((double)x / 4294967296.0 * sum), e = 0, s = f[0];
      while (k >= s) s += f[++e];
      size_t g = w(x);
      check(g == (size_t)e && f[e] > 0, "with-replacement", "variate " + std::to_string(x) + " gives " + std::to_string(g) + " instead of " + std::to_string(e));
    }
    for (size_t i = 0; i < n; ++i) check(w[i] == f[i], "with-replacement-frequencies");
    std::vector<double> p(f.begin(), f.end());
    for (auto& x: p) x /= 7;
  }
  discrete_distribution_without_replacement<I> d(f.begin(), f.end());
  std::vector<int64_t> seen(n, 0);
  int64_t total = sum;
  for (int64_t i = 0; i < std::min<int64_t>(total, huge ? 300 : 1 << 20); ++i)
  {
    check(!d.empty(), "empty", "after " + std::to_string(i) + " of " + std::to_string(total));
    uint32_t x = r.chance(.8) ? (uint32_t)r() : r.chance(.5) ? 0 : 0xffffffffu;
    int64_t k, e = 0, s = left[0];
    if (r.chance(.3))
    {
      size_t first = r.in(1, n + (r.chance(.1) ? 3 : 0));
      size_t m = std::min(first, n);
      int64_t allowed = std::accumulate(left.begin(), left.begin() + m, (int64_t)0);
      I g = d.constrainedSample(x, first);
      h.count("constrained");
      if (allowed == 0)
      {
        check(g == (I)-1, "constrained-impossible", "gives " + std::to_string(g));
        check(d.freq() == left, "constrained-impossible", "changes the frequencies");
        h.count("constrained_impossible");
        --i;
        if (r.chance(.2)) break;
        continue;
      }
      k = (int64_t)((double)x / 4294967296.0 * allowed);
      while (k >= s) s += left[++e];
      check(g == (I)e && (size_t)e < m, "constrained", "variate " + std::to_string(x) + " below " + std::to_string(first) + " of " + show(left) + " gives " + std::to_string(g) + " instead of " + std::to_string(e));
    }
    else
    {
      k = (int64_t)((double)x / 4294967296.0 * sum);
      while (k >= s) s += left[++e];
      Fixed fx{x};
      I g = r.chance(.5) ? d((I)x) : d(fx);
      check(g == (I)e, "without-replacement", "variate " + std::to_string(x) + " of " + show(left) + " gives " + std::to_string(g) + " instead of " + std::to_string(e));
    }
    --left[e]; --sum; ++seen[e];
    check(left[e] >= 0 && d.freq() == left, "frequencies", show(d.freq()) + " instead of " + show(left));
    h.count("draws");
  }
  if (sum == 0)
  {
    for (size_t i = 0; i < n; ++i) check(seen[i] == (int64_t)f[i], "exactly-once", "category " + std::to_string(i));
    check(d.empty(), "empty", "not empty when depleted");
    for (int i = 0; i < 2; ++i)
    {
      bool threw = false;
      try { if (i) d.constrainedSample(0, n); else d((I)0); } catch (const std::exception&) { threw = true; }
      check(threw, "depleted", "a depleted distribution can be sampled");
    }
    h.count("depleted");
  }
  Hash k; k.vec(f); h.observed(k.h);
}

int main(int argc, char** argv)
{
  Harness h;
  std::vector<std::string> known;
  return h.run(argc, argv, [&](Harness& h, Rng& r) {
    switch (r.below(8))
    {
    case 0: cumulative(h, r); break;
    case 1: inverse(h, r); break;
    case 2: case 3: chi2(h, r, known); break;
    case 4: statistics(h, r); break;
    case 5: correlate(h, r); break;
    case 6: discrete<uint32_t>(h, r); break;
    default: discrete<int64_t>(h, r); break;
    }
    if (!known.empty()) { std::string m = known[0]; known.clear(); throw Known{{"pvalue-underflow", m}}; }
  });
}
