// C04: what the C++ fitting class reports, and using one object again.
#include "jobs.h"

// sums of the array with the given dimensions kept, in the order listed
static std::vector<long double> sums(const double* a, const V& sizes, const V& keep)
{
  size_t n = 1; for (auto k: keep) n *= sizes[k];
  std::vector<long double> out(n, 0.0L);
  size_t total = 1; for (auto s: sizes) total *= s;
  V idx(sizes.size());
  for (size_t i = 0; i < total; ++i)
  {
    size_t r = i;
    for (size_t d = sizes.size(); d-- > 0;) { idx[d] = r % sizes[d]; r /= sizes[d]; }
    size_t j = 0; for (auto k: keep) j = j * sizes[k] + idx[k];
    out[j] += a[i];
  }
  return out;
}

template<typename M> static void one(Harness& h, Rng& r)
{
  Problem p(r, 80, true);
  auto m = p.marginals<M>();
  const int kind = r.below(4);      // feasible, seeds with unrelated zeros, inconsistent marginals, not integral
  bool disjoint = true;
  { std::set<int64_t> s; for (auto& i: p.indices) for (auto d: i) disjoint &= s.insert(d).second; }
  if (kind == 2 && disjoint)
    for (auto& a: m)
    {
      std::vector<M> x(a.begin(), a.end());
      r.shuffle(x);
      std::copy(x.begin(), x.end(), a.begin());
    }
  if (kind == 3 && std::is_floating_point<M>::value)
  {
    const double f = std::ldexp(r.u() + .5, r.in(-12, 12));
    for (auto& a: m) for (auto& x: a) x = M(x * f);
  }
  NDArray<double> seed(p.sizes), seed2(p.sizes);
  std::copy(p.seed.begin(), p.seed.end(), seed.begin());
  for (auto& x: seed2) x = kind == 1 && r.chance(.4) ? 0.0 : r.u() + 1e-3;
  if (kind == 1) for (auto& x: seed) if (r.chance(.3)) x = 0.0;
  h.inputs = p.desc() + " kind " + std::to_string(kind);
  std::vector<std::vector<M>> before;
  for (auto& a: m) before.emplace_back(a.begin(), a.end());
  const std::vector<double> seed0(seed.begin(), seed.end());

  auto everything = [&](IPF<M>& f, const NDArray<double>& res)
  {
    Bytes b;
    b.arr(res); b.add(f.conv()); b.add(f.iters()); b.add(f.maxError()); b.add(f.population());
    for (auto& e: f.errors()) b.arr(e);
    return b.s;
  };
  auto judge = [&](IPF<M>& f, const NDArray<double>& res)
  {
    check(res.sizes() == p.sizes, "shape", show(res.sizes()));
    for (size_t i = 0; i < res.storageSize(); ++i) check(std::isfinite(res.rawData()[i]) && res.rawData()[i] >= 0, "finite", num(res.rawData()[i]));
    check(f.errors().size() == m.size(), "errors", "one array of errors for each marginal expected");
    double worst = 0, noise = 0;
    for (size_t k = 0; k < m.size(); ++k)
    {
      const auto s = sums(res.rawData(), p.sizes, p.indices[k]);
      const NDArray<double>& e = f.errors()[k];
      check(e.sizes() == m[k].sizes(), "errors", "the errors of marginal " + std::to_string(k) + " have another shape");
      for (size_t i = 0; i < s.size(); ++i)
      {
        const double x = (double)fabsl(s[i] - (long double)m[k].rawData()[i]), t = std::max((double)s[i], (double)m[k].rawData()[i]) * 4e-16 * (res.storageSize() + 8);
        check(std::fabs(e.rawData()[i] - x) <= t, "errors", "marginal " + std::to_string(k) + " element " + std::to_string(i) + ": " + num(e.rawData()[i]) + " reported, actually " + num(x));
        worst = std::max(worst, e.rawData()[i]);
      }
    }
    check(f.maxError() == worst, "maxError", num(f.maxError()) + " is not the largest of the errors " + num(worst));
    check(f.conv() == (f.maxError() < 1e-8), "conv", num(f.maxError()));
    check(f.iters() >= 1 && f.iters() <= 1000 && (f.conv() || f.iters() == 1000), "iterations", std::to_string(f.iters()));
    h.count(f.conv() ? "cpp_converged" : "cpp_not_converged");
  };
  IPF<M> f(p.indices, m);
  const NDArray<double>& res = f.solve(seed);
  judge(f, res);
  const std::string first = everything(f, res);
  if (r.chance(.5))
  {
    bool refused = false;
    NDArray<double> bad(p.sizes);
    bad.assign(1.0);
    if (r.chance(.5)) bad.begin()[r.below(bad.storageSize())] = r.chance(.5) ? -1.0 : NAN;
    else { V s(p.sizes); s[r.below(s.size())] += 1; bad.resize(s); bad.assign(1.0); }
    try { f.solve(bad); } catch (const std::exception&) { refused = true; }
    check(refused, "refused", "a malformed seed is accepted");
    h.count("cpp_refused");
  }
  const NDArray<double>& again = f.solve(seed2);      // the same object with another seed
  judge(f, again);
  {
    IPF<M> g(p.indices, m);
    check(everything(f, again) == everything(g, g.solve(seed2)), "reused", "an object that was used before gives another fit");
  }
  check(everything(f, f.solve(seed)) == first, "reused", "an object that was used before gives another fit of the first seed");
  for (size_t k = 0; k < m.size(); ++k) check(std::vector<M>(m[k].begin(), m[k].end()) == before[k], "modified", "marginal " + std::to_string(k) + " was modified");
  check(std::vector<double>(seed.begin(), seed.end()) == seed0, "modified", "the seed was modified");
  h.count("cpp_fits", 3);
  Hash k; k.bytes(first.data(), first.size()); k.vec(seed0); h.observed(k.h);
}

int main(int argc, char** argv)
{
  Harness h;
  return h.run(argc, argv, [&](Harness& h, Rng& r) { if (r.chance(.6)) one<double>(h, r); else one<int64_t>(h, r); });
}
