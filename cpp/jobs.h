// Self-contained computations ("jobs") over the C++ API, each giving a byte string of everything observable.
#pragma once
#include "harness.h"
#include "NDArray.h"
#include "NDArrayUtils.h"
#include "Index.h"
#include "IPF.h"
#include "QIS.h"
#include "QISI.h"
#include "Integerise.h"
#include "Sobol.h"
#include "StatFuncs.h"
#include "DDWR.h"
#include <algorithm>
#include <memory>
#include <numeric>

typedef std::vector<int64_t> V;

struct Bytes
{
  std::string s;
  template<typename T> void add(const T& x)
  {
    if constexpr (std::is_floating_point<T>::value) if (x != x) { s += "nan"; return; }   // the sign of a NaN is immaterial
    s.append((const char*)&x, sizeof x);
  }
  template<typename T> void vec(const std::vector<T>& v) { add(v.size()); for (auto& x: v) add(x); }
  template<typename T> void arr(const NDArray<T>& a)
  {
    vec(a.sizes());
    for (size_t i = 0; i < a.storageSize(); ++i) add(a.rawData()[i]);
  }
};

// A problem: marginals of a random population
struct Problem
{
  V sizes;
  std::vector<int64_t> pop;
  std::vector<V> indices;
  std::vector<double> seed;
  int64_t skips = 0;
  bool isWide = false, isLarge = false;
  const char* shape() const { return isWide ? "wide" : isLarge ? "large" : "small"; }

  std::string desc() const
  {
    std::string s = "sizes " + show(sizes) + " population " + show(pop) + " indices";
    for (auto& i: indices) s += " " + show(i);
    return s + " skips " + std::to_string(skips) + (seed.size() ? " seed " + show(seed) : "");
  }

  Problem(Rng& r, size_t maxcells = 120, bool withSeed = false)
  {
    size_t n;
    const double mode = r.u();
    const bool wide = mode < .08, large = mode > .97;         // many dimensions, many states
    do
    {
      sizes.assign(wide ? r.in(5, 8) : large ? r.in(2, 3) : r.in(2, 4), 1);
      n = 1;
      for (auto& s: sizes) { s = wide ? r.in(1, 3) : large ? r.in(2, 70) : r.in(1, 6); n *= s; }
    }
    while (wide ? n > 200 : large ? n < 300 || n > (withSeed ? 500 : 5000) : n > maxcells);
    pop.resize(n);
    int max = r.in(1, 6);
    const double empty = large ? 1 - 8.0 / n : wide ? 1 - 25.0 / n : .3;
    for (auto& x: pop) x = r.chance(empty) ? 0 : r.in(0, max);
    isWide = wide; isLarge = large;
    size_t nd = sizes.size();
    V d(nd);
    std::iota(d.begin(), d.end(), 0);
    r.shuffle(d);
    switch (nd == 2 ? 0 : r.below(3))
    {
    case 0: for (auto k: d) indices.push_back({k}); break;
    case 1: indices.push_back({d[0], d[1]}); for (size_t k = 2; k < nd; ++k) indices.push_back({d[k]}); break;
    default: for (size_t k = 0; k + 1 < nd; ++k) indices.push_back({d[k], d[k+1]}); break;         // a chain
    }
    if (r.chance(.2)) skips = r.in(1, 5000);
    if (withSeed)
    {
      seed.resize(n);
      for (size_t i = 0; i < n; ++i) seed[i] = pop[i] == 0 && r.chance(.5) ? 0.0 : r.u() + .01;
    }
  }

  template<typename T> std::vector<NDArray<T>> marginals() const
  {
    NDArray<int64_t> a(sizes);
    std::copy(pop.begin(), pop.end(), a.begin());
    std::vector<NDArray<T>> m(indices.size());
    for (size_t k = 0; k < indices.size(); ++k)
    {
      const NDArray<int64_t> x = reduce(a, indices[k]);
      m[k].resize(x.sizes());
      for (size_t i = 0; i < x.storageSize(); ++i) m[k].begin()[i] = T(x.rawData()[i]);
    }
    return m;
  }
};

struct Job
{
  std::string name, desc;
  const char* shape = "small";
  bool quick = true;                                   // suitable for repetition
  virtual ~Job() { }
  virtual std::string compute() = 0;
  std::string run()
  {
    try { return compute(); }
    catch (const std::bad_alloc&) { throw; }
    catch (const std::exception& e) { return std::string("error: ") + e.what(); }
  }
};

struct SobolJob: Job
{
  size_t dim; uint32_t skips; int points; int how; size_t bad;
  SobolJob(Rng& r)
  {
    name = "sobol";
    dim = r.chance(.1) ? r.in(100, 1111) : r.in(1, 20);
    skips = r.chance(.5) ? r.below(dim > 20 ? 500 : 20000) : 0;
    points = r.in(1, 60); how = r.below(5); bad = r.chance(.1) ? (r.chance(.5) ? 0 : r.in(1112, 5000)) : dim;
    desc = "sobol dim " + std::to_string(bad) + " skips " + std::to_string(skips) + " points " + std::to_string(points) + " how " + std::to_string(how);
  }
  std::string compute() override
  {
    Bytes b;
    Sobol s(bad, skips);
    for (int i = 0; i < points; ++i)
    {
      if (how == 0) b.vec(s.buf());
      else for (size_t d = 0; d < dim; ++d) b.add(s());
      if (how == 2 && i == points / 2) s.reset();
      if (how == 3 && i == points / 2) s.skip(skips / 2 + 1);
      if (how == 4 && i == points / 2) s.reset(skips + 1);
    }
    b.add(s.dim()); b.add(s.min()); b.add(s.max());
    return b.s;
  }
};

struct QISJob: Job
{
  Problem p; int corrupt; bool twice;
  QISJob(Rng& r): p(r), corrupt(r.chance(.15) ? r.in(1, 4) : 0), twice(r.chance(.3))
  {
    shape = p.shape();
    name = corrupt ? "qis_error" : "qis"; desc = "qis " + p.desc() + " corrupt " + std::to_string(corrupt);
  }
  std::string compute() override
  {
    Bytes b;
    auto m = p.marginals<int64_t>();
    auto idx = p.indices;
    if (corrupt == 1) m[0].begin()[0] += 1;
    if (corrupt == 2) m[0].begin()[0] = -1;
    if (corrupt == 3) idx[0][0] = 9;
    if (corrupt == 4) idx.pop_back();
    QIS q(idx, m, p.skips);
    for (int i = 0; i < 1 + twice; ++i)
    {
      b.arr(q.solve(i > 0));
      b.arr(q.expectation());
      b.add(q.conv()); b.add(q.chiSq()); b.add(q.pValue()); b.add(q.degeneracy()); b.add(q.population());
    }
    return b.s;
  }
};

struct QISIJob: Job
{
  Problem p; int corrupt; bool twice;
  QISIJob(Rng& r): p(r, 36, true), corrupt(r.chance(.15) ? r.in(1, 3) : 0), twice(r.chance(.2))
  {
    shape = p.shape();
    name = corrupt ? "qisi_error" : "qisi"; desc = "qisi " + p.desc() + " corrupt " + std::to_string(corrupt);
  }
  std::string compute() override
  {
    Bytes b;
    auto m = p.marginals<int64_t>();
    NDArray<double> seed(p.sizes);
    std::copy(p.seed.begin(), p.seed.end(), seed.begin());
    if (corrupt == 1) seed.begin()[0] = -1;
    if (corrupt == 2) m[0].begin()[0] += 1;
    if (corrupt == 3) { V s(p.sizes); s[0] += 1; seed.resize(s); seed.assign(1.0); }
    QISI q(p.indices, m, p.skips);
    for (int i = 0; i < 1 + twice; ++i)
    {
      b.arr(q.solve(seed, i > 0));
      b.arr(q.expectation());
      b.add(q.conv()); b.add(q.chiSq()); b.add(q.pValue()); b.add(q.degeneracy());
    }
    return b.s;
  }
};

struct IPFJob: Job
{
  Problem p; int corrupt;
  IPFJob(Rng& r): p(r, 80, true), corrupt(r.chance(.15) ? r.in(1, 3) : 0)
  {
    shape = p.shape();
    name = corrupt ? "ipf_error" : "ipf"; desc = "ipf " + p.desc() + " corrupt " + std::to_string(corrupt);
  }
  std::string compute() override
  {
    Bytes b;
    auto m = p.marginals<double>();
    NDArray<double> seed(p.sizes);
    std::copy(p.seed.begin(), p.seed.end(), seed.begin());
    if (corrupt == 1) seed.begin()[0] = -1;
    if (corrupt == 2) m[0].begin()[0] += 1;
    if (corrupt == 3) { V s(p.sizes); s[0] += 1; seed.resize(s); seed.assign(1.0); }
    IPF<double> f(p.indices, m);
    b.arr(f.solve(seed));
    b.add(f.conv()); b.add(f.iters()); b.add(f.maxError()); b.add(f.population());
    for (auto& e: f.errors()) b.arr(e);
    return b.s;
  }
};

struct IntegeriseJob: Job
{
  Problem p; bool bad;
  IntegeriseJob(Rng& r): p(r, 36, true), bad(r.chance(.15)) { shape = p.shape(); name = bad ? "integerise_error" : "integerise"; desc = "integerise " + p.desc(); }
  std::string compute() override
  {
    Bytes b;
    auto m = p.marginals<double>();
    NDArray<double> seed(p.sizes);
    std::copy(p.seed.begin(), p.seed.end(), seed.begin());
    if (!bad)
    {
      IPF<double> f(p.indices, m);
      NDArray<double>::copy(f.solve(seed), seed);
    }
    Integeriser g(seed);
    b.arr(g.result()); b.add(g.conv()); b.add(g.rmse());
    return b.s;
  }
};

struct RoundJob: Job
{
  std::vector<double> p; int pop;
  RoundJob(Rng& r): p(r.chance(.05) ? r.in(41, 6000) : r.in(1, 40)), pop(r.in(0, r.chance(.1) ? 100000 : 1000))
  {
    double s = 0;
    for (auto& x: p) s += x = r.u() + 1e-3;
    for (auto& x: p) x /= s;
    if (r.chance(.2)) p[r.below(p.size())] = -1;
    name = "round"; desc = "round " + show(p) + " to " + std::to_string(pop);
  }
  std::string compute() override
  {
    Bytes b;
    double rmse;
    b.vec(integeriseMarginalDistribution(p, pop, rmse)); b.add(rmse);
    return b.s;
  }
};

struct ArrayJob: Job
{
  Problem p; V dims; std::vector<std::pair<int64_t,int64_t>> fixed; bool bad;
  ArrayJob(Rng& r): p(r), bad(r.chance(.1))
  {
    name = "array"; shape = p.shape();
    V d(p.sizes.size());
    std::iota(d.begin(), d.end(), 0);
    r.shuffle(d);
    for (auto k: d) { if (dims.empty() || r.chance(.6)) dims.push_back(k); else fixed.push_back({k, r.below(p.sizes[k])}); }
    if (bad) fixed.push_back({d[0], 99});
    desc = "array " + p.desc() + " onto " + show(dims);
  }
  std::string compute() override
  {
    Bytes b;
    NDArray<int64_t> a(p.sizes);
    std::copy(p.pop.begin(), p.pop.end(), a.begin());
    b.arr(reduce(a, dims)); b.arr(slice(a, fixed)); b.vec(reduce(a, 0));
    NDArray<double> d(p.sizes);
    diff(a, a, d); b.arr(d);
    NDArray<int64_t> c;
    NDArray<int64_t>::copy(a, c);
    NDArray<int64_t> e(std::move(c));
    e.resize({7, 3}); e.assign(1); b.arr(e);
    b.add(sum(a)); b.add(min(a)); b.add(max(a));
    auto l = listify(sum(a), a);
    for (auto& x: l) b.vec(x);
    Index main(p.sizes);
    for (MappedIndex i(main, dims); !i.end(); ++i) b.add(a[main]);
    for (TransposedIndex i(p.sizes); !i.end(); ++i) b.add(a[i]);
    return b.s;
  }
};

struct StatJob: Job
{
  std::vector<double> x; std::vector<uint32_t> u; double rho; uint32_t dof;
  StatJob(Rng& r): x(r.in(5, 40)), u(r.in(2, 30)), rho(r.u() * 2.2 - 1.1), dof(r.chance(.1) ? r.in(500, 2000000) : r.in(1, 500))
  {
    name = "stat";
    for (auto& y: x) y = r.u();
    for (auto& y: u) y = (uint32_t)r();
    desc = "stat " + show(x) + " rho " + num(rho) + " dof " + std::to_string(dof);
  }
  std::string compute() override
  {
    Bytes b;
    for (auto y: x) { double z = invCumNorm(y); b.add(z); b.add(cumNorm(z)); auto p = pValue(dof, y * 3 * dof); b.add(p.first); b.add(p.second); }
    std::vector<int64_t> f(u.begin(), u.end());
    for (auto& y: f) y &= 15;
    f[0] += 1;
    discrete_distribution_without_replacement<int64_t> d(f.begin(), f.end());
    for (auto y: u) { b.add(d(int64_t(y))); if (d.empty()) break; }
    Cholesky c(rho);
    for (size_t i = 0; i + 1 < u.size(); ++i) { auto g = c({u[i], u[i+1]}); b.add(g.first); b.add(g.second); }
    return b.s;
  }
};

inline std::unique_ptr<Job> makeJob(Rng& r)
{
  switch (r.below(11))
  {
  case 0: case 1: return std::make_unique<SobolJob>(r);
  case 2: case 3: return std::make_unique<QISJob>(r);
  case 4: case 5: return std::make_unique<QISIJob>(r);
  case 6: return std::make_unique<IPFJob>(r);
  case 7: return std::make_unique<IntegeriseJob>(r);
  case 8: return std::make_unique<RoundJob>(r);
  case 9: return std::make_unique<ArrayJob>(r);
  default: return std::make_unique<StatJob>(r);
  }
}
