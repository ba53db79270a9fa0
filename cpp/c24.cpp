// C24: array views, reductions and slices against their definitions.
#include "harness.h"
#include "NDArray.h"
#include "NDArrayUtils.h"
#include "Index.h"
#include <algorithm>
#include <limits>
#include <type_traits>
#include <utility>

typedef std::vector<int64_t> V;

static size_t flat(const V& sizes, const V& idx)
{
  size_t r = 0;
  for (size_t d = 0; d < sizes.size(); ++d) r = r * sizes[d] + idx[d];
  return r;
}

// all coordinates in row-major order (or column-major)
static std::vector<V> all(const V& sizes, bool transposed = false)
{
  size_t n = 1;
  for (auto s: sizes) n *= s;
  std::vector<V> out(n, V(sizes.size()));
  for (size_t k = 0; k < n; ++k)
  {
    size_t q = k;
    if (transposed)
      for (size_t d = 0; d < sizes.size(); ++d) { out[k][d] = q % sizes[d]; q /= sizes[d]; }
    else
      for (size_t d = sizes.size(); d-- > 0; ) { out[k][d] = q % sizes[d]; q /= sizes[d]; }
  }
  return out;
}

static V shape(Rng& r)
{
  for (;;)
  {
    size_t nd = r.chance(.15) ? 1 : r.in(2, 8);
    V s(nd);
    size_t n = 1;
    bool distinct = r.chance(.4);
    V pool = {1,2,3,4,5,6,7,8,9};
    r.shuffle(pool);
    for (size_t d = 0; d < nd; ++d) { s[d] = distinct ? pool[d] : r.in(r.chance(.15) ? 1 : 2, nd > 5 ? 3 : nd > 3 ? 5 : 9); n *= s[d]; }
    if (r.chance(.001))        // very many elements
    {
      do { s.assign(r.in(2, 5), 1); n = 1; for (auto& x: s) { x = r.in(2, s.size() == 2 ? 500 : s.size() == 3 ? 80 : 24); n *= x; } }
      while (n < 20000 || n > 120000);
    }
    else if (r.chance(.0005)) { s.assign(r.in(1, 2), 1); s[r.below(s.size())] = r.in(60000, 70000); n = product(s); }
    else if (n > (r.chance(.1) ? 3000 : 400)) continue;
    return s;
  }
}

static V subset(Rng& r, size_t nd, size_t lo, size_t hi)
{
  V d(nd);
  for (size_t i = 0; i < nd; ++i) d[i] = i;
  r.shuffle(d);
  d.resize(r.in(lo, hi));
  if (r.chance(.3)) std::sort(d.begin(), d.end());
  return d;
}

template<typename T> std::vector<T> values(Rng& r, size_t n)
{
  std::vector<T> v(n);
  int style = r.below(5);
  for (auto& x: v)
  {
    switch (style)
    {
    case 0: x = T(r.in(0, 9)); break;
    case 1: x = T(r.in(-50, 50)); break;
    case 2: x = T(-r.in(1, 1000)); break;
    case 3: x = std::is_integral<T>::value ? T(int64_t(r() >> (sizeof(T) > 4 ? 20 : n > 4096 ? 50 : 46))) : T(r.u() * std::pow(10.0, r.in(-9, 9))); break;
    default: x = r.chance(.8) ? T(0) : T(r.in(1, 3)); break;
    }
  }
  return v;
}

template<typename T> static bool same(T a, T b, double scale)
{
  if (std::is_integral<T>::value) return a == b;
  return std::fabs(double(a) - double(b)) <= 1e-12 * scale;
}

template<typename T> std::string desc(const V& s, const std::vector<T>& v) { return "shape " + show(s) + " values " + show(v); }

template<typename T> void arrays(Harness& h, Rng& r)
{
  const V s = shape(r);
  const size_t nd = s.size();
  const std::vector<V> rows = all(s);
  const size_t n = rows.size();
  const std::vector<T> v = values<T>(r, n);
  h.inputs = desc(s, v);
  if (n >= 20000 && nd > 1) h.count("many_elements");
  double scale = 1;
  for (auto x: v) scale += std::fabs(double(x));

  NDArray<T> own(s);
  std::vector<T> ext(v);
  NDArray<T> wrapped(s, ext.data());
  check(own.dim() == nd && own.storageSize() == n && own.sizes() == s, "array-shape");
  for (size_t d = 0; d < nd; ++d) check((int64_t)own.size(d) == s[d], "array-size");
  for (size_t k = 0; k < n; ++k) own[rows[k]] = v[k];
  for (size_t k = 0; k < n; ++k)
    check(own.rawData()[k] == v[k] && own.begin()[k] == v[k], "array-storage", "storage is not row-major");
  check((size_t)(own.end() - own.begin()) == n, "array-end");
  const NDArray<T>& a = r.chance(.5) ? own : wrapped;

  // element access
  for (int i = 0; i < 5; ++i)
  {
    const V& c = rows[r.below(n)];
    check(a[c] == v[flat(s, c)], "element", "element at " + show(c));
    V copy(c);
    std::vector<int64_t*> p(nd);
    for (size_t d = 0; d < nd; ++d) p[d] = &copy[d];
    check(a[p] == v[flat(s, c)], "element-mapped", "element at " + show(c));
  }

  // iteration
  {
    Index i(s);
    check(i.size() == nd && i.sizes() == s, "Index-size");
    for (int pass = 0; pass < 2; ++pass)
    {
      size_t k = 0;
      for (; !i.end(); ++i, ++k)
      {
        check(k < n, "Index", "visits too many elements");
        const V& c = i;
        check(c == rows[k], "Index", "visit " + std::to_string(k) + " is of " + show(c));
        check(a[i] == v[k], "Index-element");
      }
      check(k == n, "Index", "visits " + std::to_string(k) + " elements of " + std::to_string(n));
      i.reset();
    }
    for (size_t d = 0; d < nd; ++d) check(i[d] == 0, "Index-reset");
  }
  {
    const std::vector<V> cols = all(s, true);
    size_t k = 0;
    for (TransposedIndex i(s); !i.end(); ++i, ++k)
    {
      check(k < n, "TransposedIndex", "visits too many elements");
      const V& c = i;
      check(c == cols[k], "TransposedIndex", "visit " + std::to_string(k) + " is of " + show(c));
    }
    check(k == n, "TransposedIndex", "visits " + std::to_string(k) + " elements of " + std::to_string(n));
  }

  // totals
  {
    T t = T(0), lo = v[0], hi = v[0];
    for (auto x: v) { t += x; lo = std::min(lo, x); hi = std::max(hi, x); }
    check(same(sum(a), t, scale), "sum"); check(same(sum(v), t, scale), "sum-vector");
    check(min(a) == lo, "min", num(min(a))); check(max(a) == hi, "max", num(max(a)));
  }

  // differences
  {
    std::vector<T> w = values<T>(r, n);
    std::vector<double> y(n);
    for (size_t k = 0; k < n; ++k) y[k] = r.u() * 10;
    NDArray<T> b(s, w.data());
    NDArray<double> d(s);
    diff(a, b, d);
    for (size_t k = 0; k < n; ++k) check(d.rawData()[k] == double(v[k] - w[k]), "diff", "element " + std::to_string(k) + ": " + num(d.rawData()[k]));
    NDArray<double> c(s, y.data());
    diff(c, a, d);
    for (size_t k = 0; k < n; ++k) check(d.rawData()[k] == y[k] - v[k], "diff-mixed", "element " + std::to_string(k));
  }

  // reduction onto one dimension
  for (size_t d = 0; d < nd; ++d)
  {
    std::vector<T> e(s[d], T(0));
    for (size_t k = 0; k < n; ++k) e[rows[k][d]] += v[k];
    std::vector<T> g = reduce(a, d);
    check(g.size() == e.size(), "reduce1-size");
    for (size_t i = 0; i < e.size(); ++i) check(same(g[i], e[i], scale), "reduce1", "dimension " + std::to_string(d) + " category " + std::to_string(i) + ": " + num(g[i]) + " not " + num(e[i]));
  }
  {
    bool threw = false;
    try { reduce(a, nd + r.below(3)); } catch (const std::exception&) { threw = true; }
    check(threw, "reduce1-range", "a dimension out of range is accepted");
  }

  // onto several, in any order
  for (int rep = 0; rep < 4; ++rep)
  {
    V p = subset(r, nd, 1, nd);
    V ps;
    for (auto d: p) ps.push_back(s[d]);
    std::vector<V> pr = all(ps);
    std::vector<T> e(pr.size(), T(0));
    for (size_t k = 0; k < n; ++k)
    {
      V c;
      for (auto d: p) c.push_back(rows[k][d]);
      e[flat(ps, c)] += v[k];
    }
    const NDArray<T> g = reduce(a, p);
    check(g.sizes() == ps && g.dim() == p.size() && g.storageSize() == e.size(), "reduce-shape", "onto " + show(p) + ": " + show(g.sizes()));
    for (size_t i = 0; i < e.size(); ++i) check(same(g.rawData()[i], e[i], scale), "reduce", "onto " + show(p) + " at " + show(pr[i]) + ": " + num(g.rawData()[i]) + " not " + num(e[i]));
    h.count("reductions"); if (!std::is_sorted(p.begin(), p.end())) h.count("permuted_reductions");
  }

  // slices
  for (int rep = 0; rep < 4; ++rep)
  {
    V p = subset(r, nd, 0, nd - 1);
    std::vector<std::pair<int64_t,int64_t>> fixed;
    for (auto d: p) fixed.push_back({d, r.in(0, s[d] - 1)});
    V fs;
    for (size_t d = 0; d < nd; ++d) if (std::find(p.begin(), p.end(), (int64_t)d) == p.end()) fs.push_back(s[d]);
    std::vector<T> e;
    std::vector<V> ec;
    for (size_t k = 0; k < n; ++k)
    {
      bool in = true;
      for (auto& f: fixed) in = in && rows[k][f.first] == f.second;
      if (in) { e.push_back(v[k]); ec.push_back(rows[k]); }
    }
    std::string w = "fixed";
    for (auto& f: fixed) w += " " + std::to_string(f.first) + "=" + std::to_string(f.second);
    const NDArray<T> g = slice(a, fixed);
    check(g.sizes() == fs && g.storageSize() == e.size(), "slice-shape", w + ": " + show(g.sizes()));
    for (size_t i = 0; i < e.size(); ++i) check(g.rawData()[i] == e[i], "slice", w + " element " + std::to_string(i));
    if (fixed.size() == 1)
    {
      const NDArray<T> g1 = slice(a, fixed[0]);
      check(g1.sizes() == fs, "slice1-shape", w);
      for (size_t i = 0; i < e.size(); ++i) check(g1.rawData()[i] == e[i], "slice1", w + " element " + std::to_string(i));
    }
    if (!fixed.empty())
    {
      size_t k = 0;
      FixedIndex f(s, fixed);
      check(f.sizes() == fs, "FixedIndex-sizes", w);
      for (; !f.end(); ++f, ++k)
      {
        check(k < ec.size(), "FixedIndex", w + ": visits too many elements");
        const Index& full = f;
        const V& c = full;
        check(c == ec[k], "FixedIndex", w + ": visit " + std::to_string(k) + " is of " + show(c));
        check(f.free().size() == fs.size(), "FixedIndex-free", w);
        for (size_t d = 0, j = 0; d < nd; ++d)
          if (std::find(p.begin(), p.end(), (int64_t)d) == p.end()) { check(f[j] == c[d] && *f.free()[j] == c[d], "FixedIndex-free", w); ++j; }
      }
      check(k == ec.size(), "FixedIndex", w + ": visits " + std::to_string(k) + " elements");
      h.count("slices");
    }
    // out of range
    if (!fixed.empty() && r.chance(.3))
    {
      size_t j = r.below(fixed.size());
      bool threw = false;
      if (r.chance(.5)) fixed[j].second = s[fixed[j].first] + r.below(2); else fixed[j].first = nd + r.below(2);
      try { slice(a, fixed); } catch (const std::exception&) { threw = true; }
      check(threw, "slice-range", "a dimension or position out of range is accepted");
      h.count("refused");
    }
  }

  // mapped indices: nested loops over complementary sets of dimensions visit everything once
  {
    V p = subset(r, nd, 1, nd), q;
    for (size_t d = 0; d < nd; ++d) if (std::find(p.begin(), p.end(), (int64_t)d) == p.end()) q.push_back(d);
    V ps;
    for (auto d: p) ps.push_back(s[d]);
    const std::vector<V> pr = all(ps);
    Index main(s);
    std::vector<int> seen(n, 0);
    size_t k = 0, outer = 0;
    for (MappedIndex o(main, q); !o.end(); ++o, ++outer)
    {
      check(outer < n, "MappedIndex", "outer loop does not end");
      size_t j = 0;
      for (MappedIndex i(main, p); !i.end(); ++i, ++j, ++k)
      {
        check(j < pr.size(), "MappedIndex", "visits too many elements of " + show(p));
        const V& c = main;
        ++seen[flat(s, c)];
        for (size_t d = 0; d < p.size(); ++d)
          check(i[d] == pr[j][d] && c[p[d]] == pr[j][d], "MappedIndex", "visit " + std::to_string(j) + " over " + show(p) + " is of " + show(c));
        check(a[main] == v[flat(s, c)], "MappedIndex-element");
      }
    }
    check(k == n && std::count(seen.begin(), seen.end(), 1) == (std::ptrdiff_t)n, "MappedIndex", "nested loops over " + show(p) + " and " + show(q) + " make " + std::to_string(k) + " visits to " + std::to_string(n) + " elements");
    h.count("nested_loops");
  }

  // copies, moves, other sizes
  {
    NDArray<T> c;
    NDArray<T>::copy(a, c);
    check(c.sizes() == s && c.storageSize() == n && std::equal(v.begin(), v.end(), c.rawData()), "copy");
    c.begin()[r.below(n)] += T(1);
    check(std::equal(v.begin(), v.end(), a.rawData()), "copy-shares", "a copy shares its storage");
    NDArray<T> m(std::move(c));
    check(m.sizes() == s && m.storageSize() == n, "move");
    V s2 = shape(r);
    m.resize(s2);
    check(m.sizes() == s2 && m.storageSize() == (size_t)product(s2), "resize");
    m.assign(T(3));
    const std::vector<V> r2 = all(s2);
    for (size_t i = 0; i < r2.size(); ++i) m[r2[i]] += T(i % 7);
    for (size_t i = 0; i < r2.size(); ++i) check(m.rawData()[i] == T(3 + i % 7), "resize-elements");
    m.resize(s);
    NDArray<T>::copy(a, m);
    check(std::equal(v.begin(), v.end(), m.rawData()), "resize-copy");
    bool threw = false;
    try { wrapped.resize(s2); } catch (const std::exception&) { threw = true; }
    check(threw, "resize-external", "storage of another object is resized");
    for (int bad = 0; bad < 4; ++bad)
    {
      V sb(s);
      if (bad == 0) sb[r.below(nd)] = 0; else if (bad == 1) sb[r.below(nd)] = -1; else if (bad == 2) sb.clear(); else sb.assign(9, 1 << 20);
      threw = false;
      try { NDArray<T> x(sb); } catch (const std::exception&) { threw = true; }
      check(threw, "invalid-size", show(sb));
      threw = false;
      try { NDArray<T> x(sb, ext.data()); } catch (const std::exception&) { threw = true; }
      check(threw, "invalid-size", show(sb));
    }
  }

  // lists of individuals
  {
    std::vector<T> pos(n);
    size_t pop = 0;
    for (auto& x: pos) { x = T(r.chance(.6) ? 0 : r.in(0, 3)); pop += (size_t)x; }
    NDArray<T> t(s, pos.data());
    const int off = r.below(2);
    std::vector<std::vector<int>> l = listify(pop, t, off);
    check(l.size() == nd, "listify-columns");
    std::vector<T> back(n, T(0));
    for (auto& c: l) check(c.size() == pop, "listify-rows");
    for (size_t i = 0; i < pop; ++i)
    {
      V c(nd);
      for (size_t d = 0; d < nd; ++d) { c[d] = l[d][i] - off; check(c[d] >= 0 && c[d] < s[d], "listify-range"); }
      back[flat(s, c)] += T(1);
    }
    check(back == pos, "listify");
    h.count("individuals", pop);
  }
  Hash k; k.vec(s); k.vec(v);
  bool nontrivial = nd > 1 && n > 2 && std::any_of(v.begin(), v.end(), [](T x) { return x != T(0); });
  if (nontrivial) h.observed(k.h);
  h.count(std::is_integral<T>::value ? "integer" : "floating");
  h.count("elements", n);
  h.count("dim" + std::to_string(nd));
}

int main(int argc, char** argv)
{
  Harness h;
  return h.run(argc, argv, [](Harness& h, Rng& r) {
    switch (r.below(3))
    {
    case 0: arrays<int64_t>(h, r); break;
    case 1: arrays<double>(h, r); break;
    default: arrays<int32_t>(h, r); break;
    }
  });
}
