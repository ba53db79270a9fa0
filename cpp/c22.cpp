// C22: every allocation of every kind of job fails in turn (C++ API).
#include "alloc.h"
#include "jobs.h"

static std::vector<int64_t> choose(Rng& r, int64_t n, int64_t budget)
{
  std::vector<int64_t> k;
  if (n <= budget) { for (int64_t i = 1; i <= n; ++i) k.push_back(i); return k; }
  std::set<int64_t> s;
  for (int64_t i = 1; i <= budget / 3; ++i) { s.insert(i); s.insert(n + 1 - i); }
  while ((int64_t)s.size() < budget) s.insert(r.in(1, n));
  return std::vector<int64_t>(s.begin(), s.end());
}

static void jobs(Harness& h, Rng& r)
{
  std::unique_ptr<Job> j = makeJob(r);
  h.inputs = j->desc;
  int64_t n;
  std::string base;
  {
    alloc::arm(0, false);
    base = j->run();
    alloc::disarm();
    n = alloc::count;
  }
  const int64_t budget = std::max<int64_t>(6, std::min<int64_t>(60, 2000000 / std::max<int64_t>(n * 50, 1)));
  const std::vector<int64_t> ks = choose(r, n, budget);
  for (auto k: ks)
  {
    const bool persistent = r.chance(.4);
    const int64_t live = alloc::live;
    bool raised = false, same = false;
    {
      std::string out;
      alloc::arm(k, persistent);
      try { std::string tmp = j->run(); alloc::disarm(); out.swap(tmp); }
      catch (const std::exception&) { alloc::disarm(); raised = true; }
      same = out == base || (out.compare(0, 6, "error:") == 0);
    }
    const int64_t failed = alloc::failed, kept = alloc::live - live;
    const std::string w = "allocation " + std::to_string(k) + " of " + std::to_string(n) + (persistent ? " and later" : "");
    check(failed > 0, "count", w + " was not reached");       // the job is deterministic
    check(raised || same, "wrong-result:" + j->name, w + " fails, and the call returns a different result");
    check(kept == 0, "leak:" + j->name, w + " fails, and " + std::to_string(kept) + " blocks are not released");
    h.count(raised ? "raised" : "survived"); if (persistent) h.count("persistent");
  }
  {
    const int64_t live = alloc::live;
    const bool same = j->run() == base;
    const bool released = alloc::live == live;
    check(same, "retry:" + j->name, "the call gives a different result after failures");
    check(released, "retry-leak:" + j->name);
  }
  Hash k; k.bytes(j->desc.data(), j->desc.size()); for (auto x: ks) k.add(x);
  h.observed(k.h);
  h.count("failures", ks.size()); h.count("job:" + j->name); h.count(std::string("shape:") + j->shape); if (base.compare(0, 6, "error:") == 0) h.count("failing_jobs");
}

// objects that survive a failure
static void sequences(Harness& h, Rng& r)
{
  const uint32_t dim = r.in(1, 40), skips = r.below(1000);
  uint64_t done = 0;
  h.inputs = "sequence of " + std::to_string(dim) + " dimensions, skips " + std::to_string(skips);
  const int64_t live = alloc::live;
  {
    Sobol s(dim, skips), t(dim, skips), fresh(dim, skips);
    for (uint32_t i = 0; i < dim * r.in(0, 5) + r.below(dim + 1); ++i) { s(); t(); }
    for (int64_t k = 1; k <= 8; ++k)
    {
      bool raised = false;
      alloc::arm(k, r.chance(.5));
      try { s.reset(skips); } catch (const std::exception&) { raised = true; }
      alloc::disarm();
      check(raised || alloc::failed == 0, "sequence-reset", "does not raise");
      if (!raised) { for (int i = 0; i < 100; ++i) check(s() == fresh(), "sequence-reset-result"); break; }
      for (int i = 0; i < 50; ++i) check(s() == t(), "sequence-continues", "after reset failed at allocation " + std::to_string(k));
      ++done;
    }
  }
  const int64_t kept = alloc::live - live;
  check(kept == 0, "leak:sequence", std::to_string(kept) + " blocks are not released");
  h.count("resets", done);
}

static void arrays(Harness& h, Rng& r)
{
  uint64_t done = 0;
  V a = {r.in(1, 4), r.in(1, 4)}, b(r.in(1, 5));
  for (auto& x: b) x = r.in(1, 5);
  h.inputs = "array " + show(a) + " resized to " + show(b);
  const int64_t live = alloc::live;
  {
    for (int64_t k = 1; k <= 8; ++k)
    {
      NDArray<double> x(a);
      x.assign(2);
      bool raised = false;
      alloc::arm(k, r.chance(.5));
      try { x.resize(b); } catch (const std::exception&) { raised = true; }
      alloc::disarm();
      check(raised || alloc::failed == 0, "array-resize", "does not raise");
      for (size_t i = 0; raised && i < 2; ++i)
      {
        x.resize(i ? b : a);
        x.assign(3);
        Index j(x.sizes());
        size_t n = 0;
        for (; !j.end(); ++j, ++n) check(x[j] == 3, "array-after");
        check(x.storageSize() == n, "array-after-size");
      }
      ++done;
      if (!raised) break;
    }
  }
  const int64_t kept = alloc::live - live;
  check(kept == 0, "leak:array", std::to_string(kept) + " blocks are not released");
  h.count("resizes", done);
}

int main(int argc, char** argv)
{
  Harness h;
  return h.run(argc, argv, [](Harness& h, Rng& r) {
    switch (r.below(10))
    {
    case 0: sequences(h, r); break;
    case 1: arrays(h, r); break;
    default: jobs(h, r); break;
    }
  });
}
