// C23: everything a job acquires is released, however often it is repeated (C++ API).
#include "alloc.h"
#include "jobs.h"
#include <malloc.h>

// one execution; blocks it leaves behind
static int64_t once(Job& j)
{
  const int64_t live = alloc::live;
  { std::string s = j.run(); }
  return alloc::live - live;
}

static void repeated(Harness& h, Rng& r)
{
  std::unique_ptr<Job> j = makeJob(r);
  h.inputs = j->desc;
  bool error;
  int64_t n;
  { alloc::arm(0, false); std::string s = j->run(); alloc::disarm(); n = alloc::count; error = s.compare(0, 6, "error:") == 0; }
  int64_t kept = once(*j);                      // whatever is kept for later use is in place
  const int64_t reps = 12, live = alloc::live;
  kept = 0;
  for (int64_t i = 0; i < reps; ++i) kept += once(*j);
  const int64_t after = alloc::live;
  check(kept < reps && after - live < reps, "leak:" + j->name, std::to_string(kept) + " blocks are not released after " + std::to_string(reps) + " repetitions");
  h.count("repetitions", reps); h.count("job:" + j->name); h.count(std::string("shape:") + j->shape); h.count("allocations", reps * n); if (error) h.count("failing_jobs");
  Hash k; k.bytes(j->desc.data(), j->desc.size());
  h.observed(k.h);
}

// a history of different jobs, where nothing may accumulate either
static void history(Harness& h, Rng& r)
{
  const int n = r.in(30, 80);
  int64_t kept = 0, worst = 0, late = 0;
  std::string which;
  Hash k;
  h.inputs = "a history of " + std::to_string(n) + " jobs";
  for (int i = 0; i < n; ++i)
  {
    const int64_t start = alloc::live;
    int64_t x;
    {
      std::unique_ptr<Job> j = makeJob(r);
      if (r.chance(.2)) { alloc::arm(r.in(1, 40), r.chance(.5)); try { std::string s = j->run(); } catch (const std::exception&) { } alloc::disarm(); }
      const int64_t live = alloc::live;
      { std::string s = j->run(); }
      x = alloc::live - live;
      k.bytes(j->desc.data(), j->desc.size());
      if (x > worst) { worst = x; which = j->desc; }
    }
    kept += x; if (i >= n / 2 && x > 0) ++late;
    (void)start;
  }
  check(late < n / 3, "leak:history", std::to_string(kept) + " blocks are not released after " + std::to_string(n) + " different jobs, the most (" + std::to_string(worst) + ") by " + which);
  h.count("histories"); h.count("history_jobs", n);
  h.observed(k.h);
}

// objects created, moved, resized, reassigned, abandoned
static void objects(Harness& h, Rng& r)
{
  h.inputs = "objects";
  int64_t base = 0, live = 0, end = 0, steps = 0;
  for (int rep = 0; rep < 8; ++rep)
  {
    Rng q(r.s);                                 // the same operations each time
    {
      std::vector<std::unique_ptr<NDArray<int64_t>>> a;
      std::vector<std::unique_ptr<NDArray<double>>> d;
      std::vector<std::unique_ptr<Sobol>> s;
      const int n = q.in(20, 120);
      for (int i = 0; i < n; ++i)
      {
        V z(q.in(1, 4));
        for (auto& x: z) x = q.in(1, 5);
        switch (q.below(12))
        {
        case 0: a.push_back(std::make_unique<NDArray<int64_t>>(z)); a.back()->assign(i); break;
        case 1: d.push_back(std::make_unique<NDArray<double>>(z)); d.back()->assign(i); break;
        case 2: d.push_back(std::make_unique<NDArray<double>>()); break;
        case 3: if (a.size()) a[q.below(a.size())]->resize(z); break;
        case 4: if (d.size()) d[q.below(d.size())]->resize(z); break;
        case 5: if (a.size()) { const size_t k = q.below(a.size()); a.push_back(std::make_unique<NDArray<int64_t>>(std::move(*a[k]))); a[k] = std::make_unique<NDArray<int64_t>>(z); a[k]->assign(1); } break;
        case 6: if (a.size() > 1) { auto& x = a[q.below(a.size())]; auto& y = a[q.below(a.size())]; if (&x != &y && x->storageSize() && y->sizes() != x->sizes()) y->resize(x->sizes()); if (&x != &y && x->storageSize()) NDArray<int64_t>::copy(*x, *y); } break;
        case 7: try { s.push_back(std::make_unique<Sobol>(q.chance(.2) ? (q.chance(.5) ? 0 : 1112) : q.in(1, 50), q.below(100))); } catch (const std::exception&) { ++steps; } break;
        case 8: if (s.size()) s[q.below(s.size())]->reset(q.below(50)); break;
        case 9: if (s.size()) { auto& x = *s[q.below(s.size())]; for (int k = 0; k < 20; ++k) x(); } break;
        case 10: if (a.size()) a.erase(a.begin() + q.below(a.size())); break;
        default: if (s.size()) s.erase(s.begin() + q.below(s.size())); if (d.size()) d.erase(d.begin() + q.below(d.size())); break;
        }
        ++steps;
      }
    }
    end = alloc::live;
    if (rep == 0) base = end;
    (void)live;
  }
  check(end == base, "leak:objects", std::to_string(end - base) + " blocks are not released after 7 repetitions");
  h.count("object_steps", steps);
  Hash k; k.add(r.s); h.observed(k.h);
}

int main(int argc, char** argv)
{
  Harness h;
  return h.run(argc, argv, [](Harness& h, Rng& r) {
    switch (r.below(12))
    {
    case 0: history(h, r); break;
    case 1: case 2: objects(h, r); break;
    default: repeated(h, r); break;
    }
  });
}
