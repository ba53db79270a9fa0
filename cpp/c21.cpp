// C21: jobs in many threads at once (built with ThreadSanitizer); every result must be what the job gives alone.
#include "jobs.h"
#include <atomic>
#include <mutex>
#include <thread>

// Yields at pseudo-random points of each thread, so that objects are used in many different interleavings
static thread_local uint64_t yield_state = 0;
static void maybe_yield() { if ((yield_state = yield_state * 6364136223846793005ull + 1442695040888963407ull) >> 61 == 0) std::this_thread::yield(); }

// An object used alternately, in small steps, with others
struct Stepper
{
  std::unique_ptr<Sobol> s;
  uint32_t dim;
  std::vector<uint32_t> out;
  Stepper(uint32_t dim, uint32_t skips): s(new Sobol(dim, skips)), dim(dim) { }
  void step() { for (uint32_t d = 0; d < dim; ++d) out.push_back((*s)()); }
};

int main(int argc, char** argv)
{
  Harness h;
  return h.run(argc, argv, [](Harness& h, Rng& r) {
    const int nthreads = r.chance(.3) ? 2 : r.in(2, 16);
    const int per = r.in(2, 8);
    const bool serial_first = r.chance(.3);
    const bool sharejobs = r.chance(.5);               // the same computation (on separate objects) in several threads
    std::vector<std::unique_ptr<Job>> jobs;
    const int njobs = sharejobs ? r.in(1, per * 2) : nthreads * per;
    for (int i = 0; i < njobs; ++i) jobs.push_back(makeJob(r));
    std::vector<std::vector<int>> plan(nthreads);
    for (int t = 0; t < nthreads; ++t)
      for (int k = 0; k < per; ++k) plan[t].push_back(sharejobs ? r.below(njobs) : t * per + k);
    h.inputs = std::to_string(nthreads) + " threads of " + std::to_string(per) + " jobs:";
    for (auto& j: jobs) if (h.inputs.size() < 1500) h.inputs += " {" + j->desc.substr(0, 300) + "}";

    std::vector<std::string> alone(njobs);
    auto serial = [&]() { for (int i = 0; i < njobs; ++i) alone[i] = jobs[i]->run(); };
    if (serial_first) serial();

    // objects made here, stepped by one thread each; half of them handed over to another thread in between
    const uint32_t sdim = r.in(1, 12), sskip = r.below(1000);
    std::vector<std::unique_ptr<Stepper>> steppers;
    for (int t = 0; t < nthreads; ++t) steppers.push_back(std::make_unique<Stepper>(sdim, t % 3 ? sskip : 0));

    std::vector<std::vector<std::string>> got(nthreads);
    std::vector<uint64_t> order(nthreads * per, 0);
    std::atomic<int> ready{0};
    std::atomic<uint64_t> clock{0};
    std::vector<std::thread> threads;
    for (int round = 0; round < 2; ++round)
    {
      ready = 0;
      threads.clear();
      const uint64_t ys = r();
      for (int t = 0; t < nthreads; ++t)
        threads.emplace_back([&, t, round]() {
          yield_state = ys + t * 77777;
          ++ready;
          while (ready.load(std::memory_order_relaxed) < nthreads) std::this_thread::yield();
          if (round == 0)
            for (int k = 0; k < per; ++k)
            {
              maybe_yield();
              got[t].push_back(jobs[plan[t][k]]->run());
              order[clock.fetch_add(1, std::memory_order_relaxed)] = t;
            }
          Stepper& s = *steppers[round ? (t + 1) % nthreads : t];
          for (int i = 0; i < 20; ++i) { s.step(); maybe_yield(); }
        });
      for (auto& t: threads) t.join();
    }
    if (!serial_first) serial();
    for (int t = 0; t < nthreads; ++t)
    {
      check((int)got[t].size() == per, "incomplete");
      for (int k = 0; k < per; ++k)
      {
        const int j = plan[t][k];
        check(got[t][k] == alone[j], "result:" + jobs[j]->name, "in thread " + std::to_string(t) + " of " + std::to_string(nthreads) + ": " + jobs[j]->desc
              + (got[t][k].compare(0, 6, "error:") == 0 ? "\n gives " + got[t][k] : "") + (alone[j].compare(0, 6, "error:") == 0 ? "\n alone " + alone[j] : ""));
        h.count(jobs[j]->name); h.count(std::string("shape:") + jobs[j]->shape);
        if (alone[j].compare(0, 6, "error:") == 0) h.count("errors");
      }
    }
    for (int t = 0; t < nthreads; ++t)
    {
      Sobol s(sdim, t % 3 ? sskip : 0);
      for (auto x: steppers[t]->out) check(x == s(), "handed-over", "a sequence stepped in two threads");
    }
    uint64_t switches = 0;
    for (size_t i = 1; i < order.size(); ++i) switches += order[i] != order[i-1];
    Hash k; k.vec(order); for (auto& j: jobs) k.bytes(j->desc.data(), j->desc.size());
    if (switches > 1) h.observed(k.h);
    h.count("switches", switches); h.count("threads", nthreads); h.count("jobs", nthreads * per);
    h.count(nthreads > 8 ? "many_threads" : "few_threads"); if (!serial_first) h.count("parallel_first");
  });
}
