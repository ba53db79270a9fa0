// Common parts of the C++ harnesses: cases, random numbers, events. One line per event on stdout.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { }
  uint64_t operator()()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return operator()() % n; }
  int64_t in(int64_t a, int64_t b) { return a + (int64_t)below(b - a + 1); }   // inclusive
  double u() { return (operator()() >> 11) * 0x1p-53; }
  bool chance(double p) { return u() < p; }
  template<typename T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i-1], v[below(i)]); }
};

struct Failure { std::string key, msg; };
struct Known: Failure { };      // does not end the run

inline void check(bool ok, const std::string& key, const std::string& msg = "")
{
  if (!ok)
    throw Failure{key, msg};
}

template<typename V> std::string show(const V& v)
{
  std::ostringstream o;
  o.precision(17);
  o << "[";
  size_t n = 0;
  for (auto x: v) { if (n++) o << ","; if (n > 200) { o << "..."; break; } o << x; }
  o << "]";
  return o.str();
}
inline std::string num(double x) { char b[64]; snprintf(b, 64, "%.17g", x); return b; }

struct Hash
{
  uint64_t h = 0xcbf29ce484222325ull;
  void bytes(const void* p, size_t n) { const unsigned char* c = (const unsigned char*)p; for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; } }
  template<typename T> void add(const T& x) { bytes(&x, sizeof x); }
  template<typename T> void vec(const std::vector<T>& v) { add(v.size()); if (v.size()) bytes(v.data(), v.size() * sizeof(T)); }
};

struct Harness
{
  uint64_t seed, shard, nshards, ncases;
  int64_t from = 0, only = -1;
  std::map<std::string, uint64_t> counts;
  std::set<uint64_t> distinct;
  std::set<std::string> known;
  uint64_t evals = 0, current = 0;
  std::string inputs;
  int samples = 0;

  void count(const std::string& n, uint64_t k = 1) { counts[n] += k; }
  void observed(uint64_t h) { distinct.insert(h); }

  static std::string clean(std::string s) { for (char& c: s) if (c == '\n' || c == '\t') c = ' '; return s.substr(0, 3000); }

  template<typename F> int run(int argc, char** argv, F f)
  {
    if (argc < 5) return 9;
    seed = strtoull(argv[1], 0, 10); shard = strtoull(argv[2], 0, 10); nshards = strtoull(argv[3], 0, 10); ncases = strtoull(argv[4], 0, 10);
    if (argc > 5) from = atoll(argv[5]);
    if (argc > 6) only = atoll(argv[6]);
    int nv = 0;
    for (uint64_t i = shard; i < ncases; i += nshards)
    {
      if ((int64_t)i < from || (only >= 0 && (int64_t)i != only)) continue;
      current = i;
      printf("S %" PRIu64 "\n", i); fflush(stdout);
      Rng rng(seed * 0x1000003ull + i * 0x9e3779b97f4a7c15ull + 1);
      inputs.clear();
      try
      {
        f(*this, rng);
      }
      catch (const Known& e)
      {
        if (known.insert(e.key).second || only >= 0)
          printf("V %" PRIu64 "\t%s\t%s\t%s\n", i, clean(e.key).c_str(), clean(e.msg).c_str(), clean(inputs).c_str());
      }
      catch (const Failure& e)
      {
        printf("V %" PRIu64 "\t%s\t%s\t%s\n", i, clean(e.key).c_str(), clean(e.msg).c_str(), clean(inputs).c_str());
        ++nv;
      }
      catch (const std::exception& e)
      {
        printf("V %" PRIu64 "\t%s\t%s\t%s\n", i, "exception", clean(e.what()).c_str(), clean(inputs).c_str());
        ++nv;
      }
      ++evals;
      if (samples < 2 && inputs.size()) { printf("X %s\n", clean(inputs).substr(0, 600).c_str()); ++samples; }
      printf("E %" PRIu64 "\n", i);
      if (nv >= 3) break;
    }
    for (auto& c: counts) printf("C %s %" PRIu64 "\n", c.first.c_str(), c.second);
    for (auto d: distinct) printf("D %016" PRIx64 "\n", d);
    printf("F %" PRIu64 "\n", evals);
    fflush(stdout);
    return 0;
  }
};
