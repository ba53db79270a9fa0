// C07, C09: histories of the C++ sequence class against a model (direction numbers from a file).
#include "harness.h"
#include "Sobol.h"
#include <memory>
#include <cstring>

extern "C" uint32_t humanleague_monitor_sobol_start;

static std::vector<uint32_t> table;     // 32 x 1111
static const uint64_t END = 0xffffffffull;

static uint32_t coord(uint64_t n, size_t d)
{
  uint32_t g = (uint32_t)n ^ (uint32_t)(n >> 1), x = 0;
  for (int j = 0; j < 32; ++j) if (g >> j & 1) x ^= table[j * 1111 + d];
  return x;
}

static uint64_t skipped(uint64_t n) { if (!n) return 0; uint64_t k = 1; while (k * 2 < n) k *= 2; return k; }

struct Object
{
  std::unique_ptr<Sobol> s;
  size_t dim; uint64_t pos, base = 0; size_t pending = 0;      // coordinates of point pos not yet delivered
  std::string history;
  void say(const std::string& x) { if (history.size() < 500) history += x + " "; }
};

static uint32_t someSkip(Rng& r, bool deep)
{
  int top = deep ? 23 : 12;
  switch (r.below(6))
  {
  case 0: return r.below(6);
  case 1: case 2: { uint32_t k = 1u << r.below(top); return k + r.below(4) - (k > 1 ? 1 : 0); }
  default: return r.below(1ull << r.in(1, top));
  }
}

static void point(Harness& h, Object& o, Rng& r)
{
  if (o.pending == 0 && r.chance(.5))
  {
    const bool end = o.pos == END;
    try
    {
      const std::vector<uint32_t>& b = o.s->buf();
      check(!end, "end", "dimension " + std::to_string(o.dim) + ": a point was delivered after the last: " + o.history);
      ++o.pos;
      check(b.size() == o.dim, "point", "wrong size");
      for (size_t d = 0; d < o.dim; ++d)
        check(b[d] == (coord(o.pos, d) ^ (o.base ? coord(o.base, d) : 0)), "point", "dimension " + std::to_string(o.dim) + ", point " + std::to_string(o.pos) + " has " + std::to_string(b[d]) + " as coordinate " + std::to_string(d) + " after: " + o.history);
      o.say("p");
      h.count("points");
    }
    catch (const Failure&) { throw; }
    catch (const std::exception& e) { check(end, "early-end", std::string("dimension ") + std::to_string(o.dim) + ", point " + std::to_string(o.pos + 1) + ": " + e.what() + " after: " + o.history); h.count("ended"); }
    return;
  }
  size_t n = r.chance(.4) ? o.dim : r.in(1, 2 * o.dim);
  if (n > 60 && r.chance(.7)) n = 60;
  for (size_t i = 0; i < n; ++i)
  {
    const bool end = o.pending == 0 && o.pos == END;
    try
    {
      const uint32_t x = (*o.s)();
      check(!end, "end", "dimension " + std::to_string(o.dim) + ": a coordinate was delivered after the last point: " + o.history);
      if (o.pending == 0) { ++o.pos; o.pending = o.dim; }
      const size_t d = o.dim - o.pending--;
      check(x == (coord(o.pos, d) ^ (o.base ? coord(o.base, d) : 0)), "point", "dimension " + std::to_string(o.dim) + ", point " + std::to_string(o.pos) + " has " + std::to_string(x) + " as coordinate " + std::to_string(d) + " after: " + o.history);
      check(x >= o.s->min() && x <= o.s->max(), "limits", std::to_string(x));
    }
    catch (const Failure&) { throw; }
    catch (const std::exception& e) { check(end, "early-end", std::string("dimension ") + std::to_string(o.dim) + ", point " + std::to_string(o.pos + 1) + ": " + e.what() + " after: " + o.history); h.count("ended"); return; }
  }
  o.say("c" + std::to_string(n));
  h.count("coordinates", n);
}

static std::unique_ptr<Object> create(Harness& h, Rng& r, bool life, bool deep)
{
  auto o = std::make_unique<Object>();
  o->dim = deep ? r.in(1, 3) : r.chance(.06) ? r.in(60, 1111) : r.in(1, 12);
  const uint32_t n = r.chance(.5) ? 0 : someSkip(r, deep);
  const uint64_t left = life && r.chance(.3) ? r.below(40) : END;
  o->base = o->pos = END - left;
  humanleague_monitor_sobol_start = (uint32_t)o->base;
  const uint64_t k = std::min(skipped(n), END - o->pos);
  try { o->s = n || r.chance(.5) ? std::make_unique<Sobol>(o->dim, n) : std::make_unique<Sobol>(o->dim); }
  catch (const std::exception& e) { humanleague_monitor_sobol_start = 0; if (k < skipped(n)) return nullptr; throw; }
  humanleague_monitor_sobol_start = 0;
  o->pos += k;
  o->say("new(" + std::to_string(o->dim) + "," + std::to_string(n) + (o->base ? ", " + std::to_string(left) + " left" : "") + ")");
  check(o->s->dim() == o->dim, "dim", std::to_string(o->s->dim()));
  check(o->s->min() == 0 && o->s->max() == 0xffffffffu && Sobol::SCALE == 0x1p-32, "limits");
  h.count("created"); if (o->base) h.count("near_end");
  return o;
}

static void skip(Harness& h, Object& o, Rng& r, bool deep)
{
  uint32_t n = o.dim > 20 ? r.below(64) : someSkip(r, deep);
  if (n == 0 && o.pending) n = 1;          // whether no points include the rest of this one is left open
  const uint64_t k = std::min(skipped(n), END - o.pos);
  const bool inside = o.pending;
  try { o.s->skip(n); }
  catch (const std::exception& e) { check(k < skipped(n), "early-end", std::string("skip(") + std::to_string(n) + "): " + e.what()); }
  o.pos += k; o.pending = 0;
  o.say("skip(" + std::to_string(n) + ")");
  h.count("skips"); if (inside) h.count("skips_inside"); if (n == 0) h.count("skips_zero"); if (n >= 1024) h.count("skips_long");
}

static void reset(Harness& h, Object& o, Rng& r)
{
  const uint32_t n = r.chance(.4) ? 0 : o.dim > 20 ? r.below(64) : someSkip(r, false);
  if (n || r.chance(.5)) o.s->reset(n); else o.s->reset();
  if (o.pending) h.count("resets_inside");
  o.pos = skipped(n); o.base = 0; o.pending = 0;
  o.say("reset(" + std::to_string(n) + ")");
  h.count("resets");
}

int main(int argc, char** argv)
{
  Harness h;
  if (argc < 9) return 9;
  table.resize(32 * 1111);
  FILE* f = fopen(argv[7], "rb");
  if (!f || fread(table.data(), 4, table.size(), f) != table.size()) return 9;
  fclose(f);
  const bool life = !strcmp(argv[8], "life");
  return h.run(argc, argv, [&](Harness& h, Rng& r) {
    const bool deep = !life && r.chance(.02);
    std::vector<std::unique_ptr<Object>> all;
    const int n = life ? r.in(20, 120) : r.in(4, 40);
    std::string last;
    Hash k;
    for (int i = 0; i < n; ++i)
    {
      const size_t most = life ? 8 : 1;
      if (all.empty() || all.size() < most && r.chance(.12))
      {
        auto o = create(h, r, life, deep);
        if (o) all.push_back(std::move(o));
        continue;
      }
      const size_t j = r.below(all.size());
      Object& o = *all[j];
      h.inputs = "object " + std::to_string(j) + " of " + std::to_string(all.size()) + ": " + o.history;
      const uint64_t c = r.below(100);
      if (c < 60) point(h, o, r);
      else if (c < 80) { skip(h, o, r, deep); point(h, o, r); }
      else if (c < 88) { reset(h, o, r); if (r.chance(.7)) point(h, o, r); }
      else if (c < 94 && life) all.erase(all.begin() + j);
      else if (c < 98 && life)
      {
        const size_t bad[] = {0, 1112, 1113, 1ull << 32, (1ull << 32) + 3, ~0ull, (size_t)r.in(1112, 1 << 20)};
        const size_t d = bad[r.below(7)];
        bool refused = false;
        try { Sobol s(d, r.below(3)); } catch (const std::exception&) { refused = true; }
        check(refused, "dimension", std::to_string(d) + " is accepted");
        h.count("refused");
      }
      else point(h, o, r);
      if (life && all.size() > 2) h.count("many_alive");
      k.add(c); k.add(j);
    }
    for (auto& o: all) { k.bytes(o->history.data(), o->history.size()); h.inputs = o->history; }
    h.observed(k.h);
  });
}
