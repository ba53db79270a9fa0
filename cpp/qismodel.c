/* Exact model of unseeded quasirandom sampling, for large problems (ctypes). Independent of the library. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef unsigned __int128 u128;

/* V: 32 x dim direction numbers; x: state of the sequence (dim), n: points generated so far.
   sets: concatenated dimension lists, ns[k]: their lengths; m: concatenated marginals (row-major, consumed), shape: sizes of all dimensions; out: counts (row-major).
   Returns 0, or 1 if a pick is impossible. */
int qis_model(int dim, const int64_t* shape, const uint32_t* V, uint32_t* x, uint64_t n, int nm, const int64_t* sets, const int64_t* ns, int64_t* m, int64_t pop, int64_t* out)
{
  int64_t idx[64], coord[64], size = 0;
  int64_t* w;
  int d, k, j, f;
  int64_t i, c;
  for (d = 0; d < dim; ++d) if (shape[d] > size) size = shape[d];
  w = (int64_t*)malloc(sizeof(int64_t) * size);
  for (i = 0; i < pop; ++i, ++n)
  {
    const int64_t* s = sets;
    int64_t* a = m;
    int64_t at = 0;
    c = 0;
    while (n >> c & 1) ++c;
    for (d = 0; d < dim; ++d) { x[d] ^= V[c * dim + d]; idx[d] = -1; }
    for (k = 0; k < nm; ++k)
    {
      int64_t cells = 1;
      for (j = 0; j < ns[k]; ++j) cells *= shape[s[j]];
      for (f = (int)ns[k] - 1; f >= 0; --f)
      {
        int64_t q, total = 0, run = 0, pick = -1, K = shape[s[f]];
        if (idx[s[f]] >= 0) continue;
        if (ns[k] == 1) memcpy(w, a, sizeof(int64_t) * K);
        else
        {
          memset(w, 0, sizeof(int64_t) * K);
          for (q = 0; q < cells; ++q)
          {
            int64_t r = q;
            int ok = 1;
            for (j = (int)ns[k] - 1; j >= 0; --j) { coord[j] = r % shape[s[j]]; r /= shape[s[j]]; if (idx[s[j]] >= 0 && idx[s[j]] != coord[j]) ok = 0; }
            if (ok) w[coord[f]] += a[q];
          }
        }
        for (q = 0; q < K; ++q) { if (w[q] < 0) { free(w); return 1; } total += w[q]; }
        for (q = 0; q < K && pick < 0; ++q) { run += w[q]; if ((u128)x[s[f]] * (u128)total < (u128)run << 32) pick = q; }
        if (pick < 0) { free(w); return 1; }
        idx[s[f]] = pick;
      }
      s += ns[k];
      a += cells;
    }
    s = sets; a = m;
    for (k = 0; k < nm; ++k)
    {
      int64_t cells = 1, q = 0;
      for (j = 0; j < ns[k]; ++j) { cells *= shape[s[j]]; q = q * shape[s[j]] + idx[s[j]]; }
      --a[q];
      s += ns[k];
      a += cells;
    }
    for (d = 0; d < dim; ++d) at = at * shape[d] + idx[d];
    ++out[at];
  }
  free(w);
  return 0;
}
