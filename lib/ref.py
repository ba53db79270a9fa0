"""Independent executable models of what the library computes."""
import gzip, json, os
import numpy as np

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
_V = None


def directions():
    """Direction numbers as a (32, 1111) uint32 array: V[j, d] is the word xored into dimension d when bit j of the Gray code flips."""
    global _V
    if _V is None:
        t = np.load(os.path.join(DATA, "joe-kuo-2003.npz"))
        poly, minit = t["poly"], t["minit"]       # (1110,), (12, 1110)
        nd = 1111
        m = np.zeros((32, nd), dtype=object)
        m[:, 0] = 1
        for d in range(1, nd):
            p = int(poly[d - 1])
            deg = p.bit_length() - 1
            for j in range(deg):
                m[j, d] = int(minit[j, d - 1])
            # m_j = xor_k 2^k a_k m_{j-k}, with a_deg = 1 (and the term m_{j-deg})
            for j in range(deg, 32):
                v = m[j - deg, d] ^ (m[j - deg, d] << deg)
                for k in range(1, deg):
                    if (p >> (deg - k)) & 1:
                        v ^= m[j - k, d] << k
                m[j, d] = v
        V = np.zeros((32, nd), dtype=np.uint64)
        for j in range(32):
            V[j] = np.array([int(x) << (31 - j) for x in m[j]], dtype=np.uint64)
        assert V.max() < (1 << 32)
        _V = V.astype(np.uint32)
    return _V


def sobol_point(dim, n):
    """n-th point (n >= 1) as 32-bit words."""
    V = directions()
    g = n ^ (n >> 1)
    x = np.zeros(dim, np.uint32)
    j = 0
    while g:
        if g & 1:
            x ^= V[j, :dim]
        g >>= 1
        j += 1
    return x


def sobol(dim, start, count):
    """Points start+1 .. start+count as a (count, dim) uint32 array."""
    V = directions()[:, :dim]
    out = np.empty((count, dim), np.uint32)
    if count == 0:
        return out
    x = sobol_point(dim, start + 1)
    out[0] = x
    for i in range(1, count):
        n = start + i                      # from point n to n+1: flip at lowest zero bit of n
        c = (~n & (n + 1)).bit_length() - 1
        x = x ^ V[c]
        out[i] = x
    return out


class SobolStream:
    def __init__(self, dim, start=0):
        self.dim, self.n, self.V = dim, start, directions()[:, :dim]
        self.x = sobol_point(dim, start) if start else np.zeros(dim, np.uint32)

    def next(self):
        c = (~self.n & (self.n + 1)).bit_length() - 1
        self.x = self.x ^ self.V[c]
        self.n += 1
        return self.x


def qis(shp, sets, ms, start):
    """Sampled population in exact integer arithmetic, or None if an impossible pick arises (inconsistent marginals)."""
    nd = len(shp)
    ms = [np.array(m, dtype=np.int64) for m in ms]
    pop = int(ms[0].sum())
    out = np.zeros(shp, np.int64)
    seq = SobolStream(nd, start)
    for _ in range(pop):
        s = seq.next()
        idx = [None] * nd
        for dims, m in zip(sets, ms):
            free = [k for k, d in enumerate(dims) if idx[d] is None]
            if not free:
                continue
            sub = m[tuple(slice(None) if idx[d] is None else idx[d] for d in dims)]
            for k in range(len(free) - 1, -1, -1):     # last listed free dimension first
                w = sub if sub.ndim == 1 else sub.reshape(-1, sub.shape[-1]).sum(0)
                tot = int(w.sum())
                r = int(s[dims[free[k]]]) * tot          # scaled by 2^32
                run = 0
                for c, x in enumerate(w.tolist()):
                    run += x
                    if r < run << 32:
                        break
                else:
                    return None
                idx[dims[free[k]]] = c
                sub = sub[..., c]
        out[tuple(idx)] += 1
        for dims, m in zip(sets, ms):
            m[tuple(idx[d] for d in dims)] -= 1
    return out


def ipf(seed, sets, ms, tol=1e-12, maxit=20000, stall=True):
    """Iterative proportional fit by numpy, to a tighter tolerance. Returns (array, max error, iterations)."""
    a = np.array(seed, dtype=float)
    nd = a.ndim
    ms = [np.asarray(m, float) for m in ms]
    scale = max(1.0, max(float(m.max()) if m.size else 0.0 for m in ms))
    prep = []
    for s, m in zip(sets, ms):
        rest = tuple(d for d in range(nd) if d not in s)
        order = np.argsort(s)
        bshape = [a.shape[d] if d in s else 1 for d in range(nd)]
        prep.append((rest, np.transpose(m, order).reshape(bshape)))
    err = np.inf
    for it in range(1, maxit + 1):
        for rest, m in prep:
            r = a.sum(axis=rest, keepdims=True) if rest else a
            f = np.divide(m, r, out=np.zeros_like(m + r), where=r != 0)
            a = a * f
        err = max(float(np.abs((a.sum(axis=rest, keepdims=True) if rest else a) - m).max()) for rest, m in prep)
        if err < tol * scale:
            break
    return a, err, it


def deviations(a, sets, ms):
    from .gen import marginal
    return max(float(np.abs(marginal(a, s) - m).max()) for s, m in zip(sets, ms))


def largest_remainder_ok(f, shares, pop, eps):
    """Is f an optimal rounding of shares (to within rounding noise eps)? Returns an error text or None."""
    f = np.asarray(f, dtype=object)
    s = np.asarray(shares, float)
    if int(sum(int(x) for x in f)) != pop:
        return "sum %d is not the population %d" % (sum(int(x) for x in f), pop)
    ff = np.array([float(x) for x in f])
    if (ff < 0).any():
        return "negative frequency"
    d = ff - s
    if (d <= -1 - eps).any() or (d >= 1 + eps).any():
        return "frequency is not the share rounded down or up: %r" % d[np.argmax(np.abs(d))]
    # optimal iff no unit can be moved from i (f_i>0) to j with gain: cost change = 2(d_j - d_i) + 2 >= 0
    pos = ff > 0
    if pos.any():
        gain = d[pos].max() - d.min()
        if gain > 1 + eps:
            return "moving one unit reduces the error by %g" % (2 * (gain - 1))
    return None
