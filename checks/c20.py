import numpy as np
import scipy.linalg as sl
from vlib import gen, history, ref
from vlib.core import Check
from doatools.estimation.source_number import aic, mdl, sorte

check = Check('C20',
              'eigenvalue profiles (random, clustered, clear gaps, equal, one dominant, integer) and covariance matrices (real, complex, '
              'sample and exact, hostile memory layouts) of sizes 1 to 64, snapshot counts from 1 to 1e9 and scales from 1e-290 to '
              '1e290 (SORTE: 1e-110 to 1e110); non-trivial = the returned number was compared with the minimiser of the criterion evaluated from its definition',
              ['a number whose criterion exceeds the minimum by no more than the rounding error of the criterion is accepted',
               'eigenvalues must be positive for AIC and MDL'])

LD = np.longdouble


def ld_criterion(l, n_snap, mdl_):
    """Van Trees: L(d) + penalty, from descending positive eigenvalues in long double; and a rounding error bound."""
    l = np.sort(np.asarray(l).astype(LD))[::-1]
    m = len(l)
    out, err = [], []
    N = LD(n_snap)
    for d in range(m):
        t = l[d:]
        q = len(t)
        lg = np.log(t)
        am = np.log(t.max()) + np.log(np.sum(t / t.max()) / q)
        L = N * q * (am - np.mean(lg))
        pen = LD(0.5) * (d * (2 * m - d) + 1) * np.log(N) if mdl_ else LD(d * (2 * m - d))
        out.append(L + pen)
        err.append(float(N) * q * 2.3e-16 * (16 + 4 * float(np.abs(lg).max())) + 1e-13 * float(abs(pen)))
    return np.array(out, float), np.array(err)


def sorte_criterion(l):
    l = np.sort(np.asarray(l).astype(LD))[::-1]
    l = l / np.abs(l[0])                                       # scale invariant
    n = len(l)
    g = l[:-1] - l[1:]
    v = np.array([np.var(g[i:]) for i in range(n - 1)])          # var of gaps k..n-1, k = 1..n-1
    return v


def accept(got, crit, err, lo=0):
    best = np.min(crit + err)
    return [i + lo for i in range(len(crit)) if crit[i] - err[i] <= best]


def eigenvalues(c, m):
    rng = c.rng
    kind = gen.pick(rng, 'random', 'wide', 'gap', 'gap', 'twogaps', 'equal', 'integers', 'arith', 'geom', 'dominant', 'sample')
    c.note(kind=kind)
    if kind == 'random':
        l = rng.uniform(0.1, 2, m)
    elif kind == 'wide':
        l = 10 ** rng.uniform(-6, 6, m)
    elif kind == 'gap':
        k = int(rng.integers(0, m))
        l = rng.uniform(0.98, 1.02, m)
        l[:k] += 10 ** rng.uniform(-1, 3, k)
    elif kind == 'twogaps':
        k = np.sort(rng.integers(0, m + 1, 2))
        l = rng.uniform(0.98, 1.02, m)
        l[:k[1]] += rng.uniform(3, 4)
        l[:k[0]] += rng.uniform(50, 60)
    elif kind == 'equal':
        l = np.full(m, rng.uniform(0.1, 3))
    elif kind == 'integers':
        l = rng.integers(1, 9, m)
    elif kind == 'arith':
        l = 1.0 + np.arange(m) * float(gen.pick(rng, 1.0, 0.1, 1 / 3))
    elif kind == 'geom':
        l = float(rng.uniform(1.1, 4)) ** np.minimum(np.arange(m), 64)
    elif kind == 'dominant':
        l = np.full(m, 1.0)
        l[0] = 10 ** rng.uniform(0.1, 8)
    else:
        X = gen.crandn(rng, m, m + int(rng.integers(1, 200)))
        l = np.linalg.eigvalsh(X @ X.conj().T / X.shape[1])
    return np.sort(l)


def size(rng):
    if gen.BIG > 1:
        return int(rng.integers(40, 260))
    return int(gen.pick(rng, rng.integers(1, 9), rng.integers(4, 16), rng.integers(4, 16), rng.integers(10, 65)))


def snapshots(rng):
    r = rng.random()
    n = int(gen.pick(rng, 1, 2, 3, 10)) if r < 0.2 else int(10 ** rng.uniform(0.5, 4 if r < 0.8 else 9))
    return gen.int_kind(rng, n) if n < 1000000 else np.int64(n) if gen.coin(rng, 0.3) else n


def verify_ld(c, arg, l, N, extra=0.0, tag=''):
    for f, is_mdl in ((aic, False), (mdl, True)):
        crit, err = ld_criterion(l, N, is_mdl)
        err = err + extra
        got = f(arg, N)
        c.ok(np.ndim(got) == 0 and int(got) == got, 'type', 'not an integer')
        c.ok(int(got) in accept(got, crit, err), f.__name__ + tag,
             lambda: 'returned {0}, the criterion is {1}'.format(got, crit[:20]))


def verify_sorte(c, arg, l, extra=0.0, tag='', got=None):
    """extra: error of the relative eigenvalues."""
    n = len(l)
    v = sorte_criterion(l)
    tol = (n * np.finfo(float).eps) ** 2
    fuzz = 40 * np.finfo(float).eps + extra             # on each gap
    sd = np.sqrt(np.maximum(v, 0)).astype(float)
    lo, hi = np.maximum(sd - fuzz, 0) ** 2, (sd + fuzz) ** 2
    a, b = [], []                                       # bounds of the criterion for k = 1..n-3
    for k in range(n - 3):
        if hi[k] <= tol / 4:
            a.append(np.inf)
            b.append(np.inf)
        else:
            a.append(lo[k + 1] / hi[k])
            b.append(hi[k + 1] / lo[k] if lo[k] > 16 * tol else np.inf)
    got = sorte(arg) if got is None else got
    c.ok(np.ndim(got) == 0 and int(got) == got, 'type', 'not an integer')
    g = int(got)
    c.ok(1 <= g <= n - 3, 'sorte-range', lambda: '{0} of {1}'.format(g, n))
    best = min(b)
    c.ok(a[g - 1] <= best, 'sorte' + tag, lambda: 'returned {0}; criterion between {1} and {2}'.format(g, a[:12], b[:12]))


@check.scenario(4000, big=True)
def definition_eigenvalues(c):
    rng = c.rng
    m = size(rng)
    l = eigenvalues(c, m)
    N = snapshots(rng)
    if l.dtype.kind != 'i' and gen.coin(rng, 0.4):
        e = rng.uniform(-280, 280) if gen.coin(rng) else rng.uniform(-20, 20)
        l = l * 10 ** np.clip(e, -285 - np.log10(l.min()), 285 - np.log10(l.max()))
    c.note(l=l, N=N)
    x = gen.relayout(rng, l)
    keep = x.copy()
    verify_ld(c, x, l, N)
    if m >= 4:
        if 1e-110 < l[-1] < 1e110:          # squares of eigenvalues must be representable
            verify_sorte(c, x, l)
    else:
        c.refused(lambda: sorte(x), 'sorte-too-few')
    c.same(x, keep, 'input-modified')


@check.scenario(4000, big=True)
def definition_matrix(c):
    rng = c.rng
    m = int(gen.pick(rng, rng.integers(1, 7), rng.integers(4, 13), rng.integers(4, 25))) if gen.BIG == 1 else int(rng.integers(25, 80))
    N = snapshots(rng)
    kind = gen.pick(rng, 'sample', 'exact', 'random', 'real', 'int')
    if kind == 'int':
        B = rng.integers(-2, 3, (m, m + 2))
        R = B @ B.T + np.eye(m, dtype=int)
    else:
        k = int(rng.integers(0, m))
        A = gen.crandn(rng, m, k) * 10 ** rng.uniform(-0.5, 1)
        R = A @ A.conj().T + np.eye(m)
        if kind == 'sample':
            X = np.linalg.cholesky(R) @ gen.crandn(rng, m, m + int(rng.integers(0, 500)))
            R = X @ X.conj().T / X.shape[1]
        elif kind == 'random':
            R = gen.hermitian(rng, m)
        elif kind == 'real':
            R = R.real
        if gen.coin(rng, 0.4):
            R = R * 10 ** rng.uniform(-120, 120)
        R = 0.5 * (R + R.conj().T)
    c.note(m=m, N=N, kind=kind, R=R)
    l, _ = ref.eig_desc(R)
    rel = m * 1e-15                               # error of an eigenvalue relative to the largest
    if l[-1] < 1e-9 * l[0]:
        c.skip('ill-conditioned')
    extra = N * m * 4 * rel * l[0] / l[-1]
    x = gen.relayout(rng, R)
    keep = x.copy()
    verify_ld(c, x, l, N, extra, '-matrix')
    if m >= 4:
        verify_sorte(c, x, l, 4 * rel, '-matrix')
    else:
        c.refused(lambda: sorte(x), 'sorte-too-few')
    c.same(x, keep, 'input-modified')
    # the same answer from the eigenvalues
    w = np.linalg.eigvalsh(R)
    for f, is_mdl in ((aic, False), (mdl, True)):
        crit, err = ld_criterion(l, N, is_mdl)
        if len(accept(0, crit, err + extra)) == 1:
            c.eq(int(f(w, N)), int(f(x, N)), 'matrix-vs-eigenvalues', f.__name__)


@check.scenario(1500, big=True)
def scale(c):
    """Multiplication by a positive constant changes nothing (powers of two: not a single rounding)."""
    rng = c.rng
    m = size(rng)
    l = eigenvalues(c, m).astype(float)
    N = snapshots(rng)
    c.note(l=l, N=N)
    base = None
    crits = [ld_criterion(l, N, False), ld_criterion(l, N, True)]
    clear = [len(accept(0, *x)) == 1 for x in crits]
    sort0 = int(sorte(l)) if m >= 4 else None
    b = (int(aic(l, N)), int(mdl(l, N)))
    for _ in range(4):
        e = int(rng.integers(-480, 481)) * gen.pick(rng, 1, 2)
        y = np.ldexp(l, e)
        if not np.all(np.isfinite(y)) or y.min() < 1e-290 or y.max() > 1e300:
            continue
        c.note(e=e)
        # errors of logarithms of larger magnitude
        for f, before, cr in ((aic, b[0], ld_criterion(y, N, False)), (mdl, b[1], ld_criterion(y, N, True))):
            if len(accept(0, *cr)) == 1:
                c.eq(int(f(y, N)), before, 'scale', f.__name__)
        if m >= 4 and abs(e) < 340:
            c.eq(int(sorte(y)), sort0, 'scale', 'sorte')


@check.scenario(600, big=True)
def detects(c):
    """A clear gap and enough snapshots: the true number."""
    rng = c.rng
    m = int(rng.integers(6, 14))
    k = int(rng.integers(0, m - 3))
    N = int(rng.integers(8000, 20000))
    A = np.linalg.qr(gen.crandn(rng, m, m))[0][:, :k] * np.sqrt(rng.uniform(3, 30, k))
    R = A @ A.conj().T + np.eye(m)
    s = 10 ** rng.uniform(-6, 6)
    c.note(m=m, k=k, N=N, s=s)
    c.eq(int(aic(R * s, N)), k, 'exact', 'aic')
    c.eq(int(mdl(R * s, N)), k, 'exact', 'mdl')
    X = np.linalg.cholesky(R) @ gen.crandn(rng, m, N)
    Rs = X @ X.conj().T / N * s
    c.eq(int(mdl(Rs, N)), k, 'sample', 'mdl')
    got = int(aic(Rs, N))
    c.ok(got >= k, 'sample', lambda: 'aic underestimates: {0} < {1}'.format(got, k))
    if k >= 1:
        # a common signal eigenvalue and distinct tiny noise gaps
        l = np.concatenate((np.full(k, 50.0), 1 + 1e-3 * np.sort(rng.uniform(0, 1, m - k))[::-1])) * s
        c.eq(int(sorte(np.sort(l))), k, 'exact', 'sorte')
        Q = np.linalg.qr(gen.crandn(rng, m, m))[0]
        R2 = (Q * l) @ Q.conj().T
        c.eq(int(sorte(0.5 * (R2 + R2.conj().T))), k, 'exact', 'sorte-matrix')
    for bad in (1, 2, 3):
        c.refused(lambda: sorte(np.sort(rng.uniform(1, 2, bad))), 'sorte-too-few')
        c.refused(lambda: sorte(np.eye(bad)), 'sorte-too-few')


history.register(check, ('matrix',), ())
