import warnings
import numpy as np
from scipy.optimize import nnls, linprog
from vlib import gen, ref
from vlib.core import Check
from checks import c12
import doatools.model.arrays as AR
import doatools.estimation.grid as GR
from doatools.optim.l1lsq import L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem
from doatools.estimation.sparse import SparseCovarianceMatching, GroupSparseEstimator

check = Check('C17',
              'random dictionaries (over- and underdetermined, correlated, real and complex), observations, regularisation values and '
              'solvers, reuse of one problem object; both sparse estimators for random perturbed arrays and grids of all kinds; '
              'infeasible problems; on-grid noise-free sources; refusals; non-trivial = the suboptimality of the answer was bounded '
              'through a dual certificate that knows nothing about the solver',
              ['solver tolerance is taken as 1e-3 of the scale of the problem (1e-5 with the interior-point solver); cases in which '
               'the dual certificate of a reference solution is not tight are out of domain'])


# -- certificates -------------------------------------------------------------
def gap_penalised(A, b, x, l, nonneg):
    """Upper bound on the suboptimality of x, and the objective."""
    r = b - A @ x
    obj = 0.5 * r @ r + l * np.abs(x).sum()
    z = A.T @ r
    mx = z.max() if nonneg else np.abs(z).max()
    # best feasible multiple of the residual
    s = (r @ b) / max(r @ r, 1e-300)
    if mx > 0:
        s = min(s, l / mx)
    if not nonneg and mx > 0:
        s = max(s, -l / mx)
    t = s * r
    dual = 0.5 * b @ b - 0.5 * (b - t) @ (b - t)
    return obj - dual, obj


def gap_l1ball(A, b, x, l, nonneg):
    r = A @ x - b
    g = 2 * A.T @ r
    lin = l * (max(0.0, (-g).max()) if nonneg else np.abs(g).max())
    return g @ x + lin, r @ r


def gap_residual(A, b, x, l, nonneg):
    """min |x|_1 s.t. |Ax-b| <= l; dual: max b'v - l|v|, A'v <= 1."""
    obj = np.abs(x).sum()
    if np.linalg.norm(b) <= l:
        return obj, obj
    r = b - A @ x
    z = A.T @ r
    mx = z.max() if nonneg else np.abs(z).max()
    if mx <= 0:
        return np.inf, obj
    v = r / mx
    return obj - (b @ v - l * np.linalg.norm(v)), obj


def gap_group(A, B, X, l):
    r = B - A @ X
    obj = 0.5 * np.sum(np.abs(r) ** 2) + l * np.linalg.norm(X, axis=1).sum()
    mx = np.linalg.norm(A.conj().T @ r, axis=1).max()
    s = np.real(np.vdot(r, B)) / max(np.sum(np.abs(r) ** 2), 1e-300)
    if mx > 0:
        s = min(s, l / mx)
    t = s * r
    return obj - (0.5 * np.sum(np.abs(B) ** 2) - 0.5 * np.sum(np.abs(B - t) ** 2)), obj


GAP = {'penalizedl1': gap_penalised, 'constrainedl1': gap_l1ball, 'constrainedl2': gap_residual}


def dictionary(rng, m, k, cx=False):
    A = gen.crandn(rng, m, k) * np.sqrt(2) if cx else rng.normal(size=(m, k))
    r = rng.random()
    if r < 0.2 and k > 1:
        A[:, -1] = A[:, 0] + 0.1 * A[:, -1]
    elif r < 0.3:
        A = A / np.linalg.norm(A, axis=0)
    elif r < 0.4:
        A[:, 0] = 0
    elif r < 0.5 and k > 1:
        A[:, 1] = A[:, 0]
    return A


def accuracy(kw):
    return 1e-5 if kw.get('solver') == 'CLARABEL' else 1e-3


def gave_up(ws):
    return any('ptimal' in str(w.message) for w in ws)


def corroborate(c, solve, easy):
    """The solver reported a failure on a problem that has a solution.  It may give up on a degenerate problem, but not on
    small changes of it and a series of benign problems alike.  solve(f) repeats the request on the same object with data
    scaled by f, easy() makes a request with random data."""
    for f in (1 + 1e-3, 1 - 1e-3, 1.2, None, None, None, None, None):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            solve(f) if f is not None else easy()
        if not gave_up(ws):
            return
    c.ok(False, 'feasible-but-failed', 'no solution for nine feasible problems in a row')


@check.scenario(800)
def lasso(c):
    rng = c.rng
    m, k = int(rng.integers(1, 12)), int(rng.integers(1, 16))
    form = gen.pick(rng, *GAP)
    nonneg = gen.coin(rng)
    args = [form] if form != 'penalizedl1' or gen.coin(rng) else []
    kwargs = {'nonnegative': nonneg} if nonneg or gen.coin(rng) else {}
    prob = L1RegularizedLeastSquaresProblem(m, k, *args, **kwargs)
    for step in range(3):
        A = dictionary(rng, m, k)
        x0 = np.zeros(k)
        sup = rng.choice(k, size=min(k, int(rng.integers(1, 4))), replace=False)
        x0[sup] = rng.normal(size=len(sup)) * 2
        if nonneg and gen.coin(rng, 0.8):
            x0 = np.abs(x0)
        b = A @ x0 + rng.normal(size=m) * gen.pick(rng, 0.0, 0.05, 0.5)
        if gen.coin(rng, 0.1):
            b = rng.normal(size=m)
        kw = gen.pick(rng, {}, {'solver': 'CLARABEL'})
        if form == 'constrainedl2':
            # distance of b from the reachable set
            if nonneg:
                dist = nnls(A, b)[1]
            else:
                dist = np.linalg.norm(b - A @ np.linalg.lstsq(A, b, rcond=None)[0])
            l = gen.pick(rng, dist * 1.2 + 0.1, dist + float(rng.uniform(0.2, 1)), float(np.linalg.norm(b)) * 1.1 + 0.1, 0.3 * dist)
        elif form == 'constrainedl1':
            dist = 0
            l = gen.pick(rng, 0.5 * np.abs(x0).sum(), np.abs(x0).sum(), float(rng.uniform(0.1, 3)), 0.0)
        else:
            dist = 0
            l = gen.pick(rng, float(rng.uniform(0.05, 1)), float(rng.uniform(0.05, 0.9)) * np.abs(A.T @ b).max(), 2 * np.abs(A.T @ b).max() + 0.1, 0.01)
        l = float(l)
        c.note(m=m, k=k, form=form, nonneg=nonneg, step=step, A=A, b=b, l=l, dist=dist, opts=str(kw))
        AA, bb = gen.relayout(rng, A), gen.relayout(rng, b.reshape((-1, 1)))
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            x = prob.solve(AA, bb, l, **kw)
        c.eq(int(np.size(x)), k, 'size')
        x = np.array(x, dtype=float).reshape(-1)
        c.finite(x, 'finite')
        warned = gave_up(ws)
        c.eq(bool(prob.is_optimal), not warned, 'is-optimal')
        if form == 'constrainedl2' and l < dist:
            if dist - l > 1e-3 * (1 + np.linalg.norm(b)):
                c.ok(bool(np.all(x == 0)), 'infeasible-zeros', lambda: str(x))
                c.ok(warned, 'infeasible-warning')
            continue
        if warned:
            c.ok(bool(np.all(x == 0)), 'failure-zeros')
            v = 1 + rng.normal(size=(m, 1)) ** 2
            corroborate(c, lambda f: prob.solve(AA, bb * f, l * f, **kw),
                        lambda: prob.solve(1 + rng.normal(size=(m, k)) ** 2, v, 0.5 * float(np.sum(v)), **kw))
            continue
        acc = accuracy(kw)
        size = 1.0 + float(b @ b) + np.abs(x).sum()
        if nonneg:
            c.ok(bool(x.min() >= -acc * size), 'nonnegative', lambda: str(x))
            x = np.maximum(x, 0)
        if form == 'constrainedl1':
            c.ok(np.abs(x).sum() <= l + acc * size, 'l1-bound', lambda: '{0} > {1}'.format(np.abs(x).sum(), l))
        if form == 'constrainedl2':
            res = np.linalg.norm(A @ x - b)
            c.ok(res <= l + acc * size, 'residual-bound', lambda: '{0} > {1}'.format(res, l))
            if l <= 1e-9:
                continue
        gap, obj = GAP[form](A, b, x, l, nonneg)
        tight = acc * size * (1 + np.linalg.norm(A, 2) ** 2)
        if form == 'penalizedl1':
            # the certificate degrades like |x| * error / l
            tight *= 1 + np.abs(x).sum() * np.linalg.norm(A, 2)
            if gap > tight and obj - reference_penalised(A, b, l, nonneg) <= acc * size:
                gap = 0.0
        if form == 'constrainedl2' and gap > tight:
            gap = obj - reference_residual(A, b, l, nonneg)
        c.ok(gap <= tight, 'optimal', lambda: '{0}: suboptimal by up to {1} of {2} (tolerance {3})'.format(form, gap, obj, tight))


@check.scenario(240)
def units(c):
    """Measurements in other units: the same problem with data multiplied by a power of ten."""
    rng = c.rng
    m, k = int(rng.integers(2, 9)), int(rng.integers(2, 12))
    form = gen.pick(rng, *GAP)
    nonneg = gen.coin(rng)
    s = float(10 ** rng.uniform(-3, 4))
    t = gen.pick(rng, s, s, float(10 ** rng.uniform(-2, 2)))          # scales of the dictionary and of the observations
    prob = L1RegularizedLeastSquaresProblem(m, k, form, nonnegative=nonneg)
    for step in range(2):
        A = rng.normal(size=(m, k))
        x0 = np.zeros(k)
        x0[rng.choice(k, size=min(k, 2), replace=False)] = rng.uniform(0.5, 2, min(k, 2))
        if not nonneg:
            x0 *= np.sign(rng.normal(size=k))
        b = A @ x0 + 0.1 * rng.normal(size=m)
        if form == 'constrainedl2':
            dist = nnls(A, b)[1] if nonneg else np.linalg.norm(b - A @ np.linalg.lstsq(A, b, rcond=None)[0])
            l = dist + float(rng.uniform(0.1, 0.5)) * np.linalg.norm(b) + 0.05
            ls = l * t
        elif form == 'constrainedl1':
            l = float(rng.uniform(0.3, 1.0)) * np.abs(x0).sum()
            ls = l * t / s
        else:
            l = float(rng.uniform(0.05, 0.8)) * max(np.abs(A.T @ b).max(), 0.1)
            ls = l * s * t
        c.note(m=m, k=k, form=form, nonneg=nonneg, s=s, t=t, A=A, b=b, l=l, step=step)
        AA, bb = gen.relayout(rng, A * s), gen.relayout(rng, (b * t).reshape((-1, 1)))
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            x = np.array(prob.solve(AA, bb, ls, solver='CLARABEL'), dtype=float).reshape(-1) * (s / t)
        if gave_up(ws):
            c.ok(bool(np.all(x == 0)), 'failure-zeros')
            c.skip('the solver gave up')
        size = 1.0 + float(b @ b) + np.abs(x0).sum()
        acc = UNITS
        if nonneg:
            c.ok(bool(x.min() >= -acc * size), 'nonnegative', lambda: str(x))
            x = np.maximum(x, 0)
        if form == 'constrainedl1':
            c.ok(np.abs(x).sum() <= l + acc * size, 'l1-bound', lambda: '{0} > {1}'.format(np.abs(x).sum(), l))
        if form == 'constrainedl2':
            res = np.linalg.norm(A @ x - b)
            c.ok(res <= l + acc * size, 'residual-bound', lambda: '{0} > {1}'.format(res, l))
        gap, obj = GAP[form](A, b, x, l, nonneg)
        tight = acc * size * (1 + np.linalg.norm(A, 2) ** 2)
        if gap > tight and form == 'penalizedl1':
            gap = obj - reference_penalised(A, b, l, nonneg)
        elif gap > tight and form == 'constrainedl2':
            gap = obj - reference_residual(A, b, l, nonneg)
        c.ok(gap <= tight, 'optimal', lambda: '{0}: suboptimal by up to {1} of {2}'.format(form, gap, obj))


UNITS = 2e-3


def reference_penalised(A, b, l, nonneg, iters=20000):
    """Objective reached by accelerated proximal gradient steps."""
    L = np.linalg.norm(A, 2) ** 2 + 1e-12
    x = np.zeros(A.shape[1])
    y, t = x.copy(), 1.0
    for _ in range(iters):
        v = y - A.T @ (A @ y - b) / L
        n = np.maximum(v - l / L, 0) if nonneg else np.sign(v) * np.maximum(np.abs(v) - l / L, 0)
        t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
        y = n + (t - 1) / t2 * (n - x)
        if np.abs(n - x).max() < 1e-14:
            break
        x, t = n, t2
    r = b - A @ x
    return 0.5 * r @ r + l * np.abs(x).sum()


def reference_residual(A, b, l, nonneg):
    """min |x|_1 s.t. |Ax-b| <= l by bisection over the penalty."""
    lo, hi = 1e-9, np.abs(A.T @ b).max() + 1e-9
    best = np.inf

    def sol(p):
        L = np.linalg.norm(A, 2) ** 2 + 1e-12
        x = np.zeros(A.shape[1])
        y, t = x.copy(), 1.0
        for _ in range(4000):
            v = y - A.T @ (A @ y - b) / L
            n = np.maximum(v - p / L, 0) if nonneg else np.sign(v) * np.maximum(np.abs(v) - p / L, 0)
            t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
            y = n + (t - 1) / t2 * (n - x)
            if np.abs(n - x).max() < 1e-13:
                break
            x, t = n, t2
        return x
    for _ in range(40):
        mid = np.sqrt(lo * hi)
        x = sol(mid)
        if np.linalg.norm(A @ x - b) <= l:
            best = np.abs(x).sum()
            lo = mid
        else:
            hi = mid
    return best


@check.scenario(400)
def group(c):
    rng = c.rng
    m, k, n = int(rng.integers(1, 8)), int(rng.integers(1, 12)), int(rng.integers(1, 6))
    cx = gen.coin(rng)
    prob = L21RegularizedLeastSquaresProblem(m, k, n, *([cx] if cx or gen.coin(rng) else []))
    for step in range(3):
        A = dictionary(rng, m, k, cx)
        X0 = np.zeros((k, n), dtype=complex if cx else float)
        sup = rng.choice(k, size=min(k, int(rng.integers(1, 4))), replace=False)
        X0[sup] = gen.crandn(rng, len(sup), n) if cx else rng.normal(size=(len(sup), n))
        B = A @ X0 + (gen.crandn(rng, m, n) if cx else rng.normal(size=(m, n))) * gen.pick(rng, 0.0, 0.1, 0.5)
        mx = np.linalg.norm(A.conj().T @ B, axis=1).max()
        l = float(gen.pick(rng, 0.1, 1.0, 0.5 * mx, 0.05 * mx, 1.5 * mx)) + 1e-3
        c.note(m=m, k=k, n=n, complex=cx, step=step, A=A, B=B, l=l)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            X = np.asarray(prob.solve(gen.relayout(rng, A), gen.relayout(rng, B), l))
        c.eq(X.shape, (k, n), 'shape')
        c.finite(X, 'finite')
        c.eq(bool(prob.is_optimal), not gave_up(ws), 'is-optimal')
        if gave_up(ws):
            c.ok(bool(np.all(X == 0)), 'failure-zeros')
            corroborate(c, lambda f: prob.solve(A, B * f, l), lambda: prob.solve(rng.normal(size=(m, k)), rng.normal(size=(m, n)), 0.5))
            continue
        gap, obj = gap_group(A, B, X, l)
        size = 1.0 + np.sum(np.abs(B) ** 2) + np.linalg.norm(X, axis=1).sum()
        tight = 1e-4 * size * (1 + np.linalg.norm(A, 2) ** 2)
        c.ok(gap <= tight, 'optimal', lambda: 'suboptimal by up to {0} of {1}'.format(gap, obj))


# -- estimators ---------------------------------------------------------------
def small_grid(rng, kind, wl):
    if kind == 'ff1d':
        return gen.grid(rng, kind, wl, int(rng.integers(5, 36)))
    return gen.grid(rng, kind, wl, int(rng.integers(3, 6)))


def scene(c, max_m=4, min_m=1):
    rng = c.rng
    wl = float(10 ** rng.uniform(-2, 2))
    kind = gen.pick(rng, 'ff1d', 'ff1d', 'ff2d', 'nf2d')
    perts = {}

    def kw(m):
        perts.clear()
        if gen.coin(rng, 0.6):
            perts.update(gen.perturbation_dict(rng, m, wl))
        return {'perturbations': dict(perts)}
    for _ in range(50):
        arr = gen.array(rng, wl, kw=kw, max_size=max_m)
        if arr.size >= min_m:
            break
    else:
        c.skip('size')
    g = small_grid(rng, kind, wl)
    plist = [(n, v, kn) for n, (v, kn) in perts.items()]
    A = ref.perturbed_steering(np.asarray(arr.element_locations, float), ref.select(plist, 'known'), g.source_placement, wl)[0]
    c.note(kind=kind, wl=wl, m=arr.size, grid=g.shape, unit=g.units[0], perts=[(n, kn) for n, _, kn in plist])
    return rng, wl, kind, arr, g, A, plist


def stacked(M):
    return np.concatenate((M.real.reshape(M.shape[0] * M.shape[1] if M.ndim == 2 else M.shape, order='F'),
                           M.imag.reshape(M.shape[0] * M.shape[1] if M.ndim == 2 else M.shape, order='F')))


def atoms(A, noise):
    m, n = A.shape
    cols = [stacked(np.outer(A[:, i], A[:, i].conj())) for i in range(n)]
    if noise:
        cols.append(stacked(np.eye(m, dtype=complex)))
    return np.stack(cols, 1)


def best_noise(form, Phi, r, p, l):
    """Optimal nonnegative noise power for given source powers."""
    v = Phi[:, -1]
    e = r - Phi[:, :-1] @ p
    t, m = v @ e, v @ v
    if form == 'penalizedl1':
        return max(0.0, (t - l) / m)
    if form == 'constrainedl1':
        return max(0.0, min(t / m, l - p.sum()))
    disc = (t / m) ** 2 - (e @ e - l * l) / m
    return max(0.0, t / m - np.sqrt(max(disc, 0.0)))


@check.scenario(900)
def covariance_matching(c):
    rng, wl, kind, arr, g, A, plist = scene(c)
    m = arr.size
    known = gen.coin(rng)
    form = gen.pick(rng, *GAP)
    kwa = {'noise_known': known} if known or gen.coin(rng) else {}
    if form != 'penalizedl1' or gen.coin(rng):
        kwa['formulation'] = form
    est = SparseCovarianceMatching(arr, wl, g, **kwa)
    Phi = atoms(A, not known)
    for step in range(2):
        sup = rng.choice(A.shape[1], size=min(A.shape[1], int(rng.integers(1, 4))), replace=False)
        p0 = np.zeros(A.shape[1])
        p0[sup] = rng.uniform(0.5, 2, len(sup))
        sg = float(rng.uniform(0.05, 1))
        R = (A * p0) @ A.conj().T + sg * np.eye(m)
        if gen.coin(rng, 0.6):
            R = R + gen.pick(rng, 0.05, 0.3) * (gen.hermitian(rng, m, 'wishart', scale=1.0) - 0.5 * np.eye(m))
        sigma = gen.pick(rng, sg, sg, 0.5 * sg, 0.0, 0)
        Rn = R - sigma * np.eye(m) if known else R
        r = stacked(Rn.astype(complex))
        x_, dist = nnls(Phi, r)
        if form == 'constrainedl2':
            l = dist * 1.2 + float(rng.uniform(0.05, 0.5)) * np.linalg.norm(r) + 0.01
        elif form == 'constrainedl1':
            l = float(rng.uniform(0.3, 1.2)) * (p0.sum() + sg)
        else:
            l = float(rng.uniform(0.02, 0.7)) * max(1e-3, (Phi.T @ r).max())
        l = float(l)
        c.note(form=form, known=known, step=step, R=R, l=l, sigma=sigma)
        kw = {'return_spectrum': True}
        if known:
            kw['sigma'] = sigma
        elif gen.coin(rng, 0.3):
            kw['sigma'] = 123.0     # irrelevant unless the noise is declared known
        k = int(rng.integers(1, 4))
        opt = gen.pick(rng, {}, {'solver_options': {'solver': 'CLARABEL'}})
        kw.update(opt)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            res = est.estimate(gen.relayout(rng, R), gen.count(rng, k), l, **kw)
        if gave_up(ws):
            c.eq(bool(res[0]), False, 'failure-unresolved')
            c.ok(bool(np.all(res[2] == 0)), 'failure-zeros')
            lv = {'penalizedl1': 0.3, 'constrainedl1': 0.5, 'constrainedl2': 1.0 + 3.0 * m}[form]
            easy = lambda: est.estimate(gen.hermitian(rng, m, 'wishart', scale=1.0) + np.eye(m), k, lv * rng.uniform(0.7, 1.3), **dict(kw, sigma=0.5))
            if known:
                corroborate(c, lambda f: est.estimate(R * f, k, l * f, **dict(kw, sigma=sigma * f)), easy)
            else:
                corroborate(c, lambda f: est.estimate(R * f, k, l * f, **kw), easy)
            continue
        sp = res[2]
        c.eq(tuple(sp.shape), tuple(g.shape), 'shape')
        c.finite(sp, 'finite')
        c12.verify(c, g, res, sp, k, tag=form)
        acc = accuracy(opt.get('solver_options', {}))
        p = sp.reshape(-1)
        size = 1.0 + r @ r + np.abs(p).sum()
        c.ok(bool(p.min() >= -acc * size), 'nonnegative', lambda: str(p.min()))
        p = np.maximum(p, 0)
        x = p if known else np.append(p, best_noise(form, Phi, r, p, l))
        if form == 'constrainedl1':
            c.ok(x.sum() <= l + acc * size, 'l1-bound')
        if form == 'constrainedl2':
            rr = np.linalg.norm(Phi @ x - r)
            c.ok(rr <= l + acc * size, 'residual-bound', lambda: '{0} > {1}'.format(rr, l))
        if form == 'penalizedl1':
            gap = gap_penalised(Phi, r, x, l, True)[0]
        elif form == 'constrainedl1':
            gap = gap_l1ball(Phi, r, x, l, True)[0]
        else:
            gap = gap_residual(Phi, r, x, l, True)[0]
        tight = acc * size * (1 + np.linalg.norm(Phi, 2))
        if form == 'constrainedl2' and gap > tight:
            gap = x.sum() - reference_residual(Phi, r, l, True)
        c.ok(gap <= tight, 'optimal', lambda: '{0}: suboptimal by up to {1} (tolerance {2})'.format(form, gap, tight))


@check.scenario(400)
def group_estimator(c):
    rng, wl, kind, arr, g, A, plist = scene(c, max_m=6)
    m = arr.size
    n = int(rng.integers(1, 6))
    est = GroupSparseEstimator(arr, wl, g, n)
    for step in range(2):
        sup = rng.choice(A.shape[1], size=min(A.shape[1], int(rng.integers(1, 4))), replace=False)
        Y = A[:, sup] @ gen.crandn(rng, len(sup), n) * 2 + gen.crandn(rng, m, n) * gen.pick(rng, 0.0, 0.1, 0.5)
        mx = np.linalg.norm(A.conj().T @ Y, axis=1).max()
        l = float(rng.uniform(0.02, 0.8)) * mx
        k = int(rng.integers(1, 4))
        c.note(step=step, Y=Y, l=l, k=k)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            res = est.estimate(gen.relayout(rng, Y), gen.count(rng, k), l, return_spectrum=True)
        if gave_up(ws):
            c.eq(bool(res[0]), False, 'failure-unresolved')
            c.ok(bool(np.all(res[2] == 0)), 'failure-zeros')
            corroborate(c, lambda f: est.estimate(Y * f, k, l), lambda: est.estimate(gen.crandn(rng, m, n), k, 0.5))
            continue
        sp = res[2]
        c.eq(tuple(sp.shape), tuple(g.shape), 'shape')
        c.ok(bool(np.all(sp >= 0)), 'norms')
        c12.verify(c, g, res, sp, k, tag='group')
        # The rows are not observable, only their norms q.  With the best directions U (rows of unit norm) the
        # objective is convex in X; at the optimum X = diag(q) U.  Lower bound: the dual value of a reference solution.
        X = prox_group(A, Y, l)
        gap, obj = gap_group(A, Y, X, l)
        size = 1.0 + np.sum(np.abs(Y) ** 2)
        if gap > 1e-5 * size:
            c.skip('reference did not converge')
        # strict complementarity: rows whose correlation stays below l are zero in every solution
        q = sp.reshape(-1)
        corr = np.linalg.norm(A.conj().T @ (Y - A @ X), axis=1)
        off = corr < l * (1 - 1e-2)
        c.ok(bool(np.all(q[off] <= 2e-2 * (np.sqrt(size) / np.linalg.norm(A, axis=0).min() + 1))) if np.any(off) else True, 'zero-rows',
             lambda: str(q[off].max()))
        # the l21 norm of every solution follows from the optimal objective and the unique fit
        if l > 1e-3:
            c.close(q.sum(), np.linalg.norm(X, axis=1).sum(), 'l21-norm', rtol=1e-2, atol=1e-2 * np.sqrt(size))
        # unique solution: compare all norms
        on = np.flatnonzero(corr >= l * (1 - 1e-2))
        if len(on) and len(on) <= m and np.linalg.cond(A[:, on]) < 30:
            c.close(q, np.linalg.norm(X, axis=1), 'row-norms', rtol=0, atol=2e-2 * np.linalg.norm(X, axis=1).max() + 1e-3 * np.sqrt(size))


def prox_group(A, Y, l, iters=6000):
    L = np.linalg.norm(A, 2) ** 2 + 1e-12
    X = np.zeros((A.shape[1], Y.shape[1]), dtype=complex)
    Z, t = X.copy(), 1.0
    for i in range(iters):
        V = Z - A.conj().T @ (A @ Z - Y) / L
        nr = np.linalg.norm(V, axis=1, keepdims=True)
        N = V * np.maximum(0, 1 - l / L / np.maximum(nr, 1e-300))
        if np.real(np.vdot(Z - N, N - X)) > 0:
            t = 1.0
        t2 = (1 + np.sqrt(1 + 4 * t * t)) / 2
        Z = N + (t - 1) / t2 * (N - X)
        done = np.abs(N - X).max() < 1e-12
        X, t = N, t2
        if done:
            break
    return X


@check.scenario(300)
def on_grid(c):
    """Noise-free sources on the grid are identified."""
    rng = c.rng
    wl = float(10 ** rng.uniform(-2, 2))
    m = int(rng.integers(4, 8))
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    n = int(rng.integers(15, 40))
    g = GR.FarField1DSearchGrid(size=n, unit=unit) if unit != 'sin' else GR.FarField1DSearchGrid(start=-0.95, stop=0.95, size=n, unit=unit)
    perts = {}
    if gen.coin(rng):
        perts = gen.perturbation_dict(rng, m, wl, kinds=['gain_errors', 'phase_errors'], strength=0.5)
    arr = gen.pick(rng, AR.UniformLinearArray(m, wl / 2, perturbations=perts),
                   AR.UniformLinearArray(m, wl / 2, perturbations=perts))
    src = g.source_placement
    sines = {'rad': np.sin, 'deg': lambda v: np.sin(np.deg2rad(v)), 'sin': lambda v: v}[unit](np.asarray(src.locations))
    k = int(rng.integers(1, 3))
    inner = np.flatnonzero(np.abs(sines) < 0.8)
    pos = np.sort(rng.choice(inner, size=k, replace=False))
    if k > 1 and np.min(np.diff(sines[pos])) < 2.5 / m:
        c.skip('too close')
    plist = [(nm, v, kn) for nm, (v, kn) in perts.items()]
    A = ref.perturbed_steering(np.asarray(arr.element_locations, float), ref.select(plist, 'known'), src[pos.tolist()], wl)[0]
    p = rng.uniform(0.8, 1.5, k)
    sg = float(rng.uniform(0.1, 1))
    which = gen.pick(rng, 'unknown', 'known', 'group')
    c.note(m=m, wl=wl, unit=unit, grid=n, pos=pos, which=which, p=p, sg=sg, perts=[(nm, kn) for nm, _, kn in plist])
    ws = warnings.catch_warnings(record=True)
    log = ws.__enter__()
    warnings.simplefilter('always')
    if which == 'group':
        ns = int(rng.integers(k, k + 4))
        X = np.linalg.qr(gen.crandn(rng, ns, k))[0].T * np.sqrt(ns)
        Y = A @ X
        e = GroupSparseEstimator(arr, wl, g, ns)
        r = e.estimate(Y, k, 0.1 * float(np.linalg.norm(A.conj().T @ Y, axis=1).max()), return_spectrum=True)
    else:
        R = (A * p) @ A.conj().T + sg * np.eye(m)
        known = which == 'known'
        form = gen.pick(rng, 'penalizedl1', 'constrainedl1', 'constrainedl2')
        e = SparseCovarianceMatching(arr, wl, g, known, form)
        l = {'penalizedl1': 0.05 * m, 'constrainedl1': p.sum() + (0 if known else sg), 'constrainedl2': 0.05 * m}[form]
        c.note(form=form)
        kw = {'sigma': sg} if known else {}
        r = e.estimate(R, k, l, return_spectrum=True, solver_options={'solver': 'CLARABEL'}, **kw)
    ws.__exit__(None, None, None)
    if gave_up(log):
        c.ok(not r[0] and bool(np.all(r[2] == 0)), 'failure-unresolved')
        if which == 'group':
            corroborate(c, lambda f: e.estimate(Y * f, k, 1.0), lambda: e.estimate(gen.crandn(rng, m, ns), k, 0.5))
        else:
            corroborate(c, lambda f: e.estimate(R * f, k, l * f, solver_options={'solver': 'CLARABEL'}, **{a: v * f for a, v in kw.items()}),
                        lambda: e.estimate(R, k, l * 3, solver_options={'solver': 'CLARABEL'}, **kw))
        c.skip('the solver gave up')
    # the best atoms among those that explain the data: judge the mass near the sources, and the estimates
    c.ok(bool(r[0]), 'resolved')
    est = np.asarray(r[1].locations)
    gi = np.array([int(np.argmin(np.abs(np.asarray(src.locations) - v))) for v in est])
    c.ok(bool(np.all(np.abs(gi - pos) <= 1)), 'identified', lambda: 'true {0}, found {1}'.format(pos, gi))


@check.scenario(120)
def infeasible(c):
    """No feasible solution: warning, zeros, unresolved, and the estimator keeps working."""
    rng = c.rng
    m = int(rng.integers(2, 5))
    wl = 1.0
    kind = gen.pick(rng, 'ff1d', 'ff2d')
    arr = AR.UniformLinearArray(m, wl / 2) if kind == 'ff1d' else AR.UniformRectangularArray(2, m - 1, wl / 2)
    m = arr.size
    g = small_grid(rng, kind, wl)
    known = gen.coin(rng)
    est = SparseCovarianceMatching(arr, wl, g, known, 'constrainedl2')
    A = ref.perturbed_steering(np.asarray(arr.element_locations, float), [], g.source_placement, wl)[0]
    Phi = atoms(A, not known)
    bad = -np.eye(m) * 2 + 0.1 * gen.hermitian(rng, m, 'wishart', scale=1.0)
    kw = {'sigma': 0.5} if known else {}
    r = stacked((bad - (0.5 * np.eye(m) if known else 0)).astype(complex))
    dist = nnls(Phi, r)[1]
    c.note(kind=kind, m=m, known=known, dist=dist, grid=g.shape)
    if dist < 0.5:
        c.skip('feasible')
    k = int(rng.integers(1, 3))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        res = est.estimate(bad, k, 0.3 * dist, return_spectrum=True, **kw)
    c.ok(any('ptimal' in str(w.message) for w in ws), 'warning')
    c.eq(bool(res[0]), False, 'infeasible-unresolved')
    c.ok(res[1] is None, 'infeasible-none')
    c.ok(bool(np.all(res[2] == 0)), 'infeasible-zeros')
    good = (A[:, :1] @ A[:, :1].conj().T) * 2 + (0.5 if known else 0.3) * np.eye(m)
    a = est.estimate(good, 1, 0.5, return_spectrum=True, **kw)
    b = SparseCovarianceMatching(arr, wl, g, known, 'constrainedl2').estimate(good, 1, 0.5, return_spectrum=True, **kw)
    c.ok(abs(a[2].sum() - b[2].sum()) <= 1e-2 * (1 + b[2].sum()), 'after-infeasible')
    c.ok(a[2].sum() > 0.1, 'after-infeasible')


@check.scenario(120)
def refusals(c):
    rng = c.rng
    wl = 1.0
    m, k, n = int(rng.integers(2, 6)), int(rng.integers(2, 6)), int(rng.integers(1, 4))
    c.note(m=m, k=k, n=n)
    for bad in ('penalizedL1', 'constraintedl1', '', None, 'l21'):
        c.refused(lambda: L1RegularizedLeastSquaresProblem(m, k, bad), 'formulation')
    c.refused(lambda: SparseCovarianceMatching(AR.UniformLinearArray(m, 0.5), wl, GR.FarField1DSearchGrid(size=5), formulation='x'), 'formulation')
    p = L1RegularizedLeastSquaresProblem(m, k)
    A, b = rng.normal(size=(m, k)), rng.normal(size=(m, 1))
    x = np.array(p.solve(A, b, 0.3)).reshape(-1)
    c.refused(lambda: p.solve(rng.normal(size=(m + 1, k)), b, 0.3), 'A-size')
    c.refused(lambda: p.solve(rng.normal(size=(m, k + 1)), b, 0.3), 'A-size')
    c.refused(lambda: p.solve(A, rng.normal(size=(m + 1, 1)), 0.3), 'b-size')
    c.refused(lambda: p.solve(A, b, -0.1), 'negative-l')
    q = L21RegularizedLeastSquaresProblem(m, k, n)
    B = rng.normal(size=(m, n))
    c.refused(lambda: q.solve(A, rng.normal(size=(m, n + 1)), 0.3), 'B-size')
    c.refused(lambda: q.solve(A[:, 1:], B, 0.3), 'A-size')
    c.refused(lambda: q.solve(A, B, -1.0), 'negative-l')
    c.refused(lambda: q.solve(A + 1j * A, B, 1.0), 'complex-in-real')
    # usable afterwards
    y = np.array(p.solve(A, b, 0.3)).reshape(-1)
    o = lambda v: 0.5 * float(np.sum((A @ v - b[:, 0]) ** 2)) + 0.3 * np.abs(v).sum()
    c.close(o(y), o(x), 'after-refusal', rtol=1e-3, atol=1e-4)
    c.eq(np.shape(q.solve(A, B, 0.3)), (k, n), 'after-refusal')
    arr, g = AR.UniformLinearArray(m, wl / 2), GR.FarField1DSearchGrid(size=9)
    e = SparseCovarianceMatching(arr, wl, g)
    R = gen.hermitian(rng, m, 'wishart', scale=1.0)
    for v in (True, False):
        c.refused(lambda: e.estimate(R, 1, 0.3, refine_estimates=v), 'refinement')
    for bad in (R[:, 1:], R[1:], R[0], gen.hermitian(rng, m + 1, 'wishart', scale=1.0)):
        c.refused(lambda: e.estimate(bad, 1, 0.3), 'covariance-size')
    c.refused(lambda: e.estimate(R, 1, -0.3), 'negative-l')
    kn = SparseCovarianceMatching(arr, wl, g, noise_known=True)
    c.refused(lambda: kn.estimate(R, 1, 0.3), 'sigma-missing')
    c.refused(lambda: kn.estimate(R, 1, 0.3, None), 'sigma-missing')
    ge = GroupSparseEstimator(arr, wl, g, n)
    Y = gen.crandn(rng, m, n)
    for bad in (gen.crandn(rng, m + 1, n), gen.crandn(rng, m - 1, n), gen.crandn(rng, m, n + 1), gen.crandn(rng, n + m, m)):
        c.refused(lambda: ge.estimate(bad, 1, 0.3), 'snapshots-size')
    c.refused(lambda: ge.estimate(Y, 1, 0.3, refine_estimates=True), 'refinement')
    c.eq(len(e.estimate(R, 1, 0.3)), 2, 'after-refusal')
    c.eq(len(ge.estimate(Y, 1, 0.3, return_spectrum=True)), 3, 'after-refusal')
