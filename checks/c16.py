import numpy as np
import scipy.linalg as sl
from scipy.optimize import minimize
from vlib import gen, history, ref
from vlib.core import Check, Skip
import doatools.model.array_elements as EL
import doatools.model.arrays as AR
import doatools.model.sources as S
from doatools.estimation.ml import AMLEstimator, CMLEstimator, WSFEstimator, f_nll_stouc

check = Check('C16',
              'random perturbed arrays in 1D to 3D, 1D/2D/near-field sources in every unit, sample and exact covariances of varied '
              'scale and conditioning, random and near-truth initial guesses, solver options, reuse of one estimator; non-trivial = '
              'the documented objective was evaluated independently at the initial guess, the answer and its neighbourhood',
              ['local minimality is judged by a second, independent minimisation started at the answer; only cases with a numerically '
               'smooth objective (bounded condition numbers of the steering matrix) are in domain'])

EST = {'aml': AMLEstimator, 'cml': CMLEstimator, 'wsf': WSFEstimator}


def objective(name, A, R):
    """Documented objectives, through an orthonormal basis of the column space."""
    m, k = A.shape
    Q, _ = np.linalg.qr(A)
    P = Q @ Q.conj().T
    N = np.eye(m) - P
    if name == 'cml':
        return float(np.real(np.trace(R) - np.trace(Q.conj().T @ R @ Q)))
    if name == 'aml':
        # the determinant splits over the two orthogonal subspaces
        s = float(np.real(np.trace(R) - np.trace(Q.conj().T @ R @ Q))) / (m - k)
        w = sl.eigvalsh(Q.conj().T @ R @ Q)
        if s <= 0 or w[0] <= 0:
            return np.inf
        return float(np.sum(np.log(w)) + (m - k) * np.log(s))
    w, V = ref.eig_desc(R)
    s2 = w[k:].mean()
    W = (w[:k] - s2) ** 2 / w[:k]
    M = (V[:, :k] * W) @ V[:, :k].conj().T
    return float(np.real(np.trace(N @ M)))


class Scene:
    pass


def scene(c, kind=None, min_m=2, max_m=8, noniso=True, ambiguous=True):
    rng = c.rng
    z = Scene()
    z.kind = kind or gen.pick(rng, 'ff1d', 'ff1d', 'ff2d', 'nf2d')
    z.wl = gen.wavelength(rng, False)
    z.perts = {}
    shape = rng.normal(size=2)
    el = noniso and gen.coin(rng, 0.15)

    def kw(m):
        z.perts.clear()
        if gen.coin(rng, 0.6):
            z.perts.update(gen.perturbation_dict(rng, m, z.wl))
        d = {'perturbations': dict(z.perts)}
        if el:
            d['element'] = EL.CustomNonisotropicSensor(lambda r, az, e, p: 1.5 + 0.4 * np.cos(az - shape[0]) * np.cos(e) + 0.3 * np.sin(e))
        return d

    for _ in range(50):
        z.arr = gen.array(rng, z.wl, kw=kw, max_size=max_m, ambiguous=ambiguous)
        if z.arr.size >= min_m:
            break
    else:
        c.skip('size')
    z.m = z.arr.size
    z.plist = [(n, v, kn) for n, (v, kn) in z.perts.items()]
    z.el = el
    z.shape = shape

    def gain(src):
        if not el:
            return 1.0
        x = np.asarray(src.locations, dtype=float)
        u = src.units[0]
        if z.kind == 'ff1d':
            t = {'rad': lambda v: v, 'deg': np.deg2rad, 'sin': np.arcsin}[u](x)
            az, e = np.pi / 2 - t, 0 * t
        elif z.kind == 'ff2d':
            f = np.pi / 180 if u == 'deg' else 1.0
            az, e = x[:, 0] * f, x[:, 1] * f
        else:
            raise Skip('near-field element response')
        return 1.5 + 0.4 * np.cos(az - shape[0]) * np.cos(e) + 0.3 * np.sin(e)

    if z.el and z.kind == 'nf2d':
        c.skip('near-field element response')

    def steer(src, which='known'):
        # the response scales the ideal steering vectors, errors are applied on top
        loc = np.asarray(z.arr.element_locations, dtype=float)
        sel = ref.select(z.plist, which)
        A = ref.perturbed_steering(loc, sel, src, z.wl)[0]
        if el:
            A = A * np.asarray(gain(src))[None, :]
        return A
    z.steer = steer
    return z


def place(c, z, k, unit, spread=1.0):
    rng = c.rng
    if z.kind == 'ff1d':
        s = gen.separated_sines(rng, k, -0.85 * spread, 0.85 * spread, 1.2 * spread / max(k, 2) * 0.6)
        x = {'rad': np.arcsin, 'deg': lambda v: np.rad2deg(np.arcsin(v)), 'sin': lambda v: v}[unit](s)
        return S.FarField1DSourcePlacement(x, unit)
    if z.kind == 'ff2d':
        f = np.pi / 180 if unit == 'rad' else 1.0
        x = np.stack([rng.uniform(-150, 150, k), rng.uniform(10, 80, k)], 1) * f
        return S.FarField2DSourcePlacement(x, unit)
    return S.NearField2DSourcePlacement(rng.uniform(-4, 4, (k, 2)) * z.wl)


def unit_for(rng, kind):
    return {'ff1d': gen.pick(rng, 'rad', 'deg', 'sin'), 'ff2d': gen.pick(rng, 'rad', 'deg'), 'nf2d': 'm'}[kind]


def remake(src, x):
    x = np.asarray(x).reshape(np.shape(src.locations))
    if type(src) is S.NearField2DSourcePlacement:
        return S.NearField2DSourcePlacement(x)
    return type(src)(x, src.units[0])


def value(name, z, src, R):
    return objective(name, z.steer(src), R)


def same_answer(a, b):
    if bool(a[0]) != bool(b[0]):
        return False
    return not a[0] or np.array_equal(a[1].locations, b[1].locations)


def own_ranges(src):
    u = src.units[0]
    if type(src) is S.FarField1DSourcePlacement:
        return [(-gen.LIMITS[u], gen.LIMITS[u])]
    if type(src) is S.FarField2DSourcePlacement:
        f = np.pi / 180 if u == 'rad' else 1.0
        return [(-180.0 * f, 180.0 * f), (-90.0 * f, 90.0 * f)]
    return [(-np.inf, np.inf), (-np.inf, np.inf)]


def check_form(c, est, src0, tag=''):
    c.ok(type(est) is type(src0), 'type', tag)
    c.eq(tuple(est.units), tuple(src0.units), 'unit', tag)
    c.eq(est.size, src0.size, 'count', tag)
    x = np.asarray(est.locations)
    c.eq(x.shape, np.shape(src0.locations), 'shape', tag)
    c.eq(x.dtype.kind, 'f', 'real', tag)
    c.finite(x, 'finite', tag)
    u = src0.units[0]
    if type(src0) is S.FarField1DSourcePlacement:
        c.ok(bool(np.all(np.abs(x) <= gen.LIMITS[u] * (1 + 1e-12))), 'range', lambda: str(x))
    elif type(src0) is S.FarField2DSourcePlacement:
        lim = np.array([180.0, 90.0]) * (np.pi / 180 if u == 'rad' else 1)
        c.ok(bool(np.all(np.abs(x) <= lim * (1 + 1e-12))), 'range', lambda: str(x))


def sample_cov(c, z, src, k):
    rng = c.rng
    what = gen.pick(rng, 'exact', 'sample', 'random', 'sample')
    A = z.steer(src, 'all' if gen.coin(rng) else 'known')
    if what == 'random':
        R = gen.hermitian(rng, z.m, 'wishart', scale=1.0)
    elif what == 'exact':
        R = A @ gen.source_cov(rng, k) @ A.conj().T + np.eye(z.m) * float(10 ** rng.uniform(-2, 0.5))
    else:
        n = int(rng.integers(z.m, 300))
        Y = A @ gen.crandn(rng, k, n) + gen.crandn(rng, z.m, n) * float(10 ** rng.uniform(-1, 0.5))
        R = Y @ Y.conj().T / n
    return what, 0.5 * (R + R.conj().T)


def flatness(name, z, src, R):
    """Condition number of the steering matrix at a placement."""
    return np.linalg.cond(z.steer(src))


@check.scenario(3000)
def minimises(c):
    z = scene(c)
    rng = c.rng
    unit = unit_for(rng, z.kind)
    k = int(rng.integers(1, z.m))
    if gen.coin(rng, 0.7):
        k = min(k, 3)
    truth = place(c, z, k, unit)
    what, R = sample_cov(c, z, truth, k)
    name = gen.pick(rng, *EST)
    scale = 1.0 if gen.coin(rng, 0.7) else float(10 ** rng.uniform(-4, 4))
    R = R * scale
    if gen.coin(rng):
        src0 = place(c, z, k, unit)
    else:
        step = {'rad': 0.1, 'deg': 5.0, 'sin': 0.1, 'm': 0.2 * z.wl}[unit]
        x = np.asarray(truth.locations) + rng.uniform(-1, 1, np.shape(truth.locations)) * step
        src0 = remake(truth, np.clip(x, *np.array(own_ranges(truth)).T) if z.kind == 'ff2d' else x if z.kind == 'nf2d' else
                      np.clip(x, -gen.LIMITS[unit], gen.LIMITS[unit]))
    if flatness(name, z, src0, R) > 1e3:
        c.skip('ill-conditioned start')
    c.note(est=name, kind=z.kind, unit=unit, m=z.m, k=k, wl=z.wl, cov=what, scale=scale, R=R, x0=np.asarray(src0.locations),
           perts=[(n, kn) for n, _, kn in z.plist])
    kw = {}
    opt = int(rng.integers(3))
    if opt == 1:
        kw['tol'] = 1e-10
    elif opt == 2:
        kw['options'] = {'ftol': 1e-12, 'gtol': 1e-8, 'maxiter': 400}
    before = np.array(src0.locations)
    est = EST[name](z.arr, z.wl)
    r = est.estimate(gen.relayout(rng, R), src0, **kw)
    c.same(src0.locations, before, 'initial-guess-untouched')
    if not r[0]:
        c.eq(bool(r[0]), False, 'flag')
        c.ok(r[1] is None, 'no-estimates')
        return
    check_form(c, r[1], src0)
    cond = flatness(name, z, r[1], R)
    if cond > 1e6:
        c.skip('merged sources: the objective is undefined')
    v0, v1 = value(name, z, src0, R), value(name, z, r[1], R)
    if not np.isfinite(v0):
        c.skip('initial guess with infinite objective')
    size = float(np.real(np.trace(R))) if name != 'aml' else 1.0 + abs(v0)
    c.ok(v1 <= v0 + 1e-8 * size, 'not-above-initial', lambda: '{0} -> {1}'.format(v0, v1))
    # the last estimates
    last = est.get_last_estimates()
    c.same(last.locations, r[1].locations, 'last-estimates')
    check_form(c, last, src0)
    if scale != 1.0 and name != 'aml':
        return
    if cond > 1e3:
        return
    # no point near the answer is better; a local solver may stall, so the answer may be polished by restarting from it
    ranges = own_ranges(src0) * k
    lo = np.array([-np.inf if b[0] is None else b[0] for b in ranges], dtype=float)
    hi = np.array([np.inf if b[1] is None else b[1] for b in ranges], dtype=float)

    def g(x):
        return value(name, z, remake(src0, np.clip(x, lo, hi)), R)

    for attempt in range(4):
        x1 = np.asarray(r[1].locations, dtype=float).reshape(-1)
        fin = np.isfinite(hi - lo)
        if np.any(np.minimum(x1 - lo, hi - x1)[fin] < 0.02 * (hi - lo)[fin]):
            return                      # not smooth at the border of the sine domain, or constrained minimum
        v1 = value(name, z, r[1], R)
        cond = flatness(name, z, r[1], R)
        if cond > 1e3:
            return
        h = {'rad': 1e-3, 'deg': 0.05, 'sin': 1e-3, 'm': 2e-3 * z.wl}[unit]
        A1 = z.steer(r[1])
        for _ in range(40):
            moved = max(np.abs(z.steer(remake(src0, np.clip(x1 + s * h, lo, hi))) - A1).max() for s in (-1, 1))
            if moved <= 0.02 * np.abs(A1).max() / max(1.0, cond):
                break
            h /= 2
        best = v1
        for i in range(6 + 2 * len(x1)):
            if i < 2 * len(x1):
                d = np.zeros(len(x1))
                d[i // 2] = 1 if i % 2 else -1
            else:
                d = rng.normal(size=len(x1))
                d /= np.linalg.norm(d)
            for s in (1.0, 0.1):
                best = min(best, g(x1 + s * h * d))
        drop = v1 - best
        c.note(v0=v0, v1=v1, cond=cond)
        if drop <= LOCAL * max(1.0, abs(v1)):
            c.ok(True, 'local-minimum')
            return
        sol = minimize(g, x1, method='L-BFGS-B', bounds=ranges)
        nxt = est.estimate(R, r[1])
        if not nxt[0] or sol.fun > v1 - 0.5 * drop:
            return                      # a solver of this kind is stuck here
        r = nxt
    c.ok(False, 'local-minimum', lambda: 'objective {0} can be lowered by {1} within {2}'.format(v1, drop, h))


LOCAL = 1e-4


@check.scenario(600)
def interrupted(c):
    """A search cut short by the caller's iteration or evaluation limit is no success unless it had converged anyway."""
    rng = c.rng
    z = scene(c, ambiguous=False)
    unit = unit_for(rng, z.kind)
    k = int(rng.integers(1, min(z.m, 4)))
    truth = place(c, z, k, unit)
    what, R = sample_cov(c, z, truth, k)
    src0 = place(c, z, k, unit)
    name = gen.pick(rng, *EST)
    if flatness(name, z, src0, R) > 100:
        c.skip('ill-conditioned start')
    limit = {gen.pick(rng, 'maxiter', 'maxiter', 'maxfun'): int(rng.integers(1, 6))}
    c.note(est=name, kind=z.kind, unit=unit, m=z.m, k=k, wl=z.wl, cov=what, R=R, x0=np.asarray(src0.locations), limit=limit)
    r = EST[name](z.arr, z.wl).estimate(R, src0, options=limit)
    if not r[0]:
        c.eq(bool(r[0]), False, 'flag')
        c.ok(r[1] is None, 'no-estimates')
        return
    check_form(c, r[1], src0)
    full = EST[name](z.arr, z.wl).estimate(R, src0)
    if not full[0]:
        return
    v0, v1, v2 = (value(name, z, x, R) for x in (src0, r[1], full[1]))
    if not np.all(np.isfinite([v0, v1, v2])):
        c.skip('infinite objective')
    # without the limit the same search runs on from the same point: it must not have had anything left to do
    c.ok(v1 - v2 <= 1e-3 * abs(v0 - v2) + LOCAL * max(1.0, abs(v2)), 'stopped-early', lambda: '{0} -> {1}, without limit {2}'.format(v0, v1, v2))


def hessian(g, x, h):
    n = len(x)
    E = np.eye(n) * h
    H = np.zeros((n, n))
    for i in range(n):
        for j in range(i, n):
            H[i, j] = H[j, i] = (g(x + E[i] + E[j]) - g(x + E[i] - E[j]) - g(x - E[i] + E[j]) + g(x - E[i] - E[j])) / (4 * h * h)
    return H


@check.scenario(4000)
def recovers(c):
    """Started close to the truth with the exact covariance, the truth is found."""
    z = scene(c, ambiguous=False)
    rng = c.rng
    unit = unit_for(rng, z.kind)
    k = min(int(rng.integers(1, z.m)), gen.pick(rng, 1, 2, 3, 4, 10))
    truth = place(c, z, k, unit)
    A = z.steer(truth)          # the imperfections of the data are exactly the known ones
    if np.linalg.cond(A) > 100:
        c.skip('ill-conditioned')
    name = gen.pick(rng, *EST)
    P = gen.source_cov(rng, k)
    R = A @ P @ A.conj().T + np.eye(z.m) * float(10 ** rng.uniform(-2, 0))
    R = 0.5 * (R + R.conj().T)
    # locations are measured relative to the resolution of the array
    u0 = {'rad': 1.0, 'deg': 57.3, 'sin': 1.0, 'm': z.wl}[unit]
    x = np.asarray(truth.locations, dtype=float).reshape(-1)

    def g(t):
        return objective(name, z.steer(remake(truth, x + u0 * t)), R)
    h = 1e-3
    for _ in range(30):
        moved = max(np.abs(z.steer(remake(truth, x + s * u0 * h)) - A).max() for s in (-1, 1))
        if moved <= 0.02 * np.abs(A).max():
            break
        h /= 2
    H = hessian(g, np.zeros(len(x)), h)
    w = np.linalg.eigvalsh(H)
    if w[0] <= 0 or w[-1] / w[0] > 1e3 or w[-1] / min(1.0, u0) ** 2 > 1e4:
        c.skip('not identifiable')
    # start where the quadratic model still predicts the objective
    kw = gen.pick(rng, {}, {}, {'options': {'ftol': 1e-11, 'gtol': 1e-7}})
    est = EST[name](z.arr, z.wl)
    bounds = own_ranges(truth) * k
    for attempt in range(5):
        r = 20 * h
        d = rng.normal(size=len(x))
        d /= np.linalg.norm(d)
        while r >= h:
            q = 0.5 * r * r * d @ H @ d
            rise = g(r * d) - g(np.zeros(len(x)))
            if abs(rise - q) <= 0.2 * q:
                break
            r /= 2
        if r < h:
            c.skip('strongly non-quadratic')
        f0 = max(1.0, abs(g(np.zeros(len(x)))))
        if 0.5 * w[0] * (0.4 * r) ** 2 < 2e-6 * f0 or w[0] * 0.4 * r / u0 < 1e-3:
            c.skip('flat compared with the tolerances of the solver')
        src0 = remake(truth, x + u0 * r * d)
        # a reference minimisation tells whether a local solver gets to the truth from here
        sol = minimize(lambda v: objective(name, z.steer(remake(truth, v)), R), np.array(src0.locations, dtype=float).reshape(-1),
                       method='L-BFGS-B', bounds=bounds, **kw)
        if not sol.success or np.linalg.norm(sol.x - x) > 0.1 * r * u0:
            c.skip('a local solver does not get there')
        c.note(est=name, kind=z.kind, unit=unit, m=z.m, k=k, wl=z.wl, R=R, truth=np.asarray(truth.locations),
               start=np.asarray(src0.locations), perts=[(n, kn) for n, _, kn in z.plist], hmin=w[0], hmax=w[-1])
        res = est.estimate(R, src0, **kw)
        if res[0]:
            break
    if not res[0]:
        c.skip('line search without success')
    check_form(c, res[1], truth)
    err = np.linalg.norm(np.asarray(res[1].locations).reshape(-1) - x) / u0
    c.ok(err <= 0.4 * r, 'recovered', lambda: 'error {0}, start at distance {1}'.format(err, r))
    # the unknown imperfections are ignored, the known ones used: the value at the answer is that of the truth
    v = value(name, z, res[1], R)
    c.ok(v <= g(np.zeros(len(x))) + 0.5 * 0.16 * r * r * w[-1] * 2, 'value', lambda: str(v))


@check.scenario(700)
def distant_start(c):
    """Smooth objectives: wherever a reference minimisation gets to the truth from several neighbouring starting points,
    so does the estimator."""
    rng = c.rng
    z = Scene()
    z.kind = gen.pick(rng, 'nf2d', 'nf2d', 'ff1d', 'ff2d')
    z.wl = gen.wavelength(rng, False)
    m = int(rng.integers(3, 8))
    loc = rng.normal(size=(m, 2 if z.kind != 'ff2d' or gen.coin(rng) else 3)) * z.wl * (0.8 if z.kind == 'nf2d' else 0.4)
    pert = gen.perturbation_dict(rng, m, z.wl, known=True, kinds=['gain_errors', 'phase_errors']) if gen.coin(rng, 0.3) else {}
    z.arr, z.m, z.plist = AR.ArrayDesign(loc, 'smooth', perturbations=pert), m, [(n, v, kn) for n, (v, kn) in pert.items()]
    z.steer = lambda src: ref.perturbed_steering(loc, z.plist, src, z.wl)[0]
    unit = unit_for(rng, z.kind)
    k = 1 if gen.coin(rng, 0.7) else 2
    truth = place(c, z, k, unit)
    if z.kind == 'nf2d' and gen.coin(rng):
        truth = S.NearField2DSourcePlacement(truth.locations * 0.4)
    A = z.steer(truth)
    if np.linalg.cond(A) > 10:
        c.skip('ill-conditioned')
    R = A @ gen.source_cov(rng, k) @ A.conj().T + np.eye(m) * float(10 ** rng.uniform(-1, 0))
    R = 0.5 * (R + R.conj().T)
    name = gen.pick(rng, *EST)
    u0 = {'rad': 1.0, 'deg': 57.3, 'sin': 1.0, 'm': z.wl}[unit]
    x = np.asarray(truth.locations, dtype=float).reshape(-1)
    bounds = own_ranges(truth) * k
    lo, hi = np.array(bounds).T
    if z.kind == 'nf2d':
        far = float(rng.uniform(0.05, 1.5))
        x0 = x * far + rng.normal(size=x.shape) * 0.2 * u0 if gen.coin(rng) else x + rng.normal(size=x.shape) * far * u0
    else:
        x0 = np.clip(x + rng.normal(size=x.shape) * 0.4 * u0, 0.98 * lo, 0.98 * hi)
    near = [x0] + [np.clip(x0 + rng.normal(size=x.shape) * e * u0, lo, hi) for e in (1e-3, 1e-3, 1e-3, 1e-2, 1e-2, 1e-2, 0.03, 0.03)]
    c.note(est=name, kind=z.kind, unit=unit, loc=loc, wl=z.wl, R=R, truth=np.asarray(truth.locations), start=x0)

    def g(v):
        return objective(name, z.steer(remake(truth, v)), R)

    def reached(v):
        B = z.steer(remake(truth, v))
        return np.abs(B - A).max() <= 0.05 * np.abs(A).max()
    for f in (1.0, 0.3, 3.0):           # whatever the scale of the objective
        for s in near:
            sol = minimize(lambda v: f * g(v), s, method='L-BFGS-B', bounds=bounds)
            if not sol.success or not reached(sol.x):
                c.skip('a local solver does not get there')
    for s in near:
        r = EST[name](z.arr, z.wl).estimate(R, remake(truth, s))
        if r[0]:
            check_form(c, r[1], truth)
            if reached(np.asarray(r[1].locations).reshape(-1)):
                c.ok(True, 'reached')
                return
    c.ok(False, 'reached', lambda: 'from none of 9 starting points that lead a reference minimisation to the truth: {0}'.format(r[1] and r[1].locations))


@check.scenario(700)
def bookkeeping(c):
    """Histories of calls on one estimator: last estimates, copies, refusals and independence of earlier calls."""
    z = scene(c, min_m=2, max_m=6)
    rng = c.rng
    name = gen.pick(rng, *EST)
    unit = unit_for(rng, z.kind)
    est = EST[name](z.arr, z.wl)
    c.note(est=name, kind=z.kind, unit=unit, m=z.m, wl=z.wl)
    c.refused(est.get_last_estimates, 'nothing-yet', exc=RuntimeError)
    R0 = gen.hermitian(rng, z.m, 'wishart', scale=1.0)
    too_many = place(c, z, z.m + int(rng.integers(0, 3)), unit)
    c.refused(lambda: est.estimate(R0, too_many), 'too-many-sources')
    one = place(c, z, 1, unit)
    for bad in (gen.hermitian(rng, z.m + 1, 'wishart', scale=1.0), R0[:, :-1], R0[:-1], R0[0]):
        c.refused(lambda: est.estimate(bad, one), 'covariance-size')
    last = None
    for _ in range(int(rng.integers(2, 5))):
        op = gen.pick(rng, 'estimate', 'estimate', 'scribble', 'refuse')
        if op == 'estimate':
            k = int(rng.integers(1, min(z.m, 4)))
            src0 = place(c, z, k, unit)
            what, R = sample_cov(c, z, src0, k)
            if np.linalg.cond(z.steer(src0)) > 100:
                continue
            opts = {'options': {'maxiter': 8}} if gen.coin(rng, 0.3) else {}
            r = est.estimate(R, src0, **opts)
            fresh = EST[name](z.arr, z.wl).estimate(R, src0, **opts)
            if not same_answer(r, fresh):
                # an optimisation may amplify the rounding differences of other memory alignments
                more = [EST[name](z.arr, z.wl).estimate(gen.relayout(rng, R), src0, **opts) for _ in range(6)]
                c.ok(not all(same_answer(q, fresh) for q in more), 'history', lambda: '{0}, fresh {1}'.format(r[:2], fresh[:2]))
                c.skip('ill-conditioned optimisation')
            c.ok(True, 'history')
            if r[0]:
                c.same(est.get_last_estimates().locations, r[1].locations, 'last-estimates')
                last = np.array(r[1].locations)
                keep = r[1]
            else:
                c.ok(r[1] is None, 'no-estimates')
                last = None
        elif last is not None and op == 'scribble':
            a = est.get_last_estimates()
            np.asarray(a.locations)[...] = 0.125
            c.same(est.get_last_estimates().locations, last, 'copy')
            np.asarray(keep.locations)[...] = 0.25
            c.same(est.get_last_estimates().locations, last, 'copy')
        elif last is not None:
            c.refused(lambda: est.estimate(R0, too_many), 'too-many-sources')
            c.refused(lambda: est.estimate(R0[:, 1:], one), 'covariance-size')
            c.same(est.get_last_estimates().locations, last, 'last-estimates')


@check.scenario(600)
def most_sources(c):
    """m-1 sources are accepted, m are not; the answer reproduces the noise level of the model."""
    rng = c.rng
    m = int(rng.integers(2, 7))
    wl = gen.wavelength(rng, False)
    arr = AR.UniformLinearArray(m, wl / 2)
    unit = gen.pick(rng, 'rad', 'deg', 'sin')
    s = gen.separated_sines(rng, m - 1, -0.8, 0.8, min(1.0 / m, 1.4 / m))
    x = {'rad': np.arcsin, 'deg': lambda v: np.rad2deg(np.arcsin(v)), 'sin': lambda v: v}[unit](s)
    src = S.FarField1DSourcePlacement(x, unit)
    A = ref.steering(arr.element_locations, src, wl)
    R = A @ A.conj().T + np.eye(m)
    name = gen.pick(rng, *EST)
    c.note(m=m, unit=unit, est=name, x=x)
    r = EST[name](arr, wl).estimate(R, src)
    c.ok(bool(r[0]), 'accepted')
    err = np.abs(np.asarray(r[1].locations) - x).max() / {'rad': 1, 'deg': 57.3, 'sin': 1}[unit]
    c.ok(err < 0.02, 'stays-at-truth', lambda: str(err))


@check.scenario(1500, big=True)
def nll(c):
    """The full stochastic likelihood with uncorrelated sources."""
    z = scene(c, min_m=1, max_m=7, noniso=False)
    rng = c.rng
    unit = unit_for(rng, z.kind)
    k = int(rng.integers(1, 6))
    src = place(c, z, k, unit)
    if gen.coin(rng):                       # documented model: the array as it is built without imperfections
        z.arr, z.plist = z.arr.get_perturbation_free_copy(), []
    p = rng.uniform(0.1, 3, k)
    if gen.coin(rng, 0.2):
        p = np.full(k, 1.5)
    sigma = float(10 ** rng.uniform(-2, 1))
    R = gen.hermitian(rng, z.m, scale=1.0)
    A = z.steer(src, 'none')
    Sm = (A * p) @ A.conj().T + sigma * np.eye(z.m)
    w, V = sl.eigh(Sm)
    expect = np.sum(np.log(w)) + float(np.real(np.sum((V.conj() * (R @ V)).sum(0) / w)))
    c.note(kind=z.kind, m=z.m, k=k, p=p, sigma=sigma, R=R)
    if z.plist:
        c.skip('perturbed')
    c.close(f_nll_stouc(gen.relayout(rng, R), z.arr, src, z.wl, p, sigma), expect, 'nll', rtol=1e-8, atol=1e-7 * w[-1] / w[0])


history.register(check, ('ml',), ('aml', 'cml', 'wsf'))
