"""Near-identical requests: families of specifications made of plain values, a
generic one-facet change, and the evaluation of a specification through the
public API.  Used against hidden (module- or class-level) state."""
import numpy as np
from vlib import gen
import doatools.model.arrays as AR
import doatools.model.sources as SR
import doatools.model.coarray as CO
import doatools.model.array_elements as EL
import doatools.model.signals as SI
import doatools.estimation as ES
import doatools.estimation.grid as GR
import doatools.estimation.preprocessing as PP
import doatools.estimation.source_number as SN
import doatools.performance as PF
import doatools.utils.math as UM
import doatools.utils.conversion as UC

UNITS = ('rad', 'deg', 'sin')
CHOICES = {
    'unit': UNITS, 'unit2': ('rad', 'deg'), 'form': ('ls', 'tls'), 'meth': ('ss', 'da'), 'mode': ('full', 'diag', 'mean_diag'),
    'weights': ('default', 'none'), 'which': ('all', 'known', 'none'), 'gridtype': ('ff2d', 'nf2d'),
    'sparse_form': ('penalizedl1', 'constrainedl1'), 'est': ('bartlett', 'mvdr', 'music', 'minnorm'),
}


# -- families: make(rng) -> spec ---------------------------------------------------
def _m(rng):
    return int(rng.integers(4, 7))


def make_grid(rng):
    n = int(rng.integers(5, 12))
    return {'axis': np.sort(rng.uniform(-1, 1, n)), 'axis2': np.sort(rng.uniform(0, 1, int(rng.integers(4, 8)))), 'unit': gen.pick(rng, *UNITS),
            'unit2': gen.pick(rng, 'rad', 'deg'), 'gridtype': gen.pick(rng, 'ff2d', 'nf2d'), 'density': int(rng.integers(2, 5)),
            'wl': float(rng.uniform(0.5, 2)), 'loc': rng.normal(size=(4, 2)), 'R': gen.hermitian(rng, 4, 'wishart', 1.0), 'est': gen.pick(rng, *CHOICES['est'])}


def eval_grid(s):
    g = GR.FarField1DSearchGrid(axes=(s['axis'],), unit=s['unit'])
    h = GR.FarField2DSearchGrid(axes=(s['axis'], s['axis2']), unit=s['unit2']) if s['gridtype'] == 'ff2d' else GR.NearField2DSearchGrid(axes=(s['axis'], s['axis2']))
    out = []
    for x in (g, h):
        c = tuple(n // 2 for n in x.shape)
        r = x.create_refined_grid_at(c, density=s['density'])
        out += [x.source_placement.locations, list(x.units), x.shape, [a for a in r.axes], r.source_placement.locations]
        a = AR.ArrayDesign(s['loc'], 'a')
        E = {'bartlett': ES.BartlettBeamformer, 'mvdr': ES.MVDRBeamformer, 'music': ES.MUSIC, 'minnorm': ES.MinNorm}[s['est']]
        e = E(a, s['wl'], x).estimate(s['R'], 1, return_spectrum=True, refine_estimates=True, refinement_density=2, refinement_iters=2)
        out += [e[0], e[1].locations if e[0] else None, e[2]]
    u = GR.FarField1DSearchGrid(size=len(s['axis']), unit=s['unit'])
    v = GR.FarField2DSearchGrid(size=s['density'], unit=s['unit2'])
    w = GR.FarField1DSearchGrid(float(s['axis'][0]), float(s['axis'][-1]), s['density'] + 3, s['unit'])
    return out + [u.source_placement.locations, v.source_placement.locations, w.axes[0]]


def make_array(rng):
    m = _m(rng)
    return {'loc': rng.normal(size=(m, int(rng.integers(1, 4)))), 'gain': rng.uniform(-0.3, 0.3, m), 'phase': rng.uniform(-1, 1, m),
            'shift': rng.uniform(-0.1, 0.1, (m, 2)), 'coupling': np.eye(m) + 0.1 * gen.crandn(rng, m, m), 'k1': bool(rng.random() < .5), 'k2': bool(rng.random() < .5),
            'k3': bool(rng.random() < .5), 'k4': bool(rng.random() < .5), 'wl': float(rng.uniform(.5, 2)), 'doa': rng.uniform(-.9, .9, 4), 'unit': gen.pick(rng, *UNITS),
            'which': gen.pick(rng, *CHOICES['which']), 'el': float(rng.uniform(.2, .8))}


def eval_array(s):
    d = {'gain_errors': (s['gain'], s['k1']), 'phase_errors': (s['phase'], s['k2']), 'location_errors': (s['shift'], s['k3']), 'mutual_coupling': (s['coupling'], s['k4'])}
    a = AR.ArrayDesign(s['loc'], 'a', perturbations=d)
    b = AR.ArrayDesign(s['loc'], 'a').get_perturbed_copy({'gain_errors': (s['gain'], s['k1'])})
    f = a.get_perturbation_free_copy()
    e = AR.ArrayDesign(s['loc'], 'a', element=EL.CustomNonisotropicSensor(lambda r, az, el, p: 1 + s['el'] * np.cos(az)))
    v = AR.ArrayDesign(s['loc'], 'a', element=EL.CustomNonisotropicSensor(lambda r, az, el, p: np.stack([np.cos(az), s['el'] + np.sin(el)]), 2))
    src = SR.FarField1DSourcePlacement(s['doa'], s['unit'])
    A, D = a.steering_matrix(src, s['wl'], compute_derivatives=True, perturbations=s['which'])
    return [A, D, b.steering_matrix(src, s['wl'], perturbations=s['which']), f.steering_matrix(src, s['wl']), e.steering_matrix(src, s['wl']),
            v.steering_matrix(src, s['wl']), v.steering_matrix(src, s['wl'], flatten=False), a.actual_element_locations, a.element_locations, f.element_locations,
            CO.compute_unique_location_differences(s['loc'])]


def make_lattice(rng):
    m = _m(rng)
    return {'idx': np.sort(rng.choice(12, m, replace=False)).reshape(-1, 1), 'd0': float(rng.uniform(.3, .5)), 'R': gen.hermitian(rng, m, 'wishart', 1.0),
            'meth': gen.pick(rng, 'ss', 'da'), 'neg': bool(rng.random() < .5), 'n1': int(rng.integers(1, 5)), 'n2': int(rng.integers(1, 5)), 'doa': rng.uniform(-.9, .9, 3),
            'r': float(rng.uniform(.3, 1))}


def eval_lattice(s):
    out = []
    src = SR.FarField1DSourcePlacement(s['doa'], 'sin')
    p, q = 2, 3 + 2 * (s['n1'] % 2)
    arrays = [AR.GridBasedArrayDesign(s['idx'], d0=s['d0']), AR.NestedArray(s['n1'], s['n2'], s['d0']), AR.CoPrimeArray(p, q, s['d0'], '2m' if s['neg'] else 'm'),
              AR.MinimumRedundancyLinearArray(s['n1'] + 2, s['d0']), AR.UniformLinearArray(s['n1'] + 1, s['d0'])]
    for a in arrays:
        w = CO.WeightFunction1D(a)
        out += [a.element_locations, w.differences(), w.weights(), w.get_central_ula_size(s['neg']), w.get_coarray_selection_matrix(s['neg']), a.steering_matrix(src, 1.0)]
    b = ES.CoarrayACMBuilder1D(arrays[0])
    v = b.get_virtual_ula()
    out += [b.transform(s['R'], s['meth']), b.output_size, v.element_locations]
    for a in (AR.UniformRectangularArray(s['n1'] + 1, s['n2'], s['d0']), AR.UniformCircularArray(s['n1'] + 2, s['r'])):
        out += [a.element_locations, a.steering_matrix(src, 1.0)]
    return out


def make_sources(rng):
    k = int(rng.integers(3, 6))
    return {'x': rng.uniform(-1, 1, k), 'xy': rng.uniform(-1, 1, (k, 2)), 'unit': gen.pick(rng, *UNITS), 'unit2': gen.pick(rng, 'rad', 'deg'), 'to': gen.pick(rng, *UNITS),
            'loc': rng.normal(size=(3, 3)), 'wl': float(rng.uniform(.5, 2)), 'i': int(rng.integers(k)), 'z': np.exp(1j * rng.uniform(-1.5, 1.5, k)), 'd0': float(rng.uniform(.3, .5))}


CHOICES['to'] = UNITS


def eval_sources(s):
    a = SR.FarField1DSourcePlacement(s['x'].copy(), s['unit'])
    b = SR.FarField2DSourcePlacement(s['xy'].copy(), s['unit2'])
    c = SR.NearField2DSourcePlacement(s['xy'].copy())
    out = [a.as_unit(s['to']).locations, b.as_unit('deg' if s['unit2'] == 'rad' else 'rad').locations]
    for x in (a, b, c):
        out += [x[s['i'] % x.size], x[:2].locations, x.phase_delay_matrix(s['loc'], s['wl']), [np.array(t) for t in x.calc_spherical_coords(s['loc'])], list(x.units)]
    z = SR.FarField1DSourcePlacement.from_z(s['z'], 1.0, s['d0'], s['to'])
    return out + [z.locations, list(z.units), UC.convert_angles(s['x'], s['unit'], s['to']), UC.ae2broad(s['xy']), UC.cart2spherical(s['loc']),
                  UM.cartesian(s['x'], s['x'][:2]), UM.unique_rows(np.round(s['xy'], 1), sort=True)]


def make_rooting(rng):
    m = _m(rng) + 1
    k = int(rng.integers(1, 3))
    A = np.exp(1j * np.pi * np.outer(np.arange(m), gen.separated_sines(rng, k, -.4, .4)))
    R = A @ A.conj().T + .1 * np.eye(m) + .01 * gen.hermitian(rng, m, 'wishart', 1.0)
    return {'R': R, 'k': k, 'wl': float(rng.uniform(.8, 1.2)), 'd0': float(rng.uniform(.4, .6)), 'give': bool(rng.random() < .5), 'disp': int(rng.integers(1, 3)),
            'form': gen.pick(rng, 'ls', 'tls'), 'weights': gen.pick(rng, 'default', 'none'), 'unit': gen.pick(rng, *UNITS), 'rw': rng.uniform(.5, 2, m), 'own': bool(rng.random() < .3)}


def eval_rooting(s):
    kw = {'d0': s['d0']} if s['give'] else {}
    w = s['rw'][:len(s['R']) - s['disp']] if s['own'] else s['weights']
    out = []
    for f in (lambda: ES.RootMUSIC1D(s['wl']).estimate(s['R'], s['k'], unit=s['unit'], **kw),
              lambda: ES.Esprit1D(s['wl']).estimate(s['R'], s['k'], displacement=s['disp'], formulation=s['form'], row_weights=w, unit=s['unit'], **kw)):
        r = f()
        out += [r[0], r[1].locations if r[0] else None, list(r[1].units) if r[0] else None]
    return out


def make_perf(rng):
    k = int(rng.integers(2, 4))
    return {'m': _m(rng), 'd0': float(rng.uniform(.3, .5)), 'doa': gen.separated_sines(rng, k, -.8, .8), 'P': gen.source_cov(rng, k, 'full'), 'p': rng.uniform(.5, 2, k),
            'sigma': float(rng.uniform(.2, 2)), 'n': int(rng.integers(5, 50)), 'mode': gen.pick(rng, *CHOICES['mode']), 'phase': rng.uniform(-1, 1, 12), 'known': bool(rng.random() < .5),
            'which': gen.pick(rng, *CHOICES['which']), 'wl': float(rng.uniform(.9, 1.3)), 'unit': gen.pick(rng, *UNITS), 'vec': bool(rng.random() < .5)}


def eval_perf(s):
    src = SR.FarField1DSourcePlacement(s['doa'], s['unit'])
    a = AR.UniformLinearArray(s['m'], s['d0'], perturbations={'phase_errors': (s['phase'][:s['m']], s['known'])})
    b = AR.NestedArray(2, 2 + s['m'] % 3, s['d0'])
    p = s['p'] if s['vec'] else s['P']
    t = (s['sigma'], s['n'])
    return [PF.crb_sto_farfield_1d(a, src, s['wl'], p, *t, s['mode']), PF.crb_det_farfield_1d(a, src, s['wl'], s['P'], *t, s['mode']),
            PF.crb_stouc_farfield_1d(a, src, s['wl'], p, *t, s['mode']), PF.ecov_music_1d(a, src, s['wl'], p, *t, s['which'], s['mode']),
            PF.ecov_coarray_music_1d(b, src, s['wl'], p, *t, s['mode'])]


def make_matrix(rng):
    m = _m(rng)
    return {'R': gen.hermitian(rng, m, 'wishart', 1.0), 'l': int(rng.integers(1, m)), 'fb': bool(rng.random() < .5), 'Y': gen.crandn(rng, m, 8), 'k': int(rng.integers(1, m)),
            'n': int(rng.integers(5, 200)), 'ev': np.sort(rng.uniform(.1, 3, 7)), 'X': gen.crandn(rng, 5, 3), 'W': gen.crandn(rng, 4, 3), 'pinv': bool(rng.random() < .5)}


def eval_matrix(s):
    y = PP.l1_svd(s['Y'], s['k'])
    return [PP.spatial_smooth(s['R'], s['l'], s['fb']), y @ y.conj().T, int(SN.aic(s['R'], s['n'])), int(SN.mdl(s['R'], s['n'])), int(SN.sorte(s['R'])), int(SN.aic(s['ev'], s['n'])),
            int(SN.mdl(s['ev'], s['n'])), int(SN.sorte(s['ev'])), UM.khatri_rao(s['X'], s['W']), UM.projm(s['X'], s['pinv']), UM.vec(s['X']).copy(), UM.abs_squared(s['W'])]


def make_signals(rng):
    k = int(rng.integers(2, 5))
    return {'C': gen.source_cov(rng, k, 'full'), 'v': rng.uniform(.5, 2, k), 's': float(rng.uniform(.5, 2)), 'n': int(rng.integers(1, 9)), 'seed': int(rng.integers(2**31)),
            'doa': rng.uniform(-.9, .9, k), 'loc': rng.normal(size=(4, 2)), 'gain': rng.uniform(-.3, .3, 4), 'noise': float(rng.uniform(.1, 1))}


def eval_signals(s):
    from doatools.model.snapshots import get_narrowband_snapshots
    k = len(s['v'])
    out = []
    a = AR.ArrayDesign(s['loc'], 'a', perturbations={'gain_errors': (s['gain'], False)})
    src = SR.FarField1DSourcePlacement(s['doa'], 'sin')
    for f in (lambda: SI.ComplexStochasticSignal(k, s['C']), lambda: SI.ComplexStochasticSignal(k, s['v']), lambda: SI.ComplexStochasticSignal(k, s['s']),
              lambda: SI.RandomPhaseSignal(k, s['v']), lambda: SI.RandomPhaseSignal(k, s['s'])):
        np.random.seed(s['seed'])
        g = f()
        out += [g.emit(s['n']), g.emit(1), g.emit(s['n'])]
        out += list(get_narrowband_snapshots(a, src, 1.0, g, SI.ComplexStochasticSignal(4, s['noise']), s['n'], True))
    return out


def make_ml(rng):
    m = _m(rng)
    k = int(rng.integers(1, 3))
    x = gen.separated_sines(rng, k, -.7, .7)
    A = np.exp(1j * np.pi * np.outer(np.arange(m), x))
    return {'m': m, 'R': A @ A.conj().T + .2 * gen.hermitian(rng, m, 'wishart', 1.0), 'x0': x + .03, 'unit': gen.pick(rng, 'sin', 'rad'), 'wl': float(rng.uniform(.95, 1.05)),
            'phase': rng.uniform(-.3, .3, 7), 'known': bool(rng.random() < .5)}


def eval_ml(s):
    a = AR.UniformLinearArray(s['m'], .5, perturbations={'phase_errors': (s['phase'][:s['m']], s['known'])})
    out = []
    for E in (ES.AMLEstimator, ES.CMLEstimator, ES.WSFEstimator):
        r = E(a, s['wl']).estimate(s['R'], SR.FarField1DSourcePlacement(s['x0'].copy(), s['unit']), options={'maxiter': 8})
        out += [r[0], r[1].locations if r[0] else None]
    return out


FAMILIES = {n[5:]: (v, globals()['eval_' + n[5:]]) for n, v in list(globals().items()) if n.startswith('make_')}


# -- one-facet changes ---------------------------------------------------------------
def tweak(spec, seed):
    """A copy of the specification that differs in exactly one facet."""
    rng = np.random.default_rng(seed)
    key = sorted(spec)[int(rng.integers(len(spec)))]
    v = spec[key]
    out = {k: (x.copy() if isinstance(x, np.ndarray) else x) for k, x in spec.items()}
    how = '='
    if key in CHOICES:
        o = [x for x in CHOICES[key] if x != v]
        out[key] = gen.pick(rng, *o)
    elif isinstance(v, bool):
        out[key] = not v
    elif isinstance(v, int):
        out[key] = v + 1
    elif isinstance(v, float):
        out[key] = v * float(gen.pick(rng, 1.1, 1 + 1e-3, 1 + 1e-6))
    else:
        w = out[key]
        herm = w.ndim == 2 and w.shape[0] == w.shape[1] and np.allclose(w, w.conj().T)
        how = gen.pick(rng, 'swap', 'nudge', 'tiny', 'conj' if herm else 'reverse')
        if key in ('axis', 'axis2', 'ev', 'doa', 'x0'):
            how = gen.pick(rng, 'nudge', 'tiny')
        if key == 'idx':
            how = 'lattice'
        if herm and how in ('swap', 'reverse'):
            n = len(w)
            p = np.arange(n)
            p[1], p[-2] = p[-2], p[1]
            w[...] = w[np.ix_(p, p)]
        elif how == 'swap':
            f = w.reshape(-1)
            i, j = rng.integers(0, f.size, 2)
            f[i], f[j] = f[j], f[i]
        elif how == 'conj':
            w[...] = w.conj()
        elif how == 'reverse':
            w[...] = w[::-1].copy()
        elif how == 'lattice':
            f = w.reshape(-1)
            free = [x for x in range(int(f.min()), int(f.max()) + 1) if x not in set(f.tolist())]
            if free:
                f[len(f) // 2] = free[0]
                f.sort()
        else:
            e = 1e-3 if how == 'nudge' else 1e-7
            if herm:
                n = len(w)
                H = gen.hermitian(rng, n, 'wishart', 1.0)
                np.fill_diagonal(H, 0)
                w += e * (H if w.dtype.kind == 'c' else H.real)
            else:
                f = w.reshape(-1)
                i = f.size // 2
                f[i] = f[i] * (1 - e)
    return out, (key, how)


def spec_of(family, seed, change):
    s = FAMILIES[family][0](np.random.default_rng(seed))
    return s if change is None else tweak(s, change)[0]


def answer(family, seed, change):
    """Evaluates one request; exceptions that mean a refusal are answers too."""
    s = spec_of(family, seed, change)
    try:
        r = FAMILIES[family][1](s)
    except (ValueError, RuntimeError, KeyError) as e:
        return ['refused', type(e).__name__]
    return detach(r)


def detach(x):
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return tuple(detach(i) for i in x)
    return x
