import numpy as np
from vlib import gen, history, ref
from vlib.core import Check
import doatools.model.arrays as AR
import doatools.model.sources as S
import doatools.estimation.grid as G
from doatools.estimation.preprocessing import spatial_smooth, l1_svd
from doatools.estimation.music import RootMUSIC1D, MUSIC
from doatools.estimation.esprit import Esprit1D

check = Check('C21',
              'real, complex, integer, Hermitian and non-Hermitian matrices of sizes 1 to 20 in hostile memory layouts with every '
              'number of subarrays; snapshot matrices of every aspect ratio, rank and reduced dimension; coherent sources on ULAs; '
              'non-trivial = the result was compared with the definition (explicit subarray average; rank-k Gram matrix and projections)',
              ['column phases of the l1-SVD are inherently free; equal singular values leave the reduced factor free up to a unitary matrix'])


def average(R, l, fb):
    m = R.shape[0]
    n = m - l + 1
    out = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for j in range(n):
            out[i, j] = sum(complex(R[i + s, j + s]) for s in range(l)) / l
    if fb:
        J = np.eye(n)[::-1]
        out = 0.5 * (out + J @ out.conj() @ J)
    return out


@check.scenario(4000, big=True)
def smoothing(c):
    rng = c.rng
    m = int(gen.pick(rng, rng.integers(1, 6), rng.integers(2, 12), rng.integers(2, 21))) if gen.BIG == 1 else int(rng.integers(20, 90))
    l = int(gen.pick(rng, 1, m, rng.integers(1, m + 1), rng.integers(1, m + 1)))
    kind = gen.pick(rng, 'herm', 'herm', 'psd', 'real', 'int', 'general', 'generalreal')
    if kind == 'herm':
        X = gen.crandn(rng, m, m)
        R = X + X.conj().T
    elif kind == 'psd':
        X = gen.crandn(rng, m, int(rng.integers(1, m + 1)))
        R = X @ X.conj().T
        R = 0.5 * (R + R.conj().T)
    elif kind == 'real':
        X = rng.normal(size=(m, m))
        R = X + X.T
    elif kind == 'int':
        X = rng.integers(-9, 10, (m, m))
        R = X + X.T
    elif kind == 'general':
        R = gen.crandn(rng, m, m)
    else:
        R = rng.normal(size=(m, m))
    single = kind != 'int' and gen.coin(rng, 0.04)
    if single:
        R = R.astype(np.complex64 if R.dtype.kind == 'c' else np.float32)
    elif kind != 'int' and gen.coin(rng, 0.2):
        R = R * 10 ** rng.uniform(-100, 100)
    R = gen.relayout(rng, R)
    keep = R.copy()
    fb = gen.coin(rng)
    c.note(m=m, l=l, kind=kind, fb=fb, R=R)
    l = gen.int_kind(rng, l)
    if not fb and gen.coin(rng):
        Y = spatial_smooth(R, l)
    elif gen.coin(rng):
        Y = spatial_smooth(R, l, fb=fb)
    else:
        Y = spatial_smooth(R, l, fb)
    top = float(np.abs(R).max())
    f = 2.0 ** 29 if single else 1.0
    c.close(Y, average(R, l, fb), 'forward-backward' if fb else 'forward', rtol=1e-13 * f, atol=1e-14 * l * top * f)
    c.same(R, keep, 'input-modified')
    c.ok(not np.shares_memory(Y, R), 'aliases-input')
    if kind != 'general':
        c.ok(kind in ('herm', 'psd') or not np.iscomplexobj(Y), 'real-in-real-out')
    if kind in ('herm', 'psd', 'real', 'int'):
        c.close(Y, Y.conj().T, 'hermitian', rtol=0, atol=1e-14 * top * f)
    if kind == 'psd':
        c.ok(np.linalg.eigvalsh(Y).min() >= -1e-12 * f * np.trace(R).real, 'semidefinite')
    if fb and kind != 'general' and kind != 'generalreal':
        c.close(np.flip(Y).T, Y, 'persymmetric', rtol=0, atol=1e-14 * l * top * f)
    for bad in (0, -1, m + 1, m + 5):
        c.refused(lambda: spatial_smooth(R, bad, fb), 'subarrays-range')


@check.scenario(3000, big=True)
def reduction(c):
    rng = c.rng
    m, n = gen.size(rng, 1, 14), int(gen.pick(rng, rng.integers(1, 14), rng.integers(1, 14), rng.integers(10, 200)))
    r = min(m, n)
    k = int(rng.integers(1, r + 1)) if gen.coin(rng, 0.97) else 0
    kind = gen.pick(rng, 'random', 'lowrank', 'real', 'noisy', 'graded', 'int')
    if kind == 'lowrank':
        q = int(rng.integers(1, r + 1))
        Y = gen.crandn(rng, m, q) @ gen.crandn(rng, q, n)
    elif kind == 'noisy':
        q = int(rng.integers(1, r + 1))
        Y = gen.crandn(rng, m, q) @ gen.crandn(rng, q, n) + 0.1 * gen.crandn(rng, m, n)
    elif kind == 'real':
        Y = rng.normal(size=(m, n))
    elif kind == 'int':
        Y = rng.integers(-9, 10, (m, n))
        Y[0, 0] = 5
    elif kind == 'graded':
        U, V = np.linalg.qr(gen.crandn(rng, m, r))[0], np.linalg.qr(gen.crandn(rng, n, r))[0]
        lim = gen.pick(rng, 3, 6)
        Y = (U * np.sort(10 ** rng.uniform(-lim, lim, r))[::-1]) @ V.conj().T
    else:
        Y = gen.crandn(rng, m, n)
    if kind != 'int' and gen.coin(rng, 0.2):
        Y = Y * 10 ** rng.uniform(-30, 30)
    Y = gen.relayout(rng, Y)
    keep = Y.copy()
    k = gen.int_kind(rng, k)
    c.note(m=m, n=n, k=k, kind=kind, Y=Y)
    Z = l1_svd(Y, k)
    c.same(Y, keep, 'input-modified')
    c.eq(np.shape(Z), (m, k), 'shape')
    c.refused(lambda: l1_svd(Y, -int(rng.integers(1, 4))), 'negative-k')
    if k == 0:
        return
    c.finite(Z, 'finite')
    s = np.linalg.svd(Y, compute_uv=False)
    top = s[0]
    # columns: orthogonal, with the k largest singular values as lengths, in descending order
    Gm = Z.conj().T @ Z
    c.close(Gm, np.diag(s[:k] ** 2), 'singular-values', rtol=0, atol=1e-12 * top * np.maximum.outer(s[:k], s[:k]))
    # weak columns do not drown in the rounding errors of squared data
    c.close(np.linalg.norm(Z / top, axis=0), s[:k] / top, 'singular-values', rtol=0, atol=1e-12)
    # equals Y V_k for the dominant right singular vectors: V_k = Y^H Z / s^2 is then orthonormal and Y V_k = Z
    good = s[:k] > 1e-8 * top
    V = (Y.conj().T @ Z[:, good]) / s[:k][good] ** 2
    c.close(Y @ V, Z[:, good], 'right-singular-vectors', rtol=0, atol=1e-12 * top ** 2 / s[:k][good])
    # best rank-k part of Y Y^H when it is determined
    if k == r or s[k - 1] - s[k] > 1e-6 * top:
        w, U = ref.eig_desc(Y @ Y.conj().T)
        U, w = U[:, :k], w[:k]
        c.close(Z @ Z.conj().T, (U * w) @ U.conj().T, 'dominant-part', rtol=0, atol=1e-8 * top ** 2)
    if kind in ('real', 'int'):
        c.ok(not np.iscomplexobj(Z), 'real-in-real-out')


@check.scenario(500, big=True)
def decorrelation(c):
    """Fully coherent sources on a ULA become resolvable, and only after smoothing."""
    rng = c.rng
    wl = gen.wavelength(rng, False)
    k = int(rng.integers(2, 4))
    fb = gen.coin(rng)
    l = int(rng.integers((k + 1) // 2 if fb else k, k + 3))
    n = int(rng.integers(k + 1, k + 6))
    m = n + l - 1
    d0 = wl / 2 * float(rng.uniform(0.6, 1))
    s = np.sort(gen.separated_sines(rng, k, -0.8, 0.8, 0.35))
    src = S.FarField1DSourcePlacement(np.arcsin(s))
    ula = AR.UniformLinearArray(m, d0)
    b = rng.uniform(0.7, 1.5, k) * np.exp(1j * rng.uniform(-np.pi, np.pi, k))
    y = ref.steering(np.asarray(ula.element_locations, float), src, wl) @ b
    sigma = float(10 ** rng.uniform(-4, -1))
    R = np.outer(y, y.conj()) + sigma * np.eye(m)
    c.note(wl=wl, k=k, fb=fb, l=l, n=n, s=s, sigma=sigma)
    Rs = spatial_smooth(R, l, fb)
    c.eq(Rs.shape, (n, n), 'shape')
    w = np.linalg.eigvalsh(Rs)
    c.close(w[:n - k], np.full(n - k, sigma), 'noise-eigenvalues', rtol=0, atol=1e-10 * w[-1])
    if w[n - k] - sigma < 1e-3 * w[-1]:
        c.skip('ill-conditioned')
    # an independent null-spectrum check: the signal subspace is that of the steering vectors of the subarray
    sub = AR.UniformLinearArray(n, d0)
    A = ref.steering(np.asarray(sub.element_locations, float), src, wl)
    _, U = ref.eig_desc(Rs)
    c.close(U[:, k:].conj().T @ A, np.zeros((n - k, k)), 'noise-subspace', rtol=0, atol=1e-7 * n)
    ok, est = RootMUSIC1D(wl).estimate(Rs, k, d0, unit='sin')
    c.ok(ok, 'estimate-resolved')
    c.close(np.sort(est.locations), s, 'estimate', rtol=0, atol=1e-5)
    ok, est = Esprit1D(wl).estimate(Rs, k, d0, unit='sin')
    c.ok(ok, 'estimate-resolved')
    c.close(np.sort(est.locations), s, 'estimate', rtol=0, atol=1e-5)


history.register(check, ('matrix', 'sources'), ())
