"""Weights"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, close, ensure, warm   # noqa

ID = 'C06'


def check_replicate(case):
    """Integer weights are equivalent to repeating the data (for a given smoothing matrix)"""
    import kalepy as kale
    su = gen.Setup(case['kde'])
    rng = np.random.RandomState(case['seed'])
    reps = rng.randint(0, 4, su.ndata)
    reps[rng.randint(su.ndata)] += 1
    pts = su.points(case['seed'], 20)
    bw = su.bw if (su.bw is not None and not isinstance(su.bw, str) and su.spec['bw']['kind'] != 'mix') else 0.6
    kw = dict(bandwidth=bw, covariance=su.covariance, kernel=su.kernel, diagonal=su.diagonal)
    aa = kale.KDE(su.data, weights=reps.astype(float) if case['float'] else reps, **kw)
    bb = kale.KDE(np.repeat(su.data, reps, axis=1), **kw)
    peak = ref.peak(reps, aa.kernel.matrix, su.kname)
    for prob in (True, False):
        va, vb = aa.density(pts, probability=prob)[1], bb.density(pts, probability=prob)[1]
        close(va, vb, 1e-9, 1e-12 * peak, 'density of weighted data, relative to repeated data (probability=%s)' % prob)
    return len(set(reps)) > 2 and np.any(va > 0), su.labels()


def check_scale(case):
    """Only the relative weights matter for a pdf, while the density is proportional to weight; zero weight is absent"""
    su = gen.Setup(case['kde'])
    if su.weights is None:
        ww = np.ones(su.ndata)
    else:
        ww = np.asarray(su.weights, float)
    pts = su.points(case['seed'], 20)
    fac = case['factor']
    kw = su.kwargs()
    kw.pop('weights', None)
    import kalepy as kale
    base = kale.KDE(su.dataset(), weights=su.weights, **kw)
    resc = kale.KDE(su.dataset(), weights=ww * fac, **kw)
    peak = ref.peak(ww, su.matrix, su.kname)
    cmpr = close if su.kname != 'box' else close_box
    d0, d1 = base.density(pts)[1], resc.density(pts)[1]
    p0, p1 = base.pdf(pts)[1], resc.pdf(pts)[1]
    cmpr(d1 / fac, d0, 1e-7, 1e-10 * peak, 'density with rescaled weights')
    cmpr(p1, p0, 1e-7, 1e-10 * peak / ww.sum(), 'pdf with rescaled weights')
    close(p0 * ww.sum(), d0, 1e-9, 1e-12 * peak, 'pdf relative to density over total weight')
    if np.count_nonzero(ww) >= su.ndim + 3 and np.any(ww == 0):
        sel = ww > 0
        data = su.data[:, sel]
        fewer = kale.KDE(data[0] if su.ndim == 1 else data, weights=ww[sel], **kw)
        cmpr(fewer.pdf(pts)[1], p0, 1e-7, 1e-10 * peak / ww.sum(), 'pdf without the data of zero weight')
    return su.weights is not None and np.any(p0 > 0), su.labels() + ['zeros=%s' % np.any(ww == 0)]


def close_box(got, want, rtol, atol, what):
    # (a datum exactly at the edge of a box may be on either side)
    bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
    ensure(np.mean(bad) <= 0.2, '%s: %s, expected %s', what, got[bad][:5], want[bad][:5])


def check_additive(case):
    import kalepy as kale
    su = gen.Setup(case['kde'])
    rng = np.random.RandomState(case['seed'])
    w1, w2 = rng.uniform(0, 2, su.ndata), rng.lognormal(0, 1, su.ndata)
    w1[rng.permutation(su.ndata)[:su.ndata//2]] = 0.0
    pts = su.points(case['seed'], 20)
    kw = dict(bandwidth=0.5 if not isinstance(su.bw, float) else su.bw, covariance=su.covariance, kernel=su.kernel)
    refl = [[su.data[0].min() - 0.1 * su.widths[0], None]] + [None] * (su.ndim - 1) if case['reflect'] else None
    vals = [kale.KDE(su.data, weights=ww, reflect=refl, **kw).density(pts)[1] for ww in (w1, w2, w1 + w2)]
    close(vals[0] + vals[1], vals[2], 1e-9, 1e-12 * max(vals[2].max(), 1e-300), 'density is not additive in the weights')
    return np.any(vals[2] > 0), su.labels()


wts = ['const', 'uniform', 'lognormal', 'zeros', 'concentrated', 'ints', 'none']
SUBS = [
    Sub('replicate', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 1, 25, weights=['none']), seed=gen.seeds, float=st.booleans())),
        check_replicate, 300, rule='at least three different multiplicities (one can be zero)'),
    Sub('scale', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 3, 30, 200, weights=wts), seed=gen.seeds,
                                            factor=gen.choice(1e-8, 0.01, 3.0, 1e6))), check_scale, 400, rule='weighted'),
    Sub('additive', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 3, 1, 25, weights=['none']), seed=gen.seeds, reflect=st.booleans())),
        check_additive, 200, rule='each case'),
]
