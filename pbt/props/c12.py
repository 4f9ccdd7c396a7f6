"""Resampling with reflecting boundaries follows the reflected density"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, chi2_test, ensure, kernel_cdf_1d, kernel_marginal_cdf, ks_test, warm   # noqa

ID = 'C12'
# samples are drawn in chunks, of these numbers
CHUNKS = gen.choice(None, None, None, 1000, 777, 3.5e3)


def chunked(case):
    return {} if case['chunk'] is None else dict(chunk=case['chunk'])


def check_1d(case):
    su = gen.Setup(case['kde'])
    arg, lo, hi = gen.make_reflect_dim(case['dim'], su.data[0], su.widths[0])
    if arg is None or hi - lo < su.widths[0]:
        raise gen.Skip()
    where = case['where']
    kde = su.kde(reflect=[arg] if where == 'init' else None, **chunked(case))
    samps = kde.resample(case['num'], **(dict(reflect=[arg]) if where == 'call' else {}))
    cents = [su.data[0]] + [2 * bb - su.data[0] for bb in (lo, hi) if np.isfinite(bb)]
    cents, wts = np.concatenate(cents), np.tile(su.wts, len(cents))

    def raw(xx):
        out = np.zeros(np.shape(xx))
        for cc, ww in zip(cents, wts):
            if ww > 0:
                out += ww * (kernel_cdf_1d(su.kname, (xx - cc) / su.widths[0]) - kernel_cdf_1d(su.kname, (lo - cc) / su.widths[0]))
        return out
    tot = raw(np.array([hi]))[0]
    ensure(samps.min() >= lo - 1e-6 * (su.widths[0] + abs(lo)) and samps.max() <= hi + 1e-6 * (su.widths[0] + abs(hi)), 'samples outside of the boundaries')
    ks_test(samps, lambda xx: raw(xx) / tot, 'reflected samples')
    # with a chi-squared of the regions next to the boundaries (KS is least sensitive there)
    edges = [bb + ss * su.widths[0] * ff for bb, ss in ((lo, 1), (hi, -1)) if np.isfinite(bb) for ff in (0.1, 0.3, 0.7, 1.5)]
    edges = np.unique([ee for ee in edges if lo < ee < hi] + [lo, hi])
    probs = np.diff(raw(edges)) / tot
    pad = edges.copy()
    pad[0], pad[-1] = -np.inf, np.inf
    chi2_test(np.histogram(samps, bins=pad)[0], probs, 'reflected samples near the boundaries')
    return True, su.labels() + ['where=' + where, 'lo=' + case['dim']['lo'], 'hi=' + case['dim']['hi']]


def check_2d(case):
    """Counts on a grid, relative to the (numerically integrated) reflected density"""
    su = gen.Setup(case['kde'])
    refl, bounds = [], []
    for dd in range(su.ndim):
        arg, lo, hi = gen.make_reflect_dim(case['dims'][dd], su.data[dd], su.widths[dd])
        if hi - lo < su.widths[dd]:
            raise gen.Skip()
        refl.append(arg)
        bounds.append((lo, hi))
    if all(rr is None for rr in refl):
        raise gen.Skip()
    # the kernels have to be resolved by the grid that is integrated over
    nbin, nsub = 7, 24
    edges, mids = [], []
    for dd in range(su.ndim):
        lo = bounds[dd][0] if np.isfinite(bounds[dd][0]) else su.data[dd].min() - 6 * su.widths[dd]
        hi = bounds[dd][1] if np.isfinite(bounds[dd][1]) else su.data[dd].max() + 6 * su.widths[dd]
        ee = np.linspace(lo, hi, nbin * nsub + 1)
        cond = 1.0 / np.sqrt(np.linalg.inv(su.matrix)[dd, dd])
        if ee[1] - ee[0] > 0.35 * cond:
            raise gen.Skip()
        edges.append(ee[::nsub])
        mids.append(0.5 * (ee[1:] + ee[:-1]))
    kde = su.kde(reflect=refl if case['where'] == 'init' else None, **chunked(case))
    samps = kde.resample(case['num'], **(dict(reflect=refl) if case['where'] == 'call' else {}))
    pts = np.array([gg.ravel() for gg in np.meshgrid(*mids, indexing='ij')])
    vals = ref.reflected(pts, su.data, su.wts, su.matrix, su.kname, bounds)[0].reshape(nbin * nsub, nbin * nsub)
    probs = vals.reshape(nbin, nsub, nbin, nsub).sum(axis=(1, 3))
    probs = np.maximum(probs, 1e-12 * probs.max())
    outer = []
    for dd in range(su.ndim):
        oo = edges[dd].copy()
        oo[0], oo[-1] = -np.inf, np.inf
        outer.append(oo)
    counts = np.histogram2d(samps[0], samps[1], bins=outer)[0]
    chi2_test(counts, probs, 'reflected samples on a grid')
    # rows nearest to the boundaries, with the finer grid
    for dd in range(su.ndim):
        marg = vals.sum(axis=1 - dd).reshape(nbin * 4, nsub // 4).sum(axis=1)
        marg = np.maximum(marg, 1e-12 * marg.max())
        fine = np.linspace(edges[dd][0], edges[dd][-1], nbin * 4 + 1)
        fine[0], fine[-1] = -np.inf, np.inf
        chi2_test(np.histogram(samps[dd], bins=fine)[0], marg, 'reflected samples of dimension %d' % dd)
    return True, su.labels() + ['where=' + case['where'], 'reflected=%d' % sum(rr is not None for rr in refl)]


def check_keep(case):
    """Keeping parameters, with boundaries of another: which datum is drawn, and the distribution of the reflected parameter"""
    su = gen.Setup(case['kde'])
    dim = case['which'] % su.ndim
    keep = [dd for dd in range(su.ndim) if dd != dim]
    if len(keep) > 1 and case['some']:
        keep = keep[:1]
    arg, lo, hi = gen.make_reflect_dim(case['dim'], su.data[dim], su.widths[dim])
    if arg is None or hi - lo < su.widths[dim]:
        raise gen.Skip()
    refl = [None] * su.ndim
    refl[dim] = arg
    kde = su.kde(reflect=refl if case['where'] == 'init' else None, **chunked(case))
    samps = kde.resample(case['num'], keep=keep[0] if len(keep) == 1 else keep, **(dict(reflect=refl) if case['where'] == 'call' else {}))
    cents = np.array([su.data[dim]] + [2 * bb - su.data[dim] for bb in (lo, hi) if np.isfinite(bb)])
    wid = su.widths[dim]

    def cdf(xx):
        return kernel_marginal_cdf(su.kname, su.ndim, (xx - cents) / wid).sum(axis=0) * su.wts
    start = cdf(lo)
    mass = cdf(hi) - start
    # which datum
    uniq, inv = np.unique(su.data[keep[0]], return_inverse=True)
    idx = np.searchsorted(uniq, samps[keep[0]])
    ensure(np.all(idx < uniq.size) and np.array_equal(uniq[np.minimum(idx, uniq.size - 1)], samps[keep[0]]), 'kept parameters are not values of the data')
    probs = np.bincount(inv.ravel(), weights=mass, minlength=uniq.size)
    chi2_test(np.bincount(idx, minlength=uniq.size), probs, 'how often each kept value was drawn')
    total = mass.sum()
    ks_test(samps[dim], lambda xx: np.array([(cdf(vv) - start).sum() for vv in xx]) / total, 'reflected parameter, with kept parameters')
    # for half of the data on its own
    sel = np.zeros(uniq.size, bool)
    sel[:uniq.size // 2] = True
    part = samps[dim][sel[idx]]
    rows = sel[inv.ravel()]
    if part.size > 500 and mass[rows].sum() > 0:
        ks_test(part, lambda xx: np.array([(cdf(vv) - start)[rows].sum() for vv in xx]) / mass[rows].sum(), 'reflected parameter for some of the kept values')
    return True, su.labels() + ['keep=%d' % len(keep)]


def check_margin(case):
    """One bounded parameter of several: its own distribution is known exactly, whatever the others"""
    import kalepy as kale
    su = gen.Setup(case['kde'])
    dim = case['which'] % su.ndim
    wid = su.widths[dim]
    # data close to the boundary, in terms of the kernel width
    xx = su.data[dim]
    if case['near']:
        xx[:] = xx.min() + (xx - xx.min()) * wid / max(np.ptp(xx), 1e-300) * 0.1
        lo = xx.min() - wid * case['dist'] / 20.0
        hi = np.inf
        if case['upper']:
            lo, hi = -np.inf, xx.max() + wid * case['dist'] / 20.0
        arg = [lo if np.isfinite(lo) else None, hi if np.isfinite(hi) else None]
        # (the data changed, but the matrix does not have to)
        kw = dict() if su.kernel is None else dict(kernel=su.kernel)
        kde = kale.KDE(su.data, weights=su.weights, bandwidth=1.0, covariance=np.array(su.matrix), **kw, **chunked(case))
    else:
        arg, lo, hi = gen.make_reflect_dim(case['dim'], xx, wid)
        if arg is None or hi - lo < wid:
            raise gen.Skip()
        kde = su.kde(**chunked(case))
    refl = [None] * su.ndim
    refl[dim] = arg
    samps = kde.resample(case['num'], reflect=refl)
    cents = np.array([xx] + [2 * bb - xx for bb in (lo, hi) if np.isfinite(bb)])

    def cdf(vals):
        vals = np.atleast_1d(vals)
        out = np.zeros(vals.shape)
        for img in cents:
            for cc, ww in zip(img, su.wts):
                out += ww * kernel_marginal_cdf(su.kname, su.ndim, (vals - cc) / wid)
        return out
    start = cdf(lo)[0]
    total = cdf(hi)[0] - start
    ks_test(samps[dim], lambda vals: (cdf(vals) - start) / total, 'bounded parameter')
    edges = [bb + ss * wid * ff for bb, ss in ((lo, 1), (hi, -1)) if np.isfinite(bb) for ff in (0.1, 0.2, 0.4, 0.7, 1.0, 1.5)]
    edges = np.unique([ee for ee in edges if lo < ee < hi] + [lo, hi])
    pad = edges.copy()
    pad[0], pad[-1] = -np.inf, np.inf
    chi2_test(np.histogram(samps[dim], bins=pad)[0], np.diff(cdf(edges)) / total, 'bounded parameter near the boundaries')
    return True, su.labels() + ['near=%s' % case['near']]


wts = ['none', 'uniform', 'lognormal', 'zeros', 'ints']
SUBS = [
    Sub('1d', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 1, 1, 20, 100, weights=wts), dim=gen.reflect_dim_spec(), where=gen.choice('init', 'call'),
                                         num=gen.choice(4000, 20000), chunk=CHUNKS, seed=gen.seeds)),
        check_1d, 250, rule='each case (at least one boundary)'),
    Sub('2d', st.fixed_dictionaries(dict(kde=gen.kde_spec(2, 2, 1, 15, weights=wts, kernels=['gaussian', 'parabola', 'triweight']),
                                         dims=st.lists(gen.reflect_dim_spec(), min_size=2, max_size=2), where=gen.choice('init', 'call'),
                                         num=gen.choice(5000, 20000), chunk=CHUNKS, seed=gen.seeds)),
        check_2d, 150, rule='each case (at least one boundary)'),
    Sub('keep', st.fixed_dictionaries(dict(kde=gen.kde_spec(2, 3, 1, 15, weights=wts), dim=gen.reflect_dim_spec(), where=gen.choice('init', 'call'),
                                           which=st.integers(0, 2), some=st.booleans(), num=gen.choice(3000, 6000), chunk=CHUNKS, seed=gen.seeds)),
        check_keep, 100, rule='each case (a boundary in one, and kept values in others)'),
    Sub('margin', st.fixed_dictionaries(dict(kde=gen.kde_spec(2, 4, 1, 15, weights=wts, kernels=['box', 'parabola', 'triweight', 'gaussian']), dim=gen.reflect_dim_spec(), which=st.integers(0, 3),
                                             near=gen.choice(True, True, False), dist=st.integers(0, 20), upper=st.booleans(), num=gen.choice(20000, 60000), chunk=CHUNKS, seed=gen.seeds)),
        check_margin, 100, rule='each case (a boundary in one of several parameters)'),
]
