"""Invalid input is refused: valid calls with one inconsistency injected"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .plots import warm   # noqa
from .util import Sub, ensure, equal, repr_exact

ID = 'C30'


class Bad(object):
    pass


def attempt(func, what):
    """The call has to raise (an Exception)"""
    try:
        out = func()
    except Exception as err:
        return type(err).__name__
    ensure(False, '%s: accepted, with the result %s', what, repr(out)[:150])


def mess_weights(kind, ww, rng):
    """Weights that are invalid for len(ww) data points"""
    nn = len(ww)
    ww = np.array(ww, float)
    ii = rng.randint(nn)
    if kind == 'short':
        return ww[:-1]
    if kind == 'long':
        return np.append(ww, 1.0)
    if kind == 'negative':
        ww[ii] = -0.1 * (ww.max() + 1)
        return ww
    if kind == 'nan':
        ww[ii] = np.nan
        return ww
    if kind == 'inf':
        ww[ii] = np.inf
        return ww
    if kind == 'zeros':
        return ww * 0.0
    if kind == 'matrix':
        return np.array([ww, ww])
    if kind == 'column':
        return ww[:, None]
    if kind == 'number':
        return 1.0
    raise ValueError(kind)


WEIGHTS = ['short', 'long', 'negative', 'nan', 'inf', 'zeros', 'matrix', 'column', 'number']


def mess_reflect(kind, dd, data, jj):
    """Boundaries that are invalid for `dd` dimensions"""
    lo, hi = data.min(axis=1) - 0.5*np.ptp(data, axis=1), data.max(axis=1) + 0.5*np.ptp(data, axis=1)
    good = [[ll, hh] for ll, hh in zip(lo.tolist(), hi.tolist())]
    if kind == 'order':
        good[jj] = good[jj][::-1]
    elif kind == 'same':
        good[jj] = [good[jj][0], good[jj][0]]
    elif kind == 'three':
        good[jj] = good[jj] + [good[jj][1] + 1.0]
    elif kind == 'single':
        good[jj] = good[jj][:1]
    elif kind == 'more':
        good = good + [good[jj]]
    elif kind == 'fewer':
        good = good[:-1]
    elif kind == 'flat':
        good = [xx for row in good for xx in row]
    else:
        raise ValueError(kind)
    return good


REFLECT = ['order', 'same', 'three', 'single', 'more', 'fewer', 'flat']


def reflect_applies(kind, dd):
    if kind == 'flat' and dd == 1:
        return False        # (2,) is valid for one dimension
    return True


# ---------------------------------------------------------------- construction

def check_construct(case):
    import kalepy as kale
    su = gen.Setup(case['kde'])
    rng = np.random.RandomState(case['seed'])
    su.kde()       # is valid
    dd, nn = su.ndim, su.ndata
    jj = rng.randint(dd)
    kw = su.kwargs()
    data = su.dataset()
    kind, what = case['kind'], case['what']
    wts = su.wts
    if kind == 'weights':
        kw['weights'] = mess_weights(what, wts, rng)
        if rng.randint(2):
            kw['weights'] = np.asarray(kw['weights']).tolist()
    elif kind == 'reflect':
        if not reflect_applies(what, dd):
            return False, []
        kw['reflect'] = mess_reflect(what, dd, su.data, jj)
    elif kind == 'bandwidth':
        kw.pop('bw_rescale', None)
        if what == 'name':
            kw['bandwidth'] = ['Scot', 'default', 'silver man', ''][rng.randint(4)]
        elif what == 'name-in-list':
            if dd == 1:
                return False, []
            bws = ['scott'] * dd
            bws[jj] = 'unknown'
            kw['bandwidth'] = bws
        elif what == 'long':
            kw['bandwidth'] = [0.5] * (dd + 1)
        elif what == 'short':
            if dd < 3:
                return False, []
            kw['bandwidth'] = [0.5] * (dd - 1)
        elif what == 'matrix':
            kw['bandwidth'] = np.eye(dd + 1) + 0.1
        elif what == 'none-in-list':
            bws = [0.5] * dd
            bws[jj] = None
            kw['bandwidth'] = bws
        elif what == 'rectangle':
            kw['bandwidth'] = np.ones((dd, dd + 1))
        else:
            raise ValueError(what)
    elif kind == 'kernel':
        kw['kernel'] = ['gauss', 'unknown', '', 3, 0.5, dict, object(), np.sin][rng.randint(8)]
    elif kind == 'data':
        if what == 'empty':
            data = data[..., :0]
            kw.pop('weights', None)
        elif what == 'cube':
            data = np.array([su.data, su.data])
        elif what == 'jagged':
            if dd == 1:
                return False, []
            data = su.data.tolist()
            data[jj] = data[jj][:-1]
        elif what == 'text':
            data = [['a'] * nn for _ in range(dd)]
        else:
            raise ValueError(what)
    elif kind == 'covariance':
        kw['covariance'] = np.eye(dd + (1 if what == 'more' else -1) if dd > 2 else dd + 1)
        kw.pop('bandwidth', None)
        if dd == 1:
            return False, []        # (a larger covariance of 1D data is broadcast)
    elif kind == 'extrema':
        if what == 'order':
            kw['extrema'] = mess_reflect('order', dd, su.data, jj)
        else:
            if dd == 1:
                return False, []
            kw['extrema'] = [[lo, hi] for lo, hi in zip(su.data.min(axis=1), su.data.max(axis=1))] + [[0.0, 1.0]]
    elif kind == 'unknown':
        kw['bandwith' if what == 'typo' else 'edges'] = 0.5
    label = '%s: %s' % (kind, what)
    if kind == 'extrema' and what == 'order':
        err = attempt(lambda: kale.KDE(data, **kw).density(), 'KDE with invalid ' + label)
    else:
        err = attempt(lambda: kale.KDE(data, **kw), 'KDE with invalid ' + label)
        if kind != 'data' or what != 'cube':
            attempt(lambda: kale.density(data, su.data, **kw), 'density() with invalid ' + label)
            attempt(lambda: kale.resample(data, 5, **kw), 'resample() with invalid ' + label)
    return True, [label, 'D=%d' % dd, err]


CONSTRUCT = ([('weights', kk) for kk in WEIGHTS] + [('reflect', kk) for kk in REFLECT] +
             [('bandwidth', kk) for kk in ('name', 'name-in-list', 'long', 'short', 'matrix', 'none-in-list', 'rectangle')] +
             [('kernel', 'name')] + [('data', kk) for kk in ('empty', 'cube', 'jagged', 'text')] +
             [('covariance', 'more'), ('covariance', 'fewer'), ('extrema', 'more'), ('unknown', 'typo'), ('unknown', 'option')])


def construct_cases():
    @st.composite
    def build(draw):
        kind, what = draw(st.sampled_from(CONSTRUCT))
        return dict(kde=draw(gen.kde_spec(1, 4, 3, 20)), kind=kind, what=what, seed=draw(gen.seeds))
    return build()


# ---------------------------------------------------------------- calls

def check_calls(case):
    """Numerous invalid calls of one instance, which still gives the same results as another, afterwards"""
    import kalepy as kale
    su = gen.Setup(case['kde'])
    dd = su.ndim
    extra = dict()
    refl = None
    if case['reflect']:
        refl = [None] * dd
        refl[0] = [float(su.data[0].min() - 2*su.widths[0]), None]
        extra['reflect'] = refl
    kde = su.kde(**extra)
    labels = []
    pts = su.points(case['seed'], 7)
    arg = pts[0] if dd == 1 else pts
    for num, (kind, sd) in enumerate(case['calls']):
        rng = np.random.RandomState(sd)
        jj = rng.randint(dd)
        func = None
        if kind == 'points-more':
            bad = np.concatenate([pts, pts[:1]])
            func = lambda: kde.density(bad)                   # noqa
        elif kind == 'points-fewer' and dd > 1:
            bad = pts[:-1] if rng.randint(2) or dd == 2 else pts[0]
            func = lambda: kde.density(bad)                   # noqa
        elif kind == 'points-jagged' and dd > 1:
            bad = pts.tolist()
            bad[jj] = bad[jj][:-1]
            func = lambda: kde.pdf(bad)                       # noqa
        elif kind == 'grid-dims':
            bad = [np.sort(pp) for pp in pts]
            bad = bad + [bad[0]] if dd == 1 or rng.randint(2) else bad[:-1]
            func = lambda: kde.density(bad, grid=True)        # noqa
        elif kind == 'params-range':
            par = [dd, dd + 3, -dd - 1][rng.randint(3)]
            if dd == 1 and par < 0:
                par = 1
            func = lambda: kde.density(pts[0], params=par)    # noqa
        elif kind == 'params-float' and dd > 1:
            func = lambda: kde.density(pts[0], params=0.5)    # noqa
        elif kind == 'params-points' and dd > 1:
            sel = [0, dd - 1]
            bad = pts[0] if rng.randint(2) else (pts if dd > 2 else np.concatenate([pts, pts]))
            func = lambda: kde.density(bad, params=sel)       # noqa
        elif kind == 'params-none-left' and dd > 1:
            bad = pts[:2]
            func = lambda: kde.density(bad, params=jj)        # noqa
        elif kind[8:] in REFLECT and reflect_applies(kind[8:], dd):
            bad = mess_reflect(kind[8:], dd, su.data, jj)
            func = [lambda: kde.density(arg, reflect=bad), lambda: kde.resample(5, reflect=bad)][rng.randint(2)]
        elif kind == 'params-reflect' and dd > 1:
            bad = mess_reflect('order', dd, su.data, jj)
            bad[jj] = bad[jj][::-1]
            sel = list(range(dd - 1))
            func = lambda: kde.density(pts[sel], params=sel, reflect=bad)     # noqa
        elif kind == 'keep-range':
            func = lambda: kde.resample(5, keep=[dd, dd + 2, -dd - 1][rng.randint(3)])    # noqa
        elif kind == 'keep-float':
            func = lambda: kde.resample(5, keep=0.5)          # noqa
        elif kind == 'keep-reflect':
            bad = [None] * dd
            bad[jj] = [float(su.data[jj].min() - su.widths[jj]), None]
            func = lambda: kde.resample(5, keep=jj, reflect=bad)     # noqa
        elif kind == 'size-negative':
            func = lambda: kde.resample(-1 - rng.randint(9))  # noqa
        elif kind == 'size-text':
            func = lambda: kde.resample('many')               # noqa
        elif kind == 'cdf-params':
            func = lambda: kde.cdf(arg, params=[0])           # noqa
        elif kind == 'cdf-reflect':
            func = lambda: kde.cdf(arg, reflect=[[0.0, 1.0]] * dd)   # noqa
        elif kind == 'cdf-dims':
            if dd > 2:
                continue
            bad = np.concatenate([pts, pts])
            func = lambda: kde.cdf(bad)                       # noqa
        if func is None:
            continue
        attempt(func, 'call %d: %s' % (num, kind))
        labels.append(kind)
    # still usable, with the same results
    other = su.kde(**extra)
    equal(kde.density(arg)[1], other.density(arg)[1], 'density after invalid calls')
    for ii in range(dd):
        equal(kde.density(pts[ii], params=ii)[1] if dd > 1 else 0.0, other.density(pts[ii], params=ii)[1] if dd > 1 else 0.0,
              'density of parameter %d after invalid calls' % ii)
    np.random.seed(3)
    first = kde.resample(20)
    np.random.seed(3)
    equal(first, other.resample(20), 'samples after invalid calls')
    ensure(repr_exact(kde.reflect) == repr_exact(other.reflect), 'reflect was changed by an invalid call')
    equal(kde.covariance, other.covariance, 'covariance after invalid calls')
    del kale
    return len(labels) > 1, labels + ['D=%d' % dd]


CALLS = ['points-more', 'points-fewer', 'points-jagged', 'grid-dims', 'params-range', 'params-float', 'params-points', 'params-none-left',
         'params-reflect', 'keep-range', 'keep-float', 'keep-reflect', 'size-negative', 'size-text', 'cdf-params', 'cdf-reflect',
         'cdf-dims'] + ['reflect-' + kk for kk in REFLECT]


def call_cases():
    return st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 4, 3, 20), seed=gen.seeds, reflect=st.booleans(),
        calls=st.lists(st.tuples(st.sampled_from(CALLS), gen.seeds).map(list), min_size=1, max_size=8)))


# ---------------------------------------------------------------- grids, histograms, utilities

def check_utils(case):
    import kalepy as kale
    from kalepy import utils
    rng = np.random.RandomState(case['seed'])
    dd = case['d']
    shape = [int(nn) for nn in rng.permutation([3, 4, 5, 6])[:dd]]
    edges = [np.sort(rng.uniform(-2, 2, nn)) + np.arange(nn) for nn in shape]
    dens = rng.uniform(0.1, 1.0, size=shape)
    mass = rng.uniform(0.1, 1.0, size=[nn - 1 for nn in shape])
    jj = rng.randint(dd)
    nval = 12
    values = rng.normal(size=nval)
    wts = rng.uniform(0.5, 1.0, nval)
    data = rng.normal(size=(dd, nval))
    kind = case['kind']
    longer = [np.append(ee, ee[-1] + 1.0) if ii == jj else ee for ii, ee in enumerate(edges)]
    wrong = [tuple(np.array(shape) - 2), tuple(np.array(shape) + 1), tuple(shape) + (2,)][rng.randint(3)]
    func = None
    if kind == 'grid-edges':
        func = [lambda: kale.sample_grid(longer, dens, 5), lambda: kale.sample_grid(edges, mass, 5),
                lambda: kale.sample_grid(edges + [edges[0]], dens, 5), lambda: kale.sample_outliers(longer, dens, 0.1),
                lambda: kale.sample_grid_proportional(longer, dens, dens, 5)][rng.randint(5)]
        if rng.randint(2):
            # consistent with the masses, or with some of the dimensions
            wrongd = dens.T if dd > 1 and rng.randint(3) else [dens[:-1], dens[..., 1:], np.ones([nn + 1 for nn in shape])][rng.randint(3)]
            wrongm = [mass, mass.T, None][rng.randint(3)]
            func = [lambda: kale.sample_grid(edges, wrongd, 5, mass=wrongm), lambda: kale.sample_outliers(edges, wrongd, 0.1, mass=wrongm),
                    lambda: kale.sample_grid(longer, dens, 5, mass=mass),
                    lambda: kale.sample_grid_proportional(edges, wrongd, wrongd, 5, mass=wrongm)][rng.randint(4)]
    elif kind == 'grid-fewer' and dd > 1:
        func = lambda: kale.sample_grid(edges[:-1], dens, 5)        # noqa
    elif kind == 'grid-mass':
        bad = np.ones(wrong), dens, mass[None], mass[..., None], mass[..., :1], mass.sum()
        bad = bad if dd == 1 else bad + (mass.T, mass.T, mass.flatten(), np.moveaxis(mass, 0, -1), mass[0])
        bad = bad[rng.randint(len(bad))]
        func = [lambda: kale.sample_grid(edges, dens, 5, mass=bad), lambda: kale.sample_outliers(edges, dens, 0.1, mass=bad),
                lambda: kale.sample_grid_proportional(edges, dens, dens, 5, mass=bad)][rng.randint(3)]
    elif kind == 'grid-scalar':
        bad = np.ones(wrong), mass, dens[None], dens[..., None], dens[..., :1], dens.sum()
        bad = bad if dd == 1 else bad + (dens.T, dens.T, dens.flatten(), np.moveaxis(dens, 0, -1), dens[0])
        bad = bad[rng.randint(len(bad))]
        badm = np.ones(wrong), dens, mass[None], mass[..., None], mass[..., :1], mass.sum()
        badm = badm if dd == 1 else badm + (mass.T, mass.T, mass.flatten(), np.moveaxis(mass, 0, -1), mass[0])
        badm = badm[rng.randint(len(badm))]
        func = [lambda: kale.sample_grid(edges, dens, 5, scalar_dens=bad), lambda: kale.sample_grid(edges, dens, 5, scalar_dens=bad, scalar_mass=mass),
                lambda: kale.sample_grid(edges, dens, 5, scalar_dens=dens, scalar_mass=badm),
                lambda: kale.sample_grid_proportional(edges, mass if dd == 1 else [mass, dens.T][rng.randint(2)], dens, 5)][rng.randint(4)]
    elif kind == 'grid-negative-number':
        func = lambda: kale.sample_grid(edges, dens, -3)            # noqa
    elif kind == 'outliers-number':
        func = lambda: kale.sample_outliers(edges, dens, 0.1, nsamp=5)     # noqa
    elif kind == 'hist':
        bad = [np.ones(wrong), np.ones(shape), mass[:-1], -mass * 0.0, mass[None], mass[..., None], mass[..., :1],
               mass.flatten() if dd > 1 else mass[1:]][rng.randint(8)]
        func = lambda: kale.KDE.from_hist(edges if dd > 1 else edges[0], bad)    # noqa
    elif kind == 'hist-transposed' and dd > 1:
        func = lambda: kale.KDE.from_hist(edges, mass.T)            # noqa
    elif kind == 'quantiles':
        bad = [1.0 + 1e-6, -1e-6, 50.0, np.nan, [0.5, 1.2], [-0.3, 0.2]][rng.randint(6)]
        func = lambda: utils.quantiles(values, bad, weights=wts if rng.randint(2) else None)     # noqa
    elif kind == 'quantiles-weights':
        bad = [wts[:-1], np.append(wts, 1.0), wts[:1]][rng.randint(3)]
        func = lambda: utils.quantiles(values, [0.3, 0.5], weights=bad)     # noqa
    elif kind == 'quantiles-none':
        func = lambda: utils.quantiles(values)                      # noqa
    elif kind == 'histogram':
        func = [lambda: utils.histogram(values, weights=wts[:-1]), lambda: utils.histogram(values, bins=[0.0, 1.0, 0.5]),
                lambda: utils.histogram(values, bins=[0.0, 1.0], weights=np.append(wts, 1.0))][rng.randint(3)]
    elif kind == 'edges':
        func = [lambda: utils.parse_edges(data, edges=edges + [edges[0]]), lambda: utils.parse_edges(data, weights=wts[:-1]),
                lambda: utils.parse_edges(data, extrema=[[-9, 9]] * (dd + 1) if dd > 1 else [[-9, 9]] * 3),
                lambda: utils.parse_edges(data, extrema=[[-9, 9]] * (dd - 1) + [[5.0, -5.0]]),
                lambda: utils.parse_edges(data, edges='foo'), lambda: utils.parse_edges(data, edges=-5)][rng.randint(6)]
    elif kind == 'spacing':
        func = [lambda: utils.spacing([1.0, 2.0], scale='other'), lambda: utils.spacing([-2.0, -1.0], scale='log')][rng.randint(2)]
    elif kind == 'midpoints':
        func = [lambda: utils.midpoints([1.0]), lambda: utils.midpoints(values, axis=3)][rng.randint(2)]
    elif kind == 'trapz':
        func = [lambda: utils.trapz_nd(dens, longer), lambda: utils.trapz_dens_to_mass(dens, longer), lambda: utils.cumtrapz(dens, longer),
                lambda: utils.trapz_nd(dens, edges + [edges[0]]), lambda: utils.trapz_dens_to_mass(mass, edges),
                lambda: utils.cumtrapz(dens[..., :-1], edges)][rng.randint(6)]
    elif kind == 'cov':
        func = [lambda: utils.add_cov(data, np.eye(dd + 1)), lambda: utils.rem_cov(data, np.eye(dd + 1)),
                lambda: utils.add_cov(data, -np.eye(dd))][rng.randint(3)]
        if dd == 1:
            func = None
    elif kind == 'bounds':
        func = lambda: utils.bound_indices(data, [[-9, 9]] * (dd + 1))       # noqa
    elif kind == 'keep':
        func = [lambda: utils.cov_keep_vars(np.eye(dd), [dd]), lambda: utils.cov_keep_vars(np.eye(dd), jj, reflect=[[0, 1]] * dd)][rng.randint(2)]
    elif kind == 'minmax':
        func = [lambda: utils.minmax(values, prev=[1.0]), lambda: utils.minmax(values, limit=[1, 2, 3])][rng.randint(2)]
    if func is None:
        return False, []
    err = attempt(func, kind)
    return True, [kind, 'D=%d' % dd, err]


UTILS = ['grid-edges', 'grid-fewer', 'grid-mass', 'grid-scalar', 'grid-negative-number', 'outliers-number', 'hist', 'hist-transposed',
         'quantiles', 'quantiles-weights', 'quantiles-none', 'histogram', 'edges', 'spacing', 'midpoints', 'trapz', 'cov', 'bounds', 'keep',
         'minmax']


def utils_cases():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(UTILS), d=st.integers(1, 3), seed=gen.seeds))


# ---------------------------------------------------------------- plots

def check_plots(case):
    import kalepy as kale
    import matplotlib.pyplot as plt
    rng = np.random.RandomState(case['seed'])
    dd = case['d']
    data = rng.normal(size=(dd, 25))
    other = rng.normal(size=(dd + 1, 25))
    wts = rng.uniform(0.5, 1.0, 25)
    bad_w = [wts[:-1], np.append(wts, 1.0)][rng.randint(2)]
    kde = kale.KDE(data, weights=wts)
    jj = rng.randint(dd)
    edges = [np.linspace(-4, 4, 6) for _ in range(dd)]
    names = ['x%d' % ii for ii in range(dd)]
    pick = rng.randint(8)
    kind = case['kind']
    func = None
    try:
        if kind == 'corner-origin':
            func = lambda: kale.Corner(dd, origin=['xl', 'tt', 't', 'tlx', 'lt', 'rb', '', 7][pick], figsize=2)    # noqa
        elif kind == 'corner-labels':
            func = lambda: kale.Corner(dd, labels=names[:-1], figsize=2)     # noqa
        elif kind == 'corner-limits':
            func = lambda: kale.Corner(dd, limits=[[-1, 1]] * [dd - 1, dd + 1][pick % 2], figsize=2)     # noqa
        elif kind == 'corner-ticks':
            func = lambda: kale.Corner(dd, ticks=[[0.0]] * (dd - 1), figsize=2)     # noqa
        elif kind == 'corner-size':
            func = lambda: kale.Corner([0, -1, 1.5, -2][pick % 4], figsize=2)       # noqa
        elif kind == 'corner-data':
            corner = kale.Corner(dd, figsize=2)
            func = [lambda: corner.plot(other), lambda: corner.plot_data(other), lambda: corner.plot_kde(kale.KDE(other)),
                    lambda: corner.hist(other), lambda: corner.clean(other), lambda: corner.plot(data[:-1]),
                    lambda: corner.plot(kale.KDE(other)), lambda: corner.hist(data[:-1])][pick]
        elif kind == 'corner-weights':
            corner = kale.Corner(dd, figsize=2)
            func = [lambda: corner.plot(data, weights=bad_w), lambda: corner.plot_data(data, weights=bad_w),
                    lambda: corner.hist(data, weights=bad_w), lambda: kale.Corner(data, weights=bad_w, figsize=2),
                    lambda: corner.plot(kde, weights=wts), lambda: corner.plot_kde(kde, weights=wts),
                    lambda: kale.Corner(kde, weights=wts, figsize=2), lambda: corner.clean(data, weights=bad_w)][pick]
        elif kind == 'corner-edges':
            corner = kale.Corner(dd, figsize=2)
            bad = [edges[:-1], edges + edges[:1]][pick % 2]
            func = [lambda: corner.plot(data, edges=bad), lambda: corner.plot_data(data, edges=bad)][pick // 4]
        elif kind == 'corner-target':
            corner = kale.Corner(dd, figsize=2)
            func = [lambda: corner.target([0.0] * (dd + 1)), lambda: corner.target([0.0] * (dd - 1)),
                    lambda: corner.target([0.0] * dd, upper_limits=[True] * (dd + 1)),
                    lambda: corner.target([0.0] * dd, lower_limits=[True] * (dd - 1))][pick % 4]
        elif kind == 'weights':
            func = [lambda: kale.carpet(data[0], weights=bad_w), lambda: kale.hist1d(data[0], weights=bad_w),
                    lambda: kale.dist1d(data[0], weights=bad_w), lambda: kale.hist2d(data[:2], weights=bad_w),
                    lambda: kale.dist2d(data[:2], weights=bad_w), lambda: kale.contour(data[:2], weights=bad_w),
                    lambda: kale.dist1d(kde, weights=wts), lambda: kale.dist2d(kde, weights=wts)][pick]
        elif kind == 'dims':
            more = rng.normal(size=(3, 25))
            func = [lambda: kale.dist1d(data), lambda: kale.dist1d(more), lambda: kale.hist2d(data[0]), lambda: kale.hist2d(more),
                    lambda: kale.dist2d(more), lambda: kale.dist2d(data[0]), lambda: kale.contour(more), lambda: kale.contour(data[0])][pick]
        elif kind == 'params':
            func = [lambda: kale.dist1d(kde, param=dd), lambda: kale.dist1d(kde, param=dd + 4), lambda: kale.dist2d(kde, params=[0, dd]),
                    lambda: kale.dist2d(kde, params=[jj]), lambda: kale.dist2d(kde, params=[0, 1, jj]), lambda: kale.dist2d(kde, params=[]),
                    lambda: kale.dist2d(kde, params=[dd + 2, 0]), lambda: kale.dist1d(kde, param=dd + 1, density=True)][pick]
        elif kind == 'edges':
            func = [lambda: kale.hist2d(data[:2], edges=edges[:1]), lambda: kale.hist2d(data[:2], edges=[edges[0]] * 3),
                    lambda: kale.dist2d(data[:2], edges=edges[:1]), lambda: kale.hist1d(data[0], edges=[1.0, 0.0, 2.0])][pick % 4]
        if func is None:
            return False, []
        err = attempt(func, '%s (%d)' % (kind, pick))
    finally:
        plt.close('all')
    return True, [kind, err]


PLOTS = ['corner-origin', 'corner-labels', 'corner-limits', 'corner-ticks', 'corner-size', 'corner-data', 'corner-weights', 'corner-edges',
         'corner-target', 'weights', 'dims', 'params', 'edges']


def plot_cases():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(PLOTS), d=st.integers(2, 3), seed=gen.seeds))


RULE = 'the unchanged call is valid, and the inconsistency applies to its number of dimensions'
SUBS = [
    Sub('construct', construct_cases(), check_construct, 400, rule=RULE),
    Sub('calls', call_cases(), check_calls, 200, rule='at least two invalid calls of one instance'),
    Sub('utilities', utils_cases(), check_utils, 900, rule=RULE),
    Sub('plots', plot_cases(), check_plots, 200, rule=RULE),
]
