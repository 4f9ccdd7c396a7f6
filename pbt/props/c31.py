"""Top-level functions are the methods of an estimate, and equal values in other containers or number types give equal results"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .c25 import reflect_arg
from .plots import Axes, line_xy, warm   # noqa
from .util import Sub, ensure, equal, repr_exact

ID = 'C31'


def same(got, want, what, rtol=1e-11, floor=0.0):
    """Nested results of equal structure and values"""
    if isinstance(want, (list, tuple)):
        ensure(isinstance(got, (list, tuple)) or isinstance(got, np.ndarray), '%s: got a %s', what, type(got).__name__)
        ensure(len(got) == len(want), '%s: got %d values, expected %d', what, len(got), len(want))
        for ii, (gg, ww) in enumerate(zip(got, want)):
            same(gg, ww, '%s[%d]' % (what, ii), rtol, floor)
        return
    if want is None or isinstance(want, str):
        ensure(got == want, '%s: got %s, expected %s', what, got, want)
        return
    got, want = np.asarray(got, float), np.asarray(want, float)
    ensure(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    scale = np.max(np.abs(want[np.isfinite(want)]), initial=0.0)
    bad = ~((np.abs(got - want) <= rtol * np.abs(want) + 0.01 * rtol * scale + floor) | (got == want) | (np.isnan(got) & np.isnan(want)))
    if np.any(bad):
        ii = np.unravel_index(np.argmax(bad), bad.shape)
        ensure(False, '%s: got %r, expected %r (%d of %d differ)', what, float(got[ii]), float(want[ii]), np.count_nonzero(bad), bad.size)


# (calculations may be done in the precision of the arguments)
PRECISION = {False: 1e-11, True: 1e-5}


# ---------------------------------------------------------------- top-level functions

def check_toplevel(case):
    import kalepy as kale
    su = gen.Setup(case['kde'])
    dd = su.ndim
    rng = np.random.RandomState(case['seed'])
    kw = su.kwargs()
    labels = su.labels()
    if case['reflect']:
        kw['reflect'] = reflect_arg(su, case['seed'])
        labels.append('reflect')
    data = su.dataset()
    build = lambda: kale.KDE(data, **kw)        # noqa
    opts = dict()
    pars = None
    if case['params'] and dd > 1:
        pars = rng.permutation(dd)[:rng.randint(1, dd)].tolist()
        opts['params'] = pars if len(pars) > 1 or rng.randint(2) else pars[0]
        labels.append('params')
    npar = dd if pars is None else len(pars)
    kind = case['points']
    pts = su.points(case['seed'], 9)
    pts = pts if pars is None else pts[pars]
    if kind == 'auto':
        if npar > 2:
            kind = 'scatter'
    if kind == 'grid' and npar < 4:
        opts['grid'] = True
        opts['points'] = [np.sort(pp)[:4 + ii] for ii, pp in enumerate(pts)]
    elif kind == 'auto':
        opts['points'] = None
    else:
        opts['points'] = pts[0] if npar == 1 else pts
    labels.append(kind)
    pt = opts.pop('points')
    before = repr_exact([data, kw, opts, pt])
    got = kale.density(data, pt, **kw, **opts)
    want = build().density(pt, **opts)
    exact(got, want, 'density()')
    exact(kale.density(data, points=pt, probability=True, **kw, **opts), build().density(pt, probability=True, **opts), 'density(probability=True)')
    exact(kale.pdf(data, pt, **kw, **opts), build().pdf(pt, **opts), 'pdf()')
    ropts = dict()
    if case['size'] is not None:
        ropts['size'] = case['size']
    if case['keep'] and not case['reflect']:
        ropts['keep'] = int(rng.randint(dd))
        labels.append('keep')
    np.random.seed(case['seed'])
    got = kale.resample(data, **ropts, **kw)
    np.random.seed(case['seed'])
    exact(got, build().resample(**ropts), 'resample()')
    ensure(repr_exact([data, kw, opts, pt]) == before, 'arguments were changed by the top-level functions')
    return (len(kw) + len(opts)) > 1, labels


def exact(got, want, what):
    if isinstance(want, (list, tuple)):
        ensure(isinstance(got, (list, tuple)) and len(got) == len(want), '%s: got %s', what, type(got).__name__)
        for gg, ww in zip(got, want):
            exact(gg, ww, what)
        return
    ensure(isinstance(got, np.ndarray), '%s: got a %s, expected an array', what, type(got).__name__)
    got, want = np.asarray(got), np.asarray(want)
    ensure(got.shape == want.shape and got.dtype == want.dtype, '%s: %s of shape %s, expected %s of %s', what, got.dtype, got.shape, want.dtype, want.shape)
    ensure(np.array_equal(got, want, equal_nan=True), '%s: values differ from those of the methods', what)


def toplevel_cases():
    return st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 4, 3, 25), seed=gen.seeds, reflect=st.booleans(), params=st.booleans(), keep=st.booleans(),
        points=gen.choice('auto', 'grid', 'scatter'), size=gen.choice(None, 0, 1, 7, 40)))


# ---------------------------------------------------------------- containers and number types

FLAVORS = ['list', 'tuple', 'fortran', 'strided', 'readonly', 'transposed', 'rows', 'reversed', 'bigendian', 'bigshort', 'int64', 'int32', 'int16', 'int8', 'uint16', 'uint8', 'float32', 'listint']


def flavored(xx, kind):
    """The same values, of an integer-valued array"""
    xx = np.asarray(xx)
    if 'int' in kind and kind != 'listint':
        # (smallest type of integers that can hold the values)
        for kind in [kind, 'int8', 'uint8', 'int16', 'int32', 'int64']:
            if np.array_equal(xx.astype(kind), xx):
                return xx.astype(kind)
    if kind == 'list':
        return xx.astype(float).tolist()
    if kind == 'listint':
        return xx.astype(int).tolist()
    if kind == 'tuple':
        return tuple(xx.astype(float).tolist()) if xx.ndim == 1 else tuple(tuple(row) for row in xx.astype(float).tolist())
    if kind == 'rows':
        return [np.array(row, float) for row in xx] if xx.ndim > 1 else np.array(xx, float)
    if kind == 'fortran':
        return np.asfortranarray(xx.astype(float))
    if kind == 'strided':
        big = np.full(xx.shape[:-1] + (2 * xx.shape[-1],), -77.0)
        big[..., ::2] = xx
        return big[..., ::2]
    if kind == 'transposed':
        return np.array(xx, float).T.copy().T
    if kind == 'reversed':
        return np.flip(np.flip(xx.astype(float)).copy())
    if kind == 'bigendian':
        # (not the order of bytes of the machine)
        return xx.astype(np.dtype(float).newbyteorder('S'))
    if kind == 'bigshort':
        return xx.astype(np.dtype('int16' if np.array_equal(xx.astype('int16'), xx) else float).newbyteorder('S'))
    if kind == 'readonly':
        yy = np.array(xx, float)
        yy.setflags(write=False)
        return yy
    return xx.astype(kind)


WIDE = ['no', 'no', 'unsigned', 'signed']


def check_types(case):
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    dd, nn = case['d'], case['n'] + case['d'] + 2
    wide = case['wide']
    # (with weights without ties, as the order of equal values may depend on the type, and with it the width of automatic bins)
    top = 26 if case['weights'] else 12
    data = np.array([rng.permutation(top)[:nn] if case['weights'] else rng.randint(0, top, size=nn) for _ in range(dd)]).astype(float)
    gen.check_cov(np.atleast_2d(np.cov(data)))
    wts = rng.randint(1, 31, size=nn).astype(float) if case['weights'] else None
    pts = rng.randint(0, top, size=(dd, 8)).astype(float)
    refl = None
    # (the differences of wide values don't fit into the type that holds the values)
    off = dict(no=0.0, unsigned=10.0, signed=-115.0)[wide]
    mul = 1.0 if wide == 'no' else (20.0 if top == 12 else 8.0)
    data, pts = data * mul + off, pts * mul + off
    if wide != 'no' and wts is not None:
        wts = wts * 4
    if case['reflect']:
        refl = [[-0.25, top + 0.5], [None, top - 0.25], None, [0.0, None]][:dd]
        refl = [None if rr is None else [None if vv is None else vv * mul + off for vv in rr] for rr in refl]
    if dd == 1:
        data, pts = data[0], pts[0]
    bws = [0.3 + 0.1*ii for ii in range(dd)]
    bw = dict(none=None, scalar=0.4, vec=bws, one=1)[case['bw']]
    fdata, fwts, fpts, frefl, fbw = case['flavors']
    bw2 = bw
    if isinstance(bw, list):
        bw2 = [bw, tuple(bw), np.array(bw), np.array(bw)[None, :][0]][fbw % 4]
    elif isinstance(bw, float):
        bw2 = [bw, [bw], np.array(bw), np.float64(bw)][fbw % 4]
    refl2 = refl
    if refl is not None:
        refl2 = [tuple(refl), [None if rr is None else tuple(rr) for rr in refl], np.array([[None, None] if rr is None else rr for rr in refl], dtype=object),
                 [None if rr is None else [None if xx is None else np.float64(xx) for xx in rr] for rr in refl]][frefl % 4]
    what = 'data %s, weights %s, points %s' % (fdata, fwts, fpts)
    kw = dict(weights=wts, bandwidth=bw, reflect=refl, kernel=case['kernel'])
    kw2 = dict(weights=None if wts is None else flavored(wts, fwts), bandwidth=bw2, reflect=refl2, kernel=case['kernel'])
    d2, p2 = flavored(data, fdata), flavored(pts, fpts)
    before = repr_exact([d2, p2, kw2])
    one = kale.KDE(data, **kw)
    two = kale.KDE(d2, **kw2)

    def both(func, name):
        np.random.seed(case['seed'])
        want = func(one, data, pts, kw)
        np.random.seed(case['seed'])
        same(func(two, d2, p2, kw2), want, name + ' of ' + what)
    both(lambda kk, *a: [kk.extrema, kk.covariance, kk.bandwidth, kk.neff], 'settings')
    both(lambda kk, xx, pp, oo: kk.density(pp), 'density')
    both(lambda kk, xx, pp, oo: kk.pdf(pp, reflect=False), 'pdf without reflection')
    both(lambda kk, xx, pp, oo: kale.density(xx, pp, **oo), 'kalepy.density')
    if dd > 1:
        both(lambda kk, xx, pp, oo: kk.density(pp[dd - 1], params=dd - 1), 'density of one parameter')
        par = [[dd - 1, 0], (dd - 1, 0), np.array([dd - 1, 0])]
        np.random.seed(1)
        want = one.density([pts[dd - 1], pts[0]], params=par[0])
        for pa in par:
            same(two.density([p2[dd - 1], p2[0]], params=pa), want, 'density of params=%s of %s' % (type(pa).__name__, what))
    if dd < 3:
        both(lambda kk, xx, pp, oo: kk.density(), 'density at automatic points')
        both(lambda kk, xx, pp, oo: kk.cdf(pp), 'cdf')
    if dd > 1:
        both(lambda kk, xx, pp, oo: kk.density([pp[ii][:3] for ii in range(dd)], grid=True), 'density on a grid')
    both(lambda kk, xx, pp, oo: kk.resample(15), 'samples')
    both(lambda kk, xx, pp, oo: kale.resample(xx, **oo), 'kalepy.resample')
    both(lambda kk, xx, pp, oo: kk.resample(np.int64(6), keep=[dd - 1], reflect=False), 'samples with keep')
    ensure(repr_exact([d2, p2, kw2]) == before, 'arguments were changed')
    return True, ['D=%d' % dd, 'data=' + fdata, 'points=' + fpts] + (['weights=' + fwts] if wts is not None else []) + (['reflect'] if refl else [])


def types_cases():
    return st.fixed_dictionaries(dict(
        d=st.integers(1, 4), n=st.integers(3, 20), seed=gen.seeds, weights=st.booleans(), reflect=st.booleans(), wide=st.sampled_from(WIDE),
        bw=gen.choice('none', 'scalar', 'vec', 'one'), kernel=gen.choice(None, 'box', 'parabola', 'triweight'),
        flavors=st.tuples(st.sampled_from(FLAVORS), st.sampled_from(FLAVORS), st.sampled_from(FLAVORS), st.integers(0, 3), st.integers(0, 3)).map(list)))


# ---------------------------------------------------------------- utilities

def check_utils(case):
    import kalepy as kale
    from kalepy import utils
    rng = np.random.RandomState(case['seed'])
    fl = case['flavors']
    name = case['func']
    if 'log' in name:
        # (logarithms are calculated with the precision of the values)
        fl = ['int8' if ff == 'float32' else ff for ff in fl]
    dd = case['d']
    shape = [int(nn) for nn in rng.permutation([3, 4, 5, 6])[:dd]]
    edges = [np.cumsum(rng.randint(1, 4, size=nn)).astype(float) for nn in shape]
    dens = rng.randint(1, 9, size=shape).astype(float)
    # (without ties, as the order of equal values may depend on the type)
    mass = rng.permutation(200)[:int(np.prod(np.array(shape) - 1))].reshape([nn - 1 for nn in shape]).astype(float)
    vals = 1.0 + rng.permutation(30)[:14].astype(float)
    wts = rng.randint(1, 16, size=14).astype(float)
    data = np.array([rng.permutation(24)[:14] for _ in range(dd)]).astype(float)
    wide = case['wide']
    bins = np.array([0.0, 4.0, 9.0, 30.0])
    if wide != 'no':
        off = -115.0 if wide == 'signed' and 'log' not in name else 5.0
        vals, bins, data = [8 * xx + off for xx in (vals, bins, data)]
        edges = [12 * ee + off for ee in edges]
        wts = wts * 16
        dens = dens * 14

    def fla(xx, jj=0):
        return flavored(xx, fl[jj % len(fl)])
    sequence = [list, tuple][case['seed'] % 2]
    eds = lambda: sequence(flavored(ee, fl[ii % len(fl)]) for ii, ee in enumerate(edges))   # noqa
    fe = [lambda: edges, eds]
    fv = [lambda xx, jj=0: xx, fla]
    axis = case['axis'] % dd
    func = {
        'quantiles': lambda ff, ee: utils.quantiles(ff(vals), [0.1, 0.5, 0.8], weights=ff(wts, 1)),
        'quantiles-unweighted': lambda ff, ee: utils.quantiles(ff(vals), (0.25, 0.5)),
        'quantiles-axis': lambda ff, ee: utils.quantiles(ff(data), [0.25, 0.5], axis=1),
        'histogram': lambda ff, ee: utils.histogram(ff(vals), weights=ff(wts, 1)),
        'histogram-bins': lambda ff, ee: utils.histogram(ff(vals), bins=ff(bins, 2), weights=ff(wts, 1), density=True),
        'parse_edges': lambda ff, ee: utils.parse_edges(ff(data), weights=ff(wts, 1)),
        'parse_edges-number': lambda ff, ee: utils.parse_edges(ff(data), edges=7),
        'parse_edges-given': lambda ff, ee: utils.parse_edges(ff(data), edges=ee()),
        'minmax': lambda ff, ee: utils.minmax(ff(vals), stretch=0.3),
        'minmax-positive': lambda ff, ee: utils.minmax(ff(data), positive=True),
        'minmax-log': lambda ff, ee: utils.minmax(ff(vals), log_stretch=0.3),
        'minmax-limit': lambda ff, ee: utils.minmax(ff(vals), limit=[2.5, 11.5]),
        'spacing': lambda ff, ee: utils.spacing(ff(vals), scale='lin', num=7),
        'spacing-log': lambda ff, ee: utils.spacing(ff(vals), scale='log', dex=7),
        'midpoints': lambda ff, ee: utils.midpoints(ff(vals)),
        'midpoints-log': lambda ff, ee: utils.midpoints(ff(vals), log=True),
        'midpoints-axis': lambda ff, ee: utils.midpoints(ff(dens), axis=axis),
        'trapz_nd': lambda ff, ee: utils.trapz_nd(ff(dens, 1), ee()),
        'trapz_dens_to_mass': lambda ff, ee: utils.trapz_dens_to_mass(ff(dens, 1), ee()),
        'trapz_dens_to_mass-axis': lambda ff, ee: utils.trapz_dens_to_mass(ff(dens, 1), ee(), axis=axis),
        'cumtrapz': lambda ff, ee: utils.cumtrapz(ff(dens, 1), ee()),
        'cumsum': lambda ff, ee: utils.cumsum(ff(dens, 1)),
        'cumsum-axis': lambda ff, ee: utils.cumsum(ff(dens, 1), axis=axis),
        'centroids': lambda ff, ee: list(utils.centroids(ee(), ff(dens, 1))),
        'bound_indices': lambda ff, ee: utils.bound_indices(ff(data), [[2.5, 9.5]] * dd),
        'bound_indices-outside': lambda ff, ee: utils.bound_indices(ff(data), [[2.5, None]] * dd, outside=True),
        'add_cov': lambda ff, ee: utils.add_cov(ff(data), np.eye(dd) * 1.5 + 0.5),
        'rem_cov': lambda ff, ee: utils.rem_cov(ff(data), np.eye(dd) * 1.5 + 0.5),
        'meshgrid': lambda ff, ee: list(utils.meshgrid(*ee())),
        'iqrange': lambda ff, ee: utils.iqrange(ff(vals), weights=ff(wts, 1)),
        'iqrange-log': lambda ff, ee: utils.iqrange(ff(vals), log=True),
        'subdivide': lambda ff, ee: utils.subdivide(ff(np.sort(vals)), num=2),
        'sample_grid': lambda ff, ee: kale.sample_grid(ee(), ff(dens, 1), 20),
        'sample_grid-mass': lambda ff, ee: kale.sample_grid(ee(), ff(dens, 1), 20, mass=ff(mass, 2)),
        'sample_grid-scalar': lambda ff, ee: kale.sample_grid(ee(), ff(dens, 1), 20, scalar_dens=ff(dens[::-1], 2)),
        'sample_outliers': lambda ff, ee: kale.sample_outliers(ee(), ff(dens, 1), 4.5, mass=ff(mass, 2)),
        'sample_grid_proportional': lambda ff, ee: kale.sample_grid_proportional(ee(), ff(dens, 1), ff(dens[::-1], 2), 20),
        'from_hist': lambda ff, ee: (lambda kk: [kk.dataset, kk.weights, kk.density(data if dd > 1 else data[0])[1]])(
            kale.KDE.from_hist(ee() if dd > 1 else ee()[0], ff(mass, 2), bandwidth=0.5)),
    }[name]
    if name == 'from_hist' and dd > 1 and np.prod(np.array(shape) - 1) < 4:
        return False, []
    np.random.seed(5)
    want = func(fv[0], fe[0])
    np.random.seed(5)
    got = func(fv[1], fe[1])
    same(got, want, '%s of %s' % (name, fl), rtol=PRECISION['float32' in fl])
    return True, [name, 'D=%d' % dd] + fl


FUNCS = ['quantiles', 'quantiles-unweighted', 'quantiles-axis', 'histogram', 'histogram-bins', 'parse_edges', 'parse_edges-number',
         'parse_edges-given', 'minmax', 'minmax-positive', 'minmax-log', 'minmax-limit', 'spacing', 'spacing-log', 'midpoints', 'midpoints-log',
         'midpoints-axis', 'trapz_nd', 'trapz_dens_to_mass', 'trapz_dens_to_mass-axis', 'cumtrapz', 'cumsum', 'cumsum-axis', 'centroids', 'bound_indices',
         'bound_indices-outside', 'add_cov', 'rem_cov', 'meshgrid', 'iqrange', 'iqrange-log', 'subdivide', 'sample_grid', 'sample_grid-mass',
         'sample_grid-scalar', 'sample_outliers', 'sample_grid_proportional', 'from_hist']


def utils_cases():
    return st.fixed_dictionaries(dict(
        func=st.sampled_from(FUNCS), d=st.integers(1, 3), seed=gen.seeds, axis=st.integers(0, 2), wide=st.sampled_from(WIDE),
        flavors=st.lists(st.sampled_from(FLAVORS), min_size=3, max_size=3)))


# ---------------------------------------------------------------- plots

def drawn(ax):
    """Positions and sizes of everything that was drawn"""
    out = []
    for line in ax.lines:
        out.append(np.array([np.asarray(vv, float) for vv in line_xy(line)]))
    for pp in ax.patches:
        out.append(np.asarray(pp.get_path().vertices, float))
    for cc in ax.collections:
        offs = np.ma.filled(np.ma.asarray(cc.get_offsets(), float), np.nan)
        out.append(offs)
        arr = cc.get_array()
        if arr is not None:
            out.append(np.ma.filled(np.ma.asarray(arr, float), np.nan))
        if hasattr(cc, 'get_sizes'):
            out.append(np.asarray(cc.get_sizes(), float))
        for path in cc.get_paths():
            out.append(np.asarray(path.vertices, float))
    return out


def check_plots(case):
    import kalepy as kale
    import matplotlib.pyplot as plt
    rng = np.random.RandomState(case['seed'])
    name = case['func']
    dd = 1 if name in ('carpet', 'hist1d', 'confidence', 'dist1d', 'dist1d-hist') else (2 if not name.startswith('corner') else 2 + case['seed'] % 2)
    nn = 30
    data = np.array([rng.permutation(60)[:nn] for _ in range(dd)]).astype(float)
    gen.check_cov(np.atleast_2d(np.cov(data)))
    if dd == 1:
        data = data[0]
    wts = rng.randint(1, 21, size=nn).astype(float) if case['weights'] else None
    edges = np.array([0.0, 9.0, 21.0, 37.0, 60.0]) if case['edges'] else None
    if case['wide'] != 'no':
        off = -115.0 if case['wide'] == 'signed' else 5.0
        data = data * 4 + off
        edges = None if edges is None else edges * 4 + off
        wts = None if wts is None else wts * 11
    fl = case['flavors']
    results = []
    for flav in (False, True):
        xx = flavored(data, fl[0]) if flav else data
        ww = wts if (wts is None or not flav) else flavored(wts, fl[1])
        ee = edges if (edges is None or not flav) else flavored(edges, fl[2])
        es = None if edges is None else [ee] * dd
        before = repr_exact([xx, ww, es])
        np.random.seed(7)
        if name.startswith('corner'):
            corner = kale.Corner(dd, figsize=2)
            if name == 'corner-plot':
                corner.plot(xx, edges=es, weights=ww)
            elif name == 'corner-data':
                corner.plot_data(xx, edges=es, weights=ww)
            elif name == 'corner-hist':
                corner.hist(xx, weights=ww)
            else:
                corner.clean(xx, weights=ww)
            res = [drawn(ax) for ax in corner.axes.flat]
            plt.close('all')
        else:
            with Axes() as ax:
                kw = dict(ax=ax, weights=ww)
                if name == 'carpet':
                    kale.carpet(xx, **kw)
                elif name == 'hist1d':
                    kale.hist1d(xx, edges=ee, **kw)
                elif name == 'confidence':
                    kale.confidence(xx, **kw)
                elif name == 'dist1d':
                    kale.dist1d(xx, edges=ee, **kw)
                elif name == 'dist1d-hist':
                    kale.dist1d(xx, edges=ee, hist=True, density=False, carpet=True, confidence=True, **kw)
                elif name == 'hist2d':
                    kale.hist2d(xx, edges=es, **kw)
                elif name == 'dist2d':
                    kale.dist2d(xx, edges=es, **kw)
                elif name == 'contour':
                    kale.contour(xx, edges=es, **kw)
                res = drawn(ax)
        ensure(repr_exact([xx, ww, es]) == before, '%s changed its arguments', name)
        results.append(res)
    # (positions of contours are of limited accuracy where levels nearly equal the values on the grid)
    same(results[1], results[0], '%s of %s' % (name, fl), rtol=max(1e-7, PRECISION['float32' in fl]))
    return True, [name] + fl


PLOTS = ['carpet', 'hist1d', 'confidence', 'dist1d', 'dist1d-hist', 'hist2d', 'dist2d', 'contour', 'corner-plot', 'corner-data', 'corner-hist',
         'corner-clean']


def plots_cases():
    return st.fixed_dictionaries(dict(
        func=st.sampled_from(PLOTS), seed=gen.seeds, weights=st.booleans(), edges=st.booleans(), wide=st.sampled_from(WIDE),
        flavors=st.lists(st.sampled_from(FLAVORS), min_size=3, max_size=3)))


SUBS = [
    Sub('toplevel', toplevel_cases(), check_toplevel, 200, rule='at least two options'),
    Sub('types', types_cases(), check_types, 250, rule='every case'),
    Sub('utilities', utils_cases(), check_utils, 700, rule='every case'),
    Sub('plots', plots_cases(), check_plots, 120, rule='every case'),
]
