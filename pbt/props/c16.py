"""Sampling of outliers"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, grids
from .util import Sub, close, ensure, repr_exact, equal   # noqa
from .c14 import fit

ID = 'C16'


def centers(edges, dens):
    """Center of mass of each bin, from the average density at each side"""
    cc = grids.corners(np.asarray(dens, float))
    ndim = len(edges)
    out = []
    for dd, ee in enumerate(edges):
        y1, y2 = [np.take(cc, ss, axis=dd).sum(axis=tuple(range(ndim - 1))) for ss in (0, 1)]
        sh = [1] * ndim
        sh[dd] = -1
        tot = np.where(y1 + y2 > 0, y1 + y2, 1.0)
        ee = np.asarray(ee, float)
        out.append(ee[:-1].reshape(sh) + np.diff(np.asarray(ee, float)).reshape(sh) * (y1 + 2 * y2) / (3 * tot))
    return out, mean_positive(cc, ndim)


def mean_positive(cc, ndim):
    return cc.sum(axis=tuple(range(ndim))) > 0


def check_outliers(case):
    import kalepy as kale
    spec = case['grid']
    edges = grids.make_edges(spec)
    ndim = len(edges)
    dens = np.asarray(grids.make_values(spec, spec['shape']))
    mass = grids.mass_of(dens, edges)
    if not mass.sum() > 0:
        raise gen.Skip()
    # (a density is such that the total number is as chosen)
    given = None
    if case['mass']:
        given = grids.make_values(spec, mass.shape, kind='peaked', seed=5)
        given = given * (case['total'] / given.sum())
        mass = given
    else:
        dens = dens * (case['total'] / mass.sum())
        mass = grids.mass_of(dens, edges)
    srt = np.unique(mass)
    frac = case['frac']
    if frac == 0:
        thr = 0.0
    elif frac >= 1:
        thr = mass.max() * 2
    else:
        kk = int(frac * srt.size)
        thr = srt[kk] * 1.0000001 if kk == srt.size - 1 else 0.5 * (srt[kk] + srt[kk + 1])
    if np.any((np.abs(mass - thr) <= 1e-9 * thr) & (mass > 0)):
        raise gen.Skip()
    ins = mass > thr
    outs = np.where(ins, 0.0, mass)
    nout = outs.sum()
    if abs(nout - np.floor(nout) - 0.5) < 1e-6:
        raise gen.Skip()
    kw = {}
    if case['poisson'] & 1:
        kw['poisson_inside'] = True
    if case['poisson'] & 2:
        kw['poisson_outside'] = True
    arg = grids.as_given(spec, edges)
    if ndim == 1 and case['flat']:
        arg = arg[0]
    before = repr_exact([arg, dens, given])
    np.random.seed(case['seed'])
    sampler = kale.Sample_Outliers(arg, dens, threshold=thr, mass=given)
    num, vals, wts = sampler.sample(**kw)
    np.random.seed(case['seed'])
    v2, w2 = kale.sample_outliers(arg, dens, thr, mass=given, **kw)
    ensure(np.array_equal(w2, wts) and np.array_equal(np.reshape(v2, (ndim, -1)), vals), 'sample_outliers and Sample_Outliers differ (for the same seed)')
    ensure(np.shape(v2) == ((num,) if ndim == 1 else (ndim, num)), 'shape %s of %d samples', np.shape(v2), num)
    ensure(before == repr_exact([arg, dens, given]), 'the inputs were changed')
    ensure(np.shape(vals) == (ndim, num) and np.shape(wts) == (num,), 'shapes %s and %s, for %d samples', np.shape(vals), np.shape(wts), num)
    nin = int(ins.sum())

    # one representative of every bin above the threshold
    cents, pos = centers(edges, dens)
    for dd in range(ndim):
        sel = pos[ins]
        ww = np.broadcast_to(np.diff(np.asarray(edges[dd], float)).reshape([-1 if ii == dd else 1 for ii in range(ndim)]), mass.shape)[ins]
        diff = np.abs(vals[dd][:nin] - cents[dd][ins]) / ww
        ensure(np.all(diff[sel] < 1e-6), 'representative points are not at the centers of mass of their bins')
        lo = np.broadcast_to(np.asarray(edges[dd], float)[:-1].reshape([-1 if ii == dd else 1 for ii in range(ndim)]), mass.shape)[ins]
        ensure(np.all((vals[dd][:nin] > lo - 1e-9 * ww) & (vals[dd][:nin] < lo + ww * (1 + 1e-9))), 'representative points are outside of their bins')
    if case['poisson'] & 1:
        ensure(np.all(wts[:nin] >= 0) and np.all(wts[:nin] == np.round(wts[:nin])), 'Poisson weights are not whole numbers')
        zz = (wts[:nin] - mass[ins]) / np.sqrt(mass[ins])
        ensure(np.all(np.abs(wts[:nin] - mass[ins]) < 8 * np.sqrt(mass[ins]) + 10 + 0.5 * (mass[ins] < 1)), 'Poisson weights %s for %s', wts[:nin][:3], mass[ins][:3])
        if nin > 20 and mass[ins].min() > 20:
            ensure(abs(np.mean(zz ** 2) - 1) < 9 * np.sqrt(2.0 / nin), 'scatter of the Poisson weights %s', np.mean(zz ** 2))
    else:
        close(np.asarray(wts[:nin], float), mass[ins], 1e-9, 0, 'weights of bins above the threshold')

    # single points for all others
    ensure(np.all(wts[nin:] == 1), 'weights of outliers are not one')
    if case['poisson'] & 2:
        ensure(abs((num - nin) - nout) < 7 * np.sqrt(nout) + 12, 'number of outliers %d, for a mass of %s', num - nin, nout)
    else:
        ensure(num - nin == int(np.round(nout)), 'number of outliers %d, for a mass of %s', num - nin, nout)
        if not case['poisson']:
            ensure(abs(np.sum(wts) - mass.sum()) <= 0.5 + 1e-9 * mass.sum(), 'total weight %s, for a mass of %s', np.sum(wts), mass.sum())
    if num > nin:
        bins, locs = grids.locate(vals[:, nin:], edges)
        good = np.all((locs > 1e-7) & (locs < 1 - 1e-7), axis=0)
        ensure(np.all(outs[bins][good] > 0), 'outliers in bins that are above the threshold, or empty')
        fit(vals[:, nin:], edges, dens, outs, True, 'outliers')
    elif nout > 30:
        ensure(False, 'no outliers')
    return nin > 0 and num > nin, ['D=%d' % ndim, spec['kind'], 'mass=%s' % case['mass'], 'poisson=%d' % case['poisson'],
                                   'inside=%s' % ('none' if nin == 0 else 'all' if num == nin else 'some')]


SUBS = [
    Sub('outliers', st.fixed_dictionaries(dict(grid=st.one_of(grids.grid_spec(1, 3, 9), grids.grid_spec(1, 6, 3), grids.grid_spec(1, 2, 12, nmin=4), grids.grid_spec(1, 2, 12, nmin=4, kinds=['uniform', 'peaked', 'smooth', 'zeros'])), total=gen.choice(30.0, 1000.3, 20000.0), frac=gen.choice(0.5, 0.7, 0.9, 0.2, 0.97, 0, 1),
                                               mass=gen.choice(False, False, True), poisson=gen.choice(0, 0, 0, 1, 2, 3), flat=st.booleans(), seed=gen.seeds)),
        check_outliers, 900, rule='bins both above and below of the threshold'),
    Sub('large', st.fixed_dictionaries(dict(grid=grids.large_spec(['uniform', 'peaked', 'smooth', 'zeros', 'ramp']), total=gen.choice(1000.3, 20000.0, 200000.0), frac=gen.choice(0.5, 0.7, 0.9, 0.97),
                                            mass=gen.choice(False, False, True), poisson=gen.choice(0, 0, 0, 1, 2, 3), flat=st.booleans(), seed=gen.seeds)),
        check_outliers, 40, 300, rule='bins both above and below of the threshold'),
]
