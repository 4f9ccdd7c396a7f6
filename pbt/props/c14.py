"""Sampling from gridded densities"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, grids
from .util import Sub, chi2_test, close, ensure, ks_test, repr_exact   # noqa

ID = 'C14'


def build(case):
    spec = case['grid']
    edges = grids.make_edges(spec)
    dens = grids.make_values(spec, spec['shape'])
    mass = grids.mass_of(dens, edges)
    given = None
    if case['mass'] != 'none':
        given = grids.make_values(spec, mass.shape, kind=dict(other='uniform', zeros='zeros', counts='counts')[case['mass']], seed=9)
        if case['mass'] == 'other':
            given = given * 50 / spec['scale']
        mass = given
    if not mass.sum() > 0:
        raise gen.Skip()
    return spec, edges, dens, given, np.asarray(mass, float)


def fit(samps, edges, dens, mass, interpolate, what):
    """Samples follow the mass of each bin, and the gradients within them"""
    ndim = len(edges)
    for vv, ee in zip(samps, edges):
        tol = 1e-12 * np.abs(ee).max()
        ensure(np.all((vv >= ee[0] - tol) & (vv <= ee[-1] + tol)), '%s: outside of the grid', what)
    bins, locs = grids.locate(samps, edges)
    flat = np.ravel_multi_index(bins, mass.shape)
    counts = np.bincount(flat, minlength=mass.size)
    chi2_test(counts, mass, '%s: number in each bin' % what)
    uu = grids.position_quantiles(locs, bins, dens, interpolate)
    for dd in range(ndim):
        ks_test(uu[dd], lambda xx: np.clip(xx, 0, 1), '%s: positions within bins, of dimension %d' % (what, dd))
    # the same for the most frequent bins, one by one
    for bb in np.argsort(-counts)[:6]:
        sel = flat == bb
        if sel.sum() > 300:
            for dd in range(ndim):
                ks_test(uu[dd][sel], lambda xx: np.clip(xx, 0, 1), '%s: positions within bin %s, of dimension %d' % (what, bb, dd))
    # of bins by the sign of their slopes
    if interpolate:
        for dd, gg in enumerate(grids.unit_slopes(dens)):
            for sel in (gg[bins] > 0.1, gg[bins] < -0.1):
                if sel.sum() > 300:
                    ks_test(uu[dd][sel], lambda xx: np.clip(xx, 0, 1), '%s: positions within sloped bins, of dimension %d' % (what, dd))
    # dimensions are independent within bins
    if ndim > 1:
        cell = np.zeros(uu.shape[1], dtype=int)
        for dd in range(ndim):
            cell = cell * 3 + np.clip((uu[dd] * 3).astype(int), 0, 2)
        chi2_test(np.bincount(cell, minlength=3 ** ndim), np.ones(3 ** ndim), '%s: joint positions within bins' % what)


def check_distribution(case):
    import kalepy as kale
    spec, edges, dens, given, mass = build(case)
    ndim = len(edges)
    np.random.seed(case['seed'])
    kw = {}
    if given is not None:
        kw['mass'] = given
    if not case['interpolate']:
        kw['interpolate'] = False
    num = case['num']
    if case['api'] == 'class':
        init = {kk: vv for kk, vv in kw.items() if kk == 'mass'}
        arg = grids.as_given(spec, edges)
        sampler = kale.Sample_Grid(arg[0] if (ndim == 1 and case['flat']) else arg, dens.tolist() if spec['aslist'] else dens, **init)
        if case['seed'] % 3 == 0:
            sampler.sample(50)
            sampler.sample(10, interpolate=False)
        # (numerous draws from one sampler, are together samples from the same distribution)
        parts = [num // case['parts']] * case['parts']
        samps = [sampler.sample(pp, **{kk: vv for kk, vv in kw.items() if kk != 'mass'}) for pp in parts]
        for pp, ss in zip(parts, samps):
            ensure(np.shape(ss) == (ndim, pp), 'shape of samples %s', np.shape(ss))
        samps = np.concatenate(samps, axis=1)
    else:
        arg = grids.as_given(spec, edges)
        samps = kale.sample_grid(arg[0] if (ndim == 1 and case['flat']) else arg, dens.tolist() if spec['aslist'] else dens, num, **kw)
        ensure(np.shape(samps) == ((num,) if ndim == 1 else (ndim, num)), 'shape of samples %s', np.shape(samps))
        samps = np.reshape(samps, (ndim, num))
    fit(samps, edges, dens, mass, case['interpolate'], 'samples')
    return mass.size > 1, ['D=%d' % ndim, spec['kind'], spec['spacing'], 'mass=' + case['mass'], 'interpolate=%s' % case['interpolate']]


def check_gentle(case):
    """Small gradients, from the average position of many samples"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    shape = case['shape']
    edges = [np.cumsum(rng.uniform(0.2, 1.0, ss)) - 1 for ss in shape]
    dens = 1.0 + case['amp'] * rng.uniform(-1, 1, shape)
    if case['mono']:
        dens = 1.0 + case['amp'] * (np.indices(shape).sum(axis=0) / (np.sum(shape) - len(shape)) - 0.5)
    dens = dens * case['scale']
    np.random.seed(case['seed'])
    num = 200000
    samps = np.reshape(kale.sample_grid(edges if len(shape) > 1 else edges[0], dens, num), (len(shape), num))
    bins, locs = grids.locate(samps, edges)
    for dd, gg in enumerate(grids.unit_slopes(dens)):
        gg = gg[bins]
        # position relative to the center of the bin, in the direction of the gradient; its average is |gradient| / 12
        off = np.sign(gg) * (locs[dd] - 0.5)
        dev = np.mean(off - np.abs(gg) / 12.0) / (np.std(off) / np.sqrt(num))
        ensure(abs(dev) < 6.5, 'positions along dimension %d of bins with relative gradients of %.3f: the average is off by %.1f standard deviations', dd, np.mean(np.abs(gg)), dev)
    return case['amp'] > 0.02, ['D=%d' % len(shape), 'amp=%s' % case['amp']]


def check_contract(case):
    """Numbers of samples, shapes, repeatability, and inputs that are not changed"""
    import kalepy as kale
    spec, edges, dens, given, mass = build(case)
    ndim = len(edges)
    arg = grids.as_given(spec, edges)
    if ndim == 1 and case['flat']:
        arg = arg[0]
    num = case['num']
    tot = mass.sum()
    if num is None and (tot > 3000 or abs(tot - np.round(tot)) < 1e-9):
        raise gen.Skip()
    want = int(tot) if num is None else int(num)
    before = repr_exact([arg, dens, given])
    kw = dict(mass=given)
    if case['squeeze'] is not None and ndim == 1:
        kw['squeeze'] = case['squeeze']
    flatten = (ndim == 1) and (case['squeeze'] is not False)
    np.random.seed(case['seed'])
    one = kale.sample_grid(arg, dens, num, interpolate=case['interpolate'], **kw)
    shape = (want,) if flatten else (ndim, want)
    ensure(np.shape(one) == shape, 'samples have shape %s, expected %s (number %s, total mass %s)', np.shape(one), shape, num, tot)
    two = kale.sample_grid(arg, dens, num, interpolate=case['interpolate'], **kw)
    np.random.seed(case['seed'])
    sampler = kale.Sample_Grid(arg, dens, mass=given)
    three = sampler.sample(num, interpolate=case['interpolate'])
    ensure(np.array_equal(np.reshape(one, (ndim, want)), three), 'sample_grid and Sample_Grid differ (for the same seed)')
    if want > 2:
        ensure(not np.array_equal(one, two), 'samples are repeated')
    ensure(before == repr_exact([arg, dens, given]), 'the inputs were changed')
    ensure(np.all(np.isfinite(one)), 'samples are not finite')
    bins, locs = grids.locate(three, edges)
    ensure(np.all(mass[bins] > 0), 'samples in bins without any mass')
    ensure(np.all((locs > -1e-9) & (locs < 1 + 1e-9)), 'samples outside of the grid')
    gg = sampler.grid
    ensure(len(gg) == ndim and all(np.shape(xx) == tuple(spec['shape']) for xx in gg), 'shape of the grid')
    return want > 0, ['D=%d' % ndim, spec['kind'], 'num=%s' % (num if num is None else 'given')]


common = dict(mass=gen.choice('none', 'none', 'other', 'zeros', 'counts'), seed=gen.seeds, flat=st.booleans(), interpolate=gen.choice(True, True, False))
SUBS = [
    Sub('distribution', st.fixed_dictionaries(dict(grid=st.one_of(grids.grid_spec(1, 3, nmin=3), grids.grid_spec(), grids.grid_spec(1, 6, 3)), num=gen.choice(3000, 20000), api=gen.choice('class', 'function'), parts=gen.choice(1, 1, 4, 10), **common)),
        check_distribution, 600, rule='more than one bin'),
    Sub('large', st.fixed_dictionaries(dict(grid=grids.large_spec(), num=gen.choice(100000, 200000), api=gen.choice('class', 'function'), parts=gen.choice(1, 1, 4, 10), **common)),
        check_distribution, 40, 300, rule='more than one bin'),
    Sub('gentle', st.fixed_dictionaries(dict(shape=st.lists(st.integers(2, 5), min_size=1, max_size=2), seed=gen.seeds, amp=gen.choice(0.02, 0.06, 0.1, 0.2, 0.5), mono=st.booleans(),
                                             scale=gen.choice(1.0, 1e-8, 1e5))), check_gentle, 40, 400, rule='gradients of more than two percent'),
    Sub('contract', st.fixed_dictionaries(dict(grid=st.one_of(grids.grid_spec(1, 3, nmin=3), grids.grid_spec(), grids.grid_spec(1, 6, 3)), num=gen.choice(None, 0, 1, 2, 17, 30.7, 100), squeeze=gen.choice(None, None, True, False),
                                               **common)), check_contract, 500, rule='at least one sample'),
]
