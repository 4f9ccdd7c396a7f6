"""Scalars that are sampled along with gridded densities"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, grids
from .util import Sub, close, ensure, repr_exact, within   # noqa
from .c14 import fit

ID = 'C15'


def scalar_range(smass, sdens, dens, bins, locs):
    """Linear interpolation of the scalar across each bin, at the position of the sample"""
    mean = grids.mean_of(sdens)
    fac = np.where(mean != 0, smass / np.where(mean != 0, mean, 1.0), 0.0)
    want, scale = smass[bins], 0.0
    for dd, sl in enumerate(grids.slopes(sdens)):
        want = want + (sl * fac)[bins] * (locs[dd] - 0.5)
        scale = scale + np.abs((sl * fac)[bins])
    return want - 1e-6 * scale, want + 1e-6 * scale


def check_scalar(case):
    import kalepy as kale
    spec = case['grid']
    edges = grids.make_edges(spec)
    ndim = len(edges)
    dens = grids.make_values(spec, spec['shape'])
    mass = grids.mass_of(dens, edges)
    if not mass.sum() > 0:
        raise gen.Skip()
    sdens = grids.make_values(spec, spec['shape'], kind=case['scalar'], seed=3)
    if case['sign']:
        sdens = sdens - 0.4 * np.mean(sdens)
    smass = grids.mass_of(sdens, edges)
    kw = dict(scalar_dens=sdens.tolist() if spec['aslist'] else sdens)
    if case['smass']:
        smass = grids.make_values(spec, smass.shape, kind='uniform', seed=4) * 7
        kw['scalar_mass'] = smass
    arg = grids.as_given(spec, edges)
    if ndim == 1 and case['flat']:
        arg = arg[0]
    before = repr_exact([arg, kw])
    np.random.seed(case['seed'])
    num, interp = case['num'], case['interpolate']
    if case['api'] == 'class':
        sampler = kale.Sample_Grid(arg, dens, **kw)
        rv = sampler.sample(num, interpolate=interp, **(dict(return_scalar=True) if case['seed'] % 2 else {}))
        np.random.seed(case['seed'])
        only = sampler.sample(num, interpolate=interp, return_scalar=False)
    else:
        rv = kale.sample_grid(arg, dens, num, interpolate=interp, **(dict(return_scalar=True) if case['seed'] % 2 else {}), **kw)
        np.random.seed(case['seed'])
        only = kale.sample_grid(arg, dens, num, interpolate=interp, return_scalar=False, **kw)
    ensure(isinstance(rv, tuple) and len(rv) == 2, 'samples and scalars are not both returned')
    vals, scal = rv
    ensure(np.array_equal(vals, only), 'samples depend on whether the scalars are returned')
    ensure(before == repr_exact([arg, kw]), 'the inputs were changed')
    ensure(np.shape(scal) == (num,), 'shape of the scalars %s, for %d samples', np.shape(scal), num)
    vals = np.reshape(vals, (ndim, num))
    bins, locs = grids.locate(vals, edges)
    # (not those that are on the edge between bins, numerically)
    good = np.all((locs > 1e-7) & (locs < 1 - 1e-7), axis=0)
    top = np.abs(smass).max() + max(np.abs(sl).max() * np.abs(volumes).max() for sl in grids.slopes(sdens) for volumes in [grids.volumes(edges)])
    if not interp:
        close(scal[good], smass[bins][good], 1e-9, 1e-12 * top, 'scalar of each sample, without interpolation')
    else:
        lo, hi = scalar_range(smass, sdens, dens, bins, locs)
        # (the fractions of linear densities are numerically less precise)
        tol = 1e-6 * (hi - lo) + 1e-6 * np.abs(smass[bins]) + 1e-7 * top
        ensure(np.all(np.isfinite(scal)), 'scalars are not finite')
        bad = good & ((scal < lo - tol) | (scal > hi + tol))
        if np.any(bad):
            ii = np.argmax(bad)
            ensure(False, 'scalar %r at %s, expected within [%r, %r]', scal[ii], vals[:, ii].tolist(), lo[ii], hi[ii])
    return np.ptp(scal) > 0 if num > 1 else False, ['D=%d' % ndim, spec['kind'], spec['spacing'], 'interpolate=%s' % interp, 'smass=%s' % case['smass']]


def check_proportional(case):
    """`sample_grid_proportional`: samples follow `portion`, with weights of the relative density"""
    import kalepy as kale
    spec = case['grid']
    edges = grids.make_edges(spec)
    ndim = len(edges)
    dens = grids.make_values(spec, spec['shape'])
    portion = grids.make_values(spec, spec['shape'], kind=case['portion'], seed=6)
    pmass = grids.mass_of(portion, edges)
    if not pmass.sum() > 0:
        raise gen.Skip()
    ratio = np.where(portion != 0, dens / np.where(portion != 0, portion, 1.0), 0.0)
    given = None
    if case['mass']:
        given = grids.make_values(spec, pmass.shape, kind='uniform', seed=8)
        pmass = given
    arg = grids.as_given(spec, edges)
    before = repr_exact([arg, dens, portion])
    num, interp = case['num'], case['interpolate']
    np.random.seed(case['seed'])
    vals, wts = kale.sample_grid_proportional(arg, dens, portion.tolist() if spec['aslist'] else portion, num, mass=given, interpolate=interp)
    ensure(before == repr_exact([arg, dens, portion]), 'the inputs were changed')
    ensure(np.shape(vals) == (ndim, num) and np.shape(wts) == (num,), 'shapes %s and %s', np.shape(vals), np.shape(wts))
    fit(vals, edges, portion, np.asarray(pmass, float), interp, 'samples of the portion')
    smass = grids.mass_of(ratio, edges)
    bins, locs = grids.locate(vals, edges)
    good = np.all((locs > 1e-7) & (locs < 1 - 1e-7), axis=0)
    if not interp:
        close(wts[good], smass[bins][good], 1e-9, 1e-12 * np.abs(smass).max(), 'weights of each sample, without interpolation')
    else:
        lo, hi = scalar_range(smass, ratio, portion, bins, locs)
        tol = 1e-6 * (hi - lo) + 1e-6 * np.abs(smass[bins]) + 1e-7 * np.abs(smass).max()
        ensure(np.all(np.isfinite(wts)), 'weights are not finite')
        bad = good & ((wts < lo - tol) | (wts > hi + tol))
        ensure(not np.any(bad), 'weights %s, expected within [%s, %s]', wts[bad][:1], lo[bad][:1], hi[bad][:1])
    # the weighted number of samples is proportional to the density, if it's proportional to the portion
    if case['same'] and given is None and spec['spacing'] in ('uniform', 'ints') and np.all(portion > 0):
        v2, w2 = kale.sample_grid_proportional(arg, portion * 3.0, portion, num, interpolate=interp)
        vol = grids.volumes(edges)
        bins, _ = grids.locate(v2, edges)
        close(w2 / (np.broadcast_to(vol, pmass.shape)[bins] * 3.0), np.ones(num), 1e-6, 0, 'weights relative to the volume of each bin')
    return np.ptp(wts) > 0, ['D=%d' % ndim, spec['kind'], 'portion=' + case['portion'], 'interpolate=%s' % interp]


common = dict(seed=gen.seeds, interpolate=gen.choice(True, True, False))
SUBS = [
    Sub('scalar', st.fixed_dictionaries(dict(grid=st.one_of(grids.grid_spec(1, 3, nmin=3), grids.grid_spec(), grids.grid_spec(1, 6, 3)), scalar=st.sampled_from(grids.KINDS), sign=gen.choice(False, False, True), smass=st.booleans(),
                                             num=gen.choice(1, 40, 400), api=gen.choice('class', 'function'), flat=st.booleans(), **common)),
        check_scalar, 1500, rule='the scalars are not all the same'),
    Sub('large', st.fixed_dictionaries(dict(grid=grids.large_spec(), scalar=st.sampled_from(grids.KINDS), sign=gen.choice(False, False, True), smass=st.booleans(),
                                            num=gen.choice(400, 30000), api=gen.choice('class', 'function'), flat=st.booleans(), **common)),
        check_scalar, 40, 300, rule='the scalars are not all the same'),
    Sub('proportional', st.fixed_dictionaries(dict(grid=st.one_of(grids.grid_spec(1, 3, nmin=3), grids.grid_spec(), grids.grid_spec(1, 6, 3)), portion=st.sampled_from(grids.KINDS), mass=gen.choice(False, False, True),
                                                   num=gen.choice(3000, 10000), same=st.booleans(), **common)),
        check_proportional, 700, rule='the weights are not all the same'),
    Sub('proportional-large', st.fixed_dictionaries(dict(grid=grids.large_spec(), portion=st.sampled_from(grids.KINDS), mass=gen.choice(False, False, True),
                                                         num=gen.choice(100000, 40000), same=st.booleans(), **common)),
        check_proportional, 30, 200, rule='the weights are not all the same'),
]
