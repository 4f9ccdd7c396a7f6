"""Generated grids with densities at their edges, and a reference model of sampling from them"""
import itertools

import numpy as np
from hypothesis import strategies as st

from . import gen

KINDS = ['uniform', 'uniform', 'zeros', 'peaked', 'flat', 'corner', 'counts', 'bytes', 'ramp', 'smooth']


def grid_spec(dmin=1, dmax=4, nmax=7, kinds=None, nmin=2):
    @st.composite
    def build(draw):
        dd = draw(st.integers(dmin, dmax))
        units = draw(gen.choice(1.0, 1.0, 1.0, 1e-9, 1e6))
        top = nmax if dd < 3 else min(nmax, 5 if dd == 3 else 4)
        return dict(shape=draw(st.lists(st.integers(nmin, top), min_size=dd, max_size=dd)), kind=draw(st.sampled_from(kinds or KINDS)),
                    spacing=draw(gen.choice('uniform', 'random', 'log', 'ints', 'bytes')), scale=draw(gen.choice(1.0, 1.0, 1e-6, 3e4, 1e-14, 1e13)), seed=draw(gen.seeds),
                    aslist=draw(st.booleans()), units=units, layout=draw(st.sampled_from(gen.LAYOUTS)))
    return build()


def large_spec(kinds=None):
    """Grids with many bins"""
    @st.composite
    def build(draw):
        dd = draw(st.integers(1, 3))
        top = draw(gen.choice(*[[3000, 300, 600], [130, 20, 40], [24, 8, 12]][dd - 1]))
        shape = draw(st.lists(st.integers(2, top), min_size=dd, max_size=dd))
        # (mostly large, while shrinking towards small)
        if draw(gen.choice(False, True, True, True)):
            shape = [max(ss, top - ss) for ss in shape]
        return dict(shape=shape, kind=draw(st.sampled_from(kinds or KINDS)), spacing=draw(gen.choice('uniform', 'random', 'log', 'ints')),
                    scale=draw(gen.choice(1.0, 1.0, 1e-6, 3e4)), seed=draw(gen.seeds), aslist=False, units=1.0)
    return build()


def make_edges(spec):
    rng = np.random.RandomState(spec['seed'])
    edges = []
    for nn in spec['shape']:
        kind = spec['spacing']
        if kind == 'uniform':
            ee = np.linspace(0, 1, nn) * rng.choice([0.1, 1.0, 20.0]) + rng.choice([0.0, -3.0, 5.0])
        elif kind == 'random':
            ee = np.cumsum(rng.uniform(0.1, 2.0, nn)) - rng.uniform(0, 4)
        elif kind == 'log':
            ee = np.logspace(-1, rng.choice([1, 2]), nn)
        elif kind == 'bytes':
            # small type of integers, that doesn't hold sums or differences of its values
            ee = np.array(np.cumsum(rng.randint(1, 4, nn)) * (230 // (3 * nn)) - 115, dtype=np.int8)
        else:
            ee = np.cumsum(rng.randint(1, 4, nn)) - 3
        if spec.get('units', 1.0) != 1.0:
            ee = ee * spec['units']
        edges.append(ee)
    return edges


def make_values(spec, shape, kind=None, seed=0):
    return gen.stored(_make_values(spec, shape, kind, seed), spec.get('layout'))


def _make_values(spec, shape, kind, seed):
    rng = np.random.RandomState(spec['seed'] + 5 + seed)
    kind = kind or spec['kind']
    if kind == 'uniform':
        vals = rng.uniform(0.05, 1.0, shape)
    elif kind == 'zeros':
        vals = rng.uniform(0.1, 1.0, shape) * (rng.uniform(size=shape) < 0.5)
    elif kind == 'peaked':
        vals = 10.0 ** rng.uniform(-4, 0, shape)
    elif kind == 'flat':
        vals = np.ones(shape) * rng.choice([1.0, 0.37])
    elif kind == 'corner':
        vals = np.zeros(shape)
        vals.flat[rng.randint(vals.size)] = 1.0
    elif kind == 'counts':
        return rng.randint(0, 6, shape) + (rng.uniform(size=shape) < 0.1)
    elif kind == 'bytes':
        return rng.randint(0, 256, shape).astype(np.uint8)
    elif kind == 'ramp':
        vals = sum(np.meshgrid(*[np.arange(ss) * rng.uniform(0.2, 1.0) for ss in shape], indexing='ij')) + 0.0
    elif kind == 'smooth':
        vals = np.exp(-0.5 * sum(((gg / max(1, ss - 1)) * 4 - 2) ** 2 for gg, ss in zip(np.meshgrid(*[np.arange(ss) for ss in shape], indexing='ij'), shape)))
    else:
        raise ValueError(kind)
    return vals * spec['scale']


def corners(vals):
    """The values of the two sides (of each dimension) of every bin: (2, 2, ..., bins)"""
    dd = vals.ndim
    out = np.zeros([2] * dd + [ss - 1 for ss in vals.shape])
    for idx in itertools.product([0, 1], repeat=dd):
        out[idx] = vals[tuple(slice(ii, ss - 1 + ii) for ii, ss in zip(idx, vals.shape))]
    return out


def volumes(edges):
    vol = np.ones([1] * len(edges))
    for dd, ee in enumerate(edges):
        sh = [1] * len(edges)
        sh[dd] = -1
        vol = vol * np.diff(np.asarray(ee, float)).reshape(sh)
    return vol


def mean_of(vals):
    return corners(np.asarray(vals, float)).mean(axis=tuple(range(np.ndim(vals))))


def mass_of(vals, edges):
    return mean_of(vals) * volumes(edges)


def slopes(vals):
    """Change of value across each bin, for each dimension (averaged over the other dimensions)"""
    cc = corners(np.asarray(vals, float))
    dd = np.ndim(vals)
    out = []
    for ii in range(dd):
        diff = np.take(cc, 1, axis=ii) - np.take(cc, 0, axis=ii)
        out.append(diff.mean(axis=tuple(range(dd - 1))) if dd > 1 else diff)
    return out


def locate(vals, edges):
    """-> bin of each sample (D, N), and relative position (D, N) within"""
    bins, locs = [], []
    for vv, ee in zip(vals, edges):
        ee = np.asarray(ee, float)
        bb = np.clip(np.searchsorted(ee, vv, side='right') - 1, 0, ee.size - 2)
        bins.append(bb)
        locs.append((vv - ee[bb]) / (ee[bb + 1] - ee[bb]))
    return tuple(bins), np.array(locs)


def unit_slopes(dens):
    mean = mean_of(dens)
    return [np.where(mean > 0, sl / np.where(mean > 0, mean, 1.0), 0.0) for sl in slopes(dens)]


def position_quantiles(locs, bins, dens, interpolate):
    """Cumulative fraction of each position, for a linear density in each dimension of the bin;  uniform if all is well"""
    if not interpolate:
        return locs
    uni = unit_slopes(dens)
    return np.array([(1 - gg[bins] / 2) * xx + gg[bins] * xx * xx / 2 for gg, xx in zip(uni, locs)])


def as_given(spec, edges):
    if spec['aslist']:
        return [ee.tolist() for ee in edges]
    return [gen.stored(ee, spec.get('layout')) for ee in edges]
