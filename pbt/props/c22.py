"""Extrema, selections within bounds, spacing, and tests of arrays"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .util import Sub, close, ensure, equal, repr_exact   # noqa

ID = 'C22'


def check_minmax(case):
    from kalepy import utils
    rng = np.random.RandomState(case['seed'])
    shape = case['shape']
    kind = case['kind']
    if kind == 'ints':
        data = rng.randint(-8, 9, shape)
    elif kind == 'positive':
        data = 10.0 ** rng.uniform(-3, 4, shape)
    elif kind == 'negative':
        data = -rng.uniform(0.0, 5.0, shape)
    else:
        data = rng.normal(size=shape) * 4
    unit = 1 if kind == 'ints' else case['unit']
    data = data * unit
    kw = {}
    if case['positive']:
        kw['positive'] = True
    prev = limit = None
    if case['prev'] != 'none':
        num = (lambda: float(rng.choice([0.0, 0.0, 1.0, -1.0, 5.0]))) if case['special'] else (lambda: float(rng.normal() * 6))
        prev = [None if case['prev'] == 'hi' else num(), None if case['prev'] == 'lo' else num()]
        prev = [None if vv is None else vv * unit for vv in prev]
        kw['prev'] = prev
    if case['limit'] != 'none':
        limit = [None if case['limit'] == 'hi' else float(-abs(rng.normal()) * 4), None if case['limit'] == 'lo' else float(abs(rng.normal()) * 4)]
        if case['special']:
            limit = [None if vv is None else float(np.sign(vv) * rng.choice([0, 0, 1])) for vv in limit]
        limit = [None if vv is None else vv * unit for vv in limit]
        kw['limit'] = limit
    vals = np.ravel(data).astype(float)
    if case['positive']:
        vals = vals[vals > 0]
    stretch = case['stretch']
    if stretch != 'none':
        log = stretch.startswith('log')
        if log and not (vals.size and vals.min() > 0):
            raise gen.Skip()
        amt = [0.5, 0.1] if stretch.endswith('two') else 0.25
        if case['seed'] % 3 == 0:
            amt = [[0.0, 0.3], [0.2, 0], [0, 0.0], [1, 0.7], [-0.5, 0.1]][case['seed'] % 5] if stretch.endswith('two') else [0.0, 0, 1, 2.5, -0.4][case['seed'] % 5]
        kw['log_stretch' if log else 'stretch'] = amt
    arg = data.tolist() if case['aslist'] else data
    before = repr_exact([arg, prev, limit])
    got = utils.minmax(arg, **kw)
    ensure(before == repr_exact([arg, prev, limit]), 'the inputs were changed')
    if vals.size == 0:
        ensure(got is prev or (got is not None and prev is not None and list(got) == list(prev)), 'minmax without any values: %s', got)
        return False, ['empty']
    lo, hi = vals.min(), vals.max()
    if stretch != 'none':
        a1, a2 = amt if np.iterable(amt) else (amt, amt)
        if log:
            lo, hi = np.log10([lo, hi])
        mid = 0.5 * (lo + hi)
        lo, hi = mid - (1 + a1) * (mid - lo), mid + (1 + a2) * (hi - mid)
        if log:
            lo, hi = 10.0 ** lo, 10.0 ** hi
    if prev is not None:
        lo = lo if prev[0] is None else min(lo, prev[0])
        hi = hi if prev[1] is None else max(hi, prev[1])
    if limit is not None:
        lo = lo if limit[0] is None else max(lo, limit[0])
        hi = hi if limit[1] is None else min(hi, limit[1])
    ensure(np.shape(got) == (2,), 'shape of minmax %s', np.shape(got))
    close(np.asarray(got, float), [lo, hi], 1e-11, 1e-12 * unit, 'minmax(%s)' % kw)
    return True, [kind, 'prev=' + case['prev'], 'limit=' + case['limit'], 'stretch=' + stretch]


def check_bounds(case):
    from kalepy import utils
    rng = np.random.RandomState(case['seed'])
    ndim, num = case['ndim'], case['num']
    data = rng.randint(-6, 7, (ndim, num)) * 0.5 if case['grid'] else rng.normal(size=(ndim, num)) * 2
    bounds, pairs = [], []
    for dd in range(ndim):
        lo, hi = np.sort(rng.randint(-5, 6, 2)) * 0.5 - [0.5, 0.0]
        kind = case['kinds'][dd]
        lo = None if kind in ('hi', 'none', 'pair') else lo
        hi = None if kind in ('lo', 'none', 'pair') else hi
        pairs.append((-np.inf if lo is None else lo, np.inf if hi is None else hi))
        bounds.append(None if kind == 'none' else [lo, hi])
    arg, bnd = data, bounds
    if ndim == 1 and case['flat']:
        arg = data[0]
        bnd = bounds[0]
        if bnd is None:
            bnd = [None]
    if case['array'] and all(kk == 'both' for kk in case['kinds'][:ndim]):
        bnd = np.array(bnd, dtype=float)
    before = repr_exact([arg, bnd])
    ins = utils.bound_indices(arg, bnd)
    out = utils.bound_indices(arg, bnd, outside=True)
    ensure(before == repr_exact([arg, bnd]), 'the inputs were changed')
    for nn, vv in (('inside', ins), ('outside', out)):
        ensure(np.shape(vv) == (num,) and np.asarray(vv).dtype == bool, 'shape of indices %s (%s)', np.shape(vv), nn)
    winn = np.ones(num, dtype=bool)
    wout = np.zeros(num, dtype=bool)
    edge = np.zeros(num, dtype=bool)
    for dd, (lo, hi) in enumerate(pairs):
        edge |= (data[dd] == lo) | (data[dd] == hi)
        winn &= (data[dd] > lo) & (data[dd] < hi)
        wout |= (data[dd] < lo) | (data[dd] > hi)
    # (values that are exactly on a bound are neither strictly inside nor outside;  their selection isn't documented)
    equal(np.asarray(ins)[~edge], winn[~edge], 'indices inside of %s' % (bounds,))
    equal(np.asarray(out)[~edge], wout[~edge], 'indices outside of %s' % (bounds,))
    return np.any(winn) and np.any(wout), ['D=%d' % ndim] + case['kinds'][:1]


def check_spacing(case):
    from kalepy import utils
    rng = np.random.RandomState(case['seed'])
    size = case['size'] + 2
    log = case['scale'].startswith('log')
    data = 10.0 ** rng.uniform(-3, 3, size) if (log or case['pos']) else rng.normal(size=size) * 5
    kw = {}
    if case['neg'] and log:
        data[rng.randint(size)] = -3.0
        kw['positive'] = True
        if np.count_nonzero(data > 0) < 2:
            raise gen.Skip()
    sel = data[data > 0] if kw else data
    lo, hi = sel.min(), sel.max()
    if not hi > lo:
        raise gen.Skip()
    if case['num'] is not None:
        kw['num'] = case['num']
    if case['dex'] is not None:
        kw['dex'] = case['dex']
    before = repr_exact(data)
    got = utils.spacing(data.tolist() if case['aslist'] else data, case['scale'], **kw)
    ensure(before == repr_exact(data), 'the inputs were changed')
    if case['num'] is not None:
        ensure(got.size == int(case['num']), 'number of points %d, instead of %s', got.size, case['num'])
    elif log:
        # at least `dex` points for each factor of ten
        nd = np.log10(hi / lo) * (case['dex'] or 10)
        ensure(nd + 1 - 1e-6 <= got.size <= nd + 2 + 1e-6, '%d points for %s', got.size, nd)
    else:
        ensure(got.size > 1, 'number of points')
    if got.size > 1:
        close(got[[0, -1]], [lo, hi], 1e-9, 0, 'range of the spacing')
        dx = np.diff(np.log10(got) if log else got)
        close(dx, np.full(dx.size, dx.mean()), 1e-6, 1e-12 * np.abs(got).max(), 'spacing is not uniform')
    return True, [case['scale'], 'num=%s' % (case['num'] is not None)]


sides = gen.choice('none', 'none', 'both', 'lo', 'hi')
SUBS = [
    Sub('minmax', st.fixed_dictionaries(dict(shape=st.lists(st.integers(0, 6), min_size=1, max_size=3), kind=gen.choice('normal', 'ints', 'positive', 'negative'),
                                             positive=gen.choice(False, False, True), special=st.booleans(), prev=sides, limit=sides,
                                             stretch=gen.choice('none', 'none', 'lin', 'lin two', 'log', 'log two'), aslist=st.booleans(), seed=gen.seeds, unit=gen.choice(1, 1, 1, 1e-60, 1e-9, 1e13, 1e90))),
        check_minmax, 1200, rule='there are any values'),
    Sub('bounds', st.fixed_dictionaries(dict(ndim=st.integers(1, 4), num=st.integers(1, 40), grid=st.booleans(),
                                             kinds=st.lists(gen.choice('both', 'both', 'lo', 'hi', 'none', 'pair'), min_size=4, max_size=4), flat=st.booleans(), array=st.booleans(),
                                             seed=gen.seeds)), check_bounds, 800, rule='values both inside and outside'),
    Sub('spacing', st.fixed_dictionaries(dict(size=st.integers(0, 30), scale=gen.choice('log', 'lin', 'linear', 'log10'), pos=st.booleans(), neg=st.booleans(),
                                              num=gen.choice(None, None, 1, 2, 7, 30), dex=gen.choice(None, None, 3, 20, 2.5, 0.7), aslist=st.booleans(), seed=gen.seeds)),
        check_spacing, 400, rule='each case'),
]
