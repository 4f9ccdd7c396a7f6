"""Histograms"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .util import Sub, close, ensure, repr_exact   # noqa

ID = 'C20'


def count(data, wts, edges):
    out = np.zeros(len(edges) - 1)
    for xx, ww in zip(data, wts):
        if xx < edges[0] or xx > edges[-1]:
            continue
        ii = int(np.searchsorted(edges, xx, side='right')) - 1
        out[min(ii, len(edges) - 2)] += ww
    return out


def check(case):
    from kalepy import utils
    rng = np.random.RandomState(case['seed'])
    num = case['num']
    kind = case['kind']
    data = {'normal': lambda: rng.normal(size=num), 'ints': lambda: rng.randint(0, 9, num), 'grid': lambda: rng.randint(0, 9, num) * 0.5,
            'skew': lambda: rng.exponential(size=num) * 100}[kind]()
    wts = gen.make_weights(case['weights'], num)
    form = case['bins']
    lo, hi = data.min(), data.max()
    edges = None
    if form == 'edges':
        span = max(hi - lo, 1.0)
        edges = np.sort(rng.uniform(lo - 0.3 * span, hi + 0.3 * span, case['nbins'] + 1))
        if kind in ('grid', 'ints') and case['seed'] % 2:
            edges = np.arange(case['nbins'] + 1) * 1.0 + rng.randint(-2, 5)
        elif case['seed'] % 3 == 0 and len(np.unique(data)) > 1:
            # edges that are at data
            edges = np.unique(rng.choice(data, size=min(num, case['nbins'] + 1), replace=False)).astype(float)
            edges = edges if edges.size > 1 else np.array([lo, hi], dtype=float)
            if case['seed'] % 2:
                edges = np.unique(np.concatenate([edges, [lo, hi]]))
        arg = edges.tolist() if case['aslist'] else edges
    elif form == 'count':
        arg = case['nbins']
    elif form == 'none':
        arg = None
    else:
        arg = form
    kw = dict(density=case['density'], probability=case['probability'])
    da = data.tolist() if case['aslist'] else data
    wa = None if wts is None else (wts.tolist() if case['aslist'] else wts)
    before = repr_exact([da, wa, arg])
    hist, eds = utils.histogram(da, bins=arg, weights=wa, **kw)
    ensure(before == repr_exact([da, wa, arg]), 'the inputs were changed')
    eds = np.asarray(eds, float)
    ensure(np.all(np.diff(eds) > 0), 'edges are not increasing')
    if edges is not None:
        ensure(np.array_equal(eds, edges), 'the given edges were not used')
    else:
        tol = 1e-9 * max(1.0, abs(lo), abs(hi))
        ensure(eds[0] <= lo + tol and eds[-1] >= hi - tol, 'the edges do not include all of the data')
        if form == 'count':
            ensure(eds.size == case['nbins'] + 1, 'number of bins %d', eds.size - 1)
    ones = np.ones(num) if wts is None else np.asarray(wts, float)
    want = count(data, ones, eds)
    ensure(np.shape(hist) == want.shape, 'shape of the histogram %s', np.shape(hist))
    if edges is None and form != 'count':
        # (data at the edges of computed bins can be on either side)
        near = np.min(np.abs(np.asarray(data, float)[:, None] - eds[None, :]), axis=1) < 1e-9 * max(1.0, abs(lo), abs(hi))
        if np.any(near[(data > eds[0]) & (data < eds[-1])]):
            want = np.histogram(data, eds, weights=ones)[0]
    elif edges is None:
        want = np.histogram(data, eds, weights=ones)[0] if np.any(np.isin(data, eds)) else want
    if case['density']:
        want = want / np.diff(eds)
    if case['probability']:
        want = want / ones.sum()
    close(np.asarray(hist, float), want, 1e-9, 1e-12 * max(want.max(), 1e-300), 'histogram(bins=%s, density=%s, probability=%s)' % (form, case['density'], case['probability']))
    if edges is None and case['probability']:
        tot = np.sum(hist * np.diff(eds)) if case['density'] else np.sum(hist)
        close(tot, 1.0, 1e-9, 0, 'total probability')
    return wts is not None or case['density'] or case['probability'], [form, kind, 'w=' + case['weights']['kind'],
                                                                     'density=%s' % case['density'], 'probability=%s' % case['probability']]


SUBS = [
    Sub('histogram', st.fixed_dictionaries(dict(num=st.integers(1, 60), kind=gen.choice('normal', 'ints', 'grid', 'skew'), weights=gen.weight_spec(),
                                                bins=gen.choice('edges', 'edges', 'count', 'none', 'auto', 'sqrt', 'sturges'), nbins=st.integers(1, 12),
                                                density=st.booleans(), probability=st.booleans(), aslist=st.booleans(), seed=gen.seeds)),
        check, 1500, rule='weighted, or normalized'),
    Sub('large', st.fixed_dictionaries(dict(num=st.one_of(st.integers(50, 6000), st.sampled_from([255, 256, 257, 1000, 4096])), kind=gen.choice('normal', 'ints', 'grid', 'skew'), weights=gen.weight_spec(),
                                            bins=gen.choice('edges', 'edges', 'edges', 'count', 'none', 'auto'), nbins=st.one_of(st.integers(1, 40), st.integers(13, 700)),
                                            density=st.booleans(), probability=st.booleans(), aslist=st.booleans(), seed=gen.seeds)),
        check, 150, rule='weighted, or normalized'),
]
