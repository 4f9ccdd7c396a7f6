"""Geometry of grids: centers, midpoints, bins, subdivisions"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, grids
from .util import Sub, close, ensure, equal, repr_exact   # noqa
from .c16 import centers

ID = 'C18'


def check_centroids(case):
    from kalepy import utils
    spec = case['grid']
    edges = grids.make_edges(spec)
    ndim = len(edges)
    vals = np.asarray(grids.make_values(spec, spec['shape']))
    arg = grids.as_given(spec, edges)
    if ndim == 1 and case['flat']:
        arg = arg[0]
    before = repr_exact([arg, vals])
    got = utils.centroids(arg, vals.tolist() if spec['aslist'] else vals)
    ensure(before == repr_exact([arg, vals]), 'the inputs were changed')
    bins = tuple(ss - 1 for ss in spec['shape'])
    ensure(np.shape(got) == (ndim,) + bins, 'shape of the centroids %s', np.shape(got))
    want, pos = centers(edges, vals)
    for dd in range(ndim):
        sh = [1] * ndim
        sh[dd] = -1
        ee = np.asarray(edges[dd], float)
        lo, wid = np.broadcast_to(ee[:-1].reshape(sh), bins), np.broadcast_to(np.diff(np.asarray(ee, float)).reshape(sh), bins)
        ensure(np.all((got[dd] >= lo - 1e-9 * wid) & (got[dd] <= lo + wid * (1 + 1e-9))), 'centroids are outside of their bins')
        close((got[dd] - lo)[pos] / wid[pos], (want[dd] - lo)[pos] / wid[pos], 1e-6, 1e-7, 'centroids in dimension %d' % dd)
    # independent of the normalization of the values;  mirrored along with them
    if np.all(pos):
        rel = utils.centroids(edges, vals * 3.7)
        for dd in range(ndim):
            close(rel[dd], got[dd], 1e-9, 1e-9 * np.ptp(np.asarray(edges[dd], float)), 'centroids of rescaled values')
        mir = utils.centroids([-np.asarray(ee, float)[::-1] for ee in edges], vals[(slice(None, None, -1),) * ndim])
        for dd in range(ndim):
            close(-mir[dd][(slice(None, None, -1),) * ndim], got[dd], 1e-8, 1e-8 * np.ptp(np.asarray(edges[dd], float)), 'centroids of mirrored values')
    return np.any(pos) and spec['kind'] != 'flat', ['D=%d' % ndim, spec['kind']]


def check_midpoints(case):
    from kalepy import utils
    rng = np.random.RandomState(case['seed'])
    shape = case['shape']
    arr = rng.uniform(0.1, 10.0, shape) if case['log'] else rng.normal(size=shape) * 5
    if case['ints']:
        arr = rng.randint(1, 50, shape)
        if case['seed'] % 2:
            arr = (arr * 5).astype(np.uint8)
    ndim = arr.ndim
    axes = sorted(set(aa for aa in case['axes'] if aa < ndim))
    form = case['form']
    if form == 'default':
        kw, axes = {}, [ndim - 1]
    elif form == 'none':
        kw, axes = dict(axis=None), list(range(ndim))
    elif form == 'int':
        kw, axes = dict(axis=axes[0] if axes else 0), axes[:1] or [0]
    elif form == 'negative':
        kw, axes = dict(axis=-1 - (axes[0] if axes else 0)), [ndim - 1 - (axes[0] if axes else 0)]
    else:
        axes = axes or [0]
        kw = dict(axis=dict(list=list, tuple=tuple, array=np.array)[form](axes))
    if case['log']:
        kw['log'] = True
    if case['squeeze']:
        kw['squeeze'] = True
    arg = arr.tolist() if case['aslist'] else arr
    before = repr_exact(arg)
    if any(shape[aa] < 2 for aa in axes):
        raise gen.Skip()
    got = utils.midpoints(arg, **kw)
    ensure(repr_exact(arg) == before, 'the input was changed')
    want = np.log10(np.asarray(arr, float)) if case['log'] else np.asarray(arr, float)
    for aa in axes:
        want = np.moveaxis(want, aa, 0)
        want = 0.5 * (want[1:] + want[:-1])
        want = np.moveaxis(want, 0, aa)
    if case['log']:
        want = 10.0 ** want
    if case['squeeze']:
        want = want.squeeze()
    close(got, want, 1e-10, 1e-12, 'midpoints(%s)' % kw)
    return ndim > 1 and form not in ('default',), ['D=%d' % ndim, form, 'log=%s' % case['log']]


def check_lines(case):
    """bins and subdivide"""
    from kalepy import utils
    rng = np.random.RandomState(case['seed'])
    lo = float(rng.choice([-5.0, 0.0, 0.3, 100.0]))
    hi = lo + float(rng.choice([1e-3, 1.0, 37.0]))
    num = case['num'] + 2
    if case['reverse']:
        lo, hi = hi, lo
    xe, xc, dx = utils.bins(lo, hi, num)
    want = lo + (hi - lo) * np.arange(num) / (num - 1)
    close(xe, want, 1e-12, 1e-13 * abs(hi - lo), 'edges of bins')
    close(xc, 0.5 * (want[1:] + want[:-1]), 1e-12, 1e-13 * abs(hi - lo), 'centers of bins')
    close(dx, np.diff(want), 1e-8, 1e-12, 'widths of bins')

    sub = case['sub']
    log = case['log']
    arr = np.sort(rng.uniform(0.01, 50.0, num)) if log else rng.normal(size=num) * 10
    if not log and case['sorted']:
        arr = np.sort(arr)
    if case['ints']:
        arr = np.arange(num) * 3 + 1
        if case['seed'] % 2:
            arr = arr.astype(np.int8 if num < 40 else np.int16)
    arg = arr.tolist() if case['aslist'] else arr
    before = repr_exact(arg)
    div = utils.subdivide(arg, sub, log=log) if (sub != 1 or case['given']) else utils.subdivide(arg, log=log)
    ensure(repr_exact(arg) == before, 'the input was changed')
    ensure(np.shape(div) == ((num - 1) * (sub + 1) + 1,), 'shape of subdivided array %s, of %d edges divided by %d', np.shape(div), num, sub)
    base = np.log10(np.asarray(arr, float)) if log else np.asarray(arr, float)
    want = np.concatenate([base[ii] + (base[ii + 1] - base[ii]) * np.arange(sub + 1) / (sub + 1.0) for ii in range(num - 1)] + [base[-1:]])
    if log:
        want = 10.0 ** want
    close(div, want, 1e-9, 1e-9, 'subdivide(num=%d, log=%s)' % (sub, log))
    close(div[::sub + 1], np.asarray(arr, float), 1e-9, 1e-12, 'the original edges')
    return sub > 1, ['log=%s' % log, 'sub=%d' % sub]


SUBS = [
    Sub('centroids', st.fixed_dictionaries(dict(grid=st.one_of(grids.grid_spec(1, 4, 6), grids.grid_spec(1, 6, 3)), flat=st.booleans())), check_centroids, 600, rule='values that are not uniform'),
    Sub('centroids-large', st.fixed_dictionaries(dict(grid=grids.large_spec(), flat=st.booleans())), check_centroids, 30, 200, rule='values that are not uniform'),
    Sub('midpoints', st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 6), min_size=1, max_size=4), seed=gen.seeds, log=gen.choice(False, False, True),
                                                ints=gen.choice(False, False, True), axes=st.lists(st.integers(0, 3), min_size=1, max_size=3),
                                                form=gen.choice('default', 'none', 'int', 'negative', 'list', 'tuple', 'array'),
                                                squeeze=gen.choice(False, False, True), aslist=st.booleans())),
        check_midpoints, 600, rule='an axis, or axes, of several dimensions'),
    Sub('lines', st.fixed_dictionaries(dict(num=st.one_of(st.integers(0, 12), st.integers(0, 80)), sub=st.one_of(st.integers(0, 6), st.integers(0, 60)), log=st.booleans(), ints=gen.choice(False, False, True),
                                            sorted=st.booleans(), reverse=gen.choice(False, False, True), aslist=st.booleans(), given=st.booleans(), seed=gen.seeds)),
        check_lines, 400, rule='more than one subdivision'),
]
