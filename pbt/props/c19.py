"""Weighted quantiles"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, close, ensure, repr_exact   # noqa

ID = 'C19'


def values_of(case, size):
    rng = np.random.RandomState(case['seed'])
    kind = case['kind']
    if kind == 'ties':
        return rng.randint(0, 5, size) * 1.5
    if kind == 'ints':
        return rng.randint(-50, 50, size)
    if kind == 'offset':
        return 1e9 + rng.permutation(int(np.prod(size))).reshape(size)
    if kind == 'tiny':
        return rng.normal(size=size) * 1e-60
    if kind == 'wide':
        return 10.0 ** rng.uniform(-5, 5, size)
    return rng.normal(size=size) * 3 + 1


def percs_of(case):
    rng = np.random.RandomState(case['seed'] + 1)
    pp = rng.uniform(0, 1, case['nperc'])
    pp[rng.uniform(size=pp.size) < 0.2] = rng.choice([0.0, 0.5, 1.0])
    return pp


def want_quantile(vals, wts, percs):
    idx = np.argsort(vals, kind='stable')
    vv, ww = np.asarray(vals, float)[idx], np.asarray(wts, float)[idx]
    cc = (np.cumsum(ww) - 0.5 * ww) / ww.sum()
    out = []
    for pp in np.ravel(percs):
        if pp <= cc[0]:
            out.append(vv[0])
        elif pp >= cc[-1]:
            out.append(vv[-1])
        else:
            jj = np.searchsorted(cc, pp, side='right')
            dc = cc[jj] - cc[jj - 1]
            out.append(vv[jj - 1] + (vv[jj] - vv[jj - 1]) * (pp - cc[jj - 1]) / dc)
    return np.array(out).reshape(np.shape(percs))


def distinct_order(vals, wts):
    """(the order of tied values with different weights, and data without weight, are not defined)"""
    return wts is None or (len(set(np.ravel(vals).tolist())) == np.size(vals) and np.all(np.asarray(wts) > 0))


def check_flat(case):
    from kalepy import utils
    num = case['num']
    vals = values_of(case, num)
    wts = gen.make_weights(case['weights'], num)
    percs = percs_of(case)
    arg = {0: percs, 1: percs.tolist(), 2: float(percs[0]), 3: percs.reshape(1, -1) if percs.size % 2 else percs.reshape(2, -1)}[case['form']]
    kw = {}
    if case['sigmas']:
        from scipy import stats
        sig = np.random.RandomState(case['seed'] + 3).normal(size=percs.size) * 2
        arg = {0: sig, 1: sig.tolist(), 2: float(sig[0]), 3: sig.reshape(arg.shape) if case['form'] == 3 else None}[case['form']]
        percs = stats.norm.cdf(sig)
        kw['sigmas'] = arg
    else:
        kw['percs'] = arg
    if case['form'] == 2:
        percs = percs[0]
    elif case['form'] == 3:
        percs = percs.reshape(arg.shape)
    vv, ww = vals, wts
    if case['sorted']:
        idx = np.argsort(vals, kind='stable')
        vv = vals[idx]
        ww = None if wts is None else wts[idx]
        kw['values_sorted'] = True
    va = vv.tolist() if case['aslist'] else vv
    wa = None if ww is None else (ww.tolist() if case['aslist'] else ww)
    before = repr_exact([va, wa, arg])
    got = utils.quantiles(va, weights=wa, **kw)
    ensure(before == repr_exact([va, wa, arg]), 'the inputs were changed')
    ensure(np.shape(got) == np.shape(percs), 'shape of quantiles %s, for percentiles %s', np.shape(got), np.shape(percs))
    ensure(np.all((got >= vals.min()) & (got <= vals.max())), 'quantiles outside of the values')
    ones = np.ones(num) if wts is None else np.asarray(wts, float)
    span = np.ptp(vals)
    if distinct_order(vals, wts):
        close(got, want_quantile(vals, ones, percs), 1e-9, 1e-9 * span, 'quantiles')
        if not case['sorted']:
            perm = np.random.RandomState(case['seed'] + 2).permutation(num)
            close(utils.quantiles(vals[perm], weights=None if wts is None else wts[perm], **kw), got, 1e-9, 1e-9 * span, 'quantiles of permuted values')
        if wts is not None:
            close(utils.quantiles(vv, weights=np.asarray(ww) * 7.5, **kw), got, 1e-9, 1e-8 * span, 'quantiles with rescaled weights')
        close(np.asarray(utils.quantiles(vv * 2.0 + 5, weights=ww, **kw)), np.asarray(got) * 2.0 + 5, 1e-9, 1e-8 * span, 'quantiles of rescaled values')
    if np.size(percs) > 1:
        idx = np.argsort(percs, axis=None)
        ensure(np.all(np.diff(np.ravel(got)[idx]) >= -1e-9 * span), 'quantiles are not increasing')
    # inter-quartile range
    if distinct_order(vals, wts):
        q3 = want_quantile(vals, ones, np.array([0.25, 0.75]))
        close(utils.iqrange(vals, weights=wts), q3[1] - q3[0], 1e-9, 1e-9 * span, 'iqrange')
        if np.all(vals > 0):
            q3 = want_quantile(np.log10(vals), ones, np.array([0.25, 0.75]))
            close(utils.iqrange(vals, log=True, weights=wts), q3[1] - q3[0], 1e-9, 1e-9, 'iqrange(log=True)')
    return num > 2 and span > 0, [case['kind'], 'w=' + case['weights']['kind'], 'sorted=%s' % case['sorted']]


def check_axis(case):
    from kalepy import utils
    shape = case['shape']
    vals = values_of(case, shape)
    wts = None
    if case['weights']['kind'] != 'none':
        wts = np.asarray(gen.make_weights(case['weights'], vals.size)).reshape(shape)
        if np.any(wts.sum(axis=tuple(range(1))) <= 0) or not np.all(wts > 0):
            raise gen.Skip()
    percs = percs_of(case)
    axis = case['axis']
    if axis is not None:
        axis = axis % vals.ndim - (vals.ndim if case['negative'] else 0)
    if not distinct_order(vals, wts) and wts is not None:
        raise gen.Skip()
    before = repr_exact([vals, wts, percs])
    got = utils.quantiles(vals, percs, weights=wts, axis=axis)
    ensure(before == repr_exact([vals, wts, percs]), 'the inputs were changed')
    ones = np.ones(shape) if wts is None else wts
    if axis is None:
        close(got, want_quantile(vals.ravel(), np.ravel(ones), percs), 1e-9, 1e-9 * np.ptp(vals), 'quantiles(axis=None)')
    else:
        v2, w2 = np.moveaxis(vals, axis, -1), np.moveaxis(ones, axis, -1)
        n2 = v2.shape[-1]
        rows = [want_quantile(vr, wr, percs) for vr, wr in zip(v2.reshape(-1, n2), w2.reshape(-1, n2))]
        ensure(np.size(got) == len(rows) * percs.size, 'shape of quantiles %s, along axis %d of %s', np.shape(got), axis, shape)
        close(np.reshape(got, (len(rows), percs.size)), np.array(rows), 1e-9, 1e-9 * np.ptp(vals), 'quantiles(axis=%d)' % axis)
    return vals.ndim > 1 and min(shape) > 1, ['axis=%s' % axis, 'D=%d' % vals.ndim, 'w=' + case['weights']['kind']]


kinds = gen.choice('normal', 'normal', 'ties', 'ints', 'wide', 'offset', 'tiny')
SUBS = [
    Sub('flat', st.fixed_dictionaries(dict(num=st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(61, 600), st.integers(61, 600), st.integers(600, 12000)), kind=kinds, weights=gen.weight_spec(), nperc=st.integers(1, 8), form=gen.choice(0, 0, 1, 2, 3),
                                           sigmas=gen.choice(False, False, True), sorted=gen.choice(False, False, True), aslist=st.booleans(), seed=gen.seeds)),
        check_flat, 1000, rule='more than two values, that are not all the same'),
    Sub('axis', st.fixed_dictionaries(dict(shape=st.lists(st.integers(1, 7), min_size=1, max_size=3), kind=kinds, weights=gen.weight_spec(['none', 'uniform', 'lognormal']),
                                           nperc=st.integers(1, 5), axis=gen.choice(None, 0, 1, 2), negative=gen.choice(False, False, True), seed=gen.seeds)),
        check_axis, 500, rule='several dimensions (with more than one element)'),
]
