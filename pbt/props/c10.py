"""Resampling: shapes, kept parameters, support, and repeatability"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, ensure, repr_exact, warm   # noqa

ID = 'C10'
SIZES = st.one_of(st.none(), st.integers(0, 60), st.integers(1, 3), gen.choice(7.0, 23.9, 400, 10001, 12345))


def want_size(size, ndata):
    return ndata if size is None else int(size)


def nearest_ok(samps, data, wts, mat, keep, finite, what):
    """Every sample belongs to a datum (of non-zero weight): kept parameters are exactly those of the datum,
    and with kernels of finite support the others are within the kernel of that same datum"""
    ndim = data.shape[0]
    used = wts > 0
    rest = [dd for dd in range(ndim) if dd not in keep]
    data = data[:, used]
    match = np.ones((samps.shape[1], data.shape[1]), dtype=bool)
    for kk in keep:
        match &= (samps[kk][:, None] == data[kk][None, :])
    ensure(np.all(match.any(axis=1)), '%s: kept parameters are not those of any datum', what)
    if finite and rest:
        sub = mat[np.ix_(rest, rest)]
        sig = np.sqrt(np.diag(sub))
        chol = np.linalg.cholesky(sub / np.outer(sig, sig))
        diff = (samps[rest][:, :, None] - data[rest][:, None, :]) / sig[:, None, None]
        y2 = (np.linalg.solve(chol, diff.reshape(len(rest), -1)) ** 2).sum(axis=0).reshape(match.shape)
        best = np.where(match, y2, np.inf).min(axis=1)
        ensure(np.all(best <= 1 + 1e-6), '%s: samples outside of the support of every kernel (distance %s)', what, np.sqrt(best.max()) if best.size else 0)


def check_contract(case):
    su = gen.Setup(case['kde'])
    kde = su.kde(flat=case['flat'])
    keep = sorted(set(kk for kk in case['keep'] if kk < su.ndim))
    if case['keepform'] == 'none' or not keep:
        arg, keep = [None, False][case['seed'] % 2], []
    elif case['keepform'] == 'true':
        arg, keep = True, list(range(su.ndim))
    elif case['keepform'] == 'int':
        keep = keep[:1]
        arg = keep[0]
    elif case['keepform'] == 'negative':
        arg = [kk - su.ndim for kk in keep]
    elif case['keepform'] == 'array':
        arg = np.array(keep)
    else:
        arg = tuple(keep[::-1])
    size = case['size']
    before = (repr_exact(kde.dataset), repr_exact(kde.weights), repr_exact(kde.kernel.matrix), repr_exact(arg))
    np.random.seed(case['seed'])
    kw = dict(size=size, keep=arg)
    if not case['squeeze']:
        kw['squeeze'] = False
    samps = kde.resample(**kw)
    num = want_size(size, su.ndata)
    shape = (num,) if (su.ndim == 1 and case['squeeze']) else (su.ndim, num)
    ensure(np.shape(samps) == shape, 'samples have shape %s, expected %s', np.shape(samps), shape)
    ensure(isinstance(samps, np.ndarray) and samps.dtype.kind == 'f', 'type of samples %s', samps.dtype)
    ensure(np.all(np.isfinite(samps)), 'samples are not finite')
    flat = np.reshape(samps, (su.ndim, num))
    nearest_ok(flat, su.data, su.wts, su.matrix, keep, su.finite, 'resample(keep=%s)' % (arg,))
    if not su.finite and keep != list(range(su.ndim)) and num:
        sub = [dd for dd in range(su.ndim) if dd not in keep]
        for dd in sub:
            ensure(np.all((flat[dd] > su.data[dd].min() - 9 * su.widths[dd]) & (flat[dd] < su.data[dd].max() + 9 * su.widths[dd])),
                   'samples far from the data')
            ensure(not np.any(np.isin(flat[dd], su.data[dd])), 'samples (of a parameter not kept) are at the data')
    ensure(before == (repr_exact(kde.dataset), repr_exact(kde.weights), repr_exact(kde.kernel.matrix), repr_exact(arg)), 'resample changed its inputs')

    # repeatable, for a given state of the generator; otherwise independent
    nxt = kde.resample(**kw)
    np.random.seed(case['seed'])
    again = kde.resample(**kw)
    ensure(np.array_equal(again, samps), 'samples are not repeatable with a given seed')
    if num > 3 and len(keep) < su.ndim:
        ensure(not np.array_equal(nxt, samps), 'two calls returned the same samples')
    # (the same for a new instance)
    np.random.seed(case['seed'])
    other = su.kde(flat=case['flat']).resample(**kw)
    ensure(np.array_equal(other, samps), 'samples depend on previous calls')
    return num > 0, su.labels() + ['keep=%d/%d' % (len(keep), su.ndim), 'size=%s' % ('None' if size is None else min(num, 10))]


def check_reflect(case):
    """With reflecting boundaries: within the boundaries, and the support of the kernels (and their images)"""
    su = gen.Setup(case['kde'])
    refl, bounds = [], []
    for dd in range(su.ndim):
        arg, lo, hi = gen.make_reflect_dim(case['dims'][dd], su.data[dd], su.widths[dd])
        if hi - lo < 0.5 * su.widths[dd]:
            raise gen.Skip()
        refl.append(arg)
        bounds.append((lo, hi))
    free = [dd for dd in range(su.ndim) if refl[dd] is None]
    keep = [free[0]] if (case['keep'] and free) else []
    where = case['where']
    arg = refl
    if su.ndim == 1 and case['flat'] and refl[0] is not None and refl[0] is not True:
        arg = refl[0]
    init = arg if where == 'init' else ([None] * su.ndim if where == 'both' else None)
    kde = su.kde(flat=case['flat'], reflect=init, **({} if case['chunk'] is None else dict(chunk=case['chunk'])))
    kw = dict(keep=keep or None, size=case['size'])
    if where != 'init':
        kw['reflect'] = arg
    before = repr_exact(arg)
    np.random.seed(case['seed'])
    samps = kde.resample(squeeze=case['squeeze'], **kw)
    ensure(before == repr_exact(arg), 'the `reflect` argument was changed')
    num = want_size(case['size'], su.ndata)
    shape = (num,) if (su.ndim == 1 and case['squeeze']) else (su.ndim, num)
    ensure(np.shape(samps) == shape, 'samples have shape %s, expected %s', np.shape(samps), shape)
    flat = np.reshape(samps, (su.ndim, num))
    ensure(np.all(np.isfinite(flat)), 'samples are not finite')
    for dd in range(su.ndim):
        # (automatic boundaries are padded by 1e-8, relatively)
        pad = 1e-7 * (np.abs(su.data[dd]).max() + su.widths[dd])
        ensure(np.all((flat[dd] >= bounds[dd][0] - pad) & (flat[dd] <= bounds[dd][1] + pad)),
               'samples outside of the reflecting boundaries %s of dimension %d', bounds[dd], dd)
    data, wts = [su.data], [su.wts]
    for dd in range(su.ndim):
        for loc in bounds[dd]:
            if np.isfinite(loc):
                img = np.array(su.data)
                img[dd] = 2 * loc - img[dd]
                data.append(img)
                wts.append(su.wts)
    slack = max([1e-7 * (1 + np.abs(su.data[dd]).max() / su.widths[dd]) for dd in range(su.ndim)])
    if slack < 1e-4:
        nearest_ok(flat / (1 + 0.0), np.concatenate(data, axis=1), np.concatenate(wts), su.matrix * (1 + 10 * slack), keep, su.finite, 'reflected samples')
    np.random.seed(case['seed'])
    ensure(np.array_equal(kde.resample(squeeze=case['squeeze'], **kw), samps), 'samples are not repeatable with a given seed')
    if where == 'init':
        # disabled for one call
        np.random.seed(case['seed'])
        plain = kde.resample(reflect=False, squeeze=False, size=case['size'])
        np.random.seed(case['seed'])
        none = su.kde(flat=case['flat']).resample(squeeze=False, size=case['size'])
        ensure(np.array_equal(plain, none), 'reflect=False, relative to resampling without boundaries')
    return num > 0 and any(rr is not None for rr in refl), su.labels() + ['where=' + where, 'keep=%s' % bool(keep)]


keeps = st.lists(st.integers(0, 3), min_size=1, max_size=3)
SUBS = [
    Sub('contract', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 4, 1, 30, 200), flat=st.booleans(), squeeze=gen.choice(True, True, False), keep=keeps,
                                               keepform=gen.choice('none', 'none', 'true', 'int', 'negative', 'array', 'tuple'), size=SIZES,
                                               seed=gen.seeds)), check_contract, 600, rule='at least one sample'),
    Sub('reflect', st.fixed_dictionaries(dict(kde=gen.kde_spec(1, 3, 1, 30, 200), flat=st.booleans(), squeeze=gen.choice(True, True, False),
                                              dims=st.lists(gen.reflect_dim_spec(), min_size=3, max_size=3), keep=st.booleans(),
                                              where=gen.choice('init', 'call', 'both'), chunk=gen.choice(None, None, 7, 20, 64.0), size=SIZES, seed=gen.seeds)),
        check_reflect, 500, rule='at least one sample, and boundary'),
]
