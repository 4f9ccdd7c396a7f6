"""Shared helpers of the checks"""
import numpy as np

from .. import gen, ref
from ..core import Skip, Sub, Violation, ensure   # noqa


def warm():
    """Compile the kernels once, before worker processes are forked"""
    import kalepy as kale
    for kern in gen.KERNELS:
        kale.KDE(np.arange(6.0), bandwidth=0.5, kernel=kern).density(np.array([0.5, 1.0]))


def close(got, want, rtol=1e-9, atol=0.0, what=''):
    got, want = np.asarray(got), np.asarray(want)
    ensure(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    bad = ~(np.abs(got - want) <= atol + rtol * np.abs(want))
    same_inf = (got == want)
    bad &= ~same_inf
    if np.any(bad):
        ii = np.unravel_index(np.argmax(bad), bad.shape) if bad.ndim else ()
        raise Violation('%s: got %r, expected %r (entry %s; %d of %d differ)' % (
            what, got[ii].item() if bad.ndim else got.item(), want[ii].item() if bad.ndim else want.item(), ii,
            np.count_nonzero(bad), bad.size))


def equal(got, want, what=''):
    got, want = np.asarray(got), np.asarray(want)
    ensure(got.shape == want.shape, '%s: shape %s, expected %s', what, got.shape, want.shape)
    ensure(np.array_equal(got, want), '%s: got %s, expected %s', what, str(got)[:150], str(want)[:150])


def within(got, lo, hi, rtol, atol, what=''):
    got = np.asarray(got)
    ensure(got.shape == lo.shape, '%s: shape %s, expected %s', what, got.shape, lo.shape)
    ensure(np.all(np.isfinite(got)), '%s: values that are not finite', what)
    bad = (got < lo * (1 - rtol) - atol) | (got > hi * (1 + rtol) + atol)
    if np.any(bad):
        ii = np.argmax(bad)
        raise Violation('%s: got %r, expected within [%r, %r] (entry %d; %d of %d differ)' % (
            what, got.flat[ii], lo.flat[ii], hi.flat[ii], ii, np.count_nonzero(bad), bad.size))


def same_inputs(before, after, what):
    for nn, bb in before.items():
        ensure(repr_exact(bb) == repr_exact(after[nn]), 'argument `%s` was changed by %s', nn, what)


def repr_exact(obj):
    if isinstance(obj, np.ndarray):
        return ('arr', obj.shape, str(obj.dtype), obj.tobytes())
    if isinstance(obj, dict):
        return tuple((kk, repr_exact(vv)) for kk, vv in obj.items())
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(repr_exact(vv) for vv in obj))
    return repr(obj)


def raises(func, *kinds):
    """Whether an exception is raised (of any of the given kinds)"""
    try:
        func()
    except kinds or (Exception,):
        return True
    return False


# ---------------------------------------------------------------- goodness of fit

P_LIMIT = 1e-10


def chi2_test(counts, probs, what, limit=P_LIMIT):
    """Multinomial counts against probabilities (small cells are combined)"""
    from scipy import stats
    counts = np.asarray(counts, float).ravel()
    probs = np.asarray(probs, float).ravel()
    tot = counts.sum()
    ensure(not np.any((probs <= 0) & (counts > 0)), '%s: values where the probability is zero', what)
    counts, probs = counts[probs > 0], probs[probs > 0]
    order = np.argsort(probs)
    cc, pp = counts[order], probs[order] / probs.sum()
    # combine the least probable cells
    nsmall = int(np.searchsorted(pp * tot, 12.0))
    if nsmall:
        if pp[:nsmall].sum() * tot < 12.0:
            nsmall = min(nsmall + 1, cc.size)
        cc = np.concatenate([[cc[:nsmall].sum()], cc[nsmall:]])
        pp = np.concatenate([[pp[:nsmall].sum()], pp[nsmall:]])
    if cc.size < 2:
        return False
    chi = np.sum((cc - pp*tot) ** 2 / (pp * tot))
    pv = stats.chi2.sf(chi, cc.size - 1)
    ensure(pv > limit, '%s: chi-squared %.4g for %d cells, p=%.2g', what, chi, cc.size, pv)
    return True


def ks_test(vals, cdf, what, limit=P_LIMIT):
    """Kolmogorov-Smirnov against a CDF (callable on sorted values), with the asymptotic (conservative) p-value"""
    from scipy import special
    vals = np.sort(vals)
    nn = vals.size
    ff = cdf(vals)
    dd = max(np.max(np.arange(1, nn + 1) / nn - ff), np.max(ff - np.arange(nn) / nn))
    pv = special.kolmogorov(np.sqrt(nn) * dd)
    ensure(pv > limit, '%s: KS distance %.4g for %d values, p=%.2g', what, dd, nn, pv)
    # independent values are never this close to their expectation (a probability of 5e-13)
    ensure(nn < 100 or np.sqrt(nn) * dd > 0.2, '%s: KS distance of only %.4g for %d values', what, dd, nn)
    return dd


def order_test(vals, what, limit=7.0):
    """Independent values: neither related to their position, nor to the previous value"""
    vals = np.asarray(vals)
    nn = vals.size
    rank = np.empty(nn)
    rank[np.argsort(vals, kind='stable')] = np.arange(nn)
    rank -= rank.mean()
    if nn < 100 or vals.min() == vals.max():
        return
    pos = np.arange(nn) - 0.5 * (nn - 1)
    norm = np.sum(rank ** 2)
    zz = np.sqrt(nn) * np.array([np.sum(rank * pos) / norm, np.sum(rank[1:] * rank[:-1]) / norm])
    ensure(np.all(np.abs(zz) < limit), '%s: correlated with their position (%.1f sigma), or the previous value (%.1f sigma)', what, *zz)


def kernel_cdf_1d(name, xx):
    """CDF of the one-dimensional kernel"""
    from scipy import stats
    if name == 'gaussian':
        return stats.norm.cdf(xx)
    xx = np.clip(xx, -1, 1)
    if name == 'box':
        return 0.5 * (xx + 1)
    if name == 'parabola':
        return 0.5 + 0.75 * (xx - xx**3 / 3)
    if name == 'triweight':
        return 0.5 + 35.0/32.0 * (xx - xx**3 + 0.6*xx**5 - xx**7/7)
    raise ValueError(name)


def kernel_marginal_cdf(name, dd, xx):
    """CDF of one component of the D-dimensional kernel (which are spherical `beta` kernels)"""
    from scipy import stats
    if name == 'gaussian':
        return stats.norm.cdf(xx)
    order = dict(box=0, parabola=1, triweight=3)[name]
    # marginal density is proportional to (1 - x^2)^(order + (D-1)/2)
    aa = order + (dd - 1) / 2.0 + 1.0
    return stats.beta.cdf(0.5 * (np.clip(xx, -1, 1) + 1), aa, aa)


def mixture_cdf_1d(name, data, weights, width):
    ww = np.asarray(weights, float) / np.sum(weights)

    def func(xx):
        out = np.zeros(np.shape(xx))
        for dd, wi in zip(data, ww):
            out += wi * kernel_cdf_1d(name, (xx - dd) / width)
        return out
    return func
