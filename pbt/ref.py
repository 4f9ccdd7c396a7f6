"""Reference models: direct (slow, vectorised only by numpy) statements of what is computed."""
import math

import numpy as np


def kernel_name(kernel):
    if kernel is None:
        return 'gaussian'
    name = kernel.lower().strip()
    return 'parabola' if name == 'epanechnikov' else name


def ball_volume(dd):
    return math.pi ** (dd / 2.0) / math.gamma(dd / 2.0 + 1.0)


def kernel_norm(name, dd):
    """Integral of the un-normalized kernel, over all space"""
    if name == 'gaussian':
        return (2 * math.pi) ** (dd / 2.0)
    vol = ball_volume(dd)
    if name == 'box':
        return vol
    if name == 'parabola':
        return vol * (1.0 - dd / (dd + 2.0))
    if name == 'triweight':
        # d V_d int_0^1 r^(d-1) (1 - r^2)^3 dr, expanding the cube
        return dd * vol * (1.0/dd - 3.0/(dd + 2) + 3.0/(dd + 4) - 1.0/(dd + 6))
    raise ValueError(name)


def kernel_raw(name, y2):
    if name == 'gaussian':
        return np.exp(-0.5 * y2)
    if name == 'box':
        return (y2 <= 1.0) * 1.0
    if name == 'parabola':
        return np.where(y2 < 1.0, 1.0 - y2, 0.0)
    if name == 'triweight':
        return np.where(y2 < 1.0, (1.0 - np.minimum(y2, 1.0)) ** 3, 0.0)
    raise ValueError(name)


def neff(ndata, weights):
    if weights is None:
        return float(ndata)
    ww = np.asarray(weights, float)
    return ww.sum() ** 2 / (ww ** 2).sum()


def covariance(data, weights, cov=None):
    if cov is not None:
        return np.atleast_2d(cov)
    dd, nn = data.shape
    ww = np.ones(nn) if weights is None else np.asarray(weights, float)
    v1, v2 = ww.sum(), (ww ** 2).sum()
    mean = (data * ww).sum(axis=1) / v1
    dev = data - mean[:, None]
    return (dev * ww) @ dev.T / (v1 - v2 / v1)


def bandwidth_matrix(ndim, neff_, bw, diagonal=False, rescale=None):
    def one(val):
        if val is None or val == 'scott':
            return neff_ ** (-1.0 / (ndim + 4))
        if val == 'silverman':
            return (neff_ * (ndim + 2.0) / 4.0) ** (-1.0 / (ndim + 4))
        return float(val)

    if bw is None or isinstance(bw, str) or np.size(bw) == 1:
        val = bw if (bw is None or isinstance(bw, str)) else np.ravel(np.asarray(bw, dtype=object))[0]
        mat = np.full((ndim, ndim), one(val))
        if diagonal:
            mat = np.diag(np.diag(mat))
    else:
        arr = np.asarray(bw, dtype=object)
        if arr.ndim == 1:
            mat = np.diag([one(vv) for vv in arr])
        else:
            mat = np.array([[one(vv) for vv in row] for row in arr])
    if rescale is not None:
        mat = mat * rescale
    return mat


def matrix(data, weights, bw, cov=None, diagonal=False, rescale=None):
    bwm = bandwidth_matrix(data.shape[0], neff(data.shape[1], weights), bw, diagonal, rescale)
    return covariance(data, weights, cov) * bwm ** 2


def density(points, data, weights, mat, name, slack=1e-7):
    """Weighted sum of kernels -> (lo, hi) envelope of values (they differ for the edge of the box kernel only)"""
    dd = data.shape[0]
    sig = np.sqrt(np.diag(mat))
    corr = mat / np.outer(sig, sig)
    chol = np.linalg.cholesky(corr)
    norm = kernel_norm(name, dd) * np.prod(sig) * np.prod(np.diag(chol))
    lo = np.zeros(points.shape[1])
    hi = np.zeros(points.shape[1])
    step = max(1, int(2e6 // max(data.shape[1], 1)))
    for beg in range(0, points.shape[1], step):
        pts = points[:, beg:beg + step]
        diff = (pts[:, :, None] - data[:, None, :]) / sig[:, None, None]
        zz = np.linalg.solve(chol, diff.reshape(dd, -1))
        y2 = (zz ** 2).sum(axis=0).reshape(pts.shape[1], data.shape[1])
        if name == 'box':
            lo[beg:beg + step] = (y2 <= 1.0 - slack) @ weights
            hi[beg:beg + step] = (y2 <= 1.0 + slack) @ weights
        else:
            lo[beg:beg + step] = hi[beg:beg + step] = kernel_raw(name, y2) @ weights
    return lo / norm, hi / norm


def peak(weights, mat, name):
    """Largest value that the density could have"""
    return np.sum(weights) * 1.0 / (kernel_norm(name, mat.shape[0]) * np.sqrt(np.linalg.det(mat)))


def reflected(points, data, weights, mat, name, bounds, slack=1e-7):
    """Density with mirror images about each boundary, zero outside.  `bounds`: (lo, hi) in each dimension"""
    lo, hi = density(points, data, weights, mat, name, slack)
    good = np.ones(points.shape[1], dtype=bool)
    for ii, bnd in enumerate(bounds):
        for loc in bnd:
            if not np.isfinite(loc):
                continue
            img = np.array(data)
            img[ii] = 2 * loc - img[ii]
            l1, h1 = density(points, img, weights, mat, name, slack)
            lo, hi = lo + l1, hi + h1
        good &= (points[ii] >= bnd[0]) & (points[ii] <= bnd[1])
    return np.where(good, lo, 0.0), np.where(good, hi, 0.0)


def weighted_quantile(values, weights, percs):
    """Linear interpolation at cumulative weight of mid-points"""
    values = np.asarray(values, float)
    idx = np.argsort(values, kind='stable')
    vv = values[idx]
    ww = np.asarray(weights, float)[idx]
    cc = (np.cumsum(ww) - 0.5 * ww) / ww.sum()
    return np.interp(percs, cc, vv)
