"""Strategies (JSON-able cases) and their deterministic expansion into inputs of kalepy."""
import numpy as np
from hypothesis import strategies as st

from .core import Skip

KERNELS = ['gaussian', 'box', 'parabola', 'triweight']
seeds = st.integers(0, 10**6)


def choice(*args):
    return st.sampled_from(list(args))


# ---------------------------------------------------------------- data

def data_spec(dmin=1, dmax=4, nmin=1, nmax=40, big=False, dists=None, offsets=True, scales=True):
    """(`nmin` is in addition to the number of dimensions + 2)"""
    if dists is None:
        dists = ['normal', 'uniform', 'clusters', 'skew', 'lattice', 'heavy']
    sizes = st.integers(nmin, nmax)
    if big:
        sizes = st.one_of(sizes, sizes, sizes, sizes, st.integers(nmax, big))

    @st.composite
    def build(draw):
        dd = draw(st.integers(dmin, dmax))
        spec = dict(d=dd, n=draw(sizes) + dd + 2, seed=draw(seeds), dist=draw(st.sampled_from(dists)),
                    mix=draw(st.booleans()) if dd > 1 else False)
        spec['scale'] = draw(st.lists(st.integers(-2, 2), min_size=dd, max_size=dd)) if scales else [0]*dd
        spec['shift'] = draw(st.lists(choice(0, 0, -3, 7, 1000, -250), min_size=dd, max_size=dd)) if offsets else [0]*dd
        spec['unit'] = draw(choice(0, 0, 0, 0, -6, 6, -12, 10)) if scales else 0
        return spec
    return build()


def make_data(spec):
    """(D, N) array, with a covariance matrix that isn't (nearly) singular (otherwise outside of the domain)"""
    rng = np.random.RandomState(spec['seed'])
    dd, nn = spec['d'], spec['n']
    kind = spec['dist']
    if kind == 'normal':
        xx = rng.normal(size=(dd, nn))
    elif kind == 'uniform':
        xx = rng.uniform(-1, 1, size=(dd, nn))
    elif kind == 'clusters':
        xx = rng.normal(size=(dd, nn)) * 0.2 + rng.choice([-2.0, 0.0, 3.0], size=(dd, nn))
    elif kind == 'skew':
        xx = rng.exponential(size=(dd, nn)) + 0.1
    elif kind == 'lattice':
        xx = rng.randint(-4, 5, size=(dd, nn)) * 0.5
    elif kind == 'heavy':
        xx = rng.standard_t(2.5, size=(dd, nn))
    else:
        raise ValueError(kind)
    if spec.get('mix'):
        low = np.tril(rng.uniform(-0.8, 0.8, size=(dd, dd)), -1) + np.eye(dd)
        xx = low @ xx
    xx = xx * (10.0 ** np.array(spec['scale']))[:, None]
    xx = xx + (np.array(spec['shift']) * 10.0 ** np.array(spec['scale']))[:, None]
    xx = xx * 10.0 ** spec.get('unit', 0)
    check_cov(np.atleast_2d(np.cov(xx)))
    return xx


def corr_cond(mat):
    sig = np.sqrt(np.diag(mat))
    if not np.all(np.isfinite(mat)) or np.any(sig <= 0):
        return np.inf
    return np.linalg.cond(mat / np.outer(sig, sig))


def check_var(data, cov):
    """All data of a dimension (with any weight) are equal, to rounding"""
    if not np.all(np.diag(cov) > 1e-14 * np.max(np.abs(data), axis=1) ** 2):
        raise Skip()


def check_cov(mat, limit=1e5):
    if not corr_cond(mat) < limit:
        raise Skip()
    return mat


# ---------------------------------------------------------------- weights

WKINDS = ['none', 'none', 'const', 'uniform', 'lognormal', 'zeros', 'concentrated', 'ints', 'bytes', 'sparse']


def weight_spec(kinds=None):
    return st.fixed_dictionaries(dict(kind=st.sampled_from(kinds or WKINDS), seed=seeds, scale=choice(1.0, 1.0, 1e-3, 250.0, 1e-14, 1e11, 'total', 'mean', 'max')))


def make_weights(spec, nn):
    rng = np.random.RandomState(spec['seed'] + 77)
    kind = spec['kind']
    if kind == 'none':
        return None
    if kind == 'const':
        ww = np.ones(nn)
    elif kind == 'uniform':
        ww = rng.uniform(0.1, 2.0, nn)
    elif kind == 'lognormal':
        ww = rng.lognormal(0, 1.5, nn)
    elif kind == 'zeros':
        ww = rng.uniform(0.2, 1.0, nn)
        ww[rng.permutation(nn)[:nn // 3]] = 0.0
    elif kind == 'sparse':
        ww = rng.uniform(0.2, 1.0, nn)
        ww[rng.permutation(nn)[:(2 * nn) // 3]] = 0.0
    elif kind == 'concentrated':
        ww = np.full(nn, 0.05)
        ww[rng.randint(nn)] = nn / 2.0
    elif kind == 'ints':
        return rng.randint(1, 5, nn)
    elif kind == 'bytes':
        # small type of integers, that doesn't hold the sum of the weights
        return rng.randint(0, 128, nn).astype(np.int8) | 1
    else:
        raise ValueError(kind)
    if spec['scale'] == 'max':
        return ww / ww.max()
    if kind == 'const' and spec['scale'] in ('total', 'mean'):
        return ww / nn if spec['scale'] == 'total' else ww
    if spec['scale'] in ('total', 'mean'):
        # the total is exactly one (or the number of data), in any order of summation
        ww = np.where(ww > 0, np.maximum(np.round(ww / ww.sum() * 2**24), 1.0), 0.0) / 2**24
        ww[np.argmax(ww)] += 1.0 - ww.sum()
        return ww * (nn if spec['scale'] == 'mean' else 1)
    return ww * spec['scale']


# ---------------------------------------------------------------- KDE settings

def bw_spec():
    return st.fixed_dictionaries(dict(
        kind=choice('none', 'str', 'scalar', 'scalar', 'int', 'one', 'vec', 'vec', 'mix', 'matrix'),
        name=choice('scott', 'silverman'),
        vals=st.lists(st.integers(2, 20), min_size=8, max_size=8),
        rho=choice(0.0, 0.3, 0.9), flavor=choice('array', 'list', 'tuple')))


def make_bw(spec, dd):
    """-> the argument for kalepy"""
    kind = spec['kind']
    vals = np.array(spec['vals'], float)[:dd] / 10.0

    def flav(xx):
        return dict(array=np.array, list=lambda vv: np.array(vv).tolist(), tuple=tuple)[spec['flavor']](xx)
    if kind == 'none':
        return None
    if kind == 'str':
        return spec['name']
    if kind == 'scalar':
        return float(vals[0])
    if kind == 'int':
        return 1
    if kind == 'one':
        return flav([vals[0]])
    if kind == 'vec':
        return flav(vals)
    if kind == 'mix':
        rv = [spec['name'] if (ii + spec['vals'][0]) % 2 else vv for ii, vv in enumerate(vals.tolist())]
        return rv if dd > 1 else rv[0]
    if kind == 'matrix':
        ii = np.arange(dd)
        # the (elementwise) square of this is positive definite, so also its (elementwise) product with a covariance
        mat = np.sqrt(np.outer(vals, vals) * spec['rho'] ** np.abs(ii[:, None] - ii[None, :]))
        if spec['flavor'] == 'list':
            return mat.tolist()
        return mat
    raise ValueError(kind)


def cov_spec():
    return st.fixed_dictionaries(dict(kind=choice('none', 'none', 'none', 'none', 'given', 'eye'), seed=seeds))


def make_cov(spec, data):
    if spec['kind'] == 'none':
        return None
    dd = data.shape[0]
    sig = np.std(data, axis=1)
    if spec['kind'] == 'eye':
        return np.diag(sig ** 2)
    rng = np.random.RandomState(spec['seed'])
    aa = np.tril(rng.uniform(-0.7, 0.7, size=(dd, dd)), -1) + np.eye(dd)
    aa = aa * sig[:, None]
    return aa @ aa.T


# How arrays are stored
LAYOUTS = ['plain', 'plain', 'plain', 'columns', 'strided', 'reversed', 'readonly', 'swapped']


def stored(arr, layout):
    """The same values, stored in another way"""
    arr = np.asarray(arr)
    if layout == 'columns':
        return np.asfortranarray(arr)
    if layout == 'strided':
        return np.repeat(np.repeat(arr, 2, axis=0), 3, axis=-1)[::2, ..., ::3] if arr.ndim > 1 else np.repeat(arr, 2)[::2]
    if layout == 'reversed':
        return np.flip(np.flip(arr).copy())
    if layout == 'readonly':
        arr = arr.copy()
        arr.setflags(write=False)
    if layout == 'swapped':
        return arr.astype(arr.dtype.newbyteorder('S'))
    return arr


def kde_spec(dmin=1, dmax=4, nmin=1, nmax=40, big=False, kernels=None, weights=None, bws=None, covs=True, **kw):
    """Everything needed to construct a KDE"""
    names = kernels or [None] + KERNELS + ['epanechnikov', 'Box', ' TriWeight ']
    return st.fixed_dictionaries(dict(
        data=data_spec(dmin, dmax, nmin, nmax, big, **kw), weights=weight_spec(weights), bw=bws or bw_spec(),
        cov=cov_spec() if covs else st.just(dict(kind='none', seed=0)), kernel=st.sampled_from(names),
        diagonal=choice(False, False, True), rescale=choice(None, None, None, None, None, None, 0.5, 1.7, 0.06, 25.0),
        layout=st.sampled_from(LAYOUTS)))


class Setup:
    """Inputs of one KDE, with the reference values of its smoothing matrix"""

    def __init__(self, spec):
        from . import ref
        self.spec = spec
        self.data = make_data(spec['data'])
        self.ndim, self.ndata = self.data.shape
        self.weights = make_weights(spec['weights'], self.ndata)
        self.bw = make_bw(spec['bw'], self.ndim)
        self.cov = make_cov(spec['cov'], self.data)
        self.kernel = spec['kernel']
        self.kname = ref.kernel_name(self.kernel)
        self.finite = (self.kname != 'gaussian')
        self.diagonal = spec['diagonal']
        self.rescale = spec['rescale']
        self.wts = np.ones(self.ndata) if self.weights is None else np.asarray(self.weights, float)
        self.neff = ref.neff(self.ndata, self.weights)
        self.matrix = ref.matrix(self.data, self.weights, self.bw, self.cov, self.diagonal, self.rescale)
        self.covariance = ref.covariance(self.data, self.weights, self.cov)
        check_cov(self.matrix)
        check_var(self.data, self.covariance)
        self.cond = corr_cond(self.matrix)

    def kwargs(self):
        kw = dict()
        if self.weights is not None:
            kw['weights'] = self.weights
        if self.bw is not None:
            kw['bandwidth'] = self.bw
        if self.cov is not None:
            kw['covariance'] = self.cov
        if self.kernel is not None:
            kw['kernel'] = self.kernel
        if self.diagonal:
            kw['diagonal'] = True
        if self.rescale is not None:
            kw['bw_rescale'] = self.rescale
        return kw

    def dataset(self, flat=True):
        """For one dimension the data are usually given as a 1D array"""
        data = stored(self.data, self.spec.get('layout'))
        if self.ndim == 1 and flat:
            return data[0]
        return data

    def kde(self, flat=True, **extra):
        import kalepy as kale
        kw = self.kwargs()
        kw.update(extra)
        return kale.KDE(self.dataset(flat), **kw)

    @property
    def widths(self):
        return np.sqrt(np.diag(self.matrix))

    def points(self, seed, mm, spread=1.0):
        """(D, M) points: near to data, at data, between, and (some) far outside"""
        rng = np.random.RandomState(seed + 13)
        idx = rng.randint(self.ndata, size=mm)
        chol = np.linalg.cholesky(self.matrix)
        pts = self.data[:, idx] + spread * chol @ rng.normal(size=(self.ndim, mm)) * rng.choice([0.0, 0.3, 0.3, 1.0, 3.0], size=mm)
        lo, hi = self.data.min(axis=1), self.data.max(axis=1)
        alt = rng.uniform(size=(self.ndim, mm)) * ((hi - lo) * 1.6)[:, None] + (lo - 0.3*(hi - lo))[:, None]
        sel = rng.uniform(size=mm) < 0.25
        pts[:, sel] = alt[:, sel]
        return pts

    def labels(self):
        rv = ['D=%d' % self.ndim, 'kernel=' + self.kname, 'bw=' + self.spec['bw']['kind'], 'w=' + self.spec['weights']['kind']]
        if self.ndata > 200:
            rv.append('N>200')
        return rv


# ---------------------------------------------------------------- reflection

def reflect_dim_spec():
    """Boundaries relative to the data of one dimension: kinds of each side, and distance in kernel widths"""
    return st.fixed_dictionaries(dict(lo=choice('none', 'out', 'out', 'in', 'true'), hi=choice('none', 'out', 'out', 'in', 'true'),
                                      dlo=st.integers(0, 20), dhi=st.integers(0, 20), snap=choice(None, None, None, 0, 0, 1, 0.0, -2)))


def make_reflect_dim(spec, xx, wid):
    """-> (argument, lo, hi) for one dimension;  None/+-inf if there is no boundary

    The data, `xx`, are shifted (in place) for the boundaries that are to be at special values (zero, one, integers).
    """
    arg, lo, hi = _reflect_dim(spec, xx, wid)
    snap = spec.get('snap')
    if snap is None or arg is None or arg is True:
        return arg, lo, hi
    numbers = [ii for ii in range(2) if arg[ii] is not None and arg[ii] is not True]
    if not numbers:
        return arg, lo, hi
    which = numbers[0]
    gap = hi - lo
    if not (abs(arg[which]) < 1e4 * wid and abs(snap) < 1e4 * wid):
        return arg, lo, hi
    xx += snap - arg[which]
    arg, lo, hi = _reflect_dim(spec, xx, wid)
    arg[which] = snap
    if which == 0:
        lo = snap
    else:
        hi = snap
    if np.isfinite(gap) and not abs((hi - lo) - gap) < 1e-6 * wid:
        raise Skip()
    return arg, lo, hi


def _reflect_dim(spec, xx, wid):
    lo = hi = None
    arg = [None, None]
    span = xx.max() - xx.min()
    if spec['lo'] == 'out':
        lo = xx.min() - wid * spec['dlo'] / 10.0
    elif spec['lo'] == 'in':
        lo = xx.min() + 0.2 * span * spec['dlo'] / 20.0
    if spec['hi'] == 'out':
        hi = xx.max() + wid * spec['dhi'] / 10.0
    elif spec['hi'] == 'in':
        hi = xx.max() - 0.2 * span * spec['dhi'] / 20.0
    arg = [lo, hi]
    if spec['lo'] == 'true':
        arg[0] = True
        lo = xx.min()
    if spec['hi'] == 'true':
        arg[1] = True
        hi = xx.max()
    if lo is None and hi is None:
        return None, -np.inf, np.inf
    if arg[0] is True and arg[1] is True:
        arg = True
    lo = -np.inf if lo is None else lo
    hi = np.inf if hi is None else hi
    return arg, lo, hi
