"""Kernel distributions"""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, chi2_test, close, ensure, equal, kernel_cdf_1d, kernel_marginal_cdf, ks_test, order_test, raises, warm   # noqa

ID = 'C13'
CLASSES = ['Gaussian', 'Box', 'Parabola', 'Triweight']


def dist_of(name):
    from kalepy import kernels
    return getattr(kernels, name)


def check_evaluate(case):
    """Values, support, and grids"""
    dist = dist_of(case['name'])
    name = case['name'].lower()
    ndim, num = case['ndim'], case['num']
    rng = np.random.RandomState(case['seed'])
    yy = rng.normal(size=(ndim, num))
    yy = yy / np.linalg.norm(yy, axis=0) * rng.choice([0.0, 0.3, 0.9, 0.999, 1.001, 1.3, 3.0], size=num)
    norm = ref.kernel_norm(name, ndim)
    y2 = (yy ** 2).sum(axis=0)
    want = ref.kernel_raw(name, y2) / norm
    arg = yy[0] if (ndim == 1 and case['flat']) else yy
    if case['aslist']:
        arg = arg.tolist()
    close(dist.evaluate(arg), want, 1e-9, 1e-15, '%s.evaluate' % case['name'])
    close(dist.evaluate(arg), dist.evaluate(np.negative(arg)), 1e-12, 0, '%s is not symmetric' % case['name'])
    close(dist.norm(ndim), norm, 1e-10, 0, '%s.norm(%d)' % (case['name'], ndim))
    inside = dist.inside(np.asarray(arg))
    ensure(np.shape(inside) == (num,) and np.asarray(inside).dtype == bool, '%s.inside: shape %s', case['name'], np.shape(inside))
    if name == 'gaussian':
        ensure(np.all(inside), 'Gaussian.inside')
    else:
        equal(inside, y2 < 1.0, '%s.inside' % case['name'])
    ensure(dist().FINITE == (name != 'gaussian'), '%s.FINITE', case['name'])
    if ndim <= 3:
        edges = [np.sort(rng.uniform(-1.5, 1.5, nn)) for nn in case['nums'][:ndim]]
        if case['seed'] % 3 == 0:
            # (in any order)
            edges = [rng.permutation(ee) for ee in edges]
        got = dist.grid(edges)
        ensure(np.shape(got) == tuple(len(ee) for ee in edges), '%s.grid has shape %s', case['name'], np.shape(got))
        pts = np.array(list(itertools.product(*edges))).T
        close(np.ravel(got), ref.kernel_raw(name, (pts ** 2).sum(axis=0)) / norm, 1e-9, 1e-15, '%s.grid' % case['name'])
    return True, [case['name'], 'D=%d' % ndim]


def check_sample(case):
    """Samples of the kernel follow it:  components, directions and radii"""
    from scipy import stats
    dist = dist_of(case['name'])
    name = case['name'].lower()
    ndim = case['ndim']
    num = case['num'] if ndim <= 2 else min(case['num'], 60000)
    if case['num'] == 400000 and ndim == 1:
        num = 2000000
    np.random.seed(case['seed'])
    kw = dict(ndim=ndim) if (ndim > 1 or case['flat']) else {}
    samps = dist.sample(num, **kw)
    ensure(np.shape(samps) == ((num,) if ndim == 1 else (ndim, num)), '%s.sample: shape %s', case['name'], np.shape(samps))
    ss = dist.sample(num, ndim=ndim, squeeze=False)
    ensure(np.shape(ss) == (ndim, num), '%s.sample(squeeze=False): shape %s', case['name'], np.shape(ss))
    ensure(not np.array_equal(ss, np.reshape(samps, (ndim, num))), 'samples are repeated')
    for vals in (ss, np.reshape(samps, (ndim, num))):
        y2 = (vals ** 2).sum(axis=0)
        if name == 'gaussian':
            ks_test(y2, lambda xx: stats.chi2.cdf(xx, ndim), 'radii of %s.sample' % case['name'])
        else:
            ensure(np.all(y2 <= 1 + 1e-9), '%s.sample outside of its support', case['name'])
            order = dict(box=0, parabola=1, triweight=3)[name]
            ks_test(y2, lambda xx: stats.beta.cdf(np.clip(xx, 0, 1), ndim / 2.0, order + 1), 'radii of %s.sample' % case['name'])
        rng = np.random.RandomState(case['seed'])
        for ii in range(ndim + (2 if ndim > 1 else 0)):
            aa = np.eye(ndim)[ii] if ii < ndim else rng.normal(size=ndim)
            aa = aa / np.linalg.norm(aa)
            along = '%s.sample along %s' % (case['name'], aa.round(2).tolist())
            if ndim == 1:
                ks_test(vals[0], lambda xx: kernel_cdf_1d(name, xx), along)
            else:
                ks_test(aa @ vals, lambda xx: kernel_marginal_cdf(name, ndim, xx), along)
            order_test((aa @ vals)[:200000], along)
            bins = np.linspace(-1, 1, 52) * (4.0 if name == 'gaussian' else 1.0)
            bins[0], bins[-1] = -np.inf, np.inf
            chi2_test(np.histogram(aa @ vals, bins=bins)[0], np.diff(kernel_marginal_cdf(name, ndim, bins)), along)
        if ndim > 1:
            # orthants are equally likely, whether near or far from the center
            orth = (vals > 0).T @ (2 ** np.arange(ndim))
            far = y2 > np.median(y2)
            chi2_test(np.bincount(orth + far * 2 ** ndim, minlength=2 ** (ndim + 1)), np.ones(2 ** (ndim + 1)), 'orthants of %s.sample' % case['name'])
    return True, [case['name'], 'D=%d' % ndim]


def check_lookup(case):
    """Choosing kernels by name (in any case), or class; everything else is rejected"""
    import kalepy as kale
    from kalepy import kernels
    word = case['word']
    names = dict(gaussian='Gaussian', box='Box', parabola='Parabola', epanechnikov='Parabola', triweight='Triweight')
    data = np.array([0.0, 1.0, 3.0, 4.5, 5.0])
    pts = np.linspace(-1, 6, 23)

    def dens(kern):
        return kale.KDE(data, bandwidth=0.5, kernel=kern).density(pts)[1]
    if word.strip().lower() in names:
        cls = getattr(kernels, names[word.strip().lower()])
        ensure(kernels.get_distribution_class(word) is cls, 'get_distribution_class(%r)', word)
        ensure(kernels.get_distribution_class(cls) is cls, 'get_distribution_class(%s)', cls)
        ensure(np.array_equal(dens(word), dens(cls)), 'kernel given by name %r or class', word)
        ensure(cls.name() == names[word.strip().lower()], 'name %s', cls.name())
        return True, ['known']
    ensure(raises(lambda: kernels.get_distribution_class(word), ValueError), 'get_distribution_class(%r) was accepted', word)
    ensure(raises(lambda: kale.KDE(data, kernel=word), ValueError), 'kernel=%r was accepted', word)
    ensure(kernels.get_distribution_class(None) is kernels.Gaussian, 'default kernel')
    return False, ['unknown']


def spell(name):
    return st.tuples(st.lists(st.booleans(), min_size=len(name), max_size=len(name)), gen.choice('', ' ', '  ', '\t'), gen.choice('', ' ', '\n')).map(
        lambda tt: tt[1] + ''.join(cc.upper() if up else cc for cc, up in zip(name, tt[0])) + tt[2])


# (almost) the name of a kernel, with something before, within or after
NEARLY = st.builds(
    lambda name, other, where, at: other + name if where == 0 else name + other if where == 1 else name[:at] + other + name[at:] if where == 2 else name[:-1 - at % (len(name) - 1)],
    st.sampled_from(['gaussian', 'box', 'Parabola', 'epanechnikov', 'Triweight']), gen.choice(' ', '-', '_', '.', 'x', ' kernel', 's', 'the ', ' box', '2', '\n\n'),
    st.integers(0, 3), st.integers(1, 6))


SUBS = [
    Sub('evaluate', st.fixed_dictionaries(dict(name=st.sampled_from(CLASSES), ndim=st.integers(1, 6), num=st.integers(1, 40), seed=gen.seeds,
                                               flat=st.booleans(), aslist=st.booleans(), nums=st.lists(st.integers(1, 8), min_size=3, max_size=3))),
        check_evaluate, 500, rule='each case'),
    Sub('sample', st.fixed_dictionaries(dict(name=st.sampled_from(CLASSES), ndim=st.integers(1, 6), num=gen.choice(2000, 20000, 20000, 400000), seed=gen.seeds,
                                             flat=st.booleans())), check_sample, 150, rule='each case'),
    Sub('lookup', st.fixed_dictionaries(dict(word=st.one_of(
        *[spell(nn) for nn in ['gaussian', 'box', 'parabola', 'epanechnikov', 'triweight']],
        st.text(max_size=8), NEARLY, st.sampled_from(['gauss', 'tophat', 'Boxes', 'uniform', 'triangle', '', 'tri weight', 'None'])))),
        check_lookup, 400, rule='the name is that of a kernel'),
]
