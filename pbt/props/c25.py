"""Results do not depend on what was done before, and nothing that was given is changed"""
import copy

import numpy as np
from hypothesis import strategies as st

from .. import gen, grids, ref
from .util import Sub, ensure, repr_exact, warm as _warm, within

ID = 'C25'


def warm():
    _warm()
    import matplotlib.pyplot as plt   # noqa
    import kalepy.plot   # noqa


OPS = ['density', 'density', 'density_grid', 'density_auto', 'pdf', 'params', 'params_auto', 'reflect', 'reflect_auto', 'cdf', 'resample', 'resample_keep', 'resample_reflect',
       'points', 'plot1d', 'plot2d', 'deepcopy', 'construct', 'fail']


def reflect_arg(su, seed):
    rng = np.random.RandomState(seed + 3)
    out = []
    for dd in range(su.ndim):
        xx, wid = su.data[dd], su.widths[dd]
        kind = rng.randint(4)
        lo, hi = xx.min() - wid * rng.uniform(0.1, 1.0), xx.max() + wid * rng.uniform(0.1, 1.0)
        out.append([None, [lo, None], [None, hi], [lo, hi]][kind])
    if all(oo is None for oo in out):
        out[0] = [su.data[0].min() - su.widths[0], None]
    if rng.randint(3) == 0:
        return True
    return out


def apply(op, kde, su):
    """-> (kde, result).  The random state is set before"""
    import kalepy as kale
    name, seed = op['op'], op['seed']
    np.random.seed(seed)
    rng = np.random.RandomState(seed)
    args = dict()
    # the arguments are checked for being unchanged
    out = None
    if name in ('density', 'pdf', 'reflect', 'cdf'):
        args['points'] = su.points(seed, op['m'])
        if su.ndim == 1 and seed % 2:
            args['points'] = args['points'][0]
    if name == 'density_grid':
        args['points'] = [np.sort(pp) for pp in su.points(seed, 5)]
    if name in ('reflect', 'reflect_auto', 'resample_reflect'):
        args['reflect'] = reflect_arg(su, seed)
    if name in ('params', 'params_auto'):
        pars = rng.permutation(su.ndim)[:rng.randint(1, su.ndim + 1)].tolist()
        if op.get('m') == 4:
            # the same parameters as other operations, in another order
            pars = np.roll(np.arange(su.ndim), seed).tolist()
        if name == 'params':
            args['points'] = su.points(seed, op['m'])[pars]
        args['params'] = pars if (len(pars) > 1 or seed % 2) else pars[0]
    if name == 'resample_keep':
        args['keep'] = int(rng.randint(su.ndim))
        if seed % 2:
            kk = rng.permutation(su.ndim)[:rng.randint(1, su.ndim + 1)]
            args['keep'] = np.where(rng.uniform(size=kk.size) < 0.4, kk - su.ndim, kk)
            if seed % 4 == 1:
                args['keep'] = args['keep'].tolist()
    before = repr_exact(args)
    if name == 'density':
        out = kde.density(args['points'])
    elif name == 'pdf':
        out = kde.pdf(args['points'])
    elif name == 'density_grid':
        out = kde.density(args['points'], grid=True) if su.ndim > 1 else kde.density(args['points'][0])
    elif name == 'density_auto':
        out = kde.density(probability=bool(seed % 2)) if su.ndim < 3 else None
    elif name == 'params':
        out = kde.density(args['points'], params=args['params'])
    elif name == 'params_auto':
        out = kde.density(params=args['params']) if np.size(args['params']) < 3 else None
    elif name == 'reflect':
        out = kde.density(args['points'], reflect=args['reflect'])
    elif name == 'reflect_auto':
        out = kde.density(reflect=args['reflect']) if su.ndim < 3 else None
    elif name == 'cdf':
        out = kde.cdf(args['points']) if su.ndim < 3 else None
    elif name == 'resample':
        out = kde.resample(op['m'])
    elif name == 'resample_keep':
        out = kde.resample(op['m'], keep=args['keep'], reflect=False)
    elif name == 'resample_reflect':
        out = kde.resample(op['m'], reflect=args['reflect'])
    elif name == 'points':
        out = kde.points if su.ndim < 3 else kde.extrema
    elif name in ('plot1d', 'plot2d'):
        import matplotlib.pyplot as plt
        fig, ax = plt.subplots()
        try:
            if name == 'plot1d':
                hh = kale.dist1d(kde, ax=ax, param=int(rng.randint(su.ndim)), confidence=True, carpet=bool(seed % 2))
                out = [np.asarray(ln.get_xydata()) for ln in ax.lines]
            elif su.ndim > 1:
                kale.dist2d(kde, ax=ax, params=rng.permutation(su.ndim)[:2], contour=False, mask_dense=False, hist=bool(seed % 2))
                out = [np.asarray(ln.get_xydata()) for ln in ax.lines]
        finally:
            plt.close(fig)
    elif name == 'deepcopy':
        kde = copy.deepcopy(kde)
    elif name == 'construct':
        # some other instance, with other data, weights, and kernel
        other = kale.KDE(su.data[:, ::-1] * 3.0 + 1.0, bandwidth=0.7, kernel=gen.KERNELS[seed % 4], weights=rng.uniform(0.5, 1, su.ndata), reflect=True)
        other.density(su.points(seed, 3))
        other.resample(3, reflect=False)
        if su.ndim < 3:
            other.cdf(su.points(seed, 3))
    elif name == 'fail':
        # calls that are refused
        for func in (lambda: kde.density(np.zeros((su.ndim + 2, 3))), lambda: kde.density(params=su.ndim + 3),
                     lambda: kde.resample(4, keep=0, reflect=[[su.data[0].min() - 1, None]] * su.ndim),
                     lambda: kde.cdf(args, params=0), lambda: kde.density(np.zeros((su.ndim, 2)), reflect=[None] * (su.ndim + 1))):
            try:
                func()
            except Exception:
                pass
    ensure(repr_exact(args) == before, 'the arguments of `%s` were changed', name)
    return kde, out


def copied(out):
    """A copy, as results could share memory with the instance"""
    return copy.deepcopy(out)


def check_history(case):
    import kalepy as kale
    su = gen.Setup(case['kde'])
    kw = su.kwargs()
    if case['reflect']:
        kw['reflect'] = reflect_arg(su, case['reflect'])
    if case['points'] and su.ndim < 3:
        kw['points'] = [6] * su.ndim if su.ndim > 1 else [np.linspace(su.data.min() - 1, su.data.max() + 1, 7)]
    data = np.array(su.dataset())
    given = dict(data=data, **kw)
    before = repr_exact(given)

    def build():
        return kale.KDE(data, **kw)
    # what every operation gives on its own (in reversed order, each with a new instance)
    want = [None] * len(case['ops'])
    for ii in range(len(case['ops']))[::-1]:
        want[ii] = repr_exact(copied(apply(case['ops'][ii], build(), su)[1]))
        ensure(repr_exact(given) == before, 'what was given to the constructor was changed by `%s`', case['ops'][ii]['op'])
    kde = build()
    held = []
    for ii, op in enumerate(case['ops']):
        mode = op['op']
        props = repr_exact([kde.dataset, kde.weights, kde.kernel.matrix, kde.bandwidth, kde.covariance, kde.neff, kde.extrema, kde.reflect])
        kde, out = apply(op, kde, su)
        ensure(repr_exact(out) == want[ii], 'operation %d (%s) depends on the previous operations', ii, mode)
        held.append((ii, out))
        ensure(repr_exact([kde.dataset, kde.weights, kde.kernel.matrix, kde.bandwidth, kde.covariance, kde.neff, kde.extrema, kde.reflect]) == props,
               'operation %d (%s) changed the properties of the instance', ii, mode)
        ensure(repr_exact(given) == before, 'what was given to the constructor was changed by `%s`', mode)
        for jj, old in held:
            ensure(repr_exact(old) == want[jj], 'operation %d (%s) changed the values that operation %d had returned', ii, mode, jj)
    # ... and in the end it still is the density of the data
    if not case['reflect']:
        pts = su.points(case['seed'], 6)
        lo, hi = ref.density(pts, su.data, su.wts, su.matrix, su.kname)
        within(kde.density(pts)[1], lo, hi, 1e-6, 1e-9 * ref.peak(su.wts, su.matrix, su.kname), 'density after the operations')
    return len(case['ops']) > 2, su.labels()[:1] + sorted(set(op['op'] for op in case['ops']))


def ops_list(names, lo, hi):
    anything = st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(names), seed=gen.seeds, m=st.integers(1, 9))), min_size=lo, max_size=hi)

    # few kinds of operations, with the same or related arguments, repeatedly
    @st.composite
    def related(draw):
        some = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3, unique=True))
        pool = draw(st.lists(gen.seeds, min_size=2, max_size=4))
        return draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(some), seed=st.sampled_from(pool), m=gen.choice(3, 3, 4))), min_size=lo, max_size=hi))
    return st.one_of(anything, related())


# ---------------------------------------------------------------- samplers

def check_sampler(case):
    import kalepy as kale
    edges = grids.make_edges(case['grid'])
    dens = grids.make_values(case['grid'], [len(ee) for ee in edges])
    if not np.sum(grids.mass_of(dens, edges)) > 0:
        raise gen.Skip()
    dens = dens * (200.0 / np.sum(grids.mass_of(dens, edges)))
    scal = grids.make_values(case['grid'], dens.shape, kind='uniform', seed=9)
    given = dict(edges=edges, dens=dens, scal=scal)
    mass = dict()
    if case['mass']:
        mass = dict(mass=grids.mass_of(dens, edges) * np.random.RandomState(case['grid']['seed']).uniform(0.5, 2.0, [nn - 1 for nn in dens.shape]))
        given.update(mass)
        if case['mass'] == 2 and not case['outliers']:
            mass['scalar_mass'] = given['smass'] = grids.mean_of(scal)
    before = repr_exact(given)
    thresh = float(np.median(grids.mass_of(dens, edges)) * 1.001 + 1e-12)

    def build():
        if case['outliers']:
            return kale.sample.Sample_Outliers(edges, dens, threshold=thresh, **mass)
        return kale.sample.Sample_Grid(edges, dens, scalar_dens=scal, **mass)

    def run(sampler, op):
        np.random.seed(op['seed'])
        if case['outliers']:
            return sampler.sample()
        if op['op'] == 'grid':
            return list(sampler.grid)
        if op['op'] == 'scalar':
            return sampler.sample(op['m'], return_scalar=True)
        if op['op'] == 'none':
            return sampler.sample(interpolate=True, return_scalar=False)
        return sampler.sample(op['m'], interpolate=(op['op'] == 'interp'))
    want = [repr_exact(run(build(), op)) for op in case['ops'][::-1]][::-1]
    sampler = build()
    held = []
    for ii, op in enumerate(case['ops']):
        out = run(sampler, op)
        ensure(repr_exact(out) == want[ii], 'samples %d (%s) depend on the previous calls', ii, op['op'])
        ensure(repr_exact(given) == before, 'edges, densities or scalars given to the sampler were changed by `%s`', op['op'])
        if case['outliers']:
            # (as a function)
            np.random.seed(op['seed'])
            again = kale.sample_outliers(edges, dens, thresh, **mass)
            ensure(repr_exact(given) == before, 'edges, densities or masses given to `sample_outliers` were changed')
            ensure(repr_exact(again[1]) == repr_exact(out[2]), 'weights of `sample_outliers` are not those of the sampler')
        held.append(out)
        for jj, old in enumerate(held):
            ensure(repr_exact(old) == want[jj], 'samples %d were changed by call %d (%s)', jj, ii, op['op'])
    return len(case['ops']) > 1, ['D=%d' % len(edges)]


# ---------------------------------------------------------------- functions

def check_functions(case):
    """Utility functions change none of their arguments, and give the same result again"""
    from kalepy import utils
    rng = np.random.RandomState(case['seed'])
    dd, nn = case['d'], case['n']
    data = rng.normal(size=(dd, nn)) * 3 + 1
    wts = rng.uniform(0.1, 2.0, nn)
    edges = [np.sort(rng.uniform(-3, 5, 4 + ii)) for ii in range(dd)]
    vals = rng.uniform(size=[len(ee) for ee in edges])
    mat = np.cov(rng.normal(size=(dd, 30))) if dd > 1 else np.array([[2.0]])
    bounds = [[-1.0, None], [None, 4.0], None][:dd]
    percs = [0.1, 0.9, 0.5]
    calls = dict(
        quantiles=lambda: utils.quantiles(data[0], percs, weights=wts),
        quantiles_axis=lambda: utils.quantiles(data, percs, axis=-1, weights=np.ones_like(data) * wts),
        histogram=lambda: utils.histogram(data[0], bins=edges[0], weights=wts, density=True),
        parse_edges=lambda: utils.parse_edges(data, edges=edges, weights=wts),
        parse_auto=lambda: utils.parse_edges(data, extrema=[[-10.0, 12.0]] * dd),
        minmax=lambda: utils.minmax(data[0], stretch=0.1, prev=[0.0, 1.0]),
        bound=lambda: utils.bound_indices(data, bounds),
        bound_out=lambda: utils.bound_indices(data, bounds, outside=True),
        cumtrapz=lambda: utils.cumtrapz(vals, edges),
        trapz_nd=lambda: utils.trapz_nd(vals, edges),
        dens_to_mass=lambda: utils.trapz_dens_to_mass(vals, edges),
        midpoints=lambda: utils.midpoints(edges[0]),
        midpoints_log=lambda: utils.midpoints(np.abs(edges[0]) + 0.1, log=True),
        subdivide=lambda: utils.subdivide(edges[0], 2),
        centroids=lambda: utils.centroids(edges, vals),
        meshgrid=lambda: utils.meshgrid(*edges),
        add_cov=lambda: utils.add_cov(data, mat),
        rem_cov=lambda: utils.rem_cov(data, mat),
        invert=lambda: utils.matrix_invert(mat),
        keep=lambda: utils.cov_keep_vars(mat, 0),
        iqrange=lambda: utils.iqrange(data[0]),
        stats=lambda: utils.stats_str(data),
        flatten=lambda: utils.flatten(edges),
        jshape=lambda: utils.jshape(edges),
    )
    given = dict(data=data, wts=wts, edges=edges, vals=vals, mat=mat, bounds=bounds, percs=percs)
    before = repr_exact(given)
    names = case['calls']
    first = dict()
    state = repr(np.random.get_state())
    for nn_ in names:
        out = repr_exact(calls[nn_]())
        ensure(repr_exact(given) == before, 'arguments were changed by utils function `%s`', nn_)
        ensure(first.setdefault(nn_, out) == out, 'utils function `%s` gave another result in the second call', nn_)
    ensure(repr(np.random.get_state()) == state, 'a utils function used the random generator')
    return True, sorted(set(names))


# ---------------------------------------------------------------- larger sizes, and global state

LARGE = ['resample', 'resample', 'resample_reflect', 'resample_keep', 'sample', 'sample', 'flat', 'scalar', 'outliers', 'function', 'density', 'reflect', 'cdf', 'kernel']
DRAWS = {'resample', 'resample_reflect', 'resample_keep', 'sample', 'flat', 'scalar', 'outliers', 'function', 'kernel'}


def global_state():
    """What must not be changed by any operation"""
    import warnings
    import matplotlib as mpl
    return repr((np.geterr(), np.get_printoptions(), len(warnings.filters), sorted((kk, repr(vv)) for kk, vv in mpl.rcParams.items())))


def check_large(case):
    """Histories with large numbers of samples, or data:  from the same random state always the same, and from other states others"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    dd = case['d']
    data = rng.normal(size=(dd, case['n'])) * 2.0
    wts = rng.uniform(0.1, 2.0, case['n']) if case['weighted'] else None
    bounds = [[data[0].min() - 0.1, None]] + [None] * (dd - 1)
    edges = [np.sort(rng.uniform(-3, 5, case['bins'] + ii)) for ii in range(dd)]
    shape = [len(ee) for ee in edges]
    dens, scal = rng.uniform(0.1, 1.0, size=shape), rng.uniform(size=shape)
    dens = dens * (3000.0 / np.sum(grids.mass_of(dens, edges)))
    mass = grids.mass_of(dens, edges)
    thresh = float(np.quantile(mass, 0.7))
    given = dict(data=data, wts=wts, edges=edges, dens=dens, scal=scal)
    before = repr_exact(given)

    def build():
        return dict(kde=kale.KDE(data, weights=wts, kernel=case['kernel']),
                    grid=kale.Sample_Grid(edges, dens, scalar_dens=scal),
                    out=kale.Sample_Outliers(edges, dens, threshold=thresh))

    def run(inst, op):
        np.random.seed(op['seed'])
        name, num = op['op'], op['num']
        kde = inst['kde']
        if name in ('density', 'reflect', 'cdf'):
            pts = np.random.RandomState(op['seed']).normal(size=(dd, min(num, 3000)))
            if name == 'density':
                return kde.density(pts)
            return kde.density(pts, reflect=bounds) if name == 'reflect' else (kde.cdf(pts) if dd < 3 else None)
        if name == 'resample':
            return kde.resample(num)
        if name == 'resample_reflect':
            return kde.resample(num, reflect=bounds)
        if name == 'resample_keep':
            return kde.resample(num, keep=0)
        if name == 'kernel':
            return kde.kernel.distribution.sample(num, ndim=dd)
        if name == 'outliers':
            return inst['out'].sample(poisson_outside=bool(op['num'] % 2))
        if name == 'function':
            return kale.sample_grid(edges, dens, num)
        return inst['grid'].sample(num, interpolate=(name != 'flat'), return_scalar=(name == 'scalar'))

    ops = case['ops']
    want, after = [None] * len(ops), [None] * len(ops)
    for ii in range(len(ops))[::-1]:
        inst = build()
        glob = global_state()
        want[ii] = copied(run(inst, ops[ii]))
        after[ii] = np.random.uniform()
        ensure(global_state() == glob, '`%s` changed global settings', ops[ii]['op'])
        np.random.seed(ops[ii]['seed'])
        drawn = after[ii] != np.random.uniform()
        # (there may be no outliers at all)
        ensure(drawn == (ops[ii]['op'] in DRAWS) or ops[ii]['op'] == 'outliers', '`%s` %s the random generator', ops[ii]['op'], 'used' if drawn else 'did not use')
    inst = build()
    seen = {}
    for ii, op in enumerate(ops):
        out = run(inst, op)
        ensure(repr_exact(out) == repr_exact(want[ii]), 'operation %d (%s of %d) depends on the previous operations', ii, op['op'], op['num'])
        end = np.random.uniform()
        ensure(end == after[ii], 'operation %d (%s of %d): random state afterwards depends on the previous operations', ii, op['op'], op['num'])
        ensure(repr_exact(given) == before, 'arguments were changed by `%s`', op['op'])
        if op['op'] in DRAWS:
            # (the generator goes on from the state that it had)
            other = seen.setdefault(end, op)
            ensure(other['seed'] == op['seed'], '`%s` of %d and `%s` of %d leave the random generator in the same state, from different ones', op['op'], op['num'], other['op'], other['num'])
        else:
            np.random.seed(op['seed'])
            ensure(end == np.random.uniform(), '`%s` used the random generator', op['op'])
    # from another state, other samples
    for ii, op in enumerate(ops):
        if op['op'] not in DRAWS or op['op'] == 'outliers':
            continue
        more = run(inst, dict(op, seed=op['seed'] + 1))
        end = np.random.uniform()
        ensure(end != after[ii], '`%s` of %d leaves the random generator in the same state, from different ones', op['op'], op['num'])
        one, two = [np.atleast_2d(vv[0] if isinstance(vv, tuple) else vv)[-1] for vv in (want[ii], more)]
        if op['op'] != 'resample_keep' or dd > 1:
            ensure(np.mean(one == two) < 0.01, '`%s` of %d draws the same values from different random states', op['op'], op['num'])
    return len(ops) > 1, ['D=%d' % dd] + sorted(set(op['op'] for op in ops))


def large_ops():
    @st.composite
    def build(draw):
        some = draw(st.lists(st.sampled_from(LARGE), min_size=1, max_size=3, unique=True))
        nums = draw(st.lists(gen.choice(40, 700, 1200, 2001, 6000, 12000, 30000), min_size=1, max_size=2))
        return draw(st.lists(st.fixed_dictionaries(dict(op=st.sampled_from(some), seed=gen.seeds, num=st.sampled_from(nums))), min_size=2, max_size=5))
    return build()


CALLS = ['quantiles', 'quantiles_axis', 'histogram', 'parse_edges', 'parse_auto', 'minmax', 'bound', 'bound_out', 'cumtrapz', 'trapz_nd', 'dens_to_mass', 'midpoints',
         'midpoints_log', 'subdivide', 'centroids', 'meshgrid', 'add_cov', 'rem_cov', 'invert', 'keep', 'iqrange', 'stats', 'flatten', 'jshape']

SUBS = [
    Sub('kde-history', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 3, 4, 25), ops=ops_list(OPS, 2, 8), reflect=gen.choice(0, 0, 0, 5, 17, 101), points=gen.choice(False, False, True), seed=gen.seeds)), check_history, 260,
        rule='at least three operations on one instance, each compared exactly with the same operation on a new instance'),
    Sub('sampler-history', st.fixed_dictionaries(dict(
        grid=grids.grid_spec(1, 3, 6, kinds=['uniform', 'zeros', 'peaked', 'smooth']), outliers=gen.choice(False, False, True), mass=gen.choice(0, 1, 2),
        ops=ops_list(['interp', 'flat', 'scalar', 'none', 'grid'], 2, 6))), check_sampler, 250,
        rule='at least two draws from one sampler, each compared exactly with a new sampler of the same seed'),
    Sub('large-history', st.fixed_dictionaries(dict(
        d=st.integers(1, 3), n=gen.choice(30, 300, 2500), weighted=st.booleans(), kernel=gen.choice(*gen.KERNELS), bins=gen.choice(3, 8, 25), seed=gen.seeds, ops=large_ops())), check_large, 60,
        rule='at least two operations on the same instances'),
    Sub('functions', st.fixed_dictionaries(dict(
        seed=gen.seeds, d=st.integers(1, 3), n=st.integers(3, 30), calls=st.lists(st.sampled_from(CALLS), min_size=4, max_size=16))), check_functions, 250,
        rule='all: sequences of utility functions on shared arguments'),
]
ASSUMPTIONS = ['The comparison is exact (bitwise): the same operations, on the same values, in one process.']
