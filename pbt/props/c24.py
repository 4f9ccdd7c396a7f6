"""KDE from a histogram"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, grids, ref
from .util import Sub, close, ensure, repr_exact, warm, within   # noqa

ID = 'C24'


def check(case):
    import kalepy as kale
    spec = case['grid']
    edges = [np.asarray(ee, float) for ee in grids.make_edges(spec)]
    ndim = len(edges)
    bins = tuple(ss - 1 for ss in spec['shape'])
    hist = np.asarray(grids.make_values(spec, bins, kind=case['hist'], seed=2))
    if np.count_nonzero(hist) < 2:
        raise gen.Skip()
    mids = [0.5 * (ee[1:] + ee[:-1]) for ee in edges]
    pts = np.array([gg.ravel() for gg in np.meshgrid(*mids, indexing='ij')])
    wts = hist.ravel().astype(float)
    widths = np.array([ee[1] - ee[0] for ee in edges])
    bw = {'default': 'bin width', 'scalar': 0.4, 'str': 'silverman', 'vec': [0.3 + 0.2 * dd for dd in range(ndim)]}[case['bw']]
    cov = ref.covariance(pts, wts)
    gen.check_cov(cov)
    gen.check_var(pts, cov)
    used = (widths if ndim > 1 else widths[0]) if bw == 'bin width' else (bw if ndim > 1 or case['bw'] != 'vec' else bw[0])
    mat = ref.matrix(pts, wts, used)
    gen.check_cov(mat)
    kw = {}
    kern = case['kernel']
    if kern is not None:
        kw['kernel'] = kern
    refl = None
    bounds = [(-np.inf, np.inf)] * ndim
    if case['reflect']:
        refl = [[edges[dd][0], edges[dd][-1]] if dd == 0 else None for dd in range(ndim)]
        bounds[0] = (edges[0][0], edges[0][-1])
        kw['reflect'] = refl
    if bw != 'bin width':
        kw['bandwidth'] = bw if not (ndim == 1 and case['bw'] == 'vec') else bw[:1]
    elif case['explicit']:
        kw['bandwidth'] = 'bin width'
    arg = grids.as_given(spec, edges)
    if ndim == 1 and case['flat']:
        arg = arg[0]
    elif ndim == 1:
        raise gen.Skip()
    ha = hist.tolist() if spec['aslist'] else hist
    before = repr_exact([arg, ha, kw.get('bandwidth')])
    kde = kale.KDE.from_hist(arg, ha, **kw)
    ensure(before == repr_exact([arg, ha, kw.get('bandwidth')]), 'the inputs were changed')
    ensure(kde.ndim == ndim and kde.ndata == wts.size, 'KDE of %d dimensions and %d data', kde.ndim, kde.ndata)
    close(np.atleast_2d(kde.dataset), pts, 1e-12, 1e-12, 'centers of the bins')
    close(kde.weights / np.sum(kde.weights), wts / wts.sum(), 1e-10, 0, 'relative weights of the bins')
    close(kde.kernel.matrix, mat, 1e-9, 1e-12 * np.abs(mat).max(), 'smoothing matrix')
    name = ref.kernel_name(kern)
    rng = np.random.RandomState(case['seed'])
    at = np.array([rng.uniform(ee[0] - 0.2 * np.ptp(ee), ee[-1] + 0.2 * np.ptp(ee), 20) for ee in edges])
    vals = kde.pdf(at)[1]
    lo, hi = ref.reflected(at, pts, wts, mat, name, bounds, 1e-6)
    within(vals, lo / wts.sum(), hi / wts.sum(), 1e-7, 1e-10 * ref.peak(wts, mat, name) / wts.sum(), 'pdf of a histogram')
    # independent of its normalization
    other = kale.KDE.from_hist(arg, (np.asarray(hist) * 3.5).tolist() if spec['aslist'] else hist * 3.5, **kw)
    if name != 'box':
        close(other.pdf(at)[1], vals, 1e-7, 1e-10 * ref.peak(wts, mat, name) / wts.sum(), 'pdf of a rescaled histogram')
    return True, ['D=%d' % ndim, 'bw=' + case['bw'], 'hist=' + case['hist'], spec['spacing'], 'kernel=%s' % kern]


SUBS = [
    Sub('hist', st.fixed_dictionaries(dict(grid=grids.grid_spec(1, 3, 8, nmin=3), hist=gen.choice('uniform', 'zeros', 'counts', 'peaked'),
                                           bw=gen.choice('default', 'default', 'scalar', 'str', 'vec'), kernel=st.sampled_from([None] + gen.KERNELS),
                                           reflect=gen.choice(False, False, True), flat=gen.choice(True, True, True, False), explicit=st.booleans(), seed=gen.seeds)),
        check, 500, rule='each case'),
]
