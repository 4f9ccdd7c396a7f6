"""Reflecting boundaries"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .c03 import integral_1d
from .util import Sub, close, ensure, warm, within   # noqa

ID = 'C04'


def make_reflect(case, su):
    args, bounds, true = [], [], []
    for dd in range(su.ndim):
        arg, lo, hi = gen.make_reflect_dim(case['refl'][dd], su.data[dd], su.widths[dd])
        if not (hi - lo) > 0.3 * (su.data[dd].max() - su.data[dd].min()):
            raise gen.Skip()
        args.append(arg)
        bounds.append((lo, hi))
        true.append(arg is True or (arg is not None and True in arg))
    return args, bounds, true


def form_reflect(args, form, ndim):
    if ndim == 1 and form == 'flat' and args[0] is not None:
        return [True, True] if args[0] is True else args[0]
    if form == 'tuple':
        return tuple(aa if (aa is None or aa is True) else tuple(aa) for aa in args)
    if form == 'array' and all(aa is not None and aa is not True and None not in aa and True not in aa for aa in args):
        return np.array(args, float)
    if all(aa is True for aa in args) and form == 'true':
        return True
    if ndim > 1 and all(aa is None for aa in args):
        return [None] * ndim
    return list(args)


def pad_true(args, bounds, su):
    """Automatic boundaries lie at the extrema of the data, but may be (very slightly) further outside"""
    rtol = 1e-7
    for dd in range(su.ndim):
        if (args[dd] is True or (args[dd] is not None and True in args[dd])):
            mag = np.abs(su.data[dd]).max() * 2e-8
            if mag > 1e-5 * su.widths[dd]:
                raise gen.Skip()
            rtol = max(rtol, 20 * mag / su.widths[dd])
    return rtol


def compare(vals, pts, su, bounds, slack, tol, what):
    # points that are within round-off of a boundary may be on either side
    amb = np.zeros(pts.shape[1], dtype=bool)
    for dd, bnd in enumerate(bounds):
        for loc in bnd:
            if np.isfinite(loc):
                amb |= np.abs(pts[dd] - loc) < max(4e-8 * abs(loc), 1e-9 * su.widths[dd])
    lo, hi = ref.reflected(pts, su.data, su.wts, su.matrix, su.kname, bounds, max(slack, 1e-6))
    peak = ref.peak(su.wts, su.matrix, su.kname)
    ensure(np.shape(vals) == (pts.shape[1],), 'shape of %s: %s', what, np.shape(vals))
    within(np.asarray(vals)[~amb], lo[~amb], hi[~amb], tol, tol * peak, what)
    return lo


def check_points(case):
    su = gen.Setup(case['kde'])
    args, bounds, true = make_reflect(case, su)
    slack = pad_true(args, bounds, su)
    tol = 1e-7 if slack <= 1e-7 else 20 * slack
    if case['where'] == 'density' and su.ndim > 1 and all(aa is None for aa in args):
        raise gen.Skip()
    pts = su.points(case['seed'], 50)
    rng = np.random.RandomState(case['seed'])
    for dd, bnd in enumerate(bounds):        # more points close to the boundaries
        for loc in bnd:
            if np.isfinite(loc):
                sel = rng.uniform(size=50) < 0.3
                pts[dd, sel] = loc + su.widths[dd] * rng.normal(size=sel.sum()) * 0.5
    refl = form_reflect(args, case['form'], su.ndim)
    if case['where'] == 'init':
        kde = su.kde(reflect=refl)
        vals = kde.density(pts)[1]
        if all(aa is None for aa in args) is False:
            for dd in range(su.ndim):
                got = kde.reflect[dd]
                for ii in range(2):
                    want = bounds[dd][ii]
                    if not np.isfinite(want):
                        ensure(got is None or got[ii] is None, 'boundary %s where there should not be one', got)
                    else:
                        out = (got[ii] - want) * (1 if ii else -1)
                        ensure(-1e-12 * abs(want) <= out <= 3e-8 * abs(want), 'boundary at %r, expected %r', got[ii], want)
    else:
        kde = su.kde(reflect=None if case['seed'] % 2 else [[su.data[dd].min() - 1, None] for dd in range(su.ndim)])
        vals = kde.density(pts, reflect=refl)[1]
    lo = compare(vals, pts, su, bounds, slack, tol, 'reflected density (%s)' % case['where'])
    # reflect=False disables the boundaries
    off = kde.density(pts, reflect=False)[1]
    l0, h0 = ref.density(pts, su.data, su.wts, su.matrix, su.kname, 1e-6)
    within(off, l0, h0, 1e-7, 1e-9 * ref.peak(su.wts, su.matrix, su.kname), 'density with reflect=False')
    changed = np.any((np.abs(lo - l0) > 1e-3 * lo.max()) & (lo > 0)) if lo.max() > 0 else False
    nbnd = sum(np.isfinite(bb) for bnd in bounds for bb in bnd)
    return bool(changed), su.labels() + ['boundaries=%d' % nbnd, 'true=%d' % sum(true), 'where=' + case['where'], 'form=' + case['form']]


def check_mass(case):
    """Mass is conserved when reflecting in one dimension"""
    su = gen.Setup(case['kde'])
    ext = su.widths[0] * (1.0 if su.finite else 7.0)
    data = su.data[0]
    span = data.max() - data.min()
    lo, hi = data.min() - ext * case['dlo'] / 10, data.max() + ext * case['dhi'] / 10
    if case['sides'] == 'lo':
        refl, hi = [lo, None], data.max() + 1.01 * ext
    elif case['sides'] == 'hi':
        refl, lo = [None, hi], data.min() - 1.01 * ext
    else:
        # otherwise there would have to be images of images
        if ext > (hi - lo):
            raise gen.Skip()
        refl = [lo, hi]
    if su.ndim == 1:
        kde = su.kde(reflect=[refl])
        allx = np.concatenate([data] + [2*rr - data for rr in refl if rr is not None])
        breaks = (allx[:, None] + su.widths[0] * (np.array([-1, 1]) if su.finite else np.linspace(-8, 8, 33))).ravel()
        breaks = np.concatenate([breaks[(breaks > lo) & (breaks < hi)], [lo, hi]])
        tot = integral_1d(lambda xx: kde.pdf(xx)[1], breaks)
        close(tot, 1.0, 1e-5, 0, 'integral of pdf, with reflecting boundaries')
        outside = np.array([rr + su.widths[0] * ss * ff for rr, ss in zip(refl, (-1, 1)) if rr is not None for ff in (1e-3, .1, 1, 9)])
        ensure(np.all(kde.pdf(outside)[1] == 0.0), 'density outside of the reflecting boundaries')
        return span > 0, su.labels() + ['sides=' + case['sides']]
    # two dimensions, reflecting in one of them;  (gaussian only, as the grid need not follow the correlation)
    kde = su.kde(reflect=[refl, None] if case['first'] else [None, None], bandwidth=su.bw)
    if not case['first']:
        raise gen.Skip()
    xx = lo + (hi - lo) * (np.arange(400) + 0.5) / 400
    if not (xx[1] - xx[0]) < 0.4 * su.widths[0] * np.sqrt(1 - np.clip(su.matrix[0, 1]**2 / su.matrix[0, 0] / su.matrix[1, 1], 0, 1)):
        raise gen.Skip()
    y0, y1 = su.data[1].min() - 8 * su.widths[1], su.data[1].max() + 8 * su.widths[1]
    if not (y1 - y0) / 400 < 0.4 * su.widths[1] * np.sqrt(1 - np.clip(su.matrix[0, 1]**2 / su.matrix[0, 0] / su.matrix[1, 1], 0, 1)):
        raise gen.Skip()
    yy = np.linspace(y0, y1, 400)
    vals = kde.pdf([xx, yy], grid=True)[1]
    tot = vals.sum() * (xx[1] - xx[0]) * (yy[1] - yy[0])
    close(tot, 1.0, 2e-3, 0, 'integral of pdf, reflecting in one of two dimensions')
    return True, su.labels() + ['sides=' + case['sides']]


def known_corner():
    """Reflecting in two dimensions omits the images about corners (see known_findings.txt)"""
    import kalepy as kale
    rng = np.random.RandomState(8)
    data = np.abs(rng.normal(size=(2, 300)))
    data = data[:, np.all(data < 4, axis=0)]
    kde = kale.KDE(data, bandwidth=0.7, diagonal=True, reflect=[[0, 4], [0, 4]])
    gg = (np.arange(400) + 0.5) / 100
    tot = kde.pdf([gg, gg], grid=True)[1].sum() / 100**2
    if abs(tot - 1) > 1e-3:
        return ('reflecting in two dimensions at once loses the mass of the corner images '
                '(|normal| data in [0,4]^2, bandwidth 0.7: integral of the pdf is %.4f)' % tot)
    return None


PROBES = [known_corner]
smooth = st.fixed_dictionaries(dict(kind=gen.choice('none', 'scalar', 'vec', 'str'), name=gen.choice('scott', 'silverman'),
                                    vals=st.lists(st.integers(3, 12), min_size=6, max_size=6), rho=st.just(0.0), flavor=st.just('array')))
SUBS = [
    Sub('points', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 4, 1, 40, 200), refl=st.lists(gen.reflect_dim_spec(), min_size=4, max_size=4), seed=gen.seeds,
        where=gen.choice('init', 'density'), form=gen.choice('list', 'flat', 'tuple', 'array', 'true'))), check_points, 600,
        rule='the reflected density differs from the one without boundaries (by 1e-3 of its maximum) at some point inside'),
    Sub('mass', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 1, 1, 30, bws=smooth), sides=gen.choice('lo', 'hi', 'both'), dlo=st.integers(0, 12),
        dhi=st.integers(0, 12), first=st.just(True))), check_mass, 250, rule='each case'),
    Sub('mass_2d', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(2, 2, 5, 20, bws=smooth, kernels=['gaussian'], dists=['normal', 'uniform', 'clusters']), sides=gen.choice('lo', 'hi', 'both'),
        dlo=st.integers(0, 5), dhi=st.integers(0, 5), first=st.just(True))), check_mass, 15, 200, rule='each case'),
]
ASSUMPTIONS = ['in several reflecting dimensions the reference has images about each boundary separately (no images about corners): '
               'see known_findings.txt']
