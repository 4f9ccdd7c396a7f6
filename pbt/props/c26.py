"""One-dimensional plots draw the distribution of the data that they are given"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from . import c20
from .plots import COLORS, Axes, in_color, line_xy, sized_by, span, warm   # noqa
from .util import Sub, close, ensure, repr_exact

ID = 'C26'


def make_xx(spec):
    rng = np.random.RandomState(spec['seed'])
    num = spec['num']
    return {'normal': lambda: rng.normal(size=num), 'ints': lambda: rng.randint(0, 9, num), 'skew': lambda: rng.exponential(size=num) * 100,
            'shift': lambda: rng.uniform(size=num) - 50}[spec['kind']]()


def data_1d(**kw):
    return st.fixed_dictionaries(dict(seed=gen.seeds, num=st.integers(4, 60), kind=gen.choice('normal', 'normal', 'ints', 'skew', 'shift'),
                                      weights=gen.weight_spec(['none', 'none', 'uniform', 'lognormal', 'ints', 'zeros', 'sparse', 'bytes']), aslist=st.booleans(), **kw))


def given(case, xx, wts):
    if case['aslist']:
        return xx.tolist(), (None if wts is None else np.asarray(wts).tolist())
    return xx, wts


def make_edges(spec, xx):
    rng = np.random.RandomState(spec['seed'] + 1)
    lo, hi = float(xx.min()), float(xx.max())
    wid = max(hi - lo, 1.0)
    if spec['edges'] == 'none':
        return None
    if spec['edges'] == 'count':
        return 3 + spec['seed'] % 9
    return np.sort(rng.uniform(lo - 0.2 * wid, hi + 0.2 * wid, 3 + spec['seed'] % 9))


# ---------------------------------------------------------------- histograms

def step_points(edges, hist, joints):
    xx, yy = [], []
    for ii, hh in enumerate(hist):
        xx += [edges[ii], edges[ii + 1]]
        yy += [hh, hh]
        if not joints:
            xx.append(np.nan)
            yy.append(np.nan)
    return np.array(xx, float), np.array(yy, float)


def same_line(line, want, rotate, what):
    got = line_xy(line, rotate)
    for gg, ww, nn in zip(got, want, ['positions', 'heights']):
        ensure(np.shape(gg) == np.shape(ww), '%s: %d %s drawn, expected %d', what, np.size(gg), nn, np.size(ww))
        ensure(np.allclose(gg, ww, rtol=1e-9, atol=1e-12 * (np.nanmax(np.abs(ww)) if np.any(np.isfinite(ww)) else 0), equal_nan=True), '%s: %s drawn are %s, expected %s', what, nn, str(gg[:6]), str(ww[:6]))


def check_hist1d(case):
    import kalepy as kale
    xx = make_xx(case)
    wts = gen.make_weights(case['weights'], xx.size)
    arg = make_edges(case, xx)
    da, wa = given(case, xx, wts)
    before = repr_exact([da, wa, arg])
    with Axes() as ax:
        kw = {}
        if case['renorm'] is not None:
            kw['renormalize'] = case['renorm']
        if not case['joints']:
            kw['joints'] = False
        if case['rotate']:
            kw['rotate'] = True
        color = COLORS[case['seed'] % len(COLORS)]
        hist, edges, line = kale.hist1d(da, edges=arg, ax=ax, weights=wa, density=case['density'], probability=case['prob'], color=color, **kw)
        ensure(repr_exact([da, wa, arg]) == before, 'hist1d changed its arguments')
        edges = np.asarray(edges, float)
        if isinstance(arg, np.ndarray):
            ensure(np.array_equal(edges, arg), 'the given edges were not used')
        want = c20.count(xx, np.ones(xx.size) if wts is None else np.asarray(wts, float), edges)
        tot = xx.size if wts is None else np.sum(wts)
        if case['density']:
            want = want / np.diff(edges)
        if case['prob']:
            want = want / tot
        close(hist, want, 1e-9, 1e-12 * max(1e-300, want.max()), 'histogram')
        shown = want
        if case['renorm'] not in (None, False):
            if not want.max() > 0:
                return False, []
            shown = want / want.max() * float(case['renorm'])
        ensure(len(ax.lines) == 1 and ax.lines[0] is line, 'hist1d drew %d lines', len(ax.lines))
        same_line(line, step_points(edges, shown, case['joints']), case['rotate'], 'hist1d')
        in_color(line, color, 'hist1d')
    return np.count_nonzero(want) > 1, ['edges=' + case['edges'], 'w=' + case['weights']['kind'], 'rotate=%s' % case['rotate']]


def check_draw(case):
    """Drawing of a given histogram, with bins masked out"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    edges = np.cumsum(rng.uniform(0.1, 2, case['num'] + 1)) - 3
    hist = rng.normal(size=case['num']) * (rng.uniform(size=case['num']) < 0.7)
    with Axes() as ax:
        line = kale.plot.draw_hist1d(ax, edges, hist, nonzero=case['nonzero'], positive=case['positive'], joints=case['joints'], rotate=case['rotate'])
        xx, yy = step_points(edges, hist, case['joints'])
        bad = np.zeros(xx.size, bool)
        if case['nonzero']:
            bad |= (yy == 0)
        if case['positive']:
            bad |= (yy < 0)
        gx, gy = line_xy(line, case['rotate'])
        ensure(gx.shape == xx.shape, 'number of points drawn')
        hidden = np.isnan(gx) | np.isnan(gy)
        ensure(np.array_equal(hidden, bad | np.isnan(yy)), 'bins drawn: %s, for values %s', ~hidden, yy)
        ensure(np.allclose(gx[~hidden], xx[~hidden]) and np.allclose(gy[~hidden], yy[~hidden]), 'positions or heights of the bins')
    return np.any(hist < 0) and np.any(hist == 0), []


# ---------------------------------------------------------------- carpet

def check_carpet(case):
    import kalepy as kale
    xx = make_xx(dict(case, num=case['num'] + case['big']))
    wts = gen.make_weights(case['weights'], xx.size)
    da, wa = given(case, xx, wts)
    before = repr_exact([da, wa])
    limit = case['limit']
    if limit is not None and case['seed'] % 2:
        xx = np.arange(xx.size) * 1.5 + 0.25    # distinct values, so that points can be identified
        da, _ = given(case, xx, wts)
        before = repr_exact([da, wa])
    np.random.seed(case['seed'])
    with Axes() as ax:
        kw = dict(random=case['random'], shift=case['shift'])
        if case['yave'] is not None:
            kw['yave'] = case['yave']
        if case['ystd'] is not None:
            kw['ystd'] = case['ystd']
        if case['lim'] is not None:
            (ax.set_xlim if case['rotate'] else ax.set_ylim)(case['lim'])
        color = COLORS[case['seed'] % len(COLORS)]
        kw['color'] = color
        hh, extr = kale.carpet(da, weights=wa, ax=ax, limit=limit, rotate=case['rotate'], **kw)
        ensure(repr_exact([da, wa]) == before, 'carpet changed its arguments')
        offs = np.asarray(hh.get_offsets(), float)
        px, py = (offs[:, 1], offs[:, 0]) if case['rotate'] else (offs[:, 0], offs[:, 1])
        num = xx.size if limit is None else min(limit, xx.size)
        ensure(px.size == num, 'carpet: %d points drawn, of %d (limit %s)', px.size, xx.size, limit)
        ensure(np.all(np.isfinite(py)), 'carpet: positions are not finite')
        if (case['yave'] is not None or case['ystd'] is not None or case['lim'] != [-4.0, 0.0]) and num > 2:
            ensure(np.ptp(py) > 0, 'carpet: points are not spread out')
        in_color(hh, color, 'carpet')
        sizes = np.asarray(hh.get_sizes(), float)
        ensure(sizes.size in (1, num) and np.all(np.isfinite(sizes)) and np.all(sizes > 0), 'carpet: sizes %s', sizes[:4])
        if num == xx.size:
            ensure(np.array_equal(px, np.asarray(xx, float)), 'carpet: the points are not at the data')
            sel = np.arange(num)
        else:
            vals, cnt = np.unique(px, return_counts=True)
            have, most = np.unique(np.asarray(xx, float), return_counts=True)
            ensure(np.all(np.isin(vals, have)), 'carpet: points that are not data')
            ensure(np.all(cnt <= most[np.searchsorted(have, vals)]), 'carpet: data were drawn more than once')
            sel = np.searchsorted(have, px) if have.size == xx.size else None
            if sel is not None:
                sel = np.argsort(np.asarray(xx, float))[sel]
        if wts is not None and sel is not None:
            ww = np.asarray(wts, float)[sel]
            sized_by(sizes, ww, 'carpet')
        # positions across:  about `yave`, with spread `ystd`
        if case['yave'] is not None:
            std = case['ystd'] if case['ystd'] is not None else abs(case['yave']) / 5.0
            dev = (py - case['shift'] - case['yave']) / std
            ensure(np.all(np.abs(dev) <= (1.0 + 1e-9 if case['random'] == 'uniform' else 9.0)), 'carpet: deviations from the baseline')
            close([extr[0], extr[1]], [py.min() - case['shift'], py.max() - case['shift']], 1e-9, 1e-9 * max(abs(case['yave']), std, abs(case['shift'])), 'carpet: returned extrema')
    return True, ['limit=%s' % (limit is not None), 'w=' + case['weights']['kind'], 'rotate=%s' % case['rotate']]


# ---------------------------------------------------------------- confidence bands

def check_confidence(case):
    import kalepy as kale
    xx = make_xx(case)
    wts = gen.make_weights(case['weights'], xx.size)
    da, wa = given(case, xx, wts)
    quants = case['quants']
    qa = quants if case['aslist'] else np.array(quants)
    before = repr_exact([da, wa, qa])
    with Axes() as ax:
        color = COLORS[case['seed'] % len(COLORS)]
        kale.plot.confidence(da, ax=ax, weights=wa, quantiles=qa, median=case['median'], rotate=case['rotate'], color=color)
        ensure(repr_exact([da, wa, qa]) == before, 'confidence changed its arguments')
        bands = [span(pp, case['rotate']) for pp in ax.patches]
        for art in list(ax.patches) + list(ax.lines):
            in_color(art, color, 'confidence')
        ensure(len(bands) == len(quants) and all(bb is not None for bb in bands), 'confidence drew %d bands for %d quantiles', len(bands), len(quants))
        spread = max(np.ptp(xx), 1e-300)
        ww = np.ones(xx.size) if wts is None else np.asarray(wts, float)
        tot, wmax = ww.sum(), ww.max()
        med = None
        if case['median']:
            ensure(len(ax.lines) == 1, 'confidence drew %d lines for the median', len(ax.lines))
            ensure(ax.lines[0].get_linestyle() == '--', 'style of the median')
            med = np.ravel(line_xy(ax.lines[0], case['rotate'])[0])[0]
            ensure(np.ptp(np.ravel(line_xy(ax.lines[0], case['rotate'])[0])) == 0, 'the median is not drawn across the data')
        else:
            ensure(len(ax.lines) == 0, 'confidence drew a median')

        def located(loc, frac, what):
            if wts is None:
                close(loc, np.quantile(xx, frac), 1e-9, 1e-9 * spread, what)
            else:
                below, upto = ww[xx < loc - 1e-9 * spread].sum() / tot, ww[xx <= loc + 1e-9 * spread].sum() / tot
                ensure(below <= frac + wmax / tot + 1e-9 and upto >= frac - wmax / tot - 1e-9, '%s: %s to %s of the weight is below it', what, below, upto)
        if med is not None:
            located(med, 0.5, 'median')
        for (lo, hi), qq in zip(bands, quants):
            located(lo, 0.5 - qq / 2.0, 'lower side of the band of %s' % qq)
            located(hi, 0.5 + qq / 2.0, 'upper side of the band of %s' % qq)
            ensure(lo <= hi and (med is None or lo - 1e-9 * spread <= med <= hi + 1e-9 * spread), 'the band does not include the median')
        order = np.argsort(quants)
        for aa, bb in zip(order[:-1], order[1:]):
            ensure(bands[bb][0] <= bands[aa][0] + 1e-9 * spread and bands[bb][1] >= bands[aa][1] - 1e-9 * spread, 'bands are not nested')
    return True, ['w=' + case['weights']['kind'], 'rotate=%s' % case['rotate']]


# ---------------------------------------------------------------- dist1d

def check_dist_kde(case):
    """Curves of a KDE: the density of the chosen parameter"""
    import kalepy as kale
    su = gen.Setup(case['kde'])
    kde = su.kde()
    par = case['par'] % su.ndim
    xx, wid = su.data[par], su.widths[par]
    points = None
    count = 3 + case['seed'] % 9 if (not case['points'] and case['count']) else None
    if case['points']:
        points = np.sort(np.random.RandomState(case['seed']).uniform(xx.min() - wid, xx.max() + wid, 9))
    amp = case['amp']
    np.random.seed(case['seed'])
    with Axes() as ax:
        kw = {}
        if su.ndim > 1 or case['seed'] % 2:
            kw['param'] = par
        if amp is not None:
            kw['density'] = amp
        if not case['prob']:
            kw['probability'] = False
        colors = (COLORS + [None, None])[case['seed'] % 7]
        if colors is not None:
            kw['color'] = colors
        kale.dist1d(kde, ax=ax, edges=points if count is None else count, rotate=case['rotate'], hist=case['hist'], confidence=case['conf'], carpet=case['carpet'], **kw)
        lines = list(ax.lines)
        ensure(len(lines) == 1 + int(case['hist']) + int(case['conf']), 'dist1d drew %d lines', len(lines))
        # everything is drawn in the same color
        color = lines[0].get_color() if colors is None else colors
        for art in lines + list(ax.patches) + list(ax.collections):
            in_color(art, color, 'dist1d')
        gx, gy = line_xy(lines[0], case['rotate'])
        if points is not None:
            ensure(np.array_equal(gx, points), 'dist1d: the density is not drawn at the given points')
        else:
            ensure(gx.size > 4 and np.all(np.diff(gx) > 0) and gx[0] <= xx.min() and gx[-1] >= xx.max(), 'dist1d: the density is not drawn across the data')
        fac = 1.0 if amp in (None, True) else float(amp)
        if case['prob']:
            fac = fac / su.wts.sum()
        mat = su.matrix[par:par + 1, par:par + 1]
        lo, hi = ref.density(gx[None, :], su.data[par:par + 1], su.wts, mat, su.kname)
        tol = 1e-9 * fac * ref.peak(su.wts, mat, su.kname)
        ensure(np.all((gy >= lo * fac * (1 - 1e-6) - tol) & (gy <= hi * fac * (1 + 1e-6) + tol)), 'dist1d: the line is not the density of parameter %d', par)
        if case['hist']:
            hx, hy = line_xy(lines[1], case['rotate'])
            edges = np.append(hx[::2], hx[-1])
            want = c20.count(xx, su.wts, edges) / np.diff(edges) / (su.wts.sum() if case['prob'] else 1.0)
            same_line(lines[1], step_points(edges, want, True), case['rotate'], 'dist1d: histogram')
            if points is not None:
                ensure(np.array_equal(edges, points), 'dist1d: the edges of the histogram are not those given')
            elif count is not None:
                ensure(edges.size == count + 1, 'dist1d: %d bins, instead of %d', edges.size - 1, count)
        if case['conf']:
            quants = 1.0 - np.exp(-0.5 * np.array([0.5, 1.0, 1.5, 2.0]) ** 2)
            ensure(len(ax.patches) == 4, 'dist1d drew %d bands', len(ax.patches))
            for pp, qq in zip(ax.patches, quants):
                lo, hi = span(pp, case['rotate'])
                wmax = su.wts.max() / su.wts.sum()
                eps = 1e-9 * np.ptp(xx)
                for loc, fr in [(lo, 0.5 - qq/2), (hi, 0.5 + qq/2)]:
                    below, upto = su.wts[xx < loc - eps].sum() / su.wts.sum(), su.wts[xx <= loc + eps].sum() / su.wts.sum()
                    ensure(below <= fr + wmax + 1e-9 and upto >= fr - wmax - 1e-9, 'dist1d: the band of %s is at %s', qq, (lo, hi))
        num = len(ax.collections)
        ensure(num == (0 if case['carpet'] is False else 1), 'dist1d drew %d carpets', num)
        if num:
            offs = np.asarray(ax.collections[0].get_offsets())[:, 1 if case['rotate'] else 0]
            if case['carpet'] is True:
                ensure(np.array_equal(offs, xx), 'dist1d: carpet is not at the data of parameter %d', par)
                if su.weights is not None and np.ptp(su.wts) > 0:
                    sized_by(np.asarray(ax.collections[0].get_sizes(), float), su.wts, 'dist1d: carpet')
            else:
                ensure(offs.size == min(case['carpet'], xx.size) and np.all(np.isin(offs, xx)), 'dist1d: carpet of %d points', offs.size)
    return True, su.labels() + ['hist=%s' % case['hist'], 'rotate=%s' % case['rotate']]


def check_dist_data(case):
    """Data (without a KDE): a histogram (and carpet), unless chosen otherwise"""
    import kalepy as kale
    xx = make_xx(case)
    if xx.std() == 0:
        raise gen.Skip()
    wts = gen.make_weights(case['weights'], xx.size)
    da, wa = given(case, xx, wts)
    arg = make_edges(case, xx)
    before = repr_exact([da, wa, arg])
    ones = np.ones(xx.size) if wts is None else np.asarray(wts, float)
    np.random.seed(case['seed'])
    with Axes() as ax:
        kw = dict()
        if case['density']:
            kw['density'] = True
        if not case['prob']:
            kw['probability'] = False
        if case['nohist']:
            kw['hist'] = False
        ls, alpha = [None, None, '-', ':', '--', '-.'][case['seed'] % 6], [None, None, 0.3, 1.0][case['seed'] // 6 % 4]
        if ls is not None:
            kw['ls'] = ls
        if alpha is not None:
            kw['alpha'] = alpha
        handle = kale.dist1d(da, ax=ax, edges=arg, weights=wa, rotate=case['rotate'], **kw)
        ensure(repr_exact([da, wa, arg]) == before, 'dist1d changed its arguments')
        lines = list(ax.lines)
        ensure(len(lines) == int(case['density']) + int(not case['nohist']), 'dist1d drew %d lines', len(lines))
        ensure(handle is not None, 'no handle was returned')
        for line in lines:
            if ls is not None:
                ensure(line.get_linestyle() == ls, 'dist1d: line style %s, instead of %s', line.get_linestyle(), ls)
        if alpha is not None and not case['nohist']:
            ensure(lines[-1].get_alpha() == alpha, 'dist1d: opacity %s of the histogram, instead of %s', lines[-1].get_alpha(), alpha)
        if case['density']:
            gx, gy = line_xy(lines[0], case['rotate'])
            if isinstance(arg, np.ndarray):
                ensure(np.array_equal(gx, arg), 'dist1d: the density is not drawn at the given edges')
            else:
                ensure(gx.size > 4 and np.all(np.diff(gx) > 0) and gx[0] <= xx.min() and gx[-1] >= xx.max(), 'dist1d: the density is not drawn across the data, but at %s', gx)
            mat = ref.matrix(np.asarray(xx, float)[None, :], wts, None)
            lo, hi = ref.density(gx[None, :], np.asarray(xx, float)[None, :], ones, mat, 'gaussian')
            fac = 1 / ones.sum() if case['prob'] else 1.0
            close(gy, lo * fac, 1e-6, 1e-9 * fac * ref.peak(ones, mat, 'gaussian'), 'dist1d: density')
        if not case['nohist']:
            hx, hy = line_xy(lines[-1], case['rotate'])
            edges = np.append(hx[::2], hx[-1])
            if isinstance(arg, np.ndarray):
                ensure(np.array_equal(edges, arg), 'dist1d: the given edges were not used')
            elif isinstance(arg, int):
                ensure(edges.size == arg + 1, 'dist1d: %d bins', edges.size - 1)
            want = c20.count(xx, ones, edges) / np.diff(edges) / (ones.sum() if case['prob'] else 1.0)
            # (values at the edges that matplotlib returned could be rounded)
            same_line(lines[-1], step_points(edges, want, True), case['rotate'], 'dist1d: histogram')
        offs = np.asarray(ax.collections[0].get_offsets())[:, 1 if case['rotate'] else 0]
        ensure(np.array_equal(offs, np.asarray(xx, float)), 'dist1d: carpet is not at the data')
        if wts is not None and np.ptp(ones) > 0:
            sized_by(np.asarray(ax.collections[0].get_sizes(), float), ones, 'dist1d: carpet')
        for art in lines + list(ax.collections):
            in_color(art, lines[0].get_color() if lines else ax.collections[0].get_facecolor()[0], 'dist1d')
        # the next one is drawn in another color
        if lines:
            again = kale.dist1d(da, ax=ax, edges=arg, weights=wa, rotate=case['rotate'], **kw)
            ensure(ax.lines[-1].get_color() != lines[0].get_color(), 'dist1d: the same color for the next distribution')
            in_color(again, ax.lines[-1].get_color(), 'dist1d: handle')
    return True, ['w=' + case['weights']['kind'], 'density=%s' % case['density']]


SUBS = [
    Sub('hist1d', data_1d(edges=gen.choice('none', 'count', 'given', 'given'), density=st.booleans(), prob=st.booleans(), joints=st.booleans(),
                          rotate=st.booleans(), renorm=gen.choice(None, None, True, False, 2.5)), check_hist1d, 120,
        rule='histograms with at least two bins that are not empty'),
    Sub('draw', st.fixed_dictionaries(dict(seed=gen.seeds, num=st.integers(3, 15), nonzero=st.booleans(), positive=st.booleans(), joints=st.booleans(), rotate=st.booleans())),
        check_draw, 60, rule='histograms with negative and empty bins'),
    Sub('carpet', data_1d(big=gen.choice(0, 0, 300, 700), limit=st.one_of(st.none(), st.integers(1, 40)), rotate=st.booleans(), random=gen.choice('normal', 'uniform'), shift=gen.choice(0.0, 0.0, -2.5),
                          yave=gen.choice(None, -1.0, 3.0), ystd=gen.choice(None, 0.5), lim=gen.choice(None, None, [0.0, 8.0], [-9.0, -3.0], [-4.0, 0.0], [-2.0, 1e-3])), check_carpet, 200, rule='all'),
    Sub('confidence', data_1d(quants=st.lists(st.integers(1, 99).map(lambda vv: vv / 100.0), min_size=1, max_size=5), median=st.booleans(), rotate=st.booleans()),
        check_confidence, 100, rule='all'),
    Sub('dist1d-kde', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(1, 3, 4, 40), par=st.integers(0, 2), points=st.booleans(), count=st.booleans(), amp=gen.choice(None, None, True, 2.0, 0.25), prob=gen.choice(True, True, False), seed=gen.seeds,
        rotate=st.booleans(), hist=st.booleans(), conf=st.booleans(), carpet=gen.choice(True, False, 5, 1000))), check_dist_kde, 100,
        rule='all: KDEs of 1 to 3 dimensions'),
    Sub('dist1d-data', data_1d(edges=gen.choice('none', 'count', 'given'), density=st.booleans(), prob=st.booleans(), nohist=gen.choice(False, False, True), rotate=st.booleans()),
        check_dist_data, 80, rule='all'),
]
ASSUMPTIONS = ['What matplotlib was asked to draw is what is seen: its own rendering is not part of the check.']
