"""Two-dimensional plots: histograms, contours enclosing the given fractions, medians and scatter of the right parameters"""
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .plots import Axes, Record, bilinear, levels_ok, line_xy, paint_args, painted, warm   # noqa
from .util import Sub, close, ensure, repr_exact

ID = 'C27'


def count2d(data, wts, edges):
    out = np.zeros([len(ee) - 1 for ee in edges])
    for kk in range(data.shape[1]):
        idx = []
        for xx, ee in zip(data[:, kk], edges):
            if xx < ee[0] or xx > ee[-1]:
                break
            idx.append(min(int(np.searchsorted(ee, xx, side='right')) - 1, len(ee) - 2))
        else:
            out[tuple(idx)] += wts[kk]
    return out


def areas(edges):
    return np.outer(np.diff(edges[0]), np.diff(edges[1]))


def make_edges(case, data):
    rng = np.random.RandomState(case['seed'] + 1)
    form = case['edges']
    if form == 'none':
        return None
    if form == 'count':
        return 4
    if form == 'counts':
        return [3, 5]
    wid = data.max(axis=1) - data.min(axis=1)
    out = []
    for dd in range(2):
        num = int(rng.randint(3, 9)) + 4 * dd
        frac = -0.1 if case['seed'] % 3 else 0.1
        ee = np.linspace(data[dd].min() + frac * wid[dd], data[dd].max() - frac * wid[dd], num)
        if form == 'uneven':
            ee = np.sort(np.append(ee[[0, -1]], rng.uniform(ee[0], ee[-1], num - 2)))
        out.append(ee)
    return out


def data_2d(**kw):
    return st.fixed_dictionaries(dict(data=gen.data_spec(2, 2, 5, 50), weights=gen.weight_spec(), seed=gen.seeds,
                                      edges=gen.choice('none', 'count', 'counts', 'even', 'even', 'uneven'), **kw))


def mesh_values(mesh, shape):
    """What `pcolormesh` was given, as an array of the shape of the histogram (x, y), with a mask"""
    arr = np.ma.masked_invalid(np.ma.asarray(mesh.get_array()))
    return arr.reshape(shape[1], shape[0]).T


def mesh_edges(mesh):
    crd = np.asarray(mesh.get_coordinates())
    return crd[0, :, 0], crd[:, 0, 1], crd


def check_hist2d(case):
    import kalepy as kale
    data = gen.make_data(case['data'])
    wts = gen.make_weights(case['weights'], data.shape[1])
    arg = make_edges(case, data)
    da = data.tolist() if case['aslist'] else data
    before = repr_exact([da, wts, arg])
    ones = np.ones(data.shape[1]) if wts is None else np.asarray(wts, float)
    mask = case['mask']
    with Axes() as ax:
        kw = dict()
        cut = None
        if mask == 'true':
            kw['mask_below'] = True
        elif mask == 'false':
            kw['mask_below'] = False
        elif mask == 'value':
            # (from a first call, as the density depends on the automatic edges)
            _, hist, _ = kale.hist2d(da, edges=arg, ax=ax, weights=wts)
            vals = np.unique(np.asarray(hist))
            cut = float(vals[len(vals) // 2] * (0.999 if case['seed'] % 2 else 1.0))
            kw['mask_below'] = cut
            ax.clear()
        edges, hist, mesh = kale.hist2d(da, edges=arg, ax=ax, weights=wts, **kw)
        ensure(repr_exact([da, wts, arg]) == before, 'hist2d changed its arguments')
        edges = [np.asarray(ee, float) for ee in edges]
        if case['edges'] in ('even', 'uneven'):
            ensure(all(np.array_equal(aa, bb) for aa, bb in zip(edges, arg)), 'the given edges were not used')
        if case['edges'] in ('count', 'counts'):
            want = (arg, arg) if case['edges'] == 'count' else tuple(arg)
            ensure(tuple(len(ee) - 1 for ee in edges) == want, 'bins %s, expected %s', [len(ee) - 1 for ee in edges], want)
        mass = count2d(data, ones, edges)
        if not mass.sum() > 0:
            return False, []
        dens = mass / areas(edges) / mass.sum()
        close(np.ma.getdata(hist), dens, 1e-9, 1e-12 * dens.max(), 'histogram')
        shown = mesh_values(mesh, dens.shape)
        hid = np.ma.getmaskarray(shown)
        if mask == 'true':
            bad = mass < 0.9 * ones.mean()
            sure = np.abs(mass - 0.9 * ones.mean()) > 1e-9 * ones.mean()
        elif cut is not None:
            bad = dens <= cut
            sure = np.abs(dens - cut) > 1e-9 * dens.max()
        else:
            bad = np.zeros(dens.shape, bool)
            sure = ~bad
        if cut != 0.0:
            ensure(np.array_equal(hid[sure], bad[sure]), 'hist2d(mask_below=%s): hidden bins %s, expected %s', kw.get('mask_below'), hid.astype(int).tolist(), bad.astype(int).tolist())
        close(np.ma.getdata(shown)[~hid], dens[~hid], 1e-9, 1e-12 * dens.max(), 'values drawn')
        ex, ey, _ = mesh_edges(mesh)
        close(ex, edges[0], 1e-12, 1e-12, 'edges drawn in x')
        close(ey, edges[1], 1e-12, 1e-12, 'edges drawn in y')
    return np.count_nonzero(mass) > 2, ['edges=' + case['edges'], 'mask=' + mask, 'w=' + case['weights']['kind']]


# ---------------------------------------------------------------- contours

def contour_paths(cont):
    """-> list (for each level) of (N, 2) vertices"""
    return [np.concatenate([vv for vv in segs if len(vv)]) if any(len(vv) for vv in segs) else np.zeros((0, 2)) for segs in cont['segs']]


def contour_lines(cont):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return list(cont.collections)


def check_on_grid(cont, grid, hist, what):
    xx, yy = grid[0][:, 0], grid[1][0, :]
    tol = [1e-6 * np.ptp(xx), 1e-6 * np.ptp(yy)]
    ensure(np.allclose(grid[0], xx[:, None], atol=tol[0]) and np.allclose(grid[1], yy[None, :], atol=tol[1]), '%s: not a regular grid', what)
    if not (np.all(np.diff(xx) > 0) and np.all(np.diff(yy) > 0)):
        return 0
    num = 0
    for lev, verts in zip(cont['levels'], contour_paths(cont)):
        if not len(verts):
            continue
        got = bilinear(xx, yy, hist, verts[:, 0], verts[:, 1])
        # (relative to rounding of positions on the grid)
        tol = 1e-6 * max(np.max(np.abs(hist)), 1e-300)
        if max(np.max(np.abs(xx)) / np.min(np.diff(xx)), np.max(np.abs(yy)) / np.min(np.diff(yy))) > 1e7:
            continue
        ensure(np.all(np.abs(got - lev) <= tol), '%s: the contour of %r is at values %s to %s', what, lev, got.min(), got.max())
        num += len(verts)
    return num


def check_contour(case):
    import kalepy as kale
    data = gen.make_data(case['data'])
    wts = gen.make_weights(case['weights'], data.shape[1])
    arg = make_edges(case, data)
    before = repr_exact([data, wts, arg, case['quants']])
    ones = np.ones(data.shape[1]) if wts is None else np.asarray(wts, float)
    if arg is not None and not np.isscalar(arg) and np.ndim(arg[0]) and not count2d(data, ones, arg).sum() > 0:
        raise gen.Skip()
    with Axes() as ax, Record() as rec:
        kw = dict(smooth=case['smooth'], upsample=case['upsample'], pad=case['pad'])
        paint = paint_args(case['paint'], case['seed'])[0]
        grid, hist, cont = kale.contour(data, edges=arg, ax=ax, weights=wts, quantiles=case['quants'], outline=case['outline'], **kw, **paint)
        if paint:
            painted(paint, [], [], [], contour_lines(cont), 'contour')
        for line in contour_lines(cont):
            ensure(bool(line.get_path_effects()) == case['outline'], 'contour(outline=%s): path effects %s', case['outline'], line.get_path_effects())
        ensure(repr_exact([data, wts, arg, case['quants']]) == before, 'contour changed its arguments')
        pad = 1 if case['pad'] is True else int(case['pad'] or 0)
        ensure(len(rec.of('contour', ax)) == 1, 'contour drew %d contours', len(rec.of('contour')))
        cont = rec.of('contour', ax)[0]
        hist = np.asarray(hist)
        if case['edges'] in ('even', 'uneven'):
            mass = count2d(data, ones, arg)
            dens = mass / areas(arg) / mass.sum()
            shape = np.array([len(ee) - 1 + 2 * pad for ee in arg])
            fac = case['upsample'] or 1
            if fac is True:
                fac = 2
            # the histogram, padded and upsampled, and then smoothed by a Gaussian (in units of the original bins)
            from scipy import ndimage
            full = np.pad(dens, pad, mode='constant', constant_values=dens.min()) if pad else dens
            if fac != 1:
                full = ndimage.zoom(full, fac, mode='mirror')
            if case['smooth']:
                full = ndimage.gaussian_filter(full, case['smooth'] * fac)
            close(hist, full, 0, 0.02 * dens.max(), 'contour: the distribution for pad=%s, upsample=%s, smooth=%s' % (case['pad'], case['upsample'], case['smooth']))
            ensure(hist.shape == tuple(shape * fac), 'contour: the grid has shape %s, for %s bins', hist.shape, dens.shape)
            mids = [0.5 * (ee[1:] + ee[:-1]) for ee in arg]
            if fac == 1:
                inner = tuple([slice(pad, -pad)] * 2) if pad else (slice(None), slice(None))
                for dd in range(2):
                    got = np.take(grid[dd], 0, axis=1 - dd)
                    ensure(np.all(np.diff(got) > 0), 'contour: the grid is not increasing')
                    if pad and case['edges'] == 'even':
                        close(np.diff(got), np.full(got.size - 1, np.diff(arg[dd])[0]), 1e-6, 1e-9 * np.ptp(arg[dd]), 'contour: spacing of the grid')
                    close(got[pad:-pad] if pad else got, mids[dd], 1e-9, 1e-9 * np.ptp(arg[dd]), 'contour: position of the bins')
                if not case['smooth']:
                    close(hist[inner], dens, 1e-9, 1e-12 * dens.max(), 'contour: histogram')
                    if pad:
                        rest = np.ones(hist.shape, bool)
                        rest[inner] = False
                        ensure(np.all(hist[rest] == hist[inner].min()), 'contour: padding is not the lowest value')
                else:
                    # smoothing conserves the sum, within the extrema
                    tot = dens.sum() + (hist.size - dens.size) * dens.min()
                    close(hist.sum(), tot, 1e-6, 0, 'contour: sum after smoothing')
                    ensure(hist.max() <= dens.max() * (1 + 1e-9) and hist.min() >= dens.min() - 1e-9 * dens.max(), 'contour: smoothing exceeds the histogram')
            else:
                # the corners stay where they are
                for dd in range(2):
                    got = np.take(grid[dd], 0, axis=1 - dd)
                    wid = np.diff(arg[dd])
                    close(got[[0, -1]], [mids[dd][0] - pad * wid[0], mids[dd][-1] + pad * wid[-1]], 1e-6, 1e-6 * np.ptp(arg[dd]), 'contour: extent of the upsampled grid')
        if np.all(hist >= 0):
            levels_ok(hist, cont['levels'], case['quants'], 'contour')
        num = check_on_grid(cont, grid, hist, 'contour')
    return num > 0, ['edges=' + case['edges'], 'pad=%s' % case['pad'], 'smooth=%s' % case['smooth'], 'upsample=%s' % case['upsample']]


# ---------------------------------------------------------------- dist2d

def check_dist2d(case):
    import kalepy as kale
    su = gen.Setup(case['kde'])
    if su.ndim < 2:
        raise gen.Skip()
    rng = np.random.RandomState(case['seed'])
    pars = rng.permutation(su.ndim)[:2].tolist()
    data = su.data[pars]
    wts = su.wts
    kde = su.kde()
    weighted = su.weights is not None
    matrix = su.matrix[np.ix_(pars, pars)]
    kname = su.kname
    kwargs = dict(params=pars) if (pars != [0, 1] or case['seed'] % 2) else {}
    target = kde
    if case['bydata']:
        # data instead of a KDE
        pars = [0, 1]
        data = su.data[:2]
        target = data
        kname = 'gaussian'
        matrix = ref.matrix(data, su.weights, None)
        kwargs = dict(weights=su.weights)
    arg = make_edges(case, data)
    quants = case['quants']
    if quants is not None:
        kwargs['quantiles'] = quants
    want_q = quants if quants is not None else 1.0 - np.exp(-0.5 * np.array([0.5, 1.0, 1.5, 2.0]) ** 2)
    if case['sigmas'] and quants is None:
        kwargs['sigmas'] = case['sigmas']
        want_q = 1.0 - np.exp(-0.5 * np.square(case['sigmas']))
    # (components that are not mentioned are drawn)
    limit = case['scatter']
    if isinstance(limit, str):
        limit = data.shape[1] + int(limit)
    parts = dict(median=case['median'], scatter=limit, contour=case['contour'], hist=case['hist'])
    if case['implied']:
        parts = {kk: vv for kk, vv in parts.items() if vv is not True}
    kwargs.update(parts)
    paint = paint_args(case['paint'], case['seed'])[0]
    kwargs.update(paint)
    if case['outline'] is not None:
        kwargs['outline'] = case['outline']
    before = repr_exact([kwargs, arg, su.data])
    mask = case['mask']
    np.random.seed(case['seed'])
    with Axes() as ax, Record() as rec:
        if case['paint'] == 'none' and case['seed'] % 2:
            # (something was drawn before)
            ax.plot([0], [0])
        nprev = len(ax.lines)
        kale.dist2d(target, ax=ax, edges=arg, mask_dense=case['dense'], mask_below=mask, **kwargs)
        ensure(repr_exact([kwargs, arg, su.data]) == before, 'dist2d changed its arguments')
        # ---- scatter
        scat = [cc['rv'] for cc in rec.of('scatter', ax)]
        ensure(len(scat) == (0 if case['scatter'] is False else 1), 'dist2d drew %d scatters', len(scat))
        if scat:
            offs = np.asarray(scat[0].get_offsets(), float).T
            if limit is True or limit >= data.shape[1]:
                ensure(np.array_equal(offs, data), 'dist2d: points are not the data of parameters %s', pars)
            else:
                # (a subset, without repetition)
                have = Counter(tuple(pp) for pp in data.T.tolist())
                have.subtract(tuple(pp) for pp in offs.T.tolist())
                ensure(offs.shape == (2, limit) and min(have.values()) >= 0, 'dist2d: %s points, some are not of the data or repeated', offs.shape)
        # ---- medians
        lines = [ln for ln in ax.lines[nprev:] if len(ln.get_xdata())]
        painted(paint, scat, lines, [cc['rv'] for cc in rec.of('pcolormesh', ax)], [ln for cc in rec.of('contour', ax) for ln in contour_lines(cc['rv'])], 'dist2d')
        if case['paint'] == 'none' and nprev:
            for art in lines:
                ensure(art.get_color() != ax.lines[0].get_color(), 'dist2d: the color of what was drawn before')
        for art in lines + [ln for cc in rec.of('contour', ax) for ln in contour_lines(cc['rv'])]:
            ensure(bool(art.get_path_effects()) == (case['outline'] is not False), 'dist2d(outline=%s): path effects %s', case['outline'], art.get_path_effects())
        ensure(len(lines) == (2 if case['median'] else 0), 'dist2d drew %d lines of medians', len(lines))
        if case['median']:
            for dd in range(2):
                gx, gy = line_xy(lines[dd], rotate=(dd == 1))
                ensure(np.ptp(gx) == 0, 'dist2d: orientation of the median of parameter %d', dd)
                if weighted:
                    eps = 1e-9 * np.ptp(data[dd])
                    below, upto = wts[data[dd] < gx[0] - eps].sum() / wts.sum(), wts[data[dd] <= gx[0] + eps].sum() / wts.sum()
                    slack = wts.max() / wts.sum()
                    ensure(below <= 0.5 + slack + 1e-9 and upto >= 0.5 - slack - 1e-9, 'dist2d: %s to %s of the weight is below the median of parameter %d', below, upto, dd)
                else:
                    close(gx[0], np.median(data[dd]), 1e-9, 1e-9 * np.ptp(data[dd]), 'dist2d: median of parameter %d' % pars[dd])
        # ---- histogram
        dens = None
        mesh = [cc['rv'] for cc in rec.of('pcolormesh', ax)]
        ensure(len(mesh) == int(case['hist']), 'dist2d drew %d histograms', len(mesh))
        if mesh:
            ex, ey, _ = mesh_edges(mesh[0])
            if case['edges'] in ('even', 'uneven'):
                close(ex, arg[0], 1e-12, 1e-12, 'dist2d: edges in x')
                close(ey, arg[1], 1e-12, 1e-12, 'dist2d: edges in y')
            # (edges that were drawn could be rounded)
            mass = count2d(data, wts, [ex, ey])
            if not mass.sum() > 0:
                raise gen.Skip()
            dens = mass / areas([ex, ey]) / mass.sum()
            shown = mesh_values(mesh[0], dens.shape)
            hid = np.ma.getmaskarray(shown)
            close(np.ma.getdata(shown)[~hid], dens[~hid], 1e-9, 1e-9 * dens.max(), 'dist2d: histogram')
            if mask is False:
                ensure(not hid.any(), 'dist2d: hidden bins')
            else:
                # the hidden bins are those of the lowest values
                ensure(hid.all() or not hid.any() or dens[hid].max() <= dens[~hid].min() + 1e-9 * dens.max(), 'dist2d: hidden bins have more data than the others')
                if True:
                    top = dens[~hid].sum() / dens.sum() if (~hid).any() else 0.0
                    ensure(top <= max(want_q) + 1e-9, 'dist2d: bins that were drawn enclose %s, for quantiles up to %s', top, max(want_q))
                    ensure((dens.sum() - dens[hid].sum() + (dens[hid].max() * 2 if hid.any() else 0)) / dens.sum() > max(want_q) - 1e-9 or not (~hid).any()
                           or np.count_nonzero(np.isclose(dens, dens[hid].max())) > 1, 'dist2d: too many bins are hidden')
        # ---- contours
        conts = rec.of('contour', ax)
        ensure(len(conts) == int(case['contour']), 'dist2d drew %d contours', len(conts))
        num = 0
        if conts:
            cont = conts[0]
            if case['bydata']:
                pnts = kale.KDE(data, weights=su.weights).points
            else:
                pnts = [kde.points[pp] for pp in pars]
            # (padded by one point in each direction)
            full = [np.concatenate([[2 * pp[0] - pp[1]], pp, [2 * pp[-1] - pp[-2]]]) for pp in pnts]
            mesh_pts = np.array([gg.ravel() for gg in np.meshgrid(*pnts, indexing='ij')])
            lo, hi = ref.density(mesh_pts, data, wts, matrix, kname)
            if kname != 'box' or np.allclose(lo, hi, rtol=1e-12):
                dens = np.pad(lo.reshape([len(pp) for pp in pnts]), 1, mode='constant', constant_values=lo.min())
                levels_ok(dens, cont['levels'], want_q, 'dist2d', tol=1e-6)
                num = check_on_grid(cont, np.meshgrid(*full, indexing='ij'), dens, 'dist2d')
        # ---- mask over scatter points
        filled = rec.of('contourf', ax)
        expect = case['dense'] if case['dense'] is not None else (case['scatter'] is not False and (case['hist'] or case['contour']))
        # (there is nothing to mask if the highest bin has more than the largest quantile)
        sure = False
        if dens is not None and min(dens.shape) > 2:
            top = dens >= dens.max() * (1 - 1e-6)
            sure = not top.all() and (dens[top].sum() + dens[~top].max()) / dens.sum() < max(want_q) * 0.99
        ensure(len(filled) <= int(expect) and (not sure or len(filled) == int(expect)), 'dist2d drew %d masks', len(filled))
        if filled:
            zord = filled[0]['kwargs']['zorder']
            ensure(all(ss.get_zorder() < zord for ss in scat) and all(mm.get_zorder() > zord for mm in mesh) and all(mm['kwargs']['zorder'] > zord for mm in conts),
                   'dist2d: the mask is not between the points and the others')
    return bool(case['hist'] or case['contour']), su.labels()[:2] + ['params=%s' % pars, 'edges=' + case['edges'], 'bydata=%s' % case['bydata'], 'contour=%s' % (num > 0)]


def prepare(dens, smooth, upsample, pad):
    """Padded with the lowest value, upsampled, and smoothed"""
    from scipy import ndimage
    pad = 1 if pad is True else int(pad or 0)
    fac = 2 if upsample is True else int(upsample or 1)
    full = np.pad(dens, pad, mode='constant', constant_values=dens.min()) if pad else dens
    if fac != 1:
        full = ndimage.zoom(full, fac, mode='mirror')
    if smooth:
        full = ndimage.gaussian_filter(full, (1.0 if smooth is True else smooth) * fac)
    return full


def check_reflect(case):
    """A KDE with reflection: distributions are drawn within the boundaries, and with the reflected density"""
    import kalepy as kale
    rng = np.random.RandomState(case['seed'])
    size = case['size']
    num = int(rng.randint(8, 40))
    data = rng.beta(1.2, 1.2, size=(size, num)) * rng.uniform(0.5, 4, size=(size, 1)) + np.arange(size)[:, None] * 10.0
    bounds = []
    for ii in range(size):
        lo, hi = data[ii].min() - rng.uniform(0.01, 0.4), data[ii].max() + rng.uniform(0.01, 0.4)
        bounds.append([[lo, hi], [lo, hi], None, [lo, None], [None, hi]][(case['sides'] // 5 ** ii) % 5])
    pars = rng.permutation(size)[:2].tolist()
    if not case['mixed'] and (size == 2 and pars == [0, 1]):
        pars = [1, 0]
    if all(bb is None for bb in bounds):
        bounds[pars[0]] = [data[pars[0]].min() - 0.1, None]
    kernel = ['gaussian', 'parabola'][case['seed'] % 2]
    # (reflection in two dimensions at once is not exact at the corners)
    kde = kale.KDE(data, reflect=bounds, kernel=kernel, bandwidth=0.3)
    before = repr_exact([data, bounds, pars])
    kw = dict(smooth=case['smooth'], upsample=case['upsample'], pad=case['pad'])
    np.random.seed(case['seed'])
    with Axes() as ax, Record() as rec:
        kale.dist2d(kde, ax=ax, params=pars, quantiles=case['quants'], scatter=False, median=case['median'], mask_dense=case['dense'], **kw)
        ensure(repr_exact([data, bounds, pars]) == before, 'dist2d changed its arguments')
        mesh = [cc['rv'] for cc in rec.of('pcolormesh', ax)]
        ensure(len(mesh) == 1, 'dist2d drew %d histograms', len(mesh))
        edges = mesh_edges(mesh[0])[:2]
        for pp, ee in zip(pars, edges):
            bnd = bounds[pp] or [None, None]
            wid = np.ptp(data[pp])
            for side, (idx, lim) in enumerate(zip([0, -1], bnd)):
                if lim is not None:
                    close(ee[idx], lim, 1e-9, 1e-9 * wid, 'dist2d: %s edge of the bins of parameter %d' % (['first', 'last'][side], pp))
            ensure(ee[0] <= data[pp].min() + 1e-9 * wid and ee[-1] >= data[pp].max() - 1e-9 * wid, 'dist2d: data of parameter %d are outside of the bins %s to %s', pp, ee[0], ee[-1])
        dens = count2d(data[pars], np.ones(num), edges) / areas(edges) / num
        shown = mesh_values(mesh[0], dens.shape)
        hid = np.ma.getmaskarray(shown)
        close(np.ma.getdata(shown)[~hid], dens[~hid], 1e-9, 1e-9 * dens.max(), 'dist2d: histogram')
        conts = rec.of('contour', ax)
        ensure(len(conts) == 1, 'dist2d drew %d contours', len(conts))
        cont = conts[0]
        # the density of the KDE, on its grid
        points, pdf = kde.density(params=pars)
        full = prepare(np.asarray(pdf), **kw)
        close(cont['args'][2], full, 1e-6, 1e-6 * full.max(), 'dist2d: the distribution for %s' % kw)
        levels_ok(full, cont['levels'], case['quants'], 'dist2d', tol=1e-6)
        grid = [np.asarray(aa) for aa in cont['args'][:2]]
        check_on_grid(cont, grid, full, 'dist2d')
        pad = 1 if case['pad'] is True else int(case['pad'] or 0)
        for dd in range(2):
            got = np.take(grid[dd], 0, axis=1 - dd)
            want = np.asarray(points[dd])
            wid = np.diff(want)
            close(got[[0, -1]], [want[0] - pad * wid[0], want[-1] + pad * wid[-1]], 1e-6, 1e-6 * np.ptp(want), 'dist2d: extent of the grid')
    return True, ['params=%s' % pars, 'kernel=' + kernel, 'smooth=%s' % case['smooth'], 'upsample=%s' % case['upsample'], 'pad=%s' % case['pad']]


QUANTS = st.lists(st.integers(2, 49), min_size=1, max_size=5, unique=True).map(lambda vv: sorted(xx / 50.0 for xx in vv))

SUBS = [
    Sub('hist2d', data_2d(mask=gen.choice('none', 'true', 'true', 'false', 'value', 'value'), aslist=st.booleans()), check_hist2d, 120,
        rule='histograms with at least three bins that are not empty'),
    Sub('contour', data_2d(quants=QUANTS, smooth=gen.choice(None, None, False, 0.7, 1.5), upsample=gen.choice(None, None, False, 1, 1, 2, 3, True), pad=gen.choice(True, False, 1, 2, None), outline=st.booleans(),
                           paint=gen.choice('none', 'color', 'cmap', 'both')),
        check_contour, 150, rule='some contour was drawn'),
    Sub('dist2d-reflect', st.fixed_dictionaries(dict(size=gen.choice(2, 2, 3), seed=gen.seeds, sides=st.integers(0, 124), mixed=st.booleans(), quants=QUANTS, median=st.booleans(), dense=gen.choice(None, True, False),
                                                     smooth=gen.choice(None, None, 0.7, 1.5), upsample=gen.choice(None, None, 2, 3), pad=gen.choice(True, True, False, 2))), check_reflect, 60,
        rule='all'),
    Sub('dist2d', st.fixed_dictionaries(dict(
        kde=gen.kde_spec(2, 3, 6, 40, weights=['none', 'none', 'uniform', 'lognormal', 'zeros']), seed=gen.seeds, edges=gen.choice('none', 'count', 'counts', 'even', 'uneven'), quants=st.one_of(st.none(), QUANTS),
        sigmas=gen.choice(None, None, [1.0, 2.0]), bydata=gen.choice(False, False, True), median=st.booleans(), scatter=gen.choice(True, False, 4, 1000, '-1', '-1', '-2', '0', '+1'), contour=gen.choice(True, True, False),
        hist=st.booleans(), dense=gen.choice(None, True, False), mask=gen.choice(True, False),
        implied=st.booleans(), paint=gen.choice('none', 'color', 'cmap', 'both'), outline=gen.choice(None, True, False))), check_dist2d, 120,
        rule='with a histogram or contours'),
]
ASSUMPTIONS = ['What matplotlib was asked to draw is what is seen: its own rendering is not part of the check.']
