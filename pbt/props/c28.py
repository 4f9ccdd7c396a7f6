"""Corner plots: every panel shows the parameters of its row and column"""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .c26 import same_line, step_points
from .c20 import count
from .c27 import contour_lines, count2d, areas, mesh_edges, mesh_values
from .plots import Record, levels_ok, line_xy, paint_args, painted, span, warm   # noqa
from .util import Sub, close, ensure, raises, repr_exact

ID = 'C28'


class Figures:
    """Close every figure at the end"""

    def __enter__(self):
        return self

    def __exit__(self, *args):
        import matplotlib.pyplot as plt
        plt.close('all')


SIZE = dict(figsize=3)


def panel_kind(rec, ax, name):
    return [cc['rv'] for cc in rec.of(name, ax)]


# ---------------------------------------------------------------- construction

def check_layout(case):
    import kalepy as kale
    size = case['size']
    labels = ['p%d' % ii for ii in range(size)]
    limits = [[float(ii), ii + 2.0] for ii in range(size)] if case['limits'] else None
    ticks = [[ii + 0.5, ii + 1.5] for ii in range(size)] if case['ticks'] else None
    given = dict(labels=labels, limits=limits, ticks=ticks)
    before = repr_exact(given)
    with Figures():
        kw = {} if case['origin'] is None else dict(origin=case['origin'])
        if case['rotate'] is not None:
            kw['rotate'] = case['rotate']
        corner = kale.Corner(size, labels=labels, limits=limits, ticks=ticks, **SIZE, **kw)
        ensure(repr_exact(given) == before, 'Corner changed its arguments')
        origin = (case['origin'] or 'tl').lower()
        rotate = case['rotate'] is not False
        axes = corner.axes
        ensure(np.shape(axes) == (size, size), 'axes have shape %s', np.shape(axes))
        for (ii, jj), ax in np.ndenumerate(axes):
            what = 'panel (%d, %d) of %d' % (ii, jj, size)
            ensure(ax.get_visible() == (jj <= ii), '%s: visible %s', what, ax.get_visible())
            # position on the figure: rows downward (or upward) from the corner, columns to the right (or left)
            pos = ax.get_position()
            first = axes[0, 0].get_position()
            if ii > 0:
                above = axes[ii - 1, jj].get_position()
                ensure((pos.y0 < above.y0) == (origin[0] == 'b'), '%s is on the wrong side, for origin %s', what, origin)
            if jj > 0:
                left = axes[ii, jj - 1].get_position()
                ensure((pos.x0 > left.x0) == (origin[1] == 'l'), '%s is on the wrong side, for origin %s', what, origin)
            del first
            if jj > ii:
                continue
            turned = rotate and ii == jj == size - 1
            want_x = labels[jj] if (ii == size - 1 and not turned) else ''
            ensure(ax.get_xlabel() == want_x, '%s: label %r, expected %r', what, ax.get_xlabel(), want_x)
            if ii != jj:
                want_y = labels[ii] if jj == 0 else ''
                ensure(ax.get_ylabel() == want_y, '%s: label %r, expected %r', what, ax.get_ylabel(), want_y)
            # labels are on the outer sides, numbers are not shown between panels
            if ii == size - 1:
                side = 'top' if origin[0] == 't' else 'bottom'
                ensure(ax.xaxis.get_label_position() == side and ax.xaxis.get_ticks_position() == side, '%s: labels on the side %r of x, expected %r', what, ax.xaxis.get_label_position(), side)
            if ii != jj and jj == 0:
                side = 'right' if origin[1] == 'r' else 'left'
                ensure(ax.yaxis.get_label_position() == side and ax.yaxis.get_ticks_position() == side, '%s: labels on the side %r of y, expected %r', what, ax.yaxis.get_label_position(), side)
            shown = [any(tt.get_visible() for tt in lab) for lab in (ax.xaxis.get_ticklabels(), ax.yaxis.get_ticklabels())]
            ensure(shown[0] == (ii == size - 1), '%s: numbers of x are shown: %s', what, shown[0])
            if ii != jj:
                ensure(shown[1] == (jj == 0), '%s: numbers of y are shown: %s', what, shown[1])
            if limits is not None:
                if ii == jj:
                    got = ax.get_ylim() if turned else ax.get_xlim()
                    close(got, limits[jj], 1e-12, 1e-12, what + ': limits')
                else:
                    close(ax.get_xlim(), limits[jj], 1e-12, 1e-12, what + ': limits in x')
                    close(ax.get_ylim(), limits[ii], 1e-12, 1e-12, what + ': limits in y')
            if ticks is not None:
                if ii == jj:
                    close(ax.get_yticks() if turned else ax.get_xticks(), ticks[jj], 1e-12, 0, what + ': ticks')
                else:
                    close(ax.get_xticks(), ticks[jj], 1e-12, 0, what + ': ticks in x')
                    close(ax.get_yticks(), ticks[ii], 1e-12, 0, what + ': ticks in y')
    return size > 1, ['size=%d' % size, 'origin=%s' % case['origin']]


# ---------------------------------------------------------------- contents

def lines_with_points(ax):
    return [ln for ln in ax.lines if len(ln.get_xdata(orig=True))]


def weight_fraction(xx, wts, loc, eps):
    tot = wts.sum()
    return wts[xx < loc - eps].sum() / tot, wts[xx <= loc + eps].sum() / tot


def check_panels(corner, rec, su, expect, edges, quants, rotate, fromkde, what, paint):
    """One plot call on new axes: artists of every panel"""
    size = su.ndim
    axes = corner.axes
    data, wts = su.data, su.wts
    kname, matrix = (su.kname, su.matrix) if fromkde else ('gaussian', ref.matrix(su.data, su.weights, None))
    want_q = quants if quants is not None else 1.0 - np.exp(-0.5 * np.array([0.5, 1.0, 1.5, 2.0]) ** 2)
    # everything is drawn in the same color, and colormap
    color = painted(paint, [], lines_with_points(axes[0, 0]), [], [], what)
    full = dict(color=color, **{kk: vv for kk, vv in paint.items() if kk != 'color'})
    for (ii, jj), ax in np.ndenumerate(axes):
        lab = '%s: panel (%d, %d)' % (what, ii, jj)
        scat = panel_kind(rec, ax, 'scatter')
        mesh = panel_kind(rec, ax, 'pcolormesh')
        cont = rec.of('contour', ax)
        filled = rec.of('contourf', ax)
        lines = lines_with_points(ax)
        painted(full, scat, lines, mesh, [ln for cc in cont for ln in contour_lines(cc['rv'])], lab)
        if color is not None:
            painted(full, list(ax.patches), [], [], [], lab + ': bands')
        if jj > ii:
            ensure(not (scat or mesh or cont or filled or lines or ax.patches), '%s is not empty', lab)
            continue
        if ii == jj:
            turned = rotate and (ii == size - 1)
            ensure(not mesh and not cont, '%s has two-dimensional elements', lab)
            ensure(len(scat) == int(expect['carpet']), '%s has %d carpets', lab, len(scat))
            if scat:
                offs = np.asarray(scat[0].get_offsets())[:, 1 if turned else 0]
                ensure(np.array_equal(offs, data[ii]), '%s: carpet is not at the data of parameter %d', lab, ii)
            num = int(expect['density']) + int(expect['hist1d']) + int(expect['confidence'])
            ensure(len(lines) == num, '%s has %d lines, expected %d', lab, len(lines), num)
            lines = list(lines)
            if expect['density']:
                gx, gy = line_xy(lines.pop(0), turned)
                if edges is not None:
                    ensure(gx.shape == np.shape(edges[ii]) and np.array_equal(gx, edges[ii]), '%s: the density is not drawn at the given edges', lab)
                mat = matrix[ii:ii + 1, ii:ii + 1]
                lo, hi = ref.density(gx[None, :], data[ii:ii + 1], wts, mat, kname)
                tol = 1e-9 * ref.peak(wts, mat, kname)
                ok = (gy * wts.sum() >= lo * (1 - 1e-6) - tol) & (gy * wts.sum() <= hi * (1 + 1e-6) + tol)
                ensure(np.all(ok), '%s: the line is not the density of parameter %d', lab, ii)
            if expect['hist1d']:
                line = lines.pop(0)
                hx, hy = line_xy(line, turned)
                eds = np.append(hx[::2], hx[-1])
                if edges is not None:
                    ensure(np.array_equal(eds, edges[ii]), '%s: histogram is not drawn with the given edges', lab)
                want = count(data[ii], wts, eds) / np.diff(eds) / wts.sum()
                same_line(line, step_points(eds, want, True), turned, lab + ': histogram')
            if expect['confidence']:
                ensure(len(ax.patches) == len(want_q), '%s has %d bands', lab, len(ax.patches))
                eps = 1e-9 * np.ptp(data[ii])
                slack = wts.max() / wts.sum() + 1e-9
                for pp, qq in zip(ax.patches, want_q):
                    band = span(pp, turned)
                    ensure(band is not None, '%s: orientation of the bands', lab)
                    for loc, fr in zip(band, [0.5 - qq / 2, 0.5 + qq / 2]):
                        below, upto = weight_fraction(data[ii], wts, loc, eps)
                        ensure(below <= fr + slack and upto >= fr - slack, '%s: %s to %s of the weight is below the side of the band, expected %s', lab, below, upto, fr)
            else:
                ensure(len(ax.patches) == 0, '%s has bands', lab)
            continue
        pair = data[[jj, ii]]
        ensure(len(scat) == int(expect['scatter']), '%s has %d scatters', lab, len(scat))
        if scat:
            offs = np.asarray(scat[0].get_offsets()).T
            ensure(np.array_equal(offs, pair), '%s: points are not those of parameters %d and %d', lab, jj, ii)
        ensure(len(lines) == 2, '%s has %d lines of medians', lab, len(lines))
        for dd, (line, xx) in enumerate(zip(lines, pair)):
            gx, _ = line_xy(line, rotate=(dd == 1))
            below, upto = weight_fraction(xx, wts, gx[0], 1e-9 * np.ptp(xx))
            slack = wts.max() / wts.sum() + 1e-9
            ensure(np.ptp(gx) == 0 and below <= 0.5 + slack and upto >= 0.5 - slack, '%s: %s to %s of the weight of parameter %d is below its median', lab, below, upto, [jj, ii][dd])
        ensure(len(mesh) == int(expect['hist2d']), '%s has %d histograms', lab, len(mesh))
        if mesh:
            ex, ey, _ = mesh_edges(mesh[0])
            if edges is not None:
                close(ex, edges[jj], 1e-12, 1e-12, lab + ': edges in x')
                close(ey, edges[ii], 1e-12, 1e-12, lab + ': edges in y')
            mass = count2d(pair, wts, [ex, ey])
            dens = mass / areas([ex, ey]) / mass.sum()
            shown = mesh_values(mesh[0], dens.shape)
            hid = np.ma.getmaskarray(shown)
            close(np.ma.getdata(shown)[~hid], dens[~hid], 1e-9, 1e-9 * dens.max(), lab + ': histogram')
            ensure(expect['mask_below'] or not hid.any(), '%s: hidden bins', lab)
            if expect['mask_below']:
                # the bins shown are the highest, and enclose the largest of the quantiles
                ensure(hid.all() or not hid.any() or dens[hid].max() <= dens[~hid].min() + 1e-9 * dens.max(), '%s: hidden bins have more data than the others', lab)
                top = dens[~hid].sum() / dens.sum()
                ensure(top <= max(want_q) + 1e-9, '%s: bins that were drawn enclose %s, for quantiles up to %s', lab, top, max(want_q))
                more = dens[hid].max() * 2 if hid.any() else 0
                ensure(hid.all() or (dens[~hid].sum() + more) / dens.sum() > max(want_q) - 1e-9 or np.count_nonzero(np.isclose(dens, dens[hid].max())) > 1, '%s: too many bins are hidden', lab)
        ensure(len(cont) == int(expect['contour']), '%s has %d contours', lab, len(cont))
        if cont:
            levels_ok(np.asarray(cont[0]['args'][2]), cont[0]['levels'], want_q, lab + ': contours', tol=1e-6)
        if cont and kname != 'box':
            # vertices of contours have the density of their level, to the accuracy of the grid
            block = matrix[np.ix_([jj, ii], [jj, ii])]
            peak = None
            segs = [[vv for vv in ss if len(vv)] for ss in cont[0]['segs']]
            gx, gy = cont[0]['args'][0][:, 0], cont[0]['args'][1][0, :]
            mesh_pts = np.array([gg.ravel() for gg in np.meshgrid(gx[1:-1], gy[1:-1], indexing='ij')])
            lo, _ = ref.density(mesh_pts, pair, wts, block, kname)
            grid = lo.reshape(gx.size - 2, gy.size - 2) / wts.sum()
            got = np.asarray(cont[0]['args'][2])[1:-1, 1:-1]
            peak = grid.max()
            # (without any density on the grid, if that is much coarser than the kernels)
            scale = got.max() / peak if peak > 0 else 1.0
            ensure(np.allclose(got / scale, grid, rtol=1e-6, atol=1e-8 * peak), '%s: contours are not those of the density of parameters %d and %d', lab, jj, ii)
            ensure(np.isclose(scale, 1.0) or np.isclose(scale, wts.sum()), '%s: normalization of the contours', lab)
            del segs
        if expect['mask_dense'] is not None:
            ensure(len(filled) <= int(expect['mask_dense']), '%s has %d masks', lab, len(filled))


MODES = {
    'plot': dict(density=True, hist1d=False, confidence=True, carpet=True, hist2d=True, scatter=True, contour=True, mask_below=True, mask_dense=True),
    'clean': dict(density=True, hist1d=False, confidence=False, carpet=False, hist2d=False, scatter=False, contour=True, mask_below=False, mask_dense=False),
    'hist': dict(density=False, hist1d=True, confidence=False, carpet=False, hist2d=True, scatter=False, contour=False, mask_below=False, mask_dense=False),
    'plot_kde': dict(density=True, hist1d=False, confidence=True, carpet=False, hist2d=False, scatter=False, contour=True, mask_below=True, mask_dense=False),
    'plot_data': dict(density=False, hist1d=True, confidence=False, carpet=True, hist2d=True, scatter=True, contour=False, mask_below=True, mask_dense=True),
}


def make_edges(form, su, seed):
    rng = np.random.RandomState(seed + 2)
    if form == 'none':
        return None
    if form == 'count':
        return 4
    if form == 'counts':
        return [3 + ii for ii in range(su.ndim)]
    lo, hi = su.data.min(axis=1), su.data.max(axis=1)
    wid = hi - lo
    return [np.linspace(lo[ii] - 0.1 * wid[ii], hi[ii] + 0.1 * wid[ii], int(rng.randint(4, 7)) + ii) for ii in range(su.ndim)]


def check_plot(case):
    import kalepy as kale
    su = gen.Setup(case['kde'])
    mode = case['mode']
    rotate = case['rotate'] is not False
    edges = make_edges(case['edges'], su, case['seed'])
    opts = dict()
    expect = dict(MODES[mode])
    d1, d2 = dict(), dict()
    if case['over'] == '1d':
        d1 = dict(hist=True, confidence=False, carpet=True)
        expect.update(hist1d=True, confidence=False, carpet=True)
    elif case['over'] == '2d':
        d2 = dict(hist=True, scatter=True, contour=False)
        expect.update(hist2d=True, scatter=True, contour=False, mask_dense=None)
    quants = case['quants']
    if quants is not None:
        opts['quantiles'] = quants
    if edges is not None:
        opts['edges'] = edges
    paint = paint_args(case['paint'], case['seed'])[0]
    opts.update(paint)
    fromkde = case['source'] != 'data'
    with Figures(), Record() as rec:
        kw = {} if case['rotate'] is None else dict(rotate=case['rotate'])
        plotted = dict(data=su.data, weights=su.weights, edges=edges, d1=d1, d2=d2, quants=quants)
        before = repr_exact(plotted)
        kde = su.kde(flat=False)
        np.random.seed(case['seed'])
        if case['first'] == 'given':
            corner = kale.Corner(kde if fromkde else su.data, weights=None if fromkde else su.weights, **SIZE, **kw)
            func = getattr(corner, mode)
            func(dist1d=d1, dist2d=d2, **opts)
        else:
            corner = kale.Corner(su.ndim, **SIZE, **kw)
            func = getattr(corner, mode)
            if fromkde:
                func(kde, dist1d=d1, dist2d=d2, **opts)
            else:
                func(su.data, weights=su.weights, dist1d=d1, dist2d=d2, **opts)
        ensure(repr_exact(plotted) == before, 'Corner.%s changed its arguments', mode)
        check_panels(corner, rec, su, expect, edges if case['edges'] == 'given' else None, quants, rotate, fromkde, 'Corner.%s' % mode, paint)
        # all of the data are within the limits, which are the same in each row and column
        ref_lims = [None] * su.ndim
        for (ii, jj), ax in np.ndenumerate(corner.axes):
            if jj > ii:
                continue
            if ii == jj:
                lim = ax.get_ylim() if (rotate and ii == su.ndim - 1) else ax.get_xlim()
                pairs = [(ii, lim)]
            else:
                pairs = [(jj, ax.get_xlim()), (ii, ax.get_ylim())]
            for pp, lim in pairs:
                lim = np.asarray(lim, float)
                if ref_lims[pp] is None:
                    ref_lims[pp] = lim
                ensure(np.array_equal(ref_lims[pp], lim), 'Corner.%s: limits of parameter %d are %s and %s', mode, pp, ref_lims[pp], lim)
                if case['edges'] != 'given' or mode in ('hist', 'plot_data'):
                    ensure(lim[0] < su.data[pp].min() and lim[1] > su.data[pp].max(), 'Corner.%s: data of parameter %d are outside of the limits %s', mode, pp, lim)
                span_ = np.ptp(su.data[pp]) if mode in ('hist', 'plot_data') else None
                if span_ is not None:
                    close(lim, [su.data[pp].min() - 0.05 * 2 * span_ / 2, su.data[pp].max() + 0.05 * 2 * span_ / 2], 1e-9, 1e-9 * span_, 'limits of parameter %d' % pp)
    return True, su.labels()[:1] + ['mode=' + mode, 'source=' + case['source'], 'edges=' + case['edges']]


# ---------------------------------------------------------------- sequences of plots

def snapshot(corner, rec):
    """What was drawn by the calls since `rec` was emptied (order of axes), as numbers"""
    out = []
    for idx, ax in np.ndenumerate(corner.axes):
        calls = []
        for cc in rec.of('scatter', ax):
            calls.append(np.array(cc['rv'].get_offsets()))
        for cc in rec.of('pcolormesh', ax):
            calls.append(np.ma.filled(np.ma.asarray(cc['args'][-1], float), np.nan))
        for cc in rec.of('contour', ax) + rec.of('contourf', ax):
            calls += [np.array(aa) for aa in cc['args']] + [cc['levels']]
        out.append((idx, [(aa.shape, aa.tobytes()) for aa in calls]))
    return repr(out)


def drawn_lines(corner, skip):
    return [[ln.get_xydata().tobytes() for ln in ax.lines[skip[idx]:]] for idx, ax in np.ndenumerate(corner.axes)]


def check_history(case):
    """The same plot, drawn after others, is the same;  limits include everything drawn"""
    import kalepy as kale
    size = case['size']
    sets = []
    for ii, sd in enumerate(case['seeds']):
        rng = np.random.RandomState(sd)
        sets.append(rng.normal(size=(size, 8 + ii)) * rng.uniform(0.5, 3) + rng.uniform(-3, 3, size=(size, 1)))
    kw = dict(color='b')
    given = [[float(-1 - ii), 2.0 + ii] for ii in range(size)] if case['limits'] else None
    before = repr_exact([sets, given])
    with Figures():
        def run(corner, rec, ii):
            np.random.seed(ii)
            rec.calls.clear()
            skip = {idx: len(ax.lines) for idx, ax in np.ndenumerate(corner.axes)}
            mode = case['modes'][ii % len(case['modes'])]
            extra = dict(dist1d=dict(carpet=False)) if (case['opts'] + ii) % 3 == 0 else {}
            if (case['opts'] + ii) % 4 == 1:
                extra['dist2d'] = dict(median=False)
            # (the carpet depends on the limits of the axes at the time)
            extra.setdefault('dist1d', {}).setdefault('carpet', False)
            getattr(corner, mode)(sets[ii], **kw, **extra)
            return snapshot(corner, rec), drawn_lines(corner, skip), extra
        with Record() as rec:
            alone = [run(kale.Corner(size, limits=given, **SIZE), rec, ii) for ii in range(len(sets))][::1]
            corner = kale.Corner(size, limits=given, **SIZE)
            for ii in range(len(sets)):
                got = run(corner, rec, ii)
                ensure(got[0] == alone[ii][0] and got[1] == alone[ii][1], 'plot %d (%s) depends on previous plots', ii, case['modes'][ii % len(case['modes'])])
                for pp in range(size):
                    for jj in range(size):
                        if jj > pp:
                            continue
                        ax = corner.axes[pp, jj]
                        lims = []
                        if pp == jj:
                            lims.append((pp, ax.get_ylim() if pp == size - 1 else ax.get_xlim()))
                        else:
                            lims += [(jj, ax.get_xlim()), (pp, ax.get_ylim())]
                        for par, lim in lims:
                            if given is not None:
                                close(lim, given[par], 1e-12, 1e-12, 'given limits of parameter %d' % par)
                            else:
                                for kk in range(ii + 1):
                                    ensure(lim[0] <= sets[kk][par].min() and lim[1] >= sets[kk][par].max(), 'after plot %d the data of plot %d (parameter %d) are outside of the limits', ii, kk, par)
        ensure(repr_exact([sets, given]) == before, 'the data or limits were changed')
    return len(sets) > 1, ['size=%d' % size, 'limits=%s' % case['limits']] + sorted(set(case['modes']))


# ---------------------------------------------------------------- given limits

def check_limits(case):
    """Given limits are used as they are, unless they are to be adjusted to the data, and are not changed for the caller"""
    import kalepy as kale
    size = case['size']
    rng = np.random.RandomState(case['seed'])
    data = [rng.normal(size=(size, 9)) * 3 + 5 * ii for ii in range(2)]
    given = [[-1.0 - ii, 2.0 + ii] for ii in range(size)]
    form = case['form']
    arg = dict(list=given, tuple=tuple(tuple(gg) for gg in given), array=np.array(given))[form]
    keep = [list(gg) for gg in given]
    before = repr_exact(arg)
    with Figures():
        corner = kale.Corner(size, limits=arg, **SIZE) if case['given'] else kale.Corner(size, **SIZE)
        want = keep
        if not case['given']:
            # (set by the user)
            for pp in range(size):
                for jj in range(pp):
                    corner.axes[pp, jj].set_ylim(keep[pp])
                for jj in range(pp + 1, size):
                    corner.axes[jj, pp].set_xlim(keep[pp])
        for ii, flag in enumerate(case['flags']):
            kw = {} if flag is None else dict(limit=flag)
            flag = (not case['given']) if flag is None else flag
            getattr(corner, case['mode'])(data[ii % 2], color='b', dist1d=dict(carpet=False), **kw)
            ensure(repr_exact(arg) == before, 'the limits given to Corner were changed, from %s to %s', keep, arg)
            if flag:
                want = None
            for pp in range(size):
                if want is not None:
                    lims = [corner.axes[pp, jj].get_ylim() for jj in range(pp)] + [corner.axes[ii_, pp].get_xlim() for ii_ in range(pp + 1, size)]
                    for lim in lims:
                        close(lim, want[pp], 1e-12, 1e-12, 'given limits of parameter %d' % pp)
                elif flag:
                    lims = [corner.axes[pp, jj].get_ylim() for jj in range(pp)] + [corner.axes[ii_, pp].get_xlim() for ii_ in range(pp + 1, size)]
                    for lim in lims:
                        ensure(lim[0] <= data[ii % 2][pp].min() and lim[1] >= data[ii % 2][pp].max(), 'limits of parameter %d were not adjusted to the data: %s', pp, lim)
    return any(case['flags']), ['form=' + form, 'mode=' + case['mode']]


# ---------------------------------------------------------------- legend

def check_legend(case):
    import kalepy as kale
    size = case['size']
    num = case['num']
    labels = ['l%d' % ii for ii in range(num)]
    cols = ['r', 'g', 'b', 'k'][:num]
    with Figures():
        corner = kale.Corner(size, **SIZE)
        fig = corner.fig
        handles = [corner.axes[0, 0].plot([0, 1], [ii, 1], color=cc)[0] for ii, cc in enumerate(cols)]
        kw = dict()
        where = case['where']
        if where == 'bbox':
            kw['bbox_to_anchor' if case['row'] % 2 else 'bbox'] = (0.35, 0.55)
        elif where == 'index':
            kw['index'] = (case['row'] % size, case['col'] % size)
        if case['loc'] is not None:
            kw['loc'] = case['loc']
        elif where != 'default':
            kw['loc'] = 'center'
        kw_before = repr_exact([labels, kw])
        leg = corner.legend(handles, labels, **kw)
        ensure(repr_exact([labels, kw]) == kw_before, 'legend changed its arguments')
        ensure(len(fig.legends) == 1 and fig.legends[0] is leg, 'the legend is not part of the figure')
        ensure([tt.get_text() for tt in leg.get_texts()] == labels, 'labels of the legend %s', [tt.get_text() for tt in leg.get_texts()])
        got = [ln.get_color() for ln in leg.get_lines()]
        ensure(got == cols, 'colors of the legend %s, expected %s', got, cols)
        box = leg.get_bbox_to_anchor()
        pos = fig.transFigure.inverted().transform([box.x0, box.y0])
        if where == 'bbox':
            close(pos, [0.35, 0.55], 1e-6, 1e-6, 'legend: the given position')
        elif where == 'index':
            pan = corner.axes[kw['index']].get_position()
            close(pos, [pan.x0, pan.y0], 1e-6, 1e-6, 'legend: position of panel %s' % (kw['index'],))
        elif size > 1:
            found = [idx for idx, ax in np.ndenumerate(corner.axes) if np.allclose([ax.get_position().x0, ax.get_position().y0], pos, atol=1e-6)]
            ensure(len(found) == 1 and found[0][1] > found[0][0], 'legend: it is not at an empty panel, but at %s', found)
        if case['loc'] is not None:
            ensure(leg._loc == {'upper right': 1, 'upper left': 2, 'lower left': 3, 'lower right': 4, 'center': 10}[case['loc']], 'legend: location %s', leg._loc)
    return where != 'default' or size > 1, ['size=%d' % size, 'where=' + where, 'loc=%s' % case['loc']]


# ---------------------------------------------------------------- figures

LAYOUT = dict(left=0.21, bottom=0.17, right=0.83, top=0.79, hspace=0.27, wspace=0.33)


def figure_state(fig):
    pars = fig.subplotpars
    out = [pars.left, pars.bottom, pars.right, pars.top, pars.hspace, pars.wspace, len(fig.axes), len(fig.legends), len(fig.texts)]
    for ax in fig.axes:
        out.append([len(ax.lines), len(ax.patches), len(ax.collections), ax.get_xlim(), ax.get_ylim(), ax.get_xlabel(), ax.get_visible()])
    return repr(out)


def check_figure(case):
    """A corner plot is drawn on its own (or the given) figure and axes, and on no other"""
    import kalepy as kale
    import matplotlib.pyplot as plt
    size = case['size']
    rng = np.random.RandomState(case['seed'])
    data = rng.normal(size=(size, 25))
    with Figures():
        own = plt.figure(figsize=(3, 3)) if case['form'] in ('fig', 'axes') else None
        given = own.subplots(size, size, squeeze=False) if case['form'] == 'axes' else None
        other, oax = plt.subplots(figsize=(2, 2))
        oax.plot([0, 1], [2, 3])
        if case['current'] and own is not None:
            plt.figure(own.number)
            if given is not None:
                plt.sca(given[-1, 0])
        before = figure_state(other)
        layout = {kk: (0.0 if kk in ('hspace', 'wspace', 'left', 'bottom') and (case['seed'] >> ii) & 1 else vv) for ii, (kk, vv) in enumerate(sorted(LAYOUT.items())) if (case['layout'] >> ii) & 1} if case['form'] != 'axes' else {}
        kw = dict(layout)
        if case['form'] == 'fig':
            kw['fig'] = own
        elif case['form'] == 'axes':
            kw['axes'] = given
        else:
            kw['figsize'] = [3, [3, 2]][case['seed'] % 2]
        corner = kale.Corner(data if case['held'] else size, **kw)
        if own is None:
            own = corner.fig
            ensure(list(own.get_size_inches()) == ([3, 3] if case['seed'] % 2 == 0 else [3, 2]), 'size of the figure %s', own.get_size_inches())
        ensure(corner.fig is own and own is not other, 'another figure is used')
        ensure(np.shape(corner.axes) == (size, size) and set(corner.axes.flat) == set(own.axes), 'the axes are not those of the figure')
        if given is not None:
            ensure(all(aa is bb for aa, bb in zip(given.flat, corner.axes.flat)), 'the given axes are not used')
        for kk, vv in layout.items():
            close(getattr(own.subplotpars, kk), vv, 1e-12, 0, 'layout of the figure: %s' % kk)
        spare = figure_state(own)
        args = () if case['held'] else (data,)
        getattr(corner, case['method'])(*args)
        ensure(figure_state(own) != spare, 'nothing was drawn')
        drawn = [idx for idx, ax in np.ndenumerate(corner.axes) if ax.lines or ax.collections or ax.patches]
        ensure(set(drawn) == set(idx for idx in np.ndindex(size, size) if idx[1] <= idx[0]), 'drawn in panels %s', drawn)
        corner.target([0.0] * size)
        corner.legend([corner.axes[0, 0].lines[0]], ['a'], loc='center')
        ensure(figure_state(other) == before, 'another figure was changed')
        nums = plt.get_fignums()
        ensure(len(nums) == 2, '%d figures, expected 2', len(nums))
    return True, ['form=' + case['form'], 'size=%d' % size, case['method']]


# ---------------------------------------------------------------- targets

def check_target(case):
    import kalepy as kale
    size = case['size']
    rng = np.random.RandomState(case['seed'])
    limits = [[float(ii), ii + 4.0] for ii in range(size)]
    targets = [None if rng.randint(4) == 0 else ii + 1.0 + rng.uniform() for ii in range(size)]
    upper = [None if rng.randint(2) == 0 else ii + 3.0 + 0.5 * rng.uniform() for ii in range(size)]
    lower = [None if rng.randint(2) == 0 else ii + 0.5 + 0.3 * rng.uniform() for ii in range(size)]
    # special values:  zero, within the limits
    if case['zero']:
        for vals in (targets, upper, lower):
            par = rng.randint(size)
            if vals[par] is not None and rng.randint(2):
                limits[par] = [-2.0, par + 5.0]
                vals[par] = 0 if case['zero'] == 1 else 0.0
    args = dict(targets=targets, upper=upper, lower=lower)
    before = repr_exact(args)
    rotate = case['rotate']
    with Figures():
        corner = kale.Corner(size, limits=limits, rotate=rotate, **SIZE)
        kw = dict()
        if case['upper']:
            kw['upper_limits'] = upper
        if case['lower']:
            kw['lower_limits'] = lower
        corner.target(targets, **kw)
        ensure(repr_exact(args) == before, 'Corner.target changed its arguments')
        for (ii, jj), ax in np.ndenumerate(corner.axes):
            lab = 'panel (%d, %d)' % (ii, jj)
            if jj > ii:
                ensure(not ax.lines and not ax.patches, '%s is not empty', lab)
                continue
            turned = rotate and (ii == jj == size - 1)
            # direction -> parameter
            want = [(jj, turned)] if ii == jj else [(jj, False), (ii, True)]
            lines = []
            for ln in ax.lines:
                xx, yy = line_xy(ln)
                if np.ptp(xx) == 0 and np.array_equal(np.sort(yy), [0, 1]):
                    lines.append((False, xx[0]))
                elif np.ptp(yy) == 0 and np.array_equal(np.sort(xx), [0, 1]):
                    lines.append((True, yy[0]))
                else:
                    ensure(False, '%s has some other line', lab)
            exp = sorted((hori, targets[par]) for par, hori in want if targets[par] is not None)
            ensure(sorted(lines) == exp, '%s: targets %s, expected %s', lab, sorted(lines), exp)
            spans = []
            for pp in ax.patches:
                for hori in (False, True):
                    ext = span(pp, hori)
                    if ext is not None:
                        spans.append((hori,) + tuple(float(ee) for ee in ext))
                        break
            exp = []
            for par, hori in want:
                if case['upper'] and upper[par] is not None:
                    exp.append((hori, limits[par][0], upper[par]))
                if case['lower'] and lower[par] is not None:
                    exp.append((hori, lower[par], limits[par][1]))
            ensure(sorted(spans) == sorted(exp), '%s: shaded %s, expected %s', lab, sorted(spans), sorted(exp))
    return any(tt is not None for tt in targets), ['size=%d' % size, 'rotate=%s' % rotate]


def check_function(case):
    """`kalepy.corner` is a `Corner` with its `plot`;  data that does not fit is refused"""
    import kalepy as kale
    su = gen.Setup(case['kde'])
    with Figures(), Record() as rec:
        np.random.seed(1)
        kwc = dict(SIZE)
        opts = dict(color='g', edges=4)
        weighted = su.weights is not None and case['bydata']
        if weighted:
            kwc['weights'] = su.weights
        source = su.data if case['bydata'] else su.kde(flat=False)
        before = repr_exact([kwc, opts])
        labels = ['a%d' % ii for ii in range(su.ndim)]
        corner, handle = kale.corner(source, labels=labels, kwcorner=kwc, **opts)
        ensure(repr_exact([kwc, opts]) == before, 'corner changed its arguments')
        ensure(isinstance(corner, kale.Corner) and handle is not None, 'results of corner')
        one = snapshot(corner, rec), drawn_lines(corner, {idx: 0 for idx in np.ndindex(corner.axes.shape)})
        rec.calls.clear()
        np.random.seed(1)
        other = kale.Corner(source, labels=labels, **kwc)
        other.plot(**opts)
        two = snapshot(other, rec), drawn_lines(other, {idx: 0 for idx in np.ndindex(other.axes.shape)})
        ensure(one == two, 'kalepy.corner is not the same as Corner and Corner.plot')
        for aa, bb in zip(corner.axes.flat, other.axes.flat):
            ensure((aa.get_xlabel(), aa.get_ylabel()) == (bb.get_xlabel(), bb.get_ylabel()), 'labels of kalepy.corner')
        ensure(other.axes[-1, 0].get_xlabel() == (labels[0] if su.ndim > 1 else other.axes[-1, 0].get_xlabel()), 'labels')
        wrong = kale.Corner(su.ndim + 1, **SIZE)
        for mode in MODES:
            ensure(raises(lambda: getattr(wrong, mode)(su.data)), 'Corner.%s of %d-dimensional data on %d panels was accepted', mode, su.ndim, su.ndim + 1)
            ensure(raises(lambda: getattr(wrong, mode)()), 'Corner.%s without any data was accepted', mode)
    return True, su.labels()[:1]


KDES = gen.kde_spec(1, 5, 6, 20, weights=['none', 'none', 'uniform', 'lognormal'], kernels=[None, 'box', 'parabola', 'triweight', 'gaussian'])
QUANTS = st.one_of(st.none(), st.none(), st.lists(st.integers(5, 19), min_size=1, max_size=3, unique=True).map(lambda vv: sorted(xx / 20.0 for xx in vv)))
SUBS = [
    Sub('layout', st.fixed_dictionaries(dict(size=st.integers(1, 4), origin=gen.choice(None, 'tl', 'tr', 'bl', 'br', 'BR', 'tR'), rotate=gen.choice(None, True, False),
                                             limits=st.booleans(), ticks=st.booleans())), check_layout, 40, rule='at least two parameters'),
    Sub('plot', st.fixed_dictionaries(dict(
        kde=KDES, mode=st.sampled_from(sorted(MODES)), rotate=gen.choice(None, True, False), edges=gen.choice('none', 'count', 'counts', 'given', 'given'), seed=gen.seeds,
        over=gen.choice('no', 'no', '1d', '2d'), quants=QUANTS, source=gen.choice('kde', 'data'), first=gen.choice('given', 'later'),
        paint=gen.choice('none', 'color', 'cmap', 'both'))), check_plot, 110, 800,
        rule='all: every artist of every panel is read back'),
    Sub('history', st.fixed_dictionaries(dict(
        size=gen.choice(1, 2, 3, 3, 4), seeds=st.lists(gen.seeds, min_size=2, max_size=3), modes=st.lists(st.sampled_from(sorted(MODES)), min_size=1, max_size=3), opts=st.integers(0, 11),
        limits=gen.choice(False, False, True))), check_history, 30, 300, rule='at least two plots on the same panels'),
    Sub('limits', st.fixed_dictionaries(dict(size=gen.choice(2, 2, 3), seed=gen.seeds, form=gen.choice('list', 'tuple', 'array'), given=st.booleans(), mode=st.sampled_from(sorted(MODES)),
                                             flags=st.lists(gen.choice(None, False, True, True), min_size=1, max_size=2))), check_limits, 40, 200, rule='limits adjusted to the data'),
    Sub('legend', st.fixed_dictionaries(dict(size=st.integers(1, 6), num=st.integers(1, 4), where=gen.choice('default', 'default', 'index', 'bbox'), row=st.integers(0, 5), col=st.integers(0, 5),
                                             loc=gen.choice(None, None, 'upper right', 'upper left', 'lower right', 'center'))), check_legend, 25, 200, rule='a place was given, or there are empty panels'),
    Sub('figure', st.fixed_dictionaries(dict(size=st.integers(1, 3), form=gen.choice('new', 'fig', 'fig', 'axes'), current=st.booleans(), layout=st.integers(0, 63), held=st.booleans(),
                                             seed=gen.seeds, method=gen.choice('clean', 'hist', 'plot_data', 'plot'))), check_figure, 12, 150, rule='always'),
    Sub('target', st.fixed_dictionaries(dict(size=st.integers(1, 4), seed=gen.seeds, rotate=st.booleans(), upper=st.booleans(), lower=st.booleans(), zero=st.integers(0, 2))), check_target, 40, 400,
        rule='at least one target'),
    Sub('function', st.fixed_dictionaries(dict(kde=gen.kde_spec(2, 3, 6, 12, weights=['none', 'uniform'], kernels=[None, 'box']), bydata=st.booleans())), check_function, 12, 100, rule='all'),
]
ASSUMPTIONS = ['What matplotlib was asked to draw is what is seen: its own rendering is not part of the check.']
