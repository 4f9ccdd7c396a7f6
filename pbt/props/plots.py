"""Helpers to read what was drawn back from matplotlib objects"""
import numpy as np

from .util import ensure


RECORDED = ['contour', 'contourf', 'scatter', 'pcolormesh']


class Record:
    """Record the calls (of any axes) to the drawing methods of matplotlib, with what they return"""

    def __enter__(self):
        import matplotlib.axes
        cls = matplotlib.axes.Axes
        self.calls = []
        self.saved = {nn: getattr(cls, nn) for nn in RECORDED}

        def wrap(name, func):
            def call(ax, *args, **kwargs):
                rv = func(ax, *args, **kwargs)
                entry = dict(name=name, ax=ax, args=args, kwargs=dict(kwargs), rv=rv)
                if name in ('contour', 'contourf'):
                    # (these are changed by later access)
                    entry.update(levels=np.array(rv.levels), segs=rv.allsegs)
                self.calls.append(entry)
                return rv
            return call
        for nn, ff in self.saved.items():
            setattr(cls, nn, wrap(nn, ff))
        return self

    def __exit__(self, *args):
        import matplotlib.axes
        for nn, ff in self.saved.items():
            setattr(matplotlib.axes.Axes, nn, ff)

    def of(self, name, ax=None):
        return [cc for cc in self.calls if cc['name'] == name and (ax is None or cc['ax'] is ax)]


class Axes:
    """A new figure with one axes, closed at the end"""

    def __enter__(self):
        import matplotlib.pyplot as plt
        self.fig, self.ax = plt.subplots()
        return self.ax

    def __exit__(self, *args):
        import matplotlib.pyplot as plt
        plt.close(self.fig)


def warm():
    from .util import warm as base
    base()
    import matplotlib.pyplot as plt
    import kalepy.plot   # noqa
    fig, ax = plt.subplots()
    ax.contourf(np.arange(3), np.arange(3), np.arange(9).reshape(3, 3))
    fig.canvas.draw()
    plt.close(fig)


def line_xy(line, rotate=False):
    """Data of a line, without masked entries -> (2, N)"""
    xx = np.ma.filled(np.ma.asarray(line.get_xdata(orig=True), float), np.nan)
    yy = np.ma.filled(np.ma.asarray(line.get_ydata(orig=True), float), np.nan)
    return (yy, xx) if rotate else (xx, yy)


def span(patch, rotate=False):
    """-> extent (lo, hi) of `axvspan` (`axhspan`, if rotated);  None if it is the other type of span"""
    verts = np.asarray(patch.get_xy()) if hasattr(patch, 'get_xy') and np.ndim(patch.get_xy()) == 2 else None
    if verts is None:
        x0, y0 = patch.get_xy()
        verts = np.array([[x0, y0], [x0 + patch.get_width(), y0 + patch.get_height()]])
    xx, yy = verts[:, 0], verts[:, 1]
    if rotate:
        xx, yy = yy, xx
    if not (yy.min() == 0.0 and yy.max() == 1.0):
        return None
    return xx.min(), xx.max()


def in_color(artist, color, what):
    """The artist is drawn in the given color (besides its opacity)"""
    from matplotlib import colors
    got = artist.get_color() if hasattr(artist, 'get_color') else artist.get_facecolor()
    if not hasattr(artist, 'get_color') and not len(np.atleast_2d(got)):
        return
    for one in ([got] if hasattr(artist, 'get_color') else np.atleast_2d(got)):
        rgb = colors.to_rgb(one)
        ensure(np.allclose(rgb, colors.to_rgb(color), atol=1e-9), '%s: color %s, instead of %s', what, rgb, color)


def sized_by(sizes, ww, what):
    """Sizes of points increase with their weights"""
    order = np.argsort(ww)
    ensure(sizes.size == ww.size, '%s: weights are ignored', what)
    ensure(np.all(np.diff(sizes[order]) >= -1e-9 * sizes.max()), '%s: sizes of points do not increase with weight', what)
    if sizes.max() > sizes.min():
        top = (sizes > 5.001) & (sizes < 99.99)
        if np.count_nonzero(top) > 1 and ww[top].max() > ww[top].min() * 1.01:
            ensure(np.ptp(sizes[top]) > 0, '%s: sizes do not depend on weight', what)
            more = np.diff(ww[order][top[order]]) > 0.01 * ww[order][top[order]][:-1]
            ensure(np.all(np.diff(sizes[order][top[order]])[more] > 0), '%s: sizes of points do not increase with weight', what)


def paint_args(kind, seed):
    """Arguments for colors, with the color and colormap that are to be used: `None` if these are to be derived"""
    color = COLORS[seed % len(COLORS)] if kind in ('color', 'both') else None
    cmap = CMAPS[seed % len(CMAPS)] if kind in ('cmap', 'both') else None
    kw = dict()
    if color is not None:
        kw['color'] = color
    if cmap is not None:
        import matplotlib
        kw['cmap'] = cmap if seed % 2 else matplotlib.colormaps[cmap]
    return kw, color, cmap


def painted(kw, scatters, lines, meshes, conts, what):
    """Points and lines are drawn in the given color, or the middle of the given colormap, or all the same;
    histograms and contours in the given colormap, or one with the hue of the color.  -> color"""
    import matplotlib
    from matplotlib import colors
    color, cmap = kw.get('color'), kw.get('cmap')
    if cmap is not None:
        cmap = matplotlib.colormaps[cmap] if isinstance(cmap, str) else cmap
        if color is None:
            color = cmap(0.5)
    if color is None:
        for art in list(lines) + list(scatters):
            color = art.get_color() if hasattr(art, 'get_color') else art.get_facecolor()[0]
            break
    for art in list(scatters) + list(lines):
        in_color(art, color, what)
    hue = None
    if cmap is None and color is not None:
        hsv = colors.rgb_to_hsv(colors.to_rgb(color))
        hue = hsv[0] if hsv[1] > 0.2 and hsv[2] > 0.1 else None

    def right_hue(rgb):
        got = colors.rgb_to_hsv(rgb)[0]
        diff = abs(got - hue)
        ensure(min(diff, 1 - diff) < 0.03, '%s: the colormap has hue %s, for the color %s', what, got, color)
    for mesh in meshes:
        cm = mesh.get_cmap()
        if cmap is not None:
            xx = np.linspace(0, 1, 7)
            ensure(np.allclose(cm(xx), cmap(xx), atol=0.01), '%s: the colormap is %s, instead of %s', what, cm.name, cmap.name)
        elif hue is not None:
            right_hue(cm(0.5)[:3])
    for cont in conts:
        for got in np.atleast_2d(cont.get_edgecolor())[:, :3]:
            if cmap is not None:
                dist = np.abs(cmap(np.linspace(0, 1, 400))[:, :3] - got).max(axis=1).min()
                ensure(dist < 0.06, '%s: a contour has the color %s, which is not of the colormap %s', what, got, cmap.name)
            elif hue is not None and np.ptp(got) > 0.1:
                right_hue(got)
    return color


CMAPS = ['viridis', 'Blues', 'plasma', 'YlOrRd']
COLORS = ['r', '#12aa44', (0.2, 0.4, 0.6), 'C3', '0.3']


def levels_ok(hist, levels, quants, what, tol=1e-9):
    """Each level is the lowest value such that it and those above enclose no more than the quantile"""
    vals = np.sort(np.ravel(np.asarray(hist, float)))[::-1]
    tot = vals.sum()
    levels = np.sort(np.asarray(levels, float))[::-1]
    quants = np.sort(np.asarray(quants, float))
    ensure(0 < levels.size <= quants.size, '%s: %d levels for %d quantiles', what, levels.size, quants.size)
    eps = tol * max(1e-300, abs(vals[0]))

    cum = np.cumsum(vals) / tot

    def wrong(lev, qq):
        # (or the highest value, if it alone exceeds the quantile)
        hi, lo = [vals[max(np.count_nonzero(cum <= qq + dq) - 1, 0)] for dq in (-tol, tol)]
        if lev > hi + eps:
            return 'encloses %s, and is too high' % vals[vals >= lev - eps].sum()
        if lev < lo - eps:
            return 'encloses %s, and is too low' % vals[vals >= lev - eps].sum()
        return None
    if levels.size == quants.size:
        for lev, qq in zip(levels, quants):
            bad = wrong(lev, qq)
            ensure(bad is None, '%s: the level %r for the quantile %s %s', what, lev, qq, bad)
    else:
        # numerous quantiles are at the same level
        for qq in quants:
            ensure(any(wrong(lev, qq) is None for lev in levels), '%s: no level for the quantile %s, only %s', what, qq, levels)
        for lev in levels:
            ensure(any(wrong(lev, qq) is None for qq in quants), '%s: the level %s is not that of any quantile %s', what, lev, quants)


def bilinear(xx, yy, vals, px, py):
    """Interpolate `vals` (indexed by x, y) to the given points"""
    out = []
    for aa, bb in zip(px, py):
        ii = int(np.clip(np.searchsorted(xx, aa, side='right') - 1, 0, len(xx) - 2))
        jj = int(np.clip(np.searchsorted(yy, bb, side='right') - 1, 0, len(yy) - 2))
        fx = (aa - xx[ii]) / (xx[ii + 1] - xx[ii])
        fy = (bb - yy[jj]) / (yy[jj + 1] - yy[jj])
        out.append(vals[ii, jj] * (1 - fx) * (1 - fy) + vals[ii + 1, jj] * fx * (1 - fy) + vals[ii, jj + 1] * (1 - fx) * fy + vals[ii + 1, jj + 1] * fx * fy)
    return np.array(out)
