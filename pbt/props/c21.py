"""Choosing bin edges for data"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .util import Sub, close, ensure, repr_exact   # noqa

ID = 'C21'


def make(case):
    rng = np.random.RandomState(case['seed'])
    data = gen.make_data(case['data'])
    wts = gen.make_weights(case['weights'], data.shape[1])
    flat = data.shape[0] == 1 and case['flat']
    return rng, data, wts, flat, (data[0] if flat else data)


def as_list(edges, flat):
    if flat:
        ensure(np.ndim(edges) == 1, 'edges of 1D data are %dD', np.ndim(edges))
        return [np.asarray(edges, float)]
    return [np.asarray(ee, float) for ee in edges]


def check_edges(case):
    from kalepy import utils
    rng, data, wts, flat, arg = make(case)
    ndim = data.shape[0]
    lo, hi = data.min(axis=1), data.max(axis=1)
    span = hi - lo
    # how edges are specified
    specs = []
    for dd in range(ndim):
        kind = case['kinds'][dd] if case['form'] == 'each' else case['kinds'][0]
        nn = case['nums'][dd] if case['form'] == 'each' else case['nums'][0]
        if kind == 'none':
            specs.append(None)
        elif kind == 'num':
            specs.append(nn)
        else:
            ee = np.sort(rng.uniform(-1, 2, nn + 2)) * 3
            specs.append(ee.tolist() if case['aslist'] else ee)
    if case['form'] == 'one':
        specs = [specs[0]] * ndim
        given = specs[0]
        if np.iterable(given) and len(given) == ndim and not flat:
            raise gen.Skip()
        if np.iterable(given) and flat and len(given) == 1:
            raise gen.Skip()
    else:
        given = specs
        if ndim == 1 and flat:
            given = [specs[0]]
    # extrema
    ext = None
    want_lo, want_hi = lo.copy(), hi.copy()
    if case['extrema'] == 'each':
        ext = []
        for dd in range(ndim):
            pair = [lo[dd] - rng.uniform(-0.1, 1) * span[dd], hi[dd] + rng.uniform(-0.1, 1) * span[dd]]
            for ii in range(2):
                if rng.uniform() < 0.3:
                    pair[ii] = None
            # special values
            if rng.uniform() < 0.5:
                for ii, (val, okay) in enumerate([(0, hi[dd] > 0), (0.0, lo[dd] < 0)]):
                    if pair[ii] is not None and okay and (pair[1 - ii] is None or (pair[1 - ii] - val) * (1 - 2 * ii) > 0.01 * span[dd]):
                        pair[ii] = val
                        break
            # limits beyond all of the data, or within them
            if rng.uniform() < 0.2 and None not in pair:
                frac = [(-2.0, -0.7), (1.3, 1.8), (0.3, 0.6)][rng.randint(3)]
                pair = [lo[dd] + ff * span[dd] for ff in frac]
            want_lo[dd] = lo[dd] if pair[0] is None else pair[0]
            want_hi[dd] = hi[dd] if pair[1] is None else pair[1]
            ext.append(None if pair == [None, None] else (tuple(pair) if case['aslist'] else pair))
    elif case['extrema'] == 'one':
        ext = [lo.min() - 1.0, hi.max() + 2.0]
        if case['seed'] % 2 and lo.min() > 0:
            ext[0] = 0
        elif case['seed'] % 2 and hi.max() < 0:
            ext[1] = 0
        want_lo[:], want_hi[:] = ext
    kw = {}
    if case['select'] and ext is not None:
        # limits of more parameters, from which the ones of the data are chosen
        total = ndim + 1 + case['seed'] % 3
        order = rng.permutation(total)[:ndim]
        kw['params'] = order.tolist() if case['aslist'] else order
        if case['extrema'] == 'each':
            full = [[-1e9 - ii, 1e9 + ii] if ii % 2 else None for ii in range(total)]
            for ii, ee in zip(order, ext):
                full[ii] = ee
            ext = full
    elif case['select'] and ext is None:
        kw['params'] = rng.permutation(7)[:ndim]
    if ext is not None:
        kw['extrema'] = ext
    if wts is not None:
        kw['weights'] = np.asarray(wts, float)
    pad = case['pad']
    if pad is not None:
        kw['pad'] = pad
    pad = (1 if ext is None else 0) if pad is None else pad
    kw['nmin'], kw['nmax'] = case['nmin'], case['nmin'] + case['more']
    if case['refine'] != 1:
        kw['refine'] = case['refine']
    call = arg.tolist() if case['aslist'] else arg
    before = repr_exact([call, given, ext, wts])
    got = as_list(utils.parse_edges(call, given, **kw), flat)
    ensure(before == repr_exact([call, given, ext, wts]), 'the inputs were changed')
    again = as_list(utils.parse_edges(call, given, **kw), flat)
    ensure(len(got) == ndim and all(np.array_equal(aa, bb) for aa, bb in zip(got, again)), 'repeating gives different edges')
    widths = []
    for dd in range(ndim):
        ee = got[dd]
        if np.iterable(specs[dd]):
            ensure(np.array_equal(ee, specs[dd]), 'the given edges were not used')
            continue
        nbin = ee.size - 1
        if specs[dd] is None:
            ensure(kw['nmin'] <= nbin <= kw['nmax'], 'number of bins %d, for limits [%d, %d]', nbin, kw['nmin'], kw['nmax'])
        else:
            ensure(nbin == specs[dd], 'number of bins %d, instead of %s', nbin, specs[dd])
        dx = np.diff(ee)
        tot = ee[-1] - ee[0]
        ensure(np.all(dx > 0), 'edges are not increasing')
        close(dx, np.full(nbin, tot / nbin), 1e-6, 1e-9 * np.abs(ee).max(), 'spacing of the edges')
        tol = 1e-9 * (np.abs(ee).max())
        if pad == 0:
            ensure(abs(ee[0] - want_lo[dd]) <= tol and abs(ee[-1] - want_hi[dd]) <= tol, 'edges [%s, %s], instead of [%s, %s]', ee[0], ee[-1], want_lo[dd], want_hi[dd])
        else:
            p1, p2 = want_lo[dd] - ee[0], ee[-1] - want_hi[dd]
            ensure(p1 > 0 and p2 > 0, 'edges are not padded: [%s, %s] for the range [%s, %s]', ee[0], ee[-1], want_lo[dd], want_hi[dd])
            ensure(abs(p1 - p2) <= tol, 'the padding is not symmetric: %s and %s', p1, p2)
            ensure(p1 <= pad * (want_hi[dd] - want_lo[dd]) * 1.01 + tol, 'padding %s of the range [%s, %s]', p1, want_lo[dd], want_hi[dd])
            widths.append(p1 / pad)
    return any(not np.iterable(ss) for ss in specs), ['D=%d' % ndim, case['form'], 'extrema=' + case['extrema'], 'w=' + case['weights']['kind']] + case['kinds'][:1]


def num_bins(data, wts, **kw):
    from kalepy import utils
    return [len(ee) - 1 for ee in utils.parse_edges(data, weights=wts, nmin=1, nmax=100000, pad=0, **kw)]


def check_auto(case):
    """The automatic number of bins: refined, with more data, independent of the scale of the data or weights"""
    from kalepy import utils
    rng, data, wts, flat, arg = make(case)
    ww = None if wts is None else np.asarray(wts, float)
    fac = case['refine']
    base = num_bins(data, ww)
    fine = num_bins(data, ww, refine=fac)
    for b0, b1 in zip(base, fine):
        # ceil(x) and ceil(x * factor)
        ensure((b0 - 1) * fac - 1e-6 <= b1 <= b0 * fac + 1, '%d bins, and %d when refined by %s', b0, b1, fac)
    # padded by one bin
    pads = utils.parse_edges(data, weights=ww, nmin=1, nmax=100000, pad=1)
    for ee, xx, nb in zip(pads, data, base):
        width = xx.min() - ee[0]
        est = np.ptp(xx) / width
        ensure(nb - 1 - 1e-6 <= est <= nb + 1e-6, 'padding by one bin of width %s, with %d bins in %s', width, nb, np.ptp(xx))
    scaled = num_bins(data * 4.0, ww)
    ensure(scaled == base, 'number of bins %s, and %s with rescaled data', base, scaled)
    # (quantiles depend on the order of tied values, if their weights differ)
    ties = case['data']['dist'] == 'lattice' or case['weights']['kind'] == 'zeros'
    mirror = num_bins(-data, ww)
    ensure(ties or all(abs(aa - bb) <= 1 for aa, bb in zip(base, mirror)), 'number of bins %s, and %s for the negative data', base, mirror)
    if ww is not None:
        other = num_bins(data, ww * 8.0)
        ensure(other == base, 'number of bins %s, and %s with rescaled weights', base, other)
    else:
        other = num_bins(data, np.ones(data.shape[1]))
        ensure(other == base, 'number of bins %s, and %s with uniform weights', base, other)
    if data.shape[0] > 1:
        # the order of dimensions
        swap = num_bins(data[::-1], ww)
        ensure(swap == base[::-1], 'number of bins %s, and %s in the opposite order of dimensions', base, swap)
    # never coarser than Sturges or Freedman-Diaconis rules, based on the effective number of data (at least up to 100)
    neff = data.shape[1] if ww is None else ww.sum() ** 2 / (ww ** 2).sum()
    if neff <= 100:
        for xx, nb in zip(data, base):
            ensure(nb >= np.log2(neff) + 1 - 1e-6, '%d bins for an effective %s data', nb, neff)
            iqr = utils.iqrange(xx, weights=ww)
            if iqr > 0:
                ensure(nb >= np.ptp(xx) / (2 * iqr * neff ** (-1.0 / 3)) - 1e-6, '%d bins for an inter-quartile range %s', nb, iqr)
    return True, ['D=%d' % data.shape[0], 'w=' + case['weights']['kind']]


three = st.lists(gen.choice('none', 'num', 'edges'), min_size=4, max_size=4)
common = dict(data=gen.data_spec(1, 4, 3, 60, 300), weights=gen.weight_spec(), flat=st.booleans(), seed=gen.seeds)
SUBS = [
    Sub('edges', st.fixed_dictionaries(dict(kinds=three, form=gen.choice('one', 'each', 'each'), nums=st.lists(st.integers(1, 20), min_size=4, max_size=4),
                                            extrema=gen.choice('none', 'each', 'one'), pad=gen.choice(None, None, 0, 1, 2), nmin=st.integers(1, 12), more=st.integers(0, 60),
                                            refine=gen.choice(1, 1, 2.5), aslist=st.booleans(), select=gen.choice(False, False, True), **common)),
        check_edges, 1200, rule='edges are to be determined in at least one dimension'),
    Sub('auto', st.fixed_dictionaries(dict(refine=gen.choice(2.0, 1.5, 3.1622776601683795, 7.0), **common)), check_auto, 400, rule='each case'),
]
