"""Text summaries report the statistics of the data"""
import re

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref
from .util import Sub, ensure, repr_exact, warm   # noqa

ID = 'C32'
NUM = r'[-+]?\d+(?:\.\d+)?(?:e[-+]?\d+)?'


def make_vals(case):
    rng = np.random.RandomState(case['seed'])
    num, kind = case['n'], case['kind']
    if kind == 'ints':
        return rng.randint(-30, 60, num)
    if kind == 'bigints':
        return rng.randint(1, 10**7, num)
    if kind == 'positive':
        return rng.lognormal(0, 1.0, num)
    if kind == 'tiny':
        return rng.normal(size=num) * 1e-7
    if kind == 'large':
        return rng.uniform(1, 9, num) * 10.0 ** rng.randint(-3, 9, num)
    return rng.normal(size=num) * 5


def digits(form):
    """-> (precision, type) of a format"""
    mm = re.fullmatch(r':?\.(\d+)([ef])', form)
    return int(mm.group(1)), mm.group(2)


def shown(text, value, form, what):
    """The text is that value, in the given format (to one unit of the last digit, for rounding of the value itself)"""
    form = form.lstrip(':')
    prec, typ = digits(form)
    want = '{:{}}'.format(value, form)
    pat = r'-?\d\.\d{%d}e[-+]\d\d+' if typ == 'e' else r'-?\d+\.\d{%d}'
    if prec == 0:
        pat = r'-?\de[-+]\d\d+' if typ == 'e' else r'-?\d+'
        ensure(re.fullmatch(pat, text), '%s: %r is not of the format %r', what, text, form)
    else:
        ensure(re.fullmatch(pat % prec, text), '%s: %r is not of the format %r', what, text, form)
    if text == want:
        return
    unit = 10.0 ** -prec if typ == 'f' else 10.0 ** (np.floor(np.log10(max(abs(value), 1e-300))) + (0.0 if abs(float(text)) <= abs(value) else 1e-9) - prec)
    ensure(abs(float(text) - value) <= 0.5 * unit * (1 + 1e-6) + 1e-9 * abs(value) + 1e-300, '%s: %r is shown for %r, as %r', what, text, value, form)


def automatic(text, value, ints, what):
    """The text has the value to (at least) two decimals, or three digits;  or is rounded to an integer, for integers"""
    got = float(text)
    tol = max(0.005 * abs(value), 0.005) * (1 + 1e-6) + 1e-12
    if 'e' in text:
        tol = 0.00501 * max(abs(value), abs(got)) + 1e-300
    elif '.' not in text:
        ensure(ints, '%s: %r is shown for %r', what, text, value)
        tol = 0.5 + 1e-9
    ensure(abs(got - value) <= tol, '%s: %r is shown for %r', what, text, value)


def check_stats(case):
    from kalepy import utils
    xx = make_vals(case)
    if case['log']:
        xx = np.abs(xx) + 1
    wts = gen.make_weights(case['weights'], xx.size)
    percs = [pp / 100.0 for pp in case['percs']] if case['percs'] is not None else None
    kw = dict()
    if percs is not None:
        kw['percs'] = dict(list=percs, array=np.array(percs), tuple=tuple(percs))[case['form']]
        if case['form'] == 'tuple' and len(percs) == 1:
            kw['percs'] = percs[0]
    for nn in ('ave', 'std', 'log'):
        if case[nn]:
            kw[nn] = True
    form = case['format']
    if form is not None:
        kw['format'] = form
    if wts is not None:
        kw['weights'] = wts
    if case['nolabel']:
        kw['label_log'] = False
    before = repr_exact([xx, kw])
    text = utils.stats_str(xx.tolist() if case['aslist'] else xx, **kw)
    ensure(repr_exact([xx, kw]) == before, 'stats_str changed its arguments')
    use = [0.0, 0.16, 0.50, 0.84, 1.00] if percs is None else percs
    vals = np.log10(xx) if case['log'] else xx
    ints = np.issubdtype(vals.dtype, np.integer)

    pats = []
    if case['ave']:
        pats.append(r'ave = (%s)' % NUM)
    if case['std']:
        pats.append(r'std = (%s)' % NUM)
    if use:
        one = ', '.join(['(%s)' % NUM] * len(use))
        two = ', '.join([r'(%s)%%' % NUM] * len(use))
        pats.append(r'\(%s\), for \(%s\)' % (one, two))
    pat = ', '.join(pats)
    if case['log'] and not case['nolabel']:
        pat += r' \(log values\)'
    mm = re.fullmatch(pat, text)
    ensure(mm is not None, 'stats_str(%s) is %r', {kk: vv for kk, vv in kw.items() if kk != 'weights'}, text)
    got = list(mm.groups())
    want = []
    if case['ave']:
        want.append(('average', np.mean(np.asarray(vals, float))))
    if case['std']:
        want.append(('standard deviation', np.std(np.asarray(vals, float))))
    # (quantiles are checked by themselves elsewhere)
    tiles = np.atleast_1d(utils.quantiles(np.asarray(vals, float), np.array(use), weights=wts)) if len(use) else []
    want += [('percentile %s' % pp, tt) for pp, tt in zip(use, tiles)]
    for (what, val), tt in zip(want, got):
        if wts is not None and not what.startswith('percentile'):
            # (whether those are weighted is not specified)
            continue
        if form is None:
            automatic(tt, val, ints, what)
        else:
            shown(tt, val, form, what)
    for pp, tt in zip(use, got[len(want):]):
        ensure(tt == '{:.0f}'.format(100 * pp), 'label of the percentile %s is %s', pp, tt)
    return len(want) > 1, ['kind=' + case['kind'], 'format=%s' % form, 'log=%s' % case['log'], 'w=%s' % (wts is not None)]


def check_array(case):
    from kalepy import utils
    xx = make_vals(case)
    num, form = case['num'], case['format']
    kw = dict()
    if num != 'default':
        kw['num'] = num
    if form is not None:
        kw['format'] = form if form.startswith(':') else ':' + form
    before = repr_exact(xx)
    text = utils.array_str(xx.tolist() if case['aslist'] else xx, **kw)
    ensure(repr_exact(xx) == before, 'array_str changed its arguments')
    num = 3 if num == 'default' else num
    ensure(text.startswith('[') and text.endswith(']'), 'array_str is %r', text)
    body = text[1:-1]
    if num is None or xx.size <= 2 * num:
        parts = [(body, xx)]
        ensure('...' not in body, 'array_str shortened %d values, for num=%s', xx.size, num)
    else:
        both = body.split(' ... ')
        ensure(len(both) == 2, 'array_str of %d values is %r', xx.size, text)
        parts = [(both[0], xx[:num]), (both[1], xx[xx.size - num:])]
    for tt, vals in parts:
        each = tt.split(', ') if tt else []
        ensure(len(each) == len(vals), 'array_str has %d values, instead of %d: %r', len(each), len(vals), text)
        for ee, vv in zip(each, vals):
            shown(ee, float(vv), form or '.2e', 'array_str')

    # all together
    kw = dict()
    if case['sample'] != 'default':
        kw['sample'] = case['sample']
    if case['noshape']:
        kw['shape'] = False
    if case['nostats']:
        kw['stats'] = False
    want = []
    if not case['noshape']:
        want.append('(%d,)' % xx.size)
    sample = 3 if case['sample'] == 'default' else case['sample']
    if sample not in (None, False):
        want.append(utils.array_str(xx, num=sample))
    if not case['nostats']:
        want.append(utils.stats_str(xx))
    if not want:
        try:
            utils.stats(xx, **kw)
        except ValueError:
            return True, ['nothing']
        ensure(False, 'stats without anything requested')
    got = utils.stats(xx, **kw)
    for ww in want:
        ensure(ww in got, 'stats(%s) is %r, without %r', kw, got, ww)
    left = got
    for ww in want:
        left = left.replace(ww, '', 1)
    ensure(not re.search(r'\d', left), 'stats(%s) is %r, with more than %s', kw, got, want)
    return xx.size > 6, ['num=%s' % num]


KINDS = gen.choice('normal', 'ints', 'ints', 'bigints', 'positive', 'tiny', 'large')
FORMATS = gen.choice(None, None, '.2f', ':.2f', ':.3e', '.1f', ':.4f', '.0f')
SUBS = [
    Sub('stats', st.fixed_dictionaries(dict(
        seed=gen.seeds, n=st.integers(2, 60), kind=KINDS, log=gen.choice(False, False, True), weights=gen.weight_spec(['none', 'none', 'uniform', 'ints', 'lognormal']),
        percs=st.one_of(st.none(), st.lists(st.integers(0, 100), min_size=0, max_size=6)), form=gen.choice('list', 'array', 'tuple'), ave=st.booleans(), std=st.booleans(),
        format=FORMATS, nolabel=gen.choice(False, False, True), aslist=st.booleans())), check_stats, 600, rule='more than one statistic'),
    Sub('array', st.fixed_dictionaries(dict(
        seed=gen.seeds, n=st.one_of(st.integers(2, 9), st.integers(2, 80)), kind=KINDS, num=gen.choice('default', None, 0, 1, 2, 4, 7, 9, 12, 20, 33, 100), format=FORMATS, aslist=st.booleans(),
        sample=gen.choice('default', None, False, 1, 5), noshape=gen.choice(False, False, True), nostats=gen.choice(False, False, True))), check_array, 400,
        rule='more than six values'),
]
