"""Nested, and possibly jagged, sequences"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .util import Sub, ensure, repr_exact   # noqa

ID = 'C23'
leaf = st.one_of(st.integers(-9, 9), st.sampled_from([0.5, -2.25, 1e10]))


def regular(depth):
    """(nested) lists with the same shape everywhere"""
    return st.lists(st.integers(1, 4), min_size=depth, max_size=depth).map(lambda shape: shape)


branch = st.lists(leaf, max_size=4)
# numbers beside sequences, and empty sequences
mixed = st.recursive(branch, lambda kk: st.lists(st.one_of(leaf, kk, kk), max_size=5), max_leaves=12)
nested = st.recursive(st.lists(leaf, min_size=1, max_size=4), lambda kk: st.lists(kk, min_size=1, max_size=4), max_leaves=8)


def shape_of(obj):
    """Shape if the nested sequence is uniform, None otherwise"""
    if not isinstance(obj, list):
        return ()
    subs = [shape_of(oo) for oo in obj]
    if any(ss is None for ss in subs) or any(ss != subs[0] for ss in subs):
        return None
    return (len(obj),) + (subs[0] if subs else ())


def depths(obj):
    return {0} if not isinstance(obj, list) else {1 + dd for oo in obj for dd in depths(oo)}


def leaves(obj):
    if not isinstance(obj, list):
        return [obj]
    return [xx for oo in obj for xx in leaves(oo)]


def convert(obj, form, depth=0):
    """As (nested) lists, tuples, or lists of arrays"""
    if not isinstance(obj, list):
        return obj
    if form == 'array' and all(not isinstance(oo, list) for oo in obj) and depth > 0:
        return np.array(obj)
    if form == 'array' and shape_of(obj) is not None:
        return np.array(obj)
    new = [convert(oo, form, depth + 1) for oo in obj]
    return tuple(new) if form == 'tuple' else new


def check_nested(case):
    from kalepy import utils
    obj = case['obj']
    # (preceded by many others)
    obj = case['more'] * [[1.5] if (obj and isinstance(obj[0], list)) else 2] + obj if case['more'] else obj
    # (arrays of one number besides arrays of more dimensions are merged by numpy itself)
    arg = convert(obj, 'list' if case['form'] == 'array' and len(depths(obj)) > 1 else case['form'])
    before = repr_exact(arg)
    shape = shape_of(obj)
    vals = leaves(obj)
    flat1 = all(not isinstance(oo, list) for oo in obj)
    ensure(bool(utils.really1d(arg)) == flat1, 'really1d(%s) is %s', arg, utils.really1d(arg))
    ensure(bool(utils.isjagged(arg)) == (shape is None), 'isjagged(%s) is %s', arg, utils.isjagged(arg))
    got = utils.flatten(arg)
    ensure(len(got) == len(vals) and list(map(float, got)) == list(map(float, vals)), 'flatten(%s) is %s', arg, got)
    ensure(utils.flatlen(arg) == len(vals), 'flatlen(%s) is %s', arg, utils.flatlen(arg))
    if shape is not None:
        ensure(tuple(utils.jshape(arg)) == shape, 'jshape(%s) is %s', arg, utils.jshape(arg))
    else:
        # jagged: (outer shape, (shape of each element))
        sh = utils.jshape(arg)
        ensure(len(sh) == 2 and sh[0][0] == len(obj) and len(sh[1]) == len(obj), 'jshape(%s) is %s', arg, sh)
        if len(sh[0]) == 1:
            for ss, oo in zip(sh[1], obj):
                if shape_of(oo) is not None:
                    ensure(tuple(ss) == shape_of(oo), 'jshape(%s) is %s', arg, sh)
    ensure(before == repr_exact(arg), 'the input was changed')
    even = len(depths(obj)) == 1
    return not flat1, ['jagged=%s' % (shape is None), 'depth=%s' % ('even' if even else 'mixed'), case['form']]


def check_scalars(case):
    from kalepy import utils
    val = case['val']
    kind = case['kind']
    if kind == 'npint':
        arg, integer = np.int32(int(val)), True
    elif kind == 'npfloat':
        arg, integer = np.float64(val), False
    elif kind == 'list':
        arg, integer = [int(val)] * 3, True
    elif kind == 'tuple':
        arg, integer = (val, int(val)), isinstance(val, int)
    elif kind == 'nested':
        arg, integer = [[int(val), 2], [3, val]], isinstance(val, int)
    elif kind == 'small':
        arg, integer = np.full((2, 3), int(val) % 100, dtype=['uint8', 'int8', 'int16', 'uint64', 'float16'][int(val) % 5]), int(val) % 5 < 4
    elif kind == 'mixed':
        arg, integer = [int(val), 0.5], False
    elif kind == 'array':
        arg, integer = np.full(2, val), isinstance(val, int)
    else:
        arg, integer = val, isinstance(val, int)
    ensure(bool(utils.isinteger(arg)) == integer, 'isinteger(%r) is %s', arg, utils.isinteger(arg))
    scalar = np.isscalar(arg)
    ensure(bool(utils.isinteger(arg, iterable=False)) == (integer and scalar), 'isinteger(%r, iterable=False)', arg)
    if scalar:
        ensure(not utils.really1d(arg), 'really1d(%r)', arg)
        ensure(not utils.isjagged(arg), 'isjagged(%r)', arg)
        ensure(utils.flatten(arg) == arg, 'flatten(%r)', arg)
        ensure(utils.flatlen(arg) == 1, 'flatlen(%r)', arg)
    return kind != 'plain', [kind]


uniform = st.lists(st.integers(1, 3), min_size=1, max_size=4).map(lambda shape: np.arange(int(np.prod(shape))).reshape(shape).tolist())
SUBS = [
    Sub('nested', st.fixed_dictionaries(dict(obj=st.one_of(nested, mixed, mixed, uniform), form=gen.choice('list', 'tuple', 'array'),
                                             more=gen.choice(0, 0, 0, 0, 70, 300))), check_nested, 1500,
        rule='more than one level'),
    Sub('scalars', st.fixed_dictionaries(dict(val=st.one_of(st.integers(-1000, 1000), st.floats(-1e6, 1e6)),
                                              kind=gen.choice('plain', 'npint', 'npfloat', 'list', 'tuple', 'nested', 'small', 'mixed', 'array'))), check_scalars, 300,
        rule='not a builtin scalar'),
]
