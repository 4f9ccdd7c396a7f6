"""Adding and removing covariance, and inverting matrices"""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .util import Sub, close, ensure, repr_exact   # noqa

ID = 'C29'


def make_matrix(case, dd, rank=None):
    rng = np.random.RandomState(case['seed'])
    aa = rng.normal(size=(dd, dd if rank is None else rank))
    mat = aa @ aa.T
    if rank is None:
        mat = mat + 0.1 * np.eye(dd)
    sig = 10.0 ** rng.uniform(-case['range'], case['range'], dd) * case.get('unit', 1.0)
    mat = mat * np.outer(sig, sig)
    return 0.5 * (mat + mat.T)


def check_color(case):
    from kalepy import utils
    dd, num = case['ndim'], case['num'] + case['ndim'] + 2
    cov = make_matrix(case, dd)
    rng = np.random.RandomState(case['seed'] + 1)
    raw = rng.normal(size=(dd, num))
    before = repr_exact([raw, cov])
    ca = cov.tolist() if case['aslist'] else cov
    col = utils.add_cov(raw, ca)
    ensure(np.shape(col) == raw.shape, 'shape %s', np.shape(col))
    sig = np.sqrt(np.diag(cov))
    top = np.abs(raw).max()
    back = utils.rem_cov(col, ca)
    close(back, raw, 1e-6, 1e-6 * top, 'rem_cov of add_cov')
    close(utils.add_cov(utils.rem_cov(raw * sig[:, None], ca), ca) / sig[:, None], raw, 1e-6, 1e-6 * top, 'add_cov of rem_cov')
    ensure(before == repr_exact([raw, cov]), 'the inputs were changed')
    # the length of each vector, relative to the covariance
    corr = cov / np.outer(sig, sig)
    y2 = np.einsum('in,in->n', col / sig[:, None], np.linalg.solve(corr, col / sig[:, None]))
    close(y2, (raw ** 2).sum(axis=0), 1e-6, 1e-9, 'lengths of vectors with covariance')
    # a single vector
    close(utils.add_cov(raw[:, 0], ca), col[:, 0], 1e-10, 1e-10 * np.abs(col[:, 0]).max(), 'add_cov of a single vector')
    # linear
    close(utils.add_cov(raw * 2.0 - 1.0, ca) / sig[:, None], (2 * col - utils.add_cov(np.ones_like(raw), ca)) / sig[:, None], 1e-8, 1e-8 * top, 'add_cov is not linear')
    # the covariance of the data is removed, if none is given
    white = utils.rem_cov(col)
    close(np.atleast_2d(np.cov(white)), np.eye(dd), 1e-6, 1e-6, 'covariance after it is removed')
    # exactly white data gets the covariance
    exact = utils.add_cov(white, ca)
    close(np.atleast_2d(np.cov(exact)) / np.outer(sig, sig), corr, 1e-6, 1e-6, 'covariance after it is added')
    return dd > 1, ['D=%d' % dd]


def check_invert(case):
    from kalepy import utils
    dd = case['ndim']
    mat = make_matrix(dict(case, range=min(case['range'], 1)), dd)
    before = repr_exact(mat)
    inv = utils.matrix_invert(mat, helper=case['helper'])
    ensure(before == repr_exact(mat), 'the matrix was changed')
    sig = np.sqrt(np.diag(mat))
    close((mat @ inv) * np.outer(1 / sig, sig), np.eye(dd), 1e-7, 1e-6, 'matrix times its inverse')
    # exactly singular
    if dd > 1:
        sing = np.diag(np.arange(dd) * 1.0)
        pin = utils.matrix_invert(sing, helper=False)
        close(sing @ pin @ sing, sing, 1e-9, 1e-12, 'pseudo-inverse of a singular matrix')
    return dd > 1, ['D=%d' % dd]


def check_keep(case):
    """`cov_keep_vars`: no covariance with kept parameters"""
    from kalepy import utils
    dd = case['ndim']
    mat = make_matrix(case, dd)
    keep = sorted(set(kk for kk in case['keep'] if kk < dd))
    form = case['form']
    if form == 'none' or not keep:
        arg, keep = [None, False][case['seed'] % 2], []
    elif form == 'true':
        arg, keep = True, list(range(dd))
    elif form == 'int':
        keep = keep[:1]
        arg = keep[0]
    else:
        arg = dict(list=list, tuple=tuple, array=np.array)[form](keep)
    refl = None
    if case['reflect']:
        refl = [[0.0, None] if (case['seed'] >> kk) & 1 else None for kk in range(dd)]
    before = repr_exact([mat, arg, refl])
    if refl is not None and any(refl[kk] is not None for kk in keep):
        try:
            utils.cov_keep_vars(mat, arg, reflect=refl)
        except ValueError:
            return True, ['rejected']
        ensure(False, 'keep=%s was accepted with reflect=%s', arg, refl)
    got = utils.cov_keep_vars(mat, arg, reflect=refl)
    ensure(before == repr_exact([mat, arg, refl]), 'the inputs were changed')
    want = mat.copy()
    want[keep, :] = 0
    want[:, keep] = 0
    ensure(np.array_equal(got, want), 'cov_keep_vars(keep=%s)', arg)
    ensure(got is not mat, 'the matrix itself was returned')
    return len(keep) > 0, ['keep=%d/%d' % (len(keep), dd)]


SUBS = [
    Sub('color', st.fixed_dictionaries(dict(ndim=st.integers(1, 6), num=st.integers(1, 60), range=gen.choice(0, 1, 2, 5, 9), unit=gen.choice(1.0, 1.0, 1e-14, 1e12), aslist=st.booleans(), seed=gen.seeds)),
        check_color, 500, rule='more than one dimension'),
    Sub('invert', st.fixed_dictionaries(dict(ndim=st.integers(1, 6), range=gen.choice(0, 1, 2), helper=st.booleans(), seed=gen.seeds)), check_invert, 300,
        rule='more than one dimension'),
    Sub('keep', st.fixed_dictionaries(dict(ndim=st.integers(1, 5), range=gen.choice(0, 1), keep=st.lists(st.integers(0, 4), min_size=1, max_size=3),
                                           form=gen.choice('none', 'true', 'int', 'list', 'tuple', 'array'), reflect=st.booleans(), seed=gen.seeds)),
        check_keep, 300, rule='parameters are kept'),
]
