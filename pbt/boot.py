"""Make Hypothesis (which is not part of the repository's own environment) and /repo importable."""
import importlib.machinery
import os
import sys
import tempfile
import zipfile

REPO = os.environ.get('KALEPY_REPO', '/repo')
_ALLOWED = ('hypothesis', '_hypothesis', 'sortedcontainers', 'attr', 'attrs')
_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_WHEELS = '/opt/veriftools/wheels'


class _Finder:
    """Find only Hypothesis and its dependencies in the tooling environment, so numpy etc. stay the repository's."""

    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if path is None and (top in _ALLOWED or top.startswith('_hypothesis')):
            return importlib.machinery.PathFinder.find_spec(name, [self.path])
        return None


def boot():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa
    except ImportError:
        path = _SITE
        if not os.path.isdir(os.path.join(path, 'hypothesis')):
            path = tempfile.mkdtemp(prefix='pbt_hyp_')
            for fn in sorted(os.listdir(_WHEELS)):
                low = fn.lower()
                if low.endswith('.whl') and low.split('-')[0] in ('hypothesis', 'sortedcontainers', 'attrs'):
                    if low.startswith('hypothesis') and 'cp312' not in low and 'py3-none' not in low:
                        continue
                    zipfile.ZipFile(os.path.join(_WHEELS, fn)).extractall(path)
        sys.meta_path.append(_Finder(path))
        import hypothesis  # noqa
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import kalepy
    where = os.path.dirname(os.path.dirname(os.path.abspath(kalepy.__file__)))
    if os.path.realpath(where) != os.path.realpath(REPO):
        raise RuntimeError('kalepy was imported from %s, not %s' % (where, REPO))
