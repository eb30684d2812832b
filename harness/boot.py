"""Makes the code under test and Hypothesis importable in the interpreter that has the repository's dependencies."""
import importlib.machinery
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class _ToolFinder:
    """Only finds the property-based testing library, so that nothing else of the tool venv shadows the repository's
    own dependencies (e.g. another NumPy)."""

    allowed = {'hypothesis', 'sortedcontainers', '_hypothesis_globals', '_hypothesis_pytestplugin', '_hypothesis_ftz_detector'}

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name.split('.')[0] not in cls.allowed:
            return None
        return importlib.machinery.PathFinder.find_spec(name, path if path is not None else [_VT_SITE])


def setup():
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    sys.meta_path.append(_ToolFinder)
    import warnings
    warnings.simplefilter('ignore')
