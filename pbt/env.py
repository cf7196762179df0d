"""Makes hypothesis importable beside the library's own interpreter, and makes
sure that the library under test is the one in /repo's working tree."""
import os
import sys
import warnings

# PBT_REPO: development only, a scratch copy instead of /repo
REPO = os.path.realpath(os.environ.get('PBT_REPO') or '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def init():
    warnings.simplefilter('ignore')
    warnings.filterwarnings('ignore')
    try:
        import hypothesis  # noqa
    except ImportError:
        # appended, so that the library's own pandas, numpy, ... stay first
        sys.path.append(VT)
        import hypothesis  # noqa
    import logging
    logging.disable(logging.CRITICAL)
    import featuretools as ft
    where = os.path.realpath(ft.__file__)
    if not where.startswith(REPO + os.sep):
        raise SystemExit('featuretools is not imported from %s: %s' % (REPO, where))
    warnings.simplefilter('ignore')
    warnings.filterwarnings('ignore')
    warnings.showwarning = lambda *a, **k: None
    return ft
