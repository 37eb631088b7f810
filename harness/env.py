"""Process-level set-up shared by every monitor: quiet logs, repository first on sys.path, no bytecode left behind."""
import logging
import os
import sys
import warnings

REPO = os.environ.get('CODEPREP_REPO', '/repo')


def setup(import_codeprep=True):
    assert 'codeprep-verif' in os.environ.get('HOME', ''), 'must be started through run.sh (scratch HOME)'
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    if not import_codeprep:
        return
    import codeprep
    assert os.path.realpath(codeprep.__file__).startswith(os.path.realpath(REPO) + os.sep), codeprep.__file__
    quiet()


def quiet():
    logging.root.setLevel(logging.CRITICAL + 10)
    logging.disable(logging.CRITICAL)


class Raised(object):
    """Outcome of a call into the code under test that raised."""

    def __init__(self, exc):
        import traceback
        self.type = type(exc).__name__
        self.msg = str(exc)
        tb = traceback.extract_tb(exc.__traceback__)
        frames = [f for f in tb if '/codeprep/' in f.filename]
        self.where = '%s:%s' % (os.path.basename(frames[-1].filename), frames[-1].name) if frames else '?'

    def __repr__(self):
        return 'raised %s(%s) in %s' % (self.type, self.msg[:300], self.where)

    def __eq__(self, other):
        return isinstance(other, Raised) and self.type == other.type


def call(fn, *a, **kw):
    """(True, value) or (False, Raised)"""
    try:
        return True, fn(*a, **kw)
    except (Exception, SystemExit) as e:
        return False, Raised(e)


def import_repo_from(exc_tb):
    return any('/codeprep/' in (f.f_code.co_filename if hasattr(f, 'f_code') else '') for f in exc_tb)
