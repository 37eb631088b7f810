"""main.py <property-id> <tier>: run one monitor-based check and give its verdict."""
import importlib
import os
import sys
import traceback


# monitors which run the code under test in child processes only, so that each child starts from a fresh import
CHILDREN_ONLY = {'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C24'}


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    from common import Check, Inconclusive, crash_kind
    import env
    if pid in CHILDREN_ONLY:
        import corpus
        env.setup(import_codeprep=False)
        corpus.preload()
    else:
        env.setup()
    module = importlib.import_module('props.' + pid.lower())
    check = Check(pid, tier, seed, level=getattr(module, 'LEVEL', 'exploration'), rule=module.RULE)
    check.assumptions = list(getattr(module, 'ASSUMPTIONS', []))
    try:
        module.run(check)
    except Inconclusive as e:
        if not check.violations:
            print('%s: INCONCLUSIVE: %s' % (pid, e))
            check.finish()
            return 3
    except Exception as e:
        traceback.print_exc()
        if crash_kind(e):
            check.violation('uncaught exception in the code under test: ' + crash_kind(e), {'traceback': traceback.format_exc()})
        if not check.violations:
            print('%s: harness error' % pid)
            return 4
    return check.finish()


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
