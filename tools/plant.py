#!/usr/bin/env python3
"""plant.py SPEC.py: turn a planted-bug description into /verif/seeded/<id>/ after confirming it in a scratch copy of /repo:
it applies, the stable tests still pass, the demonstration passes without and fails with it.
SPEC defines: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python source), optional FILES {name: text}.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0 if the property holds on this demonstration, 1 otherwise
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/codeprep-demo-XXXXXX")" || exit 9
mkdir -p "$scratch/home" "$scratch/work"
export HOME="$scratch/home" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 PYTHONUTF8=1
unset XDG_CACHE_HOME XDG_CONFIG_HOME
cd "$scratch/work" || exit 9
timeout -k 5 240 /opt/venv-pypy/bin/pypy3 "$here/demo.py" "$scratch"
rc=$?
cd /
chmod -R u+rwx "$scratch" 2>/dev/null
rm -rf "$scratch"
exit $rc
'''


def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, universal_newlines=True)
    return p.returncode, p.stdout


def main():
    spec = runpy.run_path(sys.argv[1])
    sid = spec['ID']
    work = tempfile.mkdtemp(prefix='codeprep-plant-')
    repo = os.path.join(work, 'repo')
    try:
        shutil.copytree('/repo', repo, symlinks=True)
        assert sh(['git', 'status', '--porcelain'], repo)[1].strip() == ''
        dst = os.path.join(work, 'seed')
        os.makedirs(dst)
        with open(os.path.join(dst, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        os.chmod(os.path.join(dst, 'demo.sh'), 0o755)
        with open(os.path.join(dst, 'demo.py'), 'w') as f:
            f.write(spec['DEMO'].lstrip('\n'))
        for n, t in spec.get('FILES', {}).items():
            with open(os.path.join(dst, n), 'w') as f:
                f.write(t)
        demo = ['bash', os.path.join(dst, 'demo.sh')]
        rc, out = sh(demo, repo)
        assert rc == 0, ('demo fails on the unchanged tree', rc, out[-3000:])
        for path, old, new in spec['EDITS']:
            p = os.path.join(repo, path)
            s = open(p).read()
            assert s.count(old) == 1, (path, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        rc, patch = sh(['git', 'diff'], repo)
        assert patch
        rc, out = sh(demo, repo)
        assert rc not in (0, 9), ('demo passes with the change', rc, out[-3000:])
        print('demo with the change: exit %d: %s' % (rc, out[-600:]))
        # stable tests: test.sh always uses /repo, so the copy is shown there, to this one process only
        if '--no-tests' not in sys.argv:
            rc, out = sh(['unshare', '-Urm', 'bash', '-c', 'mount --bind "$1" /repo && cd / && exec bash /opt/vp/test.sh "$2"', 'x', repo, os.path.join(work, 'out.json')], '/', 1200)
            o = json.load(open(os.path.join(work, 'out.json')))
            missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(o['passed'])
            assert not missing, ('tests notice it', missing)
        open(os.path.join(dst, 'patch.diff'), 'w').write(patch)
        json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']},
                  open(os.path.join(dst, 'meta.json'), 'w'), indent=1)
        final = os.path.join(V, 'seeded', sid)
        if os.path.isdir(final):
            shutil.rmtree(final)
        shutil.copytree(dst, final)
        print('planted', sid)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
