"""C16: input files and output files of a corpus run correspond one to one."""
import os

import corpus

RULE = ('one evaluation = one corpus run whose output tree is compared with an independent listing of the input tree; non-trivial = '
        'distinct (set of relative input paths, extension filter, way the path was given) with at least two files in the tree')
ASSUMPTIONS = ['names leave room for the appended suffixes (at most 243 bytes)', 'no cycles of links',
               'output directories lie outside the dataset',
               'an input file which is itself the dataset is preprocessed whatever its extension']

FILTERS = [None, None, None, 'java', 'java', 'java|py', 'py', 'c|h', 'h|c|java|c', 'tar.java', 'txt', 'nothing', u'\xe4t\xe4', 'JAVA', 'js|xyz',
           'va', 'c++', 'ja', 'xjava|py~', 'java.prep', '*', 'j.va', 'go|rb|html']
MORE_NAMES = [b'a.java.prep', b'b.prep', b'c.parsed', b'd.part', b'.java', b'.py', b'f.c++', b'java', b'xjava', b'a.java ', b' a.java', b'A.java.',
              b'filelist', b'dirlist', b'.ds.lastmodif', b'vocab', b"b'x'.java", b'b"y".py', b'\\x00.java', b'\\n.java', b'\x01.c', b'\x7f.h',
              b'\xf0\x9f\x98\x80.java', b'\xed\xa0\x80.java', b'x' * 235 + b'.java', b'a|b.java', b'...', b'.a.b', b'-', b'--ext', b'\xc2\xa0.java',
              b'\xe2\x80\xa8.java', b'\x0b.java', b'\x1c.py', b'\x85.java', b'a;b.c', b'aux.py', b'a.b.c.d.java', b'\rcr.java', b"'.java", b'a\\.py']


def collides(root):
    """A file p next to a directory p.parsed or p.prep needs the same name in the output for both."""
    root = os.fsencode(root)
    for d, subdirs, files in os.walk(root, followlinks=True):
        for f in files:
            for s in subdirs:
                if s.startswith(f) and s[len(f):] in (b'.parsed', b'.prep', b'.parsed.part', b'.prep.part'):
                    return True
    return False


def check_run(check, area, ds, path, exts, mode, opts, cpus, cwd, case, form, key=None):
    files = corpus.selected(ds, exts.split('|') if exts else None)
    o = area.op('prep', mode=mode, path=path, out=area.out, exts=exts, bpe_id='1k', opts=opts, cpus=cpus, cwd=cwd)
    check.count('corpus runs')
    if o.kind != 'ok':
        check.violation('corpus run failed: %r %s' % (o, o.crash or o.err[-600:]), case, key)
        return
    want = sorted(p + b'.prep' for p in files)
    got = corpus.outputs(o.value['prep'])
    n_all = len(corpus.selected(ds, None))
    check.evaluated((sorted(files), exts, form) if n_all >= 2 else None)
    check.count('input files', len(files))
    check.count('files left out by the filter', n_all - len(files))
    extra, missing = sorted(set(got) - set(want)), sorted(set(want) - set(got))
    if extra or missing:
        check.violation('outputs missing: %s; outputs without input: %s' % ([repr(x) for x in missing[:5]], [repr(x) for x in extra[:5]]),
                        case, key)
        return
    bad = [p for p in want if not got[p].endswith(b'\n') or got[p].count(b'\n') != 1]
    if bad:
        check.violation('not one line in the output of %r' % bad[0], case, key)
    its = sorted(os.path.relpath(f, os.fsencode(o.value['prep'])) for f in o.value['files'])
    if its != want:
        check.violation('the file iterator of the result names %d files, %d expected: %s' % (
            len(its), len(want), [repr(x) for x in sorted(set(its) ^ set(want))[:6]]), case, key)
    leftovers = []
    for d, _, fs in os.walk(os.fsencode(area.root)):
        if not d[len(area.root):].startswith(b'/ds'):
            leftovers += [os.path.join(d, f) for f in fs if f.endswith((b'.prep.part', b'.parsed.part'))]
    if leftovers:
        check.violation('temporary files left behind: %s' % [repr(x) for x in leftovers[:4]], case, key)


def make_case(check, area, rng, k):
    ds = os.path.join(area.root, rng.choice(['ds', 'ds x', u'd\xe4s', 'ds.java', 'ds-%d' % k, 'ds[1]', "ds'q", 'ds_-_u']) + str(k))
    n = rng.choice([1, 2, 5, 12, 30])
    if k % 25 == 7:
        n = 300 if not check.thorough else rng.choice([300, 1300, 2500])
    tiny = lambda r: r.choice([b'int x;\n', b'', b'class A { }\n', b'x\n', b'\xff\n', b'// c'])
    names = rng.choice([corpus.NAMES, MORE_NAMES, corpus.NAMES + MORE_NAMES])
    corpus.build_tree(rng, ds, n, max_depth=rng.choice([1, 3, 12, 40]), names=names,
                      exts=rng.choice([corpus.EXTS, [b''] + corpus.EXTS, [b'', b'.java']]), make_content=tiny)
    outside = area.dir('dsout%d' % k)
    added = corpus.add_specials(rng, ds, outside)
    for a in added:
        check.count('with ' + a)
    return ds, added


def work(check, i):
    rng = check.rng
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            for _ in range(4):
                if not check.go_on():
                    break
                k += 1
                if k % 9 == 4:
                    single_file(check, area, rng, k)
                    continue
                ds, added = make_case(check, area, rng, k)
                key = 'output-name-collision' if collides(ds) else None
                form = rng.choice(['plain', 'plain', 'relative', 'dot', 'slash', 'updown', 'link'])
                path, cwd = ds, None
                if form == 'relative':
                    path, cwd = os.path.basename(ds), area.root
                elif form == 'dot':
                    path, cwd = './' + os.path.basename(ds), area.root
                elif form == 'slash':
                    path = ds + '/'
                elif form == 'updown':
                    path = ds + '/../' + os.path.basename(ds)
                elif form == 'link':
                    path = os.path.join(area.root, 'dslink%d' % k)
                    os.symlink(ds, path)
                exts = rng.choice(FILTERS)
                mode = rng.choice(['nosplit', 'basic', 'basic', 'chars', 'bpe'])
                case = {'path form': form, 'extensions': exts, 'mode': mode, 'specials': added,
                        'tree': [repr(x) for x in sorted(corpus.tree(ds))][:80]}
                check.count('path form ' + form)
                check_run(check, area, ds, path, exts, mode, {}, rng.choice([1, 2, 4]), cwd, case, form, key)
                check.sample({'files': len(corpus.selected(ds, None)), 'extensions': exts, 'specials': added, 'path form': form})


def single_file(check, area, rng, k):
    d = area.dir('dsf%d' % k)
    names = [n for n in corpus.NAMES + MORE_NAMES if _decodable(n) and len(n) < 150]
    name = rng.choice(names)
    p = os.path.join(os.fsencode(d), name)
    with open(p, 'wb') as f:
        f.write(b'int single;\n')
    with open(p + b'2', 'wb') as f:
        f.write(b'not part of it\n')
    exts = rng.choice([None, 'java', 'py'])
    check.count('single-file inputs')
    check_run(check, area, os.fsdecode(p), os.fsdecode(p), exts, rng.choice(['nosplit', 'basic']), {}, 2, None,
              {'single file': repr(name), 'extensions': exts}, 'single')


def _decodable(n):
    try:
        n.decode()
        return b'/' not in n
    except UnicodeDecodeError:
        return False


def known_collision(check):
    """The one recorded input family: a file next to a directory of the same name plus a suffix of the tool."""
    for suffix in ('.prep', '.parsed'):
        with corpus.Area(check, 'k') as area:
            ds = area.dir('ds')
            with open(ds + '/x', 'w') as f:
                f.write('int x;\n')
            os.mkdir(ds + '/x' + suffix)
            with open(ds + '/x%s/y.java' % suffix, 'w') as f:
                f.write('int y;\n')
            check_run(check, area, ds, ds, None, 'nosplit', {}, 2, None, {'tree': ['x', 'x%s/y.java' % suffix]}, 'collision',
                      'output-name-collision')


def run(check):
    check.budget(65, 500)
    known_collision(check)
    check.fork_workers(work)
    check.require(**{'corpus runs': 60, 'input files': 500, 'files left out by the filter': 100, 'single-file inputs': 4,
                     'with filelink': 5, 'with dirlink': 5, 'with fifo': 5})
