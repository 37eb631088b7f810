"""C17: operations leave the dataset and everything else alone, and results of different datasets or options do not mix."""
import os

import corpus

RULE = ('one evaluation = one operation (preprocessing, vocabulary, learning, text, command line) whose logged file operations and '
        'before/after snapshots are checked; non-trivial = distinct (operation, options, set of mutated directories)')
ASSUMPTIONS = ['datasets given for one output directory differ in name or modification second (see the known finding)',
               'bpe ids contain no path separators', 'files are accessed through libc (interposed), not through raw system calls',
               'access times are not looked at']


def snapshot(area, roots):
    return {r: corpus.tree(r) for r in roots}


def diff(a, b):
    out = []
    for r in a:
        for p in sorted(set(a[r]) | set(b[r])):
            x, y = a[r].get(p), b[r].get(p)
            if x != y:
                out.append('%s %r: %s' % (os.path.basename(r), p, 'new' if x is None else 'gone' if y is None else 'changed %s' % (
                    [n for n, u, v in zip(('type', 'mode', 'size', 'mtime', 'owner', 'inode', 'links', 'content'), x, y) if u != v])))
    return out


def allowed(area, out_dirs):
    h = os.fsencode(area.home)
    return [os.fsencode(o) for o in out_dirs] + [h + b'/.cache/codeprep', h + b'/.config/codeprep', b'/dev/shm', b'/dev/null', b'/dev/tty']


def ancestors(area):
    """Directories which have to exist for the allowed ones (they may be created)."""
    h = os.fsencode(area.home)
    return [h + b'/.cache', h + b'/.config']


def check_log(check, area, log, out_dirs, case, what):
    ok = allowed(area, out_dirs)
    dirs = set()
    bad = []
    for n, pid, op, a, b in corpus.read_log(log):
        check.count('file operations logged')
        for p in (a, b):
            if not p:
                continue
            real = os.path.normpath(p)
            if any(real == o or real.startswith(o + b'/') for o in ok):
                dirs.add((op, [o for o in ok if real == o or real.startswith(o + b'/')][0][-20:]))
                continue
            if op == 'mkdir' and (real in ancestors(area) or any((o + b'/').startswith(real + b'/') for o in ok)):
                continue  # creating a parent of an allowed directory, or an attempt to create one which exists
            bad.append('%s %r%s' % (op, a, ' -> %r' % b if b else ''))
    if bad:
        check.violation('%s: changes outside the output, cache and configuration directories: %s' % (what, bad[:5]), case)
    return dirs


def make_dataset(area, rng, base, name, stamp):
    path = os.path.join(base, name)
    corpus.build_tree(rng, path, rng.choice([2, 4, 8]), max_depth=2, make_content=lambda r: corpus.simple_java(r, 4))
    if not corpus.selected(path, ['java']):
        with open(path + '/Z.java', 'w') as f:
            f.write('class Z { int zed = 1; }\n')
    elsewhere = area.dir('data/elsewhere%d' % stamp)
    corpus.add_specials(rng, path, elsewhere)
    corpus.set_mtimes(elsewhere, stamp)
    corpus.set_mtimes(path, stamp)
    return path


def history(check, area, rng, k):
    data = area.dir('data')
    cwd = area.dir('cwd')
    with open(cwd + '/notes.txt', 'w') as f:
        f.write('mine')
    for p in ('.bashrc', '.config/other/conf', '.cache/other/x', 'doc.txt'):
        q = os.path.join(area.home, p)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, 'w') as f:
            f.write('user data')
    stamp = 1500000000 + rng.randrange(10 ** 7)
    names = rng.sample(['ds', 'ds_1', 'ds.java', 'a b', u'd\xf6', 'ds_-_u', 'DS', 'out', 'ds-10', "it's"], 3)
    dss = []
    apart = rng.random() < 0.5
    stamps = []
    for j, n in enumerate(names):
        sub = area.dir('data/p%d' % j)
        n = names[0] if apart and rng.random() < 0.3 else n
        if apart and j:
            stamp += rng.choice(corpus.TIME_STEPS)
        stamps.append(stamp)  # datasets of different names may have been modified in the same second
        dss.append(make_dataset(area, rng, sub, n, stamps[-1]))
    learned = []
    produced = {}
    read_only = rng.random() < 0.3
    if read_only:  # root ignores modes, but the modes themselves must stay
        for d in dss:
            for r, ds_, fs in os.walk(os.fsencode(d)):
                for f in fs:
                    p = os.path.join(r, f)
                    if not os.path.islink(p):
                        os.chmod(p, 0o444)
                os.chmod(r, 0o555)
        for d in dss:
            for r, _, fs in os.walk(os.fsencode(d)):
                os.utime(r, (stamps[dss.index(d)],) * 2)
    for step in range(rng.choice([2, 3, 5])):
        if not check.go_on():
            return
        ds = rng.choice(dss)
        kind = rng.choice(['prep', 'prep', 'prep', 'vocab', 'vocab', 'learn', 'cli', 'text', 'custom'])
        if learned and rng.random() < 0.35:
            kind = 'custom'
        if kind == 'custom' and not learned:
            kind = 'learn'
        given = rng.choice([ds, ds, ds + '/', ds + '//', os.path.relpath(ds, cwd), os.path.relpath(ds, cwd) + '/', os.path.join(ds, '.')])
        out = rng.choice([area.out, os.path.join(area.out, 'o2'), None])
        out_dirs = [out or cwd]
        log = os.path.join(area.tmp, 'log')
        if os.path.exists(log):
            os.unlink(log)
        mode = rng.choice(['nosplit', 'basic', 'chars', 'bpe'])
        opts = corpus.random_opts(rng, mode)
        exts = rng.choice([None, None, 'java', 'java|py'])
        sup = rng.random() < 0.2
        common = dict(cwd=cwd, cpus=rng.choice([1, 2, 3]), watch=[area.root], log=log, log_all=True)
        roots = [data] + ([cwd] if out else [])
        before = snapshot(area, roots + [area.home + '/.bashrc', area.home + '/.config/other', area.home + '/.cache/other', area.home + '/doc.txt'])
        result_id = None
        if kind in ('prep', 'vocab', 'custom'):
            bpe_id = rng.choice(['1k', '5k'])
            if kind == 'custom':
                mode, bpe_id, opts = 'bpe', rng.choice(learned), {}
            o = area.op('prep', mode=mode, path=given, out=out, exts=exts, bpe_id=bpe_id, opts=opts, calc_vocab=kind == 'vocab',
                        size=rng.random() < 0.5, suppress_caching=sup, **common)
            case = {'operation': kind, 'mode': mode, 'options': opts, 'dataset': os.path.relpath(ds, area.root), 'given as': given, 'extensions': exts}
            result_id = (ds, mode, bpe_id if mode == 'bpe' else None, tuple(sorted(norm(opts).items())),
                         tuple(sorted(set(exts.split('|')))) if exts else None, out_dirs[0])
        elif kind == 'learn':
            args = ['learn-bpe', str(rng.choice([5, 20, 60])), '-p', given] + rng.choice([[], ['-e', 'java'], ['--id', 'id%d' % k], ['--no-unicode']])
            out_dirs, roots = [], [data, cwd]
            before = snapshot(area, list(before) + [cwd])
            o = area.op('cli', args=args, **common)
            case = {'operation': 'learn', 'args': args[:2] + args[4:]}
            if o.kind == 'ok':
                learned += learned_ids(area)
        elif kind == 'cli':
            args = [mode] + (['1k'] if mode == 'bpe' else []) + ['-p', given] + (['-o', out] if out else []) + rng.choice([[], ['-e', 'java'], ['--calc-vocab']])
            o = area.op('cli', args=args, **common)
            case = {'operation': 'cli', 'args': args[:2] + args[4:]}
        else:
            out_dirs = []
            before = snapshot(area, list(before) + [cwd])
            calls = [(mode, 'int fooBar = 3; // x\n', 'java', '1k', opts)]
            o = area.op('texts', calls=calls, **common)
            case = {'operation': 'text', 'mode': mode, 'options': opts}
        after = snapshot(area, list(before))
        check.count('operation ' + kind)
        if o.kind != 'ok':
            check.violation('%s failed: %r %s' % (kind, o, o.crash or o.err[-500:]), case)
            continue
        d = diff(before, after)
        if d:
            check.violation('%s changed what it must not touch: %s' % (kind, d[:5]), case)
        check.count('entries in snapshots', sum(map(len, before.values())))
        dirs = check_log(check, area, log, out_dirs, case, kind)
        check.evaluated((kind, mode, sorted(opts.items()), sorted(map(repr, dirs))))
        if result_id:
            prep = os.path.realpath(o.value['prep'])
            if os.path.dirname(prep) != os.path.realpath(out_dirs[0]):
                check.violation('output directory %s is not directly in the requested output path' % prep, case)
            for other_id, other in produced.items():
                if other_id != result_id and (prep == other or prep.startswith(other + '/') or other.startswith(prep + '/')):
                    check.violation('output directory %s is shared with a run on another dataset or with other options: %r and %r' % (
                        os.path.basename(prep), other_id, result_id), case)
            if produced.setdefault(result_id, prep) != prep:
                check.violation('same dataset and options gave %s and %s' % (os.path.basename(prep), os.path.basename(produced[result_id])), case)
            want = sorted(p + b'.prep' for p in corpus.selected(ds, exts.split('|') if exts else None))
            if sorted(corpus.outputs(prep)) != want:
                check.violation('output directory holds other files than the outputs of this dataset', case)
            check.count('output directories compared', len(produced))
        check.sample({'operation': case, 'mutated': sorted(map(repr, dirs))[:6]})


def norm(opts):
    o = {k: v for k, v in opts.items() if v is not False}
    if o.get('no_str'):
        o.pop('max_str_length', None)
    if o.get('max_str_length') in (0, 1):
        o['max_str_length'] = 2
    return o


def lengths_only(one, two):
    """The key of the known finding if the runs differ in maximum lengths of 62 and more (or unlimited) only."""
    rest = set()
    for bpe_id, opts, exts in (one, two):
        o = dict(opts)
        if o.pop('max_str_length', 62) < 62 or o.get('no_str'):
            return None
        rest.add((bpe_id, tuple(sorted(o.items())), exts))
    return 'max-str-length-ge-62' if len(rest) == 1 else None


def learned_ids(area):
    out = []
    base = os.path.join(area.home, '.config', 'codeprep')
    for d, subdirs, files in os.walk(base):
        if '.name' in files:
            ns = [int(s) for s in subdirs if s.isdigit()]
            if ns:
                with open(os.path.join(d, '.name')) as f:
                    out.append('%s-%d' % (f.read(), max(ns)))
    return out


def near(check, area, rng, k):
    """Runs on one dataset that differ in one respect: never the same directory, each with exactly its own files."""
    ds = os.path.join(area.dir('near'), 'n%d' % k)
    corpus.build_tree(rng, ds, 25, max_depth=1, make_content=lambda r: b'int xyzAbcLala = lala + abcDefXyz;\n', exts=[b'.' + e for e in
                      b'c h java py rb ch c_h C JAVA js go c.h c-h c_ _h tar.java c++ html txt j s'.split()] + [b''])
    corpus.set_mtimes(ds, 1500000000)
    configs = corpus.near_misses(rng, 5)
    if rng.random() < 0.3:  # the same with learned codes: other numbers of merges of one list, and ids that look alike
        ids = ['na', 'na-1', 'na_1']
        for id_ in ids[:2]:
            area.op('cli', args=['learn-bpe', '12', '-p', ds, '--id', id_] + ([] if id_ == 'na' else ['--no-unicode']), cpus=2)
        base = dict(configs[0], mode='bpe', opts={})
        configs = [base] + [dict(base, bpe_id=b) for b in rng.sample(['na-1', 'na-2', 'na-3', 'na-11', 'na-12', 'na-1-1', 'na-1-2', '5k'], 4)]
    o = area.op('several', ops=[('prep', dict(dict(bpe_id='1k'), **dict(c, path=ds, out=area.out))) for c in configs], cpus=2)
    case = {'dataset': sorted(map(repr, corpus.selected(ds, None))), 'one after another': configs}
    check.count('groups of runs that differ in one respect')
    if o.kind != 'ok':
        check.violation('run failed: %r %s' % (o, o.crash or o.err[-500:]), case)
        return
    seen = {}
    for c, v in zip(configs, o.value):
        ident = (c.get('bpe_id'), tuple(sorted(norm(c['opts']).items())), tuple(sorted(set(c['exts'].split('|')))) if c['exts'] else None)
        prep = os.path.realpath(v['prep'])
        for other, where in seen.items():
            if other != ident and (prep == where or prep.startswith(where + '/') or where.startswith(prep + '/')):
                check.violation('runs with different options share the output directory %s: %r and %r' % (os.path.basename(prep), other, ident), case, lengths_only(other, ident))
        seen[ident] = prep
        want = sorted(p + b'.prep' for p in corpus.selected(ds, c['exts'].split('|') if c['exts'] else None))
        if sorted(corpus.outputs(prep)) != want:
            check.violation('%r: the output directory holds other files than the outputs of this run' % (c,), case)
    check.count('output directories compared', len(seen))
    check.evaluated((repr(configs),))
    stamp = 1500000000
    for _ in range(3):  # the same dataset modified at other times: other directories
        step = rng.choice(corpus.TIME_STEPS)
        stamp += step
        corpus.set_mtimes(ds, stamp)
        o = area.op('prep', **dict(dict(bpe_id='1k', load=False), **dict(configs[0], path=ds, out=area.out)))
        check.count('runs at other modification times')
        if o.kind != 'ok':
            check.violation('run failed: %r %s' % (o, o.crash or o.err[-500:]), case)
            return
        prep = os.path.realpath(o.value['prep'])
        if prep in seen.values():
            check.violation('the dataset modified at %d shares the directory %s with an earlier state' % (stamp, os.path.basename(prep)),
                            dict(case, last_step=step))
        seen[stamp] = prep


ALIKE = [['ds', 'DS', 'Ds', 'dS'], ['n' * 40 + 'a', 'n' * 40 + 'b', 'n' * 40], ['x' * 120 + '1', 'x' * 120 + '2', 'y' + 'x' * 119],
         ['a b', 'a_b', 'a-b', 'a.b', 'ab', 'a  b', 'a%20b'], [u'caf\xe9', u'cafe\u0301', 'cafe', u'caf\xc9'], ['ds.java', 'ds.py', 'ds', 'ds.'],
         ['ds_java', 'ds', 'ds_c', 'java'], ['.ds', 'ds', '_ds', '-ds'], ['ds ', ' ds', 'ds'], ['d1', 'd01', 'd', 'd10', 'd11'],
         ['d[1]', 'd1', 'd*', 'd?'], ['1', '2', '0'], ['%s', '%5F', '_', '%'], [u'\u65e5\u672c', u'\u65e5', u'\u672c'], ["a'b", 'a"b', 'a`b', 'a\\b'],
         ['prep', 'archived', 'parsed', 'out'], [u'\u0130x', 'ix', 'Ix', u'\u0131x'], [u'stra\xdfe', 'strasse', 'STRASSE']]


def alike(check, area, rng, k):
    """Datasets of similar names, all modified in the same second: every one gets its own output, vocabulary and learned codes."""
    family = rng.choice(ALIKE)
    names = rng.sample(family, min(len(family), 3))
    linked = rng.random() < 0.25
    base = area.dir('alike%d' % k)
    paths, words = [], {}
    for j, n in enumerate(names):
        d = area.dir('alike%d/x%d/same' % (k, j)) if linked else area.dir('alike%d/%s' % (k, n))
        words[n] = ['word%s' % c * 3 for c in 'abc'[j]] + ['own%s' % 'klm'[j]]
        with open('%s/Own%d.java' % (d, j), 'w') as f:
            f.write('%s ' % ' '.join(words[n]) * (j + 1))
        corpus.set_mtimes(d, 1500000000)
        if linked:
            os.symlink(d, os.path.join(base, n))
        paths.append(os.path.join(base, n))
    exts = rng.choice([None, 'java', 'java|py|c|h', 'c|java|h|js|go'])
    req = dict(mode='nosplit', out=area.out, exts=exts, calc_vocab=True, size=True)
    log = {'names': names, 'links': linked, 'extensions': exts}
    flags = ['-e', exts] if exts else []
    ops = []
    for j, (n, p) in enumerate(zip(names, paths)):
        ops.append(('prep', dict(req, path=p)))
        ops.append(('cli', {'args': ['learn-bpe', '4', '-p', p, '--id', 'al%d' % j] + flags}))
    for p, j in zip(paths, range(9)):
        ops.append(('prep', dict(path=p, out=area.out, exts=exts, mode='bpe', bpe_id='al%d-4' % j)))
    o = area.op('several', ops=ops, cpus=2)
    check.count('groups of datasets of similar names')
    if o.kind != 'ok':
        check.violation('run failed: %r %s' % (o, o.crash or o.err[-500:]), log)
        return
    runs = [(j, v) for j, v in zip([0, None, 1, None, 2, None][:2 * len(names)] + list(range(len(names))), o.value) if v]
    seen = {}
    for j, v in runs:
        prep = os.path.realpath(v['prep'])
        if prep in seen:
            check.violation('datasets %r and %r share the output directory %s' % (names[seen[prep]], names[j], os.path.basename(prep)), log)
        seen[prep] = j
        if sorted(corpus.outputs(prep)) != [b'Own%d.java.prep' % j]:
            check.violation('the output of dataset %r holds the files %s' % (names[j], sorted(corpus.outputs(prep))), log)
        if 'vocab' in v:
            own = {w for w in v['vocab'] if w.startswith(('word', 'own'))}
            if own != set(words[names[j]]):
                check.violation('the vocabulary of dataset %r has the words %s instead of %s' % (names[j], sorted(own), sorted(words[names[j]])), log)
            check.count('vocabularies of similar names compared')
    check.evaluated(('alike', names, linked, exts))


def known_shared_directory(check):
    """Two datasets with the same name and the same modification second; maximum lengths of 62 and more (recorded in KNOWN_FINDINGS.json)."""
    with corpus.Area(check, 'l') as area:
        preps = []
        for n in (62, 63):
            ds = area.dir('ds')
            with open(ds + '/A.java', 'w') as f:
                f.write('x = "%s";\n' % ('z' * 61))
            corpus.set_mtimes(ds, 1500000000)
            o = area.op('prep', mode='nosplit', path=ds, out=area.out, exts=None, opts={'max_str_length': n})
            if o.kind != 'ok':
                check.violation('run failed: %r' % o, {})
                return
            preps.append(o.value['prep'])
        check.evaluated()
        if preps[0] == preps[1]:
            check.violation('maximum lengths 62 and 63 share the output directory %s' % preps[0], {}, 'max-str-length-ge-62')
    with corpus.Area(check, 'k') as area:
        preps = []
        for sub, text in (('p', 'int first;\n'), ('q', 'int second;\n')):
            ds = area.dir(sub + '/ds')
            with open(ds + '/A.java', 'w') as f:
                f.write(text)
            corpus.set_mtimes(ds, 1500000000)
            o = area.op('prep', mode='nosplit', path=ds, out=area.out, exts=None)
            if o.kind != 'ok':
                check.violation('run failed: %r' % o, {})
                return
            preps.append(o.value['prep'])
        check.evaluated()
        if preps[0] == preps[1]:
            check.violation('two datasets share the output directory %s' % preps[0], {}, 'same-name-and-second')


def work(check, i):
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            k += 1
            history(check, area, check.rng, k)
            if k % 2 == 0 or k == 1:
                alike(check, area, check.rng, k)
            if k % 2:
                near(check, area, check.rng, k)


def run(check):
    check.budget(65, 500)
    known_shared_directory(check)
    check.fork_workers(work)
    check.require(**{'operation prep': 20, 'operation vocab': 10, 'operation learn': 6, 'operation cli': 5, 'operation custom': 2,
                     'operation text': 5, 'file operations logged': 5000, 'output directories compared': 20,
                     'runs at other modification times': 15, 'groups of runs that differ in one respect': 5})
