"""C19: preprocessing runs are killed at file-system events and repeated."""
import os

import corpus
import crash

RULE = ('one evaluation = one killed run: what it left is inspected, the run is repeated and its result compared with an uninterrupted run; '
        'non-trivial = distinct (kind of call, file, how it was killed) at which a run was really killed')
ASSUMPTIONS = ['killed means SIGKILL of all or one of the processes; data already handed to the operating system is not lost',
               'the dataset is not changed between the runs']


def incomplete_outputs(out_dirs, want):
    """Output files under their final names which do not hold their final content."""
    bad = []
    for out in out_dirs:
        for d, _, fs in os.walk(os.fsencode(out)):
            for f in fs:
                if f.endswith(b'.prep'):
                    p = os.path.join(d, f)
                    with open(p, 'rb') as h:
                        data = h.read()
                    ok = want.get(f)
                    if ok is not None and data not in ok:
                        bad.append('%r holds %r' % (os.path.relpath(p, os.fsencode(out)), data[-80:]))
    return bad


def by_name(outputs):
    r = {}
    for p, c in outputs.items():
        r.setdefault(os.path.basename(p), set()).add(c)
    return r


def compare(o, want):
    if o.kind != 'ok':
        return 'fails: %r %s' % (o, o.crash or o.err[-600:])
    got = corpus.outputs(o.value['prep'])
    if got != want:
        ks = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
        return 'gives other output: %s' % [(k, (got.get(k) or b'(missing)')[-80:], (want.get(k) or b'(should not be there)')[-80:]) for k in ks[:3]]
    return None


def campaign(check, area, rng, k):
    ds = os.path.join(area.root, rng.choice(['ds', 'd s', 'p-1']))
    n = rng.choice([1, 2, 4, 8, 25])
    corpus.build_tree(rng, ds, n, make_content=lambda r: corpus.content(r) if r.random() < 0.3 else corpus.simple_java(r, r.choice([2, 30, 200])))
    corpus.set_mtimes(ds, 1500000000 + rng.randrange(10 ** 6))
    mode = rng.choice(['nosplit', 'basic', 'chars', 'bpe'])
    req = dict(mode=mode, path=ds, exts=None, bpe_id='1k', opts=corpus.random_opts(rng, mode) if rng.random() < 0.5 else {},
               suppress_caching=rng.random() < 0.15)
    cpus = rng.choice([1, 2, 4])
    log = crash.new_log(area)
    ref = area.op('prep', out=area.out, watch=[area.root], cpus=cpus, **req, log=log)
    if ref.kind != 'ok':
        check.violation('uninterrupted run failed: %r' % ref, {'request': req})
        return
    want = corpus.outputs(ref.value['prep'])
    names = by_name(want)
    total = ref.events
    other_mode = rng.choice([m for m in ('nosplit', 'basic', 'chars') if m != mode])
    other_want = None
    points = crash.choose_kinds(rng, area, log, total, check.size(14, 60))
    if total <= 120 and check.thorough:
        points = [crash.Point(j, m) for j in range(total) for m in (0, 1)]
        rng.shuffle(points)
        check.count('runs with every event tried')
    for j, point in enumerate(points):
        if not check.go_on():
            return
        home, out = area.dir('k%d/home' % j), area.dir('k%d/out' % j)
        req2 = dict(req, out=out, home=home, cpus=cpus)
        watch = [area.root + '/k%d' % j]
        trace = []
        fired = False
        for again in range(rng.choice([1, 1, 1, 2, 3])):
            if again:
                point = crash.Point(rng.randrange(total), rng.choice([0, 1]))
            delays = dict(permille=50, delay_us=3000, seed=rng.randrange(1 << 30)) if rng.random() < 0.3 else {}
            o = crash.killed_run(area, point, 'prep', watch, **dict(req2, **delays))
            trace.append(repr(point) + ' (%s)' % (o.last_event,))
            case = {'request': req, 'cpus': cpus, 'kills': list(trace), 'files': sorted(map(repr, want))[:30]}
            if o.kind in ('killed', 'timeout'):
                fired = True
                check.count('runs killed')
                check.count(('whole group', 'in the middle of a write', 'one process')[point.mode])
                check.evaluated((o.last_event, point.mode))
                bad = incomplete_outputs([out], names)
                if bad:
                    check.violation('after the kill there are incomplete output files: %s' % bad[:2], case)
                    return
                # the same again, as a user of the library would see it: final names only
                check.count('output files inspected', sum(len(fs) for _, _, fs in os.walk(out)))
            else:
                p = compare(o, want)
                if p:
                    check.violation('a run during which nothing (or another process) was killed %s' % p, case)
                    return
        if fired and rng.random() < 0.25:  # something else with the same dataset first
            if other_want is None:
                r = area.op('prep', out=area.dir('oref/out'), home=area.dir('oref/home'), path=ds, mode=other_mode)
                other_want = corpus.outputs(r.value['prep']) if r.kind == 'ok' else {}
            o = area.op('prep', out=out, home=home, path=ds, mode=other_mode, cpus=cpus)
            p = compare(o, other_want)
            check.count('other runs in between')
            if p:
                check.violation('after the kill, a run with other options %s' % p, case)
                return
        o = area.op('prep', **dict(req2, cpus=rng.choice([1, 2, 4])))
        check.count('runs repeated')
        p = compare(o, want)
        if p:
            check.violation('after the kill, the repeated run %s' % p, case)
            return
        its = sorted(os.path.relpath(f, os.fsencode(o.value['prep'])) for f in o.value['files'])
        if its != sorted(want):
            check.violation('after the kill, the repeated run names %d files instead of %d' % (len(its), len(want)), case)
        left = [f for d, _, fs in os.walk(out) for f in fs if f.endswith('.part')]
        if left:
            check.count('temporary files of killed runs left')
        corpus.rmtree(area.root + '/k%d' % j)
    check.sample({'request': req, 'events': total, 'kill points': len(points), 'files': len(want)})


def work(check, i):
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            k += 1
            campaign(check, area, check.rng, k)


def run(check):
    check.budget(75, 700)
    check.fork_workers(work)
    check.require(**{'runs killed': 60, 'runs repeated': 50, 'in the middle of a write': 8, 'other runs in between': 5})
