"""C21: vocabulary and corpus size calculations are killed at file-system events and repeated."""
import os

import corpus
import crash
from props import c20

RULE = ('one evaluation = one killed calculation: what it left is inspected, it is repeated and the result compared with own counts; '
        'non-trivial = distinct (kind of call, file, how it was killed) at which a run was really killed')
ASSUMPTIONS = ['killed means SIGKILL of all or one of the processes; data already handed to the operating system is not lost',
               'the dataset is not changed between the runs']


def finished_vocabs(home):
    out = []
    for d, _, fs in os.walk(os.path.join(home, '.config')):
        if 'vocab' in fs and 'vocabsize' in fs:
            out.append(os.path.join(d, 'vocab'))
    return out


def campaign(check, area, rng, k):
    ds = os.path.join(area.root, 'ds')
    n = rng.choice([1, 2, 3, 8, 21, 30, 45])
    if rng.random() < 0.6:
        c20.make_files(rng, ds, n)
    else:
        corpus.build_tree(rng, ds, n)
    corpus.set_mtimes(ds, 1500000000 + rng.randrange(10 ** 6))
    if not corpus.selected(ds, None):
        return
    mode = rng.choice(['nosplit', 'basic', 'chars'])
    req = dict(mode=mode, path=ds, exts=None, opts={}, calc_vocab=True, size=True)
    cpus = rng.choice([1, 2, 4, 8])
    # what is watched decides where the kills fall: mostly the vocabulary itself
    whole = rng.random() < 0.2

    def watch(base):
        return [base] if whole else [base + '/home/.config', base + '/home/.cache/codeprep/1.0.5/corpus_sizes']
    base = area.dir('k_ref')
    home, out = area.dir('k_ref/home'), area.dir('k_ref/out')
    log = crash.new_log(area)
    ref = area.op('prep', out=out, home=home, watch=watch(base), cpus=cpus, **req, log=log)
    if ref.kind != 'ok':
        check.violation('uninterrupted run failed: %r %s' % (ref, ref.crash), {'request': req})
        return
    p = c20.wrong_result(ref.value)
    if p:
        check.violation('uninterrupted run: %s' % p, {'request': req})
        return
    want = corpus.outputs(ref.value['prep'])
    total = ref.events
    points = crash.choose_kinds(rng, area, log, total, check.size(12, 60))
    if total <= 150 and check.thorough:
        points = [crash.Point(j, m) for j in range(total) for m in (0, 1)]
        rng.shuffle(points)
    # a preprocessed corpus to start from, so that the kills hit the calculation only
    for j, point in enumerate(points):
        if not check.go_on():
            return
        base = area.root + '/k%d' % j
        home, out = area.dir('k%d/home' % j), area.dir('k%d/out' % j)
        req2 = dict(req, out=out, home=home)
        trace, fired = [], False
        for again in range(rng.choice([1, 1, 2, 4])):
            if again:
                point = crash.Point(rng.randrange(total), rng.choice([0, 1]))
            delays = dict(permille=100, delay_us=5000, seed=rng.randrange(1 << 30)) if rng.random() < 0.4 else {}
            o = crash.killed_run(area, point, 'prep', watch(base), cpus=cpus, timeout=5, **dict(req2, **delays))
            trace.append(repr(point) + ' (%s)' % (o.last_event,))
            case = {'request': req, 'cpus': cpus, 'files': n, 'kills': list(trace)}
            prep = [os.path.join(out, d) for d in os.listdir(out) if os.path.isdir(os.path.join(out, d))]
            if o.kind == 'ok':
                p = c20.wrong_result(o.value)
                if p:
                    check.violation('a run which was not stopped: %s' % p, case)
                    return
            elif o.kind in ('killed', 'timeout') or point.mode == 2:
                fired = True
                check.count('runs killed')
                check.count(('whole group', 'in the middle of a write', 'one process')[point.mode])
                check.evaluated((o.last_event, point.mode))
                for v in finished_vocabs(home):
                    check.count('finished vocabularies right after a kill')
                    p = c20.wrong_vocab(v, want)
                    if p:
                        check.violation('after the kill there is a finished but wrong vocabulary: %s' % p, case)
                        return
            else:
                check.violation('a run which was not killed fails: %r %s' % (o, o.crash or o.err[-500:]), case)
                return
        o = area.op('prep', cpus=rng.choice([1, 2, 4, 8]), **req2)
        check.count('runs repeated')
        if o.kind != 'ok':
            check.violation('after the kill, the repeated run fails: %r %s' % (o, o.crash or o.err[-1500:]), case)
            return
        p = c20.wrong_result(o.value)
        if p is None and corpus.outputs(o.value['prep']) != want:
            p = 'the output differs'
        if p:
            check.violation('after the kill, the repeated run: %s' % p, case)
            return
        corpus.rmtree(base)
    check.sample({'files': n, 'cpus': cpus, 'events': total, 'kill points': len(points), 'distinct tokens': len(ref.value['vocab'])})


def work(check, i):
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            k += 1
            campaign(check, area, check.rng, k)


def run(check):
    check.budget(75, 700)
    check.fork_workers(work)
    check.require(**{'runs killed': 60, 'runs repeated': 40, 'in the middle of a write': 8, 'finished vocabularies right after a kill': 1})
