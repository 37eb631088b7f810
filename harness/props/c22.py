"""C22: learning is killed at file-system events; what is left must be refused or right, and repeating must complete."""
import os

import corpus
import crash
import learnlib

RULE = ('one evaluation = one killed learning run: complete-looking results are judged by recounting, ids are asked for, and the run is repeated and '
        'judged; non-trivial = distinct (kind of call, file, how it was killed) at which a run was really killed')
ASSUMPTIONS = ['killed means SIGKILL of all or one of the processes; data already handed to the operating system is not lost',
               'the dataset is not changed between the runs']

TEXT = 'getValueName = aaaa + lalala; setFooBar("xyz", user_name_1); abab ababab FooBarBaz\n'


def judge_registry(check, area, home, base, asked, rng, case, must=None):
    """Every result which is offered is right; ids are answered rightly or refused.  must: a number of merges which has to be available."""
    for d, i, ns in learnlib.registry(home):
        for n in ns:
            p = learnlib.wrong_result(os.path.join(d, str(n)), base, check=check)
            if p:
                check.violation('%s the result offered for %d merges is wrong: %s' % (asked, n, p), case)
                return False
            check.count('offered results judged')
        i = (i or '').strip()
        if not i:
            continue
        qs = sorted({'%s-%d' % (i, m) for m in [1, max(ns or [0]) or 3, rng.randint(1, max(ns or [0]) or 3)]})
        o = area.op('full_texts', home=home, calls=[('bpe', TEXT, 'java', q, {}) for q in qs])
        if o.kind != 'ok':
            check.violation('%s asking for %s fails: %r' % (asked, qs, o), case)
            return False
        for q, a in zip(qs, o.value):
            m = int(q.rpartition('-')[2])
            cands = learnlib.rank_candidates(d, ns, m)
            check.count('ids asked for')
            if a[0] != 'ok':
                check.count('ids refused')
                if must and cands:
                    check.violation('%s id %s is refused: %s' % (asked, q, a[1]), case)
                    return False
                if 'InvalidBpeCodesIdError' not in a[1]:
                    check.violation('%s id %s is neither answered nor refused: %s' % (asked, q, a[1]), case)
                    return False
                continue
            p = learnlib.judge_tokens(a[1], cands, check)
            if p:
                check.violation('%s id %s: %s' % (asked, q, p), case)
                return False
    return True


def campaign(check, area, rng, k):
    ds = learnlib.make_dataset(rng, area.dir('data/' + rng.choice(['ds', 'a-b'])), 1500000000 + rng.randrange(10 ** 6), n=rng.choice([1, 2, 4]))
    flags = rng.choice([[], [], ['-e', 'java'], ['--no-unicode']])
    base, problem = learnlib.base_vocab(area, ds, flags[1].split('|') if flags[:1] == ['-e'] else None, '--no-unicode' in flags)
    if base is None:
        check.violation(problem, {})
        return
    if not base.words:
        return
    id_ = rng.choice([[], ['--id', 'my']])
    n = rng.choice([1, 5, 20, 45])
    first = rng.choice([None, None, max(1, n // 2), n + 7])   # something learned before
    args = ['learn-bpe', str(n), '-p', ds] + flags + id_
    whole = rng.random() < 0.15

    def watch(b):
        return [b] if whole else [b + '/home/.config']

    def prepare(b):
        if first:
            o = area.op('cli', home=b + '/home', args=['learn-bpe', str(first), '-p', ds] + flags + id_)
            return o.kind == 'ok'
        return True
    b = area.root + '/kref'
    area.dir('kref/home')
    if not prepare(b):
        check.violation('learning failed', {'args': args})
        return
    log = crash.new_log(area)
    ref = area.op('cli', home=b + '/home', watch=watch(b), args=args, log=log)
    if ref.kind != 'ok':
        check.violation('uninterrupted learning failed: %r %s' % (ref, ref.crash), {'args': args})
        return
    want_ns = learnlib.registry(b + '/home')[0][2]
    total = max(1, ref.events)
    points = crash.choose_kinds(rng, area, log, total, check.size(10, 60))
    if total <= 100 and check.thorough:
        points = [crash.Point(j, m) for j in range(total) for m in (0, 1)]
        rng.shuffle(points)
    for j, point in enumerate(points):
        if not check.go_on():
            return
        b = area.root + '/k%d' % j
        home = area.dir('k%d/home' % j)
        trace, fired = [], False
        case = {'args': args[:2] + args[4:], 'learned before': first, 'kills': trace, 'words': dict(base.words.most_common(30))}
        if not prepare(b):
            check.violation('learning failed', case)
            return
        for again in range(rng.choice([1, 1, 2, 3])):
            if again:
                point = crash.Point(rng.randrange(total), rng.choice([0, 1]))
            n2 = n if not again or rng.random() < 0.7 else max(1, n - 3)
            o = crash.killed_run(area, point, 'cli', watch(b), home=home, args=['learn-bpe', str(n2)] + args[2:], cpus=rng.choice([1, 2, 4]))
            trace.append('%d merges ' % n2 + repr(point) + ' (%s)' % (o.last_event,))
            if o.kind in ('killed', 'timeout') or (o.kind != 'ok' and point.mode == 2):
                fired = True
                check.count('runs killed')
                check.count(('whole group', 'in the middle of a write', 'one process')[point.mode])
                check.evaluated((o.last_event, point.mode, first is None))
                if not judge_registry(check, area, home, base, 'after the kill', rng, case):
                    return
            elif o.kind != 'ok':
                check.violation('a run which was not killed fails: %r %s' % (o, o.crash), case)
                return
        if fired and rng.random() < 0.2:   # other merges first
            m = rng.choice([1, n + 3])
            o = area.op('cli', home=home, args=['learn-bpe', str(m)] + args[2:])
            trace.append('then %d merges' % m)
            if o.kind != 'ok':
                check.violation('after the kill, learning %d merges fails: %r %s' % (m, o, o.crash or o.err[-500:]), case)
                return
            check.count('other requests in between')
        o = area.op('cli', home=home, args=args, cpus=rng.choice([1, 2, 4]))
        check.count('runs repeated')
        if o.kind != 'ok':
            check.violation('after the kill, the repeated run fails: %r %s' % (o, o.crash or o.err[-800:]), case)
            return
        reg = [r for r in learnlib.registry(home) if r[2]]
        if len(reg) != 1 or not (set(want_ns) & set(reg[0][2])) or max(x for x in want_ns if x <= n) not in reg[0][2]:
            check.violation('after the kill, the repeated run stores %s instead of %s' % ([r[2] for r in reg], want_ns), case)
            return
        if not reg[0][1] or (id_ and reg[0][1] != 'my'):
            check.violation('after the kill, the id is %r' % (reg[0][1],), case)
            return
        k_ = max(x for x in reg[0][2] if x <= n)
        p = learnlib.wrong_result(os.path.join(reg[0][0], str(k_)), base, requested=n, check=check)
        if p:
            check.violation('after the kill, the repeated run is wrong: %s' % p, case)
            return
        if not judge_registry(check, area, home, base, 'after the repeated run', rng, case, must=True):
            return
        corpus.rmtree(b)
    check.sample({'args': args[:2] + args[4:], 'learned before': first, 'events': total, 'kill points': len(points), 'words': len(base.words)})


def work(check, i):
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            k += 1
            campaign(check, area, check.rng, k)


def run(check):
    check.budget(75, 700)
    check.fork_workers(work)
    check.require(**{'runs killed': 40, 'runs repeated': 30, 'in the middle of a write': 5, 'offered results judged': 30, 'ids asked for': 60})
