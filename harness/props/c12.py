"""C12: histories of learn requests; every stored result is judged by recounting from an independent base vocabulary."""
import os

import corpus
import learnlib

RULE = ('one evaluation = one stored learning result judged by exact recounting, after every step of a history of learn requests; '
        'non-trivial = distinct (dataset content, options, history of requested numbers) with at least two requests')
ASSUMPTIONS = ['string literals of more than 14 characters count as empty ones in the vocabulary learned from',
               'ties between equally frequent pairs may be resolved either way']


def history(check, area, rng, k):
    stamp = 1500000000 + rng.randrange(10 ** 7)
    ds = learnlib.make_dataset(rng, area.dir('data/' + rng.choice(['ds', 'a-b', 'ds 1', 'x_y'])), stamp)
    flags = rng.choice([[], [], ['-e', 'java'], ['-e', 'java|py'], ['--no-unicode']])
    exts = flags[1].split('|') if flags[:1] == ['-e'] else None
    base, problem = learnlib.base_vocab(area, ds, exts, '--no-unicode' in flags)
    if base is None:
        check.violation(problem, {'flags': flags})
        return
    if not base.words:
        return
    sizes = rng.choice([[1, 2, 3, 5, 8], [3, 10, 11, 40], [20, 50, 10, 60], [30, 30, 31], [5, 2000, 2001, 7], [60, 20, 40, 80], [10, 9, 10, 11, 100],
                        [1, 100], [15, 16, 17, 18], [200, 100, 300]])
    if rng.random() < 0.3:
        sizes = [rng.randint(1, 120) for _ in range(rng.randint(2, 6))]
    if rng.random() < 0.15:
        sizes = sizes + [sizes[0]]
    lists = {}
    done = []
    for step, n in enumerate(sizes):
        if not check.go_on() and step > 1:
            break
        before = {(d, x): corpus.tree(os.path.join(d, str(x))) for d, _, ns in learnlib.registry(area.home) for x in ns}
        via_id = ['--id', 'my'] if rng.random() < 0.3 else []
        o = area.op('cli', args=['learn-bpe', str(n), '-p', ds] + flags + via_id, cpus=rng.choice([1, 2, 4]))
        done.append(n)
        case = {'requests': list(done), 'flags': flags, 'words': dict(base.words.most_common(60)),
                'dataset': {repr(f): repr(c[:1500]) for f, c in sorted(corpus.selected(ds, exts).items())}}
        check.count('learn requests')
        if o.kind != 'ok':
            check.violation('learning failed: %r %s' % (o, o.crash or o.err[-500:]), case)
            return
        reg = learnlib.registry(area.home)
        if len(reg) != 1:
            check.violation('%d result directories for one dataset: %s' % (len(reg), [os.path.basename(d) for d, _, _ in reg]), case)
            return
        d, _, ns = reg[0]
        for (bd, x), t in before.items():
            if corpus.tree(os.path.join(bd, str(x))) != t:
                check.violation('the earlier result for %d merges was changed' % x, case)
                return
        new = [x for x in ns if (d, x) not in before]
        reached = n if n in ns else None
        if reached is None:
            # fewer pairs than requested: the largest list must be complete
            smaller = [x for x in ns if x < n]
            if not smaller:
                check.violation('nothing stored for %d merges' % n, case)
                return
            reached = max(smaller)
        if len(new) > 1 or (new and new != [reached]):
            check.violation('results stored for %s, requested %d' % (new, n), case)
            return
        rd = os.path.join(d, str(reached))
        p = learnlib.wrong_result(rd, base, requested=n, check=check)
        if p:
            check.violation('result for %d merges after requests %s: %s' % (n, done, p), case)
            return
        lists[reached] = [q for q, _ in learnlib.stored_merges(rd)]
        if new:
            prev = [x for x in lists if x < reached]
            check.count('results stored')
            if prev:
                check.count('continuations')
                e = lists[max(prev)]
                if lists[reached][:len(e)] != e:
                    i = next(j for j in range(len(e)) if e[j] != lists[reached][j])
                    check.violation('the list of %d merges does not start with the earlier list of %d: merge %d is %r, was %r' % (
                        reached, len(e), i, lists[reached][i], e[i]), case)
                    return
        if reached < n:
            check.count('requests beyond what is available')
        leftovers = [s for s in os.listdir(d) if not s.isdigit() and s != '.name']
        if leftovers:
            check.violation('left behind: %s' % leftovers, case)
        check.evaluated((sorted(base.words.items()), flags, tuple(done)) if len(done) > 1 else None)
    check.sample({'requests': done, 'flags': flags, 'words': len(base.words), 'last merges': [list(x) for x in lists[max(lists)][-3:]] if lists else []})


def work(check, i):
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            k += 1
            history(check, area, check.rng, k)


def run(check):
    check.budget(65, 500)
    check.fork_workers(work)
    check.require(**{'learn requests': 40, 'results stored': 25, 'continuations': 12, 'merges checked': 1000,
                     'requests beyond what is available': 2})
