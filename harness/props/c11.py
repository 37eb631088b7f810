# -*- coding: utf-8 -*-
"""C11: BPE learning is greedy and exact."""
import bpelearnref
import gen
from env import call

RULE = ('a case is one vocabulary whose learned merges were replayed with a full recount after every merge; non-trivial if at least 3 merges '
        'were learned; distinct by vocabulary+number of merges')


def vocab(rng):
    kind = rng.random()
    if kind < 0.45:
        alpha = rng.choice(['a', 'ab', 'ab', 'abc', 'aab', u'aü', u'a\xa0', 'a.', 'a+', '(a', 'a\\', '[a', '^$', 'a|b', u'日a', '@@'])
        n = rng.choice([1, 1, 2, 3, 5, 10])
        words = [''.join(rng.choice(alpha) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 20]))) for _ in range(n)]
    elif kind < 0.6:
        base = ''.join(rng.choice('abc') for _ in range(rng.randint(1, 4)))
        words = [base * rng.randint(1, 6) + rng.choice(['', 'a', 'x']) for _ in range(rng.randint(1, 4))]
    elif kind < 0.9:
        words = [gen.identifier(rng, tricky=True) for _ in range(rng.choice([3, 8, 20, 60]))]
    else:
        words = [rng.choice(['"%s"', '%s']) % ''.join(rng.choice(gen.STR_CHARS).replace(' ', u'\xa0').replace('\t', 't') for _ in range(rng.randint(1, 15))) for _ in range(rng.randint(1, 12))]
    freq = rng.choice([lambda: 1, lambda: rng.randint(1, 3), lambda: rng.randint(1, 1000), lambda: 2 ** rng.randint(0, 20)])
    res = {}
    for w in words:
        if rng.random() < 0.85 or '@' in w:
            syms = ['@@' if c == '@' else c for c in w] + ['@']
        else:
            syms = list(w)      # vocabularies without the end mark are valid as well
        if not syms:
            continue
        key = ' '.join(syms)
        res[key] = freq()
    return res


def one(check, v, n):
    from codeprep.bpepkg.bpe_learn import do_merges
    start = [(k.split(' '), f) for k, f in v.items()]
    ok, r = call(do_merges, dict(v), n)
    if not ok:
        p = 'raises %r' % r
        learned = 0
    else:
        final, merges = r
        learned = len(merges)
        ms = [m for m in merges]
        p = bpelearnref.check_learning(start, ms, n, final=final)
        if not p and [m.priority for m in ms] != list(range(len(ms))):
            p = 'ranks are not 0..%d: %r' % (len(ms) - 1, [m.priority for m in ms][:10])
        if not p and len({m.pair for m in ms}) != len(ms):
            p = 'a pair is merged twice'
    check.evaluated((sorted(v.items()), n) if learned >= 3 else None)
    check.count('merges', learned)
    if learned < n:
        check.count('exhausted vocabularies')
    return p


def worker(check, i):
    rng = check.rng
    while check.go_on():
        v = vocab(rng)
        if not v:
            continue
        n = rng.choice([0, 1, 2, 3, 5, 8, 15, 30, 60, 1000])
        p = one(check, v, n)
        if p:
            changed = True
            while changed:
                changed = False
                for k in list(v):
                    w = {a: b for a, b in v.items() if a != k}
                    if w and one(check, w, n):
                        v = w
                        changed = True
                        break
            check.violation('%s; vocabulary %r, %d merges' % (one(check, v, n) or p, v, n), {'vocab': v, 'n_merges': n})
        check.sample({'vocab': dict(list(v.items())[:5]), 'n_merges': n})


def run(check):
    check.budget(20, 200)
    import codeprep.bpepkg.bpe_learn as bl
    if hasattr(bl, 'tqdm'):
        bl.tqdm = lambda it, **kw: it
    check.fork_workers(worker)
    check.require(merges=20000, **{'exhausted vocabularies': 500})
