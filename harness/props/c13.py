"""C13: a model of the registry of learned codes; every id is asked for after every step of a history of learn requests."""
import os

import bperef
import corpus
import learnlib

RULE = ('one evaluation = one request for a BPE code id answered (tokens of the first n merges learned under the id, or refused); '
        'non-trivial = distinct (state of the registry, id asked for)')
ASSUMPTIONS = ['ids do not contain path separators or line ends and do not start or end with white space',
               'no id is given to two datasets (see the known finding)',
               'when lists of several sizes are stored for an id, the answer may follow any of them which is long enough']

TEXT = 'getValueName = aaaa + lalala; setFooBar("xyz", user_name_1); abab ababab FooBarBaz\n'
GIVEN = ['my', 'a', 'a-5', 'a-10-20', 'py.thon', 'x+y', '(z', 'id 1', u'm\xfcn', 'a_1', '5', '1k', '10k', '0', 'A', '[b]', 'c*', 'my-', '-my', 'a--3', '$', 'a_2', 'ds_3', '-', 'ds_9', 'ds_10', 'ds_99', 'a_12', 'ds_100', 'ds_01', 'a_', 'ds_x', 'xds_7', 'ds_7x', 'a-5_3']
NAMES = ['ds', 'a', 'a-5', 'a_1', 'ds-10', 'a.b', 'x+y', 'a b', u'\xe4', '[z]', '(q', 'A', '5', '1k', 'ds_nounicode', 'a_nounicode_1', 'a_2', 'nounicode', 'b$', 'x_-_y',
         'x_-_we', 'x_-_nounicode', 'bytes']


def encode_text(check, area, ids, case):
    """Ask for every id in one process each: [('ok', full tokens) | ('raised', message)]"""
    o = area.op('full_texts', calls=[('bpe', TEXT, 'java', i, {}) for i in ids])
    if o.kind != 'ok':
        check.violation('asking for ids %s failed: %r %s' % (ids, o, o.crash or o.err[-300:]), case)
        return None
    return o.value


def predefined_rank(i):
    from props import c10
    base = os.path.join(os.environ['CODEPREP_REPO'], 'codeprep', 'data', 'bpe', 'case', i, 'merges.txt')
    if not hasattr(predefined_rank, 'memo'):
        predefined_rank.memo = {}
    if i not in predefined_rank.memo:
        predefined_rank.memo[i] = bperef.ranks(bperef.read_merges_file(base))
    return predefined_rank.memo[i]


def refused(answer):
    return answer[0] == 'raised' and 'InvalidBpeCodesIdError' in answer[1]


def query(check, area, rng, case, state):
    # (a result of no merges at all, learned from a dataset without pairs, cannot be asked for)
    reg = [(d, i, [n for n in ns if n]) for d, i, ns in learnlib.registry(area.home) if i and any(ns)]
    nothing = [i for d, i, ns in learnlib.registry(area.home) if i and not any(ns)]
    asked = {}
    for d, i, ns in reg:
        for n in {1, max(ns), max(ns) + rng.choice([1, 1, 10, 1000, 10 ** 6]), rng.randint(1, max(ns)), rng.choice(ns), min(ns) + 1}:
            asked['%s-%d' % (i, n)] = (d, ns, n)
    known = {i for _, i, _ in reg}
    for q in ['nosuch-3', 'nosuch', rng.choice(GIVEN) + '-7', rng.choice(NAMES) + '_1-2', 'a-0', 'my', '-3', '2k', rng.choice(['1k', '5k', '10k']) + rng.choice(['-1', '-10000', 'x', 'x-1', '-', '-0']), rng.choice(sorted(known)) + 'x-1' if known else 'y-1',
              rng.choice(sorted(known))[:-1] + '-1' if known else 'y-2', rng.choice(sorted(known)) if known else 'z']:
        if q in asked or q in ('1k', '5k', '10k', '0', '20k'):
            continue
        asked[q] = None
        head, _, tail = q.rpartition('-')
        if tail.isdigit() and not tail.startswith('0') and head in known:
            d, ns = next((d, ns) for d, i, ns in reg if i == head)
            asked[q] = (d, ns, int(tail))
    qs = sorted(asked)
    rng.shuffle(qs)
    qs = qs[:14] + [rng.choice(['1k', '5k', '10k'])]
    ans = encode_text(check, area, qs, case)
    if ans is None:
        return
    for q, a in zip(qs, ans):
        case2 = dict(case, asked=q, registry=[(os.path.basename(d), i, ns) for d, i, ns in reg])
        check.evaluated((state, q))
        if q in ('1k', '5k', '10k'):
            check.count('bundled lists asked for')
            p = 'is refused: %s' % a[1] if a[0] != 'ok' else learnlib.judge_tokens(a[1], [predefined_rank(q)], check)
        elif asked[q] is None:
            check.count('unknown ids asked for')
            p = None if refused(a) else 'is unknown but gives %s' % (a,)
        else:
            d, ns, n = asked[q]
            cands = learnlib.rank_candidates(d, ns, n)
            if not cands:
                check.count('too many merges asked for')
                p = None if refused(a) else 'only %s merges have been learned but the answer is %s' % (ns, a)
            elif a[0] != 'ok':
                p = 'is refused: %s' % a[1]
            else:
                check.count('learned ids asked for')
                p = learnlib.judge_tokens(a[1], cands, check)
        if p:
            check.violation('id %r: %s' % (q, p[:600]), case2)
            return
    # the documented loaders
    if reg and rng.random() < 0.6:
        d, i, ns = rng.choice(reg)
        n = rng.randint(1, max(ns))
        o = area.op('load_codes', id_=i, n=n)
        check.count('loader calls')
        lists = [[p for p, _ in learnlib.stored_merges(os.path.join(d, str(x)))][:n] for x in ns if x >= n]
        if o.kind != 'ok' or [tuple(m) for m in o.value['merges']] not in lists:
            check.violation('load_bpe_merges(%r, %d): %r' % (i, n, o if o.kind != 'ok' else o.value['merges'][:5]), case)


def history(check, area, rng, k):
    stamp = 1500000000 + rng.randrange(10 ** 6)
    names = [rng.choice(NAMES) for _ in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.4:
        names = names[:1] + names[:1] + names[1:]
    dss = [learnlib.make_dataset(rng, area.dir('data/p%d' % j) + '/' + n, stamp + 1000 * j, n=1, tame=True) for j, n in enumerate(names)]
    model = {}   # directory -> id
    if rng.random() < 0.3:   # ids which look like the ones assigned automatically
        i = rng.choice([1, 8, 9, 98, 99, 999])
        seq = ['%s_%d' % (rng.choice(names), j) for j in range(i, i + rng.choice([1, 2, 2]))]
        rng.shuffle(seq)
    else:
        seq = []
    log = []
    given_before = set()
    if rng.random() < 0.3:
        query(check, area, rng, {'history': ['nothing learned yet']}, ())
    for step in range(rng.choice([2, 3, 5, 7])):
        if not check.go_on() and step:
            break
        ds = rng.choice(dss)
        flags = rng.choice([[], [], [], ['--no-unicode'], ['-e', 'java']])
        id_ = None
        if rng.random() < 0.45:
            free = [g for g in GIVEN if g not in model.values() and g not in given_before]
            id_ = seq.pop() if seq and seq[-1] in free + seq and seq[-1] not in model.values() else rng.choice(free)
        n = rng.choice([1, 2, 5, 9, 15, 30])
        before = {d: i for d, i, _ in learnlib.registry(area.home)}
        o = area.op('cli', args=['learn-bpe', str(n), '-p', ds] + flags + (['--id=' + id_] if id_ else []))
        log.append('learn %d on %s %s%s' % (n, os.path.relpath(ds, area.root), flags, ' --id ' + id_ if id_ else ''))
        case = {'history': list(log)}
        check.count('learn requests')
        if o.kind != 'ok':
            check.violation('learning failed: %r %s %s' % (o, o.crash, o.err[-400:]), case)
            return
        after = {d: i for d, i, _ in learnlib.registry(area.home)}
        for d, i in before.items():
            if after.get(d) != i:
                check.violation('the id %r of %s became %r' % (i, os.path.basename(d), after.get(d)), case)
                return
        new = [d for d in after if d not in before]
        if len(new) > 1:
            check.violation('several directories are new: %s' % new, case)
            return
        for d in new:
            i = after[d]
            check.count('ids given' if id_ else 'ids assigned')
            if id_ and i != id_:
                check.violation('id %r was asked for, %r was assigned' % (id_, i), case)
                return
            if not i or not i.strip():
                check.violation('an empty id was assigned', case)
                return
            if i in before.values():
                check.violation('the id %r was assigned a second time' % i, case)
                return
            given_before.add(i)
            model[d] = i
        if id_ and not new:
            check.count('ids ignored for datasets which have one')
        query(check, area, rng, case, tuple(log))
        if check.violations:
            return
    check.sample({'history': log, 'ids': sorted(model.values())})


def numbering(check, area, rng, k):
    """Ids which look like automatic ones are given out in between: the automatic ones stay unique."""
    name = rng.choice(NAMES)
    dss = [learnlib.make_dataset(rng, area.dir('data/p%d' % j) + '/' + name, 1500000000 + 10 * j, n=1, tame=True) for j in range(3)]
    suffix = rng.choice([[], ['--no-unicode']])
    targets = [(ds, f) for ds in dss for f in ([], ['-e', 'java'], ['-e', 'java|py'])]
    rng.shuffle(targets)
    base = name + ('_nounicode' if suffix else '')
    a = rng.choice([0, 1, 2, 8, 9, 10, 98, 99, 100, 999, 9999, 10 ** 9])
    plan = ['%s_%d' % (base, a), rng.choice(['%s_%d', '%s_0%d', '%s_%d ', '%s_x%d', '%s_%d_1']) % (base, a + 1) if rng.random() < 0.4 else '%s_%d' % (base, a + 1)]
    plan = [None] * rng.choice([0, 1, 1]) + [i.strip() for i in plan] + [None] * rng.choice([1, 2, 3])
    if rng.random() < 0.2:
        rng.shuffle(plan)
    log, ids = [], []
    for (ds, f), id_ in zip(targets, plan):
        if id_ in ids:
            continue
        o = area.op('cli', args=['learn-bpe', '2', '-p', ds] + f + suffix + (['--id=' + id_] if id_ else []))
        log.append('learn on %s %s%s' % (os.path.relpath(ds, area.root), f + suffix, ' --id ' + id_ if id_ else ''))
        check.count('learn requests')
        if o.kind != 'ok':
            check.violation('learning failed: %r %s' % (o, o.crash or o.err[-400:]), {'history': log})
            return
        now = sorted((i or '') for _, i, _ in learnlib.registry(area.home))
        new = list(now)
        for i in ids:
            if i not in new:
                check.violation('the id %r is gone; ids are %s' % (i, now), {'history': log})
                return
            new.remove(i)
        check.evaluated((tuple(log), tuple(new)))
        check.count('ids given' if id_ else 'ids assigned')
        if len(new) != 1 or not new[0].strip() or new[0] in ids or (id_ and new[0] != id_):
            check.violation('the ids were %s; the new one is %s' % (ids, new), {'history': log})
            return
        ids.append(new[0])
    check.count('histories of numbered ids')


def known_duplicate(check):
    """The same id given to two datasets (recorded in KNOWN_FINDINGS.json)."""
    with corpus.Area(check, 'k') as area:
        for j, text in enumerate(['int aaaa = aaaa;\n' * 3, 'int bcbcbc = bcbcbc;\n' * 3]):
            ds = area.dir('p%d' % j + '/ds%d' % j)
            with open(ds + '/A.java', 'w') as f:
                f.write(text)
            corpus.set_mtimes(ds, 1500000000 + 100 * j)
            o = area.op('cli', args=['learn-bpe', '4', '-p', ds, '--id', 'same'])
        check.evaluated()
        if o.kind == 'ok' and [i for _, i, _ in learnlib.registry(area.home)].count('same') == 2:
            check.violation('two datasets have got the id "same"', {}, 'same-id-given-twice')


def work(check, i):
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            k += 1
            (numbering if check.rng.random() < 0.2 or k == 2 else history)(check, area, check.rng, k)


def run(check):
    check.budget(65, 500)
    known_duplicate(check)
    check.fork_workers(work)
    check.require(**{'learn requests': 40, 'learned ids asked for': 100, 'too many merges asked for': 20, 'unknown ids asked for': 60,
                     'bundled lists asked for': 20, 'ids assigned': 10, 'ids given': 8, 'loader calls': 10})
