"""C14: learned codes applied to texts and corpora give what the reference algorithm gives; what is learned from is the right vocabulary."""
import os

import corpus
import learnlib

RULE = ('one evaluation = one text or output file encoded with learned codes and judged by the reference algorithm, or one stored base vocabulary '
        'compared with an independent count; non-trivial = distinct (merges used, text) with at least five full tokens')
ASSUMPTIONS = ['string literals of more than 14 characters count as empty ones in the vocabulary learned from',
               'a word which also occurs as a keyword, operator or placeholder somewhere in the dataset is left out of the vocabulary learned from',
               'a corpus encoded with learned codes is compared with the text interface, which is compared with the reference']

NEVER = {'KeyWord', 'Operator', 'Semicolon', 'OpeningCurlyBracket', 'ClosingCurlyBracket', 'OpeningBracket', 'ClosingBracket', 'NewLine', 'Tab', 'NonCodeChar',
         'SpecialToken'}


def check_vocab(check, area, id_, n, base, case):
    """The vocabulary learned from, through the documented loaders."""
    o = area.op('load_codes', id_=id_, n=n)
    if o.kind != 'ok':
        check.violation('loading the vocabulary of %s failed: %r' % (id_, o), case)
        return False
    got = o.value['base']
    want = dict(base.words)
    bad = [(w, got.get(w), want.get(w)) for w in sorted(set(got) | set(want)) if got.get(w) != want.get(w)]
    if bad:
        check.violation('the vocabulary learned from has %d wrong entries: %s (word, stored, real; types %s)' % (
            len(bad), bad[:3], [sorted(base.kinds.get(b[0], ())) for b in bad[:3]]), case)
        return False
    for w in got:
        if base.kinds.get(w, set()) & NEVER or w in learnlib.PLACEHOLDERS:
            check.violation('%r (%s) is in the vocabulary learned from' % (w, sorted(base.kinds.get(w, ()))), case)
            return False
    check.count('vocabularies compared')
    check.count('words compared', len(got))
    check.evaluated((sorted(got.items()),) if len(got) > 5 else None)
    return True


def one(check, area, rng, k):
    stamp = 1500000000 + rng.randrange(10 ** 7)
    name = rng.choice(['ds', 'my-proj', 'a_b', 'x y', u'd\xf6', 'v1.2', 'c++', 'nounicode'])
    ds = learnlib.make_dataset(rng, area.dir('data/' + name), stamp)
    if k % 10 == 3:
        names = [b'%03d' % j for j in range(130)]
        corpus.build_tree(rng, ds, rng.choice([30, 60, 120]), names=names, exts=[b'.java', b'.py', b'.c', b''], make_content=learnlib.learn_content)
        corpus.set_mtimes(ds, stamp)
    elif rng.random() < 0.15:
        long_ = b'L' * rng.choice([200, 236]) + b'.java'
        with open(os.path.join(os.fsencode(ds), long_), 'wb') as f:
            f.write(learnlib.learn_content(rng))
        os.makedirs(ds + '/deep/Base.java_/x', exist_ok=True)
        with open(ds + '/deep/Base.java', 'wb') as f:
            f.write(learnlib.learn_content(rng))
        corpus.set_mtimes(ds, stamp)
    flags = rng.choice([[], [], ['-e', 'java'], ['-e', 'py|java'], ['--no-unicode'], ['--no-unicode', '-e', 'java|c']])
    exts = flags[flags.index('-e') + 1].split('|') if '-e' in flags else None
    nouni = '--no-unicode' in flags
    id_ = rng.choice([None, 'my', 'a-5', 'id_x'])
    n = rng.choice([1, 4, 15, 40, 100, 250])
    args = ['learn-bpe', str(n), '-p', ds] + flags + (['--id', id_] if id_ else [])
    case = {'learn': args[:2] + args[4:], 'dataset name': name,
            'dataset': {repr(f): repr(c[:800]) for f, c in sorted(corpus.selected(ds, exts).items())[:20]}}
    earlier = rng.random() < 0.25
    if earlier:  # something with the caches of the same dataset before
        area.op('prep', mode=rng.choice(['nosplit', 'basic']), path=ds, out=area.out, exts='|'.join(exts) if exts else None, calc_vocab=rng.random() < 0.5)
        if rng.random() < 0.5:
            area.op('prep', mode='nosplit', path=ds, out=area.out, exts='|'.join(exts) if exts else None, calc_vocab=True,
                    opts=dict(no_com=True, max_str_length=14, full_strings=True, no_unicode=nouni))
    o = area.op('cli', args=args, cpus=rng.choice([1, 2, 4]))
    check.count('learn runs')
    if o.kind != 'ok':
        check.violation('learning failed: %r %s' % (o, o.crash or o.err[-500:]), case)
        return
    base, problem = learnlib.base_vocab(area, ds, exts, nouni)
    if base is None:
        check.violation(problem, case)
        return
    reg = [r for r in learnlib.registry(area.home) if r[1]]
    if len(reg) != 1:
        check.violation('%d ids after learning once: %s' % (len(reg), reg), case)
        return
    d, real_id, ns = reg[0]
    if not ns:
        if base.words:
            check.violation('nothing was learned', case)
        return
    if not any(ns):         # (a dataset without pairs: a result of no merges)
        p = learnlib.wrong_result(os.path.join(d, '0'), base, requested=n, check=check)
        if p:
            check.violation(p, case)
        return
    if not check_vocab(check, area, real_id, max(ns), base, case):
        return
    p = learnlib.wrong_result(os.path.join(d, str(max(ns))), base, requested=n, check=check)
    if p:
        check.violation(p, case)
        return
    pairs = [q for q, _ in learnlib.stored_merges(os.path.join(d, str(max(ns))))]
    o = area.op('load_bpe_vocab', id_=real_id, n=max(ns))
    if o.kind != 'ok':
        check.violation('loading the bpe vocabulary failed: %r' % o, case)
        return
    # texts: the dataset itself, and others
    files = corpus.selected(ds, None)
    texts = [(corpus.text_of_file(c), corpus.ext_of(f)) for f, c in sorted(files.items())[:12]]
    texts += [(learnlib.learn_content(rng).decode('utf-8', 'replace'), rng.choice(['java', 'py', 'c', ''])) for _ in range(3)]
    ms = sorted({1, len(pairs), rng.randint(1, len(pairs)), rng.randint(1, len(pairs))})
    opts = corpus.random_opts(rng, 'bpe') if rng.random() < 0.4 else {}
    opts.pop('no_unicode', None)
    calls = [('bpe', t, e, '%s-%d' % (real_id, m), opts) for m in ms for t, e in texts]
    o = area.op('full_texts', calls=calls, timeout=150)
    if o.kind != 'ok':
        check.violation('encoding with %s failed: %r %s' % (real_id, o, o.crash), case)
        return
    for c, r in zip(calls, o.value):
        m = int(c[3].rpartition('-')[2])
        p = 'raises %s' % r[1] if r[0] != 'ok' else learnlib.judge_tokens(r[1], learnlib.rank_candidates(d, ns, m), check)
        check.evaluated((tuple(pairs[:m]), c[1]) if r[0] == 'ok' and len(r[1]) >= 5 else None)
        check.count('texts encoded')
        if p:
            check.violation('%s of text %r (%s), options %s: %s' % (c[3], c[1][:300], c[2], opts, p), dict(case, merges=pairs[:m][-20:]))
            return
    # a corpus
    m = rng.choice(ms)
    cid = '%s-%d' % (real_id, m)
    cexts = rng.choice([None, 'java'])
    o = area.op('prep', mode='bpe', bpe_id=cid, path=ds, out=area.out, exts=cexts, opts=opts, cpus=rng.choice([1, 3]), calc_vocab=rng.random() < 0.3)
    sel = corpus.selected(ds, cexts.split('|') if cexts else None)
    if not sel:
        return
    check.count('corpora encoded')
    if o.kind != 'ok':
        check.violation('encoding the corpus with %s failed: %r %s' % (cid, o, o.crash or o.err[-400:]), case)
        return
    outs = corpus.outputs(o.value['prep'])
    keys = sorted(sel)[:15]
    r = area.op('texts', calls=[('bpe', corpus.text_of_file(sel[f]), corpus.ext_of(f), cid, opts) for f in keys], timeout=120)
    for f, ref in zip(keys, r.value or []):
        bad = 'text interface raises %s' % ref[1] if ref[0] != 'ok' else corpus.wrong_file('bpe', opts, ref[1], outs.get(f + b'.prep', b''))
        check.count('files encoded')
        if bad:
            check.violation('%s, file %r: %s' % (cid, f, bad), case)
            return
    check.sample({'learn': args[:2] + args[4:], 'words': len(base.words), 'merges': len(pairs), 'ids asked': ms})


def work(check, i):
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            k += 1
            one(check, area, check.rng, k)


def run(check):
    check.budget(65, 600)
    check.fork_workers(work)
    check.require(**{'learn runs': 25, 'vocabularies compared': 20, 'texts encoded': 300, 'full tokens judged': 4000, 'corpora encoded': 15,
                     'merges checked': 500})
