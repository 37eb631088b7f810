# -*- coding: utf-8 -*-
"""What the monitors of learned BPE codes share: datasets, an independent base vocabulary, and judges of stored results."""
import collections
import os
import re

import bperef
import bpelearnref
import corpus

# what the tool writes in place of something else (the division sign stands for characters left out, the wide space for spaces in strings)
PLACEHOLDERS = {'<comment>', '<str-literal>', '<w>', '</w>', '<Cap>', '<CAPS>', '<EOF>', '<non-en>', '<non-en-content>', '<EOL>', '</t>', u'\xf7', u'\xa0'}
SNIPPETS = ['int aaaaaaaa = aaaa + aa;\n', 'String s = "a@b"; @Override void at() { }\n', u'int gr\xf6\xdfe = \xfc1 + \u65e5\u672c;\n', 'x = "user@@x.com";\n',
            'lalala lala la = "lala la";\n', 'return value; // the comment is here\n', 'char c = \'@\'; int @x;\n', 'a_b_c = aBcDe + ABCabc;\n',
            '"short"; "a string of more than fourteen chars";\n', 'foo(0x1F, 1.5e3, 100000);\n', u'"\xa0x y"; "tab\\t";\n', 'Foo.bar().baz(Foo, bar);\n',
            'abab ababab abcabc;\n', 'print volatile self None;\n', '\\n \\t \\x41 \\\\ ;\n', u'\u0130stanbul \u01c5abc \u2028;\n', "'\"' \"'\" `x`;\n", '^ ~ ? : :: -> @ # $x;\n', '"</t>" + "<w></t></t>" + "\\u00e9</w>";\n', 'w%s = 1;\n' % ('abcd' * 90), 'ab\tcd = "ab\tcd\tef";\n']


def learn_content(rng):
    c = rng.random()
    if c < 0.1:
        return corpus.content(rng)
    t = corpus.simple_java(rng, rng.choice([1, 3, 6])).decode('utf-8') if c < 0.7 else ''
    for _ in range(rng.randint(0, 6)):
        s = rng.choice(SNIPPETS)
        t += s * (1 if rng.random() < 0.97 else min(rng.choice([10, 150, 1300]), 50000 // len(s)))
    return (t or 'class Empty { }\n').encode('utf-8', 'replace')


def make_dataset(rng, path, stamp, n=None, tame=False):
    corpus.build_tree(rng, path, n or rng.choice([1, 2, 4, 7]), max_depth=2, hostile=not tame, make_content=learn_content)
    f = os.path.join(path, 'Base.java')
    if not os.path.exists(f):
        with open(f, 'wb') as h:
            h.write(corpus.simple_java(rng, 5))
    corpus.set_mtimes(path, stamp)
    return path


class Base(object):
    """Own base vocabulary of a dataset."""

    def __init__(self, words, other, kinds):
        self.words, self.other, self.kinds = words, other, kinds   # Counters; kinds: {word: types it occurs as}


def base_vocab(area, ds, exts=None, no_unicode=False):
    """(Base, None) or (None, problem); from the text interface, file by file."""
    import textlib
    files = corpus.selected(ds, exts)
    opts = dict(no_com=True, max_str_length=14)
    if no_unicode:
        opts['no_unicode'] = True
    calls = [('full', corpus.text_of_file(d), corpus.ext_of(p), None, opts) for p, d in sorted(files.items())]
    o = area.op('full_texts', calls=calls, timeout=120)
    if o.kind != 'ok':
        return None, 'text interface failed: %r' % o
    counts, nonbpe, kinds = collections.Counter(), set(PLACEHOLDERS), {}
    for r in o.value:
        if r[0] != 'ok':
            return None, 'text interface raised %s' % r[1]
        for subs, typ in r[1]:
            counts.update(subs)
            for s in subs:
                kinds.setdefault(s, set()).add(typ)
        nonbpe.update(r[2])
    for w, types in kinds.items():
        if types & textlib.NONPROC:
            nonbpe.add(w)
    words = collections.Counter({w: c for w, c in counts.items() if w not in nonbpe})
    other = collections.Counter({w: c for w, c in counts.items() if w in nonbpe})
    return Base(words, other, kinds), None


# ------------------------------------------------------------------------------------------------ stored results

def bpe_root(home):
    for d, ss, fs in os.walk(os.path.join(home, '.config', 'codeprep')):
        if os.path.basename(d) == 'bpe':
            return d
    return None


def registry(home):
    """[(directory, id or None, [numbers of merges with complete results])]"""
    root = bpe_root(home)
    out = []
    if root:
        for n in sorted(os.listdir(root)):
            d = os.path.join(root, n)
            if os.path.isdir(d):
                p = os.path.join(d, '.name')
                id_ = None
                if os.path.exists(p):
                    with open(p) as f:
                        id_ = f.read()
                out.append((d, id_, sorted(int(s) for s in os.listdir(d) if s.isdigit() and os.path.isdir(os.path.join(d, s)))))
    return out


def _lines(path):
    with open(path, encoding='utf-8', newline='\n') as f:
        t = f.read()
    if t and not t.endswith('\n'):
        raise ValueError('last line of %s is incomplete: %r' % (os.path.basename(path), t[-60:]))
    return t.split('\n')[:-1]


def stored_merges(d):
    """[((left, right), freq or None)]"""
    out = []
    p = os.path.join(d, 'merges.txt')
    for line in _lines(p):
        parts = bperef.unliteral(line).split(' ')
        out.append(((parts[0], parts[1]), int(parts[2]) if len(parts) > 2 else None))
    return out


def split_of(merges, words):
    rank = bperef.ranks([m for m in merges])
    return {w: bperef.apply_merges(bperef.symbols(w), rank) for w in words}


def whole(w):
    return w.replace('@', '@@') + '@'


def wrong_result(d, base, requested=None, check=None):
    """Judge one result directory <n>.  None or the problem.  The first merges need only be an exact greedy choice."""
    try:
        k = int(os.path.basename(d))
        merges = stored_merges(d)
        pairs = [p for p, _ in merges]
        if len(pairs) != k:
            return 'the result for %d merges has %d' % (k, len(pairs))
        if len(set(pairs)) != len(pairs):
            return 'a pair is merged twice'
        start = [(bperef.symbols(w), c) for w, c in base.words.items()]
        p = bpelearnref.check_learning(start, merges, requested if requested is not None else k, freq_of=lambda m: m[1], pair_of=lambda m: m[0])
        if p:
            return p
        splits = split_of(pairs, base.words)
        res = collections.Counter()
        for w, syms in splits.items():
            for s in syms:
                res[s] += base.words[w]
        for w, c in base.other.items():
            res[whole(w)] += c
        got, last = {}, None
        for line in _lines(os.path.join(d, 'vocab_res.txt')):
            w, c = line.split('\t')
            got[bperef.unliteral(w)] = int(c)
            if last is not None and int(c) > last:
                return 'the resulting vocabulary is not sorted by frequency'
            last = int(c)
        p = _compare('resulting vocabulary', got, res)
        if p:
            return p
        cache = {}
        for line in _lines(os.path.join(d, 'merges_cache.txt')):
            w, s = line.split('\t')
            cache[bperef.unliteral(w)] = bperef.unliteral(s).split(' ')
        want = {whole(w): syms for w, syms in splits.items()}
        want.update({whole(w): [whole(w)] for w in base.other})
        p = _compare('cache', cache, want, exact_keys=set(want))
        if p:
            return p
        re_ = {}
        for line in _lines(os.path.join(d, 'bpe_vocab_reassembled.txt')):
            w, c = line.split('\t')
            re_[bperef.unliteral(w)] = int(c)
        want = {' '.join(syms): base.words[w] for w, syms in splits.items()}
        want.update({whole(w): c for w, c in base.other.items()})
        p = _compare('split vocabulary', re_, want)
        if p:
            return p
    except (ValueError, OSError, IndexError) as e:
        return 'stored result cannot be read: %s: %s' % (type(e).__name__, e)
    if check:
        check.count('merges checked', len(pairs))
        check.count('words split', len(splits))
    return None


TEXT_END = {'\n@', '<EOF>@'}  # a line end at the very end of a file and the end-of-file token are not tokens of the text


def _compare(what, got, want, exact_keys=None):
    keys = [k for k in sorted(set(got) | set(want)) if k not in TEXT_END and got.get(k) != want.get(k)]
    if keys:
        return '%s: %d entries differ: %s (entry, stored, right)' % (what, len(keys), [(k, got.get(k), want.get(k)) for k in keys[:3]])
    return None


def rank_candidates(d, ns, m):
    """Rank tables of the first m merges of every stored list with at least m."""
    out = []
    for n in ns:
        if n >= m:
            r = bperef.ranks([p for p, _ in stored_merges(os.path.join(d, str(n)))][:m])
            if r not in out:
                out.append(r)
    return out


def judge_tokens(fts, candidates, check=None):
    """None, or the problem if the tokens are those of none of the candidate merge lists (see C10)."""
    import textlib
    from props import c10
    fts = [textlib.FT(s, t) for s, t in fts]
    first = None
    for n, rank in enumerate(candidates):
        key = 'custom-%d' % id(rank)
        c10._ranks[key] = rank
        c10._memo.clear()
        p = c10.judge(fts, 'bpe', key)
        del c10._ranks[key]
        if p is None:
            if check:
                check.count('full tokens judged', len(fts))
            return None
        first = first or p
    return first or 'no merges to choose from'
