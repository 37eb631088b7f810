# -*- coding: utf-8 -*-
"""C25: stored artefacts read back as they were written."""
import gzip
import io
import os
import pickle
from collections import Counter

import gen
from env import call
from textlib import clip, run_mode, MODES

RULE = ('a case is one artefact (token string, vocabulary, merge list, bpe cache, token set, parsed token stream) written by the code under test and read '
        'back by it; non-trivial if an entry needs escaping; distinct by content')

HOSTILE = ['\n', '\r', '\t', '\\', '\\n', '\\\\', '\\x41', '\\u0041', '\\N{DASH}', "'", '"', '@', '@@', '</t>', '<w>', '</w>', '<EOL>', u'\xa0', u'\x85',
           u'\u2028', u'\u2029', u'\x1c', u'\x1d', u'\x1e', u'\x0b', u'\x0c', u'\x00', u'\x7f', u'\ufeff', u'ü', u'日本', u'😀', u'\U0010ffff', u'\ud800', u'\u0301',
           '#', ',', ';', ':', 'a', 'B', '0', '%', '=', '|', '-', '_', '\x1b', '\\t', '\\\n', "\\'", 'None', '\\0', '\\8']


def token(rng, spaces=False):
    r = rng.random()
    if r < 0.25:
        t = gen.identifier(rng, tricky=True)
    elif r < 0.9:
        t = ''.join(rng.choice(HOSTILE) if rng.random() < 0.6 else gen.identifier(rng, tricky=True)[:3] for _ in range(rng.randint(1, 6)))
    else:
        t = ''.join(chr(c) for c in (rng.choice([rng.randint(0, 0x24f), rng.randint(0, 0xffff), rng.randint(0, 0x10ffff)]) for _ in range(rng.randint(1, 8))))
    if spaces and rng.random() < 0.3:
        t = t + ' ' + t
    if not spaces:
        t = t.replace(' ', '_')
    return t


def needs_escape(t):
    return any(ord(c) < 32 or ord(c) > 126 or c == '\\' for c in t)


def file_shape(path, n):
    """One entry is one line: n lines, pure ASCII, no other line-break character."""
    with open(path, 'rb') as f:
        data = f.read()
    if any(b > 126 or (b < 32 and b not in (9, 10)) for b in data):
        return 'contains bytes %r that are not printable ASCII' % sorted({b for b in data if b > 126 or b < 32 and b not in (9, 10)})
    if n is not None and data.count(b'\n') != n:
        return '%d lines for %d entries' % (data.count(b'\n'), n)
    if data and not data.endswith(b'\n'):
        return 'last line is not terminated'
    return None


def report(check, what, problem, data):
    if problem:
        check.violation('%s: %s; %s' % (what, problem, clip(repr(data), 700)), {'artefact': what, 'data': repr(data)})


def literal(check, rng):
    from codeprep.util import to_literal_str, to_non_literal_str
    t = token(rng, spaces=True)
    ok, r = call(lambda: (to_literal_str(t), to_non_literal_str(to_literal_str(t))))
    check.evaluated(('literal', t.encode('utf-8', 'surrogatepass')) if needs_escape(t) else None)
    check.count('strings')
    p = None
    if not ok:
        p = repr(r)
    elif r[1] != t:
        p = 'reads back as %r' % r[1]
    elif any(ord(c) > 126 or ord(c) < 32 for c in r[0]):
        p = 'escaped form %r' % r[0]
    elif ' ' in r[0] and ' ' not in t:
        p = 'escaped form contains a space'
    report(check, 'escaped string', p, t)


def roundtrip(check, what, n, write, read, equal, data, path):
    ok, r = call(write, path)
    check.evaluated((what, repr(data)))
    check.count(what)
    check.count('entries', n or 0)
    if not ok:
        report(check, what, 'writing %r' % r, data)
        return
    p = file_shape(path, n)
    if not p:
        ok, r = call(read, path)
        if not ok:
            p = 'reading %r' % r
        else:
            p = equal(r)
    report(check, what, p, data)
    os.remove(path)


def differs(expected):
    def f(got):
        if got == expected:
            return None
        if isinstance(expected, dict):
            d = [(k, expected.get(k), got.get(k)) for k in set(expected) ^ set(got) | {k for k in expected if k in got and got[k] != expected[k]}][:3]
            return 'reads back with differences (entry, written, read) %r' % (d,)
        return 'reads back as %s' % clip(repr(got))
    return f


def vocab(check, rng, path):
    from codeprep.pipeline.vocab import _dump_vocab_dict, _load_vocab_dict
    v = {token(rng): rng.choice([1, 2, 10, 10 ** 12, rng.randint(1, 10 ** 6)]) for _ in range(rng.choice([0, 1, 2, 5, 30]))}
    roundtrip(check, 'vocabulary', len(v), lambda p: _dump_vocab_dict(v.items(), p), _load_vocab_dict, differs(v), v, path)


def final_vocab(check, rng, path):
    """What the vocabulary calculation writes: counted from (escaped) preprocessed files."""
    from codeprep.pipeline.vocab import PartialVocab, _load_vocab_dict
    from codeprep.util import to_literal_str
    v = {token(rng): rng.randint(1, 9) for _ in range(rng.choice([1, 2, 5, 30]))}
    part = PartialVocab(Counter({to_literal_str(k): f for k, f in v.items()}), 0)
    roundtrip(check, 'calculated vocabulary', len(v), part.write_vocab, _load_vocab_dict, differs(v), v, path)


def token_set(check, rng, path):
    from codeprep.preprocess.metadata import PreprocessingMetadata, save_metadata
    from codeprep.pipeline.vocab import _load_vocab_set
    s = {token(rng) for _ in range(rng.choice([0, 1, 2, 5, 30]))}
    roundtrip(check, 'non-processable token set', len(s), lambda p: save_metadata(PreprocessingMetadata(set(s)), p.encode()), _load_vocab_set, differs(s), sorted(s), path)


def merges(check, rng, path):
    from codeprep.bpepkg.merge import Merge, MergeList, dump_merges, read_merges
    pairs = {}
    for _ in range(rng.choice([0, 1, 2, 5, 30])):
        pairs.setdefault((token(rng), token(rng)), rng.choice([1, 3, 10 ** 9]))
    ml = MergeList()
    for (a, b), f in pairs.items():
        ml.append(Merge((a, b), freq=f))
    items = list(pairs.items())
    limit = rng.choice([None, None, 0, 1, 2, len(items), len(items) + 5])
    want = items[:limit] if limit else items

    def same(got):
        g = [(m.pair, m.freq, m.priority) for m in got]
        w = [(p, f, i) for i, (p, f) in enumerate(want)]
        if g != w:
            return 'reads back as %s' % clip(repr(g))
        if any(got.get_priority(p) != i or p not in got for i, (p, f) in enumerate(want)):
            return 'lookup of a merge that was read differs'
        return None
    roundtrip(check, 'merge list', len(items), lambda p: dump_merges(ml, p), lambda p: read_merges(p, limit), same, items, path)


def bpe_cache(check, rng, path):
    from codeprep.bpepkg.cache import dump_bpe_cache, read_bpe_cache
    c = {}
    for _ in range(rng.choice([0, 1, 2, 5, 30])):
        subs = [token(rng) for _ in range(rng.randint(1, 5))]
        c[''.join(subs)] = subs
    roundtrip(check, 'bpe cache', len(c), lambda p: dump_bpe_cache(c, p), read_bpe_cache, differs(c), c, path)


def cache_of_vocab(check, rng, path):
    """The cache built from a learned vocabulary maps every word to its own symbols."""
    from codeprep.bpepkg.bpe_learn import create_bpe_cache, create_resulting_vocab
    v = {}
    for _ in range(rng.choice([1, 5, 20])):
        subs = [token(rng) for _ in range(rng.randint(1, 5))]
        v.setdefault(''.join(subs), (subs, rng.randint(1, 9)))
    split = {' '.join(s): f for s, f in v.values()}
    ok, r = call(lambda: (create_bpe_cache(split), dict(create_resulting_vocab(split))))
    want = ({w: s for w, (s, f) in v.items()}, Counter())
    for s, f in v.values():
        for x in s:
            want[1][x] += f
    check.evaluated(('cache of vocabulary', repr(split)))
    check.count('caches built')
    if not ok or r != (want[0], dict(want[1])):
        report(check, 'cache and resulting vocabulary built from a split vocabulary', repr(r)[:300], split)


def parsed(check, rng):
    from codeprep.parse.core import convert_text
    from codeprep.api.common import create_prep_config
    from codeprep.pipeline.to_repr import to_repr
    ext, text, label = gen.any_case(rng)
    if rng.random() < 0.3:
        text = ' '.join(token(rng).encode('utf-8', 'ignore').decode() for _ in range(5))
    ok, toks = call(lambda: list(convert_text(text, ext)))
    if not ok:
        return
    ok, back = call(lambda: pickle.loads(gzip.decompress(gzip.compress(pickle.dumps(toks, pickle.HIGHEST_PROTOCOL)))))
    check.evaluated(('parsed', text))
    check.count('parsed streams')
    p = None
    if not ok:
        p = repr(back)
    elif len(back) != len(toks) or any(type(a) is not type(b) or not (a == b) for a, b in zip(toks, back)):
        p = 'reads back differently'
    else:
        for kw in (dict(spl_type='nosplit'), dict(spl_type='nosplit', full_strings=True), dict(spl_type='basic', no_case=True, split_numbers=True),
                   dict(spl_type='nosplit', no_unicode=True, no_str=True)):
            c = create_prep_config(**kw)
            x, y = call(to_repr, c, toks), call(to_repr, c, back)
            if x[0] != y[0] or x[0] and (x[1][0] != y[1][0] or x[1][1] != y[1][1]):
                p = 'output with %r differs after reading back' % kw
                break
    report(check, 'parsed token stream', p, text)


def stream(check, rng):
    """A line of a preprocessed file: the tokens of real output, escaped, joined and read back."""
    from codeprep.util import to_literal_str, to_non_literal_str
    from codeprep.pipeline.to_repr import to_token_str
    ext, text, label = gen.any_case(rng)
    mode = rng.choice(['nosplit', 'full', 'basic'])
    ok, r = run_mode(mode, text, ext)
    if not ok:
        return
    toks = list(r[0])
    if any(' ' in t for t in toks) or '' in toks or not toks:
        return
    ok, line = call(lambda: to_literal_str(to_token_str(toks)))
    check.evaluated(('stream', text, mode))
    check.count('token streams')
    p = None
    if not ok:
        p = repr(line)
    elif any(ord(c) > 126 or ord(c) < 32 for c in line):
        p = 'line is not printable ASCII'
    elif [to_non_literal_str(t) for t in line.split(' ')] != toks:
        p = 'reads back differently'
    report(check, 'token stream', p, text)


def worker(check, i):
    rng = check.rng
    path = os.path.join(check.scratch, 'tmp', 'artefact%d' % i)
    gone = set()
    while check.go_on():
        for _ in range(20):
            literal(check, rng)
        for f in (vocab, final_vocab, token_set, merges, bpe_cache, cache_of_vocab):
            if f not in gone:
                try:
                    f(check, rng, path)
                except ImportError:     # the artefact is written by functions of other names; runs of the whole tool cover it (C12 to C22)
                    gone.add(f)
                    check.count('artefacts without known functions')
        parsed(check, rng)
        stream(check, rng)
        check.sample({'token': ascii(token(rng)), 'entries so far': check.counters['entries']})


def run(check):
    check.budget(20, 120)
    import codeprep.api.text  # noqa
    import codeprep.pipeline.vocab  # noqa
    check.fork_workers(worker)
    check.require(strings=10000, **{k: 500 for k in ('parsed streams', 'token streams')})
    kinds = ('vocabulary', 'calculated vocabulary', 'non-processable token set', 'merge list', 'bpe cache', 'caches built')
    seen = [k for k in kinds if check.counters[k]]
    check.require(**{k: 500 for k in seen})
    check.count('kinds of artefacts', len(seen))
    check.require(**{'kinds of artefacts': 8})
