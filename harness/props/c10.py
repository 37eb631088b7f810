# -*- coding: utf-8 -*-
"""C10: BPE application."""
import os

import bperef
import gen
from paired import *

RULE = ('a case is one word occurrence encoded by the code under test (through the text API or the word encoder) and by the reference algorithm; '
        'non-trivial if at least one merge applies; distinct by word+merge list')

_ranks = {}


def rank_of(bpe_id):
    if bpe_id not in _ranks:
        if bpe_id == '0':
            _ranks[bpe_id] = {}
        else:
            from codeprep.config import DEFAULT_BPE_DIR
            _ranks[bpe_id] = bperef.ranks(bperef.read_merges_file(os.path.join(DEFAULT_BPE_DIR, 'case', bpe_id, 'merges.txt')))
    return _ranks[bpe_id]


_memo = {}


def ref(word, bpe_id):
    k = (word, bpe_id)
    if k not in _memo:
        if len(_memo) > 200000:
            _memo.clear()
        _memo[k] = bperef.encode(word, rank_of(bpe_id))
    return _memo[k]


def judge(fts, mode, bpe_id, check=None):
    for f in fts:
        if f.type in NONPROC or f.type in ('Zero', 'One'):
            continue
        subs = list(f.subs)
        if not subs[-1].endswith(TEND):
            continue        # judged elsewhere
        subs[-1] = subs[-1][:-len(TEND)]
        w = ''.join(subs)
        if w in ('<comment>', '<str-literal>', '<EOL>') and len(subs) == 1:
            continue
        inside = f.type in ('OneLineComment', 'MultilineComment')
        if inside and not regex.fullmatch(r'\w+', w):
            if subs != [w] and len(w) == 1:
                return 'symbol %r is split into %r' % (w, subs)
            if len(w) == 1:
                continue
        want = ref(w, bpe_id)
        if subs != want:
            if f.type == 'StringLiteral' and f.subs == ('"', '"</t>'):
                continue
            return '%r is encoded as %r, the merge list gives %r' % (w, subs, want)
        if check:
            check.count('words')
            check.evaluated((w, bpe_id) if len(want) < len(w) else None)
            if '@' in w:
                check.count('words with @')
    return None


SP = [u'@', u'@@', u'a@b', u'@x@', u'user@host.com', u'@@@', u'x@', u'erererer', u'aaaaaaaaa', u'ananananas', u'the', u'getValue', u'StringBuilder', u'HTTPServer', u'größe',
      u'____', u'i', u'publicstaticvoid', u'ÜÜÜ', u'日本日本', u'\\n', u'0x1F', u'1000000', u'\u2028x', u'a\xa0b', u'ab\x0bc', u'aa@aa@']


def words_text(rng, words):
    w = [x for x in words]
    return 'java', rng.choice(['%s', '/* %s */', '"%s"', '// %s\n', '"%s"', "'%s'", '@%s']) % ' '.join(w)


def case(rng):
    if rng.random() < 0.45:
        e, t, _ = gen.any_case(rng)
        return e, t
    n = rng.randint(1, 10)
    words = [rng.choice([rng.choice(SP), gen.identifier(rng, tricky=True), ''.join(rng.choice(u'aabeinrst@_T1 ') for _ in range(rng.randint(1, 20)))]) for _ in range(n)]
    if rng.random() < 0.3:
        words = words * 2
    if rng.random() < 0.3:      # words that hardly differ, long ones too
        w = rng.choice(words) if rng.random() < 0.4 else ''.join(gen.identifier(rng) for _ in range(rng.choice([2, 4, 8])))
        words += [w, gen.near(rng, w), gen.near(rng, w)]
    return words_text(rng, words)


def api_histories(check):
    rng = check.rng
    history = []
    last = None
    recent = []
    for step in range(25):
        if not check.go_on():
            return
        ext, text = rng.choice(recent) if recent and rng.random() < 0.3 else case(rng)
        recent = (recent + [(ext, text)])[-6:]
        bpe_id = rng.choice(['1k', '5k', '10k', '0', '1k'])
        opts = {} if rng.random() < 0.7 else random_opts(rng, 'bpe')
        opts.pop('no_unicode', None)
        # not re-reading the data is documented to be valid as long as the id stays the same
        reinit = not (last == bpe_id and rng.random() < 0.6)
        if bpe_id == '0':
            ok, r = run_mode('chars', text, ext, **opts)
        else:
            ok, r = run_mode('bpe', text, ext, bpe_id=bpe_id, reinit=reinit, **opts)
        history.append((bpe_id, reinit, ext, clip(text, 500), opts))
        last = bpe_id
        check.count('api calls')
        if not reinit:
            check.count('api calls without re-reading')
        if not ok:
            p = 'raises %r' % r
        else:
            try:
                p = judge(full_tokens(r), 'bpe', bpe_id, check)
            except BadMetadata:
                continue
        if p:
            check.violation('%s [bpe %s, call %d of the history] text %r' % (p, bpe_id, len(history), clip(text)), {'history': history})
            return
        if rng.random() < 0.15:     # other modes in between
            run_mode(rng.choice(['basic', 'nosplit']), text, ext)


def random_lists(check):
    """Random merge lists (any list whose pairs can be formed), with and without cache entries, in repeated use."""
    from codeprep.bpepkg.bpe_encode import get_bpe_subwords, BpeData
    from codeprep.bpepkg.merge import Merge, MergeList
    rng = check.rng
    alpha = rng.choice([u'ab', u'abc', u'ab@', u'aé@_', u'01x', u'abcdefgh'])
    syms = ['@@' if c == '@' else c for c in alpha] + ['@']
    pairs = []
    for _ in range(rng.choice([0, 1, 2, 4, 8, 16, 30])):
        a, b = rng.choice(syms[-12:] if rng.random() < 0.5 else syms), rng.choice(syms)
        if a.endswith('@') and not a.endswith('@@') or a == '@':
            continue    # the end mark is never on the left
        if (a, b) not in pairs:
            pairs.append((a, b))
            syms.append(a + b)
    if rng.random() < 0.3:
        rng.shuffle(pairs)
    ml = MergeList()
    for p in pairs:
        ml.append(Merge(p, freq=1))
    rank = bperef.ranks(pairs)
    cache = {}
    words = [''.join(rng.choice(alpha) for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 15, 40]))) for _ in range(12)]
    for _ in range(rng.choice([0, 0, 2, 4])):      # words that hardly differ
        w = list(rng.choice(words))
        w[rng.choice([0, -1, rng.randrange(len(w))])] = rng.choice(alpha)
        words.append(''.join(w))
    for w in words:
        if rng.random() < 0.3:
            cache[w.replace('@', '@@') + '@'] = bperef.apply_merges(bperef.symbols(w), rank)
    data = BpeData(merges_cache=cache, merges=ml)
    for w in words + words:
        ok, got = call(get_bpe_subwords, w, data)
        want = bperef.encode(w, rank)
        check.evaluated((w, tuple(pairs)) if len(want) < len(w) else None)
        check.count('words with random lists')
        if not ok or got != want:
            check.violation('word %r with merges %r: got %r, expected %r (cached: %s)' % (w, pairs, got, want, (w.replace('@', '@@') + '@') in cache),
                            {'word': w, 'merges': pairs})
            return


def long_words(check):
    """Words of up to a few ten thousand characters, alone and inside a text, with bundled and random lists."""
    from codeprep.bpepkg.bpe_encode import get_bpe_subwords, BpeData
    from codeprep.bpepkg.merge import Merge, MergeList
    rng = check.rng
    n = int(10 ** rng.uniform(2, 3.5 + 0.7 * rng.random()))
    piece = rng.choice([gen.identifier(rng), 'return', 'ab', 'aab', 'x', 'er', u'größe', 'the_'])
    w = ''.join(rng.choice([piece, piece, piece, rng.choice('abeinrst_T1')]) for _ in range(n // len(piece) + 1))[:n]
    w = ''.join(c for c in w if c.isalnum() or c == '_') or 'x'
    if rng.random() < 0.3:
        k = rng.randrange(len(w))
        w = w[:k] + '@' + w[k:]
    if rng.random() < 0.6:
        bpe_id = rng.choice(['1k', '5k', '10k'])
        ok, r = run_mode('bpe', '"%s" + %s + %s' % (w, w.replace('@', ''), gen.near(rng, w.replace('@', '')) if n < 3000 else 'x'), 'java', bpe_id=bpe_id)
        p = 'raises %r' % r if not ok else judge(full_tokens(r), 'bpe', bpe_id, check)
        if p:
            check.violation('%s [bpe %s, long word]' % (clip(p, 1500), bpe_id), {'word': w, 'id': bpe_id})
            return
    else:
        syms = sorted(set(w)) + ['@']
        pairs = []
        for _ in range(rng.choice([1, 3, 8, 20])):
            a, b = rng.choice(syms), rng.choice(syms)
            a, b = a.replace('@', '@@') if len(a) == 1 else a, b
            if (a, b) not in pairs and a + b in w.replace('@', '@@') + '@':
                pairs.append((a, b))
                syms.append(a + b)
        ml = MergeList()
        for q in pairs:
            ml.append(Merge(q, freq=1))
        ok, got = call(get_bpe_subwords, w, BpeData(merges_cache={}, merges=ml))
        want = bperef.encode(w, bperef.ranks(pairs))
        check.evaluated((w, tuple(pairs)))
        if not ok or got != want:
            check.violation('word of %d characters with merges %r: got %s, expected %s' % (len(w), pairs, clip(repr(got), 600), clip(repr(want), 600)), {'word': w, 'merges': pairs})
            return
    check.count('long words')
    if n > 5000:
        check.count('words of more than 5000 characters')


def worker(check, i):
    for _ in range(check.size(7, 40)):
        if check.go_on():
            long_words(check)
    while check.go_on():
        api_histories(check)
        for _ in range(60):
            if not check.go_on():
                return
            random_lists(check)


def run(check):
    check.budget(30, 240)
    import codeprep.api.text  # noqa
    for i in ('1k', '5k', '10k'):
        assert len(rank_of(i)) >= 1000
    check.fork_workers(worker)
    check.sample({'words': SP[:8]})
    check.require(words=5000, **{'api calls': 100, 'api calls without re-reading': 10, 'words with random lists': 2000, 'words with @': 20, 'long words': 10})
