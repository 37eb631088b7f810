# -*- coding: utf-8 -*-
"""C09: splitting rules of identifiers and numbers."""
import unicodedata

import gen
from paired import *

RULE = ('a case is one word (identifier or number) whose sub-tokens were compared with an independent scanner; non-trivial if the word has more '
        'than one sub-token; distinct by word+context')
ASSUMPTIONS = ['words with uncased letters or non-ASCII digits are outside the documented rules and not judged']


def cls(c):
    if c == '_':
        return '_'
    if c in '0123456789':
        return 'd'
    cat = unicodedata.category(c)
    if cat == 'Lu':
        return 'u'
    if cat == 'Ll':
        return 'l'
    return None


def scan(w):
    """Documented splitting, or None if outside the rules."""
    k = [cls(c) for c in w]
    if None in k:
        return None
    parts = [w[0]]
    for i in range(1, len(w)):
        a, b = k[i - 1], k[i]
        nxt = k[i + 1] if i + 1 < len(w) else ''
        brk = (a == '_' or b == '_' or (a == 'd') != (b == 'd') or (a == 'l' and b == 'u')
               or (a == 'u' and b == 'u' and nxt == 'l'))
        if brk:
            parts.append(b and w[i])
        else:
            parts[-1] += w[i]
    return parts


def problem(text, ext, split_numbers, stats=None, seen=None):
    mode = 'basicn' if split_numbers else 'basic'
    ok, r = run_mode(mode, text, ext)
    if not ok:
        return 'raises %r' % r
    try:
        fts = full_tokens(r)
    except BadMetadata:
        return None
    gt = ground_truth(text, ext)
    try:
        own = align(fts, mode, gt)
    except ValueError:
        own = []    # the content is judged elsewhere
    words = {}
    for f, k in zip(fts, own):
        if k is not None and gt[k].kind not in ('num', 'kw', 'op'):
            w = word_of(f, mode)
            if regex.fullmatch(r'\w+', w):
                words.setdefault(k, []).append(w)
    for k, ws in words.items():
        want = [w for w in regex.findall(r'\w+', gt[k].value)]
        if ws != want and ''.join(ws) == ''.join(want):
            return 'the words of %r are %s' % (gt[k].value, clip(repr(ws)))
        if stats:
            stats('words kept in one piece', len(ws))
    for f in fts:
        inside = f.type in ('OneLineComment', 'MultilineComment', 'StringLiteral')
        w = word_of(f, mode)
        subs = list(f.subs)
        if len(subs) > 1 and subs[0] == '<w>':
            subs = subs[1:-1]
        if f.type in ('Number', 'Zero', 'One'):
            num = True
        elif inside and regex.fullmatch(r'\w+', w):
            num = is_num_word(w)
        elif f.type in ('SplitContainer', 'NonEng'):
            num = False
            if is_num_word(w):
                return 'number %r is treated as a word' % w
        else:
            continue
        if num:
            want = list(w) if split_numbers else [w]
            if inside and split_numbers and len(w) == 1:
                want = [w]
            if stats:
                stats('numbers')
                stats('numbers inside', int(inside))
        else:
            want = scan(w)
            if want is None:
                continue
            if stats:
                stats('identifiers')
        if seen is not None and len(want) > 1:
            seen.add((w, inside, split_numbers))
        if subs != want:
            return '%r is split into %r, expected %r (%s)' % (w, subs, want, f.type)
    return None


CH = u'aabzABZ019__üÜжЖ'


def word(rng):
    c = rng.random()
    if c < 0.004:
        n = int(10 ** rng.uniform(2, 4.3))
        if rng.random() < 0.3:
            return (rng.choice(['', '0x', '0b']) + ''.join(rng.choice('10') for _ in range(n)))
        return ''.join(rng.choice([gen.identifier(rng, allow_lead_digit=True), rng.choice(CH)]) for _ in range(n // 4))[:n]
    if c < 0.35:
        return gen.identifier(rng, unicode_level=1, allow_lead_digit=True)
    if c < 0.7:
        return ''.join(rng.choice(CH) for _ in range(rng.randint(1, 9)))
    if c < 0.8:
        return ''.join(rng.choice('abAB01_') for _ in range(rng.randint(1, 5)))
    return rng.choice(['0x%s' % rng.choice(['1', 'fF', 'CAFE_babe', 'g', '', '_1', '1_', '1L', '1l', '1__2', 'DEADL']),
                       '0b%s' % rng.choice(['0', '01_1', '2', '', '1L', '1f', '1__0']), '%d' % rng.randint(0, 10 ** rng.randint(1, 30)),
                       '1_000', '1__0', '_1', '1_', '10L', '10l', '3f', '3D', '3x', '1e5', '1E5f', '1e', 'e1', '0', '1', '00', '0X1F', '0B1', '1LL', '12ab', '1e_5'])


def case(rng):
    c = rng.random()
    if c < 0.25:
        ext, text, _ = gen.any_case(rng)
        return ext, text
    words = [word(rng) for _ in range(rng.randint(1, 12))]
    return 'java', rng.choice(['%s', '/* %s */', '"%s"', '// %s\n', '%s', 'a %s']) % rng.choice([' ', ' ', ', ', '.']).join(words)


def worker(check, i):
    rng = check.rng
    while check.go_on():
        ext, text = case(rng)
        for sn in (False, True):
            seen = set()
            p = problem(text, ext, sn, check.count, seen)
            check.evaluations += max(1, len(seen))
            for s in seen:
                check.evaluated(s, n=0)
            if p:
                small = shrink(text, lambda t: problem(t, ext, sn) is not None)
                check.violation('%s [%s, split_numbers=%s] text %r' % (problem(small, ext, sn) or p, ext, sn, clip(small)),
                                case_of(small, ext, split_numbers=sn, original=text))
        check.sample({'text': clip(text, 120), 'ext': ext})


def run(check):
    check.budget(20, 200)
    import codeprep.api.text  # noqa
    check.fork_workers(worker)
    check.require(identifiers=5000, numbers=2000, **{'numbers inside': 500})
