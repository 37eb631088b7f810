# -*- coding: utf-8 -*-
"""C04: string options."""
import sys

import gen
from paired import *

RULE = ('a case is one (text, language, mode, other options) run without a string option, with no_str, with full strings and with several '
        'maximum lengths (the lengths of its own literals and their neighbours among them); non-trivial if the source has a string literal; '
        'distinct by text+mode+options')
ASSUMPTIONS = ['Pygments decides what a string literal is and how long it is; a literal it returns in several pieces counts as several']

NB = u'\xa0'


def literals(gt):
    return [p.value for p in gt if p.kind == 'str']


def lower_numbers(value):
    return regex.sub(r'\w+', lambda m: m.group().lower() if is_num_word(m.group()) else m.group(), value)


def same_literal(actual, value):
    """Full form of a literal: spaces as non-breaking spaces, number-like words possibly lower-cased."""
    v = value.replace(' ', NB)
    return actual == v or actual == lower_numbers(value).replace(' ', NB)


def split_strings(fts, mode, values, transformed=False):
    """Cut the full tokens into literals for modes that split strings: every character but the plain space is kept.
    Returns list of index-lists, one per literal."""
    idx = [i for i, f in enumerate(fts) if f.type == 'StringLiteral']
    res = []
    k = 0
    for v in values:
        need = len(spaceless(v))
        mine = []
        got = 0
        while got < need:
            if k >= len(idx):
                raise Mismatch('string literal %r is missing' % v)
            got += len(word_of(fts[idx[k]], mode))
            mine.append(idx[k])
            k += 1
        if got != need:
            raise Mismatch('string literal %r does not correspond to tokens %r' % (v, [fts[j] for j in mine]))
        text = ''.join(word_of(fts[j], mode) for j in mine)
        if text.lower() != spaceless(v).lower():
            raise Mismatch('string literal %r is kept as %r' % (v, text))
        res.append(mine)
    if k != len(idx):
        raise Mismatch('token %r is not part of a string literal' % fts[idx[k]])
    return res


def plain_groups(text, ext, mode, values, opts):
    """Literal -> positions of its full tokens, in the run of `mode` with opts but without rewriting options."""
    plain = {k: v for k, v in opts.items() if k in ('no_com', 'append_eof')}
    ok, r = run_mode('nosplit', text, ext, **plain)
    if not ok:
        return None
    return full_tokens(r), split_strings(full_tokens(r), 'nosplit', values)


def problem(text, ext, mode, opts, lens, stats=None, reinit=True):
    opts = dict(opts)
    gt = ground_truth(text, ext)
    values = literals(gt)
    whole = mode in BPE_MODES or mode == 'full'
    ok, a = run_mode(mode, text, ext, reinit=reinit, **opts)
    if not ok:
        return None
    try:
        A = full_tokens(a)
    except BadMetadata:
        return None
    try:
        # ---- where the literals are
        if whole:
            idx = [[i] for i, f in enumerate(A) if f.type == 'StringLiteral']
            if len(idx) != len(values):
                raise Mismatch('%d string tokens for %d literals: %r / %r' % (len(idx), len(values), [A[i[0]] for i in idx][:6], values[:6]))
            if not opts.get('no_unicode'):
                for (i,), v in zip(idx, values):
                    w = word_of(A[i], mode)
                    if not same_literal(w, v):
                        raise Mismatch('literal %r is represented as %r' % (v, w))
                    if mode == 'full' and len(A[i].subs) != 1:
                        raise Mismatch('full string in several tokens: %r' % A[i])
            spans = idx
        else:
            spans = None
            if not any(opts.get(k) for k in ('no_unicode', 'no_case', 'no_spaces')):
                spans = split_strings(A, mode, values)
            else:
                base = plain_groups(text, ext, mode, values, opts)
                if base is None:
                    return None
                P, groups = base
                # full tokens of the plain run and of this run correspond, apart from whitespace tokens if those are removed
                if opts.get('no_spaces'):
                    keep = [i for i, f in enumerate(P) if f.subs not in (('\n',), ('\t',))]
                else:
                    keep = list(range(len(P)))
                if len(keep) != len(A):
                    return None
                new = {old: n for n, old in enumerate(keep)}
                spans = [[new[i] for i in g if i in new] for g in groups]
                for n, old in enumerate(keep):
                    if (A[n].type == 'StringLiteral') != (P[old].type == 'StringLiteral'):
                        return None
        # position of every literal among the other tokens: number of non-string tokens before it
        others = [f for f in A if f.type != 'StringLiteral']

        def expected(replace):
            """Expected full tokens if literal k is replaced by replace(k) (None: kept)."""
            out = []
            pos = 0
            for k, g in enumerate(spans):
                rep = replace(k)
                if not g:
                    return None     # nothing of the literal is visible in this mode: its position is taken from the other modes
                out.extend(A[pos:g[0]])
                out.extend(A[g[0]:g[-1] + 1] if rep is None else [FT(rep, 'StringLiteral')])
                pos = g[-1] + 1
            out.extend(A[pos:])
            return out

        # ---- no_str
        ok, b = run_mode(mode, text, ext, reinit=False, **dict(opts, no_str=True))
        if not ok:
            raise Mismatch('no_str raises %r' % b)
        B = full_tokens(b)
        E = expected(lambda k: (end('<str-literal>', mode),))
        if E is not None:
            if B != E:
                raise Mismatch('no_str: ' + diff_text(B, E))
        else:
            if [f for f in B if f.type != 'StringLiteral'] != others:
                raise Mismatch('no_str changes other tokens')
            if [f.subs for f in B if f.type == 'StringLiteral'] != [(end('<str-literal>', mode),)] * len(values):
                raise Mismatch('no_str: %r for %d literals' % ([f for f in B if f.type == 'StringLiteral'], len(values)))
        if stats:
            stats('no_str')
        # no_str wins over a maximum length
        if lens:
            ok, b2 = run_mode(mode, text, ext, reinit=False, **dict(opts, no_str=True, max_str_length=lens[0]))
            if not ok or full_tokens(b2) != B:
                raise Mismatch('no_str with max_str_length=%d differs from no_str' % lens[0])
        # ---- maximum length
        for L in lens:
            ok, b = run_mode(mode, text, ext, reinit=False, **dict(opts, max_str_length=L))
            if not ok:
                raise Mismatch('max_str_length=%d raises %r' % (L, b))
            B = full_tokens(b)
            lim = max(L, 2)
            E = expected(lambda k: EMPTY_LITERAL[mode] if len(values[k]) > lim else None)
            if E is not None:
                if B != E:
                    raise Mismatch('max_str_length=%d: %s' % (L, diff_text(B, E)))
            else:
                if [f for f in B if f.type != 'StringLiteral'] != others:
                    raise Mismatch('max_str_length=%d changes other tokens' % L)
                want = []
                for k, g in enumerate(spans):
                    want.extend([FT(EMPTY_LITERAL[mode], 'StringLiteral')] if len(values[k]) > lim else [A[i] for i in g])
                got = [f for f in B if f.type == 'StringLiteral']
                if got != want:
                    raise Mismatch('max_str_length=%d: %s' % (L, diff_text(got, want)))
            if stats:
                stats('max_str_length')
                stats('literals cut', sum(1 for v in values if len(v) > lim))
                stats('literals kept', sum(1 for v in values if len(v) <= lim))
                stats('literals of exactly the maximum', sum(1 for v in values if len(v) == lim))
                stats('literals one longer', sum(1 for v in values if len(v) == lim + 1))
    except Mismatch as e:
        return str(e)
    except BadMetadata as e:
        return 'with a string option: %s' % e
    if stats:
        stats('literals', len(values))
    return None


def case(rng):
    c = rng.random()
    if c < 0.4:
        return gen.any_case(rng)
    if c < 0.75:
        pieces = gen.java_program(rng, n=rng.choice([1, 3, 6, 12]))
        for _ in range(rng.randint(1, 5)):
            s = ('str', gen.java_string(rng, rng.choice([2, 5, 12, 40, 70])))
            pieces.insert(rng.randint(0, len(pieces)), rng.choice([s, s, ('str', '""'), ('str', '" "'), ('str', u'"ü"'), ('str', '"a""b"'), ('char', "' '")]))
        return 'java', gen.text_of(pieces), 'java-strings'
    lang = rng.choice(['py', 'js', 'c', 'cpp', 'sql', 'sh', 'php', 'html', 'xml', 'rb', 'lua', 'hs', 'rs', 'css', 'pl', 'yaml', 'scala', 'go', 'json', 'cs', 'kotlin', 'ts'])
    t = ''.join(gen.language_text(rng, lang) for _ in range(2))
    return lang, t, 'lang-strings'


def directed_long(check):
    """Known mechanism: maximum lengths of 62 and more."""
    for L, n in [(62, 63), (62, 62), (100, 99), (100, 100), (100, 101), (100, 300), (1000, 1001)]:
        text = 'x = "%s";' % ('a' * (n - 2))
        for mode in MODES:
            ok, b = run_mode(mode, text, 'java', max_str_length=L)
            cut = ok and any(f.type == 'StringLiteral' and f.subs == EMPTY_LITERAL[mode] for f in full_tokens(b))
            check.evaluated()
            if not ok or cut != (n > L):
                check.violation('max_str_length=%d with a literal of length %d: %s' % (L, n, b if not ok else 'emptied' if cut else 'kept'),
                                case_of(text, 'java', mode=mode, L=L), key='max-str-length-ge-62' if ok and not cut else None)


def worker(check, i):
    rng = check.rng
    while check.go_on():
        batch = [case(rng) for _ in range(15)]

        def one(c, mode, first):
            ext, text, label = c
            opts = {} if rng.random() < 0.4 else random_opts(rng, mode)
            for k in ('no_str', 'max_str_length'):
                opts.pop(k, None)
            values = [p.value for p in ground_truth(text, ext) if p.kind == 'str']
            pool = {len(v) + d for v in values for d in (-1, 0, 0, 1)} | {0, 1, 2, 3, 61}
            pool = sorted(x for x in pool if 0 <= x < 62)
            lens = rng.sample(pool, min(3, len(pool)))
            p = problem(text, ext, mode, opts, lens, check.count, first)
            check.evaluated((text, mode, sorted(opts.items())) if values else None)
            check.count('mode:' + mode)
            if p:
                small = shrink(text, lambda t: problem(t, ext, mode, opts, lens) is not None)
                check.violation('%s [%s, mode %s %r] text %r' % (problem(small, ext, mode, opts, lens) or p, ext, mode, opts, clip(small)),
                                case_of(small, ext, mode=mode, options=opts, lengths=lens, original=text))
        in_batches(check, batch, MODES, one)
        check.sample({'text': clip(batch[0][1], 120), 'ext': batch[0][0]})


def run(check):
    check.budget(30, 240)
    import codeprep.api.text  # noqa
    directed_long(check)
    check.fork_workers(worker)
    check.require(**{'mode:' + m: 40 for m in MODES})
    check.require(**{'literals': 500, 'literals cut': 200, 'literals kept': 200, 'literals of exactly the maximum': 50, 'literals one longer': 50})
