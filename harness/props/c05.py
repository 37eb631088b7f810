# -*- coding: utf-8 -*-
"""C05: whitespace."""
import re

import gen
from paired import *

RULE = ('a case is one (text, language, mode, other options) run with and without no_spaces, for Java also compared with the line structure of '
        'the source; non-trivial if the output contains a newline or tab token; distinct by text+mode+options')
ASSUMPTIONS = ['Pygments normalises line ends to \\n and drops leading and trailing empty lines']


def is_ws(f, mode):
    return f.subs in ((end('\n', mode),), (end('\t', mode),))


def pairing(text, ext, mode, opts, stats=None, reinit=True):
    p = pair(text, ext, mode, opts, {'no_spaces': True}, reinit)
    if p is None:
        return None
    A, B = p
    # a string literal kept whole is content even if it consists of a tab or line break only
    drop = [is_ws(f, mode) and not (f.type == 'StringLiteral' and (mode in BPE_MODES or mode == 'full')) for f in A]
    E = [f for f, d in zip(A, drop) if not d]
    if stats:
        stats('whitespace tokens', sum(drop))
        if any(drop):
            stats('texts with whitespace')
    if B != E:
        return 'no_spaces: ' + diff_text(B, E)
    return None


KEY = 'mixed-whitespace-run'
MIXED = 'line breaks of a mixed whitespace run are lost'


def mixed_run(got, text):
    """The known mechanism explains the difference: exactly the line breaks inside whitespace tokens of several characters are missing."""
    gt = ground_truth(text, 'java')
    if not any(p.kind == 'ws' and '\n' in p.value for p in gt):
        return False
    want = []
    for p in gt:
        if p.kind == 'str':
            continue
        found = re.findall('\n|\t| {4}', p.value)
        if p.kind == 'ws':
            found = [w for w in found if w != '\n']
        want.extend('\t' if w == ' ' * 4 else w for w in found)
    return got == want or (want[-1:] == ['\n'] and got == want[:-1])


def java_whitespace(text):
    """Newlines and tabs of a Java text outside string literals, in order (the pieces come from the generator's ground truth
    or from the lexer)."""
    out = []
    for kind, t in text:
        if kind in ('str', 'char'):
            out.append('S')
        else:
            out.append(t)
    s = ''.join(out)
    s = s.replace('\r\n', '\n').replace('\r', '\n').strip('\n') + '\n'
    return s


def structure(pieces, mode, opts, stats=None):
    """Line structure of generated Java: pieces are the ground truth."""
    text = gen.text_of(pieces)
    ok, r = run_mode(mode, text, 'java', reinit=False, **opts)
    if not ok:
        return 'raises %r' % r
    try:
        A = full_tokens(r)
    except BadMetadata:
        return None
    s = java_whitespace(pieces)
    want = re.findall('\n|\t| {4}', s)
    want = ['\t' if w == ' ' * 4 else w for w in want]
    got = [f.subs[0][0] for f in A if is_ws(f, mode) and f.type != 'StringLiteral']
    # the line break at the very end of the text is not reported, unless it is part of a comment
    ends = {tuple(want)}
    if want and want[-1] == '\n':
        ends = {tuple(want[:-1])}
        # find out whether the last non-empty piece is a line comment (then its line break belongs to the comment)
        nonblank = [p for p in pieces if p[1].strip('\r\n') != '']
        if nonblank and nonblank[-1][0] == 'lcom':
            ends = {tuple(want)}
    if tuple(got) not in ends:
        if mixed_run(got, text):
            return MIXED
        return 'line structure: %r, the source has %r' % (got[:60], want[:60])
    if stats:
        stats('java newlines', got.count('\n'))
        stats('java tabs', got.count('\t'))
    return None


def java_case(rng):
    pieces = gen.java_program(rng, n=rng.choice([1, 2, 4, 8, 15]))
    for _ in range(rng.randint(1, 8)):
        pieces.insert(rng.randint(0, len(pieces)), rng.choice([
            ('nl', '\n'), ('nl', '\n\n'), ('nl', '\r\n'), ('ws', '\t'), ('ws', '\t\t'), ('ws', '    '), ('ws', ' ' * 7), ('ws', ' ' * 8), ('ws', ' \t'),
            ('ws', '\t    '), ('ws', '   \t'), ('ws', '\t\t\t'), ('bcom', '/* a\n\tb    c */'), ('lcom', '//\tx    y\n'), ('ws', ' '), ('ws', ' ' * 13)]))
    # after `class` the lexer is in a state of its own: see directed_mixed
    return [('kw', 'void') if p == ('kw', 'class') else p for p in pieces]


def directed_mixed(check):
    """Known mechanism: a run of whitespace with line breaks which the lexer returns as one token."""
    for text in ['class\nFoo {\n}', 'class\n\tFoo {\n}', 'class Foo {\n}', 'interface\n\nFoo {\n}', 'import\n    a.b;\nint x;', 'enum Foo {\n\n\tA\n}']:
        for mode in MODES:
            p = structure([('x', text)], mode, {})
            check.evaluated()
            if p:
                check.violation('%s [mode %s] text %r' % (p, mode, text), case_of(text, 'java', mode=mode), key=KEY if p is MIXED else None)


def worker(check, i):
    rng = check.rng
    while check.go_on():
        batch = []
        for _ in range(20):
            if rng.random() < 0.5:
                p = java_case(rng)
                batch.append(('java', gen.text_of(p), p))
            else:
                ext, text, label = gen.any_case(rng)
                batch.append((ext, text, None))

        def one(c, mode, first):
            ext, text, pieces = c
            opts = {} if rng.random() < 0.4 else random_opts(rng, mode)
            opts.pop('no_spaces', None)
            p = pairing(text, ext, mode, opts, check.count, first)
            check.evaluated((text, mode, sorted(opts.items())) if '\n' in text.strip('\n') or '\t' in text or '    ' in text else None)
            check.count('mode:' + mode)
            if p:
                small = shrink(text, lambda t: pairing(t, ext, mode, opts) is not None)
                check.violation('%s [%s, mode %s %r] text %r' % (pairing(small, ext, mode, opts) or p, ext, mode, opts, clip(small)),
                                case_of(small, ext, mode=mode, options=opts, original=text))
            if pieces is not None:
                so = {k: v for k, v in opts.items() if k in ('no_unicode', 'no_str', 'max_str_length', 'no_case')}
                p = structure(pieces, mode, so, check.count)
                check.evaluated()
                if p is MIXED:
                    check.violation(p, case_of(text, 'java', mode=mode, options=so), key=KEY)
                elif p:
                    k = 0
                    small = list(pieces)
                    while k < len(small):
                        cand = small[:k] + small[k + 1:]
                        if structure(cand, mode, so) not in (None, MIXED):
                            small = cand
                        else:
                            k += 1
                    check.violation('%s [java, mode %s %r] text %r' % (structure(small, mode, so), mode, so, clip(gen.text_of(small))),
                                    case_of(gen.text_of(small), 'java', mode=mode, options=so))
        in_batches(check, batch, MODES, one)
        check.sample({'text': clip(batch[0][1], 120), 'ext': batch[0][0]})


def run(check):
    check.budget(30, 240)
    import codeprep.api.text  # noqa
    directed_mixed(check)
    check.fork_workers(worker)
    check.require(**{'mode:' + m: 50 for m in MODES})
    check.require(**{'java newlines': 500, 'java tabs': 500, 'whitespace tokens': 1000})
