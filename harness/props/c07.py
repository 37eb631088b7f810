# -*- coding: utf-8 -*-
"""C07: lowercasing."""
import gen
from paired import *

RULE = ('a case is one (text, language, mode, other options) run with and without no_case; the case markers of the former are undone and the '
        'result is compared token by token with the latter; non-trivial if a marker is present; distinct by text+mode+options')

CAP, CAPS = '<Cap>', '<CAPS>'


def is_upper_restorable(s):
    return s.isupper() and s.lower() != s and s.lower().upper() == s


def undo(f):
    """Full token with case markers undone; raises Mismatch if a marker is dangling."""
    marked = f.type in ('SplitContainer', 'NonEng', 'OneLineComment', 'MultilineComment', 'StringLiteral')
    if not marked:
        return f.subs, 0
    out = []
    pending = None
    n = 0
    for s in f.subs:
        if s in (CAP, CAPS):
            if pending:
                raise Mismatch('marker %s followed by marker %s in %r' % (pending, s, f))
            pending = s
            n += 1
        elif pending:
            if s in ('<w>', '</w>', '_'):
                raise Mismatch('case marker before %r in %r' % (s, f))
            out.append(s[:1].upper() + s[1:] if pending == CAP else s.upper())
            if out[-1] == s and all(ord(c) < 128 for c in s):   # (e.g. U+2145 is upper case and has no lower case)
                raise Mismatch('marker %s has no effect on %r in %r' % (pending, s, f))
            pending = None
        else:
            out.append(s)
    if pending:
        raise Mismatch('case marker at the end of %r' % f)
    return tuple(out), n


def problem(text, ext, mode, opts, stats=None, reinit=True):
    p = pair(text, ext, mode, opts, {'no_case': True}, reinit)
    if p is None:
        return None
    A, B = p
    try:
        if len(A) != len(B):
            raise Mismatch('no_case: %d full tokens instead of %d' % (len(B), len(A)))
        n = 0
        for a, b in zip(A, B):
            if a.type != b.type:
                raise Mismatch('type of %r is %s without the option' % (b, a.type))
            u, k = undo(b)
            n += k
            if u != a.subs:
                raise Mismatch('%r does not undo to %r' % (b, a))
            inside = b.type in ('OneLineComment', 'MultilineComment', 'StringLiteral')
            word = b.type in ('SplitContainer', 'NonEng') or inside and regex.fullmatch(r'\w+', word_of(a, mode)) is not None
            if word:
                for s in b.subs:
                    if s in (CAP, CAPS, '<w>', '</w>', '<non-en>', '<comment>', '<str-literal>', '<EOL>'):
                        continue
                    if is_upper_restorable(s) or is_upper_restorable(s[0]):
                        raise Mismatch('capital letter kept in %r' % b)
                    if stats:
                        stats('sub-tokens')
        if stats:
            stats('markers', n)
            stats('cap', sum(1 for b in B for s in b.subs if s == CAP))
            stats('caps', sum(1 for b in B for s in b.subs if s == CAPS))
    except Mismatch as e:
        return str(e)
    return None


def case(rng):
    c = rng.random()
    if c < 0.35:
        return gen.any_case(rng)
    if c < 0.5:
        # words around every cased character there is
        ws = []
        for _ in range(rng.randint(2, 12)):
            cp = rng.choice([rng.randint(0x41, 0x24f), rng.randint(0x370, 0x52f), rng.randint(0x1c80, 0x2188), rng.randint(0x2c00, 0x2d2d),
                             rng.randint(0xa640, 0xa7ff), rng.randint(0xfb00, 0xff5a), rng.randint(0x10a0, 0x10ff), rng.randint(0x13a0, 0x13ff), rng.randint(0x10400, 0x10450)])
            ch = chr(cp)
            ws.append(rng.choice(['%s', 'a%s', '%sa', '%sA', 'A%s', '%s%s' % (ch, '%s'), 'x_%s', '%s1', 'Ab%sCd', '%sb']) % ch)
        return 'java', ' '.join(ws), 'unicode-sweep'
    return 'java', gen.text_of(gen.java_program(rng, tricky=True)), 'java-tricky'


def worker(check, i):
    rng = check.rng
    while check.go_on():
        batch = [case(rng) for _ in range(20)]

        def one(c, mode, first):
            ext, text, label = c
            opts = {} if rng.random() < 0.4 else random_opts(rng, mode)
            opts.pop('no_case', None)
            before = check.counters['markers']
            p = problem(text, ext, mode, opts, check.count, first)
            check.evaluated((text, mode, sorted(opts.items())) if check.counters['markers'] > before else None)
            check.count('mode:' + mode)
            if p:
                small = shrink(text, lambda t: problem(t, ext, mode, opts) is not None)
                check.violation('%s [%s, mode %s %r] text %r' % (problem(small, ext, mode, opts) or p, ext, mode, opts, clip(small)),
                                case_of(small, ext, mode=mode, options=opts, original=text))
        in_batches(check, batch, ['basic', 'basicn'], one)
        check.sample({'text': clip(batch[0][1], 120), 'ext': batch[0][0]})


def run(check):
    check.budget(30, 240)
    import codeprep.api.text  # noqa
    check.fork_workers(worker)
    check.require(**{'cap': 500, 'caps': 500, 'mode:basic': 500, 'mode:basicn': 500})
