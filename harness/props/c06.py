# -*- coding: utf-8 -*-
"""C06: non-ASCII words."""
import gen
from paired import *

RULE = ('a case is one (text, language, mode, other options) run with and without no_unicode and compared token by token; non-trivial if a word '
        'with a non-ASCII letter is present; distinct by text+mode+options')

PH = u'\xf7'


def ascii_only(s):
    return all(ord(c) < 128 for c in s)


def replaced(w, keep=''):
    out = []
    run = False
    for c in w:
        if ord(c) < 128 or c in keep:
            if run:
                out.append(PH)
            run = False
            out.append(c)
        else:
            run = True
    if run:
        out.append(PH)
    return ''.join(out)


def problem(text, ext, mode, opts, stats=None, reinit=True):
    p = pair(text, ext, mode, opts, {'no_unicode': True}, reinit)
    if p is None:
        return None
    A, B = p
    if len(A) != len(B):
        return 'no_unicode: %d full tokens instead of %d: %s' % (len(B), len(A), diff_text([word_of(f, mode) for f in B], [word_of(f, mode) for f in A]))
    n = 0
    for i, (a, b) in enumerate(zip(A, B)):
        wa, wb = word_of(a, mode), word_of(b, mode)
        if opts.get('no_case'):
            wa = wa.replace('<CAPS>', '').replace('<Cap>', '')
        inside = a.type in ('OneLineComment', 'MultilineComment', 'StringLiteral')
        whole_string = a.type == 'StringLiteral' and (mode in BPE_MODES or mode == 'full')
        is_word = a.type in ('SplitContainer', 'NonEng') or (inside and not whole_string and regex.fullmatch(r'\w+', wa) is not None)
        if whole_string and not ascii_only(wa) and wa not in ('<str-literal>',):
            want = replaced(wa, keep=u'\xa0')
            if wb != want:
                return 'string %r becomes %r, expected %r' % (wa, wb, want)
            if b.type != 'StringLiteral':
                return 'type of %r is %s' % (wb, b.type)
            if want != wa:
                n += 1
        elif is_word and not ascii_only(wa):
            n += 1
            if mode in BPE_MODES:
                if wb != replaced(wa):
                    return 'word %r becomes %r, expected %r' % (wa, wb, replaced(wa))
            else:
                if b.subs != ('<non-en>',):
                    return 'word %r becomes %r' % (wa, b)
            if inside and b.type != a.type or not inside and b.type not in ('NonEng', 'SplitContainer'):
                return 'type of %r is %s, without the option %s' % (b, b.type, a.type)
        else:
            if a != b:
                return 'token without non-ASCII letters changed: %r became %r' % (a, b)
    if stats:
        stats('replaced', n)
    # no non-ASCII letter is left in words and strings
    for b in B:
        if b.type in OPERATORS or b.type in ('KeyWord', 'Number'):     # not words
            continue
        w = word_of(b, mode)
        for c in w:
            if ord(c) >= 128 and c not in (PH, u'\xa0') and regex.match(r'\w', c) and (len(w) > 1 or b.type != 'NonCodeChar'):
                return 'non-ASCII letter left in %r' % b
    return None


NASTY = [u'Ünïcödé', u'aÜb', u'\u212aelvin', u'größe_2', u'переменная1', u'HTTPÜrl', u'x\u0301y', u'变量', u'a变b量c', u'ÄÖÜ', u'_ü_', u'ß', u'ÜberHTTP', u'é1é', u'İstanbul', u'I\u0307', u'ﬁnd',
         u'ａｂｃ', u'१२', u'٣x', u'ªº', u'naïveCamelCase', u'\u017f', u'µ', u'A\u030a', u'Ⅷ']


def case(rng):
    c = rng.random()
    if c < 0.35:
        return gen.any_case(rng)
    pieces = gen.java_program(rng, n=rng.choice([0, 2, 6, 12]), tricky=True)
    for _ in range(rng.randint(1, 5)):
        w = rng.choice(NASTY) if rng.random() < 0.6 else gen.identifier(rng, tricky=True)
        if rng.random() < 0.08:                 # the first non-ASCII letter comes late, or the last one early
            filler = rng.choice([u'abc', u'x', u'longName', u'A', u'a_', u'val1']) * rng.choice([3, 12, 40, 90])
            w = rng.choice([filler + w, w + filler, filler + w + filler])
        piece = rng.choice([('id', w), ('id', w), ('str', '"%s"' % w), ('str', '"a %s  %s"' % (w, rng.choice(NASTY))), ('lcom', '// %s\n' % w),
                            ('bcom', '/* %s %s*/' % (w, rng.choice(NASTY))), ('str', u'"\u2192 %s"' % w), ('id', u'\u2192'), ('bcom', u'/*\xf7 \u2192*/')])
        k = rng.randint(0, len(pieces))
        pieces[k:k] = [('ws', ' '), piece, ('ws', ' ')]
    text = gen.text_of(pieces)
    if rng.random() < 0.25:
        lang = rng.choice(gen.ALL_LANGS)
        return lang, gen.language_text(rng, lang, tricky=True) + ' ' + rng.choice(NASTY), 'lang-unicode'
    return 'java', text, 'java-unicode'


def worker(check, i):
    rng = check.rng
    while check.go_on():
        batch = [case(rng) for _ in range(20)]

        def one(c, mode, first):
            ext, text, label = c
            opts = {} if rng.random() < 0.4 else random_opts(rng, mode)
            opts.pop('no_unicode', None)
            p = problem(text, ext, mode, opts, check.count, first)
            check.evaluated((text, mode, sorted(opts.items())) if not ascii_only(text) else None)
            check.count('mode:' + mode)
            if p:
                small = shrink(text, lambda t: problem(t, ext, mode, opts) is not None)
                check.violation('%s [%s, mode %s %r] text %r' % (problem(small, ext, mode, opts) or p, ext, mode, opts, clip(small)),
                                case_of(small, ext, mode=mode, options=opts, original=text))
        in_batches(check, batch, MODES, one)
        check.sample({'text': clip(batch[0][1], 120), 'ext': batch[0][0]})


def run(check):
    check.budget(30, 240)
    import codeprep.api.text  # noqa
    check.fork_workers(worker)
    check.require(**{'mode:' + m: 60 for m in MODES})
    check.require(**{'replaced': 1000})
