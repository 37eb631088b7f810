# -*- coding: utf-8 -*-
"""C08: modes agree."""
import gen
from paired import *

RULE = ('a case is one (text, language, options) run in all modes and compared full token by full token; non-trivial if the text has at least '
        '5 full tokens; distinct by text+options')


def problem(text, ext, opts, stats=None):
    res = {}
    for mode in ('nosplit', 'full', 'basic', 'basicn', 'chars', 'bpe'):
        ok, r = run_mode(mode, text, ext, **opts)
        if not ok:
            res[mode] = r
            continue
        try:
            res[mode] = full_tokens(r)
        except BadMetadata as e:
            return 'mode %s: %s' % (mode, e)
    failed = [m for m in res if isinstance(res[m], Raised)]
    if failed:
        if len(failed) == len(res):
            return None
        return 'mode %s: %r' % (failed[0], res[failed[0]])
    for ref, others in (('nosplit', ('basic', 'basicn')), ('full', ('chars', 'bpe'))):
        R = res[ref]
        for mode in others:
            M = res[mode]
            if len(M) != len(R):
                return '%s has %d full tokens, %s %d: %s' % (mode, len(M), ref, len(R), diff_text([word_of(f, mode) for f in M], [word_of(f, ref) for f in R]))
            for a, b in zip(R, M):
                if a.type != b.type and not {a.type, b.type} <= {'NonEng', 'SplitContainer'}:
                    return 'type of %r in %s, %r in %s' % (b, mode, a, ref)
                wa, wb = word_of(a, ref), word_of(b, mode)
                if wa != wb:
                    if opts.get('no_unicode') and wa == '<non-en>' and mode in BPE_MODES:
                        continue
                    return '%r in %s is %r in %s' % (b, mode, a, ref)
                if mode in ('basic', 'basicn') and len(b.subs) > 1 and b.type in NONPROC:
                    return 'unsplittable token is split: %r' % b
                if mode == 'basic' and len(b.subs) > 1 and b.type in ('Number', 'Zero', 'One'):
                    return 'number is split without split_numbers: %r' % b
                if mode == 'chars':
                    plain = a.type in NONPROC or a.type in ('Zero', 'One')
                    if wa in ('<comment>', '<str-literal>', '<EOL>', '<non-en>') and strip_end(b) == [wa]:
                        pass
                    elif plain:
                        if strip_end(b) != [wa]:
                            return 'chars splits %r into %r' % (wa, b)
                    else:
                        if strip_end(b) != list(wa):
                            symbol = a.type in ('OneLineComment', 'MultilineComment') and not regex.fullmatch(r'\w+', wa)
                            if not (symbol and strip_end(b) == [wa]):
                                return 'chars splits %r into %r' % (wa, b)
                    if stats:
                        stats('chars tokens')
        if stats:
            stats('full tokens', len(R))
    # outside strings the two references agree
    a = [f for f in res['nosplit'] if f.type != 'StringLiteral']
    b = [f for f in res['full'] if f.type != 'StringLiteral']
    if a != b:
        return 'full_strings changes other tokens: ' + diff_text(b, a)
    sa = ''.join(word_of(f, 'nosplit') for f in res['nosplit'] if f.type == 'StringLiteral')
    sb = ''.join(word_of(f, 'full') for f in res['full'] if f.type == 'StringLiteral').replace(u'\xa0', '')
    if sa.replace(u'\xa0', '') != sb and not (opts.get('no_unicode') or opts.get('no_spaces')):
        return 'strings: %r unsplit, %r with full strings' % (clip(sa), clip(sb))
    return None


def worker(check, i):
    rng = check.rng
    while check.go_on():
        ext, text, label = gen.any_case(rng)
        opts = {} if rng.random() < 0.4 else random_opts(rng, 'nosplit')
        p = problem(text, ext, opts, check.count)
        check.evaluated((text, sorted(opts.items())) if len(text) > 15 else None, n=6)
        check.count('class:' + label)
        if p:
            small = shrink(text, lambda t: problem(t, ext, opts) is not None)
            check.violation('%s [%s, %r] text %r' % (problem(small, ext, opts) or p, ext, opts, clip(small)),
                            case_of(small, ext, options=opts, original=text))
        check.sample({'text': clip(text, 120), 'ext': ext, 'options': opts})


def run(check):
    check.budget(30, 240)
    import codeprep.api.text  # noqa
    check.fork_workers(worker)
    check.require(**{'full tokens': 5000, 'chars tokens': 2000})
