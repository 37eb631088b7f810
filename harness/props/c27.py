# -*- coding: utf-8 -*-
"""C27: token iterators partition the sub-tokens."""
import gen
from env import call
from textlib import run_mode, MODES, clip

RULE = ('a case is one (sub-tokens, boundaries, format, index flag) iterated and compared with the slices of the boundaries, or one inconsistent '
        'input offered for refusal; non-trivial if there are at least two full tokens; distinct by sub-tokens and boundaries')


def expected_full(subs, wb, fmt, index):
    res = []
    for i in range(len(wb) - 1):
        v = fmt(subs[wb[i]:wb[i + 1]])
        res.append((i, v) if index else v)
    return res


def expected_sub(subs, wb, fmt, index):
    res = []
    for i in range(len(wb) - 1):
        for j in range(wb[i], wb[i + 1]):
            v = fmt([subs[j]])
            res.append((i, v) if index else v)
    return res


def drain(cls, subs, wb, **kw):
    it = cls(subs, wb, **kw)
    out = []
    for _ in range(len(subs) + len(wb) + 10):
        try:
            out.append(next(it))
        except StopIteration:
            break
    else:
        return out, 'does not stop'
    try:
        next(it)
        return out, 'yields again after its end'
    except StopIteration:
        pass
    again = list(cls(subs, wb, **kw))
    if again != out:
        return out, 'iterating twice differs: %r, %r' % (out, again)
    return out, None


def check_iterators(check, subs, wb, label):
    from codeprep.subtokens import FullTokenIterator, SubtokenIterator
    before = (list(subs), list(wb))
    strings = all(isinstance(s, str) for s in subs)
    fulls = [('default', {}, ''.join)] if strings else []
    fulls += [('len', {'format': len}, len), ('list', {'format': list}, list), ('tuple', {'format': tuple}, tuple)]
    subf = [('default', {}, lambda l: l[0]), ('tuple', {'format': tuple}, tuple), ('list', {'format': list}, list)]
    for cls, variants, exp in ((FullTokenIterator, fulls, expected_full), (SubtokenIterator, subf, expected_sub)):
        for name, kw, fmt in variants:
            for index in (False, True):
                k = dict(kw, return_full_token_index=True) if index else kw
                ok, r = call(drain, cls, subs, wb, **k)
                want = exp(subs, wb, fmt, index)
                check.evaluated((before, ) if len(wb) > 2 else None)
                check.count('tokens iterated', len(want))
                check.count('source:' + label)
                if not ok:
                    p = 'raises %r' % r
                elif r[1]:
                    p = r[1]
                elif r[0] != want:
                    p = 'gives %r instead of %r' % (clip(repr(r[0])), clip(repr(want)))
                elif (list(subs), list(wb)) != before:
                    p = 'changed its arguments'
                else:
                    continue
                check.violation('%s (%s, index %s) over %r %r %s' % (cls.__name__, name, index, subs[:30], wb[:30], p),
                                {'subs': before[0], 'boundaries': before[1]})
                return False
    return True


def check_refused(check, rng, subs, wb):
    from codeprep.subtokens import FullTokenIterator, SubtokenIterator
    bad = rng.choice(['empty', 'late start', 'short', 'long', 'missing sub-token', 'extra sub-token', 'only late'])
    s, w = list(subs), list(wb)
    if bad == 'empty':
        w = []
    elif bad == 'late start':
        w = [rng.randint(1, 3)] + [x + 3 for x in w[1:]]
        s = s + ['x'] * (w[-1] - len(s))
    elif bad == 'short':
        if len(w) < 2:
            return
        w = w[:-1]
    elif bad == 'long':
        w = w + [w[-1] + rng.randint(1, 5)]
    elif bad == 'missing sub-token':
        if not s:
            return
        s = s[:-1]
    elif bad == 'extra sub-token':
        s = s + ['x'] * rng.randint(1, 4)
    else:
        w = [len(s)]
        if not s:
            return
    for cls in (FullTokenIterator, SubtokenIterator):
        ok, r = call(lambda: cls(s, w))
        check.evaluated((s, w))
        check.count('refusals tried')
        if ok:
            check.violation('%s accepts %d sub-tokens with boundaries %r (%s)' % (cls.__name__, len(s), w[:20], bad), {'subs': s, 'boundaries': w})


def check_update(check, rng, parts):
    """Concatenating metadata of consecutive parts gives the metadata of the concatenation."""
    from codeprep.preprocess.metadata import PreprocessingMetadata
    types = [type('T%d' % i, (), {}) for i in range(4)]
    total = PreprocessingMetadata()
    want_n, want_wb, want_t = set(), [0], []
    for wb in parts:
        tt = [rng.choice(types) for _ in wb[1:]]
        np = set(rng.sample(['a', 'b', '\n', u'ü', 'if', '<comment>'], rng.randint(0, 3)))
        total.update(PreprocessingMetadata(set(np), list(wb), list(tt)))
        want_n |= np
        off = want_wb[-1]
        want_wb += [off + x for x in wb[1:]]
        want_t += tt
    check.evaluated(tuple(map(tuple, parts)) if len(parts) > 1 else None)
    check.count('metadata joined', len(parts))
    got = (set(total.nonprocessable_tokens), list(total.word_boundaries), list(total.token_types))
    if got != (want_n, want_wb, want_t):
        check.violation('metadata of parts %r join to %r, expected %r' % (parts, got, (want_n, want_wb, want_t)), {'parts': parts})


def random_boundaries(rng, n_words, one_share):
    wb = [0]
    for _ in range(n_words):
        wb.append(wb[-1] + (1 if rng.random() < one_share else rng.randint(1, 9)))
    return wb


def worker(check, i):
    rng = check.rng
    while check.go_on():
        for _ in range(60):
            wb = random_boundaries(rng, rng.choice([0, 1, 1, 2, 3, 5, 10, 40]), rng.random())
            kind = rng.random()
            if kind < 0.6:
                subs = [rng.choice(['a', 'bc', '', u'ü', '</t>', 'x</t>', '<w>', '</w>', ' ', '@', '\n', 'dup', 'dup']) for _ in range(wb[-1])]
            elif kind < 0.8:
                subs = [rng.randint(-5, 5) for _ in range(wb[-1])]
            else:
                subs = ['s%d' % k for k in range(wb[-1])]
            if not check_iterators(check, subs, wb, 'random'):
                return
            check_refused(check, rng, subs, wb)
            check_update(check, rng, [random_boundaries(rng, rng.randint(0, 5), rng.random()) for _ in range(rng.randint(0, 6))])
            check.sample({'subs': [str(s) for s in subs[:8]], 'boundaries': wb[:8]})
        mode = rng.choice(MODES)
        for k in range(6):
            ext, text, label = gen.any_case(rng)
            ok, r = run_mode(mode, text, ext, reinit=(k == 0))
            if not ok:
                continue
            toks, md = r
            wb = list(md.word_boundaries)
            if wb[-1] != len(toks) or any(b <= a for a, b in zip(wb, wb[1:])):
                continue        # (metadata is judged by C02)
            if not check_iterators(check, toks, wb, 'real'):
                return
            from codeprep.preprocess.metadata import check_metadata_validity
            if mode in ('bpe', 'chars'):
                ok, e = call(check_metadata_validity, toks, md)
                # a literal "</t>" of the source may look like a marker: only judged when the marker is where the metadata says
                ends = {j + 1 for j, t in enumerate(toks) if t.endswith('</t>')}
                check.count('validity checks')
                if ends == set(wb[1:]) and len(wb) > 3:
                    # move one boundary: must be noticed
                    from codeprep.preprocess.metadata import PreprocessingMetadata
                    k = rng.randrange(1, len(wb) - 1)
                    shifted = wb[:k] + [wb[k] + rng.choice([-1, 1])] + wb[k + 1:]
                    if all(b > a for a, b in zip(shifted, shifted[1:])):
                        bad, e2 = call(check_metadata_validity, toks, PreprocessingMetadata(set(), shifted, list(md.token_types)))
                        check.count('wrong metadata offered')
                        if bad:
                            check.violation('metadata validity check accepts a moved boundary for %s output of %r' % (mode, clip(text)), {'text': text, 'ext': ext})
                if ok != (ends == set(wb[1:])):
                    check.violation('metadata validity check %s for %s output of %r' % ('accepts inconsistent' if ok else 'refuses (%r) consistent' % e, mode, clip(text)),
                                    {'text': text, 'ext': ext})


def run(check):
    check.budget(20, 90)
    import codeprep.api.text  # noqa
    check.fork_workers(worker)
    check.require(**{'tokens iterated': 10000, 'refusals tried': 1000, 'source:real': 500, 'validity checks': 20, 'metadata joined': 500})
