# -*- coding: utf-8 -*-
"""C26: totality, determinism, statelessness, end-of-file token."""
import json
import os
import subprocess
import sys

from pygments.lexers import get_all_lexers

import gen
from drivers.text_batch import digest, run_call
from textlib import *

RULE = ('an evaluation is one call of the text API that must not raise and whose result (tokens, boundaries, types, non-processable tokens) is compared with that of '
        'the same call after another history (shuffled in the same process, or in a fresh process with another hash seed), or with the call with append_eof; non-trivial '
        'if it returned tokens; distinct by text, language, mode and options')
ASSUMPTIONS = ['the pseudo-language "raw" (Pygments\' dump format, not a programming language) is left out: its Pygments lexer itself raises on ordinary text',
               'texts on which the Pygments lexer of the language itself raises or returns empty tokens for ever (seen with "squid.conf") are left out']

ALIASES = sorted(set(a for _, aliases, _, _ in get_all_lexers() for a in aliases[:2] if a != 'raw'))


def language(rng):
    c = rng.random()
    if c < 0.35:
        return rng.choice(gen.ALL_LANGS)
    if c < 0.8:
        return rng.choice(ALIASES)
    return rng.choice([None, '', 'nosuchlanguage', 'JAVA', 'Java', 'java~', 'txt', '3'])


def a_text(rng):
    c = rng.random()
    ext, text, _ = gen.any_case(rng)
    if c < 0.3:
        return ext, text
    if c < 0.5:
        return language(rng), text
    if c < 0.6:   # raw character soup over all of Unicode, control characters included
        n = rng.randint(0, 60)
        pools = [(0, 0x20), (0x20, 0x7f), (0x80, 0x24f), (0x300, 0x36f), (0x2000, 0x2070), (0x3040, 0x30ff), (0xe000, 0xe010), (0xfe00, 0xffff), (0x1f300, 0x1f650), (0x10fff0, 0x10ffff)]
        out = []
        for _ in range(n):
            lo, hi = rng.choice(pools)
            cp = rng.randint(lo, hi)
            out.append(chr(cp) if not 0xd800 <= cp < 0xe000 else ' ')
        return language(rng), ''.join(out)
    if c < 0.65:
        return language(rng), rng.choice(['', ' ', '\n', '\t', '\n\n\n', '\r', '\r\n', '\x00', '"', "'", '/', '\\', '/*', '"""', '<', '#', '@', '@@', '</t>', '<w>', '</w>', '\u2028', '\xa0', '\ufeff', '_', '0', '0x', '{{', '`'])
    if c < 0.75:   # unfinished constructs
        cut = rng.randint(0, max(0, len(text)))
        return language(rng), text[:cut]
    if c < 0.85:
        return language(rng), gen.mutate(rng, text)
    if c < 0.9:
        return language(rng), text.replace('\n', '\r\n')
    return language(rng), ' '.join(rng.choice(['<w>', '</w>', '</t>', '<Cap>', '<CAPS>', '<non-en>', '<comment>', '<str-literal>', '<EOL>', '<EOF>', '@@', '@', '\\n', 'x', u'ü', '"'])
                                   for _ in range(rng.randint(1, 12)))


def a_call(rng):
    ext, text = a_text(rng)
    mode = rng.choice(MODES)
    opts = random_opts(rng, mode)
    if rng.random() < 0.1:
        opts['max_str_length'] = rng.choice([0, 1, 61, 62, 63, 100, 10 ** 9, sys.maxsize])
    c = {'mode': mode, 'ext': ext, 'text': text, 'opts': opts}
    if mode == 'bpe':
        c['bpe_id'] = rng.choice(['1k', '1k', '5k', '10k'])
    return c


def show(c):
    return {k: (clip(v) if k == 'text' else v) for k, v in c.items()}


def judge_total(check, c, res):
    ok, v = res
    if not ok:
        small = shrink(c['text'], lambda t: not run_call(dict(c, text=t))[0]) if v.type != 'TookTooLong' else c['text']
        check.violation('%r on %r' % (run_call(dict(c, text=small))[1] if small != c['text'] else v, show(dict(c, text=small))), dict(c, text=small, original=c['text']))
        return False
    return True


def eof_problem(c):
    o = dict(c['opts'])
    o.pop('append_eof', None)
    ok1, a = run_call(dict(c, opts=o))
    ok2, b = run_call(dict(c, opts=dict(o, append_eof=True)))
    if not ok1 and not ok2:
        return None
    if not ok2 or not ok1:
        return 'append_eof changes whether the call fails: %r' % (b if not ok2 else a,)
    (ta, ma), (tb, mb) = a, b
    eof = end('<EOF>', c['mode'])
    if list(tb) != list(ta) + [eof]:
        return 'with append_eof the tokens end with %r, without it with %r' % (list(tb)[-3:], list(ta)[-3:])
    if list(mb.word_boundaries) != list(ma.word_boundaries) + [len(tb)]:
        return 'boundaries with append_eof %r, without %r' % (list(mb.word_boundaries)[-3:], list(ma.word_boundaries)[-3:])
    na, nb = [t.__name__ for t in ma.token_types], [t.__name__ for t in mb.token_types]
    if nb[:-1] != na:
        return 'types with append_eof %r' % nb[-4:]
    if set(mb.nonprocessable_tokens) - set(ma.nonprocessable_tokens) - {'<EOF>'}:
        return 'non-processable tokens with append_eof %r' % sorted(mb.nonprocessable_tokens)
    return None


def fresh_process(check, i, calls, hashseed):
    src = os.path.join(check.scratch, 'calls-%d.json' % i)
    dst = src + '.out'
    with open(src, 'w') as f:
        json.dump(calls, f)
    driver = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'text_batch.py')
    envv = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run([sys.executable, driver, src, dst], env=envv, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if p.returncode or not os.path.exists(dst):
        raise RuntimeError('fresh process failed: %r' % p.stdout[-800:])
    with open(dst) as f:
        out = json.load(f)
    os.unlink(src)
    os.unlink(dst)
    return out


def worker(check, i):
    rng = check.rng
    while check.go_on():
        n = rng.randint(25, 60)
        calls = [a_call(rng) for _ in range(n)]
        if rng.random() < 0.6:
            one = rng.choice(['1k', '1k', '5k', '10k'])
            for c in calls:
                if c['mode'] == 'bpe':
                    c['bpe_id'] = one
        for k in range(len(calls)):      # calls which hardly differ from another
            if rng.random() < 0.12:
                c = calls[k]
                if rng.random() < 0.3:
                    c['text'] = gen.headed(rng, c['ext'], c['text'])
                twin = dict(c, text=gen.near(rng, c['text']))
                if rng.random() < 0.25:
                    twin = dict(c, ext=language(rng))
                elif rng.random() < 0.2:
                    twin = dict(c, opts=random_opts(rng, c['mode']))
                calls.insert(k + 1 if rng.random() < 0.6 else rng.randrange(len(calls) + 1), twin)
                check.count('near copies')
        some = len(calls)
        calls = [c for c in calls if c['ext'] in gen.ALL_LANGS or lexable(c['text'], c['ext'])]
        check.count('texts on which the lexer of the language itself fails or does not end', some - len(calls))
        # in order (every bpe call re-reads its data: only 1 in 4 of them kept, they are slow)
        calls = [c for c in calls if c['mode'] not in ('bpe',) or rng.random() < 0.5]
        first = []
        for c in calls:
            if not check.go_on():
                return
            res = run_call(c)
            judge_total(check, c, res)
            d = digest(c['mode'], res)
            first.append(d)
            check.evaluated((c['text'], c['ext'], c['mode'], sorted(c['opts'].items())) if not d.startswith('0:') else None)
            check.count('calls')
            check.count('mode:' + c['mode'])
        # another order, interleaved with calls that use other data, in the same process
        order = list(range(len(calls)))
        rng.shuffle(order)
        if rng.random() < 0.5:
            order.sort(key=lambda k: calls[k]['mode'] == 'chars')  # longer rows of bpe calls that keep their data
        last_id = None
        for k in order:
            if not check.go_on():
                return
            c = dict(calls[k])
            this = c.get('bpe_id') if c['mode'] == 'bpe' else ('chars' if c['mode'] == 'chars' else None)
            if c['mode'] == 'bpe' and last_id == this:
                c['reinit'] = rng.random() < 0.3   # keeping the data is allowed while the id stays the same
                check.count('calls keeping bpe data', 0 if c['reinit'] else 1)
            if this:
                last_id = this
            d = digest(c['mode'], run_call(c))
            check.evaluated()
            check.count('repeated in another order')
            if d != first[k]:
                again = digest(c['mode'], run_call(calls[k]))
                check.violation('result depends on earlier calls: %s at first, %s after other calls, %s again: %r' % (first[k], d, again, show(c)),
                                {'call': calls[k], 'history': [calls[j] for j in order[:order.index(k)]][-8:], 'first': first[k], 'later': d})
        # a fresh process with another hash seed and another order
        rng.shuffle(order)
        out = fresh_process(check, i, [calls[k] for k in order], rng.randint(1, 10 ** 6))
        for k, d in zip(order, out):
            check.evaluated()
            check.count('repeated in a fresh process')
            if d != first[k]:
                check.violation('result differs in another process (other hash seed): %s here, %s there: %r' % (first[k], d, show(calls[k])),
                                {'call': calls[k], 'here': first[k], 'there': d})
        # end-of-file token
        for c in rng.sample(calls, min(12, len(calls))):
            if not check.go_on():
                return
            p = eof_problem(c)
            check.evaluated()
            check.count('end-of-file pairs')
            if p:
                check.violation('%s: %r' % (p, show(c)), {'call': c})
        check.sample(show(calls[0]))
        if rng.random() < 0.25:
            big(check, rng)


def big(check, rng):
    """Large inputs: very long words, lines and texts."""
    kind = rng.choice(['word', 'camel', 'text', 'string', 'line', 'nested'])
    if kind == 'word':
        text = rng.choice(['a', 'Ab', 'x_', u'ü', '1', 'AB', '@']) * rng.randint(1500, 4000)
    elif kind == 'camel':
        text = ''.join(gen.identifier(rng) for _ in range(400))
    elif kind == 'text':
        text = '\n'.join(gen.any_case(rng)[1] for _ in range(60))
    elif kind == 'string':
        text = 'x = "' + 'lorem ipsum ' * rng.randint(100, 600) + '"'
    elif kind == 'line':
        text = ' '.join('a%d' % k for k in range(3000))
    else:
        text = '{' * 1500 + '(' * 1500
    mode = rng.choice(MODES)
    c = {'mode': mode, 'ext': rng.choice(['java', 'py', 'c', 'js']), 'text': text, 'opts': random_opts(rng, mode)}
    res = run_call(c)
    check.evaluated((text[:50], len(text), mode))
    check.count('large texts')
    if not res[0]:
        check.violation('%r on a large text (%s, %d characters) %r' % (res[1], kind, len(text), show(c)), c)


def all_languages(check, i):
    """Every lexer there is, at least once per worker share, in a mode that touches every token."""
    rng = check.rng
    for k, a in enumerate(ALIASES):
        if k % 8 != i:
            continue
        if not check.go_on():
            return
        for _ in range(check.size(1, 6)):
            c = dict(a_call(rng), ext=a)
            if rng.random() < 0.5:
                c.update(mode=rng.choice(['basic', 'basicn']), opts={'no_case': True})
            if not lexable(c['text'], a):
                continue
            judge_total(check, c, run_call(c))
            check.evaluated((c['text'], a, c['mode']))
            check.count('calls')
        check.count('languages')


def run(check):
    check.budget(40, 400)
    import codeprep.api.text  # noqa

    def work(check, i):
        all_languages(check, i)
        worker(check, i)
    check.fork_workers(work)
    check.require(**{'languages': 300, 'repeated in another order': 500, 'repeated in a fresh process': 500, 'end-of-file pairs': 100, 'near copies': 40, 'mode:bpe': 100, 'mode:chars': 100})
