# -*- coding: utf-8 -*-
"""C28: whole-text BPE, replayed merge by merge."""
import os
from collections import Counter

import gen
from env import call
from textlib import clip, shrink

RULE = ('a case is one text whose reported merges were replayed one after another with a full recount of the symbol pairs; non-trivial if at least '
        '3 merges were reported; distinct by text and requested number of merges')


def pieces(s, a, b):
    out, i, made = [], 0, 0
    while i < len(s):
        if i + 1 < len(s) and s[i] == a and s[i + 1] == b:
            out.append(a + b)
            i += 2
            made += 1
        else:
            out.append(s[i])
            i += 1
    return out, made


def problem(chars, reported, n):
    """chars: the symbols the text starts with; reported: iterable of merges."""
    s = list(chars)
    done = 0
    counts = Counter(zip(s, s[1:]))
    for r in reported:
        m, occ = r[0], r[1]
        parts = m.split(' ')
        if len(parts) != 2 or not parts[0] or not parts[1]:
            return 'merge %d is %r' % (done, m), done
        a, b = parts
        c = counts.get((a, b), 0)
        if not c:
            return 'merge %d: %r does not occur in the text as merged so far' % (done, m), done
        mx = max(counts.values())
        if c != mx:
            return 'merge %d: %r occurs %d times, but %r %d times' % (done, m, c, max(counts, key=counts.get), mx), done
        s, made = pieces(s, a, b)
        if made != occ:
            return 'merge %d: %r is reported with %r replacements, there are %d' % (done, m, occ, made), done
        done += 1
        if done > n:
            return 'more than the requested %d merges' % n, done
        counts = Counter(zip(s, s[1:]))
    if done < n and len(s) > 1:
        return 'ends after %d merges although %d symbols are left' % (done, len(s)), done
    return None, done


def text_of(rng):
    kind = rng.random()
    if kind < 0.45:
        alpha = rng.choice(['a', 'ab', 'ab', 'abc', 'aab', 'aaab', 'abcd', u'aü日', 'a\n', '01', '@a', '()', '.*a', '\\n'])
        return ''.join(rng.choice(alpha) for _ in range(rng.randint(0, rng.choice([3, 6, 12, 25, 60]))))
    if kind < 0.65:
        unit = ''.join(rng.choice('abc') for _ in range(rng.randint(1, 5)))
        t = unit * rng.randint(1, 12)
        if rng.random() < 0.5:
            k = rng.randrange(len(t))
            t = t[:k] + rng.choice('abcx') + t[k:]
        return t
    if kind < 0.75:
        t = ''
        for _ in range(rng.randint(1, 6)):      # runs of equal symbols of different lengths
            t += rng.choice('ab') * rng.randint(1, 17)
        return t
    if kind < 0.9:
        return '|'.join(gen.identifier(rng) for _ in range(rng.randint(1, 15)))
    return gen.any_case(rng)[1].replace(' ', u'\xa0')[:rng.choice([50, 200, 400])]


def one(check, text, n):
    from codeprep.bpepkg import wild_bpe

    def go():
        return problem(text, wild_bpe.run_from_text(text, n), n) if n is not None else problem(text, wild_bpe.run_from_text(text), 10 ** 9)
    ok, r = call(go)
    if not ok:
        return 'raises %r' % r, 0
    return r


def worker(check, i):
    rng = check.rng
    from codeprep.bpepkg import wild_bpe
    path = os.path.join(check.scratch, 'tmp', 'w%d' % i)
    os.makedirs(path, exist_ok=True)
    rounds = 0
    while check.go_on():
        rounds += 1
        text = text_of(rng)
        n = rng.choice([None, None, None, 0, 1, 2, 5, 20, len(text)])
        p, done = one(check, text, n)
        check.evaluated((text, n) if done >= 3 else None)
        check.count('merges', done)
        if any(a == b for a, b in zip(text, text[1:])):
            check.count('texts with repeats')
        if p:
            small = shrink(text, lambda t: one(check, t, n)[0] is not None)
            check.violation('%s; text %r, %r merges' % (one(check, small, n)[0] or p, clip(small), n), {'text': small, 'n_merges': n, 'original': text})
        check.sample({'text': clip(text, 80), 'merges': done})
        if rounds % 10 == 0:
            # the same through files: decoding, spaces, several files
            d = os.path.join(path, str(rounds))
            os.makedirs(d)
            names = ['a.py', 'b.py', 'c.txt'][:rng.randint(1, 3)]
            sub = text_of(rng) + ' ' + text_of(rng)
            enc = rng.choice(['utf-8', 'utf-8', 'latin'])
            if enc == 'latin':
                pad = rng.choice([0, 0, 10, 9000]) * 'q' if rng.random() < 0.2 else ''
                data = (pad + ''.join(c for c in sub if ord(c) < 128)).encode() + b'\xe9\xfc'
                chars = data.decode('latin-1')
            else:
                data = sub.encode('utf-8')
                chars = sub
            f = os.path.join(d, names[0])
            with open(f, 'wb') as o:
                o.write(data)
            chars = chars.replace('\r\n', '\n').replace('\r', '\n').replace(' ', u'\xa0')
            k = 12
            ok, r = call(lambda: problem(chars, wild_bpe.run_from_file(f, k), k))
            check.evaluated((chars, 'file'))
            check.count('files')
            if ok and r[0] or not ok:
                check.violation('from a %s file: %s; %r' % (enc, r[0] if ok else r, clip(chars)), {'data': repr(data)})
            # directory: only .py files count, each followed by three newlines
            texts = {f: chars}
            for nm in names[1:] + [x for x in ('sub/d.py', 'sub/.h.py', 'sub/deep er/e.py', 'x.py/y.txt', 'x.py/z.py', 'f.PY', '.py', 'g.pyc', u'\xfc.py', 'py') if rng.random() < 0.25]:
                g = os.path.join(d, nm)
                os.makedirs(os.path.dirname(g), exist_ok=True)
                t = rng.choice(['', 'only ' + nm, text_of(rng).replace('\r', '')[:40]])
                raw = t.encode('utf-8')
                if rng.random() < 0.3:
                    raw = rng.choice([b'', raw]) + b'caf\xe9 ' + raw[:10]
                    t = raw.decode('latin-1')
                try:
                    t = raw.decode('utf-8')
                except UnicodeDecodeError:
                    t = raw.decode('latin-1')
                with open(g, 'wb') as o:
                    o.write(raw)
                texts[g] = t.replace(' ', u'\xa0').replace('\r\n', '\n').replace('\r', '\n')
            total = ''
            for root, _, fs in os.walk(d):
                for nm in fs:
                    if nm[-3:] == '.py':
                        total += texts[os.path.join(root, nm)] + '\n\n\n'
                        check.count('files of directories')
            ok, r = call(lambda: problem(total, wild_bpe.run_from_dir(d, k), k))
            check.evaluated((total, 'dir'))
            check.count('directories')
            if ok and r[0] or not ok:
                check.violation('from a directory: %s; %r' % (r[0] if ok else r, clip(total)), {'text': total})


def run(check):
    check.budget(20, 150)
    import codeprep.bpepkg.wild_bpe as w
    if hasattr(w, 'getsize'):
        w.getsize = lambda o: 0        # sys.getsizeof does not exist on PyPy; only feeds debug log lines
    check.fork_workers(worker)
    check.require(merges=10000, files=100, directories=100, **{'texts with repeats': 1000})
