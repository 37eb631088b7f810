# -*- coding: utf-8 -*-
"""Reference BPE: a direct reading of the definition, independent of the code under test."""
import codecs


def unliteral(line):
    return codecs.decode(line, 'unicode-escape')


def read_merges_file(path, n=None):
    """[(left, right)] in rank order."""
    out = []
    with open(path, encoding='utf-8') as f:
        for line in f.read().split('\n'):
            if not line:
                continue
            if n is not None and len(out) >= n:
                break
            parts = unliteral(line).split(' ')
            out.append((parts[0], parts[1]))
    return out


def symbols(word):
    """Initial symbols of a word: its characters ('@' is written '@@') and the end-of-word mark '@'."""
    return ['@@' if c == '@' else c for c in word] + ['@']


def apply_merges(syms, rank):
    syms = list(syms)
    while True:
        best = None
        for i in range(len(syms) - 1):
            r = rank.get((syms[i], syms[i + 1]))
            if r is not None and (best is None or r < best):
                best = r
        if best is None:
            return syms
        out = []
        i = 0
        while i < len(syms):
            if i + 1 < len(syms) and rank.get((syms[i], syms[i + 1])) == best:
                out.append(syms[i] + syms[i + 1])
                i += 2
            else:
                out.append(syms[i])
                i += 1
        syms = out


def encode(word, rank):
    """Sub-tokens of a word as returned to users (the last one may be empty: the end mark stands alone)."""
    syms = apply_merges(symbols(word), rank)
    syms[-1] = syms[-1][:-1]
    return [s.replace('@@', '@') for s in syms]


def ranks(pairs):
    r = {}
    for i, p in enumerate(pairs):
        r.setdefault(p, i)
    return r
