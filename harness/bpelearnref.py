"""Shadow of BPE learning: recounts every pair from scratch after every merge."""
from collections import Counter

from bperef import apply_merges


def recount(split_vocab):
    c = Counter()
    for syms, freq in split_vocab:
        for i in range(len(syms) - 1):
            c[(syms[i], syms[i + 1])] += freq
    return c


def merge_once(split_vocab, pair):
    rank = {pair: 0}
    return [(_merge(syms, pair), f) for syms, f in split_vocab]


def _merge(syms, pair):
    out = []
    i = 0
    while i < len(syms):
        if i + 1 < len(syms) and syms[i] == pair[0] and syms[i + 1] == pair[1]:
            out.append(syms[i] + syms[i + 1])
            i += 2
        else:
            out.append(syms[i])
            i += 1
    return out


def check_learning(start, merges, n_requested, final=None, freq_of=lambda m: m.freq, pair_of=lambda m: m.pair):
    """start: list of (symbols, freq).  Returns a problem or None."""
    sv = [(list(s), f) for s, f in start]
    done = 0
    for k, m in enumerate(merges):
        counts = recount(sv)
        pair = tuple(pair_of(m))
        best = max(counts.values()) if counts else 0
        if counts.get(pair, 0) == 0:
            return 'merge %d %r is not a pair of the vocabulary' % (k, pair)
        if counts[pair] != best:
            top = [p for p, c in counts.items() if c == best][:3]
            return 'merge %d %r occurs %d times, %r %d times' % (k, pair, counts[pair], top, best)
        f = freq_of(m)
        if f is not None and f != counts[pair]:
            return 'merge %d %r is recorded with frequency %r, it occurs %d times' % (k, pair, f, counts[pair])
        sv = merge_once(sv, pair)
        done += 1
    if done > n_requested:
        return '%d merges instead of %d' % (done, n_requested)
    left = recount(sv)
    if done < n_requested and left:
        return 'stopped after %d of %d merges although pairs are left: %r' % (done, n_requested, list(left.items())[:3])
    if final is not None:
        want = {}
        for s, f in sv:
            want[' '.join(s)] = f
        if dict(final) != want:
            diff = sorted(set(final.items()) ^ set(want.items()))[:4]
            return 'resulting vocabulary differs: %r' % (diff,)
    return None
