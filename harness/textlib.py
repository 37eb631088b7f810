# -*- coding: utf-8 -*-
"""Observation of the text API: runs modes, groups sub-tokens into full tokens by the returned metadata, and gives the
lexical ground truth (an independent Pygments pass) the monitors judge against."""
import itertools
import signal
import sys
import time

import regex
from pygments import lex
from pygments.lexers import get_lexer_by_name, guess_lexer
from pygments.token import Token
from pygments.util import ClassNotFound

from env import call, Raised

OPERATORS = {'Operator', 'Semicolon', 'OpeningCurlyBracket', 'ClosingCurlyBracket', 'OpeningBracket', 'ClosingBracket'}
NONPROC = OPERATORS | {'KeyWord', 'NonCodeChar', 'SpecialToken', 'NewLine', 'Tab'}
TEND = '</t>'

# number syntax inside comments and strings, written from the documentation (decimal, hex, binary integers with suffix)
NUM = regex.compile(r'0x(?:[0-9a-fA-F]+_)*[0-9a-fA-F]+[lL]?|0b(?:[01]+_)*[01]+[lL]?|(?:[0-9]+_)*[0-9]+[lLfFdD]?|[0-9]+[eE][0-9]+[fFdD]?')


def is_num_word(w):
    return NUM.fullmatch(w) is not None


# ------------------------------------------------------------------------------------------------ modes

def _api():
    from codeprep.api import text as api
    return api


MODES = ['nosplit', 'full', 'basic', 'basicn', 'chars', 'bpe']
BPE_MODES = ('chars', 'bpe')


class TookTooLong(Exception):
    pass


LIMIT = 100     # seconds of processor time which no call needs


def _too_long(*_):
    raise TookTooLong('not finished after %d seconds of processor time' % LIMIT)


def run_mode(mode, text, ext, bpe_id='1k', reinit=True, **opts):
    """(True, (tokens, metadata)) or (False, Raised)"""
    old = signal.signal(signal.SIGVTALRM, _too_long)
    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)
    try:
        return _run_mode(mode, text, ext, bpe_id, reinit, **opts)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def lexable(text, ext):
    """Whether the lexer itself comes to an end on this text (some of Pygments do not: they return empty tokens for ever)."""
    try:
        n = sum(1 for _ in itertools.islice(lex(text, lexer_for(text, ext)), 20 * len(text) + 5000))
    except Exception:
        return False
    return n < 20 * len(text) + 5000


def _run_mode(mode, text, ext, bpe_id='1k', reinit=True, **opts):
    api = _api()
    opts = dict(opts, return_metadata=True)
    if mode == 'nosplit':
        return call(api.nosplit, text, ext, **opts)
    if mode == 'full':
        return call(api.nosplit, text, ext, full_strings=True, **opts)
    if mode == 'basic':
        return call(api.basic, text, ext, **opts)
    if mode == 'basicn':
        return call(api.basic, text, ext, split_numbers=True, **opts)
    if mode == 'chars':
        return call(api.chars, text, ext, **opts)
    if mode == 'bpe':
        return call(api.bpe, text, bpe_id, ext, force_reinit_bpe_data=reinit, **opts)
    raise AssertionError(mode)


class BadMetadata(Exception):
    pass


class FT(object):
    """A full token: its sub-tokens exactly as returned, and the name of its type."""
    __slots__ = ('subs', 'type')

    def __init__(self, subs, type):
        self.subs = tuple(subs)
        self.type = type

    def __eq__(self, other):
        return self.subs == other.subs and self.type == other.type

    def __hash__(self):
        return hash((self.subs, self.type))

    def __repr__(self):
        return '%s%r' % (self.type, list(self.subs))


def full_tokens(result):
    tokens, md = result
    wb, tt = list(md.word_boundaries), list(md.token_types)
    if not wb or wb[0] != 0 or wb[-1] != len(tokens) or len(tt) != len(wb) - 1 or any(b <= a for a, b in zip(wb, wb[1:])):
        raise BadMetadata('word boundaries %r, %d types, %d tokens' % (wb[:50], len(tt), len(tokens)))
    return [FT(tokens[a:b], t.__name__) for a, b, t in zip(wb, wb[1:], tt)]


def word_of(ft, mode):
    """The text of a full token without marker tokens."""
    subs = ft.subs
    if mode in BPE_MODES:
        s = ''.join(subs)
        return s[:-len(TEND)] if s.endswith(TEND) else s
    if len(subs) > 1 and ft.type not in OPERATORS and subs[0] == '<w>' and subs[-1] == '</w>':
        subs = subs[1:-1]
    if ft.type in NONPROC:
        return ''.join(subs)
    return ''.join(subs)


def strip_end(ft):
    """Sub-tokens of a bpe/chars full token without the token-end marker (an end marker standing alone disappears)."""
    subs = list(ft.subs)
    if subs and subs[-1].endswith(TEND):
        subs[-1] = subs[-1][:-len(TEND)]
        if not subs[-1]:
            subs.pop()
    return subs


# ------------------------------------------------------------------------------------------------ ground truth

class PTok(object):
    __slots__ = ('ttype', 'value', 'kind')

    def __init__(self, ttype, value):
        self.ttype = ttype
        self.value = value
        self.kind = kind_of(ttype, value)

    def __repr__(self):
        return '%s:%r' % (self.kind, self.value)


def kind_of(ttype, value):
    if value == '\n':
        return 'nl'
    if value == '\t':
        return 'ws'
    if value == '' or value.strip() == '' and ttype not in Token.Literal.String:
        return 'ws'
    if ttype is Token.Operator or ttype in Token.Punctuation:
        return 'op'
    if ttype in Token.Literal.Number:
        return 'num'
    if ttype in Token.Literal.String:
        return 'str'
    if ttype is Token.Comment.Single:
        return 'olc'
    if ttype in Token.Comment:
        return 'mlc'
    if ttype in Token.Keyword:
        return 'kw'
    return 'word'


def lexer_for(text, ext):
    try:
        return get_lexer_by_name(ext or 'java')
    except ClassNotFound:
        return guess_lexer(text)


def ground_truth(text, ext):
    return [PTok(t, v) for t, v in lex(text, lexer_for(text, ext))]


def nows(s):
    """Content of a text: everything that is not whitespace."""
    return ''.join([c for c in s if not c.isspace()])   # (str.split() of PyPy has a different notion of whitespace)


def letters_allowed_lower(ptoks):
    """Content string of the ground truth together with a parallel mask: True where the letter may be lower-cased
    (letters of numeric literals; number-like words inside comments and strings)."""
    out, mask = [], []
    for p in ptoks:
        v = p.value
        if p.kind == 'num':
            m = [True] * len(v)
        elif p.kind in ('op', 'kw') and not any(c.isspace() for c in v):
            m = [False] * len(v)
        else:
            m = [False] * len(v)
            for w in regex.finditer(r'\w+', v):
                if is_num_word(w.group()):
                    for k in range(w.start(), w.end()):
                        m[k] = True
        for c, b in zip(v, m):
            if not c.isspace():
                out.append(c)
                mask.append(b)
    return ''.join(out), mask


def same_content(actual, expected, mask):
    """None if equal up to permitted lowering, otherwise the index of the first difference."""
    if actual == expected:
        return None
    i = 0
    lowered = []
    for c, b in zip(expected, mask):
        lowered.append(c.lower() if b else c)
    low = ''.join(lowered)
    if actual == low:
        return None
    # a mixture (only some numbers lowered) is fine as well
    if len(actual) == len(expected):
        for i, (a, e, b) in enumerate(zip(actual, expected, mask)):
            if a != e and not (b and a == e.lower()):
                return i
        return None
    for i, (a, e, b) in enumerate(zip(actual, expected, mask)):
        if a != e and not (b and a == e.lower()):
            return i
    return min(len(actual), len(expected))


def content_of(fts, mode):
    """Non-whitespace content spelled by the full tokens (end-of-line-comment markers are not content)."""
    out = []
    for f in fts:
        w = word_of(f, mode)
        if w == '<EOL>' and f.type == 'OneLineComment':
            continue
        out.append(w)
    return nows(''.join(out))


def clip(text, n=300):
    return text if len(text) <= n else text[:n] + '...'


def case_of(text, ext, **more):
    return dict({'text': text, 'extension': ext}, **more)


def shrink(text, fails, max_calls=120):
    """Small greedy reduction of a failing text (only used to make replays readable)."""
    calls = [0]
    start = time.time()

    def bad(t):
        calls[0] += 1
        if time.time() - start > 60:
            calls[0] = max_calls
        try:
            return fails(t)
        except Exception:
            return False
    n = 2
    while len(text) >= 2 and calls[0] < max_calls:
        size = max(1, len(text) // n)
        for a in range(0, len(text), size):
            cand = text[:a] + text[a + size:]
            if calls[0] < max_calls and cand != text and bad(cand):
                text = cand
                n = max(2, n - 1)
                break
        else:
            if size == 1:
                break
            n = min(len(text), n * 2)
    return text


# ------------------------------------------------------------------------------------------------ options

MAXLENS = [0, 1, 2, 3, 4, 5, 7, 10, 14, 20, 30, 45, 61]


def random_opts(rng, mode, case=True, p=0.3, maxlen=True):
    o = {}
    for name in ('no_spaces', 'no_unicode', 'no_com', 'no_str'):
        if rng.random() < p:
            o[name] = True
    if maxlen and rng.random() < p:
        o['max_str_length'] = rng.choice(MAXLENS)
    if case and mode in ('basic', 'basicn') and rng.random() < p:
        o['no_case'] = True
    if rng.random() < p / 2:
        o['append_eof'] = True
    return o


def align(fts, mode, gt):
    """Ground-truth token index of every full token with content (None for whitespace and markers); raises ValueError if the
    content does not match."""
    expected, mask = letters_allowed_lower(gt)
    owner = []
    for k, p in enumerate(gt):
        owner.extend([k] * len(nows(p.value)))
    pos = 0
    res = []
    for f in fts:
        w = word_of(f, mode)
        c = '' if (w == '<EOL>' and f.type == 'OneLineComment') else nows(w)
        if not c:
            res.append(None)
            continue
        seg = expected[pos:pos + len(c)]
        if same_content(c, seg, mask[pos:pos + len(c)]) is not None:
            raise ValueError('content differs at %d' % pos)
        if owner[pos] != owner[pos + len(c) - 1]:
            raise ValueError('full token %r spans source elements' % (w,))
        res.append(owner[pos])
        pos += len(c)
    if pos != len(expected):
        raise ValueError('content missing at the end')
    return res


def in_batches(check, cases, modes, fn):
    """Run fn(case, mode, reinit) with the modes in the outer loop (bpe data is re-read only when the mode changes)."""
    for mode in modes:
        first = True
        for c in cases:
            if not check.go_on():
                return False
            fn(c, mode, first)
            first = False
    return True


EMPTY_LITERAL = {'nosplit': ('"', '"'), 'basic': ('"', '"'), 'basicn': ('"', '"'), 'full': ('""',), 'bpe': ('"', '"</t>'), 'chars': ('"', '"</t>')}


def end(tok, mode):
    return tok + TEND if mode in BPE_MODES else tok


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))


def diff_text(actual, expected):
    i = first_diff(actual, expected)
    return 'full token %d: got %r, expected %r' % (i, actual[max(0, i - 1):i + 3], expected[max(0, i - 1):i + 3])
