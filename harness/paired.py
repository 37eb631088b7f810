# -*- coding: utf-8 -*-
"""Paired runs: the same text and mode with and without one option.  The expected output with the option is derived from the
actual output without it and the lexical ground truth, so a change elsewhere does not concern these monitors."""
import regex

from textlib import *


class Mismatch(Exception):
    pass


def pair(text, ext, mode, base_opts, extra, reinit=True):
    """(fts without, fts with) or raises Mismatch; None if the run without the option already fails (not our concern)."""
    ok, a = run_mode(mode, text, ext, reinit=reinit, **base_opts)
    if not ok:
        return None
    try:
        A = full_tokens(a)
    except BadMetadata:
        return None
    ok, b = run_mode(mode, text, ext, reinit=False, **dict(base_opts, **extra))
    if not ok:
        raise Mismatch('with the option it raises: %r' % b)
    try:
        B = full_tokens(b)
    except BadMetadata as e:
        raise Mismatch('with the option: %s' % e)
    return A, B


def require_equal(B, E):
    if B != E:
        raise Mismatch(diff_text(B, E))


def groups(fts, gt, types):
    """Full tokens of one run, cut into ('other', ft) and ('elem', [fts], k): k-th ground-truth element whose type is in `types`.
    Uses exact content (everything but plain spaces) because comment and string containers keep every other character."""
    raise NotImplementedError


def spaceless(v):
    return v.replace(' ', '')
