# -*- coding: utf-8 -*-
"""Reads a JSON list of text API calls from a file, runs them in order in this process, writes their digests."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def digest(mode, result):
    from common import stable_hash
    ok, v = result
    if not ok:
        return 'raised %s' % v.type
    tokens, md = v
    return '%d:%s' % (len(tokens), stable_hash((tokens, list(md.word_boundaries), [t.__name__ for t in md.token_types],
                                                sorted(md.nonprocessable_tokens))))


def run_call(c, reinit=True):
    from textlib import run_mode
    return run_mode(c['mode'], c['text'], c['ext'], bpe_id=c.get('bpe_id', '1k'), reinit=c.get('reinit', True), **c['opts'])


if __name__ == '__main__':
    import env
    env.setup()
    with open(sys.argv[1]) as f:
        calls = json.load(f)
    with open(sys.argv[2], 'w') as f:
        json.dump([digest(c['mode'], run_call(c)) for c in calls], f)
    sys.stdout.flush()
    os._exit(0)
