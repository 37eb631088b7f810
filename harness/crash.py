"""Kills runs at chosen file-system events and repeats them (shared by C19, C21 and C22)."""
import collections
import os

import corpus


class Point(object):
    """A kill point: event number, and what happens there (see fsmon.c): 0 whole group, 1 in the middle of a write, 2 one process only."""

    def __init__(self, n, mode):
        self.n, self.mode = n, mode

    def __repr__(self):
        return '%s at event %d' % (('killed', 'killed in the middle of a write', 'one process killed')[self.mode], self.n)


def choose(rng, total, k):
    """k kill points spread over the events of a run: stratified, so that every part of it is reached."""
    out = []
    for j in range(k):
        lo, hi = j * total // k, max(j * total // k, (j + 1) * total // k - 1)
        out.append(Point(rng.randint(lo, hi), rng.choice([0, 0, 0, 0, 1, 1, 1, 2])))
    rng.shuffle(out)
    return out


seen = collections.Counter()        # kinds of events at which this worker has already killed


def new_log(area):
    log = os.path.join(area.tmp, 'ref.log')
    if os.path.exists(log):
        os.unlink(log)
    return log


def kinds_of(area, log):
    """{event number: kind} of a logged run: the operation and the path without what differs between files and runs."""
    import re
    out = {}
    for e in corpus.read_log(log):
        if e[0] >= 0:
            parts = _generic(area, e[3]).split('/')
            name = parts[-1]
            for end in ('.prep.part', '.prep', '.parsed.part', '.parsed'):
                if name.endswith(end):
                    parts, name = [], '*' + end
                    break
            out[e[0]] = (e[2], re.sub(r'[0-9]+', 'N', '/'.join(parts[-2:-1] + [name])))
    return out


def choose_kinds(rng, area, log, total, k):
    """As choose, but half of the points are events of the kinds which have been least killed at so far, whatever their share."""
    kinds = kinds_of(area, log)
    by = collections.defaultdict(list)
    for n, kind in kinds.items():
        by[kind].append(n)
    out = choose(rng, total, (k + 1) // 2)
    order = sorted(by, key=lambda kind: (seen[kind], rng.random()))
    for kind in order[:k - len(out)]:
        seen[kind] += 1
        n = rng.choice(by[kind])
        # the call itself, or just after it
        out.append(Point(min(total - 1, n + rng.choice([0, 0, 1])), 1 if kind[0] == 'write' and rng.random() < 0.5 else rng.choice([0, 0, 0, 2])))
    rng.shuffle(out)
    return out


def killed_run(area, point, name, watch, timeout=5, **params):
    """Run with a kill.  Returns the outcome: 'killed' (the point was reached), 'timeout' (a process is gone, the rest waits), else not reached."""
    log = os.path.join(area.tmp, 'kill.log')
    if os.path.exists(log):
        os.unlink(log)
    o = area.op(name, watch=watch, kill_at=point.n, kill_mode=point.mode, timeout=timeout if point.mode == 2 else 90, log=log, **params)
    o.last_event = None
    evs = corpus.read_log(log)
    for e in evs:
        if e[0] == point.n:
            o.last_event = (e[2], _generic(area, e[3]))
    return o


def _generic(area, path):
    """A path without what differs between runs, to tell kill points apart."""
    import re
    s = path.decode('utf-8', 'replace')
    s = s.replace(area.root, '')
    s = re.sub(r'/w\d+-[a-z]*\d+', '', s)
    s = re.sub(r'\d\d-\d\d-\d\dT\d\d-\d\d-\d\d', 'TIME', s)
    s = re.sub(r'[0-9a-f]{32}', 'UUID', s)
    s = re.sub(r'\d{9,}', 'N', s)
    parts = s.split('/')
    return '/'.join(parts[-3:])
