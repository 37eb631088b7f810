"""C18: whatever ran before and however the dataset changed, a run gives what a run with empty caches gives."""
import os
import shutil
import time

import corpus
import learnlib

RULE = ('one evaluation = one run in the middle of a history (runs, dataset edits, damage to outputs and caches) compared with the same run '
        'by a user with empty caches; non-trivial = distinct (edits and damage since the last run, mode, options, extensions)')
ASSUMPTIONS = ['every change of the dataset, of output and of cache directories gives something in them a later modification second',
               'the clock of the time zone does not jump back between changes', 'up to a thousand entries per dataset',
               'changed (rather than deleted) cache and vocabulary files are not covered']


class World(object):
    def __init__(self, area, rng, large=False):
        self.area, self.rng = area, rng
        self.t = 1400000000 + rng.randrange(10 ** 8)
        self.name = rng.choice(['ds', 'proj-1', 'd s', u'd\xe4s', 'x.java', 'a_b'])
        self.ds = os.path.join(area.dir('data'), self.name)
        self.bds = os.fsencode(self.ds)
        self.single = not large and rng.random() < 0.06
        if self.single:
            with open(self.ds, 'wb') as f:
                f.write(corpus.simple_java(rng, 3))
        elif large:
            for j in range(large):
                d = self.bds + b'/d%d' % (j % rng.choice([1, 7, 30]))
                os.makedirs(d, exist_ok=True)
                with open(d + b'/F%d.java' % j, 'wb') as f:
                    f.write(b'int f%d;\n' % (j % 50))
        else:
            corpus.build_tree(rng, self.ds, rng.choice([2, 4, 7, 12]), make_content=self.content)
            if not os.listdir(self.ds):
                self.put(os.path.join(self.bds, b'First.java'))
            if rng.random() < 0.5:
                self.put(os.path.join(self.bds, b'.hid.java'))
                os.makedirs(os.path.join(self.bds, b'.hidden'), exist_ok=True)
                self.put(os.path.join(self.bds, b'.hidden', b'H.java'))
            if rng.random() < 0.3:
                outside = area.dir('outside/tree')
                for n in ('/Linked.java', '/Linked2.java', '/Linked3.java'):
                    with open(outside + n, 'w') as f:
                        f.write('class Linked { int one; }\n')
                corpus.set_mtimes(outside, self.t - 5)
                os.symlink(outside, self.ds + '/lnk')
        corpus.set_mtimes(self.ds, self.t)
        self.state = 0
        self.now = int(time.time()) + 5

    def content(self, rng):
        if rng.random() < 0.2:
            return corpus.content(rng)
        return corpus.simple_java(rng, rng.choice([1, 3, 6]))

    def tick(self):
        self.t += self.rng.choice(corpus.TIME_STEPS)
        return self.t

    def put(self, p):
        with open(p, 'wb') as f:
            f.write(self.content(self.rng))

    def stamp(self, *paths):
        t = self.tick()
        for p in paths:
            os.utime(p, (t, t))

    def listing(self):
        files, dirs = [], [self.bds]
        for d, subdirs, fs in os.walk(self.bds):
            dirs += [os.path.join(d, s) for s in subdirs if not os.path.islink(os.path.join(d, s))]
            files += [os.path.join(d, f) for f in fs if not os.path.islink(os.path.join(d, f))]
        return sorted(files), sorted(dirs)

    def edit(self, kind=None):
        """One change a user makes; returns its kind or None.  Everything that gets another modification time gets one which is later."""
        rng = self.rng
        if self.single:
            self.put(self.ds)
            self.stamp(self.ds)
            self.state += 1
            return 'write'
        files, dirs = self.listing()
        kind = kind or rng.choice(['write', 'write', 'samesize', 'add', 'remove', 'rename', 'move', 'mkdir', 'rmtree', 'touch', 'replace', 'rendir',
                           'movein', 'swap', 'linked', 'linked', 'unlinked', 'extension'])
        if kind in ('write', 'samesize', 'remove', 'rename', 'move', 'touch', 'replace', 'extension') and not files:
            return None
        f = rng.choice(files) if files else None
        odd = [x for x in files if b'/.' in x[len(self.bds):]]
        if odd and rng.random() < 0.3:
            f = rng.choice(odd)
        par = os.path.dirname(f) if f else None
        fresh = os.path.join(rng.choice(dirs), rng.choice([b'New', b'Extra', b'.hid', b'A b']) + b'%d' % rng.randrange(10 ** 6) +
                             rng.choice([b'.java', b'.java', b'.py', b'.c', b'.txt', b'']))
        if kind == 'write':
            self.put(f)
            self.stamp(f)
        elif kind == 'samesize':
            with open(f, 'rb') as h:
                data = h.read()
            new = data.replace(b'a', b'\0').replace(b'e', b'a').replace(b'\0', b'e').replace(b'1', b'7')
            with open(f, 'wb') as h:
                h.write(new)
            self.stamp(f)
        elif kind == 'touch':
            self.stamp(f)
        elif kind == 'add':
            self.put(fresh)
            self.stamp(fresh, os.path.dirname(fresh))
        elif kind == 'remove':
            os.unlink(f)
            self.stamp(par)
        elif kind in ('rename', 'extension'):
            n = os.path.join(par, b'Ren%d' % rng.randrange(10 ** 6) + b'.java')
            if kind == 'extension':
                n = os.path.splitext(f)[0] + rng.choice([b'.py', b'.java', b'.c', b'.txt', b'.js'])
                if os.path.lexists(n):
                    return None
            os.rename(f, n)
            self.stamp(par)
        elif kind == 'move':
            d = rng.choice(dirs)
            n = os.path.join(d, os.path.basename(f))
            if os.path.lexists(n):
                return None
            os.rename(f, n)
            self.stamp(par, d)
        elif kind == 'replace':  # the way editors save
            st = os.stat(f)
            tmp = f[:-1] + b'#' if len(f) > 2 else f + b'#'
            self.put(tmp)
            os.rename(tmp, f)
            if rng.random() < 0.5:
                self.stamp(f, par)
            else:  # the new content comes from elsewhere with its old time; the directory shows the change
                os.utime(f, (st.st_mtime, st.st_mtime))
                self.stamp(par)
        elif kind == 'mkdir':
            n = os.path.join(rng.choice(dirs), b'dir%d' % rng.randrange(10 ** 6))
            os.mkdir(n)
            if rng.random() < 0.5:
                self.put(n + b'/In.java')
                os.utime(n + b'/In.java', (self.t - 1000, self.t - 1000))
            self.stamp(n, os.path.dirname(n))
        elif kind == 'rmtree':
            if len(dirs) < 2:
                return None
            d = rng.choice([x for x in dirs if x != self.bds])
            corpus.rmtree(d)
            self.stamp(os.path.dirname(d))
        elif kind == 'rendir':
            if len(dirs) < 2:
                return None
            d = rng.choice([x for x in dirs if x != self.bds])
            n = d + b'%d' % rng.randrange(10 ** 6)
            os.rename(d, n)
            self.stamp(os.path.dirname(d))
        elif kind == 'movein':
            tmp = os.path.join(os.fsencode(self.area.tmp), b'incoming')
            self.put(tmp)
            os.utime(tmp, (1000000000, 1000000000))
            os.rename(tmp, fresh)
            self.stamp(os.path.dirname(fresh))
        elif kind == 'swap':
            if len(files) < 2:
                return None
            a, b = rng.sample(files, 2)
            os.rename(a, a + b'~~')
            os.rename(b, a)
            os.rename(a + b'~~', b)
            self.stamp(os.path.dirname(a), os.path.dirname(b))
        elif kind == 'linked':
            p = os.path.join(self.bds, b'lnk', b'Linked.java')
            if not os.path.exists(p):
                return None
            self.put(p)
            self.stamp(p)
        elif kind == 'unlinked':  # only the linked directory shows the change
            p = [x for x in (os.path.join(self.bds, b'lnk', n) for n in (b'Linked2.java', b'Linked3.java')) if os.path.exists(x)]
            if not p:
                return None
            if rng.random() < 0.5:
                os.unlink(p[0])
            else:
                os.rename(p[0], p[0][:-5] + b'.%d.java' % rng.randrange(10 ** 6))
            t = self.tick()
            os.utime(os.path.realpath(os.path.join(self.bds, b'lnk')), (t, t))
        self.state += 1
        return kind

    # ------------------------------------------------------------------------------------------ damage

    def later(self, *paths):
        self.now = max(self.now, int(time.time())) + 2
        for p in paths:
            os.utime(p, (self.now, self.now))

    def wait(self):
        """Let a second pass, so that what the next run makes is later than what the last one made."""
        time.sleep(1.02)

    def damage(self, preps, kinds=None):
        rng = self.rng
        kind = rng.choice(kinds or ['delete output file', 'change output file', 'truncate output file', 'add output file', 'delete output dir',
                           'delete output dir and marker', 'delete marker', 'delete parsed file', 'delete parsed dir', 'delete file list',
                           'delete file list dir', 'delete corpus sizes', 'delete vocab', 'delete vocab file', 'delete cache', 'delete everything'])
        home = self.area.home
        cache = os.path.join(home, '.cache', 'codeprep')
        ver = os.path.join(cache, os.listdir(cache)[0]) if os.path.isdir(cache) and os.listdir(cache) else cache

        def entries(sub):
            d = os.path.join(ver, sub)
            return [os.path.join(d, n) for n in sorted(os.listdir(d)) if not n.startswith('.')] if os.path.isdir(d) else []

        def marker(p):
            return os.path.join(os.path.dirname(p), '.%s.lastmodif' % os.path.basename(p))
        preps = [p for p in preps if os.path.isdir(p)]
        if 'output' in kind or kind == 'delete marker':
            if not preps:
                return None
            prep = rng.choice(preps)
            outs = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.fsencode(prep)) for f in fs)
            if kind == 'delete marker':
                if not os.path.exists(marker(prep)):
                    return None
                os.unlink(marker(prep))
            elif kind == 'delete output dir':
                self.wait()
                corpus.rmtree(prep)
            elif kind == 'delete output dir and marker':
                corpus.rmtree(prep)
                if os.path.exists(marker(prep)):
                    os.unlink(marker(prep))
            elif not outs or not os.path.exists(marker(prep)):
                return None
            elif kind == 'delete output file':
                f = rng.choice(outs)
                os.unlink(f)
                self.later(os.path.dirname(f))
            elif kind == 'add output file':
                d = os.path.dirname(rng.choice(outs))
                with open(os.path.join(d, b'stray.java.prep'), 'w') as h:
                    h.write('stray <EOF>\n')
                self.later(os.path.join(d, b'stray.java.prep'), d)
            else:
                f = rng.choice(outs)
                with open(f, 'rb+') as h:
                    if kind == 'truncate output file':
                        h.truncate(max(0, os.path.getsize(f) // 2))
                    else:
                        h.write(b'ZZZ')
                self.later(f)
        elif kind in ('delete parsed file', 'delete parsed dir', 'delete file list', 'delete file list dir'):
            es = [e for e in entries('parsed_datasets' if 'parsed' in kind else 'file_lists') if os.path.isdir(e) and 'archived' not in e]
            if not es:
                return None
            e = rng.choice(es)
            if 'dir' in kind:
                if rng.random() < 0.5 and os.path.exists(marker(e)):
                    os.unlink(marker(e))
                else:
                    self.wait()
                corpus.rmtree(e)
            else:
                fs = [os.path.join(d, f) for d, _, ff in os.walk(os.fsencode(e)) for f in ff]
                if not fs or not os.path.exists(marker(e)):
                    return None
                f = rng.choice(fs)
                os.unlink(f)
                self.later(os.path.dirname(f))
        elif kind == 'delete corpus sizes':
            corpus.rmtree(os.path.join(ver, 'corpus_sizes'))
        elif kind in ('delete vocab', 'delete vocab file'):
            base = os.path.join(home, '.config', 'codeprep')
            vs = [os.path.join(d, s) for d, ss, _ in os.walk(base) for s in ss if os.path.basename(d) == 'vocab']
            if not vs:
                return None
            v = rng.choice(sorted(vs))
            if kind == 'delete vocab':
                corpus.rmtree(v)
            else:
                fs = [n for n in ('vocab', 'vocabsize', 'nonbpe_vocab') if os.path.exists(os.path.join(v, n))]
                if not fs:
                    return None
                os.unlink(os.path.join(v, rng.choice(fs)))
        elif kind == 'delete cache':
            corpus.rmtree(cache)
        elif kind == 'delete everything':
            corpus.rmtree(cache)
            corpus.rmtree(os.path.join(home, '.config', 'codeprep'))
        return kind


def random_request(rng):
    mode = rng.choice(['nosplit', 'basic', 'chars', 'bpe', 'basic'])
    opts = corpus.random_opts(rng, mode) if rng.random() < 0.7 else {}
    if rng.random() < 0.1:
        mode, opts = 'nosplit', {'no_com': True, 'max_str_length': 14, 'full_strings': True}  # what learning uses, too
    return {'mode': mode, 'opts': opts, 'exts': rng.choice([None, None, 'java', 'java|py', 'c|java']), 'bpe_id': rng.choice(['1k', '5k']) if mode == 'bpe' else None,
            'calc_vocab': rng.random() < 0.35, 'size': rng.random() < 0.4}


def result_of(o):
    v = o.value
    prep = os.fsencode(v['prep'])
    return {'outputs': corpus.outputs(v['prep']), 'vocab': v.get('vocab'), 'size': (v.get('size'), v.get('size2')),
            'files': sorted(os.path.relpath(f, prep) for f in v['files'])}


def differences(got, want):
    out = []
    for k in want:
        if got[k] != want[k]:
            if isinstance(want[k], dict):
                keys = [x for x in sorted(set(got[k] or {}) | set(want[k]), key=repr) if (got[k] or {}).get(x) != want[k].get(x)]
                out.append('%s differs in %d entries: %s' % (k, len(keys), [(x, common_short((got[k] or {}).get(x)), common_short(want[k].get(x)))
                                                                            for x in keys[:2]]))
            else:
                out.append('%s: %s instead of %s' % (k, common_short(got[k]), common_short(want[k])))
    return out


def common_short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:80] + '...' + s[-60:]


def learn(check, area, rng, w, learned, log):
    """A learn request in the middle of the history; the result is judged by recounting.  False after a violation."""
    flags = rng.choice([[], [], ['-e', 'java'], ['--no-unicode']])
    n = rng.choice([3, 5, 9, 20])
    base, problem = learnlib.base_vocab(area, w.ds, ['java'] if '-e' in flags else None, '--no-unicode' in flags)
    if base is None:
        check.violation(problem, {'history': log})
        return False
    if not base.words:
        return True
    key = (w.state, tuple(flags))
    before = {(d, x) for d, _, ns in learnlib.registry(area.home) for x in ns}
    log.append(' '.join(['learn', str(n)] + flags))
    o = area.op('cli', args=['learn-bpe', str(n), '-p', w.ds] + flags, cpus=rng.choice([1, 2, 3]))
    case = {'history': list(log), 'dataset': w.name, 'words': dict(base.words.most_common(40))}
    check.count('learn runs')
    if o.kind != 'ok':
        check.violation('learning failed: %r %s' % (o, o.crash or o.err[-400:]), case)
        return False
    reg = learnlib.registry(area.home)
    new = [(d, x) for d, _, ns in reg for x in ns if (d, x) not in before]
    if new:
        learned[key] = new[0][0]
    if key not in learned or (new and (len(new) > 1 or new[0][0] != learned[key])):
        check.violation('learning stored %s, results were stored in %s before' % (new, learned.get(key)), case)
        return False
    ns = [x for d, _, xs in reg for x in xs if d == learned[key] and x <= n]
    p = learnlib.wrong_result(os.path.join(learned[key], str(max(ns))), base, requested=n, check=check) if ns else 'nothing is stored'
    check.count('learned results judged')
    if p:
        check.violation('the result of learning %d merges is wrong: %s' % (n, p), case)
        return False
    return True


def history(check, area, rng, k, large=False, vocabs=False):
    w = World(area, rng, large)
    requests = [random_request(rng) for _ in range(rng.choice([1, 2, 3]))]
    if vocabs:   # mostly about vocabularies and learned codes
        requests = [dict(requests[0], calc_vocab=True)]
    if large:
        requests = requests[:1]
    refs, preps, last_done, log, learned = {}, [], {}, [], {}
    since = []
    for step in range(rng.choice([4, 6, 9])):
        if not check.go_on():
            return
        if step:
            for _ in range(rng.choice([0, 0, 1, 1, 2]) if not large else 1):
                if rng.random() < (0.95 if large else 0.2 if vocabs else 0.6):
                    e = w.edit('write' if large and rng.random() < 0.8 else None)
                    if e:
                        since.append('edit ' + e)
                        last_done.clear()
                else:
                    e = w.damage(preps, ['delete vocab', 'delete vocab file', 'delete vocab file', 'delete cache', 'delete parsed dir'] if vocabs else None)
                    if e:
                        since.append(e)
                        last_done.clear()
                    if e == 'delete everything':
                        learned.clear()
            if rng.random() < 0.08:
                # the same dataset in another place
                other = os.path.join(area.dir('data/moved%d' % step), w.name)
                os.rename(w.ds, other)
                w.ds, w.bds = other, os.fsencode(other)
                since.append('move dataset')
        log += since
        vocab_gone = any(x.startswith('delete vocab') or x == 'delete everything' for x in since)
        if rng.random() < (0.7 if vocabs else 0.3 if vocab_gone or learned else 0.08) and not large:
            if not learn(check, area, rng, w, learned, log):
                return
        req = rng.choice(requests)
        if vocab_gone and rng.random() < 0.7:
            req = rng.choice([r for r in requests if r['calc_vocab']] or requests)
        sup = rng.random() < 0.12
        out = area.out if rng.random() < 0.85 else area.dir('out2')
        cpus = rng.choice([1, 2, 3])
        key = (w.state, repr(sorted(req.items())))
        if not corpus.selected(w.ds, req['exts'].split('|') if req['exts'] else None):
            req = dict(req, calc_vocab=False)  # there is nothing to calculate a vocabulary from
            key = (w.state, repr(sorted(req.items())))
        before = None
        if (out, key) in last_done and not sup:
            before = corpus.tree(last_done[out, key])
        o = area.op('prep', path=w.ds, out=out, cpus=cpus, suppress_caching=sup, **req)
        log.append('run %d%s%s' % (requests.index(req) if req in requests else 0, ' without caching' if sup else '', '' if out == area.out else ' to out2'))
        case = {'request': req, 'suppress_caching': sup, 'history': list(log), 'dataset': w.name}
        if o.kind != 'ok':
            check.violation('run failed: %r %s' % (o, o.crash or o.err[-600:]), case)
            return
        if key not in refs:
            home, rout = area.dir('ref%d/home' % len(refs)), area.dir('ref%d/out' % len(refs))
            r = area.op('prep', path=w.ds, out=rout, home=home, **req)
            if r.kind != 'ok':
                check.violation('run with empty caches failed: %r' % r, case)
                return
            refs[key] = (result_of(r), os.path.basename(r.value['prep']))
            corpus.rmtree(home)
            corpus.rmtree(rout)
        want, base = refs[key]
        got = result_of(o)
        d = differences(got, want)
        if os.path.basename(o.value['prep']) != base:
            d.append('directory %s instead of %s' % (os.path.basename(o.value['prep']), base))
        if d:
            check.violation('differs from a run with empty caches: %s' % d[:3], case)
            return
        check.evaluated((since, repr(sorted(req.items())), sup))
        check.count('runs compared')
        for s in since:
            check.count('after ' + ('edits' if s.startswith('edit') else 'damage' if s.startswith('delete') else 'other changes'))
        if req['calc_vocab']:
            check.count('vocabularies compared')
        if before is not None:
            check.count('repeated runs')
            after = corpus.tree(o.value['prep'])
            if after != before:
                ch = [p for p in sorted(set(after) | set(before)) if after.get(p) != before.get(p)]
                check.violation('a repeated run on unchanged input touched finished output: %r' % ch[:3], case)
        check.sample({'history': list(log), 'request': req, 'outputs': len(want['outputs'])})
        since = []
        preps.append(o.value['prep'])
        if not sup:
            last_done[out, key] = o.value['prep']


def work(check, i):
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            k += 1
            large = check.rng.choice([150, 300, 550] if i else [850, 940]) if k == 1 and i < 2 or check.rng.random() < 0.05 else False
            if large:
                check.count('histories of datasets of more than a hundred files')
            history(check, area, check.rng, k, large, not large and (k == 2 or check.rng.random() < 0.15))


def run(check):
    check.budget(75, 600)
    check.fork_workers(work)
    check.require(**{'runs compared': 60, 'after edits': 15, 'after damage': 8, 'repeated runs': 8, 'vocabularies compared': 10})
