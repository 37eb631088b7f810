"""C15: every output file of a corpus run holds what the text interface gives for the content of its input file."""
import os

import corpus

RULE = ('one evaluation = one output file compared with the text interface; non-trivial = distinct (mode, options, file content) '
        'with at least five tokens; runs differ in worker count, injected delays and number of files')
ASSUMPTIONS = ['the text interface is the reference for the corpus interface; it is itself judged by C01 to C11',
               'file content is UTF-8 or else ISO-8859-1 with any line ends, and the last line end does not count',
               'a line break token for the end of the text may precede the end-of-file token']

MODES = ['nosplit', 'basic', 'chars', 'bpe']


def one_run(check, area, rng, mode, opts, bpe_id, n_files, k):
    ds = os.path.join(area.root, 'ds%d' % k)
    corpus.build_tree(rng, ds, n_files)
    big = n_files > 60
    cpus = rng.choice([1, 2, 3, 4, 8])
    delays = dict(permille=rng.choice([0, 0, 30, 150]), delay_us=rng.choice([300, 3000, 20000]), seed=rng.randrange(1 << 30))
    if big:
        delays['delay_us'] = 2000
    exts = rng.choice([None, None, 'java', 'java|py', 'c|h|java'])
    out = rng.choice([area.out, os.path.join(area.out, 'sub dir', 'x')])
    sup = rng.random() < 0.2
    files = corpus.selected(ds, exts.split('|') if exts else None)
    o = area.op('prep', mode=mode, path=ds, out=out, exts=exts, bpe_id=bpe_id, opts=opts, suppress_caching=sup, cpus=cpus,
                watch=[area.root], **delays)
    case = {'mode': mode, 'options': opts, 'bpe_id': bpe_id, 'extensions': exts, 'cpus': cpus, 'suppress_caching': sup, 'delays': delays,
            'files': {repr(p): repr(c[:400]) for p, c in sorted(files.items())[:40]}}
    check.count('corpus runs')
    if o.kind != 'ok':
        check.violation('corpus run failed: %r %s' % (o, o.crash or o.err[-600:]), case)
        return
    check.count('injected delays', max(0, o.delayed))
    check.count('file operations watched', max(0, o.events))
    got = corpus.outputs(o.value['prep'])
    keys = sorted(files)
    calls = [(mode, corpus.text_of_file(files[p]), corpus.ext_of(p), bpe_id, opts) for p in keys]
    ref = area.op('texts', calls=calls, timeout=200)
    if ref.kind != 'ok':
        check.violation('text interface failed: %r' % ref, case)
        return
    for p, call, r in zip(keys, calls, ref.value):
        if r[0] != 'ok':
            check.violation('text interface raised %s where the corpus run succeeded' % r[1], dict(case, file=repr(p)))
            continue
        name = p + b'.prep'
        n_tok = len(r[1])
        check.evaluated((mode, repr(sorted(opts.items())), files[p]) if n_tok >= 5 else None)
        check.count('tokens compared', n_tok)
        check.count('files in ' + mode)
        check.count('non-UTF-8 files', int(_not_utf8(files[p])))
        if name not in got:
            check.violation('no output for %r' % p, dict(case, outputs=[repr(x) for x in sorted(got)][:40]))
            continue
        bad = corpus.wrong_file(mode, opts, r[1], got[name])
        if bad:
            check.violation('output of %r (language %r): %s' % (p, call[2], bad),
                            dict(case, file=repr(p), content=repr(files[p]), output=repr(got[name][:2000])))
    if len(got) != len(files):
        check.violation('%d input files, %d output files' % (len(files), len(got)), dict(case, outputs=[repr(x) for x in sorted(got)][:40]))
    check.sample({'mode': mode, 'options': opts, 'files': len(files), 'cpus': cpus, 'extensions': exts, 'delays': o.delayed})


def _not_utf8(b):
    try:
        b.decode('utf-8')
        return False
    except UnicodeDecodeError:
        return True


def work(check, i):
    rng = check.rng
    k = 0
    while check.go_on():
        with corpus.Area(check, i) as area:
            for _ in range(3):
                if not check.go_on():
                    break
                k += 1
                mode = MODES[(i + k) % 4]
                opts = corpus.random_opts(rng, mode)
                bpe_id = rng.choice(['1k', '5k', '10k']) if mode == 'bpe' else None
                n = rng.choice([1, 3, 8, 15, 30])
                if k % 12 == 5:
                    n = rng.choice([80, 200]) if not check.thorough else rng.choice([150, 400, 900])
                one_run(check, area, rng, mode, opts, bpe_id, n, k)


def run(check):
    check.budget(65, 600)
    check.fork_workers(work)
    check.require(**{'corpus runs': 40, 'tokens compared': 20000, 'non-UTF-8 files': 20, 'injected delays': 50})
