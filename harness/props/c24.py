# -*- coding: utf-8 -*-
"""C24: the command line gives what the library gives, and refuses what it documents as invalid."""
import ast
import os
import subprocess
import sys

import common
import corpus
import gen
from common import stable_hash

RULE = ('one evaluation = one command line whose printed tokens, output directory, vocabulary or learned codes were compared with those of the library '
        'call for the same options, or one invalid command line checked to leave no output; non-trivial = distinct (command, options, outcome) with output, '
        'or distinct shape of an invalid command line')
ASSUMPTIONS = ['the command line separates options from texts by their leading dash, so texts starting with a dash cannot be given',
               'the external splitter spiral.ronin is not installed: a deterministic stand-in takes its place on both sides',
               'merge lists learned by two runs may break ties differently (C12 and C14 judge them); here the ids, directories, base vocabularies and sizes are compared']

LONG = {'no_spaces': ('--no-spaces', '-0'), 'no_unicode': ('--no-unicode', '-U'), 'no_com': ('--no-com', '-C'), 'no_str': ('--no-str', '-S'),
        'full_strings': ('--full-strings', '-f'), 'no_case': ('--no-case', '-l'), 'split_numbers': ('--split-numbers', '-n'),
        'ronin': ('--ronin', '-r'), 'stem': ('--stem', '-s')}
FLAGS = {'nosplit': ('no_spaces', 'no_unicode', 'no_com', 'no_str', 'full_strings'), 'chars': ('no_spaces', 'no_unicode', 'no_com', 'no_str'),
         'basic': ('no_spaces', 'no_unicode', 'no_com', 'no_str', 'no_case', 'split_numbers', 'ronin', 'stem'),
         'bpe': ('no_spaces', 'no_unicode', 'no_com', 'no_str')}
MODES = ['nosplit', 'chars', 'basic', 'basic', 'bpe']
PREDEFINED = ['1k', '1k', '5k', '10k']


def options(rng, mode, ronin=True):
    p = rng.choice([0.1, 0.3, 0.6])
    o = {f: True for f in FLAGS[mode] if rng.random() < p and (ronin or f not in ('ronin', 'stem'))}
    if o.get('no_str'):
        o.pop('full_strings', None)
    elif rng.random() < 0.35:
        o['max_str_length'] = rng.choice([0, 1, 2, 3, 5, 8, 13, 14, 20, 40, 60, 61, 62, 63, 64, 100, 10 ** 6, sys.maxsize])
    if o.get('stem'):
        o.update(ronin=True)
    if o.get('ronin'):
        o.update(split_numbers=True)
    return o


def spelled(rng, o):
    """[[argument...]...]: the options in some accepted spelling."""
    words, short = [], []
    for f in o:
        if f == 'max_str_length':
            n = str(o[f])
            words.append(rng.choice([['-L', n], ['-L' + n], ['--max-str-length', n], ['--max-str-length=' + n], ['--max-str-len', n]]))
        elif rng.random() < 0.4:
            short.append(LONG[f][1][1])
        else:
            words.append([rng.choice(LONG[f])])
    rng.shuffle(short)
    while short:
        k = rng.randint(1, len(short))
        words.append(['-' + ''.join(short[:k])])
        short = short[k:]
    return words


def line(rng, cmd, positional, words):
    """A command line: positionals in order, options anywhere."""
    slots = [[] for _ in range(len(positional) + 1)]
    for w in words:
        rng.choice(slots).append(w)
    out = list(cmd)
    for k, ws in enumerate(slots):
        rng.shuffle(ws)
        for w in ws:
            out += w
        if k < len(positional):
            out.append(positional[k])
    return out


def a_text(rng):
    c = rng.random()
    if c < 0.06:
        return rng.choice([u'', u' ', u'\n', u'x', u'1k', u'nosplit', u'chars', u'bpe', u'a-b', u'"', u"'", u'\\', u'\u00fc', u'[a]', u'=', u'\t'])
    if c < 0.5:
        t = gen.text_of(gen.java_program(rng, n=rng.choice([1, 2, 4, 8]), unicode_level=rng.choice([0, 1, 2])))
    elif c < 0.8:
        t = gen.any_case(rng)[1]
    elif c < 0.9:
        t = gen.soup(rng)
    else:
        t = gen.real_chunk(rng)[1]
    t = t[:4000].replace('\0', ' ')
    t = t.encode('utf-8', 'replace').decode('utf-8')
    return t if not t.startswith('-') else 'x' + t


def printed(out):
    """The token list a command printed (last line of the output), or None."""
    lines = out.rstrip('\n').split('\n')
    try:
        v = ast.literal_eval(lines[-1])
    except (ValueError, SyntaxError, MemoryError):
        return None
    return v if isinstance(v, list) else None


def valid_text(rng, ids):
    mode = rng.choice(MODES)
    o = options(rng, mode)
    text, ext = a_text(rng), rng.choice(['java', 'java', 'java', None, 'py', 'c', 'js', 'xyz'])
    bpe_id = rng.choice(ids) if mode == 'bpe' else None
    words = spelled(rng, o)
    if ext is not None:
        words.append(rng.choice([['-e', ext], ['--ext', ext], ['--ext=' + ext], ['-e' + ext]]))
    if rng.random() < 0.1:
        words.append([rng.choice(['--calc-vocab', '-V'])])
    if rng.random() < 0.08:
        words.append([rng.choice(['--verbose', '-v'])])
    return (mode, text, ext, bpe_id, o), line(rng, [mode] + ([bpe_id] if bpe_id else []), [text], words)


def invalid(rng, ds, out):
    """(shape, command line which must be refused)"""
    mode = rng.choice(['nosplit', 'chars', 'basic', 'bpe'])
    pre = [mode] + (['1k'] if mode == 'bpe' else [])
    t = 'int fooBar = 12;'
    where = rng.choice([['-p', ds, '-o', out], [t]])
    kind = 'path' if len(where) > 1 else 'text'
    c = rng.randrange(15)
    if c == 0:
        o = options(rng, mode, ronin=False)
        o.pop('no_str', 0)
        return 'no-str with max-str-length', pre + where + ['-S'] + ['-L', '5'] + [LONG[f][0] for f in o if f not in ('max_str_length', 'full_strings')]
    if c == 1:
        return 'no-str with full-strings', ['nosplit'] + where + rng.choice([['-S', '-f'], ['-f', '--no-str'], ['-Sf']])
    if c == 2:
        bad = [f for f in LONG if f not in FLAGS[mode]]
        if not bad:
            return 'unknown option', pre + where + ['--no-such-option']
        f = rng.choice(bad)
        return '%s of another command (%s)' % (f, kind), pre + where + [rng.choice(LONG[f])]
    if c == 3:
        return 'text and path', pre + [t, '-p', ds] + rng.choice([[], ['-o', out]])
    if c == 4:
        return 'text with output path', pre + [t, '-o', out]
    if c == 5:
        return 'neither text nor path', pre + rng.choice([[], ['-e', 'java'], ['-C'], ['-o', out]])
    if c == 6:
        return 'two texts', pre + [t, 'another']
    if c == 7:
        return 'unknown option (%s)' % kind, pre + where + [rng.choice(['--no-such', '-x', '--no', '-Z', '--length=3'])]
    if c == 8:
        return 'unknown command (%s)' % kind, [rng.choice(['nosplitt', 'split', 'BPE', 'learn', '1k', ''])] + where
    if c == 9:
        return 'option without its value', pre + where + [rng.choice(['-e', '-L', '--ext', '--max-str-length'])]
    if c == 10:
        return 'length is not a number (%s)' % kind, pre + where + ['-L', rng.choice(['x', '3x', '1.5', '', 'e'])]
    if c == 11:
        return 'no such path', pre + ['-p', ds + '-absent', '-o', out]
    if c == 12:
        return 'unknown or malformed codes id (%s)' % kind, ['bpe', rng.choice(['absent-5', 'absent', '2k', '1K', '-', '5', 'x-0', 'x-', '1k-1', 'x-05'])] + where
    if c == 13:
        return 'learn-bpe', rng.choice([['learn-bpe', '5'], ['learn-bpe', '-p', ds], ['learn-bpe', 'x', '-p', ds], ['learn-bpe', '5', '-p', ds + '-absent'],
                                        ['learn-bpe', '5', '-p', ds, '-U', '--bytes'], ['learn-bpe', '5', '-p', ds, '--bytes'], ['learn-bpe', '5', '-p', ds, '-z'],
                                        ['learn-bpe', '5', '-p', ds, '-o', out], ['learn-bpe', '5', '-p', ds, '--legacy', '-e', 'py'],
                                        ['learn-bpe', '5', '-p', ds, '-C'], ['learn-bpe', '5', ds], ['learn-bpe', '1.5', '-p', ds],
                                        ['learn-bpe', '5', '-p', ds, '--no-unicode', '--word-end']])
    return 'option given twice', pre + where + rng.choice([['-C', '-C'], ['-0', '--no-spaces'], ['-CC']])


def mine(area):
    """Everything produced: outputs and configuration (vocabularies, codes); not what only fills the cache."""
    res = set()
    for root in (area.out, os.path.join(area.root, 'cwd'), os.path.join(area.home, '.config')):
        for d, subdirs, files in os.walk(root):
            res.update((os.path.join(d, f), os.path.getsize(os.path.join(d, f))) for f in files
                       if f != '.name')  # an id is reserved before anything is learned
    return res


def text_batch(check, area, rng, ids, ds, n):
    area.dir('cwd')
    calls, lines, bad = [], [], []
    for _ in range(n):
        c, l = valid_text(rng, ids)
        calls.append(c)
        lines.append(l)
    for _ in range(max(2, n // 3)):
        bad.append(invalid(rng, ds, area.out))
    lib = area.op('lib_texts', calls=calls, stub=True, timeout=150)
    cli = area.op('cli_texts', calls=lines, stub=True, timeout=150)
    if lib.kind != 'ok' or cli.kind != 'ok':
        check.violation('texts could not be processed: library %r, command line %r %s' % (lib, cli, cli.crash), {'lines': lines[:3]})
        return
    for (mode, text, ext, bpe_id, o), args, (how, v), (chow, out) in zip(calls, lines, lib.value, cli.value):
        case = {'command line': args, 'library call': [mode, ext, bpe_id, o]}
        if how != 'ok':
            check.count('library refused')
            check.evaluated()
            if chow == 'ok' and printed(out) is not None:
                check.violation('the library refuses (%s) what the command line answers with %r' % (v, out[:200]), case)
            continue
        got = printed(out) if chow == 'ok' else None
        want = [str(x) for x in v]
        check.evaluated((mode, tuple(sorted(o.items())), ext, bpe_id, stable_hash(want)))
        check.count('command lines with a text')
        check.count('tokens compared', len(want))
        for f in o:
            check.count('option ' + f)
        if got != want:
            check.violation('the command line gives %s, the library %r' % (repr(got)[:300] if chow == 'ok' else chow + ' ' + out[:200], want[:60]), case)
        elif not any(a in ('--verbose', '-v') for a in args) and out != repr(want) + '\n':
            check.violation('more is printed than the token list: %r' % out[:300], case)
        check.sample(case)
    before = mine(area)
    r = area.op('cli_texts', calls=[b for _, b in bad], cwd=os.path.join(area.root, 'cwd'), timeout=150)
    if r.kind != 'ok':
        check.violation('invalid command lines: %r %s' % (r, r.crash), {'lines': bad[:5]})
        return
    for (shape, args), (how, out) in zip(bad, r.value):
        check.evaluated(shape)
        check.count('invalid command lines')
        if printed(out) is not None:
            check.violation('invalid command line (%s) prints tokens: %r' % (shape, out[:200]), {'command line': args})
    new = mine(area) - before
    if new:
        check.violation('invalid command lines leave output: %s' % sorted(new)[:5], {'lines': [b for b in bad]})
    # the ways a refusal shows in a command's exit status are not specified; that nothing but the refusal happens is checked above


def listing(root):
    """Contents, without the time in the markers and the steps in which a vocabulary grew."""
    out = {}
    for p, d in (corpus.outputs(root).items() if os.path.isdir(root) else ()):
        if p.endswith(b'.lastmodif'):
            d = b'a time'
        elif p.endswith(b'/vocabsize'):
            d = b'\n'.join(d.rstrip(b'\n').split(b'\n')[::len(d.rstrip(b'\n').split(b'\n')) - 1 or 1])
        out[p] = d
    return out


def sorted_lines(d):
    return sorted(d.split(b'\n'))


def compare_trees(a, b, what, loose=lambda p: False):
    """First difference of two directories, or None; files for which loose() holds may list their lines in another order."""
    x, y = listing(a), listing(b)
    if set(x) != set(y):
        return '%s: only the command line has %s, only the library %s' % (what, sorted(set(x) - set(y))[:4], sorted(set(y) - set(x))[:4])
    for p in x:
        if x[p] != y[p] and not (loose(p) and sorted_lines(x[p]) == sorted_lines(y[p])):
            return '%s: %r is %r by the command line and %r by the library' % (what, p, x[p][:200], y[p][:200])
    return None


def path_case(check, area, rng, k, custom):
    """custom: (home with learned codes, ids) or None"""
    ds = os.path.join(area.dir('data%d' % k), rng.choice(['ds', 'my set', 'd.java', u'd\xf6']))
    corpus.build_tree(rng, ds, rng.choice([1, 3, 6]), max_depth=2, make_content=lambda r: corpus.content(r))
    with open(ds + '/Z.java', 'w') as f:
        f.write('class Zed { int fooBar = 12; String s = "some text in it"; } // c\n')
    corpus.set_mtimes(ds, 1400000000 + rng.randrange(10 ** 8))
    homes = [area.dir('h%d%s' % (k, x)) for x in 'cl']
    outs = [area.dir('o%d%s' % (k, x)) for x in 'cl']
    cwds = [area.dir('w%d%s' % (k, x)) for x in 'cl']
    mode = rng.choice(MODES)
    o = options(rng, mode, ronin=False)
    bpe_id = None
    if mode == 'bpe':
        bpe_id = rng.choice(PREDEFINED)
        if custom and rng.random() < 0.4:
            bpe_id = rng.choice(custom[1])
            for h in homes:
                corpus.shutil.rmtree(h)
                corpus.shutil.copytree(custom[0], h)
            check.count('paths with learned codes')
    had = set(listing(os.path.join(homes[0], '.config')))
    exts = rng.choice([None, None, 'java', 'java|py', 'c|h|js', 'py|java'])
    vocab = rng.random() < 0.5
    default_out = rng.random() < 0.3
    relative = rng.random() < 0.25
    words = spelled(rng, o)
    path = os.path.relpath(ds, cwds[0]) if relative else ds + rng.choice(['', '', '/'])
    words.append(rng.choice([['-p', path], ['--path', path], ['--path=' + path]]))
    if not default_out:
        words.append(rng.choice([['-o', outs[0]], ['--output-path', outs[0]], ['--output-path=' + outs[0]]]))
    if exts is not None:
        words.append(rng.choice([['-e', exts], ['--ext', exts], ['--ext=' + exts]]))
    if vocab:
        words.append([rng.choice(['-V', '--calc-vocab'])])
    if rng.random() < 0.1:
        words.append(['-v'])
    args = line(rng, [mode] + ([bpe_id] if bpe_id else []), [], words)
    case = {'command line': args, 'options': o}
    cpus = rng.choice([1, 2, 3])
    real = rng.random() < 0.2
    if real:
        r = subprocess.run([sys.executable, '-m', 'codeprep'] + args, cwd=cwds[0], env=dict(os.environ, HOME=homes[0], PYTHONPATH=common.REPO, LD_PRELOAD='', PYTHONIOENCODING='utf-8'), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        ended, detail = 'ok' if r.returncode == 0 else 'exit %d' % r.returncode, r.stderr.decode('utf-8', 'replace')[-500:]
        check.count('real processes')
    else:
        c = area.op('cli', args=args, home=homes[0], cwd=cwds[0], cpus=cpus, timeout=200)
        ended, detail = c.kind, '%r %s' % (c, c.crash)
    l = area.op('prep', mode=mode, path=path, out=None if default_out else outs[1], exts=exts, bpe_id=bpe_id, opts=o, calc_vocab=vocab, home=homes[1], cwd=cwds[1],
                cpus=cpus, timeout=200)
    check.count('command lines with a path')
    if l.kind != 'ok' or ended != 'ok':
        check.evaluated()
        if l.kind == 'ok' or ended == 'ok':
            check.violation('the command line ended with %s (%s), the library call with %r' % (ended, detail, l), case)
        elif l.kind != 'exit' or corpus.selected(ds, exts.split('|') if exts else None):
            check.violation('both fail: %r, %s' % (l, detail), case)
        else:
            check.count('nothing to preprocess')
        return
    check.evaluated((mode, tuple(sorted(o.items())), exts, vocab, default_out, relative, bpe_id, len(listing(outs[0]) or listing(cwds[0]))))
    for a, b, what in ((outs[0], outs[1], 'output path'), (cwds[0], cwds[1], 'working directory')):
        d = compare_trees(a, b, what)
        if d:
            check.violation(d, case)
    n = len(listing(cwds[0] if default_out else outs[0]))
    check.count('output files compared', n)
    if not n:
        check.violation('no output in %s' % ('the working directory' if default_out else 'the output path'), case)
    vocs = [os.path.join(h, '.config') for h in homes]
    d = compare_trees(vocs[0], vocs[1], 'vocabulary', loose=lambda p: True)
    if d:
        check.violation(d, case)
    has = [p for p in listing(vocs[0]) if p.endswith(b'/vocab') and p not in had]
    if bool(has) != vocab:
        check.violation('calc-vocab is %s but there are the vocabularies %s' % (vocab, has), case)
    check.count('vocabularies compared', len(has))
    check.sample(case)


def learn_case(check, area, rng, k):
    """Learning through the command line and through the library; returns (home, ids) of the former."""
    ds = os.path.join(area.dir('learn%d' % k), rng.choice(['ds', 'ds.x', 'a-b', 'my_set']))
    import learnlib
    learnlib.make_dataset(rng, ds, 1400000000 + rng.randrange(10 ** 8))
    homes = [area.dir('lh%d%s' % (k, x)) for x in 'cl']
    n = rng.choice([1, 4, 20, 50])
    id_ = rng.choice([None, None, 'myid', 'my-id_2'])
    exts = rng.choice([None, None, 'java', 'java|py'])
    legacy = rng.random() < 0.15
    if legacy:
        exts = rng.choice([None, 'java'])
    nou = rng.random() < 0.3
    words = [rng.choice([['-p', ds], ['--path', ds]])]
    if exts:
        words.append(rng.choice([['-e', exts], ['--ext', exts]]))
    if id_:
        words.append(['--id', id_])
    if nou:
        words.append([rng.choice(['-U', '--no-unicode'])])
    if legacy:
        words.append(['--legacy'])
    args = line(rng, ['learn-bpe'], [str(n)], words)
    c = area.op('cli', args=args, home=homes[0], timeout=200)
    l = area.op('learn_lib', path=ds, n=n, exts='java' if legacy else exts, id_=id_, unicode='no' if nou else 'yes', home=homes[1], timeout=200)
    case = {'command line': args}
    check.count('learn-bpe command lines')
    check.evaluated(('learn', n, id_, exts, nou, legacy))
    if c.kind != 'ok' or l.kind != 'ok':
        check.violation('learning ended with %r %s by the command line and %r by the library' % (c, c.crash, l), case)
        return None
    x, y = [listing(os.path.join(h, '.config')) for h in homes]
    if set(x) != set(y):
        check.violation('learning: only the command line has %s, only the library %s' % (sorted(set(x) - set(y))[:4], sorted(set(y) - set(x))[:4]), case)
    for p in x:
        f = p.split(b'/')[-1]
        if p in y and x[p] != y[p] and (f == b'.name' or f in (b'vocab', b'nonbpe_vocab') and sorted_lines(x[p]) != sorted_lines(y[p])):
            check.violation('learning: %r is %r by the command line and %r by the library' % (p, x[p][:200], y[p][:200]), case)
        if p in y and f == b'merges.txt' and x[p].count(b'\n') != y[p].count(b'\n'):
            check.violation('learning: %d merges by the command line and %d by the library' % (x[p].count(b'\n'), y[p].count(b'\n')), case)
    done = [int(p.split(b'/')[-2]) for p in x if p.endswith(b'/merges.txt')]
    if id_ and l.value != id_:
        check.violation('id %r was given but %r assigned' % (id_, l.value), case)
    return homes[0], ['%s-%d' % (l.value, m) for m in done if m]


def session(check, area, rng):
    custom = learn_case(check, area, rng, 0) if rng.random() < 0.6 else None
    if custom and not custom[1]:
        custom = None
    ds = area.dir('bad')
    with open(ds + '/A.java', 'w') as f:
        f.write('int a;\n')
    ids = list(PREDEFINED)
    if custom:
        corpus.shutil.rmtree(area.home)
        corpus.shutil.copytree(custom[0], area.home)
        ids += custom[1] * 2
    text_batch(check, area, rng, ids, ds, rng.choice([20, 40]))
    for k in range(rng.choice([2, 4])):
        if not check.go_on():
            return
        path_case(check, area, rng, k, custom)


def work(check, i):
    while check.go_on():
        with corpus.Area(check, i) as area:
            session(check, area, check.rng)


def run(check):
    check.budget(65, 500)
    check.fork_workers(work)
    check.require(**{'command lines with a text': 200, 'command lines with a path': 25, 'invalid command lines': 80, 'learn-bpe command lines': 5,
                     'vocabularies compared': 5, 'output files compared': 60, 'real processes': 2, 'option max_str_length': 20, 'option ronin': 10})
