"""C20: vocabulary and corpus size are exact, however counting and merging are scheduled."""
import codecs
import collections
import os

import corpus

RULE = ('one evaluation = one vocabulary calculation (and corpus size) compared with an independent count over the output files; '
        'non-trivial = distinct (number of files, processor count, delays, vocabulary) with at least two files')
ASSUMPTIONS = ['schedules are varied by processor count, injected delays and load, not enumerated']


def count_tokens(outputs):
    c = collections.Counter()
    for data in outputs.values():
        line = data.decode('ascii')
        assert line.endswith('\n')
        c.update(line[:-1].split(' '))
    return c


def wrong_vocab(vocab_dir_file, outputs):
    """Compare the stored files with own counts.  None or what is wrong."""
    want = count_tokens(outputs)
    with open(vocab_dir_file, newline='\n') as f:
        text = f.read()
    if not text.endswith('\n'):
        return 'the last line of the vocabulary is not complete'
    got, last = {}, None
    for n, line in enumerate(text[:-1].split('\n')):
        parts = line.split('\t')
        if len(parts) != 2 or not parts[1].isdigit():
            return 'line %d of the vocabulary is %r' % (n, line)
        if parts[0] in got:
            return 'token %r is listed twice' % parts[0]
        got[parts[0]] = int(parts[1])
        if last is not None and got[parts[0]] > last:
            return 'not sorted by frequency at line %d' % n
        last = got[parts[0]]
    bad = [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
    if bad:
        return '%d of %d counts are wrong, e.g. %s (token, stored, real)' % (len(bad), len(want), bad[:4])
    with open(os.path.join(os.path.dirname(vocab_dir_file), 'vocabsize')) as f:
        size = f.read().split('\n')[0]
    if size != str(len(want)):
        return 'stored vocabulary size is %s, there are %d distinct tokens' % (size, len(want))
    return None


def wrong_result(v):
    """Judge the value of ops.prep with calc_vocab (and size)."""
    outs = corpus.outputs(v['prep'])
    bad = wrong_vocab(v['path_to_vocab'], outs)
    if bad:
        return bad
    want = {codecs.decode(k, 'unicode_escape'): n for k, n in count_tokens(outs).items()}
    if v['vocab'] != want:
        d = [(k, v['vocab'].get(k), want.get(k)) for k in sorted(set(want) | set(v['vocab'])) if v['vocab'].get(k) != want.get(k)]
        return 'the loaded vocabulary differs from the counts: %s' % d[:4]
    total = sum(want.values())
    if 'size' in v and (v['size'] != total or v['size2'] != total):
        return 'the corpus size is given as %s, then %s; there are %d tokens' % (v['size'], v['size2'], total)
    return None


def leftovers(area):
    out = []
    for base in (area.home, area.out):
        for d, ss, fs in os.walk(base):
            out += [os.path.relpath(os.path.join(d, x), base) for x in fs if x.endswith(('.part', 'partvocab'))]
            out += [os.path.relpath(os.path.join(d, x), base) for x in ss if x == 'part_vocab']
    return out


def make_files(rng, root, n):
    """Many small files sharing a skewed vocabulary, with rare tokens in few files."""
    words = ['w%d' % i for i in range(rng.choice([3, 40, 400, 4000]))] + [u'\xe4b', '"s t"', '\\', "'", '42', '0x1F', '/* c d */', '#', u'\u65e5', 'int']
    if rng.random() < 0.4:
        words.append(rng.choice(['v', '"s', '0x', u'\xe4']) + ''.join(rng.choice('ab1 _' if rng.random() < 0.1 else 'abC') for _ in range(int(10 ** rng.uniform(2, 4.3)))))
        words[-1] += '"' if words[-1][0] == '"' else ''
    weights = [1.0 / (i + 1) for i in range(len(words))]
    empty = rng.random() < 0.2
    for i in range(n):
        d = os.path.join(root, 'd%d' % rng.randrange(max(1, n // 8)))
        os.makedirs(d, exist_ok=True)
        m = rng.choice([1, 2, 5, 30, 30, 300, 1500][:7 if n < 150 else 4]) if n < 1000 else rng.choice([1, 2, 3])
        text = ' '.join(rng.choices(words, weights, k=m)) + rng.choice(['\n', '', '\n\n', '\t\n'])
        if empty and rng.random() < 0.5:
            text = ''
        with open(os.path.join(d, 'f%d.java' % i), 'w') as f:
            f.write(text)


def one(check, area, rng, k, n, big=False):
    ds = os.path.join(area.root, 'ds%d' % k)
    if rng.random() < 0.5 or n > 60:
        make_files(rng, ds, n)
    else:
        corpus.build_tree(rng, ds, n)
    mode = rng.choice(['nosplit', 'basic', 'chars', 'bpe']) if not big else rng.choice(['nosplit', 'basic'])
    opts = corpus.random_opts(rng, mode) if not big else {}
    cpus = rng.choice([1, 2, 3, 4, 5, 8, 12]) if not big else 8
    delays = dict(permille=0, delay_us=0, seed=0)
    if rng.random() < 0.6 and not big:
        delays = dict(permille=rng.choice([30, 150, 500]), delay_us=rng.choice([500, 5000, 40000]), seed=rng.randrange(1 << 30))
        if n > 50:
            delays['delay_us'] = min(delays['delay_us'], 5000)
    second = rng.random() < 0.25
    sup = rng.random() < 0.15
    parts = rng.choice([1, 2, 3, 7, 50]) if rng.random() < 0.5 and not big else None
    params = dict(mode=mode, path=ds, out=area.out, bpe_id='1k', opts=opts, suppress_caching=sup, exts=None, max_parts=parts)
    case = dict(initial_partial_vocabularies=parts, mode=mode, options=opts, files=n, cpus=cpus, delays=delays, suppress_caching=sup, after_run_without_vocabulary=second)
    n_real = len(corpus.selected(ds, None))
    if not n_real:
        return
    if second:
        o = area.op('prep', cpus=cpus, **params)
        if o.kind != 'ok':
            check.violation('run failed: %r %s' % (o, o.crash or o.err[-400:]), case)
            return
    o = area.op('prep', calc_vocab=True, size=True, cpus=cpus, timeout=300 if big else 90,
                watch=[area.home + '/.config'] if not big else (), **dict(params, **delays))
    check.count('vocabularies calculated')
    if o.kind != 'ok':
        check.violation('vocabulary calculation failed: %r %s' % (o, o.crash or o.err[-1200:]), case)
        return
    check.count('injected delays', max(0, o.delayed))
    bad = wrong_result(o.value)
    check.count('tokens counted', o.value['size'])
    check.count('distinct tokens', len(o.value['vocab']))
    check.count('files counted', n_real)
    if n_real > 20:
        check.count('with more files than chunks')
    if parts and n_real > parts:
        check.count('with a lowered number of initial partial vocabularies')
    if n_real > 5120:
        check.count('with more files than initial partial vocabularies')
    if bad:
        small = {repr(p): repr(c[:200]) for p, c in sorted(corpus.selected(ds, None).items())[:30]}
        check.violation('%s (%d files)' % (bad, n_real), dict(case, input=small))
    check.evaluated((n_real, cpus, delays['permille'], delays['delay_us'], sorted(o.value['vocab'].items())[:200]) if n_real > 1 else None)
    lo = leftovers(area)
    if lo:
        check.violation('partial results left behind: %s' % lo[:4], case)
    # asked again, the stored result is what is given
    if rng.random() < 0.15 and not big:
        o2 = area.op('prep', calc_vocab=True, size=True, cpus=cpus, **params)
        check.count('asked again')
        if o2.kind != 'ok' or wrong_result(o2.value):
            check.violation('asked again: %r' % (o2 if o2.kind != 'ok' else wrong_result(o2.value)), case)
    check.sample({'case': case, 'distinct': len(o.value['vocab']), 'tokens': o.value['size'], 'delays injected': o.delayed})


def standalone(check, area, rng, k):
    """The vocabulary of files preprocessed elsewhere, several lines each, by the module's own command."""
    root = os.path.join(area.root, 'files%d' % k)
    n = rng.choice([1, 2, 5, 19, 20, 21, 45, 90])
    ext = rng.choice(['prep', '.prep', 'txt'])
    words = ['t%d' % i for i in range(rng.choice([2, 30, 900]))] + ['\\n', '\\t', '<w>', '</w>', '\\xe4', '"', '\\\\', '<EOF>', '#', "'"]
    outputs = {}
    for j in range(n):
        d = os.path.join(root, *['d%d' % rng.randrange(3) for _ in range(rng.choice([0, 1, 1, 3]))])
        os.makedirs(d, exist_ok=True)
        lines = [' '.join(rng.choice(words) for _ in range(rng.choice([1, 3, 20, 200]))) for _ in range(rng.choice([1, 1, 2, 7]))]
        other = j and rng.random() < 0.2
        with open(os.path.join(d, 'f%d%s' % (j, '.other' if other else '.' + ext.lstrip('.'))), 'w') as f:
            f.write('\n'.join(lines) + '\n')
        if not other:
            outputs[j] = (' '.join(lines) + '\n').encode()
    out = os.path.join(area.out, 'vocabulary%d' % k)
    cpus, parts = rng.choice([1, 2, 4, 7]), rng.choice([None, 1, 3, 20])
    case = {'files': n, 'extension': ext, 'cpus': cpus, 'initial_partial_vocabularies': parts, 'input': {j: d[:300].decode() for j, d in sorted(outputs.items())[:20]}}
    for again in (False, True):
        o = area.op('standalone_vocab', path=root, out=out, ext=ext, max_parts=parts, cpus=cpus, permille=rng.choice([0, 100]), delay_us=2000, seed=rng.randrange(1 << 30))
        check.count('standalone vocabularies')
        if o.kind not in ('ok', 'exit'):
            check.violation('vocabulary command failed: %r %s' % (o, o.crash or o.err[-600:]), case)
            return
        bad = wrong_vocab(os.path.join(out, 'vocab'), outputs) if os.path.exists(os.path.join(out, 'vocab')) else 'there is no vocabulary'
        if bad:
            check.violation('vocabulary command%s: %s' % (' asked again' if again else '', bad), case)
            return
        check.evaluated(('standalone', n, ext, cpus, parts, len(words)) if n > 1 else None)
        if rng.random() < 0.7:
            return


def work(check, i):
    rng = check.rng
    k = 0
    if i == 0 or check.thorough:
        with corpus.Area(check, i, 'big') as area:
            if i == 0:
                n = rng.choice([5121, 5130, 5200, 5300])
            else:
                n = rng.choice([1300, 2600, 5120, 5121, 6000, 10239, 10241])
            one(check, area, rng, 0, n, big=True)
    while check.go_on():
        k += 1
        with corpus.Area(check, i) as area:
            n = rng.choice([1, 2, 3, 5, 10, 15])
            if k % 4 == 1:
                n = rng.choice([19, 20, 21, 22, 39, 40, 41, 60, 61, 100, 130])
            if k % 12 == 7:
                n = rng.choice([200, 400, 700])
            one(check, area, rng, k, n)
            if k % 4 == 2:
                standalone(check, area, rng, k)


def run(check):
    check.budget(65, 600)
    check.fork_workers(work)
    check.require(**{'vocabularies calculated': 25, 'tokens counted': 5000, 'injected delays': 50, 'with more files than chunks': 5,
                     'with more files than initial partial vocabularies': 1, 'with a lowered number of initial partial vocabularies': 4, 'asked again': 1, 'standalone vocabularies': 4})
