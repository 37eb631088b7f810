"""C03: comments."""
import gen
from paired import *

RULE = ('a case is one (text, language, mode, other options) run with and without no_com and compared token by token; non-trivial if the '
        'source has at least one comment; distinct by text+mode+options')
ASSUMPTIONS = ['Pygments decides what a comment is']

COM = ('OneLineComment', 'MultilineComment')


def comment_segments(A, mode, gt):
    """[(start, end, kind)] of the comment segments of A, one per comment of the source; raises Mismatch if they do not correspond."""
    comments = [p for p in gt if p.kind in ('olc', 'mlc')]
    segs = []
    i = 0
    ci = 0
    while i < len(A):
        if A[i].type not in COM:
            i += 1
            continue
        if ci >= len(comments):
            raise Mismatch('token %r is marked as comment, but the source has no more comments' % A[i])
        c = comments[ci]
        want = 'OneLineComment' if c.kind == 'olc' else 'MultilineComment'
        target = nows(c.value)
        got = ''
        start = i
        if c.kind == 'olc':
            while i < len(A) and A[i].type == want and word_of(A[i], mode) != '<EOL>':
                got += nows(word_of(A[i], mode))
                i += 1
            if i >= len(A) or A[i].type != want or word_of(A[i], mode) != '<EOL>':
                raise Mismatch('one-line comment %r is not followed by an end-of-line-comment marker' % c.value)
            i += 1
        else:
            while i < len(A) and A[i].type == want and len(got) < len(target):
                if word_of(A[i], mode) == '<EOL>' and A[i].subs[0].startswith('<EOL>'):
                    raise Mismatch('end-of-line-comment marker inside another comment: %r' % c.value)
                got += nows(word_of(A[i], mode))
                i += 1
            while i < len(A) and A[i].type == want and not nows(word_of(A[i], mode)):
                i += 1      # trailing line breaks / tabs; reassigned below if they belong to the next comment (immaterial)
        if got.lower() != target.lower():
            raise Mismatch('words of comment %r are kept as %r' % (c.value, got))
        segs.append((start, i, want))
        ci += 1
    if ci != len(comments):
        raise Mismatch('comment %r is missing' % comments[ci].value)
    return segs


def problem(text, ext, mode, opts, stats=None, reinit=True):
    p = pair(text, ext, mode, opts, {'no_com': True}, reinit)
    if p is None:
        return None
    A, B = p
    gt = ground_truth(text, ext)
    try:
        if opts.get('no_unicode') or opts.get('no_case'):
            # the words are rewritten by the other option: locate the segments in the plain output, full tokens correspond
            ok, a0 = run_mode(mode, text, ext, reinit=False, **{k: v for k, v in opts.items() if k not in ('no_unicode', 'no_case')})
            if not ok:
                return None
            A0 = full_tokens(a0)
            if len(A0) != len(A):
                return None
        else:
            A0 = A
        if opts.get('no_spaces'):
            pass
        segs = comment_segments(A0, mode, gt)
        for s, e, t in segs:
            if t == 'OneLineComment' and word_of(A[e - 1], mode) != '<EOL>':
                raise Mismatch('end-of-line-comment marker missing: %r' % A[s:e])
        E = []
        pos = 0
        for s, e, t in segs:
            E.extend(A[pos:s])
            E.append(FT([end('<comment>', mode)], t))
            pos = e
        E.extend(A[pos:])
        for f in E:
            if f.type in COM and f.subs != (end('<comment>', mode),):
                raise Mismatch('comment token outside every comment: %r' % f)
        require_equal(B, E)
        for f in A:
            if word_of(f, mode) == '<EOL>' and f.type != 'OneLineComment' and '<EOL>' not in text:
                raise Mismatch('end-of-line-comment marker outside a one-line comment')
    except Mismatch as e:
        return str(e)
    if stats:
        for s, e, t in segs:
            stats('comments:' + t)
    return None


def case(rng):
    c = rng.random()
    if c < 0.5:
        return gen.any_case(rng)
    if c < 0.75:
        pieces = gen.java_program(rng)
        extra = [rng.choice([('lcom', '// ' + ' '.join(gen.com_word(rng) for _ in range(rng.randint(0, 4))) + '\n'), ('lcom', '//\n'),
                             ('bcom', '/**/'), ('bcom', '/* ' + gen.com_word(rng) + ' */'), ('bcom', '/** <EOL> */'), ('lcom', '// "str" /* x */\n')])
                 for _ in range(rng.randint(1, 4))]
        for e in extra:
            pieces.insert(rng.randint(0, len(pieces)), e)
        t = gen.text_of(pieces)
        if rng.random() < 0.2:
            t = t.rstrip('\n') + rng.choice(['// last', '/* last', '/* last */', ' // '])
        return 'java', t, 'java-comments'
    lang = rng.choice(['py', 'js', 'c', 'cpp', 'sql', 'sh', 'php', 'html', 'xml', 'rb', 'lua', 'hs', 'rs', 'css', 'pl', 'r', 'yaml', 'scala', 'go', 'bat', 'make', 'ini'])
    t = ''.join(gen.language_text(rng, lang) for _ in range(3))
    return lang, t, 'lang-comments'


def worker(check, i):
    rng = check.rng
    while check.go_on():
        batch = [case(rng) for _ in range(25)]

        def one(c, mode, first):
            ext, text, label = c
            opts = {} if rng.random() < 0.4 else random_opts(rng, mode)
            opts.pop('no_com', None)
            before = check.counters['comments:OneLineComment'] + check.counters['comments:MultilineComment']
            p = problem(text, ext, mode, opts, check.count, first)
            after = check.counters['comments:OneLineComment'] + check.counters['comments:MultilineComment']
            check.evaluated((text, mode, sorted(opts.items())) if after > before else None)
            check.count('mode:' + mode)
            if p:
                small = shrink(text, lambda t: problem(t, ext, mode, opts) is not None)
                check.violation('%s [%s, mode %s %r] text %r' % (problem(small, ext, mode, opts) or p, ext, mode, opts, clip(small)),
                                case_of(small, ext, mode=mode, options=opts, original=text))
        in_batches(check, batch, MODES, one)
        check.sample({'text': clip(batch[0][1], 120), 'ext': batch[0][0]})


def run(check):
    check.budget(30, 240)
    import codeprep.api.text  # noqa
    check.fork_workers(worker)
    check.require(**{'mode:' + m: 60 for m in MODES})
    check.require(**{'comments:OneLineComment': 200, 'comments:MultilineComment': 200})
