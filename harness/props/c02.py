"""C02: metadata."""
import gen
from textlib import *

RULE = ('a case is one (text, language, mode, options) whose word boundaries, types, markers and non-processable set were all checked; '
        'non-trivial if it has at least 3 full tokens; distinct by text+mode+options')
ASSUMPTIONS = ['Pygments token types are the ground truth for what a source element is']

SPECIAL = {';': 'Semicolon', '{': 'OpeningCurlyBracket', '}': 'ClosingCurlyBracket', '(': 'OpeningBracket', ')': 'ClosingBracket'}


def is_symbol(w):
    return len(w) == 1 and not regex.fullmatch(r'\w', w)


def expected_type(p, w):
    if p.kind == 'op':
        return {SPECIAL.get(w, 'Operator')}
    if p.kind == 'num':
        return {'Zero'} if w == '0' else {'One'} if w == '1' else {'Number'}
    if p.kind == 'kw':
        return {'KeyWord'}
    if p.kind == 'str':
        return {'StringLiteral'}
    if p.kind == 'olc':
        return {'OneLineComment'}
    if p.kind == 'mlc':
        return {'MultilineComment'}
    if regex.fullmatch(r'\w+', w):
        return {'Number'} if is_num_word(w) else {'SplitContainer', 'NonEng'}
    return {'NonCodeChar'}


def problem(text, ext, mode, opts, stats=None, reinit=True):
    ok, r = run_mode(mode, text, ext, reinit=reinit, **opts)
    if not ok:
        return 'raises: %r' % r
    tokens, md = r
    wb, tt = md.word_boundaries, md.token_types
    if not wb or wb[0] != 0:
        return 'boundaries do not start at 0: %r' % (wb[:5],)
    for a, b in zip(wb, wb[1:]):
        if not b > a:
            return 'boundaries not strictly increasing: ... %d, %d' % (a, b)
    if wb[-1] != len(tokens):
        return 'last boundary %d, %d tokens' % (wb[-1], len(tokens))
    if len(tt) != len(wb) - 1:
        return '%d types for %d full tokens' % (len(tt), len(wb) - 1)
    fts = full_tokens(r)
    # markers
    if mode in BPE_MODES:
        for f in fts:
            if not f.subs[-1].endswith(TEND):
                return 'no token-end marker at the end of %r' % f
            if '</t' not in text:
                for s in f.subs[:-1]:
                    if TEND in s:
                        return 'token-end marker inside %r' % f
                if f.subs[-1].count(TEND) != 1:
                    return 'several token-end markers in %r' % f
        if '</t' not in text:
            from codeprep.preprocess.metadata import check_metadata_validity
            ok, e = call(check_metadata_validity, tokens, md)
            if not ok:
                return 'the library rejects its own metadata: %r' % e
    else:
        for f in fts:
            if len(f.subs) == 1:
                if f.subs[0] in ('<w>', '</w>') and f.subs[0] not in text:
                    return 'lone marker %r' % f
                continue
            if f.subs == ('"', '"') and f.type == 'StringLiteral' and 'max_str_length' in opts:
                continue
            if len(f.subs) == 2 and f.subs[0] in ('<Cap>', '<CAPS>') and opts.get('no_case'):
                continue
            if mode in ('nosplit', 'full'):
                return 'unsplit full token of several sub-tokens: %r' % f
            if f.subs[0] != '<w>' or f.subs[-1] != '</w>' or len(f.subs) < 4:
                return 'not properly enclosed in word markers: %r' % f
            if '<w>' in f.subs[1:] or '</w>' in f.subs[:-1]:
                return 'word marker inside %r' % f
    # non-processable tokens
    exp = set()
    for f in fts:
        w = word_of(f, mode)
        if f.type in NONPROC:
            exp.add(w)
        elif f.type in ('OneLineComment', 'MultilineComment'):
            if is_symbol(w):
                exp.add(w)
        elif f.type == 'StringLiteral' and mode in ('nosplit', 'basic', 'basicn'):
            if f.subs == ('"', '"'):
                exp.add('"')
            elif is_symbol(w):
                exp.add(w)
        elif f.type == 'StringLiteral' and mode in BPE_MODES and f.subs == EMPTY_LITERAL[mode] and 'max_str_length' in opts:
            exp.add('"')
    got = set(md.nonprocessable_tokens)
    if mode in BPE_MODES and opts.get('no_unicode'):
        got.discard(u'\xf7')    # a symbol of the source or a replaced word
        exp.discard(u'\xf7')
    if mode in BPE_MODES and 'max_str_length' in opts:
        got.discard('"')    # whether '""' stands for an empty or an over-long literal cannot be told from the output
        exp.discard('"')
    if got != exp:
        return 'non-processable tokens: unexpected %r, missing %r' % (sorted(got - exp)[:5], sorted(exp - got)[:5])
    # types
    if not any(k in opts for k in ('no_com', 'no_str', 'max_str_length', 'no_unicode', 'no_case')):
        gt = ground_truth(text, ext)
        body = fts
        if opts.get('append_eof'):
            if not fts or fts[-1].type != 'SpecialToken' or word_of(fts[-1], mode) != '<EOF>':
                return 'end of file: %r' % fts[-1:]
            body = fts[:-1]
        try:
            own = align(body, mode, gt)
        except ValueError as e:
            if 'spans' in str(e):
                return str(e)
            if stats:
                stats('unaligned')
            return None
        for f, k in zip(body, own):
            w = word_of(f, mode)
            if k is None:
                if w == '<EOL>' and f.type == 'OneLineComment':
                    continue
                want = {'NewLine': '\n', 'Tab': '\t'}.get(f.type)
                if want is not None and w != want:
                    return 'type %s for %r' % (f.type, w)
                if want is None and f.type not in ('OneLineComment', 'MultilineComment', 'StringLiteral', 'NonCodeChar'):
                    return 'type %s for whitespace %r' % (f.type, w)
                continue
            exp_t = expected_type(gt[k], w)
            if f.type not in exp_t:
                return 'type %s for %r, which comes from %r (%s)' % (f.type, w, gt[k], '/'.join(sorted(exp_t)))
            if stats:
                stats('type:' + f.type)
    return None


def worker(check, i):
    rng = check.rng
    while check.go_on():
        batch = []
        for _ in range(30):
            ext, text, label = gen.any_case(rng)
            batch.append((ext, text, label))

        def one(c, mode, first):
            ext, text, label = c
            opts = {} if rng.random() < 0.4 else random_opts(rng, mode)
            p = problem(text, ext, mode, opts, check.count, first)
            check.evaluated((text, mode, sorted(opts.items())) if len(text) > 8 else None)
            check.count('mode:' + mode)
            for o in opts:
                check.count('opt:' + o)
            if p:
                small = shrink(text, lambda t: problem(t, ext, mode, opts) is not None)
                check.violation('%s [%s, mode %s %r] text %r' % (problem(small, ext, mode, opts) or p, ext, mode, opts, clip(small)),
                                case_of(small, ext, mode=mode, options=opts, original=text))
        in_batches(check, batch, MODES, one)
        check.sample({'text': clip(batch[0][1], 120), 'ext': batch[0][0]})


def run(check):
    check.budget(30, 240)
    import codeprep.api.text  # noqa
    check.fork_workers(worker)
    check.require(**{'mode:' + m: 100 for m in MODES})
    check.require(**{'type:' + t: 20 for t in ('KeyWord', 'Operator', 'Semicolon', 'OpeningBracket', 'ClosingBracket', 'OpeningCurlyBracket',
                                               'ClosingCurlyBracket', 'Number', 'Zero', 'One', 'StringLiteral', 'OneLineComment',
                                               'MultilineComment', 'SplitContainer', 'NonCodeChar')})
