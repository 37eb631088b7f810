"""C01: content conservation."""
import gen
from textlib import *

RULE = ('a case is one (text, language, mode) whose output was compared character by character with the lexed source; '
        'non-trivial if the text has at least 5 full tokens; distinct by text+language')
ASSUMPTIONS = ['Pygments returns a token stream whose values concatenate to the (newline-normalised) text']


def problem(text, ext, mode, reinit=True):
    ok, r = run_mode(mode, text, ext, reinit=reinit)
    if not ok:
        return 'raises: %r' % r
    try:
        fts = full_tokens(r)
    except BadMetadata as e:
        # content is judged on the tokens alone then
        toks = [t for t in r[0] if t not in ('<w>', '</w>', '<EOL>')]
        fts = [FT([t], '?') for t in toks]
    gt = ground_truth(text, ext)
    expected, mask = letters_allowed_lower(gt)
    actual = content_of(fts, mode)
    i = same_content(actual, expected, mask)
    if i is not None:
        return 'content differs at %d: got ...%r, source has ...%r' % (i, actual[max(0, i - 15):i + 25], expected[max(0, i - 15):i + 25])
    bad = [t for t in r[0] if ' ' in t]
    if bad:
        return 'token contains a space: %r' % bad[0]
    if any(t == '' for t in r[0]):
        return 'empty token in the output'
    if ' '.join(r[0]).split(' ') != list(r[0]) and r[0]:
        return 'space-separated form does not read back'
    return None


def one(check, text, ext, label, mode, reinit):
    p = problem(text, ext, mode, reinit)
    n = len(text)
    check.evaluated((text, ext) if n >= 10 else None)
    check.count('mode:' + mode)
    check.count('class:' + label)
    check.count('chars', n)
    if p:
        small = shrink(text, lambda t: problem(t, ext, mode) is not None)
        check.violation('%s [%s, mode %s] text %r' % (problem(small, ext, mode) or p, ext, mode, clip(small)),
                        case_of(small, ext, mode=mode, original=text))


def worker(check, i):
    rng = check.rng
    while check.go_on():
        batch = []
        for _ in range(40):
            ext, text, label = gen.any_case(rng)
            if rng.random() < 0.15:
                text = ''.join(rng.choice([gen.identifier(rng, tricky=True), ' ', '\n', rng.choice(gen.TRICKY), rng.choice(gen.SOUP)])
                               for _ in range(rng.randint(1, 12)))
                label = 'tricky'
            batch.append((ext, text, label))
        for mode in MODES:
            first = True
            for ext, text, label in batch:
                if not check.go_on():
                    return
                one(check, text, ext, label, mode, first)
                first = False
        for ext, text, label in batch[:1]:
            check.sample({'text': clip(text, 120), 'ext': ext, 'class': label})


def run(check):
    check.budget(30, 300)
    import codeprep.api.text  # noqa
    check.fork_workers(worker)
    check.require(**{'mode:' + m: 100 for m in MODES})
