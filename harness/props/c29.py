# -*- coding: utf-8 -*-
"""C29: statistical splitting and stemming (the external splitter is a recording stand-in)."""
import gen
import spiralstub
from paired import *
from spiralstub import pieces

RULE = ('a case is one (text, language, options) run with split numbers and again with ronin or stem; the expected output is the former with every word sub-token '
        'replaced by what the splitter stand-in (and the Porter stemmer) give for it; non-trivial if a word was cut or stemmed; distinct by text+options')
ASSUMPTIONS = ['the external splitter spiral.ronin is not installed: a deterministic recording stand-in takes its place']
CONST = ('<Cap>', '<CAPS>', '<non-en>', '<comment>', '<str-literal>', '<EOL>', '<EOF>')
CONTAINERS = ('OneLineComment', 'MultilineComment', 'StringLiteral')


def stemmer():
    from nltk.stem import PorterStemmer
    return PorterStemmer()


def stem_ref(ps, p):
    s = ps.stem(p)
    if p.isupper():
        return s.upper()
    if p[:1].isupper():
        return s[:1].upper() + s[1:].lower()
    return s


def expected(f, stem, ps, stats):
    if f.type in NONPROC or f.type in ('Number', 'Zero', 'One'):
        return f.subs
    subs = list(f.subs)
    wrapped = len(subs) > 1 and subs[0] == '<w>' and subs[-1] == '</w>'
    inner = subs[1:-1] if wrapped else subs
    w, mark = '', None   # the word as it was written: 0X1F is not a number, 0x1F is one
    for s in inner:
        if s in ('<Cap>', '<CAPS>'):
            mark = s
        else:
            w, mark = w + (s.upper() if mark == '<CAPS>' else s[:1].upper() + s[1:] if mark else s), None
    if f.type in CONTAINERS and (regex.fullmatch(r'\w+', w) is None or is_num_word(w)):
        return f.subs
    if len(inner) == 1 and inner[0] in CONST:
        return f.subs
    out = []
    for s in inner:
        if s == '_' or s in ('<Cap>', '<CAPS>'):
            out.append(s)
            continue
        got = pieces(s)
        if stem:
            got = [stem_ref(ps, p) for p in got]
        if got != [s]:
            stats('words cut or stemmed')
        stats('words')
        out.extend(got)
    if len(out) == 1 or len(out) == 2 and out[0] in ('<Cap>', '<CAPS>'):
        return tuple(out)
    return ('<w>',) + tuple(out) + ('</w>',)


def problem(text, ext, opts, stem, ps, stats=lambda *a: None):
    api = __import__('codeprep.api.text', fromlist=['x'])
    ok, a = run_mode('basicn', text, ext, **opts)
    if not ok:
        return None
    try:
        A = full_tokens(a)
    except BadMetadata:
        return None
    del spiralstub.calls[:]
    extra = {'stem': True} if stem else {'ronin': True}
    ok, b = call(api.basic, text, ext, return_metadata=True, **dict(opts, **extra))
    if not ok:
        return 'raises %r' % b
    stats('splitter calls', len(spiralstub.calls))
    try:
        B = full_tokens(b)
    except BadMetadata as e:
        return str(e)
    E = [FT(expected(f, stem, ps, stats), f.type) for f in A]
    if B != E:
        return diff_text(B, E)
    if set(b[1].nonprocessable_tokens) != set(a[1].nonprocessable_tokens):
        return 'non-processable tokens %r instead of %r' % (sorted(b[1].nonprocessable_tokens), sorted(a[1].nonprocessable_tokens))
    return None


STEMMY = ['running', 'Vehicles', 'PRINTERS', 'counting', 'Listeners', 'flies', 'relational', 'ABILITIES', 'happy', 'Agreed', 'test', 'caresses', 'iterators', 'Splitting', 'X', 'IO', 'eS', 'sses',
          u'Überraschungen', u'ÜBERRASCHUNGS', u'ñandús', 'a1b2', 'x', 'ies', 'ING', 'Ing']


def case(rng):
    c = rng.random()
    if c < 0.5:
        ext, text, _ = gen.any_case(rng)
        return ext, text
    words = []
    for _ in range(rng.randint(1, 10)):
        words.append(rng.choice(['', '_', '__', '1']).join(rng.choice(STEMMY) for _ in range(rng.randint(1, 3))))
        if rng.random() < 0.3:
            words[-1] = gen.identifier(rng, tricky=True)
        if rng.random() < 0.2:
            words[-1] = str(rng.randint(0, 99999))
    return 'java', rng.choice(['%s', '/* %s */', '"%s"', '// %s\n', 'x = %s;', '%s']) % rng.choice([' ', ' + ', ', ']).join(words)


def odd_case(c):
    """Letters without plain capitalisation rules (title-case forms, case mappings that do not round-trip)."""
    return c.capitalize() != c.upper() or c.title() != c.upper() or '\u10a0' <= c <= '\u10ff' or '\u1c90' <= c <= '\u1cbf' or c.upper().lower() != c.lower() or c.isupper() and c.lower().upper() != c or c.islower() and c.upper().lower() != c


def worker(check, i):
    rng = check.rng
    ps = stemmer()
    while check.go_on():
        ext, text = case(rng)
        text = ''.join('x' if odd_case(c) else c for c in text)
        for stem in (False, True):
            opts = {} if rng.random() < 0.4 else random_opts(rng, 'basic')
            before = check.counters['words cut or stemmed']
            p = problem(text, ext, opts, stem, ps, check.count)
            check.evaluated((text, sorted(opts.items()), stem) if check.counters['words cut or stemmed'] > before else None)
            check.count('stem' if stem else 'ronin')
            if p:
                small = shrink(text, lambda t: problem(t, ext, opts, stem, ps) is not None)
                check.violation('%s [%s, %s %r] text %r' % (problem(small, ext, opts, stem, ps) or p, ext, 'stem' if stem else 'ronin', opts, clip(small)),
                                case_of(small, ext, options=opts, stem=stem, original=text))
                break
        check.sample({'text': clip(text, 120), 'ext': ext})


def run(check):
    check.budget(20, 200)
    spiralstub.install()
    import codeprep.api.text  # noqa
    check.fork_workers(worker)
    check.require(**{'words cut or stemmed': 5000, 'ronin': 500, 'stem': 500, 'splitter calls': 5000})
