# -*- coding: utf-8 -*-
"""C23: encoding of option sets (complete enumeration)."""
import itertools
import sys

import gen
import spiralstub
from common import stable_hash
from textlib import call, random_opts, clip, Raised

RULE = ('an evaluation is one option set whose code was read back and compared, or one option set whose output through its code was compared with its output through named '
        'options on every probe text; non-trivial if its code is new; all option sets (lengths 0..70 and unlimited) are enumerated; distinct by option set')
ASSUMPTIONS = ['the external splitter spiral.ronin is not installed: a deterministic stand-in takes its place']

BIN = ('no_spaces', 'no_unicode', 'no_com', 'no_str')
LENGTHS = list(range(0, 71)) + [100, 1000, sys.maxsize]

PROBE = u'''class MyClass { // one-line Comment über 12
\tString s_1 = "a" + "bc" + "abcdefghij kl" + "lorem ipsum dolor sit amet consectetur 12345 Überraschung";
    /* multi
    line */ int getHTTPResponse2 = 0xFFL + 12345; x = ""; running_vehicles(größe);
\tchar c = "''' + 'q' * 54 + u'''";
}
'''
PROBE_LENS = ' '.join('"%s"' % ('z' * n) for n in range(0, 70))


def splits():
    """(api function, options of that function only)"""
    out = [('nosplit', {}), ('nosplit', {'full_strings': True}), ('chars', {})]
    for case in (False, True):
        for extra in ({}, {'split_numbers': True}, {'ronin': True}, {'stem': True}, {'ronin': True, 'split_numbers': True},
                      {'ronin': True, 'stem': True}, {'stem': True, 'split_numbers': True}, {'ronin': True, 'stem': True, 'split_numbers': True}):
            out.append(('basic', dict(extra, **({'no_case': True} if case else {}))))
    for i in ('1k', '5k', '10k', 'myid-7'):
        out.append(('bpe', {'bpe_codes_id': i}))
    return out


def all_sets():
    for (fn, sp), flags, length in itertools.product(splits(), itertools.product((False, True), repeat=4), LENGTHS):
        o = dict(sp)
        o.update({k: True for k, v in zip(BIN, flags) if v})
        if length != sys.maxsize:
            o['max_str_length'] = length
        yield fn, o


def config(fn, o):
    from codeprep.api.common import create_prep_config
    return create_prep_config(fn, **(o if not ('ronin' in o or 'stem' in o) else dict(o, ronin=True, split_numbers=True)))


def by_name(fn, o, text, ext='java'):
    from codeprep.api import text as api
    return call(getattr(api, fn), text, extension=ext, return_metadata=True, **(dict(o, force_reinit_bpe_data=False) if fn == 'bpe' else o))


def by_code(code, fn, o, text, ext='java'):
    from codeprep.api import text as api
    from codeprep.prepconfig import PrepConfig
    cid = {'bpe': o.get('bpe_codes_id'), 'chars': '0'}.get(fn)
    return call(lambda: api.preprocess(text, PrepConfig.from_encoded_string(code), cid, extension=ext, return_metadata=True, force_reinit_bpe_data=fn == 'chars'))


def digest(r):
    ok, v = r
    if not ok:
        return v.type
    t, m = v
    return stable_hash((t, list(m.word_boundaries), [x.__name__ for x in m.token_types], sorted(m.nonprocessable_tokens)))


def key_of(fn, o):
    return (fn, tuple(sorted((k, v) for k, v in o.items())))


def mechanism(sets):
    """Every pair differs in maximum lengths of 62 and more only."""
    rest = set()
    for fn, o in sets:
        o = dict(o)
        if o.pop('max_str_length', sys.maxsize) < 62:
            return None
        rest.add(key_of(fn, o))
    return 'max-str-length-ge-62' if len(rest) == 1 else None


def meaning(fn, o):
    """What the documentation says the options mean: option sets with the same meaning may share a code."""
    o = dict(o)
    if o.get('stem'):
        o.update(ronin=True)
    if o.get('ronin'):
        o.update(split_numbers=True)
    if o.get('no_str'):
        o.pop('max_str_length', None)
    elif o.get('max_str_length', 5) < 2:
        o['max_str_length'] = 2
    if fn == 'bpe' and o['bpe_codes_id'] not in ('1k', '5k', '10k'):
        o['bpe_codes_id'] = 'custom'
    return key_of(fn, o)


def codes(check):
    from codeprep.prepconfig import PrepConfig
    groups = {}
    for fn, o in all_sets():
        ok, c = call(config, fn, o)
        check.count('option sets encoded')
        if not ok:
            check.violation('option set refused: %s %r: %r' % (fn, o, c), {'mode': fn, 'options': o})
            check.evaluated()
            continue
        code = str(c)
        check.evaluated(code)
        groups.setdefault(code, {}).setdefault(meaning(fn, o), (fn, o))
        ok, back = call(PrepConfig.from_encoded_string, code)
        if not ok or str(back) != code or not back == c:
            check.violation('code %r of %s %r is read back as %r' % (code, fn, o, back if not ok else str(back)), {'mode': fn, 'options': o, 'code': code})
    for code, meanings in groups.items():
        if len(meanings) > 1:
            sets = list(meanings.values())
            mech = mechanism(sets)
            # only a collision if the outputs can differ
            for (f1, o1), (f2, o2) in itertools.islice(itertools.combinations(sets, 2), 60):
                if mech and check.known.match(mech):
                    break
                if differ(f1, o1, f2, o2):
                    check.violation('option sets with different output share the code %r: %s %r and %s %r' % (code, f1, o1, f2, o2),
                                    {'code': code, 'first': [f1, o1], 'second': [f2, o2]}, key=mechanism([(f1, o1), (f2, o2)]))
                    break
    check.count('codes', len(groups))
    return groups


def want_differs(o1, o2):
    """Two sets that differ in the maximum length only must differ on a literal between the lengths."""
    a, b = dict(o1), dict(o2)
    x, y = max(2, a.pop('max_str_length', sys.maxsize)), max(2, b.pop('max_str_length', sys.maxsize))
    return a == b and x != y and not a.get('no_str')


def differ(f1, o1, f2, o2):
    if f1 == f2 and want_differs(o1, o2):
        return True
    for t in (PROBE, PROBE_LENS):
        if 'bpe' in (f1, f2) and 'myid-7' in (o1.get('bpe_codes_id'), o2.get('bpe_codes_id')):
            return True
        if digest(by_name(f1, o1, t)) != digest(by_name(f2, o2, t)):
            return True
    return False


def valid_codes(check):
    """Every code made of permitted values is accepted and read back, unless the combination is unsupported."""
    from codeprep.prepconfig import PrepConfig, PrepParam
    values = [PrepConfig.possible_param_values[p] for p in PrepParam]
    for combo in itertools.product(*values):
        code = ''.join(combo)
        ok, c = call(PrepConfig.from_encoded_string, code)
        check.evaluated()
        check.count('codes tried')
        lower, split = combo[5] == 'l', combo[3]
        if lower and split in '0F45679':
            check.count('unsupported codes refused', int(not ok))
            if ok:
                check.violation('unsupported combination %r accepted' % code, {'code': code})
        elif not ok:
            if not (lower and split == '8'):
                check.violation('code %r refused: %r' % (code, c), {'code': code})
        elif str(c) != code:
            check.violation('code %r read back as %r' % (code, str(c)), {'code': code})
    good = 'uc1' + '1su'
    rng = check.rng
    for k in range(3000):
        pos = rng.randint(0, 5)
        ch = rng.choice(u'-_.;?~ üÄ\n/0123456789abcuUlsFZ')
        code = good[:pos] + ch + good[pos + 1:] if k % 3 else rng.choice([good[:-1], good + 'u', '', good * 2, good[:3]])
        valid = len(code) == 6 and all(v in vs for v, vs in zip(code, values))
        ok, c = call(PrepConfig.from_encoded_string, code)
        check.evaluated()
        if not valid:
            check.count('malformed codes refused', int(not ok))
            if ok:
                check.violation('malformed code %r accepted as %r' % (code, str(c)), {'code': code})


def refused(check):
    for fn, o in [('nosplit', {'no_case': True}), ('nosplit', {'no_case': True, 'full_strings': True})] + \
                 [('bpe', {'bpe_codes_id': i, 'no_case': True}) for i in ('1k', '5k', '10k', 'x-3')]:
        for flags in itertools.product((False, True), repeat=4):
            oo = dict(o, **{k: True for k, v in zip(BIN, flags) if v})
            ok, c = call(config, fn, oo)
            check.evaluated()
            check.count('unsupported option sets refused', int(not ok))
            if ok:
                check.violation('unsupported option set accepted: %s %r' % (fn, oo), {'mode': fn, 'options': oo})


def bpe_configs(check):
    from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam
    seen = {}
    for case, we, uni in itertools.product(*[BpeConfig.possible_param_values[p] for p in (BpeParam.CASE, BpeParam.WORD_END, BpeParam.UNICODE)]):
        c = BpeConfig({BpeParam.CASE: case, BpeParam.WORD_END: we, BpeParam.BASE: 'code', BpeParam.UNICODE: uni})
        ok, back = call(lambda: BpeConfig.from_suffix(c.to_suffix()))
        check.evaluated(('bpe', case, we, uni))
        check.count('learn configurations')
        if not ok or not back == c:
            check.violation('learn configuration %r is read back as %r' % (c, back), {'config': repr(c)})
        if c.to_suffix() in seen:
            check.violation('learn configurations %r and %r share a suffix' % (c, seen[c.to_suffix()]), {})
        seen[c.to_suffix()] = c


def outputs(check, i):
    rng = check.rng
    quick_lengths = {0, 1, 2, 3, 5, 14, 30, 60, 61, sys.maxsize}
    sets = [s for s in all_sets() if s[1].get('bpe_codes_id') != 'myid-7' and (check.thorough or s[1].get('max_str_length', sys.maxsize) in quick_lengths)]
    if not check.thorough:
        sets = [s for s in sets if not ('stem' in s[1] or 'ronin' in s[1]) or s[1].get('max_str_length', sys.maxsize) in (5, sys.maxsize)]
    groups = {}
    for s in sets:
        groups.setdefault((s[0], s[1].get('bpe_codes_id')), []).append(s)
    for (fn, bid), members in sorted(groups.items(), key=repr):
        if fn == 'bpe':
            from codeprep.api import text as api
            call(api.bpe, 'x', bid, 'java')   # (re)load the data of this id once
        rng.shuffle(members)
        members.sort(key=lambda s: stable_hash(key_of(*s)))
        for k, (fn, o) in enumerate(members):
            if k % 8 != i:
                continue
            if not check.go_on():
                return
            ok, c = call(config, fn, o)
            if not ok:
                continue
            texts = [PROBE, PROBE_LENS]
            if rng.random() < 0.5:
                texts.append(gen.any_case(rng)[1])
            for t in texts:
                a, b = by_name(fn, o, t), by_code(str(c), fn, o, t)
                check.evaluated((key_of(fn, o), stable_hash(t)))
                check.count('outputs compared')
                if digest(a) != digest(b):
                    check.violation('%s with options %r and with its code %r give different output on %r' % (fn, o, str(c), clip(t, 200)),
                                    {'mode': fn, 'options': o, 'code': str(c), 'text': t, 'named': repr(a)[:2000], 'coded': repr(b)[:2000]})
            check.count('option sets run')
        if fn == 'bpe':
            check.count('ids')


def run(check):
    check.budget(60, 600)
    spiralstub.install()
    import codeprep.api.text  # noqa
    codes(check)
    valid_codes(check)
    refused(check)
    bpe_configs(check)
    if check.go_on():
        check.fork_workers(outputs)
    check.notes['exhaustive'] = True
    check.sample({'mode': 'basic', 'options': {'no_case': True, 'max_str_length': 5}})
    check.require(**{'option sets encoded': 20000, 'codes tried': 10000, 'outputs compared': 2000, 'unsupported option sets refused': 50})
