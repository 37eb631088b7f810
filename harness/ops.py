"""Operations on the code under test, run in a child process of their own (corpus.run_op).  Only these import codeprep."""
import os
import sys

OPT_NAMES = ('no_spaces', 'no_unicode', 'no_case', 'no_com', 'no_str', 'full_strings', 'max_str_length', 'split_numbers')


def prep(mode, path, out=None, exts=None, bpe_id=None, opts=None, calc_vocab=False, size=False, suppress_caching=False, load=True, max_parts=None):
    """One corpus run through the library, with everything the result object offers.  max_parts lowers the number of initial partial
    vocabularies, so that small datasets do what normally takes more than 5120 files."""
    if max_parts:
        import codeprep.pipeline.vocab
        if isinstance(getattr(codeprep.pipeline.vocab, 'MAX_INIT_PARTIAL_VOCABS', None), int):
            codeprep.pipeline.vocab.MAX_INIT_PARTIAL_VOCABS = max_parts
    import codeprep.api.corpus as c
    args = [path] + ([bpe_id] if mode == 'bpe' else [])
    kw = dict(opts or {})
    if exts is not None:
        kw['extensions'] = exts
    if out is not None:
        kw['output_path'] = out
    if calc_vocab:
        kw['calc_vocab'] = True
    if suppress_caching:
        kw['suppress_caching'] = True
    r = getattr(c, mode)(*args, **kw)
    res = {'prep': r.path_to_prep_dataset, 'path_to_vocab': r.path_to_vocab}
    if load:
        res['files'] = [os.fsencode(f) for f in r.get_file_iterator()]
        if calc_vocab:
            res['vocab'] = dict(r.load_vocab())
        if size:
            res['size'] = r.get_corpus_size()
            res['size2'] = r.get_corpus_size()
    return res


def texts(calls):
    """Text API results for a list of (mode, text, extension, bpe_id, options)."""
    import codeprep.api.text as t
    out = []
    for mode, text, ext, bpe_id, opts in calls:
        args = [text] + ([bpe_id] if mode == 'bpe' else [])
        kw = dict(opts)
        if mode == 'bpe':
            kw['force_reinit_bpe_data'] = not out  # same id throughout one batch
        try:
            out.append(('ok', [str(x) for x in getattr(t, mode)(*args, extension=ext, **kw)]))
        except Exception as e:
            out.append(('raised', '%s: %s' % (type(e).__name__, e)))
    return out


def cli(args):
    from codeprep.cli.spec import parse_and_run
    parse_and_run(args)


def nothing():
    import codeprep.api.corpus


def several(ops):
    return [globals()[name](**kw) for name, kw in ops]


def full_texts(calls):
    """Full tokens [(sub-tokens, type name)] of the text interface for a list of (mode, text, extension, bpe_id, options)."""
    import textlib
    out = []
    for n, (mode, text, ext, bpe_id, opts) in enumerate(calls):
        ok, r = textlib.run_mode(mode, text, ext, bpe_id=bpe_id, reinit=n == 0 or calls[n - 1][3] != bpe_id, **opts)
        if not ok:
            out.append(('raised', repr(r)))
        else:
            out.append(('ok', [(f.subs, f.type) for f in textlib.full_tokens(r)], sorted(r[1].nonprocessable_tokens)))
    return out


def load_codes(id_, n):
    """What the documented loaders give for learned codes."""
    from codeprep.pipeline import vocabloader, bperegistry
    return {'merges': [m.pair for m in bperegistry.load_bpe_merges(id_, n)], 'base': vocabloader.base(id_), 'nonbpe': sorted(vocabloader.nonbpe(id_)),
            'all': vocabloader.all(id_)}


def load_bpe_vocab(id_, n):
    from codeprep.pipeline import vocabloader
    return vocabloader.bpe(id_, n)


def cli_texts(calls, stub=False):
    """Command lines run one after another in this process: [(how it ended, what it printed)]."""
    import contextlib
    import io
    from codeprep.cli.spec import parse_and_run
    if stub:
        import spiralstub
        spiralstub.install()
    out = []
    for args in calls:
        f = io.StringIO()
        try:
            with contextlib.redirect_stdout(f):
                parse_and_run(list(args))
            how = 'ok'
        except SystemExit as e:
            how = 'exit %s' % type(e.__cause__ or e).__name__
        except Exception as e:
            how = 'raised %s: %s' % (type(e).__name__, e)
        out.append((how, f.getvalue()))
    return out


def lib_texts(calls, stub=False):
    if stub:
        import spiralstub
        spiralstub.install()
    import codeprep.api.text as t
    out = []
    for mode, text, ext, bpe_id, opts in calls:
        try:
            args = [text] + ([bpe_id] if mode == 'bpe' else [])
            out.append(('ok', getattr(t, mode)(*args, **dict(opts, **({} if ext is None else {'extension': ext})))))
        except Exception as e:
            out.append(('raised', '%s: %s' % (type(e).__name__, e)))
    return out


def learn_lib(path, n, exts, id_, unicode):
    """Learning through the library's own functions."""
    from codeprep.bpepkg.bpe_config import BpeConfig, BpeParam
    from codeprep.pipeline import bpelearner
    from codeprep.pipeline.dataset import Dataset
    conf = BpeConfig({BpeParam.CASE: 'yes', BpeParam.WORD_END: False, BpeParam.BASE: 'code', BpeParam.UNICODE: unicode})
    ds = Dataset.create(path, conf.to_prep_config(), exts, None, conf)
    if not ds.bpe_codes_id:
        ds.assign_bpe_codes_id(conf, predefined_bpe_codes_id=id_)
    bpelearner.run(ds, n, conf)
    return ds.bpe_codes_id


def standalone_vocab(path, out, ext, max_parts=None):
    """The vocabulary command for files preprocessed before: python -m codeprep.cli.vocab path out ext"""
    import runpy
    import sys
    if max_parts:
        import codeprep.pipeline.vocab
        if isinstance(getattr(codeprep.pipeline.vocab, 'MAX_INIT_PARTIAL_VOCABS', None), int):
            codeprep.pipeline.vocab.MAX_INIT_PARTIAL_VOCABS = max_parts
    sys.argv = ['vocab', path, out, ext]
    runpy.run_module('codeprep.cli.vocab', run_name='__main__')
