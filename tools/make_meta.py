#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing; the results are committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, level, note, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, level=level, note=note, state=state, hook=hook))


T = 'codeprep/'
TEXT_API = 'return values of the text API (nosplit, basic, bpe, chars) with metadata'
ORACLE_NOTE = ('Held on the executions observed, nothing more; trusts Pygments\' token stream (for languages other than the '
               'generated Java, whose ground truth is known by construction) and the oracle in harness/.')

prop('C01', 'Preprocessing preserves the source content',
     'When no option that removes or replaces content is on, the tokens of a text, concatenated in order without the documented '
     'marker tokens, spell exactly the non-whitespace characters of the text, in every language and every splitting mode; only '
     'letters of numeric literals may be lowercased. No token contains a plain space, so the space-separated form can be read back unambiguously.',
     ['inputs', 'configurations'], 'all texts (any language, any Unicode) x nosplit, full strings, basic, split numbers, chars, bpe',
     'The tests check a few dozen hand-written snippets and one Java corpus; the guarantee is over every text and every lexer.',
     [T + 'parse/matchers.py', T + 'parse/subtokens.py', T + 'parse/core.py', T + 'tokens/word.py', T + 'tokens/containers.py'],
     [('token matchers', 'codeprep/parse/matchers.py'), ('identifier splitting and case-preserving words', 'codeprep/parse/subtokens.py, codeprep/tokens/word.py')],
     [TEXT_API], 'runtime monitor: content-conservation checker on generated and real texts', 'exploration', ORACLE_NOTE)

prop('C02', 'Metadata describes exactly the returned tokens',
     'For every text and option combination the returned word boundaries start at 0, strictly increase and end at the number of tokens, '
     'with exactly one type per full token, and the type is that of the source element the token came from. In bpe and chars output the '
     'token-end marker is on the last sub-token of each full token and nowhere else; elsewhere a full token of several sub-tokens is enclosed in the word start and end '
     'markers, and the reported non-processable tokens are exactly the unsplittable tokens (operators, keywords, symbols, line breaks, tabs, end of file) of the output.',
     ['inputs', 'configurations'], 'all texts x all option combinations of the text API',
     'Tests compare metadata of single hand-built token lists; the guarantee is over all texts and option combinations.',
     [T + 'preprocess/metadata.py', T + 'preprocess/core.py', T + 'pipeline/to_repr.py', T + 'tokens/containers.py'],
     [('metadata accumulation', 'codeprep/preprocess/metadata.py'), ('marker insertion', 'codeprep/pipeline/to_repr.py')],
     [TEXT_API], 'runtime monitor: structural invariant + ground-truth type checker', 'exploration', ORACLE_NOTE)

prop('C03', 'Comment option replaces comments and nothing else',
     'With comments removed every comment of the source becomes exactly one comment placeholder and every other token is the same as without the option. '
     'Without it the words of comments are kept and each one-line comment, and nothing else, is followed by exactly one end-of-line-comment marker.',
     ['inputs', 'configurations'], 'all texts and languages x all splitting modes, with and without the other options',
     'Tests use single comments in single-line snippets.',
     [T + 'parse/matchers.py', T + 'tokens/containers.py', T + 'prepconfig.py'],
     [('comment containers', 'codeprep/tokens/containers.py'), ('option to replaced types', 'codeprep/prepconfig.py')],
     [TEXT_API], 'runtime monitor: differential checker of paired runs against comment ground truth', 'exploration', ORACLE_NOTE)

prop('C04', 'String options replace exactly the right string literals',
     'With strings removed every string literal becomes exactly one string placeholder; with a maximum string length L exactly the literals longer than L, quotes '
     'included (0 and 1 count as 2), become an empty literal; with full strings each literal stays one token with its spaces kept. All other tokens are the same as without the option.',
     ['inputs', 'configurations'], 'all texts and languages x all splitting modes x all maximum lengths',
     'Tests try a handful of literals and lengths; off-by-one and mode-specific behaviour need every length and mode.',
     [T + 'tokens/containers.py', T + 'parse/subtokens.py', T + 'prepconfig.py', T + 'api/common.py'],
     [('string literal representation', 'codeprep/tokens/containers.py'), ('length option encoding', 'codeprep/api/common.py, codeprep/prepconfig.py')],
     [TEXT_API], 'runtime monitor: differential checker of paired runs against string-literal ground truth', 'exploration', ORACLE_NOTE)

prop('C05', 'Whitespace option removes only newlines and tabs',
     'With whitespace removal on, the output is that without the option minus exactly the newline and tab tokens, in every mode and language and with every other option. '
     'Without it, in Java code each line break outside string literals gives one newline token and each tab or run of four spaces one tab token, except a trailing line break at the end of the text.',
     ['inputs', 'configurations'], 'all texts and languages x all splitting modes x other options',
     'Tests have a couple of snippets with simple indentation.',
     [T + 'tokens/whitespace.py', T + 'parse/matchers.py', T + 'prepconfig.py', T + 'api/text.py'],
     [('whitespace tokens', 'codeprep/tokens/whitespace.py'), ('whitespace matchers', 'codeprep/parse/matchers.py')],
     [TEXT_API], 'runtime monitor: differential checker of paired runs', 'exploration', ORACLE_NOTE)

prop('C06', 'ASCII option replaces exactly the non-ASCII words',
     'With non-ASCII words removed every word containing a non-ASCII letter becomes exactly one placeholder (in bpe and chars output, and in full string literals, each maximal '
     'non-ASCII run becomes one placeholder character and the ASCII rest keeps its exact form), so that no non-ASCII letter is left. All other tokens are the same as without the option.',
     ['inputs', 'configurations'], 'all texts and languages x all splitting modes, with and without the other options',
     'Tests have a few German and Cyrillic words.',
     [T + 'tokens/noneng.py', T + 'noneng.py', T + 'parse/subtokens.py', T + 'tokens/containers.py'],
     [('non-ASCII wrapper token', 'codeprep/tokens/noneng.py'), ('sequence replacement', 'codeprep/noneng.py')],
     [TEXT_API], 'runtime monitor: differential checker of paired runs', 'exploration', ORACLE_NOTE)

prop('C07', 'Lowercasing is lossless',
     'With lowercasing on, undoing the case markers (a capital marker capitalises the next sub-token, an all-capitals marker uppercases it) gives exactly the output without lowercasing, for every text. '
     'No sub-token of an identifier keeps a capital letter that lowercasing can represent, and a marker always precedes the sub-token it belongs to inside the same full token.',
     ['inputs', 'configurations'], 'all texts and languages x basic splitting with its other options',
     'Tests have a few camel-case identifiers; Unicode case mappings are full of exceptions.',
     [T + 'tokens/word.py', T + 'tokens/containers.py'],
     [('capitalisation kept beside the lower-case form', 'codeprep/tokens/word.py')],
     [TEXT_API], 'runtime monitor: inverse-function checker of paired runs', 'exploration', ORACLE_NOTE)

prop('C08', 'All splitting modes agree on the full tokens',
     'For the same text and options the full tokens of basic, number-splitting, chars and bpe output, each put together from its sub-tokens, are the full tokens of the unsplit output, one for one '
     'and with the same types; chars output has one sub-token per character. String literals, which chars and bpe keep whole, correspond to the unsplit output with full strings.',
     ['inputs', 'configurations'], 'all texts and languages x shared options',
     'Tests compare single modes with hand-written expectations, never modes with each other.',
     [T + 'tokens/containers.py', T + 'tokens/numeric.py', T + 'pipeline/to_repr.py', T + 'subtokens.py', T + 'prepconfig.py'],
     [('split containers', 'codeprep/tokens/containers.py'), ('full-token iteration', 'codeprep/subtokens.py')],
     [TEXT_API], 'runtime monitor: cross-mode consistency checker', 'exploration', ORACLE_NOTE)

prop('C09', 'Identifiers and numbers are split by the documented rules',
     'Basic splitting breaks an identifier exactly at underscores (each its own sub-token), between letters and digits, before an upper-case letter following a lower-case one, and before the '
     'last capital of a run of capitals when a lower-case letter follows; with split numbers every number is broken into its characters, otherwise it is kept whole. A word is a number exactly if it is an integer (decimal, plain exponent form such as 1e10, 0x, 0b, with _ separators and optional suffix) when it stands inside a comment or string.',
     ['inputs', 'configurations'], 'all identifiers over ASCII and cased Unicode letters, digits and underscores; all numbers',
     'Tests list about twenty identifiers.',
     [T + 'parse/subtokens.py', T + 'tokens/numeric.py', T + 'tokens/containers.py'],
     [('identifier regular expression', 'codeprep/parse/subtokens.py'), ('number splitter', 'codeprep/prepconfig.py')],
     [TEXT_API], 'runtime monitor: independent scanner as reference model', 'exploration', ORACLE_NOTE)

prop('C10', 'BPE application follows the merge list exactly',
     'The sub-tokens bpe produces for any word are those obtained by starting from its characters and repeatedly applying, left to right, the present pair with the smallest rank in the merge list until none is left. '
     'This holds for any word, including ones with the escape character, for predefined and learned merge lists, and regardless of what was preprocessed before or whether a result is cached.',
     ['inputs', 'histories'], 'all words x all merge lists x all preceding calls',
     'Tests encode a handful of words with the bundled lists.',
     [T + 'bpepkg/bpe_encode.py', T + 'bpepkg/merge.py', T + 'bpepkg/cache.py', T + 'pipeline/to_repr.py'],
     [('merge loop', 'codeprep/bpepkg/bpe_encode.py'), ('escape and unescape', 'codeprep/bpepkg/bpe_encode.py')],
     ['bpe text API results', 'word encoder results and the cache after calls'], 'runtime monitor: reference-model comparison of every encoded word', 'exploration', ORACLE_NOTE)

prop('C11', 'BPE learning is greedy and counts exactly',
     'For every vocabulary each learned merge is a most frequent adjacent pair of the vocabulary as split so far, with exactly its frequency recorded, and learning stops only after the requested number of merges or when no pair is left. '
     'The resulting split vocabulary is that obtained by applying the merges in order, with word frequencies unchanged.',
     ['inputs'], 'all weighted vocabularies x numbers of merges',
     'Tests learn from toy vocabularies; incremental count maintenance goes wrong on repeats and overlaps only.',
     [T + 'bpepkg/bpe_learn.py', T + 'util.py', T + 'bpepkg/merge.py'],
     [('incremental pair counts', 'codeprep/bpepkg/bpe_learn.py'), ('priority counter', 'codeprep/util.py')],
     ['merges and split vocabulary returned by learning, shadowed merge by merge'], 'runtime monitor: shadow recount after every merge', 'exploration', ORACLE_NOTE)

prop('C12', 'Continued BPE learning extends earlier results',
     'Learning more merges for a dataset after fewer were learned gives a merge list that starts with the earlier list, continues greedily with exact counts, and has the requested length or ends when no pair is left. '
     'The files stored for a number of merges agree with one another: the cache and vocabulary are those of applying the stored merges to the dataset\'s vocabulary, and earlier results are not touched.',
     ['inputs', 'histories'], 'all datasets x sequences of learn requests (growing, shrinking, repeated, beyond what is available)',
     'One test with mocks covers one continuation.',
     [T + 'pipeline/bpelearner.py', T + 'bpepkg/merge.py', T + 'pipeline/bperegistry.py'],
     [('resuming from the largest stored result', 'codeprep/pipeline/bpelearner.py')],
     ['stored merge lists, caches and vocabularies after each learn request'], 'runtime monitor: offline checker over the stored results of learn histories', 'exploration', ORACLE_NOTE)

prop('C13', 'BPE code ids resolve to the right merges',
     'For every set of learned merge lists, asking for id-n uses the first n merges of the list learned under that id, or is refused with a clear error if fewer are available or the id is unknown. '
     'Ids assigned automatically are new and non-empty, a given id is kept, and predefined ids always mean the bundled lists.',
     ['inputs', 'histories', 'configurations'], 'all registries (ids with dashes, digits, regex characters) x all requested ids',
     'Tests mock directory listings for a few cases.',
     [T + 'pipeline/bperegistry.py', T + 'pipeline/to_repr.py', T + 'bpepkg/bpe_config.py'],
     [('id parsing and directory selection', 'codeprep/pipeline/bperegistry.py')],
     ['merge lists loaded for ids, ids handed out, errors'], 'runtime monitor: model of the registry compared on random histories', 'exploration', ORACLE_NOTE)

prop('C14', 'Learned BPE codes can be applied end to end',
     'After learning n merges on a dataset, bpe with that id and any m up to the learned number encodes any text or corpus exactly as the reference algorithm does with the first m learned merges. '
     'The vocabulary learned from contains every identifier and string of the dataset with its exact count (string literals longer than 14 characters count as empty ones), and never keywords, operators or placeholders.',
     ['inputs', 'configurations'], 'all datasets, file names and extensions x learn options x numbers of merges',
     'One end-to-end test with one corpus compares token lists of one file.',
     [T + 'pipeline/bpelearner.py', T + 'pipeline/to_repr.py', T + 'pipeline/vocabloader.py', T + 'pipeline/stages.py', T + 'cli/impl.py'],
     [('non-bpe vocabulary gathering', 'codeprep/pipeline/vocabloader.py'), ('bpe data initialisation', 'codeprep/pipeline/to_repr.py')],
     ['bpe results with learned ids', 'stored base vocabulary'], 'runtime monitor: end-to-end reference model', 'exploration', ORACLE_NOTE)

prop('C15', 'Corpus preprocessing equals text preprocessing of each file',
     'The preprocessed file of every input file is one line holding the escaped tokens the text interface gives for that file\'s content and language (from its extension, Java when there is none), separated by single spaces, plus the end-of-file token (before it a line-break token may stand for the end of the text). '
     'This holds for every option and mode and whatever the number of files or the order in which workers finish; content that is not UTF-8 is read as ISO-8859-1.',
     ['inputs', 'configurations', 'schedules'], 'all datasets x all option combinations x worker schedules',
     'Tests run one Java corpus and compare one configuration.',
     [T + 'pipeline/parse_projects.py', T + 'pipeline/to_repr.py', T + 'fileutils.py', T + 'util.py', T + 'api/corpus.py'],
     [('parse and write stages', 'codeprep/pipeline/parse_projects.py, codeprep/pipeline/to_repr.py'), ('literal escaping', 'codeprep/util.py')],
     ['every output file of a corpus run'], 'runtime monitor: per-file reference comparison under varied schedules', 'exploration', ORACLE_NOTE)

prop('C16', 'Exactly the selected files are preprocessed, each once',
     'A corpus run produces exactly one output file for every regular, non-link input file whose name ends in one of the requested extensions (all files if none are requested), at the same relative path, and nothing else (names of up to 243 bytes, no link cycles; a dataset which is a single file is preprocessed whatever its extension). '
     'Hidden, empty, deeply nested and oddly named files, linked directories and single-file inputs are treated alike, and no temporary file is left behind.',
     ['inputs', 'configurations'], 'all directory trees x extension filters',
     'The test corpus has only tame names.',
     [T + 'dirutils.py', T + 'fileutils.py', T + 'pipeline/dataset.py'],
     [('directory walk and file list', 'codeprep/dirutils.py'), ('path mapping', 'codeprep/pipeline/dataset.py')],
     ['output tree of a corpus run against the input tree'], 'runtime monitor: input/output bijection checker', 'exploration', ORACLE_NOTE)

prop('C17', 'The dataset is never modified and writes stay in place',
     'Preprocessing, vocabulary calculation and learning leave every file of the input dataset, its times included, and everything else outside the output directory and the tool\'s own cache and configuration directories untouched. '
     'Output of datasets with different names or modification times, or of different options, never lands in the same directory.',
     ['inputs', 'configurations', 'histories'], 'all datasets, output paths and operations',
     'No test looks at the input or its surroundings after a run.',
     [T + 'pipeline/dataset.py', T + 'pipeline/to_repr.py', T + 'pipeline/parse_projects.py', T + 'config.py'],
     [('derived directories', 'codeprep/pipeline/dataset.py'), ('per-user directories', 'codeprep/config.py')],
     ['file-system snapshots before and after runs', 'log of mutating system-library calls'], 'runtime monitor: interposed file-operation log + tree snapshots', 'exploration', ORACLE_NOTE)

prop('C18', 'Cached results are used only while they are right',
     'Whatever was run before and however files of the dataset were edited, added, removed, renamed or moved in between (every change with a later modification time), a run gives the output and vocabulary that a run with empty caches would give. '
     'Deleted or changed output files and deleted caches are recomputed, and a repeated run on unchanged input leaves finished output alone.',
     ['histories', 'configurations'], 'all sequences of runs, edits, option changes and cache removals on datasets of up to a thousand entries',
     'Tests run each configuration once on a fresh, unchanging corpus.',
     [T + 'pipeline/stages.py', T + 'pipeline/dataset.py', T + 'dirutils.py'],
     [('timestamps in directory names and readiness markers', 'codeprep/pipeline/dataset.py'), ('stage skipping', 'codeprep/pipeline/stages.py')],
     ['output and vocabulary after every run of a history'], 'runtime monitor: history checker against fresh-cache reference runs', 'exploration', ORACLE_NOTE)

prop('C19', 'An interrupted preprocessing run can be completed',
     'If a preprocessing run is killed at any moment, repeating it completes and gives the same output as an uninterrupted run. '
     'At no moment does an output file exist under its final name with incomplete content.',
     ['crash_points'], 'kill points at every file-system mutation of any process of the run, including repeated kills',
     'No test interrupts a run.',
     [T + 'pipeline/parse_projects.py', T + 'pipeline/to_repr.py', T + 'pipeline/dataset.py', T + 'pipeline/stages.py'],
     [('write to .part then rename', 'codeprep/pipeline/parse_projects.py, codeprep/pipeline/to_repr.py'), ('readiness markers', 'codeprep/pipeline/dataset.py')],
     ['output tree after kill and rerun', 'final-name files at the kill point'], 'fault injection at interposed file operations + recovery monitor', 'fault_enumeration',
     'Kill points are counted in mutating libc calls of the real run; thorough covers all of them on small datasets, quick a spread-out sample. Models process death, not power loss.')

prop('C20', 'The vocabulary and corpus size are exact',
     'The vocabulary calculated for a corpus maps every token of its preprocessed files to exactly its number of occurrences, whatever the number of files and however the parallel merging is scheduled; it is stored most frequent first. '
     'The reported vocabulary size and corpus size are the number of distinct and of all tokens.',
     ['inputs', 'schedules', 'configurations'], 'all corpora x schedules of counting and merging processes',
     'Tests check sizes of one corpus.',
     [T + 'pipeline/vocab.py', T + 'util.py', T + 'api/corpus.py'],
     [('partial vocabularies merged by worker processes', 'codeprep/pipeline/vocab.py'), ('atomic counters', 'codeprep/util.py')],
     ['vocabulary, vocabulary size and corpus size of a run'], 'runtime monitor: conservation checker under injected scheduling delays', 'exploration', ORACLE_NOTE)

prop('C21', 'An interrupted vocabulary calculation can be completed',
     'If a run that calculates a vocabulary is killed at any moment, repeating it completes and gives exactly the vocabulary and sizes of an uninterrupted run: nothing is lost or counted twice. '
     'At no moment is an incomplete vocabulary taken for a finished one.',
     ['crash_points'], 'kill points at every file-system mutation of the counting and merging processes, including repeated kills',
     'No test interrupts a run.',
     [T + 'pipeline/vocab.py', T + 'pipeline/stages.py'],
     [('dumped partial vocabularies and their clean-up on restart', 'codeprep/pipeline/vocab.py')],
     ['vocabulary files after kill and rerun'], 'fault injection at interposed file operations + recovery monitor', 'fault_enumeration',
     'Kill points are counted in mutating libc calls of the real run. Models process death, not power loss.')

prop('C22', 'Interrupted BPE learning can be completed',
     'If learning BPE codes is killed at any moment, repeating it completes and gives results with which bpe encodes exactly as after uninterrupted learning of the same merges. '
     'Incomplete results are never offered or built upon.',
     ['crash_points'], 'kill points at every file-system mutation of a learn run, including repeated kills',
     'No test interrupts a run.',
     [T + 'pipeline/bpelearner.py', T + 'pipeline/vocabloader.py', T + 'pipeline/bperegistry.py', T + 'pipeline/to_repr.py'],
     [('result directory per number of merges', 'codeprep/pipeline/bpelearner.py'), ('non-bpe vocabulary', 'codeprep/pipeline/vocabloader.py')],
     ['stored results after kill and rerun'], 'fault injection at interposed file operations + recovery monitor', 'fault_enumeration',
     'Kill points are counted in mutating libc calls of the real run. Models process death, not power loss.')

prop('C23', 'Option sets are encoded without collisions',
     'Different option sets that can give different output have different configuration codes, decoding a code gives the options back and every valid code is accepted; unsupported combinations are refused. '
     'Each option set gives the same output through its code as through its named options.',
     ['configurations'], 'all option combinations',
     'Tests check single options; the product of all options is not covered.',
     [T + 'prepconfig.py', T + 'api/common.py', T + 'bpepkg/bpe_config.py'],
     [('one character per option', 'codeprep/prepconfig.py')],
     ['configuration codes and outputs for enumerated option sets'], 'runtime monitor: exhaustive option sweep with injectivity and round-trip checks', 'exploration',
     'The finite space of option sets is enumerated completely; outputs are compared on probe texts that separate the options.')

prop('C24', 'The command line does what the library does',
     'For every command and option combination the command line gives the tokens, output files and vocabulary that the corresponding library call gives, for text and for paths. '
     'Invalid combinations are refused without output.',
     ['inputs', 'configurations'], 'all command lines x texts and datasets',
     'Tests mock the implementation and compare parsed arguments for about a hundred command lines.',
     [T + 'cli/spec.py', T + 'cli/impl.py', T + 'api/text.py', T + 'api/corpus.py'],
     [('argument to configuration translation', 'codeprep/cli/impl.py')],
     ['stdout and output directories of real command-line runs'], 'runtime monitor: differential CLI versus library', 'exploration', ORACLE_NOTE)

prop('C25', 'Stored artefacts read back as they were written',
     'Token streams, vocabularies, merge lists, BPE caches and non-processable token sets read back exactly as written, for any token: any Unicode, backslashes, line breaks, tabs, separators, escape characters and markers. '
     'Escaped text never contains a line break or non-ASCII character, so one entry is one line.',
     ['inputs'], 'all token sets, vocabularies and merge lists',
     'Doctests write one or two simple entries.',
     [T + 'util.py', T + 'bpepkg/merge.py', T + 'bpepkg/cache.py', T + 'pipeline/vocab.py', T + 'pipeline/vocabloader.py', T + 'preprocess/metadata.py'],
     [('literal escaping', 'codeprep/util.py')],
     ['objects before writing and after reading'], 'runtime monitor: round-trip checker', 'exploration', ORACLE_NOTE)

prop('C26', 'Preprocessing is total, deterministic and stateless',
     'Preprocessing never fails on any text in any language with any valid options, and its result depends only on its arguments: not on earlier calls, other options used before, the process, or hash seeds. '
     'An optional end-of-file token is appended exactly once at the end and changes nothing else.',
     ['inputs', 'histories', 'configurations'], 'all texts x options x call histories x hash seeds',
     'Tests call each function on a few texts in a fixed order.',
     [T + 'api/text.py', T + 'parse/core.py', T + 'pipeline/to_repr.py', T + 'tokens/word.py'],
     [('global bpe data reinitialisation', 'codeprep/pipeline/to_repr.py')],
     [TEXT_API + ' in shuffled call sequences and separate processes'], 'runtime monitor: permuted-history and cross-process comparison', 'exploration', ORACLE_NOTE)

prop('C27', 'Token iterators partition the sub-tokens',
     'Iterating over full tokens gives each full token exactly once, in order, built from exactly its own sub-tokens; iterating over sub-tokens gives each sub-token once with the index of the full token it belongs to. '
     'Boundaries that do not begin at 0 or do not end at the number of sub-tokens are refused.',
     ['inputs'], 'all sub-token lists and boundary lists',
     'Doctests iterate over three-element lists.',
     [T + 'subtokens.py', T + 'preprocess/metadata.py'],
     [('iterators over word boundaries', 'codeprep/subtokens.py')],
     ['iterator output'], 'runtime monitor: reference partition checker', 'exploration', ORACLE_NOTE)

prop('C28', 'Whole-text BPE reports merges that really happen',
     'For every text, whole-text BPE reports at each step a pair that occurs in the text as merged so far, with exactly the number of replacements made, never a pair that occurs less often than another (overlaps counted), and ends only when a single symbol or the requested number of merges is reached. '
     'A file is read as UTF-8, or else as ISO-8859-1, and a directory as its .py files, each followed by three line breaks; spaces become non-breaking spaces.',
     ['inputs'], 'all texts, files and directories x numbers of merges',
     'The doctest that has examples does not even run on this interpreter.',
     [T + 'bpepkg/wild_bpe.py', T + 'util.py'],
     [('location and neighbour indices', 'codeprep/bpepkg/wild_bpe.py'), ('priority counter', 'codeprep/util.py')],
     ['reported merges, replayed on the text'], 'runtime monitor: step-by-step replay of reported merges', 'exploration', ORACLE_NOTE)

prop('C29', 'Statistical splitting and stemming act only within words',
     'With statistical splitting each word of basic splitting is replaced by exactly the pieces the external splitter gives for it, and numbers are broken into digits; with stemming each piece is replaced by its stem with its capitalisation kept. '
     'Everything that is not a word, and the boundaries of full tokens, stay as in basic splitting with split numbers.',
     ['inputs', 'configurations'], 'all texts x any external splitter',
     'The external splitter is not installed, so the two tests that need it cannot run at all.',
     [T + 'prepconfig.py', T + 'stemming.py', T + 'tokens/word.py'],
     [('splitter selection', 'codeprep/prepconfig.py'), ('case-preserving stemming', 'codeprep/stemming.py')],
     [TEXT_API + ' with a stand-in for the external splitter'], 'runtime monitor: differential checker with recorded splitter calls', 'exploration',
     ORACLE_NOTE + ' The third-party splitter is absent and replaced by a recording stand-in.')

CLAIMED = None  # filled from the existing modules
NOT_APPLICABLE = {}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                       'observe_at': p['observe'], 'hook_needed': p['hook']}
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': anchors}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, 'harness', 'props', p['id'].lower() + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'],
                           'thorough_cmd': './run.sh %s thorough' % p['id'], 'technique': p['technique'],
                           'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'check not built yet')})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
