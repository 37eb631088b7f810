# -*- coding: utf-8 -*-
"""Workload generators: structured Java programs with known ground truth, fragments of many other languages,
hostile character soup and mutated real code.  Everything is driven by the random.Random passed in."""
import os
import re

# --------------------------------------------------------------------------------------------- identifiers

LOW = ['get', 'set', 'my', 'file', 'name', 'test', 'x', 'i', 'value', 'index', 'http', 'utf', 'str', 'word', 'to', 'is',
       'parse', 'encode', 'ab', 'abc', 'zz', 'counter', 'list', 'q', 'preprocessor', 'tokenization']
ACR = ['HTTP', 'URL', 'ID', 'XML', 'UTF', 'IO', 'A', 'ABC', 'GMT', 'DB', 'X', 'II']
UNI_LOW = [u'über', u'größe', u'naïve', u'ñandú', u'переменная', u'αβγ', u'ελλάς', u'ß', u'éa', u'šč', u'ø']
UNI_UP = [u'Ü', u'ÄÖ', u'Ñ', u'П', u'ПРИВЕТ', u'Ω', u'ΑΒ', u'É', u'Š']
UNI_OTHER = [u'变量', u'日本', u'변수', u'א', u'ب', u'ª', u'א1', u'ก']
# characters whose upper/lower case mappings do not round-trip, are title case, or have no case at all
TRICKY = [u'ẞ', u'ß', u'İ', u'ı', u'\u212a', u'\u2126', u'\u212b', u'ǅ', u'ǆ', u'Ǆ', u'ﬁ', u'ŉ', u'ς', u'Σ', u'ϴ', u'ſ', u'ᾳ', u'ᾼ',
          u'µ', u'ͅ', u'Ⅷ', u'ⅷ', u'ⓐ', u'Ⓐ', u'ᵃ', u'ʰ', u'ǈ', u'ΐ', u'Ꭰ', u'ꭰ', u'Ა', u'ა']
DIGITS_UNI = [u'٣', u'１２', u'²', u'½', u'߁']


def identifier(rng, unicode_level=1, tricky=False, allow_lead_digit=False):
    n = rng.choice([1, 1, 1, 2, 2, 3, 4])
    if rng.random() < 0.008:                    # a very long one: 50 to 400 characters
        n = rng.choice([15, 30, 80])
    parts = []
    for k in range(n):
        c = rng.random()
        if c < 0.25:
            p = rng.choice(LOW)
        elif c < 0.5:
            p = rng.choice(LOW).capitalize()
        elif c < 0.62:
            p = rng.choice(ACR)
        elif c < 0.72:
            p = rng.choice(['_', '__', '_', '___'])
        elif c < 0.82:
            p = str(rng.choice([0, 1, 2, 7, 12, 345, 2019]))
        elif c < 0.9 and unicode_level:
            p = rng.choice(UNI_LOW + UNI_UP + UNI_OTHER)
        elif c < 0.93 and tricky:
            p = rng.choice(TRICKY + DIGITS_UNI)
        else:
            p = ''.join(rng.choice('abcABCxyzXYZ') for _ in range(rng.randint(1, 5)))
        parts.append(p)
    if rng.random() < 0.3:
        s = '_'.join(parts)
    else:
        s = ''.join(parts)
    if not allow_lead_digit and (s[0].isdigit() or not (s[0].isalpha() or s[0] == '_')):
        s = rng.choice('abkMZ_') + s
    return s


KEYWORDS = ['void', 'int', 'if', 'else', 'for', 'while', 'return', 'new', 'class', 'public', 'private', 'static', 'final',
            'null', 'true', 'false', 'this', 'double', 'boolean', 'try', 'catch', 'throw', 'switch', 'case', 'break']


def java_ident(rng, **kw):
    while True:
        s = identifier(rng, **kw)
        if s not in JAVA_RESERVED:
            return s


JAVA_RESERVED = set('''assert break case catch continue default do else finally for if goto instanceof new return switch
this throw try while abstract const enum extends final implements native private protected public static strictfp super
synchronized throws transient volatile boolean byte char double float int long short void package true false null class
interface import var const'''.split())

NUMBERS = ['0', '1', '7', '42', '10L', '0x1F', '0xCAFE_BABEL', '3.14', '1e10', '0.345e+4', '.5f', '2.', '1_000_000', '0b1011',
           '017', '1E-3D', '6.02E23F', '100000000000000000000', '0XFF', '12l', '0.0', '1.5D']
OPS = list('(){};,.+-*/%=<>!&|?:[]~^')

STR_CHARS = list(u'abcXYZ 019_ .,:;+-()<>@#%&*/=!?$') + [' ', '  ', '    ', u'ü', u'Ж', u'→', u'😀', u'日本', '\\n', '\\t', '\\"', "'",
                                                         '\\\\', u'\\u00e9', '@@', '@', u'£', 'camelCase', 'HTTPServer', '0x12', '//x', '/*',
                                                         'i_1', u'ÄÖüß']


def java_string(rng, max_len=30, whitespace_ctl=False):
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 13, 20, max_len])
    out = []
    pool = STR_CHARS + (['\t'] if whitespace_ctl else [])
    while len(out) < n:
        out.append(rng.choice(pool))
    if rng.random() < 0.03:
        out.insert(rng.randint(0, len(out)), ' ' * int(10 ** rng.uniform(0.7, 2.6)))
    body = ''.join(out)
    return '"' + body + '"'


COM_WORDS = ['TODO', 'fix', 'me', 'FIXME', '10L', 'the', 'someName', 'HTTP_CODE', u'größer', u'слово', '->', '...', '#', '"quoted"', "it's",
             '0.5', 'x=1', '@param', '<p>', '&amp;', u'→', '\t', '    ', '  ', 'a_b_c', u'変数', '@', '@@', '//', '\\n']


def number(rng):
    """A Java number: one of the usual ones, or a random one of any of the forms."""
    if rng.random() < 0.7:
        return rng.choice(NUMBERS)
    digits = lambda d, n=None: ''.join(rng.choice(d) for _ in range(n or rng.choice([1, 1, 2, 3, 4, 5, 8, 13, 19])))
    dec = rng.choice('123456789') + digits('0123456789')
    k = rng.randrange(8)
    if k < 3:
        return dec[rng.randint(0, 1):].lstrip('0') or '0' if k else dec + rng.choice(['', 'L', 'l', 'f', 'D'])
    if k == 3:
        return rng.choice(['0x', '0X']) + digits('0123456789abcdefABCDEF') + rng.choice(['', '', 'L'])
    if k == 4:
        return rng.choice(['0b', '0B']) + digits('01')
    if k == 5:
        return dec + rng.choice('eE') + rng.choice(['', '+', '-']) + digits('0123456789', 2) + rng.choice(['', 'f', 'D'])
    if k == 6:
        return dec + '.' + digits('0123456789') + rng.choice(['', 'f', 'e5', 'E-3'])
    return dec + '_' + digits('0123456789', 3)


def com_word(rng):
    c = rng.random()
    if c < 0.65:
        return rng.choice(COM_WORDS)
    if c < 0.8:
        return identifier(rng, allow_lead_digit=True)
    if c < 0.88:
        return number(rng)
    if c < 0.97:
        return rng.choice(['http://www.a-b.org/x?y=%d&z#q', 'v%d.0.1', '(c)%d', '#%d', '{@link Foo#bar(int, %d)}', 'user%d@host.com', '%d%%', '2019-%d-31', 'C:\\dir\\x%d',
                           '-%d', '$%d', '+%d', '%dpx', '/usr/lib/%d', '[%d]', '--opt=%d', '%d/2', '~%d', "don't%d", '%dth', '\\u00%d', 'a->b%d', 'x*%d', '====%d']) % rng.choice(
                               [0, 1, 7, 10, 42, 99, 100, 255, 1024, 2019, 65536])
    return rng.choice('=-*#.~_/ ').replace('/', '-') * rng.choice([3, 5, 10, 40, 70])


def java_program(rng, n=None, unicode_level=1, tricky=False, ops_glued=False):
    """List of (kind, text): kinds id kw num op str char lcom bcom ws nl.  ''.join of the texts is the program; every
    boundary between two pieces is one the Java lexer cannot miss."""
    n = n or rng.choice([0, 1, 2, 4, 8, 12, 20, 35])
    out = []
    prev = None
    for _ in range(n):
        c = rng.random()
        if c < 0.34:
            piece = ('id', java_ident(rng, unicode_level=unicode_level, tricky=tricky))
        elif c < 0.42:
            piece = ('kw', rng.choice(KEYWORDS))
        elif c < 0.52:
            piece = ('num', number(rng))
        elif c < 0.70:
            piece = ('op', rng.choice(OPS))
        elif c < 0.80:
            piece = ('str', java_string(rng))
        elif c < 0.83:
            piece = ('char', rng.choice(["'a'", "'Z'", "'\\n'", "'0'", "' '", u"'ü'", "'\\''", "'\"'"]))
        elif c < 0.88:
            body = ' '.join(com_word(rng) for _ in range(rng.randint(0, 6)))
            piece = ('lcom', '//' + rng.choice(['', ' ', '\t']) + body.replace('\n', ' ').rstrip('\\') + '\n')
        elif c < 0.93:
            body = rng.choice([' ', '\n', '\n  ']).join(com_word(rng) for _ in range(rng.randint(0, 6)))
            body = body.replace('*/', '* /')
            piece = ('bcom', rng.choice(['/* ', '/** ']) + body + ' */')
        elif c < 0.965:
            piece = ('nl', '\n')
        else:
            piece = ('ws', rng.choice(['    ', '\t', '  ', '        ', '     ']))
        if prev is not None and prev not in ('ws', 'nl', 'lcom') and piece[0] not in ('ws', 'nl'):
            out.append(('ws', ' '))
        out.append(piece)
        prev = piece[0]
    return out


def text_of(pieces):
    return ''.join(t for _, t in pieces)


# --------------------------------------------------------------------------------------------- other languages

SNIPPETS = {
    'py': ['def %(a)s(%(b)s, *args):\n    """Doc %(w)s\n    more"""\n    return "%(s)s" + \'%(s)s\' % %(n)s\n', '# comment %(w)s\n',
           'class %(a)s(object):\n\t@property\n\tdef %(b)s(self): pass\n', "x = u'%(s)s'\ny = r\"%(s)s\"\n", 'from %(a)s import %(b)s as c\n',
           'if x  not  in y and z is  not None: print(f"{%(a)s}")\n', 'lambda x: x ** %(n)s\n', "'''%(s)s\n%(s)s'''\n", 'async def %(a)s(): yield from %(b)s\n'],
    'js': ['function %(a)s(%(b)s) { return `tpl ${%(a)s} %(s)s`; }\n', '// %(w)s\n', '/* %(w)s\n %(w)s */\n', 'var %(a)s = /re[a-z]+/g.test("%(s)s");\n',
           'const {%(a)s, %(b)s} = await import("./%(a)s");\n', 'x => ({%(a)s: %(n)s, "%(s)s": [1,,2]})\n'],
    'c': ['#include <stdio.h>\n#define %(a)s(x) ((x) + %(n)s)\n', 'int %(a)s(char *%(b)s) { return %(n)s; }\n', '/* %(w)s */\n', '// %(w)s\n',
          'printf("%(s)s\\n", %(a)s->%(b)s);\n', '#if 0\n%(w)s\n#endif\n', 'unsigned long long %(a)s = 0xFFul;\n'],
    'cpp': ['template <typename T> class %(a)s : public %(b)s<T> { };\n', 'std::string %(a)s = R"(%(s)s)";\n', '// %(w)s\n', 'auto %(a)s = [&](int x) -> double { return %(n)s; };\n'],
    'cs': ['namespace %(a)s { public async Task<%(b)s> F() { var s = @"%(s)s"; } }\n', '/// <summary>%(w)s</summary>\n', '#region %(w)s\n#endregion\n'],
    'go': ['package %(a)s\nimport "%(b)s"\nfunc (r *%(a)s) %(b)s(x int) (string, error) { return `%(s)s`, nil }\n', '// %(w)s\n', 'ch <- %(n)s\n'],
    'rb': ['def %(a)s(%(b)s)\n  puts "%(s)s #{%(a)s}" unless :%(b)s\nend\n', '# %(w)s\n', '=begin\n%(w)s\n=end\n', 'x = %w[a b c]\n', '%(a)s.each { |x| x =~ /r/ }\n'],
    'php': ['<?php\nfunction %(a)s($%(b)s) { echo "%(s)s"; return %(n)s; } // %(w)s\n?>\n<b>%(w)s</b>\n', '<?php $x = <<<EOT\n%(s)s\nEOT;\n'],
    'html': ['<div class="%(a)s" id=%(b)s>%(w)s &amp; %(s)s</div>\n', '<!-- %(w)s -->\n', '<script>var %(a)s = "%(s)s";</script>\n', '<style>.%(a)s { color: #FF00aa; }</style>\n',
             '<!DOCTYPE html>\n'],
    'xml': ['<?xml version="1.0"?>\n<%(a)s %(b)s="%(s)s">%(w)s</%(a)s>\n', '<![CDATA[ %(w)s ]]>\n', '<!-- %(w)s -->\n'],
    'css': ['.%(a)s > #%(b)s:hover { margin: %(n)spx; color: #FFAA00; content: "%(s)s"; }\n', '/* %(w)s */\n', '@media screen { }\n'],
    'json': ['{"%(a)s": [%(n)s, -1.5E+10, true, null], "%(b)s": {"k": "%(s)s"}}\n'],
    'sh': ['#!/bin/bash\n%(a)s() { echo "%(s)s" | grep -v \'%(s)s\'; }\n', '# %(w)s\n', 'if [ "$%(a)s" -eq %(n)s ]; then export %(b)s=$((1+2)); fi\n', 'cat <<EOF\n%(w)s\nEOF\n'],
    'sql': ['SELECT %(a)s, COUNT(*) FROM %(b)s WHERE x = \'%(s)s\' AND y IS  NOT NULL GROUP   BY %(a)s; -- %(w)s\n', '/* %(w)s */\nINSERT INTO t VALUES (%(n)s);\n'],
    'yaml': ['%(a)s:\n  - %(b)s: "%(s)s"\n    k: |\n      %(w)s\n# %(w)s\n', 'x: &%(a)s !!str %(w)s\n'],
    'rs': ['fn %(a)s<\'a>(%(b)s: &\'a str) -> Option<u32> { println!("%(s)s"); Some(%(n)su32) }\n', '// %(w)s\n', '#[derive(Debug)]\nstruct %(a)s;\n', '/* a /* %(w)s */ b */\n'],
    'kotlin': ['fun %(a)s(%(b)s: Int): String = "%(s)s $%(a)s"\n', '// %(w)s\n', 'data   class %(a)s(val %(b)s: Int)\n'],
    'scala': ['object %(a)s extends %(b)s { def f = s"%(s)s" }\n', '// %(w)s\n'],
    'hs': ['%(b)s :: Int -> String\n%(b)s x = "%(s)s" ++ show %(n)s -- %(w)s\n', '{- %(w)s\n -}\n', 'module Main where\nimport qualified Data.Map as M\n'],
    'lua': ['local function %(a)s(%(b)s) return "%(s)s" .. %(n)s end -- %(w)s\n', '--[[ %(w)s\n]]\n'],
    'pl': ['sub %(a)s { my $%(b)s = shift; print "%(s)s" if $x =~ m/a+/; } # %(w)s\n'],
    'ts': ['interface %(a)s<T> { %(b)s?: string | number; }\n', 'export class %(a)s implements B { private x: number = %(n)s; }\n'],
    'swift': ['func %(a)s(_ %(b)s: Int) -> String { return "%(s)s \\(x)" } // %(w)s\n'],
    'r': ['%(a)s <- function(%(b)s) { paste("%(s)s", %(n)s) } # %(w)s\n'],
    'tex': ['\\section{%(w)s} $x_{%(n)s}^2$ % %(w)s\n'],
    'md': ['# %(w)s\n\n* item `%(a)s`\n\n```python\nx = "%(s)s"\n```\n'],
    'ini': ['[%(a)s]\n%(b)s = %(w)s\n; %(w)s\n'],
    'make': ['%(a)s: %(b)s\n\t$(CC) -o $@ $< # %(w)s\n'],
    'bat': ['@echo off\r\nREM %(w)s\r\nset %(a)s=%(n)s\r\n'],
    'groovy': ['def %(a)s = { %(b)s -> "%(s)s ${it}" } // %(w)s\n'],
    'diff': ['--- a/%(a)s\n+++ b/%(b)s\n@@ -1,2 +3,4 @@\n-%(w)s\n+%(w)s\n'],
    'clojure': ['(defn %(a)s [%(b)s] (str "%(s)s" %(n)s)) ; %(w)s\n'],
    'pascal': ['procedure %(a)s; begin writeln(\'%(s)s\'); end; { %(w)s }\n'],
    'vhdl': ['entity %(a)s is end; -- %(w)s\n'],
    'fortran': ['      SUBROUTINE %(a)s\n      INTEGER  I\nC %(w)s\n      END\n'],
    'text': ['%(w)s %(a)s %(n)s\n'],
    'txt': ['%(w)s %(a)s %(n)s\n'],
    'nosuchext': ['%(w)s %(a)s = %(n)s\n', '<?xml version="1.0"?>\n<a/>\n', '#!/usr/bin/python\nimport os\n'],
}
CORE_LANGS = ['java', 'py', 'js', 'c', 'cpp']
ALL_LANGS = ['java'] + sorted(SNIPPETS)


MARKERS = ['<w>', '</w>', '</t>', '<EOF>', '<EOL>', '<comment>', '<str-literal>', '<Cap>', '<CAPS>', '<non-en>', u'\xf7', u'\xa0', '@@', 'x</t>', '</t></t>']


def _sub(rng, tmpl, tricky):
    words = ' '.join(com_word(rng) for _ in range(rng.randint(0, 5))).replace('\n', ' ')
    s = java_string(rng, 12)[1:-1]
    if rng.random() < 0.8:
        s = s.replace('"', '').replace("'", '').replace('\\', '')
    if rng.random() < 0.04:
        s = rng.choice(MARKERS)
    vals = {'a': identifier(rng, tricky=tricky), 'b': identifier(rng, tricky=tricky), 'w': words,
            'n': number(rng), 's': s}
    return re.sub(r'%\(([abwns])\)s', lambda m: vals[m.group(1)], tmpl)


def language_text(rng, lang, tricky=False):
    if lang == 'java' or lang not in SNIPPETS:
        if rng.random() < 0.25:
            return java_unit(rng)
        return text_of(java_program(rng, tricky=tricky))
    n = rng.choice([1, 1, 2, 3, 5])
    return ''.join(_sub(rng, rng.choice(SNIPPETS[lang]), tricky) for _ in range(n))


def java_unit(rng):
    """A more idiomatic Java compilation unit (method headers, annotations, imports, labels)."""
    i = lambda: java_ident(rng, unicode_level=rng.choice([0, 0, 1]))
    out = []
    for _ in range(rng.randint(1, 4)):
        out.append(rng.choice([
            lambda: 'package %s.%s;\n' % (i(), i()),
            lambda: 'import%s%s.%s.*;\n' % (rng.choice([' ', ' static ', '  static  ', '\tstatic\t']), i(), i()),
            lambda: '@%s(%s = %s)\n' % (i(), i(), java_string(rng, 8)),
            lambda: 'public class %s extends %s<%s> {\n' % (i(), i(), i()),
            lambda: '    private static final int %s = %s;%s\n' % (i(), number(rng), rng.choice(['', ' // ' + com_word(rng)])),
            lambda: '\n    /** %s\n     *  @return %s\n     */\n    public %s %s(%s %s) throws %s {\n' % (com_word(rng), com_word(rng), i(), i(), i(), i(), i()),
            lambda: '\n\n\n%s:\n  for (;;) { %s.%s(%s); }\n}\n' % (i(), i(), i(), java_string(rng, 10)),
            lambda: '    %s.%s(%s, \'%s\', %s);\r\n' % (i(), i(), java_string(rng, 10), rng.choice(['a', '\\n', u'ü']), number(rng)),
            lambda: '\t\tif (%s >= %s && %s != null) return "%s";\n' % (i(), number(rng), i(), rng.choice(['', ' ', '    ', 'x  y', u'ü→'])),
        ])())
    return ''.join(out)


# --------------------------------------------------------------------------------------------- hostile soup

SOUP = (list(u'abzABZ019_$@#\\/*"\'`(){}[]<>;:,.!?%&|^~+-=') + [' ', '  ', '    ', '     ', '\n', '\n\n', '\n\n\n\n', '\t', '\t\t', '\r\n', '\r', '\x0b', '\x0c',
        u'\xa0', u'\xa0\xa0', u'\u2028', u'\u3000', u'\x85', u'\u200b', u'\u200d', u'\xad', u'\ufeff', '\x00', '\x07', '\x1c', '\x1f', '\x7f',
        u'÷', u'→', u'😀', u'👩\u200d👧', u'e\u0301', u'ก', u'日本語', u'ß', u'Ü', u'İ', u'Ж', '<w>', '</w>', '</t>', '<EOF>', '<EOL>', '<comment>',
        '<str-literal>', '<Cap>', '<CAPS>', '<non-en>', '@@', '@ @', '//', '/*', '*/', '"""', "'''", '\\"', '\\n', '\\u0041', '0x', '1e', '1.5e-', '..', '::', '->',
        '<?', '?>', '<!--', '-->', '#!', '<%', '%>', '{{', '}}', 'import', 'static', 'class', 'null', 'camelCase', 'HTTPServer2', 'snake_case_', '__init__', 'x1y22'])


def soup(rng, n=None):
    n = n if n is not None else rng.choice([0, 1, 1, 2, 3, 5, 8, 15, 40, 100])
    return ''.join(rng.choice(SOUP) for _ in range(n))


def mutate(rng, text, k=None):
    k = k or rng.choice([1, 1, 2, 4, 8])
    t = list(text)
    for _ in range(k):
        op = rng.random()
        pos = rng.randint(0, len(t))
        if op < 0.4:
            t[pos:pos] = list(rng.choice(SOUP))
        elif op < 0.7 and t:
            a = min(pos, len(t) - 1)
            del t[a:a + rng.choice([1, 1, 2, 5, 20])]
        elif t:
            a = rng.randint(0, len(t) - 1)
            chunk = t[a:a + rng.choice([1, 3, 10, 40])]
            t[pos:pos] = chunk
    return ''.join(t)


_corpus = None


def real_files():
    """(extension, text) of the repository's sample corpus (source code of real projects)."""
    global _corpus
    if _corpus is None:
        _corpus = []
        root = os.path.join(os.environ.get('CODEPREP_REPO', '/repo'), 'test-data', 'test-corpus')
        for d, _, files in sorted(os.walk(root)):
            for f in sorted(files):
                try:
                    with open(os.path.join(d, f), encoding='utf-8') as fh:
                        _corpus.append((os.path.splitext(f)[1][1:], fh.read()))
                except (UnicodeDecodeError, OSError):
                    pass
    return _corpus


def real_chunk(rng, max_lines=25):
    files = real_files()
    if not files:
        return 'java', java_unit(rng)
    ext, text = rng.choice(files)
    lines = text.split('\n')
    a = rng.randint(0, max(0, len(lines) - 1))
    return ext, '\n'.join(lines[a:a + rng.randint(1, max_lines)])[:4000]


def stretched(rng):
    """Java text in which one element is much longer, or repeated much more often, than in ordinary code."""
    n = int(10 ** rng.uniform(2, 3.4))
    kind = rng.randrange(9)
    ident = identifier(rng, tricky=rng.random() < 0.3)
    if kind == 0:
        big = (ident * (n // len(ident) + 1))[:n]
        big = 'v' + ''.join(c for c in big if c.isalnum() or c == '_')
    elif kind == 1:
        words = [identifier(rng) for _ in range(7)]
        big = '"' + (' '.join(words[i % 7] for i in range(n // 8)))[:n] + '"'
    elif kind == 2:
        big = '/*' + ''.join(' %s %d\n' % (ident, i) for i in range(n // 12)) + '*/ y'
    elif kind == 3:
        big = '// ' + ' '.join('%s%d' % (ident, i) for i in range(n // 8)) + '\n y'
    elif kind == 4:
        big = rng.choice(['', '0x', '0b']) + '10' * (n // 2)
    elif kind == 5:
        big = rng.choice(['_', 'A', 'Aa', 'aB', 'a_', '1a', u'\xfc', u'\u0416', u'\u4e2d']) * (n // 2)
        big = 'v' + big
    elif kind == 6:
        big = '(' * (n // 4) + 'z' + ')' * (n // 4)
    elif kind == 7:
        big = ' + '.join('%s[%d]' % (ident, i) for i in range(n // 8))
    else:
        big = ('\n' * rng.randint(1, 40) + '\t' * rng.randint(0, 40) + ' ' * rng.randint(0, 60)).join([ident] * 6)
    stmt = java_unit(rng) if rng.random() < 0.5 else ''
    return 'java', stmt + '\nint x = ' + big + ';\n' + (stmt if rng.random() < 0.5 else '')


def near(rng, s):
    """A text of the same length which differs in a letter or digit or two (anything found again by less than all of it is found wrongly)."""
    where = [k for k, c in enumerate(s) if c.isascii() and c.isalnum()]
    if not where:
        return s
    out = list(s)
    c = rng.random()
    spots = [where[-1]] if c < 0.3 else [where[0]] if c < 0.45 else [where[len(where) // 2]] if c < 0.6 else [rng.choice(where) for _ in range(rng.choice([1, 1, 2]))]
    for k in spots:
        pool = '0123456789' if out[k].isdigit() else 'abcdefghijklmnopqrstuvwxyz'
        x = rng.choice([p for p in pool if p != out[k].lower()])
        out[k] = x.upper() if out[k].isupper() else x
    return ''.join(out)


HEADS = {'java': '/*\n * Copyright the authors, all rights reserved.\n */\n', 'py': '# Copyright the authors, all rights reserved.\n'}


def headed(rng, ext, text):
    """The text behind a long beginning which is the same in many texts."""
    return HEADS.get(ext, 'x = y + z;\n') * rng.choice([1, 6, 25]) + text


def any_case(rng, hostile=True):
    """(extension, text, class-label)"""
    if rng.random() < 0.015:
        ext, text, _ = any_case(rng, hostile)
        return ext, text + '\n' + near(rng, text), 'near-copies'
    if rng.random() < 0.012:
        ext, text = stretched(rng)
        return ext, text, 'stretched'
    c = rng.random()
    if c < 0.3:
        return 'java', text_of(java_program(rng)), 'java-structured'
    if c < 0.42:
        return 'java', java_unit(rng), 'java-unit'
    if c < 0.68:
        lang = rng.choice(ALL_LANGS)
        return lang, language_text(rng, lang), 'lang'
    if c < 0.76:
        ext, text = real_chunk(rng)
        return ext, text, 'real'
    if not hostile or c < 0.84:
        lang = rng.choice(ALL_LANGS)
        return lang, mutate(rng, language_text(rng, lang)), 'lang-mutated'
    if c < 0.9:
        ext, text = real_chunk(rng)
        return ext, mutate(rng, text), 'real-mutated'
    return rng.choice(ALL_LANGS), soup(rng), 'soup'
