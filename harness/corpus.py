"""Everything the corpus-level monitors share: running operations of the code under test in isolated, watchable child processes,
generating datasets, and independent reference answers.  Does not import codeprep."""
import codecs
import ctypes
import os
import pickle
import shutil
import signal
import stat
import sys
import time
import traceback

import common

FSMON = os.environ.get('FSMON_SO')
_lib = None


def preload():
    """Third-party modules only, so that every child imports just the code under test."""
    import pygments.lexers
    import nltk, regex, tqdm, dill, appdirs, multiprocessing, multiprocessing.pool, docopt, docopt_subcommands, gzip, yaml  # noqa
    import nltk.stem  # noqa
    import logging.config, uuid, fnmatch, heapq, random, queue  # noqa
    for lang in ('java', 'py', 'c', 'js', 'cpp'):
        list(pygments.lexers.get_lexer_by_name(lang).get_tokens('x = 5'))
    assert not [m for m in sys.modules if m.split('.')[0] == 'codeprep']


def fsmon():
    global _lib
    if _lib is None:
        assert FSMON and FSMON in os.environ.get('LD_PRELOAD', ''), 'the interposition library must be preloaded (run.sh)'
        _lib = ctypes.CDLL(FSMON)
        _lib.fsmon_events.restype = ctypes.c_long
        _lib.fsmon_delayed.restype = ctypes.c_long
    return _lib


class Outcome(object):
    """kind: 'ok' (value), 'raised' (error), 'exit' (value = code), 'killed' (by signal), 'timeout'"""
    kind = value = error = crash = None
    events = delayed = -1
    out = err = b''
    wall = 0.0

    def __repr__(self):
        return '%s %s' % (self.kind, common.shorten(str(self.error if self.kind == 'raised' else self.value), 300))


def run_op(scratch, name, home, cwd=None, cpus=2, timeout=90, watch=(), kill_at=-1, kill_mode=0, log=None, log_all=False,
           delay_us=0, permille=0, seed=0, env=None, nofile=None, **params):
    """Run ops.<name>(**params) in a child process group with its own HOME; watch what it does to the file system."""
    res_path = os.path.join(scratch, 'result.pickle')
    out_path, err_path = os.path.join(scratch, 'op.out'), os.path.join(scratch, 'op.err')
    for p in (res_path, out_path, err_path):
        if os.path.exists(p):
            os.unlink(p)
    sys.stdout.flush()
    sys.stderr.flush()
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        rc = 97
        try:
            os.setpgid(0, 0)
            _child(res_path, out_path, err_path, name, home, cwd or scratch, cpus, watch, kill_at, kill_mode, log, log_all, delay_us,
                   permille, seed, env, params)
            rc = 0
        except BaseException:
            try:
                with open(err_path, 'a') as f:
                    traceback.print_exc(file=f)
            except BaseException:
                pass
        finally:
            os._exit(rc)
    o = Outcome()
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    status = None
    pause = 0.004
    while status is None:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = st
        elif time.time() - t0 > timeout:
            o.kind = 'timeout'
            o.value = _stacks(pid)
            _killpg(pid)
            _, status = os.waitpid(pid, 0)
        else:
            time.sleep(pause)
            pause = min(0.03, pause * 1.5)
    _killpg(pid)
    o.wall = time.time() - t0
    o.out, o.err = _slurp(out_path), _slurp(err_path)
    if o.kind is None:
        if os.path.exists(res_path):
            with open(res_path, 'rb') as f:
                o.kind, o.value, o.error, o.crash, o.events, o.delayed = pickle.load(f)
        elif os.WIFSIGNALED(status):
            o.kind, o.value = 'killed', os.WTERMSIG(status)
        else:
            raise RuntimeError('operation child failed: %s %s' % (status, o.err[-2000:]))
    return o


def _slurp(p):
    if not os.path.exists(p):
        return b''
    with open(p, 'rb') as f:
        return f.read()


def _stacks(pgid):
    """Where the processes of a run that does not end are"""
    out = []
    for p in os.listdir('/proc'):
        if p.isdigit():
            try:
                with open('/proc/%s/stat' % p) as f:
                    st = f.read().rsplit(')', 1)[1].split()
                if int(st[2]) == pgid:
                    with open('/proc/%s/wchan' % p) as f:
                        out.append('%s %s ppid %s %s' % (p, st[0], st[1], f.read()))
                    os.kill(int(p), signal.SIGUSR1)
                    time.sleep(0.3)
            except (OSError, IndexError, ValueError):
                pass
    return out


def _killpg(pid):
    for _ in range(3):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            return
        time.sleep(0.002)


def _child(res_path, out_path, err_path, name, home, cwd, cpus, watch, kill_at, kill_mode, log, log_all, delay_us, permille, seed, env,
           params):
    os.environ['HOME'] = home
    for k in ('XDG_CACHE_HOME', 'XDG_CONFIG_HOME', 'XDG_DATA_HOME'):
        os.environ.pop(k, None)
    os.environ.update(env or {})
    os.chdir(cwd)
    for path, fd in ((out_path, 1), (err_path, 2)):
        f = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
        os.dup2(f, fd)
        os.close(f)
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    import faulthandler
    faulthandler.register(signal.SIGUSR1, file=sys.__stderr__, all_threads=True)
    import multiprocessing
    os.cpu_count = lambda: cpus
    multiprocessing.cpu_count = lambda: cpus
    import env as envmod
    envmod.setup()
    import ops
    armed = bool(watch) or log_all
    if armed:
        lib = fsmon()
        r = lib.fsmon_arm('\n'.join(watch).encode(), ctypes.c_long(kill_at), kill_mode, (log or '').encode(), delay_us, permille,
                          ctypes.c_ulong(seed), int(log_all))
        if r:
            raise RuntimeError('arming failed %d' % r)
    kind, value, error, crash = 'ok', None, None, None
    try:
        value = getattr(ops, name)(**params)
    except SystemExit as e:
        kind, value = 'exit', e.code
    except Exception as e:
        kind, error = 'raised', '%s: %s' % (type(e).__name__, e)
        tb = traceback.format_exc()
        crash = common.crash_kind(e) or tb[-1500:]
    sys.stdout.flush()
    sys.stderr.flush()
    import multiprocessing.util
    multiprocessing.util._exit_function()
    events = delayed = -1
    if armed:
        events, delayed = lib.fsmon_events(), lib.fsmon_delayed()
        lib.fsmon_disarm()
    with open(res_path + '.tmp', 'wb') as f:
        pickle.dump((kind, value, error, crash, events, delayed), f, 2)
    os.rename(res_path + '.tmp', res_path)


def read_log(path):
    """[(event number, pid, op, path, path2)] of an fsmon log"""
    fields = _slurp(path).split(b'\0')[:-1]
    out = []
    for k in range(0, len(fields) - 4, 5):
        n, pid, op, a, b = fields[k:k + 5]
        out.append((int(n), int(pid), op.decode(), os.path.normpath(a), os.path.normpath(b) if b else b))
    return out


# ------------------------------------------------------------------------------------------------ scratch areas

class Area(object):
    """A scratch directory with home/, out/, ds/ of one case."""
    n = 0

    def __init__(self, check, worker=0, tag='case'):
        Area.n += 1
        self.root = os.path.join(check.scratch, 'w%s-%s%d' % (worker, tag, Area.n))
        os.makedirs(self.root)
        self.home = self.dir('home')
        self.out = self.dir('out')
        self.tmp = self.dir('tmp')

    def dir(self, name):
        p = os.path.join(self.root, name)
        os.makedirs(p, exist_ok=True)
        return p

    def op(self, name, **kw):
        kw.setdefault('home', self.home)
        return run_op(self.tmp, name, **kw)

    def remove(self):
        rmtree(self.root)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.remove()


def rmtree(path):
    path = os.fsencode(path)
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ datasets

NAMES = [b'A', b'Main', b'util', b'x', b'Foo Bar', b'a.b', b'.hidden', b'\xc3\xbcber', b'na\xefve', b'\xe6\x97\xa5\xe6\x9c\xac', b'-dash',
         b'a\\b', b"q'uote", b'd"q', b'tab\there', b'new\nline', b'#c', b'%41', b'..x', b'~', b'$HOME', b'*', b'[a]', b'a,b', b'x.prep2',
         b'test', b'lastmodif', b'1', b'\xff\xfe', b'e\xcc\x81', b'very' * 20]
EXTS = [b'.java', b'.java', b'.java', b'.py', b'.c', b'.js', b'.h', b'', b'.txt', b'.JAVA', b'.tar.java', b'.', b'.xyz', b'.jav', b'.xjava',
        b'.\xe9t\xe9', b'.py~', b'.cpp', b'.rb', b'.go', b'.html']
DIRS = [b'src', b'main', b'.git', b'pkg.java', b'a b', b'\xc3\xa4', b'd\xe9p', b'x', b'test', b'new\nl', b"o'k", b'deep']
MORE_DIRS = [b'zq.prep', b'zq.parsed', b'zq.part', b'.zq.lastmodif', b'zq_-_uc10su_-_prep', b'node_modules', b'__pycache__', b'build', b'target', b'.svn',
             b'venv', b'Zq.java', b'dirlist0', b'-', b'\\n', b'..zq', b'...', b'_', b'~', b'tests', b'CamelCase', b'1', b'lost+found', b'.cache',
             b'tmp', b'bpe', b'vocab', b'.zq', b'zq.archived.1', b'META-INF', b'#zq', b' zq', b'zq ', b'\xf0\x9f\x98\x80', b'q' * 120]
WORDS = [b'README', b'__init__', b'Makefile', b'package-info', b'Test', b'FooTest', b'test_x', b'setup', b'LICENSE', b'core', b'nohup', b'_a', b'a~',
         b'.#a', b'#a#', b'Thumbs', b'index', b'a.min', b'x.generated', b'R', b'BuildConfig', b'con', b'null', b'zz', b'0', b'00', b'copy (1)',
         b'\xc3\x89t\xc3\xa9', b'\xe2\x84\xaa', b'i\xcc\x87', b'a;b', b'a&b', b'a=b', b'a@b', b'a!', b'^', b'{x}', b'<y>', b'`z`', b'a:b', b'?']


def content(rng, level=1):
    """bytes of one source file, and what it exercises"""
    import gen
    c = rng.random()
    if c < 0.06:
        return rng.choice([b'', b'\n', b'\n\n', b' ', b'\t', b'\xef\xbb\xbf', b'x', b'\r\n', b'\x00', b'// c', b'/*', b'"'])
    if c < 0.08:
        t = gen.stretched(rng)[1]
    elif c < 0.45:
        t = gen.text_of(gen.java_program(rng, n=rng.choice([3, 8, 20, 40]), unicode_level=level))
    elif c < 0.7:
        t = gen.any_case(rng)[1]
    elif c < 0.85:
        t = gen.real_chunk(rng)[1]
    else:
        t = gen.soup(rng)
    nl = rng.random()
    if nl < 0.1:
        t = t.replace('\n', '\r\n')
    elif nl < 0.15:
        t = t.replace('\n', '\r')
    e = rng.random()
    if e < 0.7 and t and not t.endswith('\n'):
        t += '\n'
    elif e < 0.8:
        t += '\n\n'
    enc = rng.random()
    if enc < 0.85:
        return t.encode('utf-8', 'surrogatepass') if rng.random() < 0.02 else t.encode('utf-8', 'replace')
    if enc < 0.95:
        return t.encode('latin-1', 'replace') + rng.choice([b'', b'\xe4\xf6\xfc // \xdf\n', b'"\xa0\xe9"\n'])
    if enc < 0.98:
        return t.encode('utf-8', 'replace') + rng.choice([b'\xff', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80', b'\xf5'])
    return t.encode('utf-16', 'replace')


def simple_java(rng, n=6):
    import gen
    return (gen.text_of(gen.java_program(rng, n=n, unicode_level=0)) + '\n').encode('utf-8', 'replace')


def build_tree(rng, root, n_files, max_depth=3, level=1, hostile=True, names=None, exts=None, make_content=None):
    """Create a dataset below root (bytes or str).  Returns {relative path: content} of the regular files created."""
    root = os.fsencode(root)
    os.makedirs(root, exist_ok=True)
    dirs, files = [b''], {}
    names, exts = names or NAMES, exts or EXTS
    # in some datasets many files have the same content, whatever their names and extensions
    again = rng.choice([0, 0, 0, 0.05, 0.1, 0.6])
    if hostile and rng.random() < 0.1:      # a chain of directories
        d = b''
        for _ in range(rng.choice([5, 11, 14, 25, 60])):
            d += rng.choice([b'x', b'src', b'.h', b'a b']) + b'/'
            if rng.random() < 0.3:
                dirs.append(d)
        dirs.append(d)
        os.makedirs(root + b'/' + d, exist_ok=True)
    for _ in range(n_files):
        d = rng.choice(dirs)
        if rng.random() < 0.45 and d.count(b'/') < max_depth:
            sub = rng.choice((DIRS if rng.random() < 0.7 else MORE_DIRS) if hostile else DIRS[:2])
            nd = d + sub + b'/'
            if not os.path.lexists(root + b'/' + d + sub):
                os.mkdir(root + b'/' + d + sub)
            if os.path.isdir(root + b'/' + d + sub) and not os.path.islink(root + b'/' + d + sub):
                if nd not in dirs:
                    dirs.append(nd)
                d = nd
        name = rng.choice((names if rng.random() < 0.75 else WORDS) if hostile else names[:4]) + (b'' if rng.random() < 0.6 else b'%d' % rng.randint(0, 9)) + \
            rng.choice(exts if hostile else exts[:3])
        p = root + b'/' + d + name
        if name in (b'.', b'..') or len(name) > 243 or os.path.lexists(p):
            continue
        if files and rng.random() < again:
            data = files[rng.choice(sorted(files)[:2])]
        else:
            data = (make_content or (lambda r: content(r, level)))(rng)
        with open(p, 'wb') as f:
            f.write(data)
        files[d + name] = data
    return files


def add_specials(rng, root, outside):
    """Links, special files, empty directories.  Returns counters of what was added."""
    root, outside = os.fsencode(root), os.fsencode(outside)
    added = []

    def free(name):
        return not os.path.lexists(root + b'/' + name)
    for kind in ('filelink', 'dirlink', 'dangling', 'fifo', 'socket', 'emptydir', 'insidelink', 'execbit', 'hardlink', 'samename'):
        if rng.random() < 0.5:
            continue
        if kind == 'filelink' and free(b'Link.java'):
            with open(outside + b'/target.java', 'wb') as f:
                f.write(b'class Outside {}\n')
            os.symlink(outside + b'/target.java', root + b'/Link.java')
        elif kind == 'dirlink' and free(b'linked'):
            os.makedirs(outside + b'/linkedtree/sub', exist_ok=True)
            for n in (b'In.java', b'sub/Deep.java', b'sub/t.py'):
                with open(outside + b'/linkedtree/' + n, 'wb') as f:
                    f.write(b'int linked = %d;\n' % rng.randint(0, 9))
            os.symlink(outside + b'/linkedtree', root + b'/linked')
        elif kind == 'dangling' and free(b'Broken.java'):
            os.symlink(b'nowhere', root + b'/Broken.java')
        elif kind == 'fifo' and free(b'Pipe.java'):
            os.mkfifo(root + b'/Pipe.java')
        elif kind == 'socket' and free(b'Sock.java') and len(root) < 80:
            import socket
            s = socket.socket(socket.AF_UNIX)
            s.bind(root + b'/Sock.java')
            s.close()
        elif kind == 'emptydir' and free(b'empty'):
            os.makedirs(root + b'/empty/inner')
        elif kind == 'insidelink' and free(b'again'):
            subs = [d for d in os.listdir(root) if os.path.isdir(root + b'/' + d) and not os.path.islink(root + b'/' + d)]
            if not subs:
                continue
            os.symlink(rng.choice(subs), root + b'/again')  # a directory seen under two names
        elif kind == 'execbit':
            regs = [d for d in os.listdir(root) if os.path.isfile(root + b'/' + d) and not os.path.islink(root + b'/' + d)]
            if not regs:
                continue
            os.chmod(root + b'/' + rng.choice(regs), 0o755)
        elif kind == 'hardlink':  # one file under two names, in one directory and in two
            regs = [d for d in os.listdir(root) if os.path.isfile(root + b'/' + d) and not os.path.islink(root + b'/' + d)]
            if not regs or not free(b'Hard.java') or not free(b'hard'):
                continue
            os.link(root + b'/' + rng.choice(regs), root + b'/Hard.java')
            os.makedirs(root + b'/hard')
            os.link(root + b'/Hard.java', root + b'/hard/Hard.java')
        elif kind == 'samename':  # the same name and the same content in several directories
            subs = [d for d in os.listdir(root) if os.path.isdir(root + b'/' + d) and not os.path.islink(root + b'/' + d)]
            for s in [b'.'] + subs:
                if free(s + b'/Same.java'):
                    with open(root + b'/' + s + b'/Same.java', 'wb') as f:
                        f.write(b'class Same { int one = 1; }\n')
        else:
            continue
        added.append(kind)
    return added


def set_mtimes(root, when):
    """Give everything below root (and root) the modification time `when`; never follows links."""
    root = os.fsencode(root)
    if os.path.isdir(root):
        for d, subdirs, files in os.walk(root, topdown=False):
            for n in files + subdirs:
                os.utime(os.path.join(d, n), (when, when), follow_symlinks=False)
    os.utime(root, (when, when))


def selected(root, exts):
    """Own answer to which files of a dataset are to be preprocessed: {relative path: content}.  exts: None or a list of str."""
    root = os.fsencode(root)
    if os.path.isfile(root):
        return {os.path.basename(root): _slurp(root)}
    out = {}

    def visit(rel):
        for name in os.listdir(os.path.join(root, rel) if rel else root):
            r = rel + b'/' + name if rel else name
            p = root + b'/' + r
            st = os.lstat(p)
            if stat.S_ISREG(st.st_mode):
                if not exts or any(name.endswith(b'.' + e.encode()) for e in exts):
                    out[r] = _slurp(p)
            elif os.path.isdir(p):
                visit(r)
    visit(b'')
    return out


def tree(root):
    """Snapshot: {relative path: (type, mode, size, mtime_ns, content or link target)}"""
    root = os.fsencode(root)
    out = {}

    def one(rel, p):
        st = os.lstat(p)
        if stat.S_ISLNK(st.st_mode):
            data = os.readlink(p)
        elif stat.S_ISREG(st.st_mode):
            data = _slurp(p)
        else:
            data = b''
        out[rel] = (stat.S_IFMT(st.st_mode), stat.S_IMODE(st.st_mode), st.st_size if stat.S_ISREG(st.st_mode) else 0, st.st_mtime_ns,
                    st.st_uid, st.st_ino, st.st_nlink, data)
        if stat.S_ISDIR(st.st_mode):
            for n in os.listdir(p):
                one(rel + b'/' + n if rel else n, p + b'/' + n)
    if os.path.lexists(root):
        one(b'', root)
    return out


def outputs(prep_dir):
    """{relative path of each file below an output directory: content}"""
    root = os.fsencode(prep_dir)
    out = {}
    for d, subdirs, files in os.walk(root):
        for n in files + [s for s in subdirs if os.path.islink(os.path.join(d, s))]:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = _slurp(p) if os.path.isfile(p) else b'(not a regular file)'
    return out


def ext_of(name):
    """Language of a file: what follows the last dot of its name, if it is not its first character"""
    base = name.rsplit(b'/', 1)[-1]
    stripped = base.lstrip(b'.')
    if b'.' not in stripped:
        return ''
    return stripped.rsplit(b'.', 1)[1].decode('utf-8', 'replace')


def text_of_file(data):
    """The text the tool is documented to see: UTF-8 or else ISO-8859-1, any line ends, the last one not counting."""
    try:
        t = data.decode('utf-8')
    except UnicodeDecodeError:
        t = data.decode('latin-1')
    t = t.replace('\r\n', '\n').replace('\r', '\n')
    return t[:-1] if t.endswith('\n') else t


def decode_prep(data):
    """Tokens text of an output file: one line of escaped ASCII.  Raises ValueError if it is not."""
    if not data.endswith(b'\n') or data.count(b'\n') != 1 or b'\r' in data:
        raise ValueError('not exactly one line: %r' % data[-100:])
    try:
        return codecs.decode(data[:-1].decode('ascii'), 'unicode_escape')
    except UnicodeDecodeError as e:
        raise ValueError('not escaped ASCII: %s' % e)


def eof_token(mode):
    return '<EOF></t>' if mode in ('bpe', 'chars') else '<EOF>'


def newline_token(mode):
    return '\n</t>' if mode in ('bpe', 'chars') else '\n'


def wrong_file(mode, opts, ref_tokens, data):
    """None if an output file holds the tokens the text interface gives (a line end at the very end of the text may be kept)."""
    try:
        got = decode_prep(data)
    except ValueError as e:
        return str(e)
    eof = [eof_token(mode)]
    ok = [' '.join(ref_tokens + eof)]
    if not opts.get('no_spaces'):
        ok.append(' '.join(ref_tokens + [newline_token(mode)] + eof))
    if got not in ok:
        i = next((k for k, (a, b) in enumerate(zip(got, ok[-1])) if a != b), min(len(got), len(ok[-1])))
        return 'holds %r, expected %r (at %d)' % (got[max(0, i - 60):i + 80], ok[-1][max(0, i - 60):i + 80], i)
    return None


# seconds between two modifications: those which leave most of a printed time the same are the interesting ones
TIME_STEPS = [1, 1, 2, 10, 59, 60, 600, 3600, 36000, 12 * 3600, 12 * 3600, 86400, 86400, 10 * 86400, 30 * 86400, 31 * 86400, 40 * 86400, 365 * 86400]
EXTENSION_LISTS = [None, 'java', 'java|py', 'c', 'h', 'c|h', 'ch', 'c_h', 'c|h|java', 'c|h|java|py', 'c|h|java|py|rb', 'c|h|java|rb', 'c.h', 'c-h',
                   'h|java', 'c|java', 'java|py|rb', 'java|rb', 'JAVA', 'C', 'c|c_h', 'c_h|h', 'c_', '_h', 'c_|h', 'c|_h', 'tar.java', 'tar|java',
                   'c|h|js|py', 'c|h|js', 'js', 'j|s', 'c++', 'c%5Fh', 'c+', 'py|c|h|java|js|rb|go|html', 'py|c|h|java|js|rb|go|txt']


def near_misses(rng, n, opts=True):
    """n different parameter sets of one mode that differ from the first in one respect each (extensions, one option)."""
    mode = rng.choice(['nosplit', 'basic', 'chars', 'bpe'])
    base = {'mode': mode, 'exts': rng.choice(EXTENSION_LISTS), 'opts': random_opts(rng, mode)}
    out = [base]
    names = ['no_spaces', 'no_unicode', 'no_com', 'no_str'] + {'nosplit': ['full_strings'], 'basic': ['no_case', 'split_numbers']}.get(mode, [])
    for _ in range(40):
        d = dict(base, opts=dict(base['opts']))
        k = rng.random()
        if k < 0.6 or not opts:
            d['exts'] = rng.choice(EXTENSION_LISTS)
            if d['exts'] and rng.random() < 0.5 and base['exts']:
                parts = base['exts'].split('|')
                j = rng.randrange(len(parts))
                d['exts'] = '|'.join(rng.choice([parts[:j] + parts[j + 1:] or ['c'], parts + [rng.choice(['c', 'h', 'go'])],
                                                 parts[:j] + [rng.choice(['c', 'rb', 'js'])] + parts[j + 1:], ['_'.join(parts)], [''.join(parts)]]))
        elif k < 0.85 or 'max_str_length' not in d['opts']:
            o = rng.choice(names)
            d['opts'][o] = not d['opts'].get(o, False)
        else:
            d['opts']['max_str_length'] += rng.choice([1, -1, 2, 10, 100])
        if d['opts'].get('no_str') and 'max_str_length' in d['opts']:
            d['opts'].pop('max_str_length')
        if d['opts'].get('no_str') and d['opts'].get('full_strings'):
            d['opts'].pop('full_strings')
        if d['opts'].get('max_str_length', 2) < 0:
            continue
        if d not in out:
            out.append(d)
        if len(out) == n:
            break
    return out


def random_opts(rng, mode, p=0.3, maxlen=True):
    import textlib
    o = textlib.random_opts(rng, mode, p=p, maxlen=maxlen)
    o.pop('append_eof', None)
    if mode == 'nosplit' and rng.random() < p:
        o['full_strings'] = True
    if mode == 'basic' and rng.random() < p:
        o['split_numbers'] = True
    return o
