'''
A sandboxed "world" (home, boxes, workspaces) in which the real tool is executed, and its projection
to the abstract state of the specification.

Runs in worker processes (unprivileged user, preloaded shim).
'''
import ctypes
import json
import os
import random
import shutil
import signal
import stat
import sys
import time
import traceback
import zipfile

import facts

# the code under test is loaded once, every command is executed in a forked child
import bead.box
import bead.workspace
import bead.ziparchive
import bead.zipopener
import bead_cli.environment
import bead_cli.main

_libc = ctypes.CDLL(None)
_HAVE_SHIM = hasattr(_libc, 'bv_arm')
if _HAVE_SHIM:
    _libc.bv_log.restype = ctypes.c_char_p
    _libc.bv_count.restype = ctypes.c_long
    _libc.bv_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
    _libc.bv_set_time.argtypes = [ctypes.c_longlong, ctypes.c_longlong]

OFF, COUNT, KILL_BEFORE, KILL_AFTER, TORN, ERROR, ERROR_FROM, SIGINT, PAUSE = range(9)
K_OPEN, K_WRITE, K_RENAME, K_UNLINK, K_MKDIR, K_CHMOD, K_TRUNC, K_LINK = range(8)
APP = 'bead_cli-6a4d9d98-8e64-4a2a-b6c2-8a753ea61daf'
INDEX = '.index.sqlite'
INDEX_FILES = {INDEX, INDEX + '-journal', INDEX + '-wal', INDEX + '-shm'}
LATEST = 4102444800_000000 * 50   # later than anything
real_time = time.time


class Result:
    def __init__(self, code, out, err, log=None, count=0):
        self.code, self.out, self.err, self.log, self.count = code, out, err, log or [], count
        self.crashed = False

    @property
    def status(self):
        if self.code == 0:
            return 'ok'
        if self.code == 'timeout':
            return 'hang'
        if self.code == 137:
            return 'killed'
        return 'err'


class CommandRefused(Exception):
    '''the tool refuses what it has to do, while preparing a case'''


def require(result):
    if result.status != 'ok':
        raise CommandRefused(f'{result.status}: {result.err[-1500:]}')
    return result


def in_child(function, timeout=60):
    '''Run function in a forked child, return its JSON-able result.'''
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                result = {'ok': function()}
            except BaseException:
                result = {'exc': traceback.format_exc()}
            with os.fdopen(w, 'w') as f:
                json.dump(result, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    result = json.loads(data) if data else {'exc': 'no result'}
    if 'exc' in result:
        raise ChildError(result['exc'])
    return result['ok']


class ChildError(Exception):
    pass


class World:
    def __init__(self, root, boxes=('b1', 'b2'), workspaces=('w1', 'w2'), box_dirs=None, seed_time=None):
        self.root = os.path.realpath(root)
        os.makedirs(self.root)
        self.home = self.mkdir('home')
        self.cwd = self.mkdir('cwd')
        self.files = self.mkdir('files')
        self.wsroot = self.mkdir('ws')
        self.io = self.mkdir('io')
        self.rest = self.mkdir('rest')
        with open(self.path('rest', 'precious'), 'w') as f:
            f.write('precious')
        with open(self.path('files', 'plain.txt'), 'w') as f:
            f.write('plain')
        self.locs = {}
        for b in boxes:
            d = os.path.join(self.root, (box_dirs or {}).get(b, 'boxes/' + b))
            os.makedirs(d, exist_ok=True)
            self.locs[b] = d
        self.locs['home'] = os.path.join(self.home, 'BeadBox')
        self.wss = {w: os.path.join(self.wsroot, w) for w in workspaces}
        self.now = seed_time or 1_600_000_000_000_000
        self.config = os.path.join(self.home, '.config', APP)
        self.env = {}
        self._n = 0

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def mkdir(self, *parts):
        p = self.path(*parts)
        os.makedirs(p, exist_ok=True)
        return p

    def destroy(self):
        def fix(p):
            for d, dirs, fs in os.walk(p):
                try:
                    os.chmod(d, 0o700)
                except OSError:
                    pass
        fix(self.root)
        fix(self.root)
        shutil.rmtree(self.root, ignore_errors=True)

    # ---------------------------------------------------------------- snapshots of the disk
    def save_disk(self):
        '''copy of everything, for running the same command from the same state several times'''
        dest = self.root + '.saved'
        _copy(self.root, dest)
        return dest

    def restore_disk(self, saved):
        _remove(self.root)
        _copy(saved, self.root)

    # ---------------------------------------------------------------- running the tool
    def child_setup(self, cwd, out, err):
        os.environ.update(HOME=self.home, XDG_CONFIG_HOME=os.path.join(self.home, '.config'),
                          BROWSER='/bin/true', COLUMNS='80')
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        fo = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        fe = os.open(err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        fi = os.open('/dev/null', os.O_RDONLY)
        os.dup2(fi, 0)
        os.dup2(fo, 1)
        os.dup2(fe, 2)
        sys.stdout = open(1, 'w', encoding='utf-8', errors='surrogateescape', closefd=False)
        sys.stderr = open(2, 'w', encoding='utf-8', errors='surrogateescape', closefd=False)
        os.chdir(cwd or self.cwd)
        random.seed()       # as in a new process
        signal.signal(signal.SIGINT, signal.default_int_handler)
        if _HAVE_SHIM and self.now is not None:
            _libc.bv_set_time(self.now * 1000, 0)

    def start(self, argv, cwd=None, fault=None, inside=None, pipes=None, setup=None):
        '''fork a child executing the command; returns (pid, out, err, logfile)'''
        self._n += 1
        out, err, log = (os.path.join(self.io, f'{self._n}.{x}') for x in ('out', 'err', 'log'))
        pid = os.fork()
        if pid:
            return pid, out, err, log
        code = 99
        try:
            self.child_setup(cwd, out, err)
            sys.argv = ['bead'] + list(argv)
            sys.setrecursionlimit(1000)
            if setup:
                setup()
            if pipes:
                _libc.bv_pause_fds(*pipes)
                _libc.bv_arm(inside.encode(), 0, PAUSE, 0, -1)
            elif fault is not None:
                mode, n, errno_, kinds = fault
                _libc.bv_arm((inside or self.root).encode(), n, mode, errno_, kinds)
            try:
                bead_cli.main.main()
                code = 0
            except SystemExit as e:
                c = e.code
                code = 0 if c is None else c & 255 if isinstance(c, int) else 1
            except BaseException:
                traceback.print_exc()
                code = 98
            if _HAVE_SHIM:
                n = _libc.bv_count()
                text = _libc.bv_log()
                _libc.bv_disarm()
                if fault is not None or pipes:
                    with open(log, 'wb') as f:
                        f.write(b'%d\n' % n + text)
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)

    def finish(self, started, timeout=60):
        pid, out, err, log = started
        end = real_time() + timeout
        pause = 0.0005
        while True:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                code = os.waitstatus_to_exitcode(st)
                if code < 0:
                    code = 128 - code
                break
            if real_time() > end:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                code = 'timeout'
                break
            time.sleep(pause)
            pause = min(pause * 1.5, 0.01)
        def text(p):
            try:
                with open(p, encoding='utf-8', errors='surrogateescape') as f:
                    return f.read()
            except OSError:
                return ''
        lines = text(log).split('\n') if os.path.exists(log) else []
        for p in (out, err, log):
            if os.path.exists(p):
                if p == out:
                    o = text(p)
                elif p == err:
                    e = text(p)
                os.unlink(p)
        return Result(code, o if 'o' in locals() else '', e if 'e' in locals() else '',
                      [x for x in lines[1:] if x], int(lines[0]) if lines and lines[0] else 0)

    def run(self, *argv, cwd=None, fault=None, inside=None, setup=None, timeout=60):
        return self.finish(self.start(argv, cwd, fault, inside, setup=setup), timeout)

    # ---------------------------------------------------------------- projection
    def files_of(self, loc):
        d = self.locs.get(loc, loc)
        result = []
        if not os.path.isdir(d):
            return result
        for n in sorted(os.listdir(d)):
            if n in INDEX_FILES:
                continue
            p = os.path.join(d, n)
            if os.path.isdir(p):
                a = dict(dg='dir:' + facts.digest(facts.tree_of(p)), zip=False, meta=False, ok=False)
            else:
                a = facts.read_archive(p)
            result.append(dict(f=n, ext=n.endswith('.zip'), bn=facts.bead_name(n) if n.endswith('.zip') else '', a=a))
        return result

    def api_view(self, want_list=True):
        '''What the tool's own interfaces tell: known boxes, listing of boxes, workspaces'''
        env = bead_cli.environment.Environment.from_dir(self.config)
        reg = [[b.name, str(b.location)] for b in env.get_boxes()]
        lists = {}
        for loc, d in self.locs.items():
            if not want_list or not os.path.isdir(d):
                continue
            lists[loc] = list_box(loc, d)
        wss = {}
        for w, d in self.wss.items():
            ws = bead.workspace.Workspace(d)
            v = ws.is_valid
            wss[w] = dict(valid=bool(v))
            if v:
                try:
                    wss[w]['kind'] = ws.kind
                    wss[w]['inputs'] = [
                        dict(nick=str(i.name), kind=i.kind, cid=i.content_id,
                             time=facts.parse_timestamp(i.freeze_time_str), time_str=i.freeze_time_str)
                        for i in ws.inputs]
                except Exception as e:
                    wss[w]['broken'] = f'{type(e).__name__}: {e}'
        return dict(reg=reg, lists=lists, ws=wss)

    def snapshot(self, want_list=True):
        def view():
            if _HAVE_SHIM:
                _libc.bv_set_time(self.now * 1000, 0)
            os.chdir(self.cwd)
            os.environ.update(HOME=self.home)
            return self.api_view(want_list)
        try:
            api = in_child(view)
        except ChildError as e:
            api = dict(reg=[['!unreadable', str(e)[-300:]]], lists={}, ws={})
        byloc = {}
        for k, v in self.locs.items():
            byloc[v] = k
        boxes = {}
        for loc, d in self.locs.items():
            boxes[loc] = dict(
                ex=os.path.isdir(d), indexed=os.path.exists(os.path.join(d, INDEX)),
                files=self.files_of(loc), list=api['lists'].get(loc, []))
        wss = {}
        for w, d in self.wss.items():
            wss[w] = self.workspace(d, api['ws'].get(w, {}))
        other = facts.tree_of(self.root, ignore=('ws', 'boxes', 'cwd', 'io'), dirs=True, modes=True)
        skip = os.path.relpath(self.config, self.root)
        covered = [skip] + [os.path.relpath(d, self.root) for d in self.locs.values()]
        rest = {k: v for k, v in other.items()
                if not any(k.startswith(c + '/') for c in covered)
                and not (skip + '/').startswith(k)}
        return dict(
            reg=[[n, byloc.get(l, l)] for n, l in api['reg']],
            box=boxes, ws=wss, rest=facts.digest(sorted(rest.items())))

    def workspace(self, d, api):
        ex = os.path.lexists(d)
        valid = bool(api.get('valid'))
        r = dict(ex=ex, valid=valid, kind='', inputs=[], loaded=[], stray=[], junk=False, prot=True, wr=True, broken='', path=d)
        inner = [os.path.relpath(p, d) for p in self.wss.values() if p.startswith(d + '/')]

        def own(tree, below=''):
            return {k: v for k, v in tree.items() if not any((below + k).startswith(i + '/') for i in inner)}
        if not valid:
            r['code'] = own(facts.tree_of(d)) if ex else {}
            r['output'] = r['temp'] = {}
            return r
        r['broken'] = api.get('broken', '')
        r['kind'] = api.get('kind', '!')
        r['inputs'] = api.get('inputs', [])
        nicks = {i['nick'] for i in r['inputs']}
        inp = os.path.join(d, 'input')
        for n in sorted(os.listdir(inp)):
            p = os.path.join(inp, n)
            if n in nicks and os.path.isdir(p):
                r['loaded'].append(dict(nick=n, tree=facts.tree_of(p)))
                if not facts.write_protected(p):
                    r['prot'] = False
            elif n.startswith('tmp') and os.path.isdir(p):
                r['junk'] = True            # left over by an interrupted command
            else:
                r['stray'].append([n, facts.tree_of(p)])
        if os.stat(inp).st_mode & stat.S_IWUSR:
            r['prot'] = False
        r['code'] = {k: v for k, v in own(facts.tree_of(
            d, ignore=('input', 'output', 'temp', '.bead-meta'))).items()}
        r['output'] = facts.tree_of(os.path.join(d, 'output'))
        r['temp'] = own(facts.tree_of(os.path.join(d, 'temp')), 'temp/')
        for n in os.listdir(d):
            if n != 'input' and not facts.owner_writable(os.path.join(d, n), [os.path.join(d, i) for i in inner]):
                r['wr'] = False
        return r

    # ---------------------------------------------------------------- acting as the user / the environment
    def write(self, ws, rel, content):
        p = os.path.join(self.wss[ws], rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb' if isinstance(content, bytes) else 'w') as f:
            f.write(content)


def _remove(p):
    for _ in range(2):
        for d, dirs, fs in os.walk(p):
            try:
                os.chmod(d, 0o700)
            except OSError:
                pass
    shutil.rmtree(p)


def _copy(src, dest):
    '''cp -a, also of read-only trees'''
    dirs = []

    def walk(s, t):
        st = os.lstat(s)
        os.mkdir(t)
        for e in os.scandir(s):
            tp = os.path.join(t, e.name)
            if e.is_symlink():
                os.symlink(os.readlink(e.path), tp)
            elif e.is_dir():
                walk(e.path, tp)
            elif e.is_file():
                shutil.copyfile(e.path, tp)
                shutil.copystat(e.path, tp)
            else:
                os.mkfifo(tp)
        shutil.copystat(s, t)
        dirs.append((t, st.st_mode))
    walk(src, dest)
    for t, m in dirs:
        os.chmod(t, stat.S_IMODE(m))


def list_box(loc, directory):
    '''the box through the public interface: [{name, cid, kind, time, inputs, f}]'''
    box = bead.box.Box(loc, bead.box.Path(directory))
    result = []
    try:
        beads = box.all_beads()
    except Exception as e:
        return [dict(error=type(e).__name__)]
    for b in beads:
        result.append(bead_record(b, box))
    return result


def bead_record(b, box=None):
    r = dict(name=str(b.name), cid=b.content_id, kind=b.kind,
             time=facts.parse_timestamp(b.freeze_time_str),
             inputs=[dict(nick=str(i.name), kind=i.kind, cid=i.content_id,
                          time=facts.parse_timestamp(i.freeze_time_str)) for i in b.inputs])
    if box is not None:
        try:
            a = box.resolve(b)
            r['f'] = os.path.basename(a.location)
        except Exception as e:
            r['f'] = "/!" + type(e).__name__
    return r
