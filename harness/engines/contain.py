'''
Hostile archives unpacked, and workspaces having links in them discarded, unloaded, reloaded - possibly killed meanwhile.
Everything in the world is compared before and after each command; judged by ContainTrace.

The commands run as an unprivileged user: paths leading out of the scratch folder lead to nothing which can be changed.
'''
import json
import os
import re
import stat

import facts
import forge
from world import World, KILL_BEFORE, KILL_AFTER, TORN, ERROR, ERROR_FROM, SIGINT, COUNT, require

NAMES = ['a', 'b', 'd', 'f', 'a b', '...', '..a', 'a..', '.a', 'input', 'output', 'temp', '.bead-meta', 'src', '~', 'C:', '\\', '..\\x', 'x', 'y', 'nul', '%2e%2e', 'é', 'n' * 100, 'rest', 'w1']


def cases(job):
    return job['count']


class Driver:
    def __init__(self, rng, scratch):
        self.rng = rng
        w = self.w = World(os.path.join(scratch, 'world'), boxes=('b1',), workspaces=('w1', 'w2', 'w3'))
        self.serial = 0
        self.paths, self.nodes, self.contents = {}, {}, {}
        for d, mode in (('d', 0o755), ('d/ro', 0o555), ('w1', 0o755), ('d/sub', 0o700)):
            w.mkdir('rest', d)
        for f, mode in (('f', 0o444), ('h', 0o600), ('d/g', 0o644), ('d/x.sh', 0o755), ('d/ro/z', 0o400), ('d/sub/q', 0o666), ('w1/f', 0o640)):
            p = w.path('rest', f)
            with open(p, 'w') as fh:
                fh.write('rest/' + f)
            os.chmod(p, mode)
        os.chmod(w.path('rest', 'd', 'ro'), 0o555)
        for d in ('ws/w1x', 'ws/w', 'ws/w2_'):
            w.mkdir(d)
            with open(w.path(d, 'f'), 'w') as fh:
                fh.write(d)
        self.steps = []
        r = w.run('box', 'add', 'A', w.locs['b1'])
        require(r)
        self.again('w1')

    # ------------------------------------------------------------ recording
    def node(self, p, st):
        w = self.w
        if stat.S_ISLNK(st.st_mode):
            to = os.path.normpath(os.path.join(os.path.dirname(p), os.readlink(p)))
            inside = to == w.root or to.startswith(w.root + '/')
            n = ('link', 0, 0, tuple(os.path.relpath(to, w.root).split('/')) if inside and to != w.root else () if inside else ('?', os.readlink(p)))
        elif stat.S_ISDIR(st.st_mode):
            n = ('dir', stat.S_IMODE(st.st_mode), 0, ())
        elif stat.S_ISREG(st.st_mode):
            try:
                with open(p, 'rb') as f:
                    data = f.read()
            except PermissionError:
                data = b'?'
            n = ('file', stat.S_IMODE(st.st_mode), self.content(data), ())
        else:
            n = ('other', stat.S_IMODE(st.st_mode), 0, ())
        return self.nodes.setdefault(n, len(self.nodes) + 1)

    def content(self, data):
        return self.contents.setdefault(data, len(self.contents) + 1)

    def snapshot(self):
        w = self.w
        result = {}
        for base, dirs, fs in os.walk(w.root):
            rel = os.path.relpath(base, w.root)
            if rel == '.':
                dirs[:] = [d for d in dirs if d not in ('io',)]
                rel = ''
            if rel == 'home/.config':
                dirs[:] = []
            for n in ['', *fs, *(d for d in dirs if os.path.islink(os.path.join(base, d)))]:
                p = os.path.join(base, n) if n else base
                r = os.path.normpath(os.path.join(rel, n))
                key = () if r == '.' else tuple(r.split('/'))
                i = self.paths.setdefault(key, len(self.paths))
                result[i] = self.node(p, os.lstat(p))
        return result

    def rel(self, p):
        return list(os.path.relpath(p, self.w.root).split('/'))

    def command(self, cmd, argv, cwd=None, fault=None):
        w = self.w
        cmd = {**dict(op='env', ws=[], via=False, nick='', box=[], bead=False, entries=[], review=False, faulty=fault is not None and fault[0] != COUNT), **cmd}
        r = w.run(*argv, cwd=cwd, fault=fault)
        for d in (w.cwd, cwd or w.cwd):
            for n in os.listdir(d) if os.path.isdir(d) else ():
                if re.fullmatch(r'error_[0-9T+-]+\.txt', n):
                    os.unlink(os.path.join(d, n))
        before, self.now = self.now, self.snapshot()
        self.steps.append(dict(cmd=cmd, a=before, b=self.now, st=r.status, argv=[str(a) for a in argv], out=r.out[-300:], err=r.err[-1500:]))
        w.now += 1_000_000
        return r

    def env(self):
        '''something was changed by the user'''
        self.now = self.snapshot()

    # ------------------------------------------------------------ what is used
    def fault(self, p=0.12):
        r = self.rng
        if r.random() > p:
            return None
        mode = r.choice([KILL_BEFORE, KILL_AFTER, KILL_AFTER, TORN, ERROR, ERROR_FROM, SIGINT])
        return (mode, r.choice([r.randint(1, 12), r.randint(1, 40)]), r.choice([5, 28, 13]) if mode in (ERROR, ERROR_FROM) else 0, -1)

    def entry(self, deep):
        r = self.rng
        k = r.random()
        n = r.choice([1, 1, 2, 2, 3, 4])
        cs = [r.choice(NAMES) for _ in range(n)]
        if k < 0.55:
            return dict(abs=False, cs=cs)
        if k < 0.65:        # something harmless in it
            cs.insert(r.randrange(len(cs)), r.choice(['.', '']))
            if cs[0] == '':
                cs[0] = '.'
            return dict(abs=False, cs=cs)
        target = r.choice([['rest', 'd', 'g'], ['rest', 'd', 'new'], ['rest', 'h'], ['rest', 'w1', 'f'], ['boxes', 'b1', 'evil.zip'], ['ws', 'w1', 'src'], ['ws', 'w1x', 'f'],
                           ['ws', 'w1', 'input', 'a', 'f'], ['ws', 'w1', 'input', 'b'], ['ws', 'w1', 'output', 'o'], ['ws', 'w1', '.bead-meta', 'bead'], ['home', 'x'], ['cwd', 'x']])
        if k < 0.75:
            return dict(abs=True, cs=r.choice([[], ['']]) + self.w.root.split('/')[1:] + target)
        up = r.choice([1, 2, 3, deep, deep, deep, deep + 1])
        rest = target if up >= deep else target[deep - up:] or ['evil']
        cs = ['..'] * up + rest
        if r.random() < 0.4:
            n = r.randint(1, 2)
            cs = [r.choice(['q', 'a', '.', 'zz']) for _ in range(n)] + ['..'] * n + cs
        return dict(abs=False, cs=cs)

    def archive(self, entries=None):
        '''write an archive having such entries, return path and entries'''
        r = self.rng
        self.serial += 1
        if entries is None:
            # (data is unpacked in ws/w/input/tmp/nick, or ws/w/output; code in ws/w)
            entries = []
            for _ in range(r.choice([1, 2, 3, 5])):
                sub = r.choice(['data', 'data', 'code'])
                e = self.entry(2 if sub == 'code' else r.choice([5, 5, 3]))
                entries.append(dict(e, sub=sub))
            if r.random() < 0.35:
                entries = [e for e in entries if not e['abs'] and not set(e['cs']) & {'', '.', '..'}]
        data, code = {}, {}
        result = []
        for k, e in enumerate(entries):
            name = ('/' if e['abs'] else '') + '/'.join(e['cs'])
            text = f'archive {self.serial} entry {k}'
            where = data if e['sub'] == 'data' else code
            if not name or name in where:
                continue
            where[name] = text
            result.append(dict(sub=e['sub'], abs=e['abs'], cs=e['cs'], c=self.content(text.encode())))
        raw = forge.archive('x', r.choice(['k1', 'k2']), facts.timestamp(self.w.now - 10_000_000 + self.serial), (), data, code)
        p = self.w.path('files', f'x{self.serial}.zip')
        with open(p, 'wb') as f:
            f.write(raw)
        if r.random() < 0.1:
            # entries which are links, as made by other tools
            self.as_links(p)
        self.env()
        return p, result

    def as_links(self, p):
        import zipfile
        with zipfile.ZipFile(p) as z:
            entries = [(i, z.read(i)) for i in z.infolist()]
        with zipfile.ZipFile(p, 'w') as z:
            for i, b in entries:
                if i.filename.startswith(('data/', 'code/')):
                    i.create_system = 3
                    i.external_attr = 0o120777 << 16
                z.writestr(i, b)

    def ws_path(self, ws):
        '''the path of a workspace to be used, perhaps through a link'''
        w = self.w
        d = w.wss[ws]
        r = self.rng.random()
        if r < 0.85 or not os.path.isdir(d):
            return d, False
        link = w.path('cwd', 'to_' + ws)
        if not os.path.lexists(link):
            os.symlink(d, link)
            self.env()
        return link, True

    def again(self, ws):
        w = self.w
        if os.path.lexists(w.wss[ws]):
            return
        for argv in (['new', w.wss[ws]],):
            r = w.run(*argv)
            require(r)
            w.now += 1_000_000
        for f in ('src', 'output/o', 'temp/t', 'lib/deep/er'):
            w.write(ws, f, f'{ws} {f}')
        raw = forge.archive('a', 'ka', facts.timestamp(w.now - 5), (), {'f': 'a/f', 'sub/g': 'a/sub/g'})
        p = w.path('files', 'a.zip')
        with open(p, 'wb') as f:
            f.write(raw)
        for nick in ('a', 'b'):
            r = w.run('input', 'add', nick, p, '-w', w.wss[ws])
            require(r)
            w.now += 1_000_000
        self.env()

    # ------------------------------------------------------------ commands
    def reference(self, ws, nick):
        d = self.w.wss[ws]
        if not all(os.path.isdir(os.path.join(d, x)) for x in ('input', 'output', 'temp', '.bead-meta')):
            return None
        try:
            with open(os.path.join(self.w.wss[ws], '.bead-meta', 'bead')) as f:
                return nick in json.load(f)['inputs']
        except (OSError, ValueError, KeyError):
            return None

    def load(self, ws, nick, archive=None, fault=None):
        path, via = self.ws_path(ws)
        p, entries = archive or self.archive()
        has = self.reference(ws, nick)
        op = 'update' if has else 'add'
        argv = ['input', op, nick, p, '-w', path]
        self.command(dict(op=op, ws=self.rel(path), via=via, nick=nick, bead=has is not None, entries=entries), argv, fault=fault)

    def edit(self, ws, archive=None, fault=None, review=None):
        p, entries = archive or self.archive()
        review = self.rng.random() < 0.5 if review is None else review
        path = self.w.wss[ws]
        self.command(dict(op='edit', ws=self.rel(path), bead=not os.path.lexists(path), entries=entries, review=review),
                     ['edit', p, path] + (['--review'] if review else []), fault=fault)

    def unload(self, ws, nick, op='unload', fault=None):
        path, via = self.ws_path(ws)
        self.command(dict(op=op, ws=self.rel(path), via=via, nick=nick), ['input', op, nick, '-w', path], fault=fault)

    def reload(self, ws, nick, fault=None):
        path, via = self.ws_path(ws)
        self.command(dict(op='load', ws=self.rel(path), via=via, nick=nick), ['input', 'load', nick, '-w', path], fault=fault)

    def discard(self, ws, fault=None):
        path, via = self.ws_path(ws)
        force = self.rng.random() < 0.3 or fault is not None
        inside = self.rng.random() < 0.2 and not via and os.path.isdir(path)
        self.command(dict(op='discard', ws=self.rel(path), via=via), ['discard'] + (['-f'] if force else []) + ([] if inside else [path]), cwd=path if inside else None, fault=fault)

    def save(self, ws, fault=None):
        self.command(dict(op='save', ws=self.rel(self.w.wss[ws]), box=['boxes', 'b1']), ['save', 'A', '-w', self.w.wss[ws]], fault=fault)

    def place(self, path, target, hard=False):
        '''a link made by the user, in a folder which may be write protected'''
        d = os.path.dirname(path)
        if os.path.lexists(path) or not os.path.isdir(d) or os.path.realpath(d) != d:
            return False
        mode = stat.S_IMODE(os.stat(d).st_mode)
        os.chmod(d, mode | 0o700)
        try:
            if hard:
                os.link(target, path)
            else:
                os.symlink(target, path)
        except OSError:
            pass
        os.chmod(d, mode)
        self.env()
        return True

    def replace(self, path, target):
        '''a folder moved to elsewhere, and a link put in place of it'''
        d = os.path.dirname(path)
        if not os.path.isdir(path) or os.path.islink(path) or os.path.realpath(d) != d:
            return
        self.serial += 1
        moved = self.w.path('rest', f'moved{self.serial}')
        for p in (d, path):
            mode = stat.S_IMODE(os.stat(p).st_mode)
            if p == d:
                dmode = mode
            os.chmod(p, mode | 0o700)
        os.rename(path, moved)
        os.chmod(moved, mode)
        os.symlink(moved if target is None else target, path)
        os.chmod(d, dmode)
        self.env()

    def some_link(self):
        r = self.rng
        w = self.w
        ws = r.choice(['w1', 'w1', 'w2'])
        d = w.wss[ws]
        if not os.path.isdir(d):
            return
        target = r.choice([w.path('rest', 'd'), w.path('rest', 'f'), w.path('rest', 'd', 'x.sh'), w.path('rest', 'd', 'ro'), w.path('rest', 'none'), w.path('rest', 'd', 'ro', 'z'),
                           w.wsroot, d, os.path.join(d, 'input', 'a'), os.path.join(d, 'input', 'a', 'f'), os.path.join(d, 'src'), w.root, '/', '.', '..', '../..', '/nonexistent',
                           w.locs['b1'], w.home, os.path.join(w.wsroot, 'w1x')])
        if r.random() < 0.15:
            return self.replace(os.path.join(d, r.choice(['output', 'temp', 'input/a', 'input/x', 'lib'])), r.choice([None, None, target]))
        folders = ['input', 'input/a', 'input/a/sub', 'input/x', 'output', 'temp', '', 'lib/deep', '.bead-meta', 'input/b']
        f = r.choice(folders)
        name = r.choice(['l', 'm', 'x', 'y']) if f == 'input' else r.choice(['l', 'm', 'a', 'n'])
        if f in ('input',) and r.random() < 0.7:
            name = r.choice(['x', 'y'])
        self.place(os.path.join(d, f, name), target, hard=r.random() < 0.15 and os.path.isfile(target))

    def step(self):
        r = self.rng
        ws = r.choice(['w1', 'w1', 'w2', 'w3'])
        exists = os.path.lexists(self.w.wss[ws])
        k = r.random()
        if k < 0.3:
            self.some_link()
            self.some_link()
        elif not exists:
            if k < 0.85:
                self.edit(ws, fault=self.fault())
            else:
                self.again(ws)
        elif k < 0.55:
            self.load(ws, r.choice(['x', 'x', 'y', 'a', 'b']), fault=self.fault())
        elif k < 0.70:
            self.unload(ws, r.choice(['x', 'a', 'a', 'b', 'y']), r.choice(['unload', 'unload', 'delete']), fault=self.fault())
        elif k < 0.76:
            self.reload(ws, r.choice(['x', 'a', 'b']), fault=self.fault())
        elif k < 0.88:
            self.discard(ws, fault=self.fault())
            if os.path.lexists(self.w.wss[ws]) and r.random() < 0.6:
                self.discard(ws)
        elif k < 0.92:
            self.edit(ws)
        else:
            self.save(ws)

    def replay(self, steps):
        '''a behaviour of GenContain'''
        w = self.w

        def entries(es, subs):
            return [dict(abs=bool(a), cs=(w.root.split('/')[1:] if a else []) + list(cs), sub=s) for a, cs in es for s in subs]
        for k, s in enumerate(steps):
            op = s[0]
            dying = k + 1 < len(steps) and steps[k + 1][0] == 'die'
            fault = (self.rng.choice([KILL_BEFORE, KILL_AFTER]), self.rng.randint(1, 25), 0, -1) if dying else None
            if op == 'link':
                self.place(w.path(*s[1]), w.path(*s[2]))
            elif op == 'again':
                self.again('w1')
            elif not os.path.lexists(w.wss['w1']):
                continue
            elif op == 'load':
                self.load('w1', 'x', self.archive(entries(s[1], ['data'])), fault)
            elif op == 'edit':
                self.edit('w2', self.archive(entries(s[1], ['code', 'data'] if self.rng.random() < 0.3 else [self.rng.choice(['code', 'data'])])), fault, review=True)
            elif op == 'unload':
                self.unload('w1', self.rng.choice(['x', 'x', 'a']), fault=fault)
            elif op == 'discard':
                self.discard('w1', fault)

    def record(self):
        n = len(self.paths)
        paths = [None] * n
        for p, i in self.paths.items():
            paths[i] = list(p)
        nodes = [dict(kind=k, w=bool(m & 0o200), c=c, to=list(to)) for k, m, c, to in self.nodes]
        return dict(paths=paths, nodes=nodes, steps=[dict(cmd=s['cmd'], st=s['st'], a=[s['a'].get(i, 0) for i in range(n)], b=[s['b'].get(i, 0) for i in range(n)]) for s in self.steps])


def run_case(job, i, rng, scratch):
    d = Driver(rng, scratch)
    if 'behaviours' in job:
        with open(job['behaviours']) as f:
            d.replay(json.load(f)[i][1])
    else:
        while len(d.steps) < job['profile'].get('length', 14):
            d.step()
    data = d.record()
    root = d.w.root
    story = [dict(argv=[str(a).replace(root, '') for a in s['argv']], status=s['st'], err=s['err'],
                  entries=[('/' if e['abs'] else '') + '/'.join(e['cs']) for e in s['cmd']['entries']]) for s in d.steps]
    # what was changed, for the reader
    names = {v: k for k, v in d.paths.items()}
    for k, s in enumerate(story):
        a, b = data['steps'][k]['a'], data['steps'][k]['b']
        s['changed'] = ['/'.join(names[j]) for j in range(len(a)) if a[j] != b[j]][:30]
    d.w.destroy()
    yield dict(judge='ContainTrace', data=data, story=story, key=facts.digest([(s['argv'], s['entries'], s['changed']) for s in story]),
               stats={'commands': len(story), 'hostile entries': sum(1 for s in d.steps for e in s['cmd']['entries'] if e['abs'] or '..' in e['cs'])})
