'''
Workspaces with unusual content, saved, edited, reviewed and loaded; judged by BeadTrace.
'''
import os
import random

import facts
from engines import core
from world import LATEST

MiB = 1024 ** 2
SIZES = [0, 1, 2, 100, 65535, 65536, 65537, MiB - 1, MiB, MiB + 1, 3 * MiB + 7]
NAMES = ['a', 'A', ' ', '  x ', '.', '..x', '.hidden', '.bead-meta', 'input', 'output', 'temp', 'meta', 'manifest', 'bead', 'data', 'code',
         'x.zip', 'a\\b', 'a\nb', 'tab\t', '\x01\x7f', 'é', 'e\u0301', '漢字', '\U0001f600', '%41', '*', '?', '[a]', '"q"', "it's", '$HOME', '-r',
         '~', '#x', 'a:b', 'C:', 'CON', 'a__b', 'con.txt', 'n' * 200, '__pycache__', '.git', '.index.sqlite', 'x_20200101T000000000000+0000.zip', 'a/',
         '\u202e', '\xa0', '\ufeff', '\ud7ff', '\uffff', '%', '&amp;', '<x>', 'new', 'bead.new', 'Input', 'OUTPUT', 'Output', 'Temp', 'temP', 'TEMP', '.Bead-Meta', '.bead-metadata', 'inputs', 'output ', ' input', 'tmp', '.bead', 'outputx', '.DS_Store', 'Thumbs.db', 'x~', 'core', '0']
NAMES = [n for n in NAMES if n not in ('.',) and '/' not in n]
TIMES = [0, 1, -1, -10 ** 9, 315_532_799, 315_532_800, 315_532_801, 4_354_819_198, 4_354_819_199, 4_354_819_200, 2 ** 33, 2 ** 31 - 1, 2 ** 31, 1_600_000_001, 1_600_000_000.5]
COMPRESSION = [None, None, None, 'off', 'stored', 'deflated', '', 'lzma', 'nonsense', 'OFF']
ZONES = [None, 'UTC', 'Europe/Budapest', 'America/St_Johns', 'Asia/Kathmandu', 'Pacific/Apia']


def cases(job):
    return job['count']


class Driver(core.Driver):
    def __init__(self, rng, scratch, profile):
        super().__init__(rng, scratch, dict(profile, weights='mixed'))
        weights = dict(fill=14, save=14, edit=10, add=4, load=4, unload=2, discard=3, mvws=2, new=4, rm=4, mode=3, link=3, setting=2, copy=1, index=1, large=0.6)
        self.names, self.weights = list(weights), list(weights.values())
        self.heavy = 4

    def place(self):
        '''some path below the sources or the output of a workspace'''
        ws = self.ws()
        if not self.s.state['ws'][ws]['valid']:
            return None
        r = self.rng
        depth = r.choice([1, 1, 2, 3, 6])
        parts = [r.choice(NAMES) for _ in range(depth)]
        if r.random() < 0.55:
            parts.insert(0, 'output')
        elif parts[0] in ('input', 'output', 'temp', '.bead-meta'):
            parts[0] += 'x'
        return ws, parts

    def content(self):
        r = self.rng
        size = r.choice(SIZES)
        if size > 100000:
            if not self.heavy:
                size = 17
            else:
                self.heavy -= 1
        kind = r.randint(0, 4)
        if kind == 0:
            return bytes(size)
        if kind == 1:
            return random.Random(r.random()).randbytes(size)
        if kind == 2:
            return (b'line\r\n\x1a\x00\xff' * (size // 9 + 1))[:size]
        if kind == 3:
            return (b'PK\x03\x04PK\x05\x06' * (size // 8 + 1))[:size]
        return (f'{self.serial}' * (size + 1)).encode()[:size]

    def do_fill(self):
        n = self.rng.choice([1, 1, 3, 10])
        for _ in range(n):
            p = self.place()
            if not p:
                continue
            ws, parts = p
            path = os.path.join(self.w.wss[ws], *parts)
            self.serial += 1
            try:
                os.makedirs(os.path.dirname(path), exist_ok=True)
                if self.rng.random() < 0.08:
                    os.makedirs(path, exist_ok=True)
                else:
                    with open(path, 'wb') as f:
                        f.write(self.content())
                if self.rng.random() < 0.5:
                    t = self.rng.choice(TIMES)
                    os.utime(path, (t, t))
            except OSError:
                pass
        self.s.env()

    def files(self, ws):
        d = self.w.wss[ws]
        if not self.s.state['ws'][ws]['valid']:
            return []
        result = []
        for base, dirs, fs in os.walk(d):
            if base == d:
                dirs[:] = [x for x in dirs if x not in ('input', '.bead-meta', 'temp')]
            for f in fs:
                result.append(os.path.join(base, f))
        return result

    def do_rm(self):
        fs = self.files(self.ws())
        for f in self.rng.sample(fs, min(len(fs), self.rng.randint(0, 3))):
            try:
                os.unlink(f)
            except OSError:
                pass
        dangling = True
        while dangling:         # nothing can be saved with links to nowhere
            dangling = [f for ws in self.w.wss for f in self.files(ws) if os.path.islink(f) and not os.path.exists(f)]
            for f in dangling:
                os.unlink(f)
        self.s.env()

    def do_mode(self):
        fs = self.files(self.ws())
        for f in self.rng.sample(fs, min(len(fs), 2)):
            if not os.path.islink(f):
                os.chmod(f, self.rng.choice([0o444, 0o755, 0o600, 0o400, 0o777]))
        self.s.env()

    def do_link(self):
        '''a symbolic link among the files: archives hold what it points to'''
        p = self.place()
        if not p:
            return
        ws, parts = p
        path = os.path.join(self.w.wss[ws], *parts)
        side = self.w.path('files', 'side')
        if not os.path.isdir(side):
            os.makedirs(os.path.join(side, 'sub'))
            for f in ('one', 'sub/two'):
                with open(os.path.join(side, f), 'w') as fh:
                    fh.write(f)
        fs = self.files(ws)
        target = self.rng.choice([os.path.join(side, 'one'), side] + [f for f in fs[:1]])
        try:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            os.symlink(target, path)
        except OSError:
            pass
        else:
            if not os.path.exists(path):
                os.unlink(path)
        self.s.env()

    def do_setting(self):
        self.w.env['BEAD_ZIP_COMPRESSION'] = self.rng.choice(COMPRESSION)
        self.w.env['TZ'] = self.rng.choice(ZONES)

    def do_large(self):
        '''many files'''
        ws = self.ws()
        if not self.s.state['ws'][ws]['valid'] or not self.heavy:
            return
        self.heavy -= 1
        base = os.path.join(self.w.wss[ws], self.rng.choice(['output', 'lots']))
        os.makedirs(base, exist_ok=True)
        for k in range(self.rng.choice([130, 300])):
            try:
                with open(os.path.join(base, f'{k:04}'), 'w') as f:
                    f.write(str(k % 7))
            except OSError:
                break
        self.s.env()

    def do_edit(self):
        free = [i for i in ('w1', 'w2', 'w3') if not self.s.state['ws'][i]['ex']]
        if not free:
            return self.do_discard()
        self.s.edit(self.ref(), self.rng.choice(free), t=self.time(), review=self.rng.random() < 0.5)


def run_case(job, i, rng, scratch):
    profile = job['profile']
    if profile.get('huge'):
        s = huge(i, scratch)
    else:
        d = Driver(rng, scratch, profile)
        while len(d.s.rec.steps) < d.length:
            d.step()
        s = d.s
    key = facts.digest([x['argv'] for x in s.rec.steps] + [st['box'] for st in s.rec.states[-1:]])
    steps = len(s.rec.steps)
    trace, story = s.finish()
    yield dict(judge='BeadTrace', data=trace, story=story, key=key,
               stats={'commands': sum(1 for x in story if x['argv']), 'steps': steps})


def huge(i, scratch):
    '''beyond the limits of the old archive format: number of entries, size of one entry'''
    s = core.Session(os.path.join(scratch, 'world'), boxes=('b1',), workspaces=('w1', 'w2'))
    w = s.world
    s.box_add('A', 'b1')
    s.new('w1', timeout=600)
    out = os.path.join(w.wss['w1'], ['output', 'src'][i // 2 % 2])
    os.makedirs(out, exist_ok=True)
    if i % 2 == 0:
        for k in range(65700):
            with open(os.path.join(out, f'{k:05}'), 'w') as f:
                if k % 1000 == 0:
                    f.write(str(k))
    else:
        with open(os.path.join(out, 'big'), 'wb') as f:
            f.seek(2 ** 31 + 12345)
            f.write(b'end')
    s.env()
    s.save('w1', timeout=600)
    s.edit('w1', 'w2', review=True, timeout=600)
    return s
