'''
Workspaces created by several processes at the same instant; saved, edited, renamed, copied: which of them have the same kind?
Judged by KindsTrace.
'''
import json
import os
import shutil
import subprocess
import sys
import zipfile

import facts
from world import World, real_time, require


def cases(job):
    return job['count']


class Driver:
    def __init__(self, rng, scratch):
        self.rng = rng
        self.w = World(os.path.join(scratch, 'world'), boxes=('b1',), workspaces=())
        self.ws = {}        # directory -> line
        self.beads = {}     # path -> line
        self.lines = 0
        self.steps, self.story = [], []
        r = self.w.run('box', 'add', 'A', self.w.locs['b1'])
        require(r)

    def kind_of(self, p):
        try:
            if p.endswith('.zip'):
                with zipfile.ZipFile(p) as z:
                    return json.loads(z.read('meta/bead'))['kind']
            with open(os.path.join(p, '.bead-meta', 'bead')) as f:
                return json.load(f)['kind']
        except (OSError, ValueError, KeyError, zipfile.BadZipFile):
            return None

    def look(self, argv, status='ok'):
        things = []
        for p, line in [*self.ws.items(), *self.beads.items()]:
            k = self.kind_of(p)
            if k is not None:
                things.append(dict(line=line, kind=k))
        self.steps.append(dict(things=[dict(x) for x in {(t['line'], t['kind']): t for t in things}.values()]))
        self.story.append(dict(argv=[str(a).replace(self.w.root, '') for a in argv], status=status))

    def new_path(self):
        # often of the same name, at other places
        d = self.w.mkdir('ws', f'd{self.lines}-{len(self.ws)}-{len(self.steps)}')
        return os.path.join(d, self.rng.choice(['same', 'same', 'other']))

    def do_new(self):
        '''several processes'''
        r = self.rng
        n = r.choice([1, 2, 3, 6])
        fresh = r.random() < 0.15
        paths = []
        for k in range(n):
            p = self.new_path() + (str(k) if r.random() < 0.3 else '')
            os.makedirs(os.path.dirname(p) + f'/{k}')
            paths.append(os.path.join(os.path.dirname(p), str(k), os.path.basename(p)))
        if fresh:
            # not forked from a common process
            started = [subprocess.Popen([sys.executable, '-c', 'import sys; sys.argv[0] = "bead"; from bead_cli.main import main; main()', 'new', p], cwd=self.w.cwd, stdin=subprocess.DEVNULL,
                                        stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                        env={**os.environ, 'HOME': self.w.home, 'PYTHONPATH': os.pathsep.join(x for x in sys.path if x)}) for p in paths]
            for s in started:
                s.wait(60)
        else:
            started = [self.w.start(['new', p]) for p in paths]
            for s in started:
                self.w.finish(s)
        for p in paths:
            self.lines += 1
            if os.path.isdir(p):
                self.ws[p] = self.lines
        if r.random() < 0.6:
            self.w.now += r.choice([1, 1000, 1_000_000])      # else: again at the same instant
        self.look(['new', *paths])

    def do_save(self):
        if not self.ws:
            return
        p = self.rng.choice(list(self.ws))
        before = set(os.listdir(self.w.locs['b1']))
        r = self.w.run('save', 'A', '-w', p)
        self.w.now += self.rng.choice([1, 1000, 10 ** 9])
        for f in set(os.listdir(self.w.locs['b1'])) - before:
            if f.endswith('.zip'):
                self.beads[os.path.join(self.w.locs['b1'], f)] = self.ws[p]
        self.look(['save', p], r.status)

    def do_edit(self):
        if not self.beads:
            return
        b = self.rng.choice(list(self.beads))
        p = self.new_path()
        r = self.w.run('edit', b, p, *(['--review'] if self.rng.random() < 0.5 else []))
        if r.status == 'ok':
            self.ws[p] = self.beads[b]
        self.look(['edit', b, p], r.status)

    def do_move(self):
        if self.ws:
            p = self.rng.choice(list(self.ws))
            q = self.new_path()
            os.rename(p, q)
            self.ws[q] = self.ws.pop(p)
        if self.beads:
            b = self.rng.choice(list(self.beads))
            q = os.path.join(os.path.dirname(b), f'renamed{len(self.steps)}_20200101.zip')
            if self.rng.random() < 0.5:
                shutil.copy2(b, q)
            else:
                os.rename(b, q)
                self.beads[q] = self.beads.pop(b)
            self.beads.setdefault(q, self.beads.get(b))
        self.look(['mv'])

    def do_input(self):
        if not self.ws or not self.beads:
            return
        p, b = self.rng.choice(list(self.ws)), self.rng.choice(list(self.beads))
        r = self.w.run('input', self.rng.choice(['add', 'update']), 'i', b, '-w', p)
        self.look(['input', p, b], r.status)

    def do_discard(self):
        if len(self.ws) < 4:
            return
        p = self.rng.choice(list(self.ws))
        r = self.w.run('discard', p)
        if r.status == 'ok':
            del self.ws[p]
        self.look(['discard', p], r.status)
        # one at the same place, at the same instant
        self.w.run('new', p)
        self.lines += 1
        if os.path.isdir(p):
            self.ws[p] = self.lines
        self.look(['new', p])

    def bulk(self, n):
        '''many, quickly'''
        base = self.w.mkdir('ws', 'bulk')
        for k in range(n):
            p = os.path.join(base, str(k))
            self.w.run('new', p)
            self.lines += 1
            kind = self.kind_of(p)
            self.steps.append(dict(things=[] if kind is None else [dict(line=self.lines, kind=kind)]))
            self.story.append(dict(argv=['new', p], status='ok'))
            shutil.rmtree(p, ignore_errors=True)


def run_case(job, i, rng, scratch):
    profile = job['profile']
    d = Driver(rng, scratch)
    if profile.get('bulk'):
        d.bulk(profile['bulk'])
    else:
        while len(d.steps) < 25:
            getattr(d, 'do_' + rng.choice(['new', 'new', 'new', 'save', 'save', 'edit', 'edit', 'move', 'input', 'discard']))()
    n = d.lines
    d.w.destroy()
    kinds = {}
    for s in d.steps:
        for x in s['things']:
            x['kind'] = kinds.setdefault(x['kind'], len(kinds) + 1)
    yield dict(judge='KindsTrace', data=dict(steps=d.steps), story=d.story, key=facts.digest([i, n, [s['argv'] for s in d.story]]), stats={'commands': len(d.steps), 'kinds created': n})
