'''
Sessions with the real tool, judged by BeadTrace: random ones (profiles), and ones generated from
the specification (GenBead).
'''
import io
import json
import os
import random
import shutil
import zipfile

import facts
import forge
from session import Session
from world import LATEST, INDEX, real_time

BASE = dict(
    new=4, write=6, save=10, edit=4, discard=2, add=8, update=10, load=5, unload=4, delete=3,
    boxadd=2, forget=1, index=3, reindex=2, status=2, list=1, version=1, web=2, bogus=2,
    copy=2, move=1, remove=1, damage=0, foreign=0, rmbox=0, mkbox=1, code=4, temp=1, replace=0, mvws=1, mutate=0, twin=0.5, twins=0.3,
    resave=0.4, crowd=0)

PROFILES = {
    'mixed': dict(),
    'inputs': dict(twin=3, twins=4, add=14, update=10, load=8, unload=8, delete=5, save=12, index=2, copy=3, forget=1, damage=1),
    'update': dict(twin=4, update=30, save=14, write=10, add=9, copy=4, edit=5, remove=1, damage=1, boxadd=2, forget=1.5, index=4, unload=6, status=0.5, list=0, version=0, bogus=0.5, discard=1),
    'refuse': dict(bogus=10, new=6, discard=4, edit=6, save=8, delete=5, boxadd=3, forget=3, rmbox=1, mkbox=2),
    'index': dict(twin=3, index=10, reindex=6, copy=6, move=4, remove=5, save=12, list=0, web=1, status=3, forget=2, boxadd=3),
    'foreign': dict(crowd=1, foreign=10, damage=6, index=8, reindex=5, copy=3, status=2, web=2, save=8, add=10, update=10, edit=6),
    'boxes': dict(boxadd=12, forget=8, save=8, rmbox=2, mkbox=4, list=2, new=3, add=2, update=2, load=1, index=2),
    'damage': dict(damage=12, mutate=4, add=12, update=14, edit=10, load=8, unload=8, save=10, index=4, reindex=3, copy=3),
    'status': dict(twin=4, status=40, save=14, add=12, update=8, copy=5, move=4, remove=4, forget=3, boxadd=4, index=5, reindex=3, unload=5, load=3, damage=2, foreign=1, edit=5, mvws=2),
    'save': dict(save=20, resave=5, write=10, new=4, edit=6, code=6, add=5, boxadd=2, index=3, reindex=1, update=3),
}


def cases(job):
    return job['count']


def run_case(job, i, rng, scratch):
    if 'behaviours' in job:
        with open(job['behaviours']) as f:
            b = json.load(f)[i]
        s = replay(b, scratch)
    else:
        s = random_session(rng, scratch, job['profile'])
    steps = len(s.rec.steps)
    ops = sorted({x['cmd']['op'] for x in s.rec.steps})
    key = facts.digest([x['argv'] for x in s.rec.steps])
    trace, story = s.finish()
    yield dict(judge='BeadTrace', data=trace, story=story, key=key,
               stats={'commands': sum(1 for x in story if x['argv']), 'steps': steps})


class Driver:
    def __init__(self, rng, scratch, profile):
        self.rng = rng
        weights = {**BASE, **PROFILES[profile['weights']]}
        self.names = [n for n in weights if weights[n]]
        self.weights = [weights[n] for n in self.names]
        self.length = profile.get('length', 40)
        nboxes = rng.choice([1, 2, 2, 3])
        box_dirs = {}
        self.boxes = [f'b{k}' for k in range(1, nboxes + 1)]
        if rng.random() < 0.3:
            box_dirs['b1'] = rng.choice(['boxes/sp ace', 'boxes/q?x#y', 'boxes/per%41cent', 'boxes/[b]1*', 'boxes/uni\u00e9', 'boxes/a.zip'])
        wss = ['w1', 'w2', 'w3']
        self.nested = None
        self.s = Session(os.path.join(scratch, 'world'), boxes=self.boxes, workspaces=wss, box_dirs=box_dirs)
        w = self.w = self.s.world
        if rng.random() < 0.3:
            w.wss['w3'] = os.path.join(w.wsroot, 'bad__name' if rng.random() < 0.3 else rng.choice(['sp ace', 'star*', 'w1x', 'w', 'd-1.2', 'x.zip', '[w1]', 'w1_2']))
        if rng.random() < 0.4:
            w.wss['n1'] = os.path.join(w.wss['w1'], 'temp', 'deep', 'n1')
        self.s.rec.start(w.snapshot())
        self.nicks = ['i1', 'i2', 'w1', 'in put']
        self.serial = 0
        if rng.random() < 0.3:
            w.tick = 1
            self.s.tick = rng.choice([1, 1_000_000, 3600_000_000])
        if not profile.get('noboxes') and rng.random() < 0.9:
            for k, b in enumerate(self.boxes):
                if k == 0 or rng.random() < 0.7:
                    self.s.box_add('ABC'[k], b, self.location(b))

    # ----------------------------------------------------------- choices
    def ws(self, valid=True):
        ids = list(self.w.wss)
        good = [i for i in ids if self.s.state['ws'][i]['valid']]
        if valid and good and self.rng.random() < 0.95:
            return self.rng.choice(good)
        return self.rng.choice([i for i in ids if i != 'n1' or self.s.state['ws']['w1']['valid']])

    def where(self, ws):
        '''explicit workspace, or a current directory inside it'''
        if self.rng.random() < 0.75 or not self.s.state['ws'][ws]['valid']:
            return dict(ws=ws, cwd=None)
        d = self.w.wss[ws]
        subs = [d]
        for base, dirs, files in os.walk(d):
            for x in dirs:
                p = os.path.join(base, x)
                if any(v != d and (p + '/').startswith(v + '/') for k, v in self.w.wss.items() if v.startswith(d + '/')):
                    continue
                if not os.path.islink(p) and os.access(p, os.X_OK | os.R_OK):
                    subs.append(p)
        return dict(ws='', cwd=self.rng.choice(subs))

    def archives(self):
        for loc in self.w.locs:
            for x in self.s.state['box'][loc]['files']:
                yield loc, x

    def name(self):
        names = [x['bn'] for _, x in self.archives() if x['bn']]
        ws = [os.path.basename(d) for d in self.w.wss.values()]
        r = self.rng.random()
        if names and r < 0.75:
            return self.rng.choice(names)
        if r < 0.93:
            return self.rng.choice(ws)
        return self.rng.choice(['nonesuch', 'w', 'w1x', 'W1', 'w?', 'w*', '*', 'w1_2', 'w1_'])

    def ref(self):
        if self.rng.random() < 0.12:
            xs = [(l, x) for l, x in self.archives() if x['ext']]
            if xs and self.rng.random() < 0.9:
                l, x = self.rng.choice(xs)
                return 'file', self.s.file_path(l, x['f'])
            return 'file', self.w.path('files', 'plain.txt')
        return self.name()

    def time(self):
        r = self.rng.random()
        if r < 0.55:
            return LATEST
        times = sorted({x['a']['time'] for _, x in self.archives() if x['a'].get('meta')})
        times = [t for t in times if 0 < t < 4102444800_000000]
        if not times:
            return LATEST
        t = self.rng.choice(times)
        return t + self.rng.choice([0, 0, 0, 1, -1, self.s.tick // 2, -3600_000_000])

    def nick(self, ws, existing=0.85):
        have = [i['nick'] for i in self.s.state['ws'].get(ws, {}).get('inputs', [])]
        if have and self.rng.random() < existing:
            return self.rng.choice(have)
        return self.rng.choice(self.nicks)

    def known(self):
        return [n for n, _ in self.s.state['reg']]

    def boxname(self, p=0.9):
        if self.known() and self.rng.random() < p:
            return self.rng.choice(self.known())
        return self.rng.choice(['A', 'B', 'C', 'home', 'nobox'])

    def archive_path(self):
        xs = [(l, x) for l, x in self.archives() if not x['a']['dg'].startswith(('dir:', '!'))]
        if not xs:
            return None
        l, x = self.rng.choice(xs)
        return l, x, self.s.file_path(l, x['f'])

    # ----------------------------------------------------------- actions
    def step(self):
        op = self.rng.choices(self.names, self.weights)[0]
        getattr(self, 'do_' + op)()

    def do_new(self):
        free = [i for i in self.w.wss if not self.s.state['ws'][i]['ex']
                and (i != 'n1' or self.s.state['ws']['w1']['valid'])]
        ws = self.rng.choice(free) if free and self.rng.random() < 0.9 else self.ws(False)
        self.s.new(ws)

    def data(self):
        self.serial += 1
        return self.rng.choice(['', 'x', f'data {self.serial}', f'data {self.serial}', 'y' * 70000, f'{self.serial}\n' * 50])

    def do_write(self):
        ws = self.ws()
        if not self.s.state['ws'][ws]['valid']:
            return
        rel = 'output/' + self.rng.choice(['a', 'b', 'sub/c', 'name with space', 'sub/d/e.txt', '\u00fc', 'meta/bead', 'data/x',
                                            '.hidden', '.d/f', 'sub/.e/f', '__pycache__/c.pyc', 'x~'])
        self.tamper(ws, rel)

    def tamper(self, ws, rel):
        p = os.path.join(self.w.wss[ws], rel)
        if os.path.isdir(p):
            return
        if os.path.exists(p) and self.rng.random() < 0.3:
            os.unlink(p)
        else:
            try:
                self.s.write(ws, rel, self.data())
            except OSError:
                return
        self.s.env()

    def do_code(self):
        ws = self.ws()
        if not self.s.state['ws'][ws]['valid']:
            return
        rel = self.rng.choice(['src', 'lib/code.py', 'inputx', 'lib/input/x', 'lib/output/y', '.hidden', 'temp.txt', 'output.bak/z', '.bead-metadata'])
        self.tamper(ws, rel)

    def do_temp(self):
        ws = self.ws()
        if self.s.state['ws'][ws]['valid']:
            self.tamper(ws, 'temp/' + self.rng.choice(['t', 'x/y']))

    def do_mvws(self):
        '''move a workspace'''
        ws = self.rng.choice(['w2', 'w3'])
        if not self.s.state['ws'][ws]['valid']:
            return
        new = os.path.join(self.w.wsroot, self.rng.choice(['w2', 'moved', 'moved2', 'w3', 'w1b']))
        if os.path.exists(new) or new in self.w.wss.values():
            return
        os.rename(self.w.wss[ws], new)
        self.w.wss[ws] = new
        self.s.env()

    def do_save(self):
        ws = self.ws()
        if self.s.state['ws'][ws]['valid'] and self.rng.random() < 0.5:
            self.tamper(ws, 'output/result')
        box = ''
        if len(self.known()) != 1 or self.rng.random() < 0.3:
            if self.rng.random() < 0.93:
                box = self.boxname()
        if self.rng.random() < 0.05 and self.unmarked():
            self.w.now -= self.s.tick        # same instant again
        self.s.save(box=box, **self.where(ws))

    def unmarked(self):
        '''no listing has unreadable archives in it'''
        return all(not e['f'].startswith('/!') for b in self.s.state['box'].values() for e in b['list'] if 'f' in e)

    def do_resave(self):
        '''save twice at the same instant'''
        ws, box = self.ws(), self.boxname(1)
        if not self.s.state['ws'][ws]['valid']:
            return
        self.s.save(ws, box)
        if self.rng.random() < 0.8:
            self.tamper(ws, 'output/result')
        if self.unmarked():
            self.w.now -= self.s.tick
        self.s.save(ws, self.rng.choice([box, box, box, self.boxname()]))

    def do_edit(self):
        r = self.rng.random()
        ref = self.ref()
        if r < 0.6:
            free = [i for i in ('w1', 'w2', 'w3') if not self.s.state['ws'][i]['ex']]
            ws = self.rng.choice(free) if free and self.rng.random() < 0.85 else self.ws(False)
        else:
            ws = ''
            bn = facts.bead_name(os.path.basename(ref[1])) if isinstance(ref, tuple) else ref
            if os.path.join(self.w.wsroot, bn) not in self.w.wss.values():
                ws = 'w2'
        self.s.edit(ref, ws, t=self.time(), review=self.rng.random() < 0.3)

    def do_discard(self):
        ws = self.ws()
        r = self.where(ws)
        if r['cwd']:
            r['cwd'] = self.w.wss[ws]
        self.s.discard(force=self.rng.random() < 0.2 and r['cwd'] is None, **r)

    def do_add(self):
        ws = self.ws()
        nick = self.nick(ws, 0.25)
        if self.rng.random() < 0.04:
            nick = self.rng.choice(['a/b', '..', '.', 'a__b', '../x', '/abs'])
        ref = None if self.rng.random() < 0.15 else self.ref()
        self.s.add(nick=nick, ref=ref, t=self.time(), **self.where(ws))

    def do_update(self):
        ws = self.ws()
        have = [i for i in self.w.wss if self.s.state['ws'][i]['inputs']]
        if have and self.rng.random() < 0.9:
            ws = self.rng.choice(have)
        kw = dict(nick=self.nick(ws))
        r = self.rng.random()
        if r < 0.3:
            kw['nick'] = ''
            kw['t'] = self.time()
            if self.rng.random() < 0.08:
                kw['off'] = self.rng.choice([1, -1])
        elif r < 0.5:
            kw['off'] = self.rng.choice([1, -1])
            if self.rng.random() < 0.05:
                kw['t'] = self.time()
        elif r < 0.6:
            kw['ref'] = self.ref()
            kw['t'] = self.time()
        else:
            kw['t'] = self.time()
        self.s.update(**kw, **self.where(ws))

    def one_input(self, op):
        have = [i for i in self.w.wss if self.s.state['ws'][i]['inputs']]
        ws = self.rng.choice(have) if have and self.rng.random() < 0.9 else self.ws()
        nick = '' if op != 'delete' and self.rng.random() < 0.35 else self.nick(ws, 0.92)
        getattr(self.s, op)(nick=nick, **self.where(ws))

    def do_load(self):
        self.one_input('load')

    def do_unload(self):
        self.one_input('unload')

    def do_delete(self):
        self.one_input('delete')

    def do_boxadd(self):
        locs = [l for l in self.w.locs if l != 'home'] + ['']
        loc = self.rng.choice(locs)
        self.s.box_add(self.boxname(0.2), loc, self.location(loc))

    def location(self, loc):
        '''some path of the directory of a box'''
        if not loc or self.rng.random() < 0.5:
            return None
        d, cwd = self.w.locs[loc], self.w.cwd
        link, up = os.path.join(cwd, 'link-' + loc), os.path.join(cwd, 'linked-root')
        for src, dest in ((d, link), (self.w.root, up)):
            if not os.path.lexists(dest):
                os.symlink(src, dest)
        rel = os.path.relpath(d, cwd)
        return self.rng.choice([
            link, 'link-' + loc, os.path.join(up, os.path.relpath(d, self.w.root)), rel, './' + rel, d + '/',
            d + '//.', os.path.join(d, '..', os.path.basename(d)), link + '/'])

    def do_forget(self):
        self.s.forget(self.boxname(0.8))

    def do_index(self, op='index'):
        r = self.rng.random()
        if r < 0.4:
            self.s.index(op, 'all')
        elif r < 0.6:
            self.s.index(op, 'one', box=self.boxname())
        elif r < 0.85:
            self.s.index(op, 'dir', loc=self.rng.choice(list(self.w.locs) + ['']))
        else:
            self.s.index(op, 'default')

    def do_reindex(self):
        self.do_index('reindex')

    def do_status(self):
        self.s.status(verbose=self.rng.random() < 0.5, **self.where(self.ws()))

    def do_list(self):
        self.s.box_list()

    def do_version(self):
        self.s.version()

    def do_web(self):
        out = os.path.join(self.w.cwd, 'out')
        words = []
        if self.rng.random() < 0.5:
            words += ['/', self.name(), '..', '/']
        if self.rng.random() < 0.3:
            words += ['/', '..', self.name(), '/']
        words += self.rng.sample(['color', 'heads'], self.rng.randint(0, 2))
        words += self.rng.choice([['save', out + '.web'], ['dot', out + '.dot'], []])
        self.s.web(*words)

    def do_bogus(self):
        ws = self.ws()
        d = self.w.wss[ws]
        c = [('new',), ('new', d, 'x'), ('nosuch',), ('save', 'A', 'B', 'C'), ('edit',), ('input',), ('input', 'nosuch'),
             ('input', 'update', 'i1', 'w1', 'w2', '-w', d), ('box', 'add', 'X'), ('box', 'index', '--all', '--box', 'A'),
             ('box', 'index', '--nosuch'), ('input', 'update', '--next', '--prev', '-w', d), ('save', '-w', d + '/nosuch'),
             ('input', 'add', 'x', 'w1', '-w', self.w.cwd), ('discard', self.w.cwd),
             ('input', 'add', 'x', 'w1', '-t', 'whenever', '-w', d), ('edit', 'w1', '-t', '20209999', self.w.path('ws', 'w9')),
             ('input', 'add', 'x', self.w.path('files', 'nosuch.zip'), '-w', d),
             ('edit', self.w.path('files', 'plain.txt'), self.w.path('ws', 'w9')),
             ('web', 'nosuch'), ('web', 'load', self.w.path('files', 'nosuch.web')), ('web', 'load', self.w.path('files', 'plain.txt'))]
        self.s.bogus(*self.rng.choice(c))

    # ----------------------------------------------------------- the environment
    def target_box(self):
        return self.rng.choice([l for l in self.w.locs if os.path.isdir(self.w.locs[l])] or [None])

    def fresh_name(self, x):
        self.serial += 1
        bn = self.rng.choice([x['bn'] or 'w1', 'w1', 'copied', x['bn'] or 'w2'])
        style = self.rng.randint(0, 6)
        ts = x['a'].get('time_str', '20200101T000000000000+0000')
        return [f'{bn}_{ts}.zip', f'{bn}.zip', f'{bn}_2020010{self.serial % 10}.zip', f'{bn}_{ts[:13]}.zip',
                x['f'], f'{bn} ({self.serial}).zip', f'{bn}_{ts}.ZIP'][style]

    def do_copy(self):
        c = self.archive_path()
        if not c or not os.listdir:
            return
        loc, x, p = c
        l = self.target_box()
        if l is None:
            return
        d = os.path.join(self.w.locs[l], self.fresh_name(x))
        if os.path.exists(d) or not self.unused(l, os.path.basename(d)):
            return
        shutil.copyfile(p, d)
        self.s.env()

    def do_twins(self):
        '''nearly the same beads as inputs of one workspace'''
        have = [i for i in self.w.wss if self.s.state['ws'][i]['inputs']]
        if not have:
            return
        ws = self.rng.choice(have)
        i = self.rng.choice(self.s.state['ws'][ws]['inputs'])
        c = [(l, x, '') for l, x in self.archives() if x['a'].get('cid') == i['cid']]
        p = self.do_twin(self.rng.choice(c), (0,)) if c else None
        free = [n for n in (*self.nicks, 'i4') if all(n != x['nick'] for x in self.s.state['ws'][ws]['inputs'])]
        if not p or not free:
            return
        self.s.add(ws, self.rng.choice(free), ('file', p))
        self.s.unload(ws)
        self.s.load(ws)

    def do_twin(self, c=None, differences=(0, 0, 0, 0, 1, -1)):
        '''another bead, nearly the same as an existing one'''
        c = c or self.archive_path()
        l = self.target_box()
        if not c or l is None or not c[1]['a'].get('ok'):
            return
        r, a = self.rng, c[1]['a']
        self.serial += 1
        us = a['time'] + r.choice(differences)
        if us >= 4102444800_000000:
            return
        time = facts.timestamp(us, r.choice([0, 0, 0, 60, -330, 840]))
        name = r.choice([a['name'], a['name'], 'w1', 'w2', 'twin'])
        kind = a['kind']
        if r.random() < 0.2:
            kind = r.choice(sorted({x['a']['kind'] for _, x in self.archives() if x['a'].get('meta')}))
        f = r.choice([f'{name}_{time}.zip', f'{name}_2019{self.serial:04}.zip'])
        p = os.path.join(self.w.locs[l], f)
        if os.path.lexists(p) or not self.unused(l, f):
            return
        inputs = [(i['nick'], i['kind'], i['cid'], i['time_str']) for i in a['inputs']] if r.random() < 0.7 else []
        with open(p, 'wb') as fh:
            fh.write(forge.archive(name, kind, time, inputs, data={'twin': f'{self.serial}', 'd/e': self.data()}, code={'c': 'c'}))
        self.s.env()
        return p

    def do_crowd(self):
        '''many beads and some junk among them'''
        l = self.target_box()
        if l is None or len(self.s.state['box'][l]['files']) > 20:
            return
        for k in range(12):
            self.serial += 1
            f = f'w1_2018{self.serial:04}.zip'
            if self.unused(l, f):
                with open(os.path.join(self.w.locs[l], f), 'wb') as fh:
                    fh.write(forge.archive('w1', 'crowd', facts.timestamp(1514764800_000000 + self.serial, 0), data={'d': f'{self.serial}'}))
            if k % 4 == 2:
                self.foreign(l)
        self.s.env()

    def unused(self, loc, f):
        '''never used in this box before (an index does not notice replaced files)'''
        return all(f != x['f'] for s in self.s.rec.states for x in s['box'][loc]['files'])

    def do_move(self):
        c = self.archive_path()
        if not c:
            return
        loc, x, p = c
        l = self.target_box()
        if l is None:
            return
        f = self.fresh_name(x)
        d = os.path.join(self.w.locs[l], f)
        if not os.path.exists(d) and self.unused(l, f):
            os.rename(p, d)
            self.s.env()

    def do_remove(self):
        c = self.archive_path()
        if c:
            os.unlink(c[2])
            self.s.env()

    def do_rmbox(self):
        l = self.target_box()
        if l is None:
            return
        shutil.rmtree(self.w.locs[l])
        self.s.env()

    def do_mkbox(self):
        missing = [l for l, d in self.w.locs.items() if l != 'home' and not os.path.isdir(d)]
        if missing:
            os.makedirs(self.w.locs[self.rng.choice(missing)])
            self.s.env()

    def do_damage(self):
        '''a damaged variant of an archive, beside it or instead of it'''
        c = self.archive_path()
        if not c:
            return
        loc, x, p = c
        with open(p, 'rb') as f:
            raw = f.read()
        bad = damaged(raw, self.rng)
        if bad is None:
            return
        if self.rng.random() < 0.5:
            target = p
        else:
            f = self.fresh_name(x)
            l = self.target_box()
            if not self.unused(l, f):
                return
            target = os.path.join(self.w.locs[l], f)
        with open(target + '.tmp', 'wb') as f:
            f.write(bad)
        os.rename(target + '.tmp', target)
        self.s.env()

    do_mutate = do_damage

    def do_foreign(self):
        l = self.target_box()
        if l is None:
            return
        for _ in range(self.rng.choice([1, 1, 2, 5])):
            self.foreign(l)
        self.s.env()

    def foreign(self, l):
        d = self.w.locs[l]
        self.serial += 1
        k = self.rng.choice(['notes.txt', 'fake.zip', 'w1_20200101T000000000000+0000.zip', 'dir', 'dir.zip', '__.zip', 'a__b.zip',
                             '_20200101.zip', '.zip', 'noextension', 'w1_20209999T999999999999+9999.zip', 'empty.zip',
                             'w1__.zip', 'link.zip', 'w2_20200101T000000000000+0000.zip', 'plainzip.zip', 'nometa.zip', '\udcff.zip', 'new\nline.zip',
                             '.index.sqlite-journal.zip', 'w1.zip.tmp', f'w1_2021{self.serial:04}.zip', f'odd{self.serial}.zip', f'w2_2021{self.serial:04}.zip'])
        p = os.path.join(d, k)
        if os.path.lexists(p) or not self.unused(l, k):
            return
        try:
            if k.startswith('dir'):
                os.mkdir(p)
                if self.rng.random() < 0.5:
                    open(os.path.join(p, 'w1_20200101T000000000000+0000.zip'), 'w').close()
            elif k == 'link.zip':
                os.symlink('/nonexistent/file', p)
            elif k in ('plainzip.zip', 'nometa.zip') or (k.endswith('.zip') and self.rng.random() < 0.5):
                weird(p, self.rng)
            else:
                with open(p, 'wb') as f:
                    f.write(self.rng.choice([b'', b'garbage', b'PK\x03\x04garbage', b'PK\x05\x06' + b'\0' * 18, os.urandom(300) if False else bytes(range(256))]))
        except OSError:
            return

    def do_replace(self):
        pass


META = {'meta_version': facts.META_VERSION, 'kind': 'k-weird', 'freeze_time': '20200101T000000000000+0000',
        'freeze_name': 'weird', 'inputs': {}}


def weird(path, rng):
    '''zip files that are no beads'''
    meta = dict(META)
    k = rng.choice([*range(19), 5, 5, 6, 6])
    manifest = {}
    text = None
    spec = {'kind': 'k', 'content_id': 'c', 'freeze_time': '20200101T000000000000+0000'}
    if k == 0:
        meta = None
    elif k == 1:
        meta.pop(rng.choice(sorted(meta)))
    elif k == 2:
        text = b'not json'
    elif k == 3:
        text = b'\xff\xfe'
    elif k == 4:
        meta['kind'] = rng.choice([1, None, [], {}])
    elif k == 5:
        meta['freeze_time'] = rng.choice([1, None, '', '2020', 'yesterday', '99999999T000000000000+0000', '20200101T000000000000',
                                          '20200101T000000000000+9999', '20200101T000000000000-2400', '20200230T000000000000+0000', '20200101T240000000000+0000'])
    elif k == 6:
        meta['inputs'] = rng.choice([1, None, 'x', {'a': 1}, {'a': {}}, {'a': dict(spec, kind=1)}, {'a': dict(spec, freeze_time='x')},
                                     {'a/b': spec}, {'..': spec}, {'': spec}, {'a': dict(spec, content_id=None)}])
    elif k == 7:
        meta['meta_version'] = rng.choice(['other', 1, None])
    elif k == 8:
        manifest = None
    elif k == 9:
        text = b'[]'
    elif k == 10:
        text = b'"x"'
    elif k == 11:
        text = b'null'
    elif k == 12:
        meta['freeze_name'] = rng.choice([1, None, [], 'a/b', ''])
    elif k == 13:
        text = b'[' * 100000
    with zipfile.ZipFile(path, 'w') as z:
        raw = text if text is not None else json.dumps(meta).encode() if meta is not None else None
        if raw is not None:
            z.writestr('meta/bead', raw)
        if manifest is not None:
            if k == 14:
                z.writestr('meta/manifest', b'garbage')
            else:
                z.writestr('meta/manifest', json.dumps(manifest))
        z.writestr('data/x', b'x')


def altered(data, **kw):
    try:
        m = json.loads(data)
        m.update(kw)
        return json.dumps(m).encode()
    except Exception:
        return b'{}'


def damaged(raw, rng):
    '''a damaged variant of archive bytes'''
    k = rng.randint(0, 10)
    if k == 0:
        return raw[:rng.randint(0, max(0, len(raw) - 1))]
    if k == 1 and len(raw) > 10:
        b = bytearray(raw)
        b[rng.randrange(len(b))] ^= 1 << rng.randint(0, 7)
        return bytes(b)
    if k == 2:
        return raw[:len(raw) // 2] + b'\0' * 10
    try:
        src = zipfile.ZipFile(io.BytesIO(raw))
        entries = [(i, src.read(i)) for i in src.infolist()]
    except Exception:
        return raw[:-5]
    names = [i.filename for i, _ in entries]
    content = [n for n in names if n.startswith(('data/', 'code/'))]
    victim = rng.choice(content) if content else None
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w') as z:
        for info, data in entries:
            n = info.filename
            if k == 3 and n == victim:
                data = data + b'!'
            if k == 4 and n == victim:
                continue
            if k == 5 and n == victim:
                n = n + '.renamed'
            if k == 6 and n == 'meta/bead':
                data = altered(data, kind='tampered')
            if k == 7 and n == 'meta/bead':
                data = altered(data, freeze_time='20990101T000000000000+0000')
            if k == 8 and n == 'meta/manifest':
                continue
            if k == 9 and n == 'meta/bead':
                continue
            z.writestr(n, data)
        if k == 10:
            z.writestr(rng.choice(['data/', 'code/']) + 'added', b'added')
    return out.getvalue()


def random_session(rng, scratch, profile):
    d = Driver(rng, scratch, profile)
    while len(d.s.rec.steps) < d.length:
        d.step()
    return d.s


# -------------------------------------------------------------------------------- replay
def replay(behaviour, scratch):
    '''behaviour: [initial registry, [commands]] generated by TLC from the specification'''
    reg, cmds = behaviour[0], behaviour[1]
    s = Session(os.path.join(scratch, 'world'), boxes=('b1', 'b2'), workspaces=('w1', 'w2'))
    w = s.world
    for name, loc in reg:
        s.box_add(name, loc)
    names = {}       # abstract file name -> (concrete file name)
    times = {}       # abstract time -> us
    for c in cmds:
        op, ws, nick, ref, t, off, box, loc, sel, review, f, to = c

        def at(t):
            if t == 1000000:
                return LATEST
            return times.get(t, w.now)
        kw = dict(ws=ws)
        if op == 'new':
            s.new(ws)
        elif op == 'produce':
            s.write(ws, 'output/result', f'{len(s.rec.steps)}')
            s.write(ws, 'code', f'{len(s.rec.steps)}')
            s.env()
        elif op == 'edit':
            s.edit(ref, ws, t=at(t), review=review)
        elif op == 'discard':
            s.discard(ws)
        elif op == 'save':
            now = w.now
            s.save(ws, box)
            if s.rec.steps[-1]['cmd']['newf']:
                names[f] = s.rec.steps[-1]['cmd']['newf']
                times[to] = now
        elif op == 'add':
            s.add(ws, nick, ref, t=at(t))
        elif op == 'update':
            s.update(ws, nick, ref=ref or None, t=at(t), off=off)
        elif op in ('load', 'unload', 'delete'):
            getattr(s, op)(ws, nick)
        elif op == 'boxadd':
            s.box_add(box, loc)
        elif op == 'forget':
            s.forget(box)
        elif op in ('index', 'reindex'):
            s.index(op, sel, box, loc)
        elif op == 'status':
            s.status(ws)
        elif op == 'remove' and f in names:
            p = s.file_path(loc, names[f])
            if os.path.exists(p):
                os.unlink(p)
                s.env()
        elif op == 'copy' and f in names:
            p, q = s.file_path(loc, names[f]), s.file_path(box, names[f])
            if os.path.exists(p) and not os.path.exists(q):
                shutil.copyfile(p, q)
                s.env()
        elif op == 'damage' and f in names:
            p = s.file_path(loc, names[f])
            if os.path.exists(p):
                with open(p, 'rb') as fh:
                    raw = fh.read()
                raw = damaged(raw, Fixed(10))
                with open(p, 'wb') as fh:
                    fh.write(raw)
                s.env()
    return s


class Fixed(random.Random):
    def __init__(self, k):
        super().__init__(1)
        self.k = k

    def randint(self, a, b):
        return self.k if (a, b) == (0, 10) else super().randint(a, b)
