'''
A state reached by a random preparation, then many commands, each tried from that very state.
Judged by BeadTrace.
'''
import os

import facts
from record import Recorder
from engines.core import Driver
from world import LATEST, _remove


def cases(job):
    return job['count']


class Scene(Driver):
    '''several kinds with several versions in several boxes, workspaces with several inputs'''

    def prepare(self):
        rng, s, w = self.rng, self.s, self.w
        have = []
        for ws in ('w1', 'w2', 'w3'):
            s.new(ws)
            if s.state['ws'][ws]['valid']:
                have.append(ws)
        if not self.known():
            s.box_add('A', 'b1')
        for k in range(rng.randint(3, 9)):
            ws = rng.choice(have)
            w.write(ws, 'output/result', f'{k}')
            s.env()
            if self.known():
                s.save(ws, rng.choice(self.known()))
            if rng.random() < 0.35:
                self.do_copy()
            if rng.random() < 0.3:
                self.do_twin()
            if rng.random() < 0.1:
                self.do_move()
            if rng.random() < 0.1:
                self.do_index()
        times = sorted({x['a']['time'] for _, x in self.archives() if x['a']['meta']})
        for ws in rng.sample(have, min(2, len(have))):
            for k in range(rng.randint(1, 4)):
                s.add(ws, f'i{rng.randint(0, 9)}', self.name(), t=rng.choice(times + [LATEST]))
            for i in s.state['ws'][ws]['inputs']:
                if rng.random() < 0.4:
                    s.unload(ws, i['nick'])
        for _ in range(rng.randint(0, 3)):
            rng.choice([self.do_copy, self.do_move, self.do_remove, self.do_damage, self.do_forget, self.do_index, self.do_save, self.do_foreign])()

    # ------------------------------------------------------- commands to be tried
    def times(self):
        ts = set()
        for _, x in self.archives():
            if x['a'].get('meta') and 0 < x['a']['time'] < 4102444800_000000:
                ts |= {x['a']['time'], x['a']['time'] - 1, x['a']['time'] + 1}
        return sorted(ts) + [LATEST] * 3

    def inputs(self):
        return [(ws, i['nick']) for ws in self.w.wss for i in self.s.state['ws'][ws]['inputs']]

    def all_update(self):
        s = self.s
        for ws in {ws for ws, _ in self.inputs()}:
            for t in set(self.times()):
                yield lambda ws=ws, t=t: s.update(ws, '', t=t)
        for ws, nick in self.inputs():
            for off in (1, -1):
                yield lambda ws=ws, nick=nick, off=off: s.update(ws, nick, off=off)
            for t in set(self.times()):
                yield lambda ws=ws, nick=nick, t=t: s.update(ws, nick, t=t)
            for _ in range(3):
                r, t = self.ref(), self.rng.choice(self.times())
                yield lambda ws=ws, nick=nick, r=r, t=t: s.update(ws, nick, ref=r, t=t)

    def all_load(self):
        s = self.s
        for ws in {ws for ws, _ in self.inputs()}:
            yield lambda ws=ws: s.load(ws)
            yield lambda ws=ws: s.unload(ws)
        for ws, nick in self.inputs():
            yield lambda ws=ws, nick=nick: s.load(ws, nick)
            yield lambda ws=ws, nick=nick: s.unload(ws, nick)
            yield lambda ws=ws, nick=nick: s.delete(ws, nick)

    def all_add(self):
        s = self.s
        valid = [ws for ws in self.w.wss if s.state['ws'][ws]['valid']]
        names = sorted({x['bn'] for _, x in self.archives() if x['bn']}) + ['nonesuch']
        for n in names:
            for t in set(self.times()):
                ws = self.rng.choice(valid)
                nick = self.nick(ws, 0.4)
                yield lambda ws=ws, nick=nick, n=n, t=t: s.add(ws, nick, n, t=t)
        for l, x in self.archives():
            ws = self.rng.choice(valid)
            nick = self.nick(ws, 0.4)
            if x['ext']:
                yield lambda ws=ws, nick=nick, l=l, x=x: s.add(ws, nick, ('file', s.file_path(l, x['f'])))

    def all_edit(self):
        s, w = self.s, self.w
        w.wss['fresh'] = os.path.join(w.wsroot, 'fresh')
        names = sorted({x['bn'] for _, x in self.archives() if x['bn']}) + ['nonesuch']
        for n in names:
            for t in set(self.times()):
                yield lambda n=n, t=t, r=self.rng.random() < 0.4: s.edit(n, 'fresh', t=t, review=r)
        for l, x in self.archives():
            if x['ext'] and not x['a']['dg'].startswith(('dir:', '!')):
                yield lambda l=l, x=x: s.edit(('file', s.file_path(l, x['f'])), 'fresh', review=self.rng.random() < 0.4)

    def all_index(self):
        s = self.s
        for op in ('index', 'reindex'):
            yield lambda op=op: s.index(op, 'all')
            for n in self.known():
                yield lambda op=op, n=n: s.index(op, 'one', box=n)
            for l in self.w.locs:
                yield lambda op=op, l=l: s.index(op, 'dir', loc=l)

    def all_save(self):
        s = self.s
        for ws in self.w.wss:
            for b in self.known() + ['', 'nobox']:
                yield lambda ws=ws, b=b: s.save(ws, b)

    def all_status(self):
        s = self.s
        for ws in self.w.wss:
            yield lambda ws=ws: s.status(ws)
            yield lambda ws=ws: s.status(ws, verbose=True)


def run_case(job, i, rng, scratch):
    p = job['profile']
    d = Scene(rng, scratch, dict(weights=p.get('weights', 'mixed')))
    d.prepare()
    for _ in range(p.get('more', 0)):
        d.step()
    s, w = d.s, d.w
    commands = []
    for family in p['families']:
        commands += list(getattr(d, 'all_' + family)())
    limit = p.get('limit', 24)
    if len(commands) > limit:
        commands = rng.sample(commands, limit)
    if 'fresh' in w.wss:
        s.rec.start(w.snapshot())
    yield record(s, 'preparation', 0)
    pre, now = s.state, w.now
    saved = w.save_disk()
    for c in commands:
        w.restore_disk(saved)
        w.now = now
        s.rec = Recorder(w)
        s.rec.start(pre)
        c()
        yield record(s, '', 1)
    _remove(saved)


def record(s, label, n):
    key = facts.digest([x['argv'] for x in s.rec.steps] + [s.rec.states[0]])
    return dict(judge='BeadTrace', data=s.rec.encode(), story=s.rec.story(), key=key, label=label,
                stats={'commands from prepared states': n})
