'''
Commands killed (before, after, in the middle of a write), interrupted from the keyboard or hit by an
I/O error at every file system operation they make, from the same state; then recovery commands.
Judged by BeadTrace (FaultClauses).
'''
import errno
import os

import facts
from record import Recorder
from engines.core import Driver
from session import Session
from world import (LATEST, COUNT, KILL_BEFORE, KILL_AFTER, TORN, ERROR, ERROR_FROM, SIGINT,
                   K_OPEN, K_WRITE, K_RENAME, K_UNLINK, K_MKDIR, K_CHMOD)

ALL_KINDS = -1


def cases(job):
    return job['count']


def prepare(rng, scratch, indexed):
    '''
    boxes A, B; beads of kind "src" (3 versions), workspace w2 with inputs, w1 the source
    '''
    s = Session(os.path.join(scratch, 'world'), boxes=('b1', 'b2'), workspaces=('w1', 'w2', 'w3'))
    w = s.world
    s.box_add('A', 'b1')
    s.box_add('B', 'b2')
    if indexed == 'before':
        s.index('index', 'all')
    s.new('w1')
    for v in range(3):
        s.write('w1', 'output/a', f'version {v}')
        s.write('w1', 'output/sub/b', f'second file {v}')
        if rng.random() < 0.4:
            s.write('w1', rng.choice(['output/.hidden', 'output/.d/x', 'output/sub/.e/f/g']), f'hidden {v}')
        if rng.random() < 0.3:
            s.write('w1', 'output/big', f'{v}' * rng.choice([10, 9000, 70000]))
        s.write('w1', 'src', f'code {v}')
        s.save('w1', 'A' if v != 1 else rng.choice(['A', 'B']))
    s.new('w2')
    s.write('w2', 'output/r', 'result')
    s.write('w2', 'code', 'code')
    s.new('w3')
    s.write('w3', 'output/r', 'other')
    s.save('w3', 'B')
    s.add('w2', 'i1', 'w1', t=w.now - rng.choice([1, 3, 4]) * s.tick)
    s.add('w2', 'i2', 'w3')
    if rng.random() < 0.5:
        s.add('w2', 'i3', 'w1')
    if indexed == 'after':
        s.index('index', 'all')
    return s


def input_commands(rng, s):
    w = s.world
    old = sorted(x['a']['time'] for l in ('b1', 'b2') for x in s.state['box'][l]['files'] if x['bn'] == 'w1')
    t = rng.choice(old)
    c = rng.choice(['add', 'load', 'loadall', 'update', 'updateall', 'prev', 'unload', 'unloadall', 'delete', 'next', 'addagain'])
    if c == 'add':
        return lambda: s.add('w2', 'i9', 'w1', t=t)
    if c == 'addagain':
        return lambda: s.add('w2', 'i1', 'w3')
    if c == 'load':
        s.unload('w2', 'i1')
        return lambda: s.load('w2', 'i1')
    if c == 'loadall':
        s.unload('w2')
        return lambda: s.load('w2')
    if c == 'update':
        return lambda: s.update('w2', 'i1')
    if c == 'updateall':
        return lambda: s.update('w2', t=t)
    if c == 'prev':
        return lambda: s.update('w2', 'i3' if any(i['nick'] == 'i3' for i in s.state['ws']['w2']['inputs']) else 'i1', off=-1)
    if c == 'next':
        return lambda: s.update('w2', 'i1', off=1)
    if c == 'unload':
        return lambda: s.unload('w2', 'i1')
    if c == 'unloadall':
        return lambda: s.unload('w2')
    return lambda: s.delete('w2', 'i1')


def save_commands(rng, s):
    ws, box = rng.choice([('w2', 'A'), ('w1', 'A'), ('w2', 'B'), ('w3', 'A')])
    if rng.random() < 0.3:
        s.write(ws, 'output/many', 'x' * rng.choice([0, 1, 20000, 200000]))
        s.env()
    return lambda: s.save(ws, box)


def box_commands(rng, s):
    c = rng.choice(['add', 'forget', 'first', 'savehome', 'index', 'reindex'])
    if c == 'add':
        s.forget('B')
        return lambda: s.box_add('new', 'b2')
    if c == 'forget':
        return lambda: s.forget('A')
    if c == 'first':
        s.forget('A')
        s.forget('B')
        return lambda: s.box_add('first', 'b1')
    if c == 'savehome':
        s.forget('A')
        s.forget('B')
        return lambda: s.save('w1')
    return lambda: s.index(c, 'all')


FAMILY = {'input': input_commands, 'save': save_commands, 'box': box_commands}


def run_case(job, i, rng, scratch):
    p = job['profile']
    s = prepare(rng, scratch, rng.choice(['before', 'after', 'no', 'no']))
    w = s.world
    run = FAMILY[p['family']](rng, s)
    pre, now = s.state, w.now
    saved = w.save_disk()

    def again(fault, faultop=''):
        w.restore_disk(saved)
        w.now = now
        s.rec = Recorder(w)
        s.rec.start(pre)
        s.kw = dict(fault=fault, faultop=faultop) if fault else {}
        r = run()
        s.kw = {}
        return r
    r = again((COUNT, 0, 0, ALL_KINDS))
    yield record(s, 'unfaulted')
    ops = r.log
    n = r.count
    kinds = p.get('modes', ['kill', 'error'])
    points = []
    for k in range(1, n + 1):
        is_write = ops[k - 1].split(' ')[0] in ('write', 'pwrite', 'writev', 'sendfile', 'copy_file_range') if k <= len(ops) else False
        if 'kill' in kinds:
            points.append((KILL_BEFORE, k, 0, ALL_KINDS))
            if is_write:
                points.append((TORN, k, 0, ALL_KINDS))
        if 'error' in kinds:
            e = rng.choice([errno.ENOSPC, errno.EIO, errno.EACCES])
            points.append((ERROR, k, e, ALL_KINDS))
            points.append((ERROR_FROM, k, errno.ENOSPC, 1 << K_OPEN | 1 << K_WRITE | 1 << K_MKDIR | 1 << K_RENAME))
        if 'int' in kinds:
            points.append((SIGINT, k, 0, ALL_KINDS))
    if 'kill' in kinds and n:
        points.append((KILL_AFTER, n, 0, ALL_KINDS))
    limit = p.get('points', 60)
    if len(points) > limit:
        points = sorted(rng.sample(points, limit), key=lambda x: x[1])
    for f in points:
        op = ops[f[1] - 1] if f[1] <= len(ops) else ''
        r = again(f, op.split(' ')[0] if f[0] == ERROR else '')
        label = f'{s.rec.steps[0]["argv"][:2]} {["", "count", "kill before", "kill after", "torn", "error", "error from", "interrupt"][f[0]]} op {f[1]}: {op}'
        # recovery
        w.now += s.tick
        if p['family'] == 'save':
            if rng.random() < 0.5:
                run()
            if rng.random() < 0.7:
                s.index(rng.choice(['index', 'reindex']), 'all')
            if rng.random() < 0.3:
                s.add('w2', 'z', rng.choice(['w1', 'w2', 'w3']))
        elif p['family'] == 'box':
            c = s.rec.steps[0]['cmd']['op']
            if c in ('index', 'reindex'):
                s.index('reindex', 'all')
            else:
                run()
        else:
            run()
        yield record(s, label)
    w._gone = True
    from world import _remove
    _remove(saved)


def record(s, label):
    key = facts.digest([x['argv'] for x in s.rec.steps] + [label])
    return dict(judge='BeadTrace', data=s.rec.encode(), story=s.rec.story(), key=key, label=label,
                stats={'fault points': 1})
