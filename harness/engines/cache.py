'''
Reading many archives in one process; judged by ZipTrace.
'''
import ctypes
import json
import os
import sys

import facts
import forge
from world import World, in_child

import bead.box
import bead.ziparchive
import bead.zipopener
import bead_cli.main
from bead.exceptions import InvalidArchive

CAPACITY = 10


def cases(job):
    return job['count']


def make_files(w, rng, n):
    '''archives, some with the same name in different directories; the last ones are no archives'''
    files = []
    names = [f'n{k}' for k in range(rng.choice([2, n, n]))]
    dirs = [w.locs['b1'], w.locs['b2'], w.mkdir('files', 'sub')]
    for k in range(n):
        while True:
            name = rng.choice(names)
            d = rng.choice(dirs)
            p = os.path.join(d, f'{name}_{20200101 + rng.randint(0, 3)}T000000000000+0000.zip')
            if p not in files:
                break
            names.append(f'm{len(names)}')
        data = {f'd{j}': f'{k} {j}' * rng.choice([1, 100]) for j in range(rng.choice([1, 2, 5]))}
        raw = forge.archive(name, f'kind{k}', f'20200101T000000{k:06d}+0000', [('i', f'ik{k}', 'c' * 10 + str(k), '20190101T000000000000+0000')][:k % 2], data, {'c': str(k)})
        with open(p, 'wb') as f:
            f.write(raw)
        files.append(p)
    return files


def make_bad(w, rng):
    p = os.path.join(w.files, 'bad.zip')
    kind = rng.choice(['garbage', 'missing', 'empty', 'dir'])
    if kind == 'garbage':
        with open(p, 'wb') as f:
            f.write(b'no archive' * 100)
    elif kind == 'empty':
        open(p, 'w').close()
    elif kind == 'dir':
        os.mkdir(p)
    return p


def still_open(files):
    result = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            t = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if t in files:
            result.append(files.index(t) + 1)
    return sorted(result)


def archive_facts(p):
    a = facts.read_archive(p)
    return [facts.bead_name(p), a['kind'], a['time'], [[i['nick'], i['kind'], i['cid'], i['time']] for i in a['inputs']], a['cid']]


def wanted(op, p):
    a = facts.read_archive(p)
    return {'new': archive_facts, 'validate': lambda p: 'ok', 'manifest': lambda p: a['manifest'], 'names': lambda p: sorted(a['names']),
            'data': lambda p: a['data'], 'code': lambda p: a['code']}[op](p)


def seen(op, a, out):
    if op == 'new':
        return [str(a.name), a.kind, facts.parse_timestamp(a.freeze_time_str),
                [[str(i.name), i.kind, i.content_id, facts.parse_timestamp(i.freeze_time_str)] for i in a.inputs], a.content_id]
    if op == 'validate':
        a.validate()
        return 'ok'
    if op == 'manifest':
        return a.manifest
    if op == 'names':
        return sorted(a.zipfile.namelist())
    (a.unpack_data_to if op == 'data' else a.unpack_code_to)(bead.box.Path(out))
    return facts.tree_of(out)


def perform(plan, files, bad, scratch):
    libc = ctypes.CDLL(None)
    objects, steps = {}, []
    bead.zipopener.close_all()
    libc.bv_zip_watch(1)
    for n, (what, f, fresh, typ) in enumerate(plan):
        got = 'closed'
        if what == 'close':
            bead.zipopener.close_all()
        elif what == 'box':
            try:
                b = bead.box.Box('b', bead.box.Path(f))
                got = sorted([str(x.name), x.content_id] for x in b.all_beads())
            except Exception as e:
                got = f'{type(e).__name__}: {e}'
        else:
            p = bad if f < 0 else files[f]
            try:
                if fresh or what == 'new' or f not in objects:
                    a = bead.ziparchive.ZipArchive(bead.box.Path(p) if typ else p, 'b')
                    if f >= 0:
                        objects[f] = a
                got = seen(what, objects[f] if f >= 0 else a, os.path.join(scratch, f'o{n}'))
            except InvalidArchive:
                got = 'invalid'
            except Exception as e:
                got = f'{type(e).__name__}: {e}'
        steps.append(dict(got=got, open=still_open(files + [bad])))
    most = libc.bv_zip_max()
    libc.bv_zip_watch(0)
    return steps, most


def command(w, argv):
    '''most archives open while executing a command'''
    def run():
        w.child_setup(None, os.path.join(w.io, 'o'), os.path.join(w.io, 'e'))
        sys.argv = ['bead'] + argv
        libc = ctypes.CDLL(None)
        libc.bv_zip_watch(1)
        code = 0
        try:
            bead_cli.main.main()
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) or e.code is None else 1
        return [libc.bv_zip_max(), code]
    return in_child(run)


def dg(x):
    return facts.digest(json.dumps(x, sort_keys=True, default=str))


def run_case(job, i, rng, scratch):
    w = World(os.path.join(scratch, 'world'))
    behaviour = None
    if 'behaviours' in job:
        with open(job['behaviours']) as f:
            behaviour = json.load(f)[i]
    n = 14 if behaviour else rng.choice([3, 9, 10, 11, 11, 12, 15, 30])
    files = make_files(w, rng, n)
    bad = make_bad(w, rng)
    plan = []

    def read(f):
        plan.append((rng.choice(['new', 'new', 'validate', 'manifest', 'names', 'data', 'code']), f, rng.random() < 0.5, rng.random() < 0.5))
    if behaviour:
        for x in behaviour[1]:
            if x == 0:
                plan.append(('close', None, False, False))
            else:
                read(x - 1 if x <= 14 else -1)
    else:
        hot = rng.randint(1, n)
        for _ in range(rng.choice([20, 60, 120])):
            r = rng.random()
            if r < 0.03:
                plan.append(('close', None, False, False))
            elif r < 0.06:
                plan.append(('box', w.locs[rng.choice(['b1', 'b2'])], False, False))
            elif r < 0.1:
                read(-1)
            elif r < 0.5:
                read(rng.randrange(hot))
            elif r < 0.8:
                read(len(plan) % n)
            else:
                read(rng.randrange(n))
    done, most = in_child(lambda: perform(plan, files, bad, w.mkdir('files', 'out')), timeout=120)
    steps, story = [], []
    for k, ((what, f, fresh, typ), d) in enumerate(zip(plan, done)):
        if what == 'close':
            used, want = [], 'closed'
        elif what == 'box':
            inside = [p for p in files if os.path.dirname(p) == f]
            used, want = [files.index(p) + 1 for p in inside], sorted([a[0], a[4]] for a in map(archive_facts, inside))
        elif f < 0:
            used, want = [], 'invalid'
        else:
            used, want = [f + 1], wanted(what, files[f])
        steps.append(dict(op='close' if what == 'close' else 'read', used=used, got=dg(d['got']), want=dg(want), open=d['open'], most=most if k == len(plan) - 1 else 0))
        story.append(dict(argv=[what, os.path.relpath(str(f), w.root) if what == 'box' else f if f is None or f < 0 else os.path.relpath(files[f], w.root)],
                          status=[str(d['got'])[:200], d['open']]))
    yield dict(judge='ZipTrace', data=dict(steps=steps), story=story, key=dg([n, plan]), label=f'{n} archives', stats={'reads': len(plan)})
    if behaviour or i % 4:
        w.destroy()
        return
    # commands using many archives
    steps, story = [], []
    r = w.run('box', 'add', 'b', w.locs['b1'])
    w.run('box', 'add', 'c', w.locs['b2'])
    w.run('new', w.wss['w1'])
    some = facts.bead_name(files[0])
    for argv in (['web', 'load', 'save', w.path('files', 'x.web')], ['box', 'index', '--box', 'b'], ['box', 'reindex', '--all'], ['input', '-w', w.wss['w1'], 'add', 'x', some],
                 ['input', '-w', w.wss['w1'], 'load'], ['input', '-w', w.wss['w1'], 'update'], ['status', '-w', w.wss['w1']], ['edit', files[-1], w.wss['w2']]):
        most, code = command(w, argv)
        steps.append(dict(op='command', used=[], got='', want='', open=[], most=most))
        story.append(dict(argv=argv, status=[most, code]))
    for x in os.listdir(w.cwd):
        if x.startswith('error_'):
            os.unlink(os.path.join(w.cwd, x))
    w.destroy()
    yield dict(judge='ZipTrace', data=dict(steps=steps), story=story, key=dg(['commands', n, len(files)]), label='commands', stats={'commands': len(steps)})
