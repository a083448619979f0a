'''
The web of beads: sub-command sequences on generated webs (files and boxes), judged by WebTrace.

After every sub-command the graph is saved and drawn; both are read back independently (the drawing with GraphViz).
'''
import json
import os
import random
import re
import subprocess
import sys
from datetime import datetime, timedelta, timezone
from xml.etree import ElementTree

import facts
import forge
from world import ChildError, World, in_child, require

NAMES = ['a', 'b', 'c', 'd', 'e', 'a_b', 'a b', 'a<b>&"q"', "it's", 'back\\slash', 'esc\\Nape\\G\\n\\', '100%', 'é漢字😀', '-x', 'a:b', 'new\nline',
         'ctl\x01char', '{a|b}', '&amp;', 'x;y', '[*]', 'load', 'save', 'q\\"uote', '$HOME', '#', 'tab\there', 'unique_1', 'n' * 60]


def cases(job):
    return job['count']


def normal(name):
    '''as it is shown'''
    return re.sub(r'\s', '', re.sub('[\0-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]', '\ufffd', name))


class Web:
    '''translation between the real and the specified'''
    def __init__(self):
        self.names, self.shown, self.cids, self.times = {}, {}, {}, set()

    def name(self, n):
        if n not in self.names:
            self.names[n] = f'n{len(self.names) + 1}'
            self.shown[normal(n)] = self.names[n]
        return self.names[n]

    def cid(self, c):
        return self.cids.setdefault(c, f'c{len(self.cids) + 1}')

    def node(self, b):
        '''b: as read by forge.read_web'''
        return dict(name=self.name(b['name']), cid=self.cid(b['cid']), kind=b['kind'], t=self.time(b['time']), fresh=b['fresh'],
                    ins=[dict(nick=self.name(n), cid=self.cid(c), kind=k, t=self.time(t)) for n, k, c, t in b['inputs']])

    def time(self, s):
        try:
            us = facts.parse_timestamp(s)
        except ValueError:
            return -1
        return self.rank(us)

    def rank(self, us):
        self.times.add(us)
        return us

    def ranks(self, steps):
        '''replace instants (too big for TLC) with ranks'''
        rank = {us: k + 1 for k, us in enumerate(sorted(self.times))}
        for s in steps:
            for key in ('nodes', 'stored'):
                for n in s.get(key, []):
                    n['t'] = rank.get(n['t'], 0)
                    for i in n['ins']:
                        i['t'] = rank.get(i['t'], 0)
            for g in s['draw']['groups']:
                for r in g['rows']:
                    r['t'] = rank.get(r['t'], 0)

    # ------------------------------------------------------------ drawing
    def drawing(self, dot):
        bad = dict(ok=False, groups=[], links=[])
        r = subprocess.run(['dot', '-Tjson'], input=dot, capture_output=True, timeout=120)
        if r.returncode or r.stderr:
            return {**bad, 'why': r.stderr.decode(errors='replace')[:300]}
        try:
            d = json.loads(r.stdout.decode('utf-8'), strict=False)
            return self.parsed(d)
        except Exception as e:
            return {**bad, 'why': f'{type(e).__name__}: {e}'}

    def parsed(self, d):
        groups, title = [], {}
        for o in d.get('objects', []):
            if 'PORT=' not in o.get('label', ''):
                continue
            rows = {}
            for td in ElementTree.fromstring(o['label']).iter('TD'):
                port = td.get('PORT')
                if port:
                    side, cid = port.split('_', 1)
                    rows.setdefault(cid, {})[side] = td
            result = []
            for cid, x in rows.items():
                color = {x[side].get('BGCOLOR').split(':')[0] if side in x else '' for side in ('in', 'out')}
                result.append(dict(cid=self.cids.get(cid, '?'), t=self.shown_time(''.join(x['out'].itertext())),
                                   color=color.pop() if len(color) == 1 else '?'))
            texts = [x['text'] for x in o.get('_ldraw_', []) if x.get('op') == 'T']
            text = ''.join(texts[:len(texts) - len(rows)])
            title[o['_gvid']] = self.shown.get(normal(text), '?' + normal(text))
            groups.append(dict(name=title[o['_gvid']], rows=result))
        out, into = {}, {}
        for e in d.get('edges', []):
            out.setdefault(e['tail'], []).append(e)
            into.setdefault(e['head'], []).append(e)
        links, used = [], set()
        for e in d.get('edges', []):
            if e['tail'] not in title:
                continue
            chain = [e]
            while chain[-1]['head'] not in title:
                follow = out.get(chain[-1]['head'], [])
                assert len(follow) == 1 and len(into[chain[-1]['head']]) == 1 and len(chain) < 50, 'odd path'
                chain.append(follow[0])
            used |= {x['_gvid'] for x in chain}
            text = ''.join(x['text'] for c in chain for x in c.get('_ldraw_', []) if x.get('op') == 'T')
            color = {c.get('color') for c in chain} | {c['fontcolor'] for c in chain if c.get('fontcolor')}
            links.append(dict(src=[title[e['tail']], self.port(e.get('tailport'), 'out')],
                              dest=[title[chain[-1]['head']], self.port(chain[-1].get('headport'), 'in')],
                              label=self.shown.get(normal(text), '?' + normal(text)), color=color.pop() if len(color) == 1 else '?'))
        assert len(used) == len(d.get('edges', [])), 'stray edges'
        return dict(ok=True, groups=groups, links=links)

    def port(self, p, side):
        m = re.match(r'(in|out)_([^:]*)', p or '')
        return self.cids.get(m.group(2), '?') if m and m.group(1) == side else '?'

    def shown_time(self, text):
        try:
            t = datetime.fromisoformat(text.strip())
            return (t - datetime(1970, 1, 1, tzinfo=timezone.utc)) // timedelta(microseconds=1)
        except ValueError:
            return -1


# ---------------------------------------------------------------- sources of graphs
BASES = [1_500_000_000_000_000, 1_500_000_000_000_000, 1_500_000_000_000_000, 946_684_790_000_000, 0, -10 ** 15, 2_500_000_000_000_000]


def time_string(rng, rank, base=BASES[0], zones=True):
    us = base + rank * 1_000_000_007
    return facts.timestamp(us, rng.choice([0, 0, 60, -330, 765]) if zones else 0)


def pick_names(rng, n):
    if rng.random() < 0.4:
        pool = list('abcdefghij')
    else:
        pool = NAMES
    return rng.sample(pool, n)


def generated(b, rng):
    '''a web made by GenWeb'''
    beads, ops = b
    names = pick_names(rng, 6)
    rng2 = random.Random(rng.random())
    stamp = {}
    base = rng.choice(BASES)

    def cid(n, v):
        return f'c{n}x{v}'

    def time(t):
        return stamp.setdefault(t, time_string(rng2, t, base))

    made = [dict(name=names[n], cid=cid(n, v), kind=f'k{n}', time=time(t), fresh=rng.choice(['SUPERSEDED', 'SUPERSEDED', 'UP_TO_DATE', 'OUT_OF_DATE']),
                 inputs=[(names[m], f'k{m}', cid(m, u), time(s)) for m, u, s in ins])
            for n, v, t, ins in beads]
    return made, [(o, [names[x] for x in s], [names[x] for x in t]) for o, s, t in ops], names


def random_beads(rng, size, density=None):
    names = pick_names(rng, rng.randint(1, min(8, 2 + size // 2)))
    density = density or rng.choice([0.3, 1, 1.5, 3])
    tie = rng.random() < 0.3
    base = rng.choice(BASES)
    gone = set(rng.sample(names, rng.choice([0, 0, 1, 2]) % len(names)))
    made, known = [], []
    for k in range(size):
        name = rng.choice(names)
        rank = k // 3 if tie else k
        if rng.random() < 0.15:
            rank = rng.randint(-1000000, size) if rng.random() < 0.2 else rng.randint(0, size)
        ins = {}
        for b in rng.sample(known, min(len(known), int(rng.expovariate(1 / density)))):
            nick = b['name'] if rng.random() < 0.8 else rng.choice(names)
            ins[nick] = (nick, b['kind'], b['cid'], b['time'])
        b = dict(name=name, cid=f'c{k}', kind=rng.choice(['k', 'k1', f'k{k}']), time=time_string(rng, rank, base), fresh='SUPERSEDED', inputs=list(ins.values()))
        known.append(b)
        if rng.random() < 0.85 and name not in gone:
            made.append(b)
            if rng.random() < 0.05:       # the same bead under another name
                made.append(dict(b, name=rng.choice(names)))
    unique = {}
    for b in made:
        b['fresh'] = rng.choice(['SUPERSEDED', 'SUPERSEDED', 'UP_TO_DATE', 'OUT_OF_DATE'])
        unique[b['name'], b['cid']] = b
    return list(unique.values()), names


def random_ops(rng, names, n):
    def some():
        return rng.sample(names, rng.choice([1, 1, 2, 3]) % (len(names) + 1)) if rng.random() < 0.95 else ['no such name']
    ops = []
    for _ in range(n):
        o = rng.choice(['color', 'color', 'color', 'heads', 'heads', 'sources', 'sinks', 'both', 'none', 'load', 'view', 'svg', 'save'])
        ops.append((o, some() if o in ('sources', 'both') else [], some() if o in ('sinks', 'both') else []))
    return ops


def boxed(rng, w, size):
    '''archives in boxes: what is stored'''
    names = pick_names(rng, rng.randint(1, 6))
    names = [n for n in names if facts.well_formed_name(n)]
    boxes = ['b1', 'b2', 'b3'][:rng.choice([1, 2, 2, 3])]
    known, stored = [], {}
    early = [b for b in boxes if rng.random() < 0.4]
    for b in boxes:
        require(w.run('box', 'add', b, w.locs[b]))
        if b in early:
            w.run('box', 'index', '--dir', w.locs[b])
    for k in range(size):
        name = rng.choice(names)
        us = 1_500_000_000_000_000 + rng.choice([k, k, k, k // 2, rng.randint(0, size)]) * 1_000_003
        ins = {}
        for b in rng.sample(known, min(len(known), rng.choice([0, 0, 1, 1, 2, 3]))):
            nick = b['name'] if rng.random() < 0.8 else rng.choice(names)
            ins[nick] = (nick, b['kind'], b['cid'], b['time'])
        time = facts.timestamp(us, rng.choice([0, 0, 120, -480]))
        kind = rng.choice(['k', f'k{k}'])
        raw = forge.archive(name, kind, time, list(ins.values()), data={'f': str(k)})
        b = dict(name=name, cid=forge.content_id(raw), kind=kind, time=time, fresh='SUPERSEDED', inputs=list(ins.values()))
        known.append(b)
        if rng.random() < 0.15 or name == names[0]:
            continue                                      # a bead which is not available
        for copy in range(rng.choice([1, 1, 1, 2, 3])):
            where = rng.choice(boxes)
            n = name if copy == 0 or rng.random() < 0.7 else rng.choice(names)
            f = f'{n}_{time}.zip' if rng.random() < 0.8 else f'{n}.zip'
            path = os.path.join(w.locs[where], f)
            if facts.bead_name(f) != n or os.path.exists(path):
                continue
            with open(path, 'wb') as out:
                out.write(raw)
            stored[n, b['cid']] = dict(b, name=n)
    if rng.random() < 0.3:
        for f, raw in (('broken.zip', b'PK'), ('x.txt', b'x'), ('nometa.zip', forge.archive(raw_meta=b'{'))):
            with open(os.path.join(w.locs[rng.choice(boxes)], f), 'wb') as out:
                out.write(raw)
    for b in boxes:
        if b in early or rng.random() < 0.3:
            w.run('box', 'index', '--dir', w.locs[b])
    return list(stored.values()), names


def write_web(path, beads):
    with open(path, 'w') as f:
        json.dump([forge.web_bead(b['name'], b['cid'], b['kind'], b['time'], b['inputs'], b['fresh']) for b in beads], f)


# ---------------------------------------------------------------- running
def execute(w, web, first, stored, ops, tag, rng, draw):
    '''runs the sub-commands, recording what was seen after each'''
    argv, plan, last = ['web'] + first, [], f'{tag}0.web'

    def look(k, op, **more):
        argv.extend(['save', f'{tag}{k}.web'] + (['dot', f'{tag}{k}.dot'] if draw else []))
        plan.append(dict(op=op, file=f'{tag}{k}', image='', **more))
    look(0, 'build', stored=stored)
    for k, (o, sources, sinks) in enumerate(ops, 1):
        if o in ('color', 'heads'):
            argv.append(o)
            look(k, o)
        elif o in ('sources', 'sinks', 'both', 'none'):
            argv.extend(['/', *sources, '..', *sinks, '/'])
            look(k, 'filter', sources=sources, sinks=sinks)
        elif o == 'load':
            n = rng.randrange(k)
            argv.extend(['load', f'{tag}{n}.web'])
            look(k, 'load', source=n)
        elif o == 'svg' and draw:
            argv.extend(['svg', f'{tag}{k}.svg'])
            look(k, 'keep')
        elif o == 'view':
            argv.extend(['view', f'{tag}{k - 1}.web'])
            look(k, 'keep')
        else:
            argv.extend(['save', f'{tag}{k}-x.web'])
            look(k, 'keep')
    r = w.run(*argv)
    steps, story = [], [dict(argv=argv, status=r.status, err=r.err[-600:])]

    def have(f):
        return os.path.exists(os.path.join(w.cwd, f))
    for k, p in enumerate(plan):
        path = os.path.join(w.cwd, p['file'])
        drawn = have(p['file'] + '.dot') and (r.status == 'ok' or k + 1 < len(plan))
        fine = have(p['file'] + '.web')
        s = dict(op=p['op'], status='ok' if fine else 'err', nodes=[], drawn=False, draw=dict(ok=True, groups=[], links=[]), verdict='', image='', edges=[],
                 sources=[web.names.get(n, '?' + n) for n in p.get('sources', [])], sinks=[web.names.get(n, '?' + n) for n in p.get('sinks', [])], stored=[])
        if not fine:
            steps.append(s)
            break
        s['nodes'] = [web.node(b) for b in forge.read_web(path + '.web')]
        dot = b''
        if drawn:
            with open(path + '.dot', 'rb') as f:
                dot = f.read()
        if draw:
            s['draw'] = web.drawing(dot) if drawn else dict(ok=False, groups=[], links=[], why='not drawn')
            s['drawn'] = True
        if p['op'] == 'build':
            s['stored'] = [web.node(b) for b in p['stored']]
            s['edges'] = [dict(src=[web.name(sn), web.cid(sc)], dest=[web.name(dn), web.cid(dc)], label=web.name(label))
                          for sn, sc, dn, dc, label in attempt(lambda: edges_of(path + '.web'), [['?'] * 5] * 2)]
        elif p['op'] == 'load':
            s['stored'] = json.loads(json.dumps(steps[p['source']]['nodes']))
        elif p['op'] == 'color':
            s['verdict'] = attempt(lambda: verdict(os.path.join(w.cwd, plan[k - 1]['file'] + '.web')), 'err')
        if have(p['file'] + '.svg'):
            mine = subprocess.run(['dot', '-Tsvg'], input=dot, capture_output=True).stdout
            with open(path + '.svg', 'rb') as f:
                s['image'] = 'same' if f.read() == mine else 'differs'
        steps.append(s)
        if draw and not drawn:
            break
    return steps, story


def attempt(f, failed):
    try:
        return in_child(f)
    except ChildError:
        return failed


def edges_of(path):
    from bead_cli.web.sketch import Sketch
    return [[*map(str, (e.src.name, e.src.content_id, e.dest.name, e.dest.content_id, e.label))] for e in Sketch.from_file(path).edges]


def verdict(path):
    from bead_cli.web import sketch
    sys.setrecursionlimit(1000)
    f = getattr(sketch, 'color_beads', None)
    if f is None:
        return ''
    v = f(sketch.Sketch.from_file(path))
    return {True: 'yes', False: 'no'}.get(v, '')


def run_case(job, i, rng, scratch):
    p = job['profile']
    w = World(os.path.join(scratch, 'world'), boxes=('b1', 'b2', 'b3'), workspaces=())
    web = Web()
    source = p.get('source', 'file')
    draw = p.get('draw', False)
    if 'behaviours' in job:
        with open(job['behaviours']) as f:
            b = json.load(f)[i]
        beads, ops, names = generated(b, rng)
    elif source == 'deep':
        # longer chain of inputs, than the recursion limit of Python
        source, length = 'file', rng.randint(1010, 1100)
        names = [f'd{k}' for k in range(length)]
        beads = [dict(name=n, cid=f'c{k}', kind='k', time=time_string(rng, k), fresh='SUPERSEDED',
                      inputs=[(f'd{k - 1}', 'k', f'c{k - 1}', time_string(rng, k - 1, zones=False))] if k else [])
                 for k, n in enumerate(names) if k != 7 or rng.random() < 0.5]
        rng.shuffle(beads)
        ops = [('color', [], [])]
    elif source == 'file':
        beads, names = random_beads(rng, rng.choice(p.get('sizes', [1, 3, 6, 10, 14, 20])), p.get('density'))
        ops = random_ops(rng, names, rng.randint(2, p.get('ops', 6)))
    else:
        beads, names = boxed(rng, w, rng.choice([0, 2, 5, 8, 12]))
        ops = random_ops(rng, names, rng.randint(1, 5))
    for n in names:
        web.name(n)
    for b in beads:
        web.node(b)
    if source == 'file':
        write_web(os.path.join(w.cwd, 'in.web'), beads)
        first = ['load', 'in.web']
    else:
        first = []
    # (reading the web of boxes is always the first)
    choices = rng.random()
    steps, story = execute(w, web, first, beads, ops, 'x', random.Random(choices), draw)
    if source == 'file' and steps[-1]['status'] == 'ok':
        again = [b for b in beads]
        rng.shuffle(again)
        write_web(os.path.join(w.cwd, 'in.web'), again)
        steps2, _ = execute(w, web, first, again, ops, 'y', random.Random(choices), False)
        if steps2[-1]['status'] == 'ok':
            steps.append(dict(op='same', status='ok', nodes=steps2[-1]['nodes'], drawn=False, draw=dict(ok=True, groups=[], links=[]),
                              verdict='', image='', edges=[], sources=[], sinks=[], stored=[]))
    web.ranks(steps)
    story[0]['beads'] = beads
    story[0]['drawings'] = [s['draw'].get('why') for s in steps if s['draw'].get('why')]
    yield dict(judge='WebTrace', data=dict(steps=steps), story=story, key=facts.digest([beads, ops]), label=f'{source}',
               stats={'sub-commands': len(steps), 'graph nodes': sum(len(s['nodes']) for s in steps)})
    w.destroy()
