'''
Queries of boxes (the programming interface of searching), on archives made independently. Judged by QueryTrace.

The same population is queried in unindexed and in indexed boxes (mixed, too).
'''
import json
import os
from datetime import datetime, timedelta, timezone

import facts
import forge
from world import World, in_child, require

import bead.box
import bead.tech

NAMES = ['a', 'A', 'ab', 'a b', 'a_b', 'a%', 'a*', '[ab]', "a'b", 'a"b', 'á', 'a\u0301', '-a', 'a.b', 'a_2020', 'a\nb', ' a', 'a ', '\\a', 'a;b', 'b', 'c']
KINDS = ['k', 'K', 'k ', 'k%', "k'k", '', 'ķ', 'k1', 'k2', 'k\x00x']
ZONES = [0, 0, 0, 60, -60, 330, -720, 840, 1]
BASES = [1_500_000_000_000_000] * 4 + [946_684_799_999_990, 0, -10 ** 15, 1_477_785_600_000_000]
OPS = dict(name='by_name', kind='by_kind', cid='by_content_id', at='at_time', newer='newer_than', older='older_than',
           atnewer='at_or_newer', atolder='at_or_older')


def cases(job):
    return job['count']


def random_population(rng):
    base, step = rng.choice(BASES), rng.choice([1, 1, 1_000_000, 60_000_000, 3_600_000_000])
    names = rng.sample(NAMES, rng.randint(1, 5))
    kinds = rng.sample(KINDS, rng.randint(1, 4))
    span = rng.choice([2, 6, 12])
    beads = []
    for k in range(rng.choice([0, 1, 3, 5, 8, 12])):
        beads.append(dict(name=rng.choice(names), kind=rng.choice(kinds), rank=rng.randrange(span), inputs=rng.randint(0, 2)))
    copies = []
    for b in beads:
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            copies.append((rng.choice(['b1', 'b2', 'b3']), b['name'] if rng.random() < 0.7 else rng.choice(names), b))
    return base, step, names + ['nonesuch'], kinds + ['nokind'], beads, copies, span


def random_queries(rng, names, kinds, cids, span, n):
    qs = []
    for _ in range(n):
        boxes = rng.sample(['b1', 'b2', 'b3'], rng.choice([1, 2, 3, 3]))
        conds = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            c = rng.choice(['name', 'kind', 'cid', 'at', 'newer', 'older', 'atnewer', 'atolder', 'newer', 'older', 'atnewer', 'atolder', 'name'])
            v = rng.choice(names) if c == 'name' else rng.choice(kinds) or 'k' if c == 'kind' else rng.choice(cids) if c == 'cid' else rng.randint(-1, span)
            conds.append((c, v))
        qs.append((boxes, conds, rng.random() < 0.4, rng.choice(['all', 'all', 'all', 'first', 'newest', 'oldest', 'newer', 'older']), rng.choice([0, 1, 1, 2, 3, 5])))
    return qs


def run_case(job, i, rng, scratch):
    w = World(os.path.join(scratch, 'world'), boxes=('b1', 'b2', 'b3'), workspaces=(), box_dirs={'b2': 'boxes/b2 [x]?%20#' if rng.random() < 0.3 else 'boxes/b2'})
    if 'behaviours' in job:
        with open(job['behaviours']) as f:
            gcopies, gqueries = json.load(f)[i]
        names, kinds = rng.sample(NAMES, 3) + ['nonesuch'], rng.sample([k for k in KINDS if k], 3) + ['nokind']
        base, step, span = rng.choice(BASES), rng.choice([1, 1_000_000]), 9
        beads, copies = {}, []
        for b, n, c, t, k in gcopies:
            bead_ = beads.setdefault(c, dict(name=names[n - 1], kind=kinds[k - 1], rank=t, inputs=c % 3))
            copies.append((f'b{b}', names[n - 1], bead_))
        numbered, beads = beads, list(beads.values())
    else:
        base, step, names, kinds, beads, copies, span = random_population(rng)
    instants = {}

    def us(rank):
        instants.setdefault(base + rank * step, rank)
        return base + rank * step
    # the archives
    for k, b in enumerate(beads):
        b['us'] = us(b['rank'])
        ins = [(f'i{x}', rng.choice(kinds), f'{x:0128x}', facts.timestamp(us(rng.randrange(span)), rng.choice(ZONES))) for x in range(b['inputs'])]
        b['raw'] = forge.archive(b['name'], b['kind'], facts.timestamp(b['us'], rng.choice(ZONES)), ins, data={'f': str(k)})
        b['cid'] = forge.content_id(b['raw'])
        b['ins'] = ins
    made, ids = [], {}

    def number(what, v, letter):
        return ids.setdefault((what, v), f'{letter}{len(ids) + 1}')
    early = [b for b in ('b1', 'b2', 'b3') if rng.random() < 0.4]
    late = [b for b in ('b1', 'b2', 'b3') if rng.random() < 0.5]

    def index(which):
        for b in which:
            r = w.run('box', 'index' if rng.random() < 0.6 else 'reindex', '--dir', w.locs[b])
            require(r)
    early = early if rng.random() < 0.5 else []
    index(early)
    for k, (box, name, b) in enumerate(copies):
        file = {0: f'{name}_{facts.timestamp(b["us"], rng.choice(ZONES))}.zip', 1: f'{name}.zip', 2: f'{name}_2020010{k % 10}.zip',
                3: f'{name}_{facts.timestamp(base + k)}.zip'}[rng.choice([0, 0, 0, 1, 2, 3])]
        path = os.path.join(w.locs[box], file)
        if facts.bead_name(file) != name or os.path.exists(path):
            continue
        with open(path, 'wb') as f:
            f.write(b['raw'])
        made.append(dict(box=box, file=file, name=number('name', name, 'n'), cid=number('cid', b['cid'], 'c'), kind=number('kind', b['kind'], 'k'),
                         t=b['us'], ins=entry_inputs(number, b['ins'])))
    if rng.random() < 0.3:
        for f, raw in (('broken.zip', b'PK'), ('x.txt', b'x'), ('nometa.zip', forge.archive(raw_meta=b'{'))):
            with open(os.path.join(w.locs['b1'], f), 'wb') as out:
                out.write(raw)
    index(early)
    # queries
    cids = [b['cid'] for b in beads] + ['0' * 128] + [b['cid'][:20] for b in beads[:1]] + [b['cid'].upper() for b in beads[:1]]
    if 'behaviours' in job:
        queries = []
        for bs, conds, uniq, pick, n in gqueries:
            queries.append(([f'b{b}' for b in bs] or ['b1'],
                            [(c, names[v - 1] if c == 'name' else kinds[v - 1] if c == 'kind' else numbered[v]['cid'] if c == 'cid' and v in numbered
                              else '0' * 128 if c == 'cid' else v) for c, v in conds], uniq, pick, n))
    else:
        queries = random_queries(rng, names, kinds, cids, span, 30)
    asked = []
    for boxes, conds, uniq, pick, n in queries:
        cs = []
        for c, v in conds:
            if c in ('name', 'kind', 'cid'):
                cs.append((c, v, number(c, v, c[0]), 0))
            else:
                t = us(v) + (rng.choice([0, 0, 0, 1, -1]) if step > 1 else 0)
                instants[t] = 0
                z = rng.choice(ZONES)
                cs.append((c, (facts.timestamp(t, z) if rng.random() < 0.5 else [t, z]), '', t))
        asked.append((boxes, cs, uniq, pick, n, rng.random() < 0.3))
    rank = {t: r for r, t in enumerate(sorted(instants), 1)}
    for m in made:
        m['t'] = rank[m['t']]
        for x in m['ins']:
            x['t'] = rank[x['t']]
    for phase in range(2):
        if phase == 1:
            index(late)
        answers = in_child(lambda: [ask(w, q) for q in asked])
        steps, story = [], []
        for q, (status, res) in zip(asked, answers):
            out = []
            for r in res:
                out.append(dict(box=r['box'], name=ids.get(('name', r['name']), '?'), cid=ids.get(('cid', r['cid']), '?'), kind=ids.get(('kind', r['kind']), '?'),
                                t=rank.get(r['time'], 0), ins=[dict(x, kind=ids.get(('kind', x['kind']), '?'), cid=ids.get(('cid', x['cid']), '?'), t=rank.get(x['t'], 0)) for x in r['ins']]))
            steps.append(dict(boxes=q[0], conds=[dict(c=c, v=v, t=rank.get(t, 0)) for c, _, v, t in q[1]], uniq=q[2], pick=q[3], n=q[4] if q[3] in ('newer', 'older') else 0,
                              status=status, res=out, files=[r['file'] for r in res if 'file' in r]))
            story.append(dict(argv=[q[0], [(c, v) for c, v, _, _ in q[1]], q[2:]], status=status, res=res[:20]))
        yield dict(judge='QueryTrace', data=dict(copies=made, steps=steps), story=story,
                   key=facts.digest([made, [(s['boxes'], s['conds'], s['uniq'], s['pick'], s['n']) for s in steps]]),
                   label=f'indexed {late}' if phase else 'raw', stats={'queries': len(steps), 'archives': len(made)})
    w.destroy()


def entry_inputs(number, ins):
    return [dict(nick=n, kind=number('kind', k, 'k'), cid=number('cid', c, 'c'), t=facts.parse_timestamp(t)) for n, k, c, t in ins]


def ask(w, query):
    boxes_, conds, uniq, pick, n, one = query
    boxes = [bead.box.Box(b, bead.tech.fs.Path(w.locs[b])) for b in boxes_]
    os.environ['HOME'] = w.home
    s = boxes[0].search() if len(boxes) == 1 and one else bead.box.search(boxes)
    for c, v, _, _ in conds:
        if isinstance(v, list):
            v = datetime(1970, 1, 1, tzinfo=timezone.utc).astimezone(timezone(timedelta(minutes=v[1]))) + timedelta(microseconds=v[0])
        s = getattr(s, OPS[c])(v)
    if uniq:
        s = s.unique()
    try:
        found = s.all() if pick == 'all' else [getattr(s, pick)(*([n] if pick in ('newer', 'older') else []))]
    except LookupError:
        return 'none', []
    except Exception as e:
        return f'crash:{type(e).__name__}', []
    result = []
    for k, b in enumerate(found):
        r = dict(box=b.box_name, name=str(b.name), cid=b.content_id, kind=b.kind, time=facts.parse_timestamp(b.freeze_time_str),
                 ins=[dict(nick=str(x.name), kind=x.kind, cid=x.content_id, t=facts.parse_timestamp(x.freeze_time_str)) for x in b.inputs])
        # (instant and notation have to agree)
        if (b.freeze_time - datetime(1970, 1, 1, tzinfo=timezone.utc)) // timedelta(microseconds=1) != r['time']:
            r['time'] = None
        if k < 3:
            try:
                r['file'] = os.path.basename(bead.box.resolve(boxes, b).location)
            except Exception as e:
                r['file'] = '!' + type(e).__name__
        result.append(r)
    return 'ok', result
