'''
Recording of executions for the trace specification: raw snapshots are turned into small integers.
'''
import facts
from world import LATEST

INF = 1000000


class Interner:
    def __init__(self, *preset):
        self.ids = {}
        for p in preset:
            self(p)

    def __call__(self, value):
        return self.ids.setdefault(value, len(self.ids))


def tree_key(tree):
    return facts.digest(sorted(tree.items()))


EMPTY_TREE = tree_key({})

NO_CMD = dict(op='env', ws='', nick='', nickok=True, reft='none', ref='', file=None, t=LATEST, off=0,
              box='', loc='', sel='', review=False, force=False, now=0, newf='', newa=None, fresh=[],
              cwd=[], fault='', faultop='', verbose=False, rep=None)


NO_REPORT = dict(judged=True, readable=True, shown=False, name='', kind=None, none=False, entries=[])


def parse_report(out):
    '''what the status command has told'''
    r = dict(NO_REPORT, entries=[])
    lines = [l for l in out.split('\n') if l.strip()]
    entry = None
    try:
        for l in lines:
            if l.startswith('Bead Name: '):
                r['name'], r['shown'] = l[11:], True
            elif l.startswith('Bead kind: '):
                r['kind'] = l[11:]
            elif l == 'No inputs defined':
                r['none'] = True
            elif l.startswith('input/'):
                entry = dict(nick=l[6:], loaded=None, bead='', missing=False, time=None, kind=None, cid=None, boxes=[], nobox=False)
                r['entries'].append(entry)
            elif l.startswith('\tStatus:'):
                entry['loaded'] = {'loaded': True, '**NOT LOADED**': False}[l[8:].strip()]
            elif l.startswith('\tBead:        '):
                name, _, t = l[14:].rpartition(' # ')
                entry['missing'] = name == '**MISSING**'
                entry['bead'] = '' if entry['missing'] else name
                entry['time'] = facts.parse_timestamp(t)
            elif l.startswith('\tKind:'):
                entry['kind'] = l[6:].strip()
            elif l.startswith('\tContent id:'):
                entry['cid'] = l[12:].strip()
            elif l.startswith(('\t * -r ', '\t ~ -r ')):
                exact = l[2] == '*'
                text = l[7:] if exact else l[7:].removesuffix(' (kind match)')
                name, _, t = text.rpartition(' # ')
                entry['boxes'].append(dict(name=name, exact=exact, time=facts.parse_timestamp(t)))
            elif l.strip().startswith('- no candidates'):
                entry['nobox'] = True
        if any(e['loaded'] is None or e['time'] is None for e in r['entries']):
            r['readable'] = False
    except (KeyError, ValueError, TypeError):
        return dict(NO_REPORT, readable=False)
    return r


class Recorder:
    def __init__(self, world, names_ok=facts.can_be_saved):
        self.world = world
        self.states = []
        self.steps = []
        self.names_ok = names_ok

    def start(self, snapshot):
        self.states = [snapshot]
        self.steps = []

    @property
    def last(self):
        return self.states[-1]

    def step(self, cmd, status, post, argv=(), result=None):
        cmd = {**NO_CMD, **cmd}
        cmd['now'] = self.world.now
        pre = self.last
        if cmd['op'] == 'save':
            new = [(x['f'], x) for l in post['box'] for x in post['box'][l]['files']
                   if x['f'] not in {y['f'] for y in pre['box'][l]['files']}]
            if cmd['fault']:
                new = [n for n in new if n[1]['ext'] and n[1]['bn'] and n[1]['a']['meta']]
            if len(new) == 1:
                cmd['newf'] = new[0][0]
                cmd['newa'] = new[0][1]['a']
        if cmd['op'] == 'new':
            k = post['ws'].get(cmd['ws'], {}).get('kind')
            known = {w['kind'] for s in self.states for w in s['ws'].values()}
            known |= {x['a'].get('kind') for s in self.states for b in s['box'].values() for x in b['files']}
            cmd['fresh'] = [k] if k and k not in known else []
        cmd['rep'] = NO_REPORT
        if cmd['op'] == 'status' and result and status == 'ok':
            cmd['rep'] = parse_report(result.out)
            # the report has one thing per line: names with line ends are not recognizable in it
            names = [n for i, w in pre['ws'].items() for n in [self.world.wss[i], *(x['nick'] for x in w.get('inputs', []))]]
            names += [n for n, _ in pre['reg']] + [x['bn'] for b in pre['box'].values() for x in b['files']]
            cmd['rep']['judged'] = not any(c in str(n) for n in names for c in '\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029')
        self.states.append(post)
        self.steps.append(dict(cmd=cmd, st=status, argv=list(argv),
                               out=(result.out[-400:] if result else ''), err=(result.err[-1800:] if result else '')))

    # ------------------------------------------------------------ encoding
    def encode(self):
        times = {0}
        for s in self.states:
            for b in s['box'].values():
                for x in b['files']:
                    if x['a'].get('meta'):
                        times.add(x['a']['time'])
                        times.update(i['time'] for i in x['a']['inputs'])
                for e in b['list']:
                    if 'time' in e:
                        times.add(e['time'])
                        times.update(i['time'] for i in e['inputs'])
            for w in s['ws'].values():
                times.update(i['time'] for i in w['inputs'])
        for st in self.steps:
            times.add(st['cmd']['now'])
            if st['cmd']['t'] != LATEST:
                times.add(st['cmd']['t'])
            for key in ('newa',):
                if st['cmd'][key] and st['cmd'][key].get('meta'):
                    times.add(st['cmd'][key]['time'])
            for e in st['cmd']['rep']['entries']:
                times.add(e['time'] or 0)
                times.update(b['time'] for b in e['boxes'])
            f = st['cmd']['file']
            if f and f['a'].get('meta'):
                times.add(f['a']['time'])
                times.update(i['time'] for i in f['a']['inputs'])
        rank = {t: i for i, t in enumerate(sorted(times))}
        rank[LATEST] = INF
        kinds, cids, trees, rests = Interner(''), Interner(''), Interner(EMPTY_TREE), Interner()
        archive_ids, archives = {}, []

        def refs(inputs):
            return [[i['nick'], kinds(i['kind']), cids(i['cid']), rank[i['time']]] for i in inputs]

        def archive(a):
            if a is None:
                return 0
            if a['dg'] not in archive_ids:
                m = a['meta']
                archives.append(dict(
                    meta=m, ok=a['ok'],
                    cid=cids(a['cid']) if m else 0, kind=kinds(a['kind']) if m else 0,
                    name=str(a['name']) if m else '', time=rank[a['time']] if m else 0,
                    inputs=refs(a['inputs']) if m else [],
                    data=trees(tree_key(a['data'])) if 'data' in a else 0,
                    code=trees(tree_key(a['code'])) if 'code' in a else 0))
                archive_ids[a['dg']] = len(archives)
            return archive_ids[a['dg']]

        def file(x):
            if x is None:
                return ['', '', False, 0]
            return [x['f'], x['bn'], x['ext'], archive(x['a'])]

        def entry(e):
            if 'error' in e:
                return dict(name='!' + e['error'], cid=0, kind=0, time=0, inputs=[], f='!B')
            f = e['f']
            if f.startswith('/!'):
                f = '!L' if f == '/!LookupError' else '!B'
            return dict(name=e['name'], cid=cids(e['cid']), kind=kinds(e['kind']), time=rank[e['time']],
                        inputs=refs(e['inputs']), f=f)

        def ws(id, w):
            return dict(
                name=basename(w['path']), nameok=self.names_ok(basename(w['path'])),
                path=components(w['path']),
                ex=w['ex'], valid=w['valid'], broken=bool(w['broken']), kind=kinds(w['kind']),
                inputs=refs(w['inputs']),
                loaded=[[l['nick'], trees(tree_key(l['tree']))] for l in w['loaded']],
                code=trees(tree_key(w['code'])), output=trees(tree_key(w['output'])),
                temp=trees(tree_key(w['temp'])),
                stray=trees(facts.digest(w['stray'])) if w['stray'] else 0, junk=w['junk'],
                prot=w['prot'], wr=w['wr'])

        def state(s):
            return dict(
                reg=s['reg'],
                box={l: dict(ex=b['ex'], indexed=b['indexed'], files=[file(x) for x in b['files']],
                             list=[entry(e) for e in b['list']])
                     for l, b in s['box'].items()},
                ws={i: ws(i, w) for i, w in s['ws'].items()},
                rest=rests(s['rest']))
        states = [state(s) for s in self.states]
        def report(r):
            return dict(r, kind=[] if r['kind'] is None else [kinds(r['kind'])], entries=[dict(
                e, time=rank[e['time'] or 0], kind=[] if e['kind'] is None else [kinds(e['kind'])],
                cid=[] if e['cid'] is None else [cids(e['cid'])], loaded=bool(e['loaded']),
                boxes=[dict(b, time=rank[b['time']]) for b in e['boxes']]) for e in r['entries']])
        steps = []
        for st in self.steps:
            c = dict(st['cmd'])
            c['rep'] = report(c['rep'])
            c['t'] = rank[c['t']]
            c['now'] = rank[c['now']]
            c['file'] = file(c['file'])
            c['newa'] = archive(c['newa'])
            c['fresh'] = [kinds(k) for k in c['fresh']]
            steps.append(dict(cmd=c, st=st['st']))
        return dict(archives=archives, states=states, steps=steps)

    def story(self):
        '''for replays: what was executed, in readable form'''
        return [dict(cmd={k: v['f'] if k == 'file' else v for k, v in s['cmd'].items()
                          if v != NO_CMD[k] and k not in ('newa', 'cwd', 'fresh', 'rep')}, argv=s['argv'],
                     status=s['st'], out=s['out'], err=s['err']) for s in self.steps]


def basename(path):
    return path.rsplit('/', 1)[-1]


def components(path):
    return [c for c in path.split('/') if c]
