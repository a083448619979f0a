'''
Which drivers, models and verdicts decide which property.
'''
from dataclasses import dataclass, field


@dataclass
class Engine:
    name: str
    engine: str
    count: tuple                    # number of cases: quick, thorough
    profile: dict = field(default_factory=dict)
    generate: tuple = None          # (module, {...}) : replay behaviours generated by TLC


@dataclass
class Model:
    module: str
    constants: tuple = ({}, {})     # quick, thorough
    cfg: str = None
    name: str = None


@dataclass
class Check:
    id: str
    engines: list
    models: list
    rel: object                     # (record, tag, where, clause) -> bool
    level: str = 'model_checking'
    rule: str = ('a case is one recorded behaviour of the real tool, judged step by step by TLC; '
                 'distinct by the sequence of executed commands')
    assumptions: list = field(default_factory=list)
    budget: tuple = (150, 780)
    technique: str = 'TLA+ specification checked with TLC, traces of the real tool judged by TLC'
    note: str = ''


def relevant(check, record, tag, where, clauses):
    return [c for c in clauses if check.rel(record, tag, where, c)]


def matches(known, violation):
    r = violation['record']
    return (known.get('engine') in (None, r['name'])
            and all(c in known['clauses'] for c in violation['clauses'])
            and (known.get('label') is None or known['label'] == r.get('label')))


def describe(v):
    r = v['record']
    if r.get('crash'):
        return 'the tool raised ' + r['crash']['type'] + ': ' + r['crash']['text'].strip().split('\n')[-1]
    text = f'{", ".join(v["clauses"])}'
    story = r.get('story')
    w = v.get('where')
    if isinstance(story, list) and isinstance(w, int) and 0 < w <= len(story) and isinstance(story[w - 1], dict):
        s = story[w - 1]
        text += f' after {s.get("argv") or s.get("cmd")} ({s.get("status")})'
    if r.get('label'):
        text = f'{r["label"]}: {text}'
    return text


CHECKS = {}


def q(*names):
    return '{' + ', '.join(f'"{n}"' for n in names) + '}'


# ------------------------------------------------------------------------------ the core
def core(record, where):
    '''command of the judged step'''
    return record['data']['steps'][where - 1]['cmd'] if where and where <= len(record['data']['steps']) else None


def core_rel(ops=None, parts=(), state=(), status=None):
    '''
    parts: components of steps, for commands in ops (None: all);
    state: state clauses; status: ops whose wrong exit status matters
    '''
    def rel(record, tag, where, clause):
        part = clause.split(':')[0]
        if record.get('judge') != 'BeadTrace':
            return True
        if tag == '@@S':
            return part in state
        op = core(record, where)['op']
        if part in ('status', 'impossible'):
            return status is not None and op in status
        return part in parts and (ops is None or op in ops)
    return rel


WS = ('ws', 'kind', 'inputs', 'loaded', 'code', 'output', 'temp', 'stray', 'junk')
BOX = ('files', 'idx', 'boxdir')
INPUT_OPS = ('add', 'update', 'load', 'unload', 'delete')


def add(check):
    CHECKS[check.id] = check



def bead_model(name, ops, quick, thorough):
    ops = q(*ops.split())
    return Model('MCBead', (dict(Ops=ops, **quick), dict(Ops=ops, **thorough)), name=name)


ONE, TWO = q('w1'), q('w1', 'w2')
M_INPUTS = bead_model('MCBead/inputs', 'new save add update load unload delete produce',
                      dict(Wss=TWO, Nicks_=q('n1'), MaxSaves=2, MaxKind=2, InitReg='RegA'),
                      dict(Wss=TWO, Nicks_=q('n1', 'n2'), MaxSaves=3, MaxKind=2, InitReg='RegA'))
M_INDEX = bead_model('MCBead/index', 'new save index reindex remove copy damage',
                     dict(Wss=ONE, Nicks_=q('n1'), MaxSaves=2, MaxKind=1, InitReg='RegAB'),
                     dict(Wss=ONE, Nicks_=q('n1'), MaxSaves=3, MaxKind=1, InitReg='RegA', MaxSteps=13))
M_BOXES = bead_model('MCBead/boxes', 'new save boxadd forget discard edit',
                     dict(Wss=ONE, Nicks_=q('n1'), MaxSaves=2, MaxKind=2, InitReg='RegAB'),
                     dict(Wss=TWO, Nicks_=q('n1'), MaxSaves=2, MaxKind=2, InitReg='RegNone'))
M_ALL = bead_model('MCBead/all', 'new edit discard save add update load unload delete boxadd forget index reindex remove copy damage',
                   dict(Wss=ONE, Nicks_=q('n1'), MaxSaves=2, MaxKind=1, InitReg='RegA', MaxSteps=8),
                   dict(Wss=ONE, Nicks_=q('n1'), MaxSaves=2, MaxKind=1, InitReg='RegA', MaxSteps=11))


def gen(num=24, name='generated', **constants):
    return Engine(name, 'core', (0, 0), generate=('GenBead', dict(num=(num, num * 12), depth=110, constants=constants)))


def sessions(weights, quick, thorough, length=45):
    return Engine(weights, 'core', (quick, thorough), dict(weights=weights, length=length))


def fan(families, quick, thorough, limit=24, more=0, weights='mixed'):
    return Engine('fan-' + families.replace(' ', '-'), 'fan', (quick, thorough),
                  dict(families=families.split(), limit=limit, more=more, weights=weights))


def crash(family, quick, thorough, modes, points=60, name=None):
    return Engine(name or f'crash-{family}', 'crash', (quick, thorough), dict(family=family, modes=modes, points=points))


SAVED = ('saved.kind', 'saved.name', 'saved.time', 'saved.inputs', 'saved.data', 'saved.code', 'saved.ok')

KILL, ERR, INT = ['kill'], ['error', 'int'], ['int']
FAULT_PARTS = ('files', 'partial', 'leftover', 'idx', 'reg', 'ws', 'inputs', 'loaded', 'rest', 'kind', 'code', 'output')

add(Check('C01', [Engine('content', 'content', (64, 900), dict(length=30)), sessions('save', 40, 600), gen(16),
                  Engine('content-huge', 'content', (0, 2), dict(huge=True))], [M_BOXES, M_INPUTS],
          core_rel(('save', 'edit', 'discard', 'load', 'add'), ('files', 'ws', 'kind', 'inputs', 'loaded', 'code', 'output', 'temp', 'stray') + SAVED,
                   ('broken', 'wellformed'), ('save', 'edit'))))
M_SAVING = Model('MCSaving', (dict(), dict(MaxLen='2')))


def save_rel(record, tag, where, clause):
    if record.get('judge') == 'SavingTrace':
        return True
    return core_rel(None, ('files', 'partial', 'leftover', 'boxdir') + SAVED, (), ('save',))(record, tag, where, clause)


add(Check('C04', [crash('save', 8, 60, ERR, 50), Engine('changes', 'saving', (28, 500)), sessions('save', 32, 600), sessions('mixed', 8, 200)], [M_INDEX, M_BOXES, M_SAVING],
          save_rel, level='fault_enumeration'))
add(Check('C05', [crash('save', 12, 90, KILL, 60)], [M_INDEX],
          core_rel(None, ('files', 'partial', 'idx', 'rest', 'ws', 'inputs', 'loaded') + SAVED, ('listing', 'dup', 'broken'), ('save', 'add')),
          level='fault_enumeration'))
add(Check('C11', [crash('input', 24, 160, ['kill', 'error', 'int'], 60)], [M_INPUTS],
          core_rel(None, WS + BOX + ('rest', 'reg'), ('broken', 'wellformed'), INPUT_OPS),
          level='fault_enumeration'))
add(Check('C07', [sessions('index', 56, 700), gen(16), sessions('save', 12, 200)], [M_INDEX],
          core_rel(('index', 'reindex', 'save'), ('idx', 'files'), ('listing', 'dup'))))
add(Check('C09', [fan('load add', 24, 400, 24), sessions('inputs', 40, 700), gen(16), sessions('mixed', 16, 300)], [M_INPUTS],
          core_rel(INPUT_OPS, WS, ('wellformed',), INPUT_OPS)))
add(Check('C10', [fan('update', 40, 500, 40), sessions('update', 40, 600), gen(16)], [M_INPUTS],
          core_rel(('update',), WS, (), ('update',))))
add(Check('C12', [sessions('foreign', 72, 1000)], [M_INDEX],
          core_rel(None, WS + BOX + ('rest',) + SAVED, ('listing', 'dup'),
                   ('add', 'update', 'edit', 'save', 'load', 'index', 'reindex', 'web', 'list', 'status'))))
add(Check('C14', [crash('box', 12, 60, ['kill', 'error', 'int'], 40), sessions('boxes', 64, 900)], [M_BOXES],
          core_rel(('boxadd', 'forget', 'save', 'list'), ('reg', 'files', 'boxdir'), ('registry',), ('save', 'boxadd', 'forget', 'list'))))
add(Check('C15', [crash('input', 8, 60, ERR, 40), sessions('inputs', 40, 600), sessions('damage', 16, 300), sessions('mixed', 16, 300)], [M_INPUTS],
          core_rel(None, ('wprot', 'wwr'), ('prot',), ('update', 'unload', 'delete', 'load', 'discard', 'add'))))
add(Check('C16', [sessions('refuse', 56, 800), sessions('mixed', 24, 300)], [M_BOXES, M_INPUTS],
          core_rel(None, WS + BOX + ('reg', 'rest') + SAVED, ('broken', 'wellformed'),
                   ('new', 'edit', 'discard', 'save', 'add', 'update', 'load', 'unload', 'delete', 'bogus', 'boxadd', 'forget'))))
M_KINDS = Model('MCKinds', (dict(), dict(Processes='{1, 2, 3}', Machines='{"a"}')))


def kinds_rel(record, tag, where, clause):
    if record.get('judge') == 'KindsTrace':
        return True
    return core_rel(None, ('kind', 'saved.kind', 'inputs'), (), ('new',))(record, tag, where, clause)


add(Check('C25', [Engine('kinds', 'kinds', (56, 1500)), Engine('kinds-bulk', 'kinds', (4, 16), dict(bulk=500)), sessions('save', 40, 600), gen(16), sessions('mixed', 16, 300)],
          [M_BOXES, M_KINDS], kinds_rel))

REPORT = ('report.loaded', 'report.time', 'report.bead', 'report.verbose', 'report.boxes', 'report.match', 'report.unreadable', 'report.name',
          'report.kind', 'report.inputs')
add(Check('C23', [fan('status', 40, 600, 8), sessions('status', 40, 600)], [M_INPUTS],
          core_rel(('status',), WS + BOX + ('reg', 'rest') + REPORT, (), ('status',))))

# ------------------------------------------------------------------------------ the web
def web_model(name, quick, thorough):
    return Model('MCWeb', (quick, thorough), name=name)


M_WEB = web_model('MCWeb', dict(MaxOps=2), dict(Versions='{1, 2, 3}', MaxOps=2))
M_WEB_TIES = web_model('MCWeb/ties', dict(MaxOps=2, Ties='TRUE'), dict(Versions='{1, 2, 3}', MaxOps=1, Ties='TRUE'))
M_WEB_NAMES = web_model('MCWeb/names', dict(MaxOps=1), dict(NameSet='{1, 2, 3}', MaxOps=1))


def webs(quick, thorough, gen=16, draw=False):
    return [Engine('web-file', 'web', (quick, thorough), dict(source='file', draw=draw)),
            Engine('web-boxes', 'web', (quick // 2, thorough // 2), dict(source='boxes', draw=draw)),
            Engine('web-generated', 'web', (0, 0), dict(source='file', draw=draw), generate=('GenWeb', dict(num=(gen, gen * 12), depth=30)))]


def web_rel(*groups):
    def rel(record, tag, where, clause):
        if clause.startswith('crash'):
            return True
        group, _, what = clause.partition(':')
        return group in groups or (group == 'status' and what in groups)
    return rel


WEB_RULE = 'a case is one web (made by the harness or generated by TLC) with a sequence of sub-commands run on it; distinct by both'
add(Check('C17', webs(220, 4000, 60), [M_WEB], web_rel('build', 'load', 'keep'), rule=WEB_RULE))
add(Check('C18', webs(240, 4000, 60) + [Engine('web-deep', 'web', (1, 6), dict(source='deep'))], [M_WEB, M_WEB_TIES], web_rel('color', 'order'), rule=WEB_RULE))
add(Check('C19', webs(240, 4000, 60), [M_WEB_NAMES, M_WEB_TIES], web_rel('filter', 'heads'), rule=WEB_RULE))
add(Check('C24', webs(160, 2000, 60, True) + [Engine('web-large', 'web', (8, 60), dict(source='file', draw=True, sizes=[50], ops=2, density=5))], [M_WEB], web_rel('draw'), rule=WEB_RULE))

# ------------------------------------------------------------------------------ searches
M_QUERY = Model('MCQuery', (dict(NameSet='{1}'), dict(NameSet='{1}', MaxCopies=3)))
M_QUERY_NAMES = Model('MCQuery', (dict(NameSet='{1, 2}', BoxSet='{"b1"}'), dict()), name='MCQuery/names')


def query_rel(record, tag, where, clause):
    if record.get('judge') == 'BeadTrace':
        return core_rel(('add', 'edit', 'update'), ('inputs', 'loaded', 'kind', 'code', 'output'), (), ('add', 'edit', 'update'))(record, tag, where, clause)
    return True


add(Check('C06', [Engine('queries', 'query', (160, 4000)), Engine('queries-generated', 'query', (0, 0), generate=('GenQuery', dict(num=(20, 400), depth=70))),
                  fan('add update edit', 10, 200, 30)], [M_QUERY, M_QUERY_NAMES], query_rel,
          rule='a case is a population of archives in three boxes with a sequence of queries on it, or a command naming a bead; distinct by both'))

# ------------------------------------------------------------------------------ archives
M_ARCHIVE = Model('MCArchive', (dict(), dict(DataNames='{"data/1", "data/2"}')))


def archives(quick, thorough, gen=60):
    return [Engine('archives', 'archive', (quick, thorough)),
            Engine('archives-generated', 'archive', (0, 0), generate=('GenArchive', dict(num=(gen, gen * 20), depth=5)))]


def archive_rel(*groups, core=None):
    def rel(record, tag, where, clause):
        if record.get('judge') == 'BeadTrace':
            return core(record, tag, where, clause)
        return clause.startswith('crash') or clause.partition(':')[0] in groups
    return rel


ARCHIVE_RULE = 'a case is a set of archives: intact ones and tampered variants (random, or generated by TLC); distinct by their content'
add(Check('C02', archives(72, 1600) + [sessions('damage', 40, 500), fan('add load update edit', 8, 200, 24, weights='damage')], [M_ARCHIVE],
          archive_rel('valid', 'edit', 'index', core=core_rel(('add', 'load', 'update', 'edit', 'index', 'reindex'), WS + ('idx',), (),
                                                              ('add', 'load', 'update', 'edit'))), rule=ARCHIVE_RULE))
MADE = Engine('made', 'archive', (48, 1200), profile=dict(made=True))
add(Check('C03', archives(56, 1600) + [MADE], [M_ARCHIVE], archive_rel('id'), rule=ARCHIVE_RULE))

# ------------------------------------------------------------------------------ times
M_CALENDAR = Model('MCCalendar', (dict(FirstYear=2015, LastYear=2045), dict(FirstYear=1890, LastYear=2405)))
M_CLOCK = Model('MCClock', (dict(MaxTime=5), dict(MaxTime=7)))
add(Check('C20', [Engine('clock', 'clock', (72, 1200)), Engine('clock-generated', 'clock', (0, 0), generate=('GenClock', dict(num=(16, 200), depth=30)))],
          [M_CALENDAR, M_CLOCK], lambda *a: True,
          rule='a case is a sequence of saves and times given, in some time zones; distinct by the sequence'))

# ------------------------------------------------------------------------------ several processes at once
M_CONC = [Model('MCBoxConc', (dict(), dict(Syncs='{3}'))),
          Model('MCBoxConc', (dict(Saves='{1}', Syncs='{3}'), dict(Rebuilds='{4, 5}')), name='MCBoxConc-2')]
add(Check('C08', [Engine('processes', 'conc', (140, 4000)), Engine('processes-generated', 'conc', (0, 0), generate=('GenConc', dict(num=(1500, 12000), depth=120)))],
          M_CONC, lambda *a: True,
          rule='a case is a box and a set of commands using it, with the order of their file system operations; distinct by both'))

# ------------------------------------------------------------------------------ names
M_NAMES = Model('MCNames', (dict(MaxPieces=4), dict(MaxPieces=6)))
add(Check('C22', [Engine('names', 'names', (110, 2500), dict(length=40)), Engine('files', 'names', (120, 4000), dict(files=True)),
                  Engine('files-generated', 'names', (0, 0), dict(files=True), generate=('GenNames', dict(num=(30, 800), depth=90)))],
          [M_NAMES], core_rel(None, WS + BOX + ('rest',) + SAVED + REPORT, ('listing', 'dup', 'broken', 'wellformed'),
                             ('new', 'save', 'edit', 'add', 'update', 'load', 'unload', 'delete', 'index', 'reindex', 'web', 'status', 'list')),
          rule='a case is a box with archive files of unusual names or a session using such names for beads, inputs and boxes; distinct by names and commands'))

# ------------------------------------------------------------------------------ links, hostile archives
M_CONTAIN = Model('MCContain', (dict(MaxCommands=2, MaxNames=1), dict(MaxCommands=2, MaxLinksPlaced=2)))
add(Check('C13', [Engine('hostile', 'contain', (110, 2400)), Engine('hostile-generated', 'contain', (0, 0), generate=('GenContain', dict(num=(30, 800), depth=260)))],
          [M_CONTAIN], lambda *a: True,
          rule='a case is a sequence of commands, links placed and archives made in between; distinct by the commands, entry names and what was changed'))

# ------------------------------------------------------------------------------ archives kept open
M_CACHE = Model('MCZipCache', (dict(), dict(Good='{1, 2, 3, 4, 5, 6}', Capacity='4')))
add(Check('C21', [Engine('reads', 'cache', (80, 2000)), Engine('reads-generated', 'cache', (0, 0), generate=('GenZipCache', dict(num=(30, 600), depth=70)))],
          [M_CACHE], lambda *a: True,
          rule='a case is a set of files and a sequence of reads and closes; distinct by both'))

NOTE = ('Exhaustive for the small constants of the TLA+ models; the real tool is bound to the specification by TLC judging every '
        'step of recorded executions (random ones and ones generated from the specification). Trusts TLC, the independent '
        'projection in harness/facts.py and harness/world.py, and the operating system.')
