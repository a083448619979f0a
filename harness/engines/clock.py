'''
Saves and times given on the command line, in all kinds of time zones. Judged by ClockTrace.

Every command is executed in a fresh interpreter: the time zone is looked at when the tool starts.
Zones are real ones, POSIX rules, and zone files written here - also from zones generated by the specification.
'''
import json
import os
import struct
import subprocess
import sys
import zipfile
import zoneinfo
from datetime import datetime, timedelta, timezone

import facts
import forge
from world import Result, World

import bead
import bead.box

SRC = os.path.dirname(os.path.dirname(os.path.abspath(bead.__file__)))
S = 1_000_000
REAL = ['UTC', 'Europe/Budapest', 'America/New_York', 'Australia/Lord_Howe', 'Pacific/Apia', 'Asia/Kathmandu', 'America/St_Johns', 'Africa/Casablanca',
        'Antarctica/Troll', 'Europe/Dublin', 'America/Caracas', 'Asia/Pyongyang', 'Pacific/Kiritimati', 'Etc/GMT+12', 'America/Nuuk', 'Asia/Gaza']
POSIX = ['', 'CET-1CEST,M3.5.0,M10.5.0/3', 'XXX3:30', 'XXX-0:00:30', 'XXX+1:23:45', 'AAA-14', 'AAA12BBB,J60,J300', '<-03>3<-02>,M3.5.0/-2,M10.5.0/-1', 'Nonsense', 'LMT+0:01:15',
         'EST5EDT4:30,M3.2.0,M11.1.0']
SERVER = '''
import ctypes, json, os, signal, sys
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from datetime import datetime, timedelta, timezone
lib = ctypes.CDLL(None)
lib.bv_set_time.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
lib.bv_set_time(int(sys.argv[2]), 0)
from bead_cli.main import main
from bead.box import Box, Path

def us(t):
    return (t - datetime(1970, 1, 1, tzinfo=timezone.utc)) // timedelta(microseconds=1)

def execute(job):
    for k, name in ((1, 'out'), (2, 'err')):
        os.dup2(os.open(job[name], os.O_WRONLY | os.O_CREAT | os.O_TRUNC), k)
    lib.bv_set_time(job['now'] * 1000, 0)
    os.chdir(job['cwd'])
    if 'look' in job:
        print(json.dumps([[str(b.name), b.content_id, us(b.freeze_time)] for b in Box('b', Path(job['look'])).all_beads()]))
    else:
        sys.argv = ['bead'] + job['argv']
        main()

for line in sys.stdin:
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            execute(json.loads(line))
            code = 0
        except SystemExit as e:
            code = 0 if e.code is None else e.code & 255 if isinstance(e.code, int) else 1
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
    _, st = os.waitpid(pid, 0)
    print(os.waitstatus_to_exitcode(st), flush=True)
'''


def cases(job):
    return job['count']


def instant(us):
    d, r = divmod(us, 86400 * S)
    return [d + 719163, r // S, r % S]


def fields(text):
    '''of the notation of the freeze time: just cut into parts'''
    m = facts._TS.match(text)
    y, mo, d, h, mi, sec, us = (int(m.group(i)) for i in range(1, 8))
    return dict(y=y, mo=mo, d=d, h=h, mi=mi, s=sec, us=us, off=(int(m.group(9)) * 60 + int(m.group(10))) * (-1 if m.group(8) == '-' else 1))


def tzif(path, first, changes):
    '''zone file: first offset, [(at, offset)] in seconds'''
    offsets = [first] + [o for _, o in changes]
    types = sorted(set(offsets))
    names = b''.join(f'Z{k % 26:c}X\0'.replace(f'{k % 26:c}', chr(65 + k % 26)).encode() for k in range(len(types)))
    head = b'TZif2' + b'\0' * 15
    # the type of times before the first change is the first one
    types.remove(first)
    types.insert(0, first)
    low = min(types)
    body = b''.join(struct.pack('>q', t) for t, _ in changes) + bytes(types.index(o) for _, o in changes)
    body += b''.join(struct.pack('>lBB', o, o != low, 4 * k) for k, o in enumerate(types)) + names
    counts = struct.pack('>6l', 0, 0, 0, len(changes), len(types), len(names))
    v1 = head + struct.pack('>6l', 0, 0, 0, 0, 1, 4) + struct.pack('>lBB', 0, 0, 0) + b'UTC\0'
    with open(path, 'wb') as f:
        f.write(v1 + head + counts + body + b'\n\n')


class Clock:
    def __init__(self, rng, scratch, start):
        self.rng = rng
        self.w = World(os.path.join(scratch, 'world'), boxes=('b1',), workspaces=('p',))
        self.w.now = start
        self.tz = None
        self.steps, self.beads, self.story, self.notes = [], [], [], []
        self.n = 0
        with open(self.w.path('files', 'server.py'), 'w') as f:
            f.write(SERVER)
        self.server = None
        self.run('box', 'add', 'A', self.w.locs['b1'])
        self.run('new', self.w.wss['p'])
        self.rawid = 0

    def execute(self, **job):
        '''in a process which has been started with the current time zone'''
        w = self.w
        if not self.server:
            env = {**os.environ, 'HOME': w.home, 'XDG_CONFIG_HOME': os.path.join(w.home, '.config'), 'COLUMNS': '80'}
            env.pop('TZ', None)
            if self.tz is not None:
                env['TZ'] = self.tz
            self.server = subprocess.Popen([sys.executable, w.path('files', 'server.py'), SRC, str(w.now * 1000)], env=env,
                                           stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        out, err = os.path.join(w.io, 'out'), os.path.join(w.io, 'err')
        self.server.stdin.write(json.dumps(dict(job, now=w.now, cwd=w.cwd, out=out, err=err)) + '\n')
        self.server.stdin.flush()
        code = self.server.stdout.readline()
        if not code:
            raise RuntimeError('server of commands has died')
        texts = []
        for p in (out, err):
            with open(p, errors='surrogateescape') as f:
                texts.append(f.read())
        return Result(int(code), *texts)

    def stop(self):
        if self.server:
            self.server.stdin.close()
            self.server.stdout.close()
            self.server.wait()
            self.server = None

    def run(self, *args):
        r = self.execute(argv=[str(a) for a in args])
        for n in os.listdir(self.w.cwd):
            if n.startswith('error_'):
                with open(os.path.join(self.w.cwd, n)) as f:
                    r.err += f.read()[-1500:]
                os.unlink(os.path.join(self.w.cwd, n))
                r.crashed = True
        return r

    def tell(self, what, r=None):
        self.notes.append(dict(did=what, status=r.status if r else '', tz=str(self.tz), now=facts.timestamp(self.w.now),
                               err=r.err[-700:] if r and r.status != 'ok' else ''))

    def step(self, step):
        self.steps.append(step)
        self.story.append(dict(cmd=self.notes, status=step.get('got') or step.get('newest')))
        self.notes = []

    def zone(self, tz):
        self.stop()
        self.tz = tz
        self.tell(f'TZ={tz}')

    def zone_file(self, first, changes):
        self.n += 1
        p = self.w.path('files', f'zone{self.n}')
        tzif(p, first, changes)
        self.zone(':' + p)

    def marker(self, d):
        try:
            with open(os.path.join(d, 'marker')) as f:
                return f.read()
        except OSError:
            return 'none'

    # -------------------------------------------------------------- events
    def save(self):
        w = self.w
        self.n += 1
        id = f's{self.n}'
        before = set(os.listdir(w.locs['b1']))
        w.write('p', 'marker', id)
        r = self.run('save', '-w', w.wss['p'])
        self.tell('save ' + id, r)
        new = [f for f in os.listdir(w.locs['b1']) if f not in before and f.endswith('.zip')]
        step = dict(op='save', id=id, now=instant(w.now), ok=r.status == 'ok' and len(new) == 1, proper=False, n=fields(facts.timestamp(0)), seen=[],
                    accepted=False, newest='')
        if step['ok']:
            a = facts.read_archive(os.path.join(w.locs['b1'], new[0]))
            if a.get('meta'):
                step['proper'] = True
                step['n'] = fields(a['time_str'])
                self.beads.append(dict(id=id, n=step['n']))
            e = self.execute(look=w.locs['b1'])
            if e.status == 'ok':
                step['seen'] = [instant(u) for name, cid, u in json.loads(e.out) if cid == a.get('cid')]
            else:
                step['seen'] = [['failed', 0, 0]]
            got = self.select([], False)
            step['newest'] = got
            # would be refused if it were from the future
            r = self.run('edit', '--review', os.path.join(w.locs['b1'], new[0]), self.target())
            step['accepted'] = r.status == 'ok'
        self.step(step)

    def target(self):
        self.n += 1
        return os.path.join(self.w.wsroot, f'e{self.n}')

    def select(self, args, update):
        '''what the tool selects: id of bead, none, refused'''
        w = self.w
        d = self.target()
        if update:
            r = self.run('new', d)
            if r.status != 'ok':
                self.tell(['new'], r)
            r = self.run('input', 'add', 'p', 'p', '-w', d, *args)
            loaded = self.marker_of_input(d)
            self.tell(['input', 'add', 'p', *args], r)
            return loaded if r.status == 'ok' else 'crash' if r.crashed else 'refused'
        r = self.run('edit', 'p', d, *args)
        self.tell(['edit', 'p', *args], r)
        return self.marker(d) if r.status == 'ok' else 'crash' if r.crashed else 'refused'

    def marker_of_input(self, d):
        try:
            with open(os.path.join(d, '.bead-meta', 'bead')) as f:
                cid = json.load(f)['inputs']['p']['content_id']
        except Exception:
            return 'none'
        for f in os.listdir(self.w.locs['b1']):
            if f.endswith('.zip'):
                p = os.path.join(self.w.locs['b1'], f)
                if facts.read_archive(p).get('cid') == cid:
                    with zipfile.ZipFile(p) as z:
                        return z.read('code/marker').decode()
        return 'none'

    def forged(self, us, off):
        self.n += 1
        id = f'f{self.n}'
        t = facts.timestamp(us, off)
        with open(os.path.join(self.w.locs['b1'], f'p_{t}.zip' if self.rng.random() < 0.5 else f'p_2020{self.n % 9999:04}.zip'), 'wb') as f:
            f.write(forge.archive('p', 'k', t, data={'f': id}, code={'marker': id}))
        self.beads.append(dict(id=id, n=fields(t)))
        self.tell(f'archive {id} of {t}')

    def ask(self, arg, text):
        option = self.rng.choice([['--time=' + text], ['-t' + text] if not text.startswith('=') and text else ['--time=' + text]] + ([['-t', text]] if text and text[0] != '-' else []))
        got = self.select(option, self.rng.random() < 0.3)
        self.step(dict(op='select', arg=arg, now=instant(self.w.now), beads=list(self.beads), got=got))

    def trace(self):
        return dict(steps=self.steps)


# ------------------------------------------------------------------------------ times to be given
def notation(us, off, style):
    '''(arg, text): a moment in a style - possibly with less precision'''
    local = datetime(1970, 1, 1) + timedelta(microseconds=us) + timedelta(minutes=off)
    f = dict(y=local.year, mo=local.month, d=local.day, h=local.hour, mi=local.minute, s=local.second, us=local.microsecond, off=off)
    return text_of(f, style)


def text_of(f, style):
    Y, M, D, h, m, s, u = f'{f["y"]:04}', f'{f["mo"]:02}', f'{f["d"]:02}', f'{f["h"]:02}', f'{f["mi"]:02}', f'{f["s"]:02}', f'{f["us"]:06}'
    o = abs(f['off'])
    z = f'{"-" if f["off"] < 0 else "+"}{o // 60:02}{o % 60:02}'
    day = dict(f, h=0, mi=0, s=0, us=0, off=0)
    text, n = [
        (f'{Y}{M}{D}T{h}{m}{s}{u}{z}', f),
        (Y, dict(day, mo=1, d=1)),
        (Y + M, dict(day, d=1)),
        (f'{Y}-{M}', dict(day, d=1)),
        (Y + M + D, day),
        (f'{Y}-{M}-{D}', day),
        (f'{Y}{M}{D}T{h}{m}{s}{z}', dict(f, us=0)),
        (f'{Y}-{M}-{D}T{h}:{m}:{s}{z}', dict(f, us=0)),
        (f'{Y}-{M}-{D}T{h}:{m}:{s}.{u}{z}', f)][style]
    return dict(style='notation', n=n, deltas=[]), text


def delta(rng, us):
    '''a difference from now of about us'''
    units = dict(w=7 * 86400, d=86400, H=3600, M=60, S=1)
    left = abs(us) // S
    sign = -1 if us < 0 else 1
    parts = []
    for u in 'wdHMS':
        if rng.random() < 0.75 or u == 'S':
            a = left // units[u]
            if u == 'S' and a > 10 ** 8:
                a = 10 ** 8
            left -= a * units[u]
            if a or rng.random() < 0.2:
                parts.append([a * sign, u])
    if rng.random() < 0.3:
        k = rng.choice('dHMS')
        a = rng.randint(1, 50)
        parts += [[a, k], [-a, k]]
    rng.shuffle(parts)
    text = ''.join((f'{a}' if a < 0 else rng.choice(['', '+']) + f'{a}') + u for a, u in parts)
    return dict(style='delta', n=fields(facts.timestamp(0)), deltas=[dict(amount=a, unit=u) for a, u in parts]), text


IMPROPER = [dict(mo=13), dict(mo=0), dict(d=0), dict(mo=2, d=30), dict(y=2019, mo=2, d=29), dict(mo=4, d=31), dict(h=24), dict(mi=60), dict(s=60), dict(off=1440), dict(off=-1440),
            dict(off=99 * 60 + 59), dict(y=0), dict(y=1900, mo=2, d=29), dict(d=32)]
OFFSETS = [0, 0, 60, -60, 330, -210, 345, 765, -720, 840, 1, -1, 1439, -1439, 59, 90, 159]


def transitions(tz):
    '''changes of offset of a zone: [us]'''
    z = zoneinfo.ZoneInfo(tz)
    result = []
    t = 946_684_800
    step = 86400 * 7

    def off(t):
        return datetime.fromtimestamp(t, z).utcoffset()
    while t < 1_890_000_000:
        if off(t) != off(t + step):
            a, b = t, t + step
            while b - a > 1:
                m = (a + b) // 2
                a, b = (m, b) if off(m) == off(a) else (a, m)
            result.append(b * S)
        t += step
    return result


_cache = {}


def near(rng):
    '''a zone, and a moment when it changes'''
    r = rng.random()
    if r < 0.4:
        tz = rng.choice(REAL)
        if tz not in _cache:
            try:
                _cache[tz] = transitions(tz)
            except zoneinfo.ZoneInfoNotFoundError:
                _cache[tz] = []
        return tz, None, rng.choice(_cache[tz] or [1_300_000_000 * S])
    if r < 0.65:
        return rng.choice(POSIX), None, rng.choice([1_616_893_200, 1_635_642_000, 1_582_934_400, 1_577_836_800, 1_709_164_800, 1_600_000_000]) * S
    at = rng.choice([1_500_000_000, 1_582_934_400, 1_577_836_800 - 1800, 4_000_000_000, 951_782_400])
    offs = [rng.choice([0, 3600, 7200, -3600, 1800, 19800, 20700, -12 * 3600, 13 * 3600, 14 * 3600, 30, -4521, 3601, 86340, -86340]) for _ in range(3)]
    if rng.random() < 0.5:
        offs[1] = max(-86340, min(86340, offs[0] + rng.choice([-3600, 3600, -1800, -7200, 1])))
        offs[2] = offs[0]
    return None, (offs[0], [(at, offs[1]), (at + rng.choice([600, 3600, 5400, 86400]), offs[2])]), at * S


def run_case(job, i, rng, scratch):
    if 'behaviours' in job:
        with open(job['behaviours']) as f:
            c = generated(json.load(f)[i][1], rng, scratch)
    else:
        c = random_case(rng, scratch)
    yield dict(judge='ClockTrace', data=c.trace(), story=c.story, key=facts.digest([s['cmd'] for s in c.story]),
               stats=dict(saves=sum(s['op'] == 'save' for s in c.steps), selections=sum(s['op'] == 'select' for s in c.steps)))
    c.stop()
    c.w.destroy()


def random_case(rng, scratch):
    tz, file, at = near(rng)
    c = Clock(rng, scratch, at - rng.choice([1, 3600 * S, 1800 * S, 5400 * S + 1]))

    def go(tz, file):
        if file:
            c.zone_file(*file)
        else:
            c.zone(tz)
    go(tz, file)
    indexed = rng.random() < 0.3
    if indexed:
        c.run('box', 'index', '--all')
    for _ in range(rng.randint(0, 3)):
        c.forged(c.w.now - rng.choice([1, 2, 1800 * S, 3600 * S, 86400 * S, 400 * 86400 * S]) - rng.randint(0, 9), rng.choice(OFFSETS))
    if indexed or rng.random() < 0.4:
        c.run('box', 'reindex', '--all')
    for _ in range(rng.randint(6, 9)):
        r = rng.random()
        if r < 0.3:
            c.save()
            c.w.now += rng.choice([1, 1, 999_999, 600 * S, 1800 * S, 3600 * S, 3599_999_999])
        elif r < 0.35:
            z = near(rng)
            go(z[0], z[1])
        else:
            question(c, rng)
            if rng.random() < 0.2:
                c.w.now += rng.choice([1, 600 * S, 3600 * S])
    return c


def question(c, rng):
    if rng.random() < 0.06:
        # differences leading out of the calendar, or nearly
        u, a = rng.choice([('w', 10 ** 8), ('d', 4 * 10 ** 6), ('w', 10 ** 25), ('d', 10 ** 9), ('S', 10 ** 30), ('d', 999_999_999), ('w', 521_000), ('d', 735_000)])
        amount = min(a, 10 ** 8) * rng.choice([1, -1])
        text = f'{a if amount > 0 else -a}{u}'
        if u == 'S':
            u = 'd'     # so many seconds are many days
        if a > 10 ** 8 and u == 'w':
            amount = amount // abs(amount) * 10 ** 8
        return c.ask(dict(style='delta', n=fields(facts.timestamp(0)), deltas=[dict(amount=amount, unit=u)]), text)
    if rng.random() < 0.05:
        f = dict(fields(facts.timestamp(0)), **rng.choice([dict(y=1), dict(y=9999, mo=12, d=31, h=23, mi=59, s=59, us=999_999)]), off=rng.choice([0, 1439, -1439, 60, -60]))
        return c.ask(*text_of(f, rng.choice([0, 6, 7, 8])))
    if rng.random() < 0.08:
        f = dict(fields(facts.timestamp(c.w.now)), off=0)
        f.update(rng.choice(IMPROPER))
        style = rng.choice([0, 6, 7, 8]) if any(k in f for k in ('h', 'off')) else rng.randint(0, 8)
        arg, text = text_of(f, style)
        c.ask(arg, text)
        return
    us = c.w.now
    if c.beads and rng.random() < 0.8:
        b = rng.choice(c.beads)['n']
        us = facts.parse_timestamp(text_of(b, 0)[1])
    us += rng.choice([0, 0, 0, 1, -1, S, -S, 60 * S, -60 * S])
    if rng.random() < 0.35:
        c.ask(*delta(rng, us - c.w.now))
    else:
        c.ask(*notation(us, rng.choice(OFFSETS), rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8])))


def generated(log, rng, scratch):
    '''of GenClock: units of time are turned into some real amount'''
    unit = rng.choice([1800, 3600, 600])
    base = 1_500_000_000
    c = Clock(rng, scratch, base * S)
    zone = None
    for kind, a, b, d, e, f in log[-24:]:
        if kind == 'zone':
            zone = (a * unit, [(base + b * unit, d * unit), (base + e * unit, f * unit)])
            continue
        if zone:
            c.zone_file(*zone)
            zone = None
        if kind == 'wait':
            c.w.now += a * unit * S
        elif kind == 'save':
            c.save()
        else:
            c.ask(*notation((base + a * unit) * S, b * unit // 60, rng.choice([0, 0, 6, 7, 8])))
    return c
