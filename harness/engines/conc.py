'''
Several commands using one box at the same time, one of them running at a time, the others waiting at
some file system operation.  Who may go on is decided by a random scheduler or by a behaviour of BoxConc.
What is left is judged by ConcTrace.
'''
import json
import os
import select
import shutil
import signal
import time

import facts
from world import World, in_child, list_box, require

INDEX = '.index.sqlite'
real_time = time.monotonic


def cases(job):
    return job['count']


class Process:
    def __init__(self, w, argv, box, now, deep, others):
        self.argv, self.w = argv, w
        a, b = os.pipe(), os.pipe()
        self.events, self._go = a[0], b[1]
        close = [a[0], b[1]] + [fd for o in others for fd in (o.events, o._go) if fd is not None]

        def setup():
            for fd in close:
                os.close(fd)
        before, w.now = w.now, now
        self.started = w.start(argv, inside=box, pipes=(a[1], b[0], int(deep)), setup=setup)
        w.now = before
        os.close(a[1])
        os.close(b[0])
        self.pending = None     # the operation it is waiting with
        self.code = None        # its exit code, if ended
        self.text = b''
        self.locked = False     # it is in the middle of a transaction
        self.ops = 0
        self.turn = 0

    @property
    def ended(self):
        return self.code is not None

    def wait(self, timeout):
        '''until it is to do something, or it ends; False: it is waiting for something else'''
        end = real_time() + timeout
        while True:
            left = end - real_time()
            if left <= 0:
                return False
            r, _, _ = select.select([self.events], [], [], left)
            if not r:
                return False
            chunk = os.read(self.events, 65536)
            if not chunk:
                # no more writers: it is ending
                self.result = self.w.finish(self.started)
                self.code = self.result.code
                self.pending = None
                return True
            self.text += chunk
            if self.text.endswith(b'\n'):
                line, self.text = self.text, b''
                locked, self.pending = line[:1] == b'L', line[1:].decode('utf-8', 'surrogateescape').strip()
                self.locked = locked
                self.ops += 1
                return True

    def go(self):
        self.pending = None
        os.write(self._go, b'.')

    def close(self):
        if not self.ended:
            try:
                os.kill(self.started[0], signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.result = self.w.finish(self.started)
            self.code = 'killed'
        if self.events is not None:
            os.close(self.events)
            os.close(self._go)
        self.events = self._go = None


def kind_of(op):
    '''class of an operation, in terms of the specification'''
    if op is None:
        return None
    what, _, path = op.partition(' ')
    if path.endswith('.zip'):
        return {'openw': 'create', 'write': 'fill', 'close': 'finish'}.get(what, what)
    if path.endswith(INDEX):
        return {'stat': 'check', 'openr': 'query', 'openw': 'open'}.get(what, what)
    if path.endswith('-journal'):
        return 'journal'
    return what


# what a process is waiting with, when its next step in the specification is ...
WAITS = {'create': {'create'}, 'finish': {'finish', 'fill'}, 'check': {'check'}, 'exists': {'check'}, 'ensure': {'open'}, 'again': {'open'}, 'open': {'open'},
         'query': {'query'}, 'unlink': {'unlink'}, 'scan': {'scan'}, 'begin': {'journal'}, 'journal': {'journal'}, 'commit': {'write', 'pwrite', 'fsync'}}


class Schedule:
    '''which process goes on'''
    def __init__(self, rng, style):
        self.rng, self.style = rng, style
        self.last = None
        self.switches = {}
        self.prio = {}
        self.killing = 0        # chance of killing
        self.victim = None

    def kills(self, ready):
        if self.killing and self.victim is None and self.rng.random() < self.killing:
            able = [p for p in ready if p.argv[0] == 'save']
            if able:
                self.victim = self.rng.choice(able)
                return True
        return False

    def choose(self, ready):
        rng = self.rng
        if self.style == 'random':
            return rng.choice(ready)
        if self.style == 'sticky':
            if self.last in ready and rng.random() < 0.85:
                return self.last
            return rng.choice(ready)
        # few changes of priorities (as in probabilistic concurrency testing)
        for p in ready:
            if p not in self.prio:
                self.prio[p] = rng.random() + 1
        p = max(ready, key=lambda p: self.prio[p])
        if rng.random() < 0.06:
            self.prio[p] = rng.random()
        return p


def run_round(w, loc, plan, deep, schedule, script=None):
    '''run the commands of plan at the same time; returns processes and the log of operations'''
    box = w.locs[loc]
    procs, log, stuck = [], [], False
    try:
        for argv, now in plan:
            procs.append(Process(w, argv, box, now, deep, procs))
        busy = set()
        for p in procs:
            if not p.wait(20):
                busy.add(p)
        script = list(script or [])
        end = real_time() + 60
        while not all(p.ended for p in procs):
            if real_time() > end:
                stuck = True
                break
            # those which were waiting for others
            for p in list(busy):
                if p.wait(0.001):
                    busy.discard(p)
            ready = [p for p in procs if not p.ended and p not in busy]
            if not ready:
                waiting = [p for p in procs if not p.ended]
                select.select([p.events for p in waiting], [], [], 0.1)
                continue
            # those waiting for a database to be unlocked have to wait, they would give up after a number of attempts
            awake = [p for p in ready if not (p.pending or '').startswith('sleep')]
            if awake and any(p.locked for p in procs if not p.ended):
                ready = awake
            elif not awake:
                # (one of them has what the others want)
                ready = [min(ready, key=lambda p: p.turn)]
            p = None
            while script and p is None:
                n, until = script[0][:2]
                x = procs[n]
                if until == 'kill':
                    script.pop(0)
                    if not x.ended:
                        x.close()
                        log.append((n, 'killed'))
                        busy.discard(x)
                        break
                    continue
                if x.ended or x not in ready or (until and kind_of(x.pending) in WAITS.get(until, ()) and script[0][2:] == (True,)):
                    script.pop(0)
                    continue
                p = x
                script[0] = (n, until or 'done', True)
            if p is None and schedule.kills(ready):
                p = schedule.victim
                p.close()
                log.append((procs.index(p), 'killed'))
                continue
            if p is None:
                ready = [x for x in ready if not x.ended]
                if not ready:
                    continue
                p = schedule.choose(ready)
            schedule.last = p
            p.turn = len(log)
            log.append((procs.index(p), p.pending))
            p.go()
            if not p.wait(5):
                busy.add(p)
        for p in procs:
            if p.ended:
                p.close()
        return procs, log, stuck
    finally:
        for p in procs:
            if not p.ended:
                p.close()


def condensed(log):
    lines = []
    for n, op in log:
        if op.startswith('stat'):
            continue
        what, _, path = op.partition(' ')
        line = f'{n} {what} {path[-10:]}'
        if not lines or lines[-1] != line:
            lines.append(line)
    return ', '.join(lines)[:3000]


def archives(d):
    result = []
    for n in sorted(os.listdir(d)):
        if n.startswith(INDEX) or os.path.isdir(os.path.join(d, n)):
            continue
        p = os.path.join(d, n)
        a = facts.read_archive(p)
        with open(p, 'rb') as f:
            raw = f.read()
        result.append(dict(f=n, dg=facts.digest(raw.hex()), ok=bool(a.get('ok')), name=facts.bead_name(p) or '', cid=a.get('cid') or ''))
    return result


def listing(w, loc):
    def view():
        import ctypes
        ctypes.CDLL(None).bv_set_time(ctypes.c_longlong((w.now + 10 ** 9) * 1000), ctypes.c_longlong(0))
        return list_box('b', w.locs[loc])
    l = in_child(view)
    return [dict(name=b.get('name', '!' + str(b.get('error'))), cid=b.get('cid', ''), f=b.get('f', '')) for b in l]


def run_case(job, i, rng, scratch):
    p = job['profile']
    script, behaviour = None, None
    if 'behaviours' in job:
        with open(job['behaviours']) as f:
            behaviour = json.load(f)[i]
    nsaves = rng.choice([1, 1, 2, 2, 3])
    ws = [f'w{k}' for k in range(1, nsaves + 2)]
    w = World(os.path.join(scratch, 'world'), boxes=('b1',), workspaces=ws)
    box = w.locs['b1']

    def must(*argv):
        r = w.run(*argv)
        require(r)
    must('box', 'add', 'b', box)
    commands = []
    start = rng.choice(['raw', 'indexed', 'indexed', 'stale', 'corrupt'])
    if behaviour:
        kinds, index, steps, _ = behaviour[1]
        start = {0: 'raw', 1: 'indexed', 2: 'stale'}[index]
        nsaves = sum(1 for x in kinds if x == 'save')
    # beads there before
    names = ['x', 'y']
    ins = []
    for k, x in enumerate(ws):
        # workspaces with the same name are to be found as well
        d = os.path.join(w.mkdir('ws', x), rng.choice(names))
        must('new', d)
        for a in range(rng.choice([0, 1, 3])):
            with open(os.path.join(d, 'output', f'f{a}'), 'w') as f:
                f.write(f'{k}{a}' * rng.choice([1, 50, 5000]))
        ins.append(d)
    prior = rng.choice([0, 1, 2, 4])
    if start == 'indexed' and rng.random() < 0.5:
        must('box', 'index', '--dir', box)
    for k in range(prior):
        w.now += rng.choice([1, 10 ** 6])
        must('save', 'b', '-w', ins[-1])
    if start in ('indexed', 'stale'):
        must('box', 'index', '--dir', box)
    if start == 'stale':
        # others put and removed archives
        side = w.mkdir('side')
        for k in range(rng.choice([1, 2])):
            w.now += 1
            must('save', 'b', '-w', ins[-1])
        for f in [f for f in os.listdir(box) if f.endswith('.zip')]:
            if rng.random() < 0.4:
                os.rename(os.path.join(box, f), os.path.join(side, f))
            elif rng.random() < 0.4:
                shutil.copy(os.path.join(box, f), os.path.join(box, 'copied' + f))
    if start == 'corrupt':
        with open(os.path.join(box, INDEX), 'wb') as f:
            f.write(rng.choice([b'garbage' * 1000, b'SQLite format 3\0' + b'\0' * 4000]))
    plan = []
    if behaviour:
        k, number = 0, {}
        for n, x in enumerate(kinds):
            if x == 'none':
                continue
            number[n + 1] = len(plan)
            if x == 'save':
                plan.append((['save', 'b', '-w', ins[k]], w.now + len(plan) + 1))
                k += 1
            else:
                plan.append((['box', x, '--dir', box], w.now + 10))
        # for each step of a process: what it is to wait with afterwards
        script = []
        for n, (q, a) in enumerate(steps):
            after = next((b for r, b in steps[n + 1:] if r == q and b in WAITS), 'done')
            script.append((number[q], 'kill' if a == 'kill' else after))
    else:
        for k in range(nsaves):
            plan.append((['save', 'b', '-w', ins[k]], w.now + (k + 1 if rng.random() < 0.9 else 1)))
        n = rng.choice([0, 1, 1, 2, 2]) if start != 'corrupt' else rng.choice([1, 2])
        for k in range(n):
            c = rng.choice(['index', 'reindex', 'reindex']) if start != 'corrupt' else ['reindex', 'index'][k]
            plan.append((['box', c, *rng.choice([('--dir', box), ('--all',), ('--box', 'b'), ()])], w.now + 10))
    rng.shuffle(plan) if not behaviour else None
    before, listed_before = archives(box), listing(w, 'b1') if start != 'corrupt' else []
    deep = bool(behaviour) or rng.random() < p.get('deep', 0.35)
    schedule = Schedule(rng, rng.choice(['random', 'sticky', 'sticky', 'prio', 'prio']))
    if not behaviour and rng.random() < 0.2:
        schedule.killing = rng.choice([0.005, 0.02, 0.1])
    procs, log, stuck = run_round(w, 'b1', plan, deep, schedule, script)
    saved, indexed, crashed = [], False, []
    for q in procs:
        status = q.result.status
        if q.code in (98, 99, 255, 'timeout') or (isinstance(q.code, int) and q.code > 100):
            crashed.append(' '.join(q.argv))
        if q.argv[0] == 'save':
            if status == 'ok':
                [line] = [x for x in q.result.out.split('\n') if x.startswith('Successfully stored bead at ')]
                saved.append(os.path.basename(line[len('Successfully stored bead at '):].rstrip('.').strip()))
        elif status == 'ok' and 'rror' not in q.result.out + q.result.err:
            indexed = True
    for n in os.listdir(w.cwd):
        if n.startswith('error_'):
            os.unlink(os.path.join(w.cwd, n))
    w.now += 10 ** 6
    step = dict(before=before, after=archives(box), listedbefore=listed_before, listed=listing(w, 'b1'), saved=saved, indexed=indexed, stuck=stuck,
                crashed=crashed if p.get('crashes') else [])
    story = [dict(argv=[start, [a[:2] for a, _ in plan], condensed(log)],
                  status=[[str(q.code), q.result.out[-200:] + q.result.err[-200:]] for q in procs])]
    w.destroy()
    yield dict(judge='ConcTrace', data=dict(steps=[step]), story=story, key=facts.digest([start, [a[:2] for a, _ in plan], log]),
               label=('deep ' if deep else '') + start, stats={'operations': len(log), 'deep': int(deep)})
