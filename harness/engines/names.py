'''
Unusual names: of archive files (judged by NamesTrace), and of beads, inputs and boxes in sessions (judged by BeadTrace).
'''
import json
import os

import facts
import forge
from engines import core
from world import World, LATEST, in_child, require

import bead.box
import bead.tech.fs
import bead.ziparchive

STAMP = '_20200102T030405000006+0000'
TOKENS = ['a', 'b', 'A', 'x1', '0', '9', '_', '_', '-', '+', 'T', '.', '..', ' ', '*', '?', '[', ']', '[a]', '[!a]', '[0-9]*', '%', '%41', '%2f', '_a',
          '_20200101', '_20200101T', STAMP, '20200101', '_20209999', '_2020010', '_202001011', 'T030405', '.zip', '.ZIP', '.tar', '~', '$HOME', '$(x)', '`x`', "'", '"',
          "''", '"; DROP TABLE beads; --', '\n', '\t', '\r', '\x01', '\x7f', '\x1b[0m', ',', ';', '=', '@', '#', '&', '&amp;', '<b>', '|', '>', '!', '^', '(', ')', '{', '{}', '{name}',
          '%s', 'é', 'e\u0301', '漢字', '\U0001f600', '\u202e', '\xa0', '\u2028', '\ufeff', 'ß', 'İ', 'home', 'input', '.bead-meta', 'manifest', 'n' * 60]
TIME_TAILS = ['', '', '', '_20200101', '_20200102t', STAMP, STAMP[:14], STAMP.replace('+', '-'), STAMP + '1', ' (1)', '~', '_', '.1']


def cases(job):
    return job['count']


def make_name(rng, tokens=TOKENS):
    n = ''.join(rng.choice(tokens) for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 6])))
    return n.replace('/', '')


def relatives(rng, n):
    '''names similar to a name'''
    i = rng.randrange(len(n) + 1)
    return [n, n + rng.choice(['x', '_', '1', ' ', '.', '*', STAMP]), rng.choice(['x', '_', '*', '.']) + n, n[:i] + rng.choice('?*_%') + n[i + 1:], n[:-1], n.upper(), n.swapcase(),
            n.replace('_', '__', 1), n.replace('*', 'anything'), n.replace('?', 'q'), n.replace('[a]', 'a'), '*', '%', n.strip(), n + '.zip', os.path.splitext(n)[0]]


def usable(n):
    # (-x would be an option on the command line)
    return facts.well_formed_name(n) and not n.startswith('-') and len(n.encode()) < 200


# ------------------------------------------------------------------ files
def chars(s):
    r = []
    for c in s:
        o = ord(c)
        r.append('bad' if 0xD800 <= o <= 0xDFFF else c if 32 < o < 127 and c not in '"\\' else f'u{o:x}')
    return r


def from_chars(cs):
    return ''.join(cs)


def look(w, questions):
    def listed(beads, box=None):
        result = []
        for b in beads:
            f = ''
            if box is not None:
                try:
                    f = os.path.basename(bead.box.resolve([box], b).location)
                except Exception as e:
                    f = '!' + type(e).__name__
            result.append([str(b.name), b.content_id, f])
        return result
    box = bead.box.Box('b', bead.tech.fs.Path(w.locs['b1']))
    answers = []
    for op, q in questions:
        try:
            if op == 'list':
                answers.append(listed(box.all_beads(), box))
            elif op == 'find':
                answers.append(listed(box.search().by_name(q).all(), box))
            else:
                try:
                    answers.append(listed([bead.box.search([box]).by_name(q).newest()], box))
                except LookupError:
                    answers.append([])
        except Exception as e:
            answers.append(f'{type(e).__name__}: {e}')
    return answers


def files_case(job, i, rng, scratch):
    box_dir = rng.choice(['boxes/b', 'boxes/' + make_name(rng), 'boxes/' + make_name(rng) + '/' + make_name(rng)])
    if any(p in ('', '.', '..') for p in box_dir.split('/')) or os.path.normpath(box_dir) != box_dir:
        box_dir = 'boxes/b'
    w = World(os.path.join(scratch, 'world'), boxes=('b1',), workspaces=(), box_dirs={'b1': box_dir})
    box = w.locs['b1']
    if 'behaviours' in job:
        with open(job['behaviours']) as f:
            names = [from_chars(x) for x in json.load(f)[i][1]]
    else:
        names = []
        while len(names) < 14:
            if names and rng.random() < 0.5:
                n = rng.choice(relatives(rng, os.path.splitext(rng.choice(names))[0].replace(STAMP, '')))
            else:
                n = make_name(rng)
            names.append((n + rng.choice([STAMP, STAMP, *TIME_TAILS])) + '.zip')
        if rng.random() < 0.2:
            names.append('a\udcff' + STAMP + '.zip')
    files = []
    for n in names:
        n = n.replace('/', '')
        if not n or n in ('.', '..') or len(os.fsencode(n)) > 255 or not n.endswith('.zip') or n.endswith('\n.zip') or os.path.exists(os.path.join(box, n)):
            continue
        k = len(files)
        raw = forge.archive(str(k), f'k{k}', f'20200101T0000000{k:05}+0000', (), {'x': str(k)})
        with open(os.path.join(box, n), 'wb') as f:
            f.write(raw)
        files.append((n, forge.content_id(raw)))
    known = sorted({facts.bead_name(n) for n, _ in files} - {''})
    questions = [('list', '')]
    for n in known:
        questions.append(('find', n))
        x = rng.choice(relatives(rng, n))
        if x and facts.is_text(x):
            questions.append(('find', x))
    cids = {c: f'c{k}' for k, (_, c) in enumerate(files)}
    for phase in ('raw', 'indexed'):
        if phase == 'indexed':
            r = w.run('box', rng.choice(['index', 'reindex']), '--dir', box)
            require(r)
        answers = in_child(lambda: look(w, questions))
        steps, story = [], []
        for (op, q), a in zip(questions, answers):
            failed = isinstance(a, str)
            # (of beads with the same name and content id any file may be told: there are none here)
            steps.append(dict(op=op, ask=chars(q), failed=failed,
                              got=[] if failed else [dict(name=chars(n), cid=cids.get(c, '?'), f=chars(f)) for n, c, f in a]))
            story.append(dict(argv=[op, q], status=a))
        yield dict(judge='NamesTrace', data=dict(files=[dict(f=chars(n), cid=cids[c]) for n, c in files], steps=steps), story=story,
                   key=facts.digest([phase, box_dir, [n for n, _ in files]]), label=phase + ' ' + repr(box_dir), stats={'names': len(files), 'questions': len(questions)})
    w.destroy()


# ------------------------------------------------------------------ sessions
WEIGHTS = dict(new=10, write=3, save=16, edit=8, discard=4, add=14, update=10, load=6, unload=3, delete=4, boxadd=2, forget=1, index=4, reindex=2, status=3, list=1,
               version=0, web=2, bogus=0, copy=6, move=4, remove=1, damage=0, foreign=0, rmbox=0, mkbox=0, code=1, temp=0, replace=0, mvws=6, mutate=0)


class Driver(core.Driver):
    def __init__(self, rng, scratch, profile):
        self.pool = []
        base = []
        while len(base) < 3:
            n = make_name(rng)
            if usable(n):
                base.append(n)
        for n in base:
            self.pool.append(n)
            self.pool += [x for x in rng.sample(relatives(rng, n), 3) if usable(x)]
        self.pool += rng.sample(['long' + 'é' * 105, 'w1', 'a', '*', 'l' * 224], 2)
        super().__init__(rng, scratch, dict(profile, weights='mixed'))
        self.names, self.weights = list(WEIGHTS), list(WEIGHTS.values())
        w = self.w
        taken = set()
        for k in ('w1', 'w2', 'w3'):
            for _ in range(20):
                n = rng.choice(self.pool + ['a__b', '__', 'l' * 225, 'é' * 113, 'bad\udcff'])
                if n not in taken and not (set(n) & set('\\:')):
                    taken.add(n)
                    w.wss[k] = os.path.join(w.wsroot, n)
                    break
        w.wss.pop('n1', None)
        self.nicks = [n for n in self.pool if len(n.encode()) <= 255][:6] + ['n' * 255]
        self.s.rec.start(w.snapshot())

    def name(self):
        r = self.rng.random()
        names = [x['bn'] for _, x in self.archives() if x['bn'] and not x['bn'].startswith('-')]
        if names and r < 0.7:
            return self.rng.choice(names)
        if names and r < 0.85:
            n = self.rng.choice(relatives(self.rng, self.rng.choice(names)))
        else:
            n = self.rng.choice(self.pool)
        return n if n and not n.startswith('-') and '/' not in n and '\0' not in n and facts.is_text(n) else 'nonesuch'

    def nick(self, ws, known=0.85):
        # refused ones as well
        if known < 0.5 and self.rng.random() < 0.1:
            return self.rng.choice(['a__b', '..', '.', 'n' * 256, 'é' * 128, 'x/y', 'bad\udcff', '__'])
        return super().nick(ws, known)

    def do_mvws(self):
        ws = self.rng.choice(['w1', 'w2', 'w3'])
        if not self.s.state['ws'][ws]['valid']:
            return
        # (these may have names which are not portable, or not possible)
        n = self.rng.choice(self.pool + ['a:b', 'c\\d', 'a__b', 'l' * 225, 'bad\udcff', '-x'])
        new = os.path.join(self.w.wsroot, n)
        if os.path.lexists(new) or new in self.w.wss.values():
            return
        os.rename(self.w.wss[ws], new)
        self.w.wss[ws] = new
        self.s.env()

    def do_new(self):
        for _ in range(5):
            free = [i for i in self.w.wss if not self.s.state['ws'][i]['ex']]
            ws = self.rng.choice(free) if free and self.rng.random() < 0.9 else self.ws(False)
            if not set(os.path.basename(self.w.wss[ws])) & set('\\:'):
                return self.s.new(ws)

    def fresh_name(self, x):
        self.serial += 1
        n = self.rng.choice([x['bn'] or 'x', *self.pool])
        for _ in range(5):
            f = n + self.rng.choice([STAMP[:-12] + f'{self.serial:06}' + '+0000', *TIME_TAILS]) + '.zip'
            if len(os.fsencode(f)) <= 255:
                return f
        return f'x{self.serial}.zip'


def run_case(job, i, rng, scratch):
    if job['profile'].get('files'):
        yield from files_case(job, i, rng, scratch)
        return
    d = Driver(rng, scratch, job['profile'])
    while len(d.s.rec.steps) < d.length:
        d.step()
    s = d.s
    steps = len(s.rec.steps)
    key = facts.digest([x['argv'] for x in s.rec.steps])
    trace, story = s.finish()
    yield dict(judge='BeadTrace', data=trace, story=story, key=key, stats={'commands': sum(1 for x in story if x['argv']), 'steps': steps})
