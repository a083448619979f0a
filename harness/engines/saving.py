'''
Saves during which others change the files being saved: at every operation the save makes on the
workspace it can be held up.  Judged by SavingTrace.
'''
import io
import os
import random
import shutil
import zipfile

import facts
from engines.conc import Process
from world import World, in_child, list_box, require

BLOCK = 4096
CHARS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
NAMES = ['output/a', 'output/d/b', 'output/d/e/c', 'src', 'lib/x', 'lib/y', 'output/.h', 'lib/input/z']
NEW = ['output/new', 'output/d/new', 'newsrc', 'lib/new', 'output/newdir/f']
CHANGES = ['replace', 'rewrite', 'append', 'truncate', 'remove', 'add', 'empty', 'lock', 'grow', 'moved', 'swap', 'todir']


def cases(job):
    return job['count']


class Tree:
    '''the files being saved, with their past'''
    def __init__(self, ws, rng):
        self.ws, self.rng = ws, rng
        self.past = {}
        self.serial = 0
        self.log = []

    def path(self, n):
        return os.path.join(self.ws, n)

    def text(self, size=None):
        self.serial += 1
        if size is None:
            size = self.rng.choice([1, 1, 2, 3, 5])
        return CHARS[self.serial % len(CHARS)] * size

    def write(self, n, text, torn):
        p = self.path(n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        data = b''.join(c.encode() * BLOCK for c in text)
        if torn:
            with open(p, 'r+b' if os.path.exists(p) else 'wb') as f:
                f.truncate(0)
                f.write(data)
        else:
            tmp = os.path.join(os.path.dirname(self.ws), 'tmp')
            with open(tmp, 'wb') as f:
                f.write(data)
            os.rename(tmp, p)
        self.now[n] = text
        if torn:
            self.torn(n, text)
        else:
            self.aliases.pop(n, None)
            self.seen(n, text, False)

    def torn(self, n, text):
        '''who opened the file under another name sees it, too'''
        for m in [n, *self.aliases.get(n, ())]:
            self.seen(m, text, True)

    def seen(self, n, text, torn):
        h = self.past.setdefault(n, dict(n=n, texts=[], absent=True, torn=False))
        if text not in h['texts']:
            h['texts'].append(text)
        h['torn'] |= torn

    def start(self, content):
        self.now = {}
        self.aliases = {}
        for n, text in content.items():
            self.write(n, text, False)
        self.again()

    def again(self):
        '''nothing was changed since now'''
        self.past = {n: dict(n=n, texts=[text], absent=False, torn=False) for n, text in self.now.items()}
        self.log = []
        self.aliases = {}

    def gone(self, n):
        self.aliases.pop(n, None)
        del self.now[n]
        self.past[n]['absent'] = True

    def change(self, what, n):
        '''the name of a file being there, or of nothing'''
        old = self.now.get(n)
        if old is not None:
            os.chmod(self.path(n), 0o644)       # it might have been locked
        if what in ('add', 'swap', 'moved') or old is None:
            m = self.rng.choice(NEW)
            if any(x.startswith(m + '/') for x in self.now) or any(m.startswith(x + '/') for x in self.now) or os.path.isdir(self.path(m)):
                return
        if what == 'add' or old is None:
            what = 'add'
            self.write(m, self.text(), False)
        elif what == 'replace':
            self.write(n, self.text(), False)
        elif what == 'rewrite':
            self.write(n, self.text(len(old)), True)
        elif what == 'grow':
            self.write(n, self.text(len(old) * 2 + 1), True)
        elif what == 'empty':
            self.write(n, '', True)
        elif what == 'append':
            with open(self.path(n), 'ab') as f:
                more = self.text()
                f.write(b''.join(c.encode() * BLOCK for c in more))
            self.now[n] = old + more
            self.torn(n, old + more)
        elif what == 'truncate':
            os.truncate(self.path(n), len(old) // 2 * BLOCK)
            self.now[n] = old[:len(old) // 2]
            self.torn(n, self.now[n])
        elif what == 'remove':
            os.unlink(self.path(n))
            self.gone(n)
        elif what == 'lock':
            os.chmod(self.path(n), 0)
        elif what == 'todir':
            os.unlink(self.path(n))
            self.gone(n)
            self.write(n + '/inside', self.text(), False)
        elif what in ('moved', 'swap'):
            if m not in self.now:
                os.makedirs(os.path.dirname(self.path(m)), exist_ok=True)
                os.rename(self.path(n), self.path(m))
                names = [n, *self.aliases.get(n, ())]
                self.gone(n)
                self.now[m] = old
                self.aliases[m] = names
                self.seen(m, old, self.past[n]['torn'])
                if self.past[n]['torn']:
                    for x in self.past[n]['texts']:
                        self.seen(m, x, True)
                if what == 'swap':
                    self.write(n, self.text(), False)
        self.log.append([what, n])


def project(raw):
    '''[n, text] for the files in an archive'''
    files = []
    with zipfile.ZipFile(io.BytesIO(raw)) as z:
        for info in z.infolist():
            root, _, rest = info.filename.partition('/')
            if root in ('data', 'code') and not info.is_dir():
                try:
                    data = z.read(info)
                    blocks = [data[k:k + BLOCK] for k in range(0, len(data), BLOCK)]
                    text = ''.join(chr(b[0]) if len(b) == BLOCK and b == b[:1] * BLOCK else '?' for b in blocks)
                except Exception:
                    text = '!'
                files.append(dict(n=('output/' if root == 'data' else '') + rest, text=list(text)))
    return files


def boxes(w):
    '''archive files, and what the boxes list'''
    result = {}
    for l, d in w.locs.items():
        if os.path.isdir(d):
            result[l] = {f: facts.digest(open(os.path.join(d, f), 'rb').read().hex()) for f in sorted(os.listdir(d)) if not f.startswith('.index.sqlite')}
    return result


def save(w, tree, when, changes, rng):
    '''
    a save with changes at its when-th operations;
    returns (status, number of operations, operations changes were made at)
    '''
    p = Process(w, ['save', 'A', '-w', tree.ws], tree.ws, w.now, 2, [])
    at = []
    status = None
    while True:
        if not p.wait(30):
            p.close()
            status = 'hang'
            break
        if p.ended:
            status = p.result.status
            break
        if p.ops in when:
            rel = os.path.normpath(p.pending.partition(' ')[2].lstrip('/') or '.')
            inside = [n for n in tree.now if n == rel] or [n for n in tree.now if n.startswith(rel + '/')]
            for what in changes[when.index(p.ops)]:
                pick = inside if inside and rng.random() < 0.75 else sorted(tree.now)
                n = rng.choice(pick) if pick else 'output/none'
                tree.change(what, n)
            at.append([p.ops, p.pending])
        p.go()
    if p.events is not None:
        p.close()
    return status, p.ops, at, p.result if hasattr(p, 'result') else None


def run_case(job, i, rng, scratch):
    w = World(os.path.join(scratch, 'world'))
    require(w.run('box', 'add', 'A', w.locs['b1']))
    require(w.run('box', 'add', 'B', w.locs['b2']))
    require(w.run('new', w.wss['w1']))
    if rng.random() < 0.5:
        require(w.run('box', 'index', '--all'))
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
    big = rng.random() < 0.15
    t = Tree(w.wss['w1'], rng)
    content = {n: t.text() for n in names}
    if big:
        content[names[0]] = t.text(rng.choice([255, 256, 257, 600]))
    if rng.random() < 0.2:
        content[names[-1]] = ''
    t.start(content)
    if rng.random() < 0.6:
        require(w.run('save', 'A', '-w', t.ws))
        w.now += 1_000_000
    saved = w.save_disk()
    ops = None
    runs = job['profile'].get('runs', 24)
    for k in range(runs + 1):
        if k:
            w.restore_disk(saved)
            t.start(content)
        before = boxes(w)
        listing = in_child(lambda: list_box('b1', w.locs['b1']))
        if k == 0:
            when, changes = [], []
        else:
            n = rng.choice([1, 1, 1, 2, 3])
            when = sorted(rng.sample(range(1, ops + 1), min(n, ops)))
            changes = [[rng.choice(CHANGES) for _ in range(rng.choice([1, 1, 2]))] for _ in when]
        status, seen, at, result = save(w, t, when, changes, rng)
        w.now += 1_000_000
        if k == 0:
            ops = max(seen, 1)
        yield record(w, t, status, before, listing, at, result, k)
        if status == 'err' and rng.random() < 0.4:
            # nobody is in the way any more
            for n in t.now:
                os.chmod(t.path(n), 0o644)
            t.again()
            before = boxes(w)
            listing = in_child(lambda: list_box('b1', w.locs['b1']))
            r = w.run('save', 'A', '-w', t.ws)
            w.now += 1_000_000
            yield record(w, t, r.status, before, listing, ['again'], r, k)
        for f in os.listdir(w.cwd):
            os.unlink(os.path.join(w.cwd, f))
    w.destroy()
    shutil.rmtree(saved, ignore_errors=True)


def record(w, t, status, before, listing, at, result, k):
    after = boxes(w)
    new = sorted(set(after['b1']) - set(before['b1']))
    gone = [f for f in before['b1'] if after['b1'].get(f) != before['b1'][f]]
    same = all(after.get(l) == before[l] for l in before if l != 'b1') and set(after) == set(before)
    if status == 'err':
        same = same and in_child(lambda: list_box('b1', w.locs['b1'])) == listing
    arcs = []
    for f in new:
        p = os.path.join(w.locs['b1'], f)
        a = facts.read_archive(p)
        arcs.append(dict(f=f, ok=bool(a['ok']), meta=bool(a['meta']) and facts.bead_name(f) == 'w1' and a.get('name') == 'w1',
                         files=project(open(p, 'rb').read()) if a['zip'] else []))
    data = dict(status=status, changed=bool(t.log), new=arcs, gone=gone, same=same,
                past=[dict(h, texts=[list(x) for x in h['texts']]) for h in t.past.values()])
    story = dict(argv=['save'], status=status, at=at, changes=t.log, err=(result.err if result else '')[-600:])
    return dict(judge='SavingTrace', data=data, story=[story], key=facts.digest([at, t.log, sorted(t.past), k]), label=f'save, {t.log} at {at}', stats={'saves': 1})
