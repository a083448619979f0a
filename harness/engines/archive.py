'''
Intact, damaged and tampered archives: what the tool thinks of them, judged by ArchiveTrace.
'''
import hashlib
import io
import json
import os
import re
import stat
import struct
import zipfile

import facts
import forge
from world import World, in_child, list_box, require

import bead.box
import bead.tech
import bead.ziparchive

PER_CASE = 10
METAS = [None, dict(kind='k1'), dict(kind='k2')]


def cases(job):
    return (job['count'] + PER_CASE - 1) // PER_CASE if 'behaviours' in job else job['count']


# ------------------------------------------------------------------------ archives as lists of entries
class Zip:
    '''an archive in parts: entries [name, bytes], how it is stored'''
    def __init__(self, entries, compression=zipfile.ZIP_DEFLATED, comment=b'', unreadable=()):
        self.entries, self.compression, self.comment, self.unreadable = entries, compression, comment, set(unreadable)
        self.raw = None
        self.name = 'x.zip'

    def copy(self):
        z = Zip([list(e) for e in self.entries], self.compression, self.comment, self.unreadable)
        z.raw, z.name = self.raw, self.name
        return z

    def get(self, name):
        return next((e[1] for e in self.entries if e[0] == name), None)

    def set(self, name, data):
        for e in self.entries:
            if e[0] == name:
                e[1] = data
                return
        self.entries.append([name, data])

    def content(self):
        return [e for e in self.entries if e[0].startswith(('data/', 'code/'))]

    def remanifest(self):
        self.set('meta/manifest', canonical({n: facts.netstring_hash(b) for n, b in self.entries
                                             if n.startswith(('data/', 'code/')) or n == 'meta/bead'}))

    def bytes(self):
        if self.raw is not None:
            return self.raw
        out = io.BytesIO()
        with zipfile.ZipFile(out, 'w', self.compression) as z:
            z.comment = self.comment
            for n, b in self.entries:
                z.writestr(zipfile.ZipInfo(n), b, compress_type=self.compression)
            spoil = [z.getinfo(n) for n in sorted(self.unreadable) if n in z.namelist() and self.get(n)]
        raw = bytearray(out.getvalue())
        for i in spoil:
            # checksum does not match, in the directory
            at = raw.find(struct.pack('<L', i.CRC), z.start_dir)
            raw[at] ^= 0xff
        return bytes(raw)


def canonical(x):
    return json.dumps(x, indent=4, sort_keys=True).encode()


def parts(raw):
    with zipfile.ZipFile(io.BytesIO(raw)) as z:
        return Zip([[n, z.read(n)] for n in z.namelist()], comment=z.comment)


SPEC = {'kind': 'k', 'content_id': 'c', 'freeze_time': '20200101T000000000000+0000'}


class Tampering:
    def __init__(self, rng, now):
        self.rng, self.now = rng, now
        self.all = [getattr(self, n) for n in sorted(dir(self)) if n.startswith('t_')]

    def apply(self, z, n):
        done = []
        for _ in range(n):
            t = self.rng.choice(self.all)
            if z.raw is None or t.__name__.startswith('t_raw') or t.__name__.startswith('t_name'):
                if t(z) is not False:
                    done.append(t.__name__[2:])
        return done

    def victim(self, z):
        c = z.content()
        return self.rng.choice(c) if c else None

    def meta(self, z):
        try:
            m = json.loads(z.get('meta/bead'))
            return m if isinstance(m, dict) else dict(forge_meta())
        except Exception:
            return dict(forge_meta())

    def manifest(self, z):
        try:
            m = json.loads(z.get('meta/manifest'))
            return m if isinstance(m, dict) else {}
        except Exception:
            return {}

    # --- content
    def t_change(self, z):
        v = self.victim(z)
        if not v:
            return False
        b = bytearray(v[1])
        k = self.rng.randint(0, 4)
        if k == 0 or not b:
            b += b'\0'
        elif k == 1:
            b = b[:-1]
        elif k == 2:
            b[self.rng.randrange(len(b))] ^= 1 << self.rng.randint(0, 7)
        elif k == 3:
            b = bytearray(b.replace(b'\n', b'\r\n') + b' ')
        else:
            b = bytearray()
        v[1] = bytes(b)

    def t_change_late(self, z):
        '''beyond the first blocks'''
        v = max(z.content(), key=lambda e: len(e[1]), default=None)
        if not v or not v[1]:
            return False
        v[1] = v[1][:-1] + bytes([v[1][-1] ^ 1])

    def t_add(self, z):
        n = self.rng.choice(['data/', 'code/']) + self.rng.choice(['added', 'sub/added', ' ', 'é', '.hidden', 'meta/bead', '__init__.py', 'a\nb', '%41', '.DS_Store', '.added'])
        if z.get(n) is not None:
            return False
        z.set(n, self.rng.choice([b'', b'added']))

    def t_remove(self, z):
        v = self.victim(z)
        if not v:
            return False
        z.entries.remove(v)

    def t_rename(self, z):
        v = self.victim(z)
        if not v:
            return False
        n = self.rng.choice([v[0] + 'x', v[0].replace('data/', 'code/', 1) if v[0].startswith('data/') else v[0].replace('code/', 'data/', 1),
                             v[0].upper().replace('DATA/', 'data/').replace('CODE/', 'code/'), 'other/' + v[0], v[0].replace('/', '/sub/', 1), v[0] + ' '])
        if z.get(n) is not None or n == v[0]:
            return False
        v[0] = n

    def t_swap(self, z):
        c = z.content()
        if len(c) < 2:
            return False
        a, b = self.rng.sample(c, 2)
        a[1], b[1] = b[1], a[1]

    def t_unreadable(self, z):
        v = self.victim(z)
        if not v or not v[1] or v[0] in z.unreadable:
            return False
        z.unreadable.add(v[0])

    # --- metadata
    def t_meta_field(self, z):
        m = self.meta(z)
        k = self.rng.choice(['meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs'])
        m.pop(k, None)
        z.set('meta/bead', canonical(m))
        if self.rng.random() < 0.7:
            z.remanifest()

    def t_meta_value(self, z):
        m = self.meta(z)
        k, v = self.rng.choice([('kind', 'other'), ('kind', 1), ('kind', None), ('freeze_time', '2020'), ('freeze_time', None), ('freeze_time', '20200101T000000000000'),
                                ('freeze_time', '20200101T000000000000+0000'), ('inputs', {}), ('inputs', None), ('inputs', {'a/b': SPEC}), ('inputs', {'a': dict(SPEC, kind=1)}),
                                ('inputs', {'a': dict(SPEC, freeze_time='x')}), ('inputs', {'a': {}}), ('inputs', {'a': SPEC, 'b': SPEC}), ('freeze_name', 'other'), ('meta_version', 'x'),
                                ('freeze_time', '20200230T000000000000+0000'), ('freeze_time', '20200101T250000000000+0000')])
        m[k] = v
        z.set('meta/bead', canonical(m))
        if self.rng.random() < 0.7:
            z.remanifest()

    def t_meta_text(self, z):
        z.set('meta/bead', self.rng.choice([b'', b'{', b'[]', b'null', b'\xff', b'"x"', b'{}']))
        if self.rng.random() < 0.5:
            z.remanifest()

    def t_meta_time(self, z):
        m = self.meta(z)
        us = self.now + self.rng.choice([1, 0, -1, 10 ** 6, 3_600_000_000, -10 ** 6, 10 ** 15])
        m['freeze_time'] = facts.timestamp(us, self.rng.choice([0, 60, -720, 840]))
        z.set('meta/bead', canonical(m))
        if self.rng.random() < 0.9:
            z.remanifest()

    def t_meta_gone(self, z):
        z.entries[:] = [e for e in z.entries if e[0] != 'meta/bead']
        if self.rng.random() < 0.5:
            z.remanifest()

    # --- manifest
    def t_manifest_gone(self, z):
        z.entries[:] = [e for e in z.entries if e[0] != 'meta/manifest']

    def t_manifest_text(self, z):
        z.set('meta/manifest', self.rng.choice([b'', b'{', b'[]', b'null', b'\xff', b'{}', b'["data/a"]']))

    def t_manifest_entry(self, z):
        m = self.manifest(z)
        if not m:
            return False
        n = self.rng.choice(sorted(m))
        k = self.rng.randint(0, 4)
        if k == 0:
            del m[n]
        elif k == 1:
            m[n] = self.rng.choice(['', None, 0, 'x', m[n].upper() if isinstance(m[n], str) else 'y', facts.netstring_hash(b'x')])
        elif k == 2:
            m['data/nonexistent'] = m[n]
        elif k == 3:
            m.pop('meta/bead', None)
        else:
            m[n] = hashlib.sha512(z.get(n) or b'').hexdigest()       # not the documented hash
        z.set('meta/manifest', canonical(m))

    def t_manifest_again(self, z):
        z.remanifest()

    def t_manifest_other(self, z):
        '''the same in another notation'''
        m = z.get('meta/manifest') or b'{}'
        z.set('meta/manifest', self.rng.choice([json.dumps(self.manifest(z)).encode(), m + b'\n', b' ' + m, m.replace(b'\n', b'\r\n'), m.replace(b'    ', b'\t')]))

    # --- harmless
    def t_order(self, z):
        self.rng.shuffle(z.entries)

    def t_comment(self, z):
        z.comment = self.rng.choice([b'', b'x' * 1000, b'PK\x05\x06'])

    def t_compression(self, z):
        z.compression = self.rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA])

    def t_extra(self, z):
        n = self.rng.choice(['README', 'meta/extra', 'database/x', 'dat', 'codex', 'other/data/x', 'Data/x', 'meta/data/x'])
        if z.get(n) is not None:
            return False
        z.set(n, b'extra')

    def t_name(self, z):
        z.name = self.rng.choice(['y.zip', 'x_2020.zip', 'x_20200101.zip', 'x_20200101T00.zip', 'x.y.zip', 'x y_20200101T000000000000+0000.zip', 'x.bead', 'x', '__.zip', 'a__b.zip', '_20200101.zip', 'é.zip'])

    # --- escaping entries
    def t_escape(self, z):
        n = self.rng.choice(['data/../x', 'code/../../x', 'data//x', 'code/a/../../b', 'data/..', 'data/a/../b'])
        z.set(n, b'evil')
        z.remanifest()

    # --- bytes
    def t_raw_flip(self, z):
        raw = bytearray(z.bytes())
        for _ in range(self.rng.choice([1, 1, 1, 4])):
            raw[self.rng.randrange(len(raw))] ^= 1 << self.rng.randint(0, 7)
        z.raw = bytes(raw)

    def t_raw_cut(self, z):
        raw = z.bytes()
        z.raw = raw[:self.rng.choice([0, 1, len(raw) // 2, len(raw) - 1, len(raw) - 22, self.rng.randrange(len(raw) + 1)])]

    def t_raw_around(self, z):
        raw = z.bytes()
        z.raw = self.rng.choice([b'#!/bin/sh\n' + raw, raw + b'\n', raw + b'\0' * 70000, raw + raw])

    def t_raw_zero(self, z):
        raw = bytearray(z.bytes())
        k = self.rng.randrange(len(raw) + 1)
        raw[k:k + 20] = b'\0' * len(raw[k:k + 20])
        z.raw = bytes(raw)


def forge_meta(kind='k', time='20200101T000000000000+0000', inputs=None):
    return {'meta_version': facts.META_VERSION, 'kind': kind, 'freeze_time': time, 'freeze_name': 'x', 'inputs': inputs or {}}


def base(rng, now):
    names = ['a', 'b', 'sub/a', 'sub/deep/b', 'é', 'sp ace', 'meta/bead', '-x', 'a\\b', 'A', 'x.zip', '..a', 'a..']
    z = Zip([])
    for area in ('data/', 'code/'):
        for n in rng.sample(names, rng.choice([0, 1, 2, 3])):
            z.entries.append([area + n, rng.choice([b'', b'x', b'x', b'hello\n', bytes(range(256)), b"z" * 65537, b"z" * 1048576, b"y" * 1048577, b"w" * 2100000, b"v" * 5000001] if rng.random() < 0.2 else [b"", b"x", b"x", b"hello\n", b"1:x;1"])])
    z.set('meta/bead', canonical(forge_meta(rng.choice(['k1', 'k2']), facts.timestamp(now - rng.choice([0, 1, 10 ** 12])), {f'i{k}': dict(SPEC) for k in range(rng.randint(0, 2))})))
    z.remanifest()
    return z


def saved(w, rng):
    '''an archive made by the tool'''
    ws = os.path.join(w.wsroot, 'x')
    require(w.run('new', ws))
    for area in ('output/', ''):
        for n in rng.sample(['a', 'b', 'sub/a', 'sub/deep/b', 'é', 'sp ace'], rng.randint(0, 3)):
            p = os.path.join(ws, area + n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(rng.choice([b'', b'x', b'hello\n']))
    w.run('box', 'add', 'made', w.locs['b1'])
    r = w.run('save', 'made', '-w', ws)
    if r.status != 'ok':
        return None
    [f] = [n for n in os.listdir(w.locs['b1']) if n.endswith('.zip')]
    with open(os.path.join(w.locs['b1'], f), 'rb') as a:
        raw = a.read()
    w.run('discard', ws)
    w.run('box', 'forget', 'made')
    os.unlink(os.path.join(w.locs['b1'], f))
    return parts(raw)


def from_spec(b):
    zip_ok, named, meta, manok, man, files, _ = b
    meta_time = {1: '20200101T000000000000+0000', 2: '20200101T000000000000+0000', 3: '22000101T000000000000+0000'}

    def data(n, h):
        if h > 100:
            return canonical(forge_meta(f'k{h}', meta_time[h - 100]))
        return {0: b'unreadable', 1: b'one', 2: b'two'}[h]
    z = Zip([[n, data(n, h)] for n, h in files])
    z.unreadable = {n for n, h in files if h == 0}
    if manok:
        z.set('meta/manifest', canonical({n: facts.netstring_hash(data(n, h)) for n, h in man}))
    if not zip_ok:
        z.raw = z.bytes()[:-30]
    z.name = 'x.zip' if named else 'x__.zip'
    return z


# ------------------------------------------------------------------------ facts, in the terms of the specification
def describe(path, now, number):
    a = dict(zip=False, named=False, metaok=False, meta=0, future=False, manok=False, man=[], files=[], escape=False, cid='', canon=False, name='')
    name = facts.bead_name(path)
    a['named'], a['name'] = bool(name), name
    with open(path, 'rb') as f:
        raw = f.read()
    try:
        z = zipfile.ZipFile(io.BytesIO(raw))
    except Exception:
        return a, {}
    a['zip'] = True
    read = {}
    for n in z.namelist():
        try:
            read[n] = z.read(n)
        except Exception:
            read[n] = None
    full = facts.read_archive(raw)
    a['metaok'] = bool(full.get('meta')) and 'meta/bead' in read
    try:
        meta = json.loads(read['meta/bead'].decode('utf-8'))
        a['metaok'] = a['metaok'] and all(k in meta for k in ('meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs'))
    except Exception:
        meta = None
    if full.get('meta'):
        a['meta'] = number('meta', [full['kind'], full['name'], full['time_str'], sorted([i['nick'], i['kind'], i['cid'], i['time_str']] for i in full['inputs'])])
        a['future'] = full['time'] > now
    try:
        man = json.loads(read['meta/manifest'].decode('utf-8'))
        a['manok'] = isinstance(man, dict)
        a['man'] = [dict(n=n, h=number('hash', h if isinstance(h, str) else '!')) for n, h in man.items()] if a['manok'] else []
        a['cid'] = facts.netstring_hash(read['meta/manifest'])
        a['canon'] = canonical(man) == read['meta/manifest'] and canonical(meta) == read['meta/bead']
    except Exception:
        pass
    for n, b in read.items():
        root, _, rest = n.partition('/')
        area = root if root in ('data', 'code') and '/' in n else 'meta' if n == 'meta/bead' else 'other'
        a['files'].append(dict(n=n, area=area, h=number('hash', facts.netstring_hash(b)) if b is not None else 0))
        if area in ('data', 'code') and (rest.startswith('/') or '..' in rest.split('/')):
            a['escape'] = True
    tree = {'data': {}, 'code': {}}
    for n, b in read.items():
        root, _, rest = n.partition('/')
        if root in tree and '/' in n:
            tree[root][rest] = hashlib.sha1(b or b'').hexdigest()
    return a, tree


def asked(path):
    try:
        a = bead.ziparchive.ZipArchive(bead.tech.fs.Path(path))
    except bead.exceptions.InvalidArchive:
        return dict(opened=False, valid=False, cid='', name='', meta=None)
    r = dict(opened=True, valid=True, cid='', name=str(a.name), meta=None)
    try:
        a.validate()
    except bead.exceptions.InvalidArchive:
        r['valid'] = False
    try:
        r['cid'] = a.content_id
    except Exception as e:
        r['cid'] = '!' + type(e).__name__
    if not r['valid']:
        return r
    try:
        r['meta'] = [a.kind, a.meta['freeze_name'], a.freeze_time_str,
                     sorted([str(i.name), i.kind, i.content_id, i.freeze_time_str] for i in a.inputs)]
    except Exception as e:
        r['meta'] = '!' + type(e).__name__
    return r


def run_case(job, i, rng, scratch):
    w = World(os.path.join(scratch, 'world'), boxes=('b1',), workspaces=())
    p = job['profile']
    if p.get('made'):
        yield from made(w, rng, p)
        return
    if rng.random() < 0.5:
        w.env['BEAD_ZIP_COMPRESSION'] = rng.choice(['off', 'stored', 'deflated', 'bzip2', ''])
    ids = {}

    def number(what, v):
        return ids.setdefault((what, json.dumps(v)), len(ids) + 1)
    variants = []
    if 'behaviours' in job:
        with open(job['behaviours']) as f:
            for b in json.load(f)[i * PER_CASE:(i + 1) * PER_CASE]:
                variants.append((from_spec(b[1]), ['spec', b]))
    else:
        t = Tampering(rng, w.now)
        z = saved(w, rng) if rng.random() < 0.4 else base(rng, w.now)
        variants.append((z, []))
        for _ in range(p.get('variants', 12)):
            v = z.copy()
            variants.append((v, t.apply(v, rng.choice([1, 1, 1, 2, 3]))))
        if rng.random() < 0.5:
            v = base(rng, w.now)
            variants.append((v, ['other']))
    box = w.locs['b1']
    steps, story = [], []
    for k, (z, how) in enumerate(variants):
        d = w.mkdir('files', str(k))
        path = os.path.join(d, z.name)
        with open(path, 'wb') as f:
            f.write(z.bytes())
        a, tree = describe(path, w.now, number)
        if a['named'] and z.name.endswith('.zip') and not os.path.exists(os.path.join(box, f'{a["name"]}{k}.zip')):
            # all of them in a box
            in_box = os.path.join(box, f'{a["name"]}{k}.zip')
            with open(in_box, 'wb') as f:
                f.write(z.bytes())
        def view():
            import ctypes
            ctypes.CDLL(None).bv_set_time(ctypes.c_longlong(w.now * 1000), ctypes.c_longlong(0))
            return asked(path)
        tool = in_child(view)
        m = tool.pop('meta')
        tool['meta'] = ids.get(('meta', json.dumps(m)), -1) if m is not None else -1
        tool['edit'], tool['same'] = 'none', False
        if rng.random() < p.get('edits', 0.35):
            review = rng.random() < 0.5
            target = os.path.join(w.wsroot, f'e{k}')
            before = facts.tree_of(box)
            r = w.run('edit', *(['--review'] if review else []), path, target)
            left = os.path.lexists(target)
            tool['edit'] = 'ok' if r.status == 'ok' and left else 'partial' if left else 'refused'
            if tool['edit'] == 'ok' and tree:
                tool['same'] = (facts.tree_of(target, ignore=('input', 'output', 'temp', '.bead-meta')) == tree['code']
                                and facts.tree_of(os.path.join(target, 'output')) == (tree['data'] if review else {})
                                and os.listdir(os.path.join(target, 'input')) == [])
            clean_errors(w)
            if facts.tree_of(box) != before:
                tool['same'] = False
        for x in (tool, a):
            x['cid'] = f'c{number("cid", x["cid"])}' if x['cid'] else ''
        steps.append(dict(op='archive', a=a, tool=tool, listed=[], made=False))
        story.append(dict(argv=[z.name, how], status=[tool['opened'], tool['valid'], tool['edit']]))
    # the index
    r = w.run('box', 'index', '--dir', box)
    in_box = []
    for k, s in enumerate(steps):
        f = os.path.join(box, f'{s["a"]["name"]}{k}.zip')
        if s['a']['named'] and os.path.exists(f):
            a, _ = describe(f, w.now, number)
            a['cid'] = f'c{number("cid", a["cid"])}' if a['cid'] else ''
            in_box.append(dict(op='archive', a=a, tool=dict(in_child(lambda: asked_at(w, f)), edit='none', same=False), listed=[], made=False))
            x = in_box[-1]['tool']
            x['meta'] = ids.get(('meta', json.dumps(x['meta'])), -1) if x['meta'] is not None else -1
            x['cid'] = f'c{number("cid", x["cid"])}' if x['cid'] else ''
    listed = in_child(lambda: list_box('b1', box))
    index = dict(op='index', made=False, a={}, tool={}, listed=[dict(name=e.get('name', '!'), cid=f'c{number("cid", e.get("cid", "!"))}') for e in listed])
    w.destroy()
    yield dict(judge='ArchiveTrace', data=dict(steps=steps), story=story, key=facts.digest([s['a'] for s in steps]), label='files', stats={'archives': len(steps)})
    yield dict(judge='ArchiveTrace', data=dict(steps=in_box + [index]), story=story, key=None, label='box', stats={'archives': len(in_box)})


# ------------------------------------------------------------------------ content ids of archives made by the tool
TEXTS = [b'', b'x', b'hello\n', b'hello\r\n', b'1:x;1', b'a\nb\nc\n', b'\0', b' x', b'x ', bytes(range(256))]
SIZES = [65535, 65536, 65537, 131072, 1048575, 1048576, 1048577, 2097152 + 1]


class Content:
    '''source and output files'''
    def __init__(self, rng):
        self.rng = rng
        self.files = {}
        for _ in range(rng.randint(1, 4)):
            self.files[self.fresh()] = self.some()

    def fresh(self):
        return self.rng.choice(['', 'output/']) + self.rng.choice(['a', 'b', 'ab', 'a/b', 'A', 'sub/a', 'a.txt', 'é', 'sp ace', '.a', 'x\\y'])

    def some(self):
        if self.rng.random() < 0.25:
            n = self.rng.choice(SIZES)
            return (bytes([self.rng.randint(0, 255) for _ in range(97)]) * (n // 97 + 1))[:n]
        return self.rng.choice(TEXTS)

    def fits(self, name):
        return not any(n == name or n.startswith(name + '/') or name.startswith(n + '/') for n in self.files)

    def change(self):
        '''a change which has to show'''
        rng, f = self.rng, self.files
        n = rng.choice(sorted(f)) if f else None
        k = rng.randint(0, 10) if f else 10
        b = f.get(n, b'')
        if k == 0:
            f[n] = b + rng.choice([b'\n', b'\0', b' ', b'x'])
        elif k == 1:
            f[n] = b[:-1] if b else b'\n'
        elif k == 2:
            f[n] = b.replace(b'\n', b'\r\n') if b'\n' in b and b'\r' not in b else b.replace(b'\r\n', b'\n')
        elif k in (3, 4) and b:
            at = rng.choice([x for x in (0, len(b) - 1, 65535, 65536, 1048575, 1048576, len(b) // 2) if x < len(b)])
            f[n] = b[:at] + bytes([b[at] ^ (1 << rng.randint(0, 7))]) + b[at + 1:]
        elif k == 5:
            del f[n]
        elif k == 6:
            to = n[7:] if n.startswith('output/') else 'output/' + n
            if self.fits(to):
                f[to] = f.pop(n)
        elif k == 7 and len(f) > 1:
            m = rng.choice(sorted(f))
            f[n], f[m] = f[m], f[n]
        elif k == 8:
            to = self.fresh()
            if self.fits(to):
                f[to] = f.pop(n)
        elif k == 9:
            f[n] = self.some()
        else:
            to = self.fresh()
            if self.fits(to):
                f[to] = self.some() if rng.random() < 0.6 else b''

    def write(self, ws):
        for d, dirs, names in os.walk(ws, topdown=False):
            area = os.path.relpath(d, ws).split(os.sep)[0]
            if area in ('input', '.bead-meta', 'temp'):
                continue
            for n in names:
                os.unlink(os.path.join(d, n))
            if area != '.' and d != os.path.join(ws, 'output'):
                os.rmdir(d)
        names = list(self.files)
        self.rng.shuffle(names)
        for n in names:
            p = os.path.join(ws, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(self.files[n])
            os.utime(p, (self.rng.randint(10 ** 9, 2 * 10 ** 9),) * 2)
            os.chmod(p, self.rng.choice([0o644, 0o600, 0o755]))


def made(w, rng, p):
    '''saving over and over, with or without changes'''
    ids = {}

    def number(what, v):
        return ids.setdefault((what, json.dumps(v)), len(ids) + 1)

    def must(*argv):
        r = w.run(*argv)
        require(r)
    for b in w.locs:
        if b != 'home':
            must('box', 'add', b, w.locs[b])
    ws = os.path.join(w.wsroot, 'x')
    must('new', ws)
    content = Content(rng)
    steps, story, how, saves = [], [], [], []
    for k in range(p.get('saves', 12)):
        content.write(ws)
        if rng.random() < 0.3:
            w.env['BEAD_ZIP_COMPRESSION'] = rng.choice(['off', 'stored', 'deflated', 'bzip2', ''])
        b = rng.choice([b for b in w.locs if b != 'home'])
        r = w.run('save', b, '-w', ws)
        found = [n for n in os.listdir(w.locs[b]) if n.endswith('.zip')]
        if r.status != 'ok' or len(found) != 1:
            steps.append(dict(op='unsaved', a={}, tool={}, listed=[], made=True))
            story.append(dict(argv=['save', b, how], status=[r.status, found]))
            break
        path = os.path.join(w.mkdir('files', str(k)), rng.choice([found[0], 'renamed.zip', 'x_20200101.zip']))
        os.rename(os.path.join(w.locs[b], found[0]), path)
        saves.append(path)
        a, _ = describe(path, w.now, number)
        tool = in_child(lambda: asked_at(w, path))
        m = tool.pop('meta')
        tool.update(meta=ids.get(('meta', json.dumps(m)), -1) if m is not None else -1, edit='none', same=False)
        for x in (tool, a):
            x['cid'] = f'c{number("cid", x["cid"])}' if x['cid'] else ''
        steps.append(dict(op='archive', a=a, tool=tool, listed=[], made=True))
        story.append(dict(argv=['save', b, how], status=[tool['opened'], tool['valid'], tool['cid']]))
        how = []
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            kind = rng.randint(0, 12)
            if kind == 0:
                w.now += rng.choice([1, 10 ** 6, 3600 * 10 ** 6])
            elif kind == 1:
                to = os.path.join(w.mkdir('ws', f'at{k}{len(how)}'), rng.choice(['x', 'x', 'y']))
                os.rename(ws, to)
                ws = to
            elif kind == 2:
                with open(os.path.join(ws, 'temp', f't{k}'), 'wb') as f:
                    f.write(b'temp')
            elif kind == 3:
                w.run('input', *rng.choice([('add', f'i{k}', rng.choice(saves), '-w', ws), ('unload', '-w', ws), ('load', '-w', ws)]))
                clean_errors(w)
            elif kind == 4:
                w.run('input', 'delete', f'i{rng.randint(0, k)}', '-w', ws)
                clean_errors(w)
            elif kind == 5:
                other = os.path.join(w.mkdir('ws', f'e{k}{len(how)}'), 'x')
                w.run('edit', *rng.choice([(), ('--review',)]), path, other)
                clean_errors(w)
                if os.path.isdir(other):
                    ws = other
            else:
                content.change()
            how.append(kind)
    w.destroy()
    yield dict(judge='ArchiveTrace', data=dict(steps=steps), story=story, key=facts.digest([s['a'] for s in steps]), label='made', stats={'archives': len(steps)})


def asked_at(w, path):
    import ctypes
    ctypes.CDLL(None).bv_set_time(ctypes.c_longlong(w.now * 1000), ctypes.c_longlong(0))
    return asked(path)


def clean_errors(w):
    for n in os.listdir(w.cwd):
        if n.startswith('error_'):
            os.unlink(os.path.join(w.cwd, n))
