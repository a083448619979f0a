'''
Independent reading of archives and directory trees: facts for the specifications.

Nothing here uses the code under test.
'''
import hashlib
import io
import json
import os
import re
import stat
import zipfile
from datetime import datetime, timedelta, timezone

META_VERSION = 'aaa947a6-1f7a-11e6-ba3a-0021cc73492e'
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
_TS = re.compile(r'(\d{4})(\d\d)(\d\d)T(\d\d)(\d\d)(\d\d)(\d{6})([-+])(\d\d)(\d\d)$', re.A)


def parse_timestamp(s):
    '''Frozen time notation -> microseconds since the epoch (ValueError if it is not one).'''
    if not isinstance(s, str):
        raise ValueError(s)
    m = _TS.match(s)
    if not m:
        raise ValueError(s)
    y, mo, d, h, mi, sec, us = (int(m.group(i)) for i in range(1, 8))
    off = (int(m.group(9)) * 60 + int(m.group(10))) * (-1 if m.group(8) == '-' else 1)
    if abs(off) >= 24 * 60:
        raise ValueError(s)
    naive = datetime(y, mo, d, h, mi, sec, us, tzinfo=timezone.utc)
    return (naive - EPOCH) // timedelta(microseconds=1) - off * 60_000_000


def timestamp(us, offset_minutes=0):
    local = EPOCH + timedelta(microseconds=us) + timedelta(minutes=offset_minutes)
    sign = '-' if offset_minutes < 0 else '+'
    o = abs(offset_minutes)
    return local.strftime('%Y%m%dT%H%M%S%f') + f'{sign}{o // 60:02}{o % 60:02}'


def is_text(s):
    try:
        s.encode('utf-8')
    except UnicodeEncodeError:
        return False
    return True


def well_formed_name(s):
    return (isinstance(s, str) and s not in ('', '.', '..') and '/' not in s and '__' not in s and '\0' not in s
            and is_text(s) and len(s.encode()) <= 255)


def can_be_saved(name):
    '''(the name of the archive must not be longer than 255 bytes)'''
    return well_formed_name(name) and len(name.encode()) + 31 <= 255


def bead_name(filename):
    '''Name of the bead stored in a file, '' if there is none'''
    stem, _ = os.path.splitext(os.path.basename(filename))
    m = re.match(r'(?s)(.*)_[0-9]{8}(?:[tT][-+0-9]*)?\n?$', stem)
    name = m.group(1) if m else stem
    return name if well_formed_name(name) else ''


def netstring_hash(data: bytes):
    n = str(len(data)).encode()
    return hashlib.sha512(n + b':' + data + b';' + n).hexdigest()


def digest(obj):
    return hashlib.sha1(repr(obj).encode('utf-8', 'surrogateescape')).hexdigest()


def read_archive(path_or_bytes):
    '''
    Facts about a file as an archive (a dict of plain values).
    '''
    if isinstance(path_or_bytes, bytes):
        raw = path_or_bytes
    else:
        try:
            with open(path_or_bytes, 'rb') as f:
                raw = f.read()
        except OSError as e:
            return dict(dg='!' + type(e).__name__, zip=False, meta=False, ok=False)
    facts = dict(dg=hashlib.sha1(raw).hexdigest(), size=len(raw), zip=False, meta=False, ok=False)
    try:
        z = zipfile.ZipFile(io.BytesIO(raw))
    except Exception:
        return facts
    with z:
        facts['zip'] = True
        names = z.namelist()
        facts['names'] = names
        try:
            meta = json.loads(z.read('meta/bead').decode('utf-8'))
            manifest_raw = z.read('meta/manifest')
            facts['cid'] = netstring_hash(manifest_raw)
            if not isinstance(meta['kind'], str):
                raise ValueError(meta['kind'])
            facts['kind'] = meta['kind']
            facts['time'] = parse_timestamp(meta['freeze_time'])
            facts['time_str'] = meta['freeze_time']
            facts['name'] = meta.get('freeze_name')
            facts['version'] = meta.get('meta_version')
            inputs = []
            for nick, spec in meta['inputs'].items():
                if not (well_formed_name(nick) and isinstance(spec['kind'], str)
                        and isinstance(spec['content_id'], str)):
                    raise ValueError(nick)
                inputs.append(dict(nick=nick, kind=spec['kind'], cid=spec['content_id'],
                                   time=parse_timestamp(spec['freeze_time']), time_str=spec['freeze_time']))
            facts['inputs'] = inputs
            facts['meta'] = facts['version'] == META_VERSION
        except Exception:
            facts['meta'] = False
            return facts
        ok = facts['meta'] and all(
            k in meta for k in ('meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs'))
        tree = {'data': {}, 'code': {}}
        try:
            manifest = json.loads(manifest_raw.decode('utf-8'))
            facts['manifest'] = manifest
            if 'meta/bead' not in manifest:
                ok = False
            for n, h in manifest.items():
                if netstring_hash(z.read(n)) != h:
                    ok = False
            for n in names:
                root, _, rest = n.partition('/')
                if root in tree and '/' in n:
                    if n not in manifest:
                        ok = False
                    if rest.startswith('/') or '..' in rest.split('/'):
                        ok = False
                    tree[root][rest] = hashlib.sha1(z.read(n)).hexdigest()
        except Exception:
            ok = False
        facts['ok'] = ok
        facts['data'] = tree['data']
        facts['code'] = tree['code']
    return facts


# ------------------------------------------------------------------- trees

def _join(a, b):
    return a + '/' + b if a else b


def tree_of(root, ignore=(), dirs=False, modes=False):
    '''
    {relative path: content hash} of regular files below root (symbolic links are followed, as archives
    hold their content, except with dirs), ignore = top level names to leave out
    '''
    result = {}
    deep = 60

    def walk(rel):
        full = os.path.join(root, rel) if rel else root
        try:
            names = sorted(os.listdir(full))
        except OSError as e:
            result[_join(rel, '?')] = type(e).__name__
            return
        for n in names:
            if not rel and n in ignore:
                continue
            r = _join(rel, n)
            p = os.path.join(root, r)
            if os.path.isdir(p) and (not os.path.islink(p) or (not dirs and r.count('/') < deep)):
                if dirs:
                    result[r + '/'] = oct(os.lstat(p).st_mode) if modes else 'dir'
                walk(r)
            elif os.path.islink(p) and (dirs or not os.path.isfile(p)):
                result[r] = 'link:' + os.readlink(p)
            else:
                try:
                    if os.path.isfile(p):
                        with open(p, 'rb') as f:
                            h = hashlib.sha1(f.read()).hexdigest()
                    else:
                        h = 'special'
                except OSError as e:
                    h = type(e).__name__
                if modes:
                    h += oct(os.lstat(p).st_mode)
                result[r] = h
    if os.path.isdir(root):
        walk('')
    elif os.path.lexists(root):
        result['!'] = 'not a directory'
    else:
        result['!'] = 'absent'
    return result


def write_protected(root):
    '''No owner write permission on root and below (links not followed)'''
    for d, dirs, files in os.walk(root):
        for p in [d] + [os.path.join(d, f) for f in files]:
            st = os.lstat(p)
            if not stat.S_ISLNK(st.st_mode) and st.st_mode & stat.S_IWUSR:
                return False
    return True


def owner_writable(root, apart=()):
    for d, dirs, files in os.walk(root):
        if any(d == a or d.startswith(a + '/') for a in apart):
            continue
        for p in [d] + [os.path.join(d, f) for f in files]:
            st = os.lstat(p)
            if not stat.S_ISLNK(st.st_mode) and not st.st_mode & stat.S_IWUSR:
                return False
    return True
