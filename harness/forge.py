'''
Making archives and web files without the tool.
'''
import io
import json
import zipfile

import facts


def archive(name='b', kind='k', time='20200101T000000000000+0000', inputs=(), data=None, code=None, meta=None, extra=(),
            compression=zipfile.ZIP_DEFLATED, order=None, manifest=None, raw_meta=None, comment=b'', directories=()):
    '''
    bytes of an archive.

    inputs: [(nick, kind, content id, time string)]; meta: changes of the metadata (None removes a key);
    manifest: function changing the manifest; extra: [(entry, bytes)] not in the manifest
    '''
    m = {'meta_version': facts.META_VERSION, 'kind': kind, 'freeze_time': time, 'freeze_name': name,
         'inputs': {n: {'kind': k, 'content_id': c, 'freeze_time': t} for n, k, c, t in inputs}}
    for key, v in (meta or {}).items():
        if v is None:
            m.pop(key, None)
        else:
            m[key] = v
    entries = [('data/' + n, b if isinstance(b, bytes) else b.encode()) for n, b in (data or {}).items()]
    entries += [('code/' + n, b if isinstance(b, bytes) else b.encode()) for n, b in (code or {}).items()]
    entries.append(('meta/bead', raw_meta if raw_meta is not None else json.dumps(m, indent=4, sort_keys=True).encode()))
    hashes = {n: facts.netstring_hash(b) for n, b in entries}
    if manifest:
        hashes = manifest(hashes)
    if hashes is not None:
        entries.append(('meta/manifest', hashes if isinstance(hashes, bytes) else json.dumps(hashes, indent=4, sort_keys=True).encode()))
    entries += list(extra)
    if order:
        order(entries)
    out = io.BytesIO()
    with zipfile.ZipFile(out, 'w', compression) as z:
        z.comment = comment
        for d in directories:
            z.writestr(zipfile.ZipInfo(d), b'')
        for n, b in entries:
            z.writestr(zipfile.ZipInfo(n), b, compress_type=compression)
    return out.getvalue()


def content_id(raw):
    with zipfile.ZipFile(io.BytesIO(raw)) as z:
        return facts.netstring_hash(z.read('meta/manifest'))


# ------------------------------------------------------------------ web files
def web_bead(name, cid, kind, time, inputs=(), freshness='SUPERSEDED', box=''):
    return {'@encoding': 'attrs', '@class': 'Dummy', 'name': name, 'content_id': cid, 'kind': kind, 'freeze_time_str': time,
            'inputs': [{'@encoding': 'attrs', '@class': 'InputSpec', 'name': n, 'kind': k, 'content_id': c, 'freeze_time_str': t}
                       for n, k, c, t in inputs],
            'freshness': {'@encoding': 'enum', '@class': 'Freshness', 'value': freshness}, 'box_name': box}


def read_web(path):
    '''[{name, cid, kind, time_str, fresh, inputs: [(nick, kind, cid, time_str)], box}]'''
    with open(path) as f:
        beads = json.load(f)
    return [dict(name=b['name'], cid=b['content_id'], kind=b['kind'], time=b['freeze_time_str'],
                 fresh=b['freshness']['value'], box=b['box_name'],
                 inputs=[(i['name'], i['kind'], i['content_id'], i['freeze_time_str']) for i in b['inputs']])
            for b in beads]
