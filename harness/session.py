'''
A world in which commands are executed and recorded.
'''
import os
import re
import shutil
import zipfile

import facts
from record import Recorder, components
from world import World, LATEST, INDEX, COUNT, KILL_BEFORE, KILL_AFTER, TORN, ERROR, ERROR_FROM, SIGINT


FAULTS = {KILL_BEFORE: 'kill', KILL_AFTER: 'kill', TORN: 'kill', ERROR: 'error', ERROR_FROM: 'error', SIGINT: 'int', COUNT: ''}


class Session:
    def __init__(self, root, **kw):
        self.world = World(root, **kw)
        self.rec = Recorder(self.world)
        self.tick = 1_000_000
        self.rec.start(self.world.snapshot())
        self.kw = {}       # fault, ... of the next command

    # ------------------------------------------------------------ helpers
    @property
    def state(self):
        return self.rec.last

    def _do(self, cmd, argv, cwd=None, **kw):
        w = self.world
        if cwd is not None:
            cmd['cwd'] = components(os.path.realpath(cwd))
        else:
            cmd['cwd'] = components(w.cwd)
        argv = [str(a) for a in argv]
        kw = {**self.kw, **kw}
        cmd['faultop'] = kw.pop('faultop', '')
        if kw.get('fault'):
            cmd['fault'] = FAULTS[kw['fault'][0]]
        r = w.run(*argv, cwd=cwd, **kw)
        for n in os.listdir(cwd or w.cwd) if os.path.isdir(cwd or w.cwd) else ():
            if re.fullmatch(r'error_[0-9T+-]+\.txt', n):       # crash report
                with open(os.path.join(cwd or w.cwd, n)) as f:
                    r.err += f.read()[-1500:]
                os.unlink(os.path.join(cwd or w.cwd, n))
                r.crashed = True
        post = w.snapshot()
        self.rec.step(cmd, r.status, post, argv, r)
        w.now += self.tick
        return r

    def env(self):
        '''the environment has done something'''
        post = self.world.snapshot()
        self.rec.step(dict(op='env'), 'ok', post)

    def _ws_args(self, ws, cwd):
        return [] if cwd is not None and ws == '' else ['-w', self.world.wss[ws]]

    def time_arg(self, t):
        return [] if t == LATEST else ['-t', facts.timestamp(t)]

    def ref(self, ref, t=LATEST):
        '''ref: name, or ('file', path)'''
        if isinstance(ref, tuple):
            path = ref[1]
            n = os.path.basename(path)
            x = dict(f=n, ext=True, bn=facts.bead_name(n), a=facts.read_archive(path))
            return dict(reft='file', file=x, ref='', t=t), [path]
        return dict(reft='name', ref=ref, t=t), [ref]

    # ------------------------------------------------------------ commands
    def new(self, ws):
        return self._do(dict(op='new', ws=ws), ['new', self.world.wss[ws]])

    def write(self, ws, rel, content):
        self.world.write(ws, rel, content)

    def save(self, ws, box='', cwd=None, **kw):
        return self._do(dict(op='save', ws=ws, box=box),
                        ['save'] + ([box] if box else []) + self._ws_args(ws, cwd), cwd=cwd, **kw)

    def edit(self, ref, ws='', t=LATEST, review=False, **kw):
        c, a = self.ref(ref, t)
        argv = ['edit'] + a
        cwd = None
        if ws:
            argv.append(self.world.wss[ws])
        else:
            cwd = self.world.wsroot
        argv += self.time_arg(t)
        if review:
            argv.append('--review')
        return self._do(dict(op='edit', ws=ws, review=review, **c), argv, cwd=cwd, **kw)

    def discard(self, ws, force=False, cwd=None, **kw):
        return self._do(dict(op='discard', ws=ws, force=force),
                        ['discard'] + (['-f'] if force else []) + ([self.world.wss[ws]] if ws else []), cwd=cwd, **kw)

    def add(self, ws, nick, ref=None, t=LATEST, cwd=None, **kw):
        c, a = self.ref(nick if ref is None else ref, t)
        return self._do(dict(op='add', ws=ws, nick=nick, nickok=facts.well_formed_name(nick), **c),
                        ['input', 'add', nick] + ([] if ref is None else a) + self.time_arg(t)
                        + self._ws_args(ws, cwd), cwd=cwd, **kw)

    def update(self, ws, nick='', ref=None, t=LATEST, off=0, cwd=None, **kw):
        c, a = dict(reft='none', t=t), []
        if ref is not None:
            c, a = self.ref(ref, t)
        argv = ['input', 'update'] + ([nick] if nick else []) + a + self.time_arg(t)
        argv += {0: [], 1: ['--next'], -1: ['--prev']}[off]
        return self._do(dict(op='update', ws=ws, nick=nick, off=off, **c),
                        argv + self._ws_args(ws, cwd), cwd=cwd, **kw)

    def _input(self, op, ws, nick, cwd, kw):
        return self._do(dict(op=op, ws=ws, nick=nick),
                        ['input', op] + ([nick] if nick else []) + self._ws_args(ws, cwd), cwd=cwd, **kw)

    def load(self, ws, nick='', cwd=None, **kw):
        return self._input('load', ws, nick, cwd, kw)

    def unload(self, ws, nick='', cwd=None, **kw):
        return self._input('unload', ws, nick, cwd, kw)

    def delete(self, ws, nick, cwd=None, **kw):
        return self._input('delete', ws, nick, cwd, kw)

    def box_add(self, name, loc, path=None, **kw):
        return self._do(dict(op='boxadd', box=name, loc=loc),
                        ['box', 'add', name, path or self.world.locs.get(loc) or self.world.path('nowhere')], **kw)

    def forget(self, name, **kw):
        return self._do(dict(op='forget', box=name), ['box', 'forget', name], **kw)

    def index(self, op='index', sel='default', box='', loc='', **kw):
        argv = ['box', op]
        if sel == 'one':
            argv += ['--box', box]
        elif sel == 'dir':
            argv += ['--dir', self.world.locs.get(loc) or self.world.path('nowhere')]
        elif sel == 'all':
            argv += ['--all']
        return self._do(dict(op=op, sel=sel, box=box, loc=loc), argv, **kw)

    def status(self, ws, verbose=False, cwd=None, **kw):
        return self._do(dict(op='status', ws=ws, verbose=verbose), ['status'] + (['-v'] if verbose else []) + self._ws_args(ws, cwd),
                        cwd=cwd, **kw)

    def box_list(self, **kw):
        return self._do(dict(op='list'), ['box', 'list'], **kw)

    def version(self, **kw):
        return self._do(dict(op='version'), ['version'], **kw)

    def web(self, *words, **kw):
        return self._do(dict(op='web'), ['web'] + list(words), **kw)

    def bogus(self, *argv, cwd=None, **kw):
        return self._do(dict(op='bogus'), argv, cwd=cwd, **kw)

    # ------------------------------------------------------------ conveniences
    def box_files(self, loc, good=True):
        return [x for x in self.state['box'][loc]['files'] if not good or (x['a']['meta'] and x['a']['ok'])]

    def file_path(self, loc, f):
        return os.path.join(self.world.locs[loc], f)

    def finish(self, keep=False):
        trace = self.rec.encode()
        story = self.rec.story()
        self.world.destroy()
        return trace, story
