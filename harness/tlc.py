'''Running TLC.'''
import json
import os
import re
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCFailure(Exception):
    pass


def command(module, cfg, metadir, workers=1, extra=(), heap='3g'):
    return ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', f'-Djava.io.tmpdir={metadir}', '-cp', CP, 'tlc2.TLC',
            '-metadir', os.path.join(metadir, 'states'), '-noGenerateSpecTE', '-workers', str(workers),
            '-config', cfg, *extra, module + '.tla']


class Run:
    def __init__(self, module, scratch, cfg=None, env=None, workers=1, extra=(), heap='3g', constants=None, name=None):
        self.module = module
        self.name = name or cfg or module
        self.dir = tempfile.mkdtemp(prefix='tlc-', dir=scratch)
        cfg_path = os.path.join(SPEC, cfg or module + '.cfg')
        if constants:
            text = open(cfg_path).read()
            for k, v in constants.items():
                text = re.sub(rf'(?m)^(\s*(?:CONSTANT\w*\s+)?{k}\s*(?:=|<-)).*$', lambda m: f'{m.group(1)} {v}', text)
            cfg_path = os.path.join(self.dir, 'run.cfg')
            with open(cfg_path, 'w') as f:
                f.write(text)
        self.out_path = os.path.join(self.dir, 'out')
        self.started = time.time()
        with open(self.out_path, 'w') as out:
            self.p = subprocess.Popen(
                command(module, cfg_path, self.dir, workers, extra, heap), cwd=SPEC,
                stdout=out, stderr=subprocess.STDOUT, env={**os.environ, **(env or {})})

    def wait(self, timeout=None):
        try:
            self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.seconds = time.time() - self.started
        with open(self.out_path, errors='replace') as f:
            self.out = f.read()
        m = re.findall(r'([\d,]+) states generated(?:[^,]*), ([\d,]+) distinct states', self.out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        return self

    @property
    def clean(self):
        return self.p.returncode == 0

    def tail(self, n=40):
        lines = [x for x in self.out.split('\n') if x and not x.startswith(('Parsing', 'Semantic', 'Linting'))]
        return '\n'.join(lines[-n:])

    def violated(self):
        m = re.search(r'(?:Invariant|Action property|property) (\S+) (?:is|was) violated', self.out)
        return m.group(1) if m else None

    def verdicts(self):
        '''lines printed with PrintT(<<"@@X", ...>>): [(tag, values...)]'''
        return [parse_tuple(x) for x in joined(self.out) if x.startswith('<<"@@') or x.startswith('<< "@@')]


def joined(out):
    '''TLC breaks long values into several lines'''
    current = None
    for line in out.split('\n'):
        if current is None:
            if line.startswith('<<"@@') or line.startswith('<< "@@'):
                current = line
            else:
                continue
        else:
            current += ' ' + line.strip()
        if current.count('<<') == current.count('>>'):
            yield current
            current = None


def parse_tuple(text):
    '''<<"a", 1, <<"b">>, TRUE>> -> nested lists'''
    text = text.strip()
    pos = 0

    def skip():
        nonlocal pos
        while pos < len(text) and text[pos] in ' \n,':
            pos += 1

    def value():
        nonlocal pos
        skip()
        if text.startswith('<<', pos) or text[pos] == '{':
            close = '>>' if text.startswith('<<', pos) else '}'
            pos += 2 if close == '>>' else 1
            items = []
            skip()
            while not text.startswith(close, pos):
                items.append(value())
                skip()
            pos += len(close)
            return items
        if text[pos] == '"':
            end = pos + 1
            s = ''
            while text[end] != '"':
                if text[end] == '\\':
                    end += 1
                s += text[end]
                end += 1
            pos = end + 1
            return s
        m = re.compile(r'-?\d+|TRUE|FALSE|\w+').match(text, pos)
        pos = m.end()
        w = m.group(0)
        return {'TRUE': True, 'FALSE': False}.get(w, int(w) if re.fullmatch(r'-?\d+', w) else w)
    return value()


def judge(module, scratch, data, chunks=1, workers=2, cfg=None, timeout=800, heap='3g', env=None):
    '''
    Judge list of recorded things, returns (verdicts, total states, seconds):
    verdicts are [tag, index into data, ...]
    '''
    if not data:
        return [], 0, 0
    n = max(1, min(chunks, len(data)))
    runs = []
    for k in range(n):
        part = list(range(k, len(data), n))
        fd, path = tempfile.mkstemp(prefix='judge-', suffix='.json', dir=scratch)
        with os.fdopen(fd, 'w') as f:
            json.dump([data[i] for i in part], f)
        runs.append((part, Run(module, scratch, cfg=cfg, env={'TRACE': path, **(env or {})}, workers=workers, heap=heap)))
    result, states, seconds = [], 0, 0
    for part, r in runs:
        r.wait(timeout)
        if not r.clean:
            raise TLCFailure(f'{module}: exit {r.p.returncode}\n{r.tail(60)}')
        states += r.distinct
        seconds = max(seconds, r.seconds)
        for v in r.verdicts():
            result.append([v[0], part[v[1] - 1]] + v[2:])
    return result, states, seconds
