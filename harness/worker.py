'''
Runs the cases of drivers assigned to this worker, writing what was recorded as JSON lines.
'''
import importlib
import json
import os
import random
import shutil
import sys
import time
import traceback

start = time.time()
SRC = os.path.realpath(os.environ['VERIF_SRC'])


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
    sys.setrecursionlimit(20000)
    out = open(spec['out'], 'w')
    for job in spec['jobs']:
        engine = importlib.import_module('engines.' + job['engine'])
        cases = engine.cases(job)
        only = job.get('only')
        for i in (only if only is not None else range(spec['k'], cases, spec['n'])):
            if time.time() > spec['deadline'] and only is None:
                break
            scratch = os.path.join(spec['dir'], f'{job["name"]}-{i}')
            os.mkdir(scratch)
            cwd = os.getcwd()
            rng = random.Random(f'{job["seed"]}/{job["name"]}/{i}')
            base = dict(name=job['name'], case=i)
            try:
                for r in engine.run_case(job, i, rng, scratch):
                    out.write(json.dumps({**base, **r}) + '\n')
            except Exception as e:
                crash = of_code_under_test(e)
                if crash is None:
                    print(f'case {job["name"]}:{i}')
                    raise
                out.write(json.dumps({**base, 'crash': crash, 'judge': None}) + '\n')
            finally:
                os.chdir(cwd)
            clean(scratch)
            out.flush()
    out.close()


def of_code_under_test(e):
    '''an exception which escaped from the code under test'''
    text = traceback.format_exc()
    if type(e).__name__ == 'CommandRefused':
        return dict(type='refused', text=text[-3000:])
    frames = traceback.extract_tb(e.__traceback__)
    mine = os.path.dirname(os.path.abspath(__file__))
    for f in reversed(frames):
        p = os.path.realpath(f.filename)
        if p.startswith(SRC + '/'):
            return dict(type=type(e).__name__, text=text[-3000:])
        if p.startswith(mine + '/'):
            return None
    return None


def clean(path):
    for _ in range(2):
        for d, dirs, fs in os.walk(path):
            try:
                os.chmod(d, 0o700)
            except OSError:
                pass
    shutil.rmtree(path, ignore_errors=True)


main()
