#!/usr/bin/env python3
'''
Check one property:  run.py <property id> [--case engine:i ...] [--keep]

Runs the drivers of the property in worker processes (unprivileged user, source copied from /repo's
working tree, preloaded shim), checks the TLA+ models, and has TLC judge everything recorded.

exit 0: held on everything explored, 1: VIOLATION printed, 2: the machinery failed.
'''
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.dont_write_bytecode = True

import checks    # noqa: E402
import tlc       # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
NOBODY = 65534


class Machinery(Exception):
    pass


def prepare(scratch):
    '''copy of the code under test and of the harness, readable by the workers'''
    src = os.path.join(scratch, 'src')
    os.mkdir(src)
    for name in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, name)
        if os.path.isdir(p) and name in ('bead', 'bead_cli'):
            shutil.copytree(p, os.path.join(src, name), ignore=shutil.ignore_patterns('__pycache__'))
        elif name.endswith('.py'):
            shutil.copy(p, src)
    shutil.copytree(os.path.join(HERE, 'harness'), os.path.join(scratch, 'harness'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    shim = os.path.join(scratch, 'shim.so')
    r = subprocess.run(['gcc', '-O1', '-fPIC', '-shared', '-w', '-o', shim,
                        os.path.join(HERE, 'harness', 'shim.c'), '-ldl'], capture_output=True, text=True)
    if r.returncode:
        raise Machinery(r.stderr)
    for d, dirs, files in os.walk(scratch):
        os.chmod(d, 0o755)
        for f in files:
            os.chmod(os.path.join(d, f), 0o644)
    os.chmod(scratch, 0o755)
    # bytecode, once
    subprocess.run([PYTHON, '-m', 'compileall', '-q', src, os.path.join(scratch, 'harness')],
                   capture_output=True)
    work = os.path.join(scratch, 'work')
    os.mkdir(work)
    os.chmod(work, 0o777)
    return src, shim, work


def worker_env(scratch, src, shim, tier, seed):
    return dict(
        PATH='/usr/local/bin:/usr/bin:/bin:/opt/venv/bin', LC_ALL='C.UTF-8', LANG='C.UTF-8', TZ='UTC',
        PYTHONPATH=f'{src}:{scratch}/harness', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
        LD_PRELOAD=shim, HOME=os.path.join(scratch, 'work'), VERIF_SRC=src,
        TMPDIR=os.path.join(scratch, 'work'),
        VERIF_TIER=tier, VERIF_SEED=str(seed))


def start_workers(args, scratch, src, shim, work, tier, seed, n, jobs, deadline):
    ps = []
    for k in range(n):
        d = os.path.join(work, f'k{k}')
        os.mkdir(d)
        os.chmod(d, 0o777)
        spec = os.path.join(scratch, f'job{k}.json')
        with open(spec, 'w') as f:
            json.dump(dict(k=k, n=n, jobs=jobs, dir=d, out=os.path.join(d, 'out.jsonl'), deadline=deadline), f)
        os.chmod(spec, 0o644)
        cmd = [PYTHON, os.path.join(scratch, 'harness', 'worker.py'), spec]
        log = open(os.path.join(scratch, f'worker{k}.log'), 'w+')
        kw = dict(env=worker_env(scratch, src, shim, tier, seed), stdin=subprocess.DEVNULL, stdout=log,
                  stderr=subprocess.STDOUT, cwd=d, start_new_session=True)
        try:
            p = subprocess.Popen(cmd, user=NOBODY, group=NOBODY, extra_groups=[], umask=0o022, **kw)
        except (PermissionError, OSError):
            p = subprocess.Popen(cmd, umask=0o022, **kw)
        ps.append((p, d, log))
    return ps


def collect(ps, limit):
    results, stats = [], {}
    for p, d, log in ps:
        try:
            code = p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            code = 'timeout'
        log.seek(0)
        text = log.read()
        log.close()
        out = os.path.join(d, 'out.jsonl')
        if os.path.exists(out):
            with open(out) as f:
                for line in f:
                    results.append(json.loads(line))
        if code != 0:
            raise Machinery(f'worker ended with {code}\n{text[-3000:]}')
        if '--verbose' in sys.argv and text:
            print(text[-2000:], file=sys.stderr)
    return results


def known_findings(prop):
    found = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if os.path.exists(p):
        with open(p) as f:
            for k in json.load(f)['findings']:
                if k['property'] == prop:
                    found.append(k)
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--case', action='append', default=[])
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-models', action='store_true')
    args = ap.parse_args()
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    check = checks.CHECKS[args.property]
    started = time.time()
    scratch = tempfile.mkdtemp(prefix='bv-')
    ps, models = [], []
    try:
        rc = run(args, check, tier, seed, scratch, started, ps, models)
    except Machinery as e:
        print(f'ERROR: {e}', file=sys.stderr)
        rc = 2
    except tlc.TLCFailure as e:
        print(f'ERROR: {e}', file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        for p, *_ in ps:
            if p.poll() is None:
                os.killpg(p.pid, 9)
                p.wait()
        for m in models:
            if m.p.poll() is None:
                m.p.kill()
                m.p.wait()
        if args.keep:
            print('kept', scratch)
        else:
            remove(scratch)
    sys.stdout.flush()
    os._exit(rc)


def remove(path):
    assert path.startswith(tempfile.gettempdir() + '/bv-')
    for d, dirs, files in os.walk(path):
        try:
            os.chmod(d, 0o700)
        except OSError:
            pass
    shutil.rmtree(path, ignore_errors=True)


def run(args, check, tier, seed, scratch, started, ps, models):
    prop = check.id
    thorough = tier == 'thorough'
    src, shim, work = prepare(scratch)
    budget = check.budget[1 if thorough else 0]
    cores = os.cpu_count() or 2
    # behaviours generated from the specification, to be replayed
    jobs = []
    for e in check.engines:
        job = dict(engine=e.engine, profile=e.profile, count=e.count[1 if thorough else 0], name=e.name,
                   prop=prop, seed=seed)
        if e.generate:
            module, kw = e.generate
            path = os.path.join(scratch, f'gen-{e.name}.json')
            n = generate(module, kw, scratch, seed, path, thorough)
            os.chmod(path, 0o644)
            job['behaviours'] = path
            job['count'] = n
        if args.case:
            job['only'] = [int(c.split(':')[1]) for c in args.case if c.split(':')[0] == e.name]
        jobs.append(job)
    n = 1 if args.case else max(1, min(8, cores))
    ps += start_workers(args, scratch, src, shim, work, tier, seed, n, jobs, started + budget)
    # models, meanwhile
    if not args.no_models and not args.case:
        for m in check.models:
            models.append(tlc.Run(m.module, scratch, cfg=m.cfg, constants=m.constants[1 if thorough else 0],
                                  workers=cores if thorough else max(2, cores // 2), heap='10g' if thorough else '4g',
                                  name=m.name))
            models[-1].wait(budget * 2)       # one after the other: they are small
    records = collect(ps, started + budget * 2 + 200)
    if not records:
        raise Machinery('nothing was explored')
    if args.case and args.keep:
        with open('/tmp/records.json', 'w') as f:
            json.dump(records, f)
    # judging
    violations, judged_states, counts = [], 0, {}
    by_module = {}
    for r in records:
        if r.get('crash'):
            violations.append(dict(record=r, clauses=[f'crash:{r["crash"]["type"]}'], where=None))
            continue
        by_module.setdefault(r['judge'], []).append(r)
    for module, rs in sorted(by_module.items()):
        verdicts, states, secs = tlc.judge(module, scratch, [r['data'] for r in rs],
                                           chunks=max(1, min(cores // 2, len(rs) // 20)), workers=2)
        judged_states += states
        counts[module] = dict(judged=len(rs), states=states, seconds=round(secs, 1))
        for v in verdicts:
            tag, i, rest = v[0], v[1], v[2:]
            where, clauses = rest[0], rest[1]
            mine = checks.relevant(check, rs[i], tag, where, clauses)
            if mine:
                violations.append(dict(record=rs[i], where=where, tag=tag, clauses=mine))
            if args.verbose or args.case:
                print('verdict', module, rs[i]['name'], rs[i]['case'], tag, where, clauses, '->', mine, rs[i].get('label', ''))
                story = rs[i].get('story')
                if isinstance(story, list) and isinstance(where, int):
                    for k in range(max(0, where - (200 if args.case else 1)), min(where, len(story))):
                        print('    ', k + 1, json.dumps(story[k])[:900])
    for m in models:
        if not m.clean:
            name = m.violated()
            raise Machinery(f'model {m.name} does not satisfy {name}\n{m.tail(80)}')
    findings = known_findings(prop)
    reported = []
    for v in violations:
        k = next((k for k in findings if checks.matches(k, v)), None)
        v['known'] = k
        if not k:
            reported.append(v)
    for k in findings:
        if any(v['known'] is k for v in violations):
            print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    evidence(check, tier, seed, records, models, judged_states, counts, reported, started)
    if reported:
        path = os.path.join(HERE, 'evidence', f'replay-{prop}.json')
        show = []
        for v in reported[:10]:
            r = v['record']
            show.append(dict(
                rerun=f'VERIF_SEED={seed} VERIF_TIER={tier} python3 run.py {prop} --case {r["name"]}:{r["case"]}',
                clauses=v['clauses'], step=v.get('where'), tag=v.get('tag'), crash=r.get('crash'),
                what=checks.describe(v), story=r.get('story')))
        with open(path, 'w') as f:
            json.dump(show, f, indent=1)
        for v in reported[:5]:
            print(f'  {v["record"]["name"]}:{v["record"]["case"]} {checks.describe(v)}')
        print(f'VIOLATION property={prop} replay={os.path.relpath(path, HERE)}')
        return 1
    print(f'{prop}: held on {len(records)} recorded behaviours ({judged_states} judged states), '
          f'{sum(m.distinct for m in models)} model states, {time.time() - started:.0f} s')
    return 0


def generate(module, kw, scratch, seed, path, thorough):
    r = tlc.Run(module, scratch, cfg=kw.get('cfg'), constants=kw.get('constants'), workers=1, name='gen-' + module,
                extra=['-simulate', f'num={kw["num"][1 if thorough else 0]}', '-depth', str(kw['depth']), '-seed', str(seed)])
    r.wait(300)
    behaviours, seen = [], set()
    for v in r.verdicts():
        if v[0] == '@@B' and json.dumps(v[2][:-1]) not in seen:     # (TLC evaluates siblings of the last step)
            seen.add(json.dumps(v[2][:-1]))
            behaviours.append(v[1:])
    if not behaviours:
        raise Machinery('no behaviours generated\n' + r.tail())
    with open(path, 'w') as f:
        json.dump(behaviours, f)
    return len(behaviours)


def evidence(check, tier, seed, records, models, judged_states, counts, reported, started):
    stats = {}
    distinct = set()
    for r in records:
        for k, v in (r.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        if r.get('key') is not None:
            distinct.add(json.dumps(r['key'], sort_keys=True))
    samples = []
    for r in records:
        if r.get('story') and len(samples) < 2 and not r.get('crash'):
            samples.append(dict(engine=r['name'], case=r['case'], story=brief(r['story'])))
    states = sum(m.distinct for m in models) + judged_states
    transitions = sum(m.generated for m in models) + judged_states
    cov = dict(
        states=states, transitions=transitions,
        traces_validated_against_impl=len(records),
        samples=samples,
        models=[dict(name=m.name, distinct=m.distinct, generated=m.generated, seconds=round(m.seconds, 1)) for m in models],
        judges=counts, implementation=stats,
        distinct_behaviours=len(distinct),
        evaluations=sum(stats.values()) if check.level != 'model_checking' else len(records),
        distinct_nontrivial=len(distinct), rule=check.rule)
    ev = dict(property=check.id, tier=tier, seed=seed, level=check.level, coverage=cov,
              assumptions=check.assumptions, wall_s=round(time.time() - started, 2), violations=len(reported))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{check.id}.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def brief(story):
    text = json.dumps(story)
    return story if len(text) < 3000 else text[:3000] + ' ...'


main()
