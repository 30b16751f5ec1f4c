"""Development tool: plant a bug described in a spec file, confirm it, keep it in seeded/<id>/.

usage: plant.py SPEC.py [ID ...]     plant (or replant) the bugs of a spec file
       plant.py --check ID [CHECK ...]   run checks (default: the bug's property) against a kept bug

A spec file defines BUGS, a list of dict(id, prop, edits=[(file, old, new)], demo, needs, breaks).
Scratch copies live in /tmp/sw and are removed. No registered check uses this file.
"""
import json, os, shutil, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYEXE = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# run with cwd = root of the repository, after the build
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           SETUPTOOLS_SCM_PRETEND_VERSION='0.2.5')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch(bid):
    d = f'/tmp/sw/{bid}'
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs('/tmp/sw', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    return d


def build(d, cpp):
    if cpp:
        r = run([PYEXE, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], d)
        if r.returncode:
            return r.stdout[-2000:]
    return ''


def tests(d):
    r = run([PYEXE, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-rA', 'riptide/tests'], d)
    passed = set()
    for line in r.stdout.splitlines():
        m = re.match(r'PASSED (\S+)', line)
        if m:
            passed.add(m.group(1))
    bad = [s for s in STABLE if not any(p.split('::')[-1] == s.split('::')[-1] and True for p in passed)]
    return bad, r.stdout[-1500:]


def plant(bug):
    bid = bug['id']
    d = scratch(bid)
    try:
        cpp = False
        for f, old, new in bug['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bid, f'edit: {s.count(old)} matches in {f}: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
            cpp |= f.endswith(('.hpp', '.cpp'))
        patch = subprocess.run(['git', '-C', d, 'diff'], stdout=subprocess.PIPE, text=True).stdout
        err = build(d, cpp)
        if err:
            return bid, 'build: ' + err
        bad, out = tests(d)
        if bad:
            return bid, f'tests fail: {bad}\n' + out[-600:]
        tgt = os.path.join(HERE, 'seeded', bid)
        stage = f'/tmp/sw/{bid}.demo'
        os.makedirs(stage, exist_ok=True)
        open(stage + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(stage + '/demo.sh', 0o755)
        open(stage + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        a = run(['bash', stage + '/demo.sh'], d, timeout=250)
        b = run(['bash', stage + '/demo.sh'], '/repo', timeout=250)
        if b.returncode != 0:
            return bid, 'demo fails on the clean tree:\n' + b.stdout[-1500:]
        if a.returncode == 0:
            return bid, 'demo passes on the changed tree:\n' + a.stdout[-1500:]
        os.makedirs(tgt, exist_ok=True)
        for n in ('demo.sh', 'demo.py'):
            shutil.copy(f'{stage}/{n}', tgt)
        open(tgt + '/patch.diff', 'w').write(patch)
        json.dump({'property': bug['prop'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(tgt + '/meta.json', 'w'), indent=1)
        shutil.rmtree(stage)
        r = check(bid, [bug['prop']], d)
        return bid, 'kept; demo: ' + a.stdout.strip().splitlines()[-1][:150] + '\n    ' + r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(bid, props, d=None):
    own = d is None
    if own:
        d = scratch(bid)
        subprocess.check_call(['git', '-C', d, 'apply', f'{HERE}/seeded/{bid}/patch.diff'])
    res = []
    try:
        for p in props:
            r = subprocess.run([PYEXE, 'run.py', p, '--tier', 'quick'], cwd=HERE,
                               env=dict(ENV, VERIF_REPO=d, VERIF_EVIDENCE=f'/tmp/sw/ev.{bid}', VERIF_SEED='1'),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append(f'{p}: rc={r.returncode} {"CAUGHT " + v[0][:110] if v else "missed " + r.stdout[-300:]}')
    finally:
        if own:
            shutil.rmtree(d, ignore_errors=True)
    return '; '.join(res)


if __name__ == '__main__':
    if sys.argv[1] == '--check':
        print(check(sys.argv[2], sys.argv[3:] or [json.load(open(f'{HERE}/seeded/{sys.argv[2]}/meta.json'))['property']]))
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        want = sys.argv[2:]
        bugs = [b for b in ns['BUGS'] if not want or b['id'] in want]
        with ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
            for bid, msg in ex.map(plant, bugs):
                print(f'== {bid}: {msg}', flush=True)
