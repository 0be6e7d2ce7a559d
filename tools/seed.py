"""Planted bugs: seed.py make SPEC.py [ID...] writes seeded/<id> from a list of specs;
seed.py verify ID... applies each to /repo, builds, tests, demonstrates and runs its check."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
BASE = '6f8ebbc'
REPO = os.environ.get('PARADIGM_REPO', '/repo')


def run(*args, timeout=900, **kwargs):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, **kwargs)


def clean():
    run('git', '-C', REPO, 'checkout', '--', '.')


def make(spec):
    target = os.path.join(SEEDED, spec['id'])
    os.makedirs(target, exist_ok=True)
    assert not run('git', '-C', REPO, 'status', '--porcelain').stdout, 'repo not clean'
    original_lines = True
    for path, old, new in spec['edits']:
        full = os.path.join(REPO, path)
        text = open(full).read()
        assert text.count(old) == 1, (spec['id'], path, text.count(old))
        open(full, 'w').write(text.replace(old, new))
    patch = run('git', '-C', REPO, 'diff').stdout
    clean()
    for path in {path for path, _, _ in spec['edits']}:
        blame = run('git', '-C', REPO, 'blame', '-s', '-l', path).stdout.splitlines()
        full = open(os.path.join(REPO, path)).read()
        number = None
        for line in patch.split(f'--- a/{path}\n')[1].splitlines():
            if line.startswith('diff '):
                break
            found = re.match(r'@@ -(\d+)', line)
            if found:
                number = int(found[1])
            elif number is not None and not line.startswith('+'):
                if line.startswith('-'):
                    commit = blame[number - 1].split()[0].lstrip('^')
                    if not run('git', '-C', REPO, 'merge-base', '--is-ancestor', commit,
                               BASE).returncode == 0:
                        original_lines = False
                        print('  not original:', line)
                number += 1
    if original_lines is False:
        print(spec['id'], 'touches lines of fix commits')
    open(os.path.join(target, 'patch.diff'), 'w').write(patch)
    open(os.path.join(target, 'demo.py'), 'w').write(spec['demo'].lstrip('\n'))
    open(os.path.join(target, 'demo.sh'), 'w').write(
        '#!/bin/sh\n'
        'PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore '
        '"$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(target, 'demo.sh'), 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'],
               'what_it_breaks': spec['breaks']},
              open(os.path.join(target, 'meta.json'), 'w'), indent=1)


def build():
    if REPO == '/repo':
        return run('bash', '/opt/vp/build.sh')
    return run('bash', '-c', 'cd ' + REPO + ' && rm -f paradigm/_core/_mypy_*.py && '
               '/opt/venv/bin/python -W ignore -c "import paradigm.base"')


def demo(key):
    with tempfile.TemporaryDirectory() as scratch:
        copy = os.path.join(scratch, 'd')
        os.mkdir(copy)
        for name in os.listdir(os.path.join(SEEDED, key)):
            if not name.endswith(('.diff', '.patch', 'meta.json')):
                run('cp', '-a', os.path.join(SEEDED, key, name), copy)
        return run('sh', os.path.join(copy, 'demo.sh'), cwd=REPO, timeout=300)


def verify(key, tests=True):
    assert not run('git', '-C', REPO, 'status', '--porcelain').stdout, 'repo not clean'
    meta = json.load(open(os.path.join(SEEDED, key, 'meta.json')))
    line = [key, meta['property']]
    try:
        applied = run('git', '-C', REPO, 'apply', os.path.join(SEEDED, key, 'patch.diff'))
        assert applied.returncode == 0, applied.stdout
        if tests:
            with tempfile.TemporaryDirectory() as scratch:
                out = os.path.join(scratch, 'o.json')
                run('bash', '/opt/vp/test.sh', out)
                result = json.load(open(out))
            stable = json.load(open('/opt/vp/BASELINE.json'))
            stable = stable.get('stable', stable.get('passed', stable))
            passed = set(result.get('passed', []))
            missing = [name for name in stable if name not in passed]
            line.append('tests ' + ('ok' if not missing else f'BROKEN {missing[:3]}'))
        else:
            built = build()
            line.append('build ' + ('ok' if not built.returncode else 'FAILED'))
        shown = demo(key)
        line.append('demo ' + ('fails(ok)' if shown.returncode else 'PASSES(BAD)'))
        started = time.time()
        checked = run(os.path.join(HERE, 'check'), meta['property'], '--tier', 'quick', cwd=HERE)
        caught = checked.returncode == 1 and f'VIOLATION property={meta["property"]}' in checked.stdout
        line.append(('CAUGHT' if caught else f'MISSED rc={checked.returncode}')
                    + f' {time.time() - started:.0f}s')
        if not caught:
            line.append(checked.stdout[-400:])
    finally:
        clean()
    return line


def main():
    command, *rest = sys.argv[1:]
    if command == 'make':
        namespace = {}
        exec(open(rest[0]).read(), namespace)
        for spec in namespace['SPECS']:
            if len(rest) == 1 or spec['id'] in rest[1:]:
                make(spec)
                print('made', spec['id'])
    else:
        keys = [key for key in rest if not key.startswith('-')] or sorted(os.listdir(SEEDED))
        for key in keys:
            print(*verify(key, '--no-tests' not in rest), sep=' | ', flush=True)
        build()
        for key in keys:
            shown = demo(key)
            if shown.returncode:
                print(key, 'demo FAILS on the unchanged tree', shown.stdout[-600:])


main()
