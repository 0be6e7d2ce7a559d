"""Decides one property: python -m sx.run PROPERTY [--tier quick|thorough] [--replay FILE]."""
import argparse
import hashlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import time
import traceback

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PER_CASE_SAMPLES = {'quick': 3, 'thorough': 6}
# paths take milliseconds; code that computes for this long (or takes this much) is given up
SYMBOLIC_SECONDS, CONCRETE_SECONDS, MEMORY = 40, 20, 4 << 30


def _setup(root, instrumented):
    sys.setrecursionlimit(10000)
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    from sx import instrument, registry
    instrument.install(root, instrumented)
    registry.load()


def _jsonable(value):
    return repr(value)[:300]


class Hang(BaseException):
    """The code does not come to an end."""


def _on_alarm(*_):
    raise Hang


def watch(seconds):
    """Interrupts the process when it computes for longer than that (0: never)."""
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def explore_case(task):
    from sx import engine as en, instrument, registry
    prop, name, params, deadline, seed, samples_count = task
    harness = registry.HARNESSES[prop][name]
    rng = random.Random(f'{seed}/{prop}/{name}/{params}')
    engine = en.SymEngine(deadline=deadline)
    instrument.entered.clear()
    samples, seen = [], [0]

    def on_path(e):
        seen[0] += 1
        if e.path_checks == 0:
            e.stats['vacuous'] = e.stats.get('vacuous', 0) + 1
        if len(samples) < samples_count:
            samples.append(e.assignment())
        else:
            index = rng.randrange(seen[0])
            if index < samples_count:
                samples[index] = e.assignment()

    def one_path(e):
        watch(SYMBOLIC_SECONDS)
        try:
            harness.run(e, params)
        finally:
            watch(0)

    begin = time.monotonic()
    error = suspect = None
    try:
        engine.explore(one_path, on_path)
    except Hang:
        engine.mark_incomplete('a path takes too long')
        if engine.model is not None:
            suspect = engine.assignment()
    except (en.HarnessError, en.NonDeterminism) as exc:
        error = f'{type(exc).__name__}: {exc}\n' + traceback.format_exc()[-1500:]
    except Exception:
        error = traceback.format_exc()[-3000:]
    if any(reason == 'limit: branches' for reason in engine.incomplete):
        suspect = engine.assignment()
    return {'suspect': suspect, 'harness': name, 'params': params, 'stats': engine.stats,
            'incomplete': engine.incomplete, 'exhausted': engine.exhausted,
            'cexes': engine.cexes, 'samples': samples, 'error': error,
            'functions': sorted({instrument.FUNCTIONS[i][0] for i in instrument.entered}),
            'unsupported': [m for f, m in instrument.FUNCTIONS if f.startswith('?')],
            'wall': time.monotonic() - begin}


def replay_case(task):
    from sx import engine as en, registry
    prop, name, params, assignment = task
    harness = registry.HARNESSES[prop][name]
    engine = en.ConcEngine(assignment)
    mismatch = None
    try:
        watch(CONCRETE_SECONDS)
        engine.run(lambda e: harness.run(e, params))
    except Hang:
        engine.failures.append(f'the code computes for more than {CONCRETE_SECONDS} s')
    except en.ReplayMismatch as error:
        mismatch = f'took another path: {error}'
    except en.HarnessError as error:
        mismatch = f'{type(error).__name__}: {error}'
    finally:
        watch(0)
    return {'failures': engine.failures, 'aborted': engine.aborted, 'mismatch': mismatch,
            'checks': engine.checks,
            'inputs': [[tag, _jsonable(value)] for tag, value in engine.log]}


class Workers:
    """Persistent worker processes holding the package instrumented, or as it is."""

    def __init__(self, root, count, instrumented):
        context = multiprocessing.get_context('fork')
        self.pool = context.Pool(count, _setup, (root, instrumented))

    def map(self, function, tasks):
        return self.pool.imap_unordered(function, tasks)

    def close(self):
        self.pool.terminate()
        self.pool.join()


def known_findings(prop):
    result = []
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as file:
            for line in file:
                if line.startswith('{'):
                    entry = json.loads(line)
                    if entry['property'] == prop and entry['status'] == 'known':
                        result.append(entry)
    except FileNotFoundError:
        pass
    return result


def match_finding(entries, harness, message, inputs):
    values = dict(inputs)
    for entry in entries:
        if (entry['harness'] == harness and message.startswith(entry['message'])
                and all(values.get(k) == v for k, v in entry.get('inputs', {}).items())):
            return entry
    return None


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?')
    parser.add_argument('--setup', action='store_true')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    parser.add_argument('--replay')
    parser.add_argument('--only', help='restrict to one harness (development)')
    parser.add_argument('-v', action='store_true')
    options = parser.parse_args()
    if options.setup:
        return setup()
    tier = options.tier if options.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    begin = time.monotonic()
    from sx import instrument
    import z3
    root = instrument.copy_package()
    try:
        return decide(options, tier, seed, begin, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def setup():
    """Nothing is built ahead of a check; this only tells whether the tools are there."""
    import z3
    from sx import registry
    registry.load()
    print('z3', z3.get_version_string(), 'python', sys.version.split()[0],
          'harnesses', sum(map(len, registry.HARNESSES.values())))
    return 0


def decide(options, tier, seed, begin, root):
    prop = options.property
    jobs = max(2, min(os.cpu_count() or 2, 8))
    from sx import registry
    registry.load()
    harnesses = registry.HARNESSES[prop]
    if options.replay:
        with open(options.replay) as file:
            record = json.load(file)
        workers = Workers(root, 1, False)
        try:
            result, = workers.map(replay_case, [(prop, record['harness'], _tuples(record['params']),
                                                 record['assignment'])])
        finally:
            workers.close()
        print(json.dumps(result, indent=1))
        return 1 if result['failures'] else 0
    budget = 780 if tier == 'quick' else 6 * 3600
    deadline = time.monotonic() + budget
    tasks = []
    for name, harness in harnesses.items():
        if options.only and name != options.only:
            continue
        for params in harness.cases(tier):
            weight = harness.weight(params) if harness.weight else 0
            tasks.append((weight, (prop, name, params, deadline, seed, PER_CASE_SAMPLES[tier])))
    tasks.sort(key=lambda entry: -entry[0])
    symbolic = Workers(root, jobs, True)
    results = []
    try:
        for result in symbolic.map(explore_case, [task for _, task in tasks]):
            results.append(result)
            if options.v:
                print(f"{result['wall']:7.2f}s {result['harness']} {result['params']} "
                      f"{result['stats']} {result['incomplete'] or ''} "
                      f"{'CEX ' + result['cexes'][0][0] if result['cexes'] else ''}"
                      f"{result['error'] or ''}", flush=True)
            if (sum(len(r['cexes']) for r in results) >= 40
                    or sum(r['suspect'] is not None for r in results) >= jobs):
                break
    finally:
        symbolic.close()
    errors = [f"{r['harness']} {r['params']}: {r['error']}" for r in results if r['error']]
    concrete = Workers(root, jobs, False)
    violations, spurious, known, mismatches, validated = [], [], [], [], 0
    entries = known_findings(prop)
    samples_shown = []
    aborted = []
    try:
        replays = [(r, message, (prop, r['harness'], r['params'], assignment))
                   for r in results for message, assignment in r['cexes']]
        # paths that were given up: they count if the real code does not come to an end either
        suspects = [(r, 'given up', (prop, r['harness'], r['params'], r['suspect']))
                    for r in results if r['suspect'] is not None][:jobs]
        for entry, outcome in zip(suspects, concrete.pool.map(
                replay_case, [task for _, _, task in suspects], chunksize=1)):
            if outcome['failures']:
                violations.append((None, *entry, outcome))
        for (r, message, task) in replays:
            outcome = concrete.pool.apply(replay_case, (task,))
            if outcome['failures']:
                entry = match_finding(entries, r['harness'], outcome['failures'][0],
                                      outcome['inputs'])
                (violations if entry is None else known).append(
                        (entry, r, message, task, outcome))
            else:
                spurious.append((r, message, task, outcome))
        sampled = [(prop, r['harness'], r['params'], a) for r in results for a in r['samples']]
        for task, outcome in zip(sampled, concrete.pool.imap(replay_case, sampled, chunksize=4)):
            if outcome['failures']:
                entry = match_finding(entries, task[1], outcome['failures'][0], outcome['inputs'])
                (violations if entry is None else known).append(
                        (entry, {'harness': task[1], 'params': task[2]}, outcome['failures'][0],
                         task, outcome))
            elif outcome['mismatch'] or outcome['aborted']:
                mismatches.append((task, outcome['mismatch'] or 'assumption failed'))
            else:
                validated += 1
                if len(samples_shown) < 12 or random.Random(validated + seed).random() < .01:
                    samples_shown.append({'harness': task[1], 'params': repr(task[2]),
                                          'inputs': outcome['inputs'][:30],
                                          'checks': outcome['checks']})
    finally:
        concrete.close()
    total = lambda key: sum(r['stats'].get(key, 0) for r in results)
    incomplete = {}
    for r in results:
        for reason, count in r['incomplete'].items():
            incomplete[reason] = incomplete.get(reason, 0) + count
    by_harness = {}
    for r in results:
        item = by_harness.setdefault(r['harness'], {
            'bounds': harnesses[r['harness']].bounds, 'cases': 0, 'paths': 0, 'assertions': 0,
            'queries': 0, 'exhausted_cases': 0, 'wall_s': 0})
        item['cases'] += 1
        item['paths'] += r['stats']['paths']
        item['assertions'] += r['stats']['checks']
        item['queries'] += r['stats']['queries']
        item['exhausted_cases'] += r['exhausted']
        item['wall_s'] = round(item['wall_s'] + r['wall'], 3)
    vacuous = [name for name, item in by_harness.items()
               if not item['assertions'] and not any(r['cexes'] for r in results)]
    missing = [name for name in harnesses if name not in by_harness and not options.only]
    functions = sorted({f for r in results for f in r['functions']})
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'wall_s': round(time.monotonic() - begin, 3),
        'coverage': {
            'states': total('paths'), 'transitions': total('branches'),
            'traces_validated_against_impl': validated,
            'samples': samples_shown[:20] or ['none'],
            'technique': 'path-wise symbolic execution of the real code on z3; a state is one '
                         'feasible path (a set of inputs), a transition one solver-decided branch',
            'functions_encoded': functions,
            'harnesses': by_harness,
            'queries': total('queries'), 'solver_s': round(total('solver_s'), 3),
            'assertions': total('checks'),
            'assumption_cut_paths': total('aborted'),
            'all_paths_within_bounds_explored':
                bool(results) and all(r['exhausted'] for r in results) and not incomplete,
            'incomplete': incomplete,
            'solver_unknown': total('unknown'),
            'validation_mismatches': [[repr(t[:3]), m] for t, m in mismatches[:10]],
            'validation_mismatch_count': len(mismatches),
            'counterexamples_reproduced': len(violations),
            'counterexamples_not_reproduced': len(spurious),
            'known_findings_seen': len(known),
            'unsupported_constructs': sorted({u for r in results for u in r['unsupported']}),
        }}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not options.only:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as file:
            json.dump(evidence, file, indent=1)
    print(f"{prop} [{tier}] paths={total('paths')} branches={total('branches')} "
          f"assertions={total('checks')} queries={total('queries')} "
          f"solver={total('solver_s'):.1f}s validated={validated} mismatches={len(mismatches)} "
          f"incomplete={incomplete} wall={time.monotonic() - begin:.1f}s")
    for task, reason in mismatches[:3]:
        print('note: sampled path not followed by the real code:', task[1], task[2], reason)
    for key in sorted({entry['id'] for entry, *_ in known}):
        entry = next(e for e, *_ in known if e['id'] == key)
        print(f"KNOWN-FINDING: property={prop} {entry['what']}")
    if violations:
        _, r, message, task, outcome = violations[0]
        record = {'property': prop, 'harness': task[1], 'params': task[2], 'assignment': task[3],
                  'message': outcome['failures'], 'inputs': outcome['inputs']}
        text = json.dumps(record, indent=1, sort_keys=True)
        directory = os.path.join(HERE, 'replays')
        os.makedirs(directory, exist_ok=True)
        path = os.path.join(directory,
                            f'{prop}-{hashlib.sha256(text.encode()).hexdigest()[:12]}.json')
        with open(path, 'w') as file:
            file.write(text)
        print('counterexample:', r['harness'], r['params'], outcome['failures'][0])
        for tag, value in outcome['inputs'][:40]:
            print(f'  {tag} = {value}')
        print(f'  replay: ./check {prop} --replay {os.path.relpath(path, HERE)}')
        print(f'VIOLATION property={prop} replay={os.path.relpath(path, HERE)}')
        return 1
    status = 0
    for r, message, task, outcome in spurious[:3]:
        print('ERROR: a counterexample does not reproduce on the real code:', r['harness'],
              r['params'], message, outcome, task[3]['vars'])
        status = 2
    for error in errors[:3]:
        print('ERROR:', error)
        status = 2
    for name in vacuous + missing:
        print('ERROR: harness reaches no assertion:', name)
        status = 2
    return status


def _tuples(value):
    return tuple(_tuples(v) for v in value) if isinstance(value, list) else value


if __name__ == '__main__':
    sys.exit(main())
