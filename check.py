#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Builds the harness of a property against the current working tree of the repository, explores it
exhaustively within the bounds of the tier (VERIF_TIER, quick by default) and writes
evidence/<property>.json. Exit 0: held. Exit 1: a VIOLATION line was printed. Exit 2: no answer."""
import json, os, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from checks import CHECKS, COMMON_ASSUMPTIONS      # noqa: E402

REPO = os.environ.get('HELPER_REPO', '/repo')
BUILD = os.environ.get('HELPER_BUILD', os.path.join(HERE, '.build'))
EVIDENCE = os.environ.get('HELPER_EVIDENCE', os.path.join(HERE, 'evidence'))
CXX = 'g++'
BASE = ['-std=gnu++20', '-g1', '-w']
ASAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
PLAIN = ['-O1']


def include_flags():
    return ['-I', os.path.join(HERE, 'harness'), '-isystem', os.path.join(REPO, 'include')]


def run(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf-8', 'replace') + '\n[timeout]'


def sanitizer_flags(v):
    return {'asan': ASAN, 'asan0': ['-O0'] + ASAN[1:], 'plain': PLAIN, 'O0': ['-O0'], 'O2': ['-O2']}[v.get('build', 'asan')]


def compile_variant(pid, v, out):
    """Compiles all sources of the variant. Returns (ok, log)."""
    log = ''
    for extra in v.get('fallbacks', [[]]):
        srcs = []
        for s in v['src']:
            srcs.append(os.path.join(REPO, s[5:]) if s.startswith('repo:') else os.path.join(HERE, 'harness', s))
        cmd = [CXX] + BASE + sanitizer_flags(v) + v.get('flags', []) + extra + include_flags() + srcs + ['-o', out] + v.get('libs', [])
        if 'custom' in v:
            rc, text = v['custom'](REPO, HERE, os.path.dirname(out), out, extra)
        else:
            rc, text = run(cmd, 600)
        log += text
        if rc == 0:
            return True, log
    return False, log


def headers_compile():
    """Do the headers themselves still compile (so that a failing harness means the interface broke)?"""
    d = os.path.join(BUILD, 'probe')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, 'probe.cpp')
    heads = sorted(h for h in os.listdir(os.path.join(REPO, 'include')) if h.endswith('.hpp') and h not in ('test.hpp', 'variant.inl.hpp'))
    with open(src, 'w') as f:
        f.write('#include <cstdlib>\n#include <iostream>\n#include <functional>\n')
        for h in heads:
            f.write('#include "%s"\n' % h)
        f.write('int main(){}\n')
    rc, text = run([CXX] + BASE + ['-fsyntax-only'] + include_flags() + [src], 300)
    return rc == 0, text


def known_findings():
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)['findings']


def write_replay(pid, data):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    text = json.dumps(data, indent=1)
    name = os.path.join(d, '%s-%s.json' % (pid, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(name, 'w') as f:
        f.write(text)
    return name


def harness_env(v):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=0:handle_segv=1:detect_stack_use_after_return=1:max_free_fill_size=4096:free_fill_byte=189'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    env.update(v.get('env', {}))
    return env


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print('usage: check.py <property> [--replay FILE]')
        return 2
    pid = sys.argv[1]
    spec = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        with open(sys.argv[3]) as f:
            replay = json.load(f)
    t0 = time.time()
    work = os.path.join(BUILD, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence_file = os.path.join(EVIDENCE, pid + '.json')
    variants = spec['variants']
    if replay:
        variants = [v for v in variants if v['name'] == replay.get('variant')] or variants
    for v in variants:
        if 'generate' in v:
            v['generate'](HERE, work, tier)
    outs = [os.path.join(work, v['name']) for v in variants]
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(lambda a: compile_variant(pid, a[0], a[1]), zip(variants, outs)))
    compile_s = time.time() - t0

    violation = None
    findings = []
    scen = []
    error = None
    for v, (ok, log) in zip(variants, built):
        if not ok:
            good, text = headers_compile()
            first = [l for l in log.splitlines() if 'error' in l][:6]
            if good:
                violation = {'property': pid, 'variant': v['name'], 'kind': 'compile',
                             'message': 'a use of the public interface that the property speaks about no longer compiles: ' + ' | '.join(first),
                             'log': log[-6000:]}
            else:
                error = 'the headers do not compile: ' + text[-2000:]
            break
    limit = spec.get('budget', {}).get(tier, 800 if tier == 'quick' else 7200)
    if not violation and not error:
        for v, exe in zip(variants, outs):
            res = os.path.join(work, v['name'] + '.json')
            if replay and replay.get('choices') is not None and replay.get('mode') == 'single':
                cmd = [exe, '--tier', replay['tier'], '--scenario', replay['scenario'], '--replay', ','.join(map(str, replay['choices'])) or '-', '--tmp', work]
                rc, text = run(v.get('prefix', []) + cmd, 300, harness_env(v))
                print(text)
                return rc
            left = max(30, limit - (time.time() - t0))
            cmd = v.get('prefix', []) + [exe, '--tier', tier, '--out', res, '--tmp', work, '--budget', '%d' % left, '--workers', str(v.get('workers', 8))]
            rc, text = run(cmd, left + 200, harness_env(v), cwd=work)
            try:
                with open(res) as f:
                    data = json.load(f)
            except (OSError, ValueError) as e:
                error = 'variant %s gave no result (rc %d): %s %s' % (v['name'], rc, e, text[-1500:])
                break
            for s in data:
                s['variant'] = v['name']
                scen.append(s)
                findings += [dict(f, scenario=s['scenario'], variant=v['name']) for f in s.get('findings', [])]
                if s.get('error'):
                    error = '%s/%s: %s' % (v['name'], s['scenario'], s['error'])
                if s.get('violation') and not violation:
                    violation = dict(s['violation'], property=pid, variant=v['name'], scenario=s['scenario'], tier=tier, kind='execution')
            if violation or error:
                break
    known = known_findings()
    reported = set()
    for f in findings:
        match = [k for k in known if k['property'] == pid and k['key'] == f['key']]
        if match:
            if f['key'] not in reported:
                reported.add(f['key'])
                print('KNOWN-FINDING: property=%s %s' % (pid, match[0]['what']))
        elif not violation:
            violation = dict(f, property=pid, mode='single', tier=tier, kind='execution')
    states = sum(s['states'] for s in scen)
    transitions = sum(s['transitions'] for s in scen)
    execs = sum(s['executions'] for s in scen)
    samples = []
    for s in scen:
        for x in s.get('samples', [])[:2]:
            samples.append({'scenario': s['scenario'], 'variant': s['variant'], 'choices': x['choices'][:60], 'operations': x['operations']})
    truncated = [s['scenario'] for s in scen if s['truncated']]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': states, 'transitions': transitions, 'traces_validated_against_impl': execs,
            'checks_evaluated': sum(s['checks'] for s in scen),
            'pruned_at_seen_state': sum(s['pruned'] for s in scen),
            'exhaustive': not truncated and not error and not violation,
            'how_validated': 'every explored trace is an execution of the real code of the current tree, compared step by step with the reference model',
            'truncated_scenarios': truncated,
            'scenarios': [{k: s[k] for k in ('variant', 'scenario', 'executions', 'transitions', 'pruned', 'checks', 'states', 'outcomes', 'max_choices', 'truncated', 'wall_s')} for s in scen],
            'samples': samples[:24] or [{'note': 'no execution completed'}],
        },
        'assumptions': spec.get('assumptions', []) + COMMON_ASSUMPTIONS,
        'wall_s': round(time.time() - t0, 2), 'compile_s': round(compile_s, 2),
        'violations': 1 if violation else 0, 'known_findings_seen': sorted(reported),
    }
    with open(evidence_file, 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s [%s] states=%d transitions=%d executions=%d scenarios=%d compile=%.1fs wall=%.1fs%s' % (
        pid, tier, states, transitions, execs, len(scen), compile_s, time.time() - t0, ' truncated=' + ','.join(truncated) if truncated else ''))
    if violation:
        path = write_replay(pid, violation)
        print('scenario %s/%s: %s' % (violation.get('variant'), violation.get('scenario'), violation.get('message', '')[:3000]))
        if violation.get('operations'):
            print('operations: ' + violation['operations'][:3000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if error:
        print('NO ANSWER: ' + error)
        return 2
    if execs == 0:
        print('NO ANSWER: nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
