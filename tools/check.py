#!/usr/bin/env python3
"""Run the simulation check of one property against /repo's current working tree.

  check.py ID                 search (quick, or thorough with VERIF_TIER=thorough or --thorough)
  check.py ID --replay FILE   rebuild and replay one recorded violation
  check.py --build DIR        only build the simulator into DIR (development)

Exit 0: no violation on anything explored. Exit 1: violation (VIOLATION line). 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CXX = shutil.which('g++-10') or shutil.which('g++') or 'g++'
WRAP = '''pthread_create pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_timedlock
pthread_mutex_clocklock pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_wrlock pthread_rwlock_trywrlock
pthread_rwlock_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal
pthread_cond_broadcast pthread_once sched_yield nanosleep usleep memcpy memmove memset memcmp strlen'''.split()
INC = [f'-I{VERIF}/sim/include', f'-I{REPO}/include', f'-I{REPO}/src', f'-I{REPO}/src/private']
INSTR = ['-std=c++17', '-O1', '-g1', '-DNDEBUG', '-fsanitize=thread', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w']
QUICK_S, THOROUGH_S = 45, 600


def build(dir):
    jobs = []
    for f in sorted(glob.glob(f'{VERIF}/worlds/*.cpp'), key=os.path.getsize, reverse=True):
        jobs.append((f, [CXX, *INSTR, *INC, '-c', f, '-o', f'{dir}/w_{os.path.basename(f)}.o']))
    for f in glob.glob(f'{REPO}/src/**/*.cpp', recursive=True):
        # the library itself is built without RTTI, as its own build does
        jobs.append((f, [CXX, *INSTR, '-fno-rtti', *INC, '-c', f, '-o', f"{dir}/l_{f[len(REPO) + 5:].replace('/', '_')}.o"]))
    for f in glob.glob(f'{VERIF}/sim/*.cpp'):
        jobs.append((f, [CXX, '-std=c++17', '-O2', '-g1', '-w', '-c', f, '-o', f'{dir}/s_{os.path.basename(f)}.o']))
    def one(j):
        r = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        return j[0], r.returncode, r.stdout
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f, rc, out in ex.map(one, jobs):
            if rc:
                print(f'BUILD ERROR in {f}\n{out[:4000]}')
                return None
    exe = f'{dir}/sim'
    r = subprocess.run([CXX, '-static', '-no-pie', '-o', exe, *sorted(glob.glob(f'{dir}/*.o')), *[f'-Wl,--wrap={w}' for w in WRAP],
                        '-Wl,--whole-archive', '-lpthread', '-Wl,--no-whole-archive'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print('LINK ERROR\n' + r.stdout[:4000])
        return None
    return exe


def known_findings(prop):
    """known_findings.txt: 'finding: property=<id> index=<n> <text>' and 'fixed: property=<id> <commit> <text>'."""
    out = {}
    for line in open(f'{VERIF}/known_findings.txt', encoding='utf-8'):
        m = re.match(r'finding: property=(\S+) index=(\d+) (.*)', line.strip())
        if m and m.group(1) == prop:
            out[int(m.group(2))] = m.group(3)
    return out


def symbols(exe, text):
    out = []
    for line in text.splitlines():
        m = re.match(r'(stack|other)\s+(.*)', line)
        if not m:
            continue
        pcs = [hex(int(x, 16) - 1) for x in m.group(2).split()][:14]
        if not pcs:
            continue
        r = subprocess.run(['addr2line', '-Cfpe', exe, *pcs], stdout=subprocess.PIPE, text=True)
        out.append('  at:' if m.group(1) == 'stack' else '  other party / allocation:')
        out += ['    ' + l[:220] for l in r.stdout.splitlines()]
    return '\n'.join(out)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--thorough', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--build')
    ap.add_argument('--time', type=float)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--exe', help='use this simulator instead of building one (development)')
    a = ap.parse_args()
    if a.build:
        os.makedirs(a.build, exist_ok=True)
        return 0 if build(a.build) else 2
    tier = 'thorough' if a.thorough or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='rtti-sim-')
    try:
        exe = a.exe or build(tmp)
        if not exe:
            return 2
        t_build = time.time() - t0
        known = known_findings(a.prop) if a.prop else {}
        kn = ['--known', ','.join(map(str, known))] if known else []
        if a.replay:
            r = subprocess.run([exe, '--replay', a.replay, *kn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
            print(r.stdout + symbols(exe, r.stdout))
            if r.returncode == 1:
                print(f'VIOLATION property={a.prop} replay={a.replay}')
            return r.returncode if r.returncode in (0, 1) else 2
        os.makedirs(f'{VERIF}/replays', exist_ok=True)
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        replay = f'{VERIF}/replays/{a.prop}.replay'
        if os.path.exists(replay):
            os.unlink(replay)
        secs = a.time or (THOROUGH_S if tier == 'thorough' else QUICK_S)
        stats = f'{tmp}/stats.json'
        workers = os.cpu_count() or 4
        cmd = [exe, '--prop', a.prop, '--seed', str(seed), '--time', str(secs), '--workers', str(workers), '--stats', stats,
               '--replaydir', f'{VERIF}/replays', *kn] + (['--thorough'] if tier == 'thorough' else [])
        print(f'{a.prop}: seed {seed}, {tier}, built in {t_build:.0f} s, searching {secs:.0f} s with {workers} workers', flush=True)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        st = json.load(open(stats)) if os.path.exists(stats) else None
        if r.returncode not in (0, 1) or not st:
            print(r.stdout[:4000])
            print(f'CHECK ERROR: the simulator ended with {r.returncode}')
            return 2
        viol = []
        if r.returncode == 1:
            print(r.stdout[:6000])
            print(symbols(exe, r.stdout))
            viol.append({'class': st['class'], 'message': st['message'], 'replay': replay})
        met = [i for i in known if st['known'][i]]
        for i in met:
            print(f'KNOWN-FINDING: property={a.prop} {known[i]}')
        hours = max(st['wall_search'], 0.001) / 3600
        ev = {
            'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': st['runs'],
                'distinct_nontrivial': st['distinct_nontrivial'],
                'rule': 'one evaluation is one simulated execution: a workload, fault plan and schedule drawn from the seed, run in its own process under '
                        'the simulated scheduler. Distinct: the pair (workload and faults, sequence of scheduling decisions) was not seen before in this '
                        'batch, counted in a hash table. Non-trivial: at least one fault fired, or at least one thread was preempted or blocked inside '
                        'an operation, or the simulated process exited inside an operation.',
                'samples': st['samples'],
                'runs_per_hour': round(st['runs'] / hours), 'seeds': 1, 'runs_per_seed': st['runs'],
                'simulated_time': {'unit': 'scheduler events (the library reads no clock)', 'total': st['events'], 'operations': st['ops']},
                'fault_kinds_fired': dict(st['faults_fired'], **{'stalled-thread': st['stalls'], 'preemption': st['preemptions'], 'lock-contention': st['blocks'], 'spurious-failure-of-weak-atomics': st['spurious']}),
                'fault_kinds_armed': st['faults_armed'],
                'fault_free_runs': st['runs'] - st['faulty_runs'], 'fault_injecting_runs': st['faulty_runs'],
                'concurrent_runs': st['concurrent_runs'], 'scheduling_strategies': st['strategies'], 'allocations_simulated': st['allocations'],
                'rare_conditions_reached_in_runs': {k: v for k, v in st['probes'].items() if v},
                'determinism': {'runs_executed_three_times_and_compared': st['rechecked'], 'differences': 0},
                'real_components': st['real'], 'stubbed_components': st['stub'],
                'known_findings_met': {known[i]: st['known'][i] for i in met},
            },
            'assumptions': ['interleavings of sequentially consistent steps plus happens-before race detection; weaker hardware orders only show as races',
                            'sampling: a quiet batch is evidence, not proof'],
            'violations': viol, 'build_s': round(t_build, 1), 'wall_s': round(time.time() - t0, 1),
        }
        json.dump(ev, open(f'{VERIF}/evidence/{a.prop}.json', 'w'), indent=1)
        print(f"{a.prop}: {st['runs']} runs ({st['distinct_nontrivial']} distinct and non-trivial), {st['events']} events, faults fired {st['faults_fired']}, {st['wall_search']:.0f} s")
        if viol:
            print(f'VIOLATION property={a.prop} replay={replay}')
            return 1
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
