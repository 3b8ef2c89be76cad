#!/usr/bin/env python3
"""Runs the check of one property: compiles its harness parts from /repo's current tree, explores, reports.

usage: run.py C01 [--thorough] [--replay FILE] [--keep]
exit 0: property held on everything explored; 1: VIOLATION line printed; 2: the check itself failed
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

INC = ['-I' + os.path.join(VERIF, 'harness'), '-I' + REPO + '/nmpc_ddp/include', '-I' + REPO + '/nmpc_fmpc/include',
       '-I' + REPO + '/nmpc_cgmres/include', '-I/usr/include/eigen3']
FLAGS = ['-std=c++17', '-O1', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS']
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 8)


def compile_part(pid, part, build):
    exe = os.path.join(build, part['name'])
    cmd = ['g++'] + FLAGS + part.get('flags', []) + INC + [os.path.join(VERIF, 'harness', part['src'])]
    if part.get('cgmres'):
        # the library's own translation unit gets the same instrumented Eigen as the harness
        cmd[1:1] = ['-include', os.path.join(VERIF, 'harness', 'eigen_setup.h')]
        src = REPO + '/nmpc_cgmres/src'
        cmd += [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith('.cpp')]
    cmd += ['-o', exe] + part.get('libs', [])
    r = subprocess.run(cmd, capture_output=True, text=True)
    return part, exe, r.returncode, r.stderr, ' '.join(cmd)


def main():
    args = sys.argv[1:]
    pid = args[0]
    chk = CHECKS[pid]
    thorough = '--thorough' in args or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t_start = time.time()
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    build = tempfile.mkdtemp(prefix=pid + '-', dir=os.path.join(VERIF, 'build'))
    replay_dir = os.path.join(VERIF, 'replays')
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rc = 2
    try:
        rc = run(pid, chk, thorough, seed, t_start, build, replay_dir, args)
    finally:
        if '--keep' not in args:
            shutil.rmtree(build, ignore_errors=True)
    sys.exit(rc)


def run(pid, chk, thorough, seed, t_start, build, replay_dir, args):
    known_file = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    known = [k for k in known_file['findings'] if k['property'] == pid]
    parts = [p for p in chk['parts'] if thorough or not p.get('thorough_only')]
    if '--part' in args:
        parts = [p for p in parts if p['name'] == args[args.index('--part') + 1]]
    if '--replay' in args:
        path = args[args.index('--replay') + 1]
        lines = open(path).read().split('\n')
        if lines[0].startswith('#compile'):
            parts = [p for p in parts if p['name'] == lines[0].split()[1]]
            _, _, crc, err, cmd = compile_part(pid, parts[0], build)
            print(cmd + '\n' + err[:4000])
            return 1 if crc else 0
        parts = [p for p in parts if os.path.basename(path).startswith('%s-%s-' % (pid, p['name']))]
        _, exe, crc, err, _ = compile_part(pid, parts[0], build)
        if crc:
            print(err)
            return 2
        return subprocess.run([exe, '--scratch', build, '--replay', path]).returncode

    agg = dict(executions=0, nontrivial=0, transitions=0, traces=0, states=0)
    complete = True
    spaces, samples, known_seen = [], [], []
    violation = None
    infra = None
    with concurrent.futures.ThreadPoolExecutor(max_workers=JOBS) as ex:
        comps = list(ex.map(lambda p: compile_part(pid, p, build), parts))
    t_compiled = time.time()
    for part, exe, crc, err, cmd in comps:
        if crc == 0:
            continue
        if part.get('compile_is_property') and any(c[2] == 0 for c in comps):
            path = os.path.join(replay_dir, '%s-%s-compile.replay' % (pid, part['name']))
            with open(path, 'w') as f:
                f.write('#compile %s\n%s\n%s\n' % (part['name'], cmd, err[:20000]))
            violation = violation or (path, 'promised instantiation does not compile: ' + part.get('what', part['name']))
        else:
            infra = 'harness part %s does not compile:\n%s' % (part['name'], err[:3000])
    budget_all = chk.get('budget', 600 if not thorough else 10000)
    for part, exe, crc, err, cmd in comps:
        if crc or violation:
            continue
        sc = os.path.join(build, part['name'] + '.d')
        os.makedirs(sc)
        js = os.path.join(sc, 'out.json')
        run_cmd = [exe, '--scratch', sc, '--json', js, '--replay-dir', sc, '--jobs', str(JOBS)]
        if thorough:
            run_cmd += ['--thorough']
        left = budget_all - (time.time() - t_start)
        run_cmd += ['--budget', '%.1f' % max(left, 20.0)]
        for k in known:
            if k.get('part', part['name']) == part['name']:
                run_cmd += ['--known', k['key']]
        for attempt in (0, 1):  # one retry if the exploration itself broke (e.g. a worker was ended for lack of memory)
            r = subprocess.run(run_cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=sc,
                               env=dict(os.environ, VERIF_SCRATCH=sc))
            if r.returncode in (0, 1) and os.path.exists(js):
                break
            print('part %s: exit %d, attempt %d\n%s' % (part['name'], r.returncode, attempt, r.stderr[-2000:]), file=sys.stderr)
        if r.returncode not in (0, 1) or not os.path.exists(js):
            infra = 'part %s: exit %d\n%s' % (part['name'], r.returncode, r.stderr[-3000:])
            continue
        try:
            j = json.load(open(js))
        except ValueError as e:
            infra = 'part %s: bad report: %s' % (part['name'], e)
            continue
        for k in agg:
            agg[k] += j[k]
        complete = complete and j['complete']
        for s in j['spaces']:
            s['name'] = part['name'] + '/' + s['name']
            spaces.append(s)
        samples += [part['name'] + '/' + s for s in j['samples'][:4]]
        known_seen += j['known']
        if j['violations']:
            src = j['violation_replay']
            dst = os.path.join(replay_dir, '%s-%s-%s' % (pid, part['name'], os.path.basename(src)))
            shutil.copy(src, dst)
            violation = (dst, j['violation_msg'])
    wall = time.time() - t_start
    if not (infra and not violation):
        ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=seed, level=chk['level'],
                  coverage=dict(evaluations=agg['executions'], distinct_nontrivial=agg['nontrivial'], rule=chk['rule'],
                                states=agg['states'], transitions=agg['transitions'],
                                traces_validated_against_impl=agg['traces'],
                                exhaustive=bool(complete and not violation), samples=samples[:12], spaces=spaces),
                  assumptions=chk.get('assumptions', []), wall_s=round(wall, 2), violations=1 if violation else 0)
        ev['coverage']['compile_s'] = round(t_compiled - t_start, 2)
        ev['coverage']['known_findings_observed'] = len(known_seen)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if violation:
        print('property %s is violated: %s' % (pid, violation[1]))
        print('replay with: python3 %s/run.py %s --replay %s' % (VERIF, pid, violation[0]))
        print('VIOLATION property=%s replay=%s' % (pid, violation[0]))
        return 1
    if infra:
        print('CHECK-ERROR property=%s %s' % (pid, infra), file=sys.stderr)
        return 2
    seen_keys = set(k['key'] for k in known_seen)
    for k in known:
        if k['key'] in seen_keys:
            print('KNOWN-FINDING: property=%s %s [%s]' % (pid, k['what'], k['key']))
    print('property %s held: %d executions, %d states, %d transitions, %d traces compared, complete=%s, %.1f s' % (
        pid, agg['executions'], agg['states'], agg['transitions'], agg['traces'], complete, wall))
    return 0


if __name__ == '__main__':
    main()
