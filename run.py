#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decides one property on the current tree of the repository.

Builds the real code to LLVM bitcode, explores the jobs of plan.py symbolically (engine/), replays every
counterexample against a native build of the same code, and reports those that reproduce.
Exit 0: held on everything explored. Exit 1: VIOLATION lines. Exit 2: the check itself could not run."""
import json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import build, plan
T0 = time.time()
def log(*a): print(*a, flush=True)
def case(f, ident, entry, args, inputs):
    f.write('J %s %s %s\n' % (ident, entry, ' '.join(map(str, args))))
    for l, v in inputs: f.write('%s\t%d\n' % (l, v))
    f.write('.\n')
def show(job, inputs):
    return {'job': job['name'], 'entry': job['entry'], 'args': job['args'], 'inputs': [[l, v] for l, v in inputs if not (l == 'window here' and v == 0)][:60]}
class Native:
    def __init__(self, B): self.B = B; self.links = {}
    def exe(self, kind):
        if kind not in self.links:
            self.links[kind] = self.B.native(kind)()
        return self.links[kind]
    def one(self, path, kind, env=None, wrap=None, timeout=60):
        e = dict(os.environ); e.update(env or {})
        try: r = subprocess.run((wrap or []) + [self.exe(kind), path, '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        except subprocess.TimeoutExpired: return 124, 'no termination within %d s' % timeout
        return r.returncode, r.stdout.decode(errors='replace')
def reproduce(N, v, path, all_kinds):
    """Does the counterexample show on the real code? Returns (how, output) or None."""
    rc, out = N.one(path, 'plain', timeout=20)
    if rc == 77: return 'assertion', out
    if rc == 124: return 'no termination', out
    if rc == 78: return None
    if rc < 0 or rc >= 128: return 'crash (%d)' % rc, out
    if v['kind'] in ('memory', 'ub', 'abort', 'exception', 'termination', 'leak') :
        rc, out = N.one(path, 'asan', {'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}, timeout=60)
        if rc not in (0, 78): return 'sanitizer', out
    if v['kind'] in ('uninitialised', 'memory', 'leak'):
        rc, out = N.one(path, 'valg', wrap=['valgrind', '-q', '--error-exitcode=99', '--leak-check=full' if v['kind'] == 'leak' else '--leak-check=no'], timeout=120)
        if rc not in (0, 78): return 'valgrind', out
    if v['kind'] == 'shared-state':
        rc, out = N.one(path, 'tsan', {'SX_THREADS': '1', 'TSAN_OPTIONS': 'exitcode=66'}, timeout=120)
        if rc not in (0, 78): return 'race', out
    return None
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = plan.plan(pid, tier)
    ev = V + '/evidence'; os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(pid + '-replay-'): os.remove(ev + '/' + f)
    d = tempfile.mkdtemp(prefix='sx-%s-' % pid, dir=os.environ.get('SX_TMP', '/tmp'))
    try: rc = check(pid, tier, seed, P, ev, d)
    finally: shutil.rmtree(d, ignore_errors=True)
    sys.exit(rc)
def check(pid, tier, seed, P, ev, d):
    B = build.Build(d)
    try:
        B.sources(); B.tables(plan.SEEDS, plan.GENS)
        pend = B.engine() + B.bitcode(); natl = B.native('plain')
        for l in pend: l()
        natl()
    except build.BuildError as e:
        log('cannot build:', e); return 2
    tb = time.time() - T0; N = Native(B)
    with open(d + '/jobs.txt', 'w') as f:
        for j in P['jobs']: f.write('%s %s %g %s\n' % (j['name'], j['entry'], j.get('budget', 0), ' '.join(map(str, j['args']))))
    cmd = [B.sx, '--bc', B.bc, '--jobs', d + '/jobs.txt', '--out', d + '/o.json', '--threads', str(os.cpu_count() or 8), '--deadline', str(P['deadline']), '--max-viol', '6', '--audit', str(P.get('audit', 64)), '--samples', str(P.get('samples', 10)), '--max-steps', str(P.get('max_steps', 30000000))]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not os.path.exists(d + '/o.json'): log('the symbolic executor ended with %d: %s' % (r.returncode, r.stdout.decode(errors='replace')[-2000:])); return 2
    o = json.load(open(d + '/o.json')); te = time.time() - T0 - tb
    jobs = {j['name']: j for j in P['jobs']}
    # ---- counterexamples: replay them against the real code
    known = [l.split(None, 2) for l in open(V + '/known-findings.txt') if l.startswith('finding:')] if os.path.exists(V + '/known-findings.txt') else []
    cex = []
    for jo in o['jobs']:
        for v in jo['violations']:
            if plan.counts(pid, v): cex.append((jobs[jo['name']], v))
    cex.sort(key=lambda c: (len(c[1]['inputs']), c[0]['name'])); seen = {}; todo = []
    for j, v in cex:
        k = (v['kind'], v['msg'], v['where']); seen[k] = seen.get(k, 0) + 1
        if seen[k] <= 3: todo.append((j, v))
    reported = []; notrep = []; n = 0; kinds = {}
    def confirm(i, j, v):
        path = '%s/%s-replay-%d.txt' % (ev, pid, i)
        with open(path, 'w') as f: case(f, 'x', j['entry'], j['args'], v['inputs'])
        return path, reproduce(N, v, path, False)
    if todo:
        need = set()
        for _, v in todo[:40]:
            if v['kind'] in ('memory', 'ub', 'abort', 'exception', 'termination', 'leak'): need.add('asan')
            if v['kind'] in ('uninitialised', 'memory', 'leak'): need.add('valg')
            if v['kind'] == 'shared-state': need.add('tsan')
        for k in need: N.exe(k)
        with cf.ThreadPoolExecutor(6) as ex:
            for (j, v), (path, rep) in zip(todo[:40], ex.map(lambda t: confirm(t[0], *t[1]), enumerate(todo[:40]))):
                if rep:
                    reported.append((j, v, path, rep))
                else: notrep.append({'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'job': j['name']}); os.remove(path)
    # ---- samples of explored paths: the same inputs must behave on the native build as they did symbolically
    batch = []; fromUnsup = set()
    for jo in o['jobs']:
        for k in ('samples', 'unsup_samples'):
            for s in jo[k]:
                ident = str(len(batch)); batch.append((jobs[jo['name']], s))
                if k != 'samples': fromUnsup.add(ident)
    ok = bad = 0
    def replay(part):
        p = d + '/batch%d.txt' % part
        with open(p, 'w') as f:
            for i in range(part, len(batch), 8): case(f, str(i), batch[i][0]['entry'], batch[i][0]['args'], batch[i][1])
        r = subprocess.run([N.exe('plain'), p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        return re.findall(r'^(?:(replay: [^\n]*)\n)?RESULT (\d+) (\d+)$', r.stdout.decode(errors='replace'), re.M)
    with cf.ThreadPoolExecutor(8) as ex:
        for res in ex.map(replay, range(8)):
            for msg, i, rc in res:
                rc = int(rc); j, s = batch[int(i)]
                if rc == 0: ok += 1; continue
                if rc == 78: continue
                bad += 1; v = {'kind': 'assert' if rc == 77 else 'crash', 'msg': msg[8:] if msg else 'the native run ends with code %d' % rc, 'where': 'native replay of a path sample', 'inputs': s, 'stack': ''}
                if plan.counts(pid, v) and len(reported) < 12 and not any(q[1]['msg'] == v['msg'] for q in reported):
                    path = '%s/%s-replay-s%s.txt' % (ev, pid, i)
                    with open(path, 'w') as f: case(f, 'x', j['entry'], j['args'], s)
                    reported.append((j, v, path, ('native', '')))
    # ---- report
    viol = 0; shown = set()
    for j, v, path, rep in reported:
        rc, out = N.one(path, 'plain', {'SX_SHOW': '1'}, timeout=20)
        text = (re.findall(r'^input .*$', out, re.M) or ['(no text)'])[-1]
        ident = '%s|%s' % (v['kind'], v['msg'])
        kf = [k for k in known if len(k) > 2 and k[1] == 'property=' + pid and k[2].strip() == (ident + '|' + text)]
        if kf: log('KNOWN-FINDING: property=%s %s' % (pid, kf[0][2].strip())); os.remove(path); continue
        with open(path, 'a') as f:
            f.write('# property %s, job %s: %s: %s\n# where: %s\n# stack: %s\n# reproduced natively by: %s\n# %s\n' % (pid, j['name'], v['kind'], v['msg'], v['where'], v['stack'], rep[0], '\n# '.join((rep[1] + out).splitlines()[-40:])))
        viol += 1; key = (v['msg'], v['where'])
        if key in shown and viol > 4: continue
        shown.add(key); log('  %s: %s  [%s; %s]\n  %s' % (v['kind'], v['msg'], v['where'], rep[0], text[:400])); log('VIOLATION property=%s replay=%s' % (pid, path))
    comp = sum(j['complete'] for j in o['jobs']); reach = 0
    for j in o['jobs']: reach |= j['reach']
    E = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 2), 'violations': viol,
         'coverage': {
             'states': sum(j['paths'] for j in o['jobs']), 'transitions': sum(j['forks'] for j in o['jobs']), 'traces_validated_against_impl': ok,
             'samples': [show(j, s) for j, s in batch[:: max(1, len(batch) // 12)]][:14],
             'exhaustive': comp == len(o['jobs']),
             'explanation': 'states: feasible paths explored to their end; transitions: forks on symbolic values; traces_validated_against_impl: path samples replayed against the native build with the same verdict',
             'jobs': len(o['jobs']), 'jobs_complete': comp, 'jobs_incomplete': [j['name'] for j in o['jobs'] if not j['complete']][:40],
             'instructions': sum(j['steps'] for j in o['jobs']), 'longest_path_instructions': max([j['max_steps'] for j in o['jobs']] or [0]),
             'assertions_evaluated': sum(j['asserts'] for j in o['jobs']), 'assertions_over_symbolic_values': sum(j['asserts_sym'] for j in o['jobs']),
             'representative_picks': sum(j['cuts'] for j in o['jobs']), 'infeasible_branches_pruned': sum(j['pruned'] for j in o['jobs']), 'paths_dropped': sum(j['dropped'] for j in o['jobs']), 'paths_unsupported': sum(j['unsup'] for j in o['jobs']),
             'unsupported': sorted({m for j in o['jobs'] for m in j['unsup_msgs']})[:10],
             'solver': {'queries': o['queries'], 'sat': o['sat'], 'unsat': o['unsat'], 'unknown': o['unknown'], 'seconds': o['solver_s'], 'path_audits': o['audits'], 'audits_failed': o['audit_bad']},
             'reached': [plan.REACH[i] for i in sorted(plan.REACH) if reach >> i & 1], 'functions_encoded': o['functions'], 'environment_models': o['environment'],
             'bounds': P['bounds'], 'counterexamples_not_reproduced': notrep[:20], 'samples_failing_natively': bad, 'build_s': round(tb, 2), 'explore_s': round(te, 2)},
         'assumptions': plan.ASSUME}
    with open('%s/%s.json' % (ev, pid), 'w') as f: json.dump(E, f, indent=1)
    log('%s %s: %d jobs (%d complete), %d paths, %d instructions, %d solver queries (%.1f s), %d samples replayed natively, %d violations, %d counterexamples not reproduced, %.1f s' % (pid, tier, len(o['jobs']), comp, E['coverage']['states'], E['coverage']['instructions'], o['queries'], o['solver_s'], ok, viol, len(notrep), E['wall_s']))
    if notrep: log('  not reproduced:', notrep[:4])
    if E['coverage']['unsupported']: log('  unsupported:', E['coverage']['unsupported'][:4])
    miss = [plan.REACH[r] for r in P.get('must_reach', []) if not reach >> r & 1]
    if miss and not viol and not cex: log('  not reached:', miss)
    return 1 if viol else 0
if __name__ == '__main__': main()
