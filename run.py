#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: builds the harnesses from /repo's working tree, runs the workloads that
decide PROPERTY under its monitors, writes evidence/PROPERTY.json and reports.
run.py --replay FILE: runs the one case of a replay file again, with its full trace.
Exit 0: held on everything explored (listed findings are printed as KNOWN-FINDING lines). Exit 1: violation."""
import json, os, subprocess, sys, time, shutil, re, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import vbuild
from checks import CHECKS
JOBS = 8

def known_findings():
    """lines 'finding: property=<id> scenario=<name> match=/<regex over the violation message>/ <what fails>'"""
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) scenario=(\S+) match=/(.*?)/ (.*)$', l.strip())
            if m: out.append(dict(prop=m.group(1), scen=m.group(2), rx=re.compile(m.group(3)), what=m.group(4)))
    return out

def run_gw(exe, scen, seed, cases, maxsec, tmp, rep):
    ps = []
    for j in range(JOBS):
        out = '%s/%s.%d.json' % (tmp, scen, j)
        ps.append((out, subprocess.Popen([exe, '--scenario', scen, '--seed', str(seed), '--cases', str(cases), '--from', str(j), '--stride', str(JOBS), '--max-sec', str(maxsec), '--out', out, '--replay-dir', rep], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)))
    parts = []
    for out, pr in ps:
        _, err = pr.communicate()
        if pr.returncode or not os.path.exists(out): raise RuntimeError('workload %s ended with %s: %s' % (scen, pr.returncode, (err or '')[-2000:]))
        parts.append(json.load(open(out)))
    r = dict(cases=0, foreign=0, violating=0, steps=0, switches=0, events=0, edges=0, edges_total=0, counters={}, samples=[], violations=[], sched=set(), inputs=set(), covs=set(), states=set())
    for p in parts:
        for k in ('cases', 'foreign', 'violating', 'steps', 'switches', 'events'): r[k] += p[k]
        for k in ('edges', 'edges_total'): r[k] = max(r[k], p[k])
        for k, v in p['counters'].items(): r['counters'][k] = r['counters'].get(k, 0) + v
        for k in ('sched', 'inputs', 'covs', 'states'): r[k] |= set(p[k])
        r['samples'] += p['samples']; r['violations'] += p['violations']
    r['samples'] = r['samples'][:3]
    return r

def argv(exe): return [sys.executable, HERE + '/src/threads/drive.py', exe] if os.path.basename(exe).startswith('threads-') else [exe]
def run_kit(exe, scen, seed, cases, maxsec, tmp, rep):
    out = '%s/%s.json' % (tmp, scen)
    pr = subprocess.run(argv(exe) + ['--scenario', scen, '--seed', str(seed), '--cases', str(cases), '--jobs', str(JOBS), '--max-sec', str(maxsec), '--out', out, '--replay-dir', rep], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if not os.path.exists(out): raise RuntimeError('workload %s ended with %s: %s' % (scen, pr.returncode, pr.stderr[-2000:]))
    return json.load(open(out))

def replay(path):
    l = open(path).readline().split()
    if l[0] == 'kit':
        b = next(w[0] for c in CHECKS.values() for w in c['workloads'] if w[1] == l[1] and w[0] in vbuild.KITS)
        cmd = argv(getattr(vbuild, b)()) + ['--scenario'] + l[1:]
    else: cmd = [(vbuild.gwsim6 if l[0] == 'scenario6' else vbuild.gwsim)(), '--scenario', l[1], '--case-seed', l[3]]
    print(' '.join(cmd), flush=True)
    return 1 if subprocess.run(cmd).returncode else 0

def main():
    if sys.argv[1] == '--replay': return replay(sys.argv[2])
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]; t0 = time.time()
    rep = HERE + '/replays/' + prop
    shutil.rmtree(rep, ignore_errors=True); os.makedirs(rep, exist_ok=True); os.makedirs(HERE + '/evidence', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    findings = [f for f in known_findings() if f['prop'] == prop]; hit = {}
    viol = []; evals = 0; distinct = 0; samples = []; detail = []; foreign = 0; cases = 0; warn = []
    try:
        exes = {}
        for b in sorted(set(s[0] for s in c['workloads'])):
            try: exes[b] = getattr(vbuild, b)()
            except vbuild.BuildError as e:
                print(str(e)[-4000:])
                if b not in c.get('extra', ()): print('cannot build the harness from %s' % vbuild.REPO); return 2
                print('note: the extra harness %s does not build any more; the property is decided without it' % b)
        if len(exes) < len(set(s[0] for s in c['workloads'])): c['workloads'] = [s for s in c['workloads'] if s[0] in exes]
        weights = sum(s[2] for s in c['workloads'])
        total = c.get('thorough_sec', 600) if tier == 'thorough' else c.get('quick_sec', 60)
        total = float(os.environ.get('VERIF_SEC', total))
        for b, scen, w, qn in c['workloads']:
            n = qn * 100 if tier == 'thorough' else qn
            sec = total * w / weights
            st = time.time()
            kit = b in vbuild.KITS
            r = (run_kit if kit else run_gw)(exes[b], scen, seed, n, sec, tmp, rep)
            d = dict(workload=scen, cases=r['cases'], wall_s=round(time.time() - st, 1), counters=r['counters'], code_edges_hit=r['edges'], code_edges=r['edges_total'])
            cases += r['cases']; samples += [dict(workload=scen, trace=s) for s in r['samples'][:2]]
            if kit:
                evals += r['evals']; distinct += r['distinct']; d.update(oracle_evaluations=r['evals'], distinct=r['distinct'])
            else:
                ck = sum(v for k, v in r['counters'].items() if k.endswith('_checked')) or r['events']
                evals += ck; distinct += len(r['sched'])
                foreign += r['foreign']
                d.update(oracle_evaluations=ck, events=r['events'], scheduler_steps=r['steps'], context_switches=r['switches'], distinct_schedules=len(r['sched']), distinct_inputs=len(r['inputs']), distinct_coverage_signatures=len(r['covs']), distinct_states=len(r['states']), cases_ended_by_other_properties=r['foreign'])
                if r['foreign'] and r['foreign'] == r['cases']:
                    v = dict(r['violations'][0]) if r['violations'] else dict(msg='?', replay='', tag='?')
                    v['msg'] = 'no case of %s got past its set-up, the property cannot hold: %s' % (scen, v['msg']); v['tag'] = '*'
                    r['violations'] = [v]
            detail.append(d)
            for v in r['violations']:
                if v['tag'] not in ('*', '') and prop not in v['tag'].split(',') and not c.get('claims_all'): 
                    warn.append(v); continue
                f = next((f for f in findings if f['scen'] in ('*', scen) and f['rx'].search(v['msg'])), None)
                if f: hit.setdefault(f['what'], []).append(v)
                else: viol.append((scen, v))
            if r['cases'] == 0: raise RuntimeError('workload %s ran no case' % scen)
    except RuntimeError as e:
        print('check error: %s' % e); return 2
    finally: shutil.rmtree(tmp, ignore_errors=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=c.get('level', 'exploration'),
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct, rule=c['rule'], samples=samples[:6] or [dict(note='every case ended in a violation')], cases=cases, workloads=detail),
              wall_s=round(time.time() - t0, 1), violations=[dict(workload=s, msg=v['msg'], replay=v['replay']) for s, v in viol][:20], known_findings=[dict(what=k, occurrences=len(v)) for k, v in hit.items()])
    with open(HERE + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
    for k, v in hit.items(): print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for f in findings:
        if f['what'] not in hit: print('KNOWN-FINDING: property=%s %s (not reproduced in this run)' % (prop, f['what']))
    for v in warn[:3]: print('note: a case was ended by a violation of %s: %s' % (v['tag'], v['msg'][:300]))
    print('%s %s: %d cases, %d oracle evaluations, %d distinct, %.0f s' % (prop, tier, cases, evals, distinct, time.time() - t0))
    if viol:
        shown = set()
        for s, v in viol:
            k = v['msg'][:60]
            if k in shown: continue
            shown.add(k)
            print('%s: %s' % (s, v['msg'][:600]))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(viol[0][1]['replay'], HERE) if viol[0][1].get('replay') else 'none'))
        return 1
    return 0
if __name__ == '__main__': sys.exit(main())
