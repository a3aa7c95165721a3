#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property by symbolic execution of the current tree.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: no answer."""
import json, os, resource, subprocess, sys, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import buildir, table, natrep

ENGINE = V + '/engine/target/release/symex'
WORK = V + '/.work'

def limit():
    g = 1 << 30
    resource.setrlimit(resource.RLIMIT_AS, (12 * g, 12 * g))

def run(h, tier):
    out = f'{WORK}/out/{h.name}.json'
    if os.path.exists(out):
        os.unlink(out)
    cmd = [ENGINE, '--list', WORK + '/ir.list', '--entry', h.name, '--time', str(h.time), '--steps', str(h.steps), '--viol', '40', '--out', out] + h.opts
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=h.time * 1.5 + 60, preexec_fn=limit)
        rc, err = p.returncode, p.stderr[-2000:]
    except subprocess.TimeoutExpired:
        rc, err = 99, 'engine timeout'
    try:
        j = json.load(open(out))
    except Exception:
        j = None
    return h, rc, err, j, time.time() - t

def known():
    r = []
    p = V + '/known_findings.txt'
    for l in open(p) if os.path.exists(p) else []:
        l = l.rstrip('\n')
        if l.startswith('known: '):
            # known: property=ID harness=H label=L [msg=M] | text
            head, text = l[7:].split(' | ', 1)
            d = {}
            for part in head.split('; '):
                k, v = part.split('=', 1)
                d[k.strip()] = v.strip()
            d['text'] = text
            r.append(d)
    return r

def matches(k, pid, h, v):
    return k['property'] == pid and k['harness'] == h and k['label'] == v['label'] and (not k.get('msg') or k['msg'] in v['msg'] or any(k['msg'] in n for n in v['notes']))

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    prop = table.PROPS[pid]
    t0 = time.time()
    os.makedirs(WORK + '/out', exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    bt = buildir.build()
    if bt is None:
        print('ERROR: the harness or the tree does not build')
        sys.exit(2)
    if not os.path.exists(ENGINE):
        subprocess.check_call(['cargo', 'build', '--release', '--offline'], cwd=V + '/engine')
    hs = prop.hs(tier)
    kn = known()
    res = []
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        for r in ex.map(lambda h: run(h, tier), sorted(hs, key=lambda h: -h.time)):
            res.append(r)
    bad, errors, incomplete, knownlines, unconf = [], [], [], {}, []
    for h, rc, err, j, wall in res:
        if j is None:
            errors.append(f'{h.name}: engine failed rc={rc} {err[-400:]}')
            continue
        if j['error_msgs']:
            errors.append(f'{h.name}: {j["error_msgs"][0]}')
        if j['limit_msgs']:
            incomplete.append(f'{h.name}: {j["limit_msgs"][0]}')
        if j['solver']['unknown']:
            incomplete.append(f'{h.name}: {j["solver"]["unknown"]} unknown solver answers')
        for v in j['violations']:
            ks = [k for k in kn if matches(k, pid, h.name, v)]
            if ks:
                knownlines[(ks[0]['harness'], ks[0]['label'], ks[0]['text'])] = ks[0]
            else:
                bad.append((h, v))
        if not j['covers'] and not j['violations'] and not j['error_msgs'] and not j['limit_msgs']:
            errors.append(f'{h.name}: no path reached its end')
        for c in h.covers:
            if not j['covers'].get(c) and not j['violations'] and not j['limit_msgs'] and not j['error_msgs']:
                errors.append(f'{h.name}: situation "{c}" never reached')
    # confirm on the real code
    reported = []
    replayed = 0
    if bad:
        for n, (h, v) in enumerate(bad[:12]):
            path = natrep.save(pid, n, h, v)
            if h.native and v['label'] not in ('memory-safety', 'undefined-behaviour', 'deadlock') and not v['sched']:
                ok, how = natrep.native(h, v, path)
            else:
                ok, how = natrep.engine(h, v, path, ENGINE, WORK)
            replayed += 1
            if ok:
                reported.append((path, h, v, how))
            else:
                unconf.append(f'{h.name}: {v["label"]} {v["msg"]} not reproduced ({how}), see {path}')
            if len(reported) >= 3:
                break
    validated = 0
    if tier == 'thorough' and not bad:
        validated, mism = natrep.validate(res)
        for m in mism:
            errors.append('native run disagrees: ' + m)
    # evidence
    J = [(h, j, w) for h, _, _, j, w in res if j]
    def tot(k):
        return sum(j[k] for _, j, _ in J)
    def sol(k):
        return sum(j['solver'][k] for _, j, _ in J)
    fns = sorted({f for _, j, _ in J for f in j['repo_functions']})
    samples = []
    for h, j, _ in J:
        for s in j['samples'][-2:]:
            samples.append({'harness': h.name, 'inputs': {k: b for k, b in s['inputs'][:24]}, 'scheduling_choices': s['sched']})
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'model_checking',
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('forks'),
            'traces_validated_against_impl': validated + replayed,
            'samples': samples[:40] or ['no symbolic input'],
            'rule': 'a state is one completed symbolic path (every value satisfying its path condition); a transition is one symbolic fork',
            'infeasible_paths': tot('infeasible'),
            'instructions_executed': tot('steps'),
            'symbolic_branches': tot('sym_branches'),
            'assertions_discharged_by_solver': tot('checks_proved'),
            'assertions_decided_concretely': tot('checks_concrete'),
            'solver': {'queries': sol('queries'), 'sat': sol('sat'), 'unsat': sol('unsat'), 'unknown': sol('unknown'), 'time_s': round(sol('time_s'), 3), 'max_query_s': max([j['solver']['max_query_s'] for _, j, _ in J] or [0])},
            'functions_encoded': len(fns), 'functions': fns[:400],
            'bounds': {h.name: h.bound for h in hs},
            'harnesses': {h.name: {'complete': j['complete'], 'paths': j['paths'], 'forks': j['forks'], 'steps': j['steps'], 'labels': j['labels'], 'covers': j['covers'], 'seconds': round(w, 2), 'input_bytes': j['max_input_bytes'], 'stubs': j['stubbed']} for h, j, w in J},
            'exhaustive': all(j['complete'] or (j['violations'] and not j['limit_msgs'] and not j['error_msgs']) for _, j, _ in J) and len(J) == len(hs),
            'incomplete': incomplete, 'errors': errors, 'unconfirmed': unconf,
            'known_findings_seen': [f'{a}:{b}' for a, b, _ in knownlines],
        },
        'assumptions': table.ASSUMPTIONS + prop.assumptions,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(reported),
    }
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    for (a, b, text) in sorted(knownlines):
        print(f'KNOWN-FINDING: property={pid} {text} [{a}: {b}]')
    for i in incomplete:
        print('INCOMPLETE', i[:600])
    for e in errors:
        print('ERROR', e[:1000])
    for u in unconf:
        print('UNCONFIRMED', u[:1000])
    for path, h, v, how in reported:
        print(f'# {h.name}: {v["label"]} {v["msg"][:200]} ({how})')
        print(f'VIOLATION property={pid} replay={path}')
    print(f'{pid} {tier}: paths={ev["coverage"]["states"]} queries={sol("queries")} proved={tot("checks_proved")} concrete={tot("checks_concrete")} build={bt:.1f}s wall={ev["wall_s"]}s')
    if reported:
        sys.exit(1)
    if errors or unconf:
        sys.exit(2)
    sys.exit(0)

if __name__ == '__main__':
    main()
