"""Confirm counterexamples: natively on the real code, or (schedules, memory errors) by deterministic re-execution."""
import json, os, shutil, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
WORK = V + '/.work'
BIN = WORK + '/native/release/replay'
_built = False

def build():
    global _built
    if _built:
        return True
    import subset
    env = dict(os.environ, RUSTFLAGS='-Awarnings')
    p = subprocess.run(['cargo', '+stable', 'build', '--release', '--offline', '--features', 'native', '--bin', 'replay', '--target-dir', WORK + '/native'], cwd=V + '/harness', env=env, capture_output=True, text=True)
    _built = p.returncode == 0
    if not _built:
        print(p.stderr[-1500:])
    return _built

def save(pid, n, h, v):
    d = WORK + '/replays'
    os.makedirs(d, exist_ok=True)
    path = f'{d}/{pid}-{h.name}-{n}.vec'
    with open(path, 'w') as f:
        f.write(f'# property {pid} harness {h.name} label {v["label"]}\n# {v["msg"]}\n')
        for s in v['stack'][:8]:
            f.write('#  at ' + s + '\n')
        for s in v['notes'][-8:]:
            f.write('#  note ' + s + '\n')
        f.write('# schedule ' + ' '.join(map(str, v['sched'])) + '\n')
        f.write(f'# replay natively: {BIN} {h.name} {path}\n')
        for k, b in v['inputs']:
            f.write(f'{k.replace(" ", "_")} {b}\n')
    return path

def runnative(h, path, timeout=60):
    d = tempfile.mkdtemp(prefix='ferrite-replay-')
    try:
        p = subprocess.run([BIN, h.name, path], cwd=d, capture_output=True, text=True, timeout=timeout, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    finally:
        shutil.rmtree(d, ignore_errors=True)

def native(h, v, path):
    if not build():
        return False, 'native replay does not build'
    last = ''
    for _ in range(4):
        rc, out = runnative(h, path)
        last = f'rc={rc} {out[-300:]}'
        lab = v['label']
        if rc == 10 and 'CHECK-FAILED' in out:
            return True, 'reproduced natively: ' + out.strip().splitlines()[-1]
        if lab in ('panic', 'abort', 'stack-overflow', 'allocation-failure') and rc not in (0, 10, 12, 'timeout'):
            return True, f'reproduced natively: rc={rc}'
        if rc == 11:
            return True, 'reproduced natively: uncaught panic'
        if rc == 'timeout':
            return True, 'native run does not terminate'
    return False, last

def engine(h, v, path, ENGINE, WORK):
    out = WORK + '/out/replay.json'
    clean = path + '.in'
    with open(clean, 'w') as f:
        for k, b in v['inputs']:
            f.write(f'x {b}\n')
    subprocess.run([ENGINE, '--list', WORK + '/ir.list', '--entry', h.name, '--time', str(h.time), '--viol', '40', '--replay', clean, '--out', out] + h.opts, capture_output=True)
    os.unlink(clean)
    try:
        j = json.load(open(out))
    except Exception:
        return False, 'replay failed'
    if any(x['label'] == v['label'] for x in j['violations']):
        return True, 'reproduced by re-executing the real code with this input' + (' and its schedules' if v['sched'] else '')
    return False, 'not reproduced on re-execution'

def validate(res):
    """run witnesses of completed paths natively: they must complete"""
    ok, bad = 0, []
    todo = [(h, j) for h, _, _, j, _ in res if j and h.native and not j['violations']]
    if not todo or not build():
        return 0, []
    for h, j in todo:
        for n, s in enumerate(j['samples'][:6]):
            if s['sched'] and not h.native:
                continue
            path = f'{WORK}/out/wit-{h.name}-{n}.vec'
            with open(path, 'w') as f:
                for k, b in s['inputs']:
                    f.write(f'{k.replace(" ", "_")} {b}\n')
            rc, out = runnative(h, path)
            if rc == 0 and 'ASSUMPTION-FAILED' not in out:
                ok += 1
            else:
                bad.append(f'{h.name} {path} rc={rc} {out[-200:]}')
    return ok, bad
