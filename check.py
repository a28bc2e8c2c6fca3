#!/usr/bin/env python3
"""Driver: build engine + harnesses from /repo's current tree, run the symbolic jobs of one property,
replay what the solver returned against the real code, write the evidence file."""
import argparse, concurrent.futures, fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
B = os.path.join(V, '.build')
sys.path.insert(0, os.path.join(V, 'checks'))
ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
PKG = {'te': 'trading-engine', 'ql': 'quantlib'}
RUSTFLAGS = '-C no-vectorize-loops -C no-vectorize-slp'
HOOK = ' --cfg verif'  # the hooks in /repo; without them (a change broke one) only what needs them is left out
SENSITIVE = ['RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'RUSTFLAGS', 'CARGO_BUILD_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS']
for k in SENSITIVE: ENV.pop(k, None)

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff if '/target' not in d)
        for f in fs:
            h.update(f.encode()); h.update(b'\0')
            with open(f, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()

def fail(msg):
    print('CHECK-ERROR: ' + msg); sys.stdout.flush(); os._exit(2)

class Lock:
    def __enter__(self):
        os.makedirs(B, exist_ok=True); self.f = open(os.path.join(B, 'lock'), 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

def build_engine():
    src = [os.path.join(V, 'engine', x) for x in ('src', 'Cargo.toml', 'build.rs', 'Cargo.lock') if os.path.exists(os.path.join(V, 'engine', x))]
    h = tree_hash(src); stamp = os.path.join(B, 'engine.stamp'); exe = os.path.join(B, 'engine/release/llsym')
    if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(exe): return exe
    r = sh(['cargo', '+stable', 'build', '--release'], cwd=os.path.join(V, 'engine'), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(B, 'engine')))
    if r.returncode: fail('engine build failed\n' + r.stdout[-4000:])
    open(stamp, 'w').write(h)
    return exe

def build_harness(c):
    """IR and native library of harness crate c, rebuilt whenever the contents of /repo or the harness changed."""
    pkg = PKG[c]
    src = [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, pkg, 'src'), os.path.join(REPO, pkg, 'Cargo.toml'),
           os.path.join(V, 'harness', c), os.path.join(V, 'harness/symrt'), os.path.join(V, 'harness/native')]
    h = tree_hash(src) + RUSTFLAGS; d = os.path.join(B, c); stamp = os.path.join(B, c + '.stamp')
    out = {'ll': os.path.join(d, 'cur.ll'), 'replay': os.path.join(d, 'replay'), 'hash': h}
    if os.path.exists(stamp) and open(stamp).read() == h and all(os.path.exists(out[k]) for k in ('ll', 'replay')): return out
    if os.path.exists(stamp): os.remove(stamp)
    # contents decide, not time stamps
    for p in glob.glob(f'{d}/release/.fingerprint/{pkg}-*') + glob.glob(f'{d}/release/.fingerprint/symrt-*') + glob.glob(f'{d}/release/.fingerprint/h_{c}-*') + glob.glob(f'{d}/release/deps/h_{c}-*.ll'):
        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    for flags in (RUSTFLAGS + HOOK, RUSTFLAGS):
        r = sh(['cargo', '+stable', 'rustc', '--release', '--', '--emit=llvm-ir,link'], cwd=os.path.join(V, 'harness', c), env=dict(ENV, CARGO_TARGET_DIR=d, RUSTFLAGS=flags))
        if not r.returncode: break
    if r.returncode: fail(f'building harness {c} against {REPO} failed\n' + r.stdout[-6000:])
    lls = sorted(glob.glob(f'{d}/release/deps/h_{c}-*.ll'), key=os.path.getmtime)
    if not lls: fail('no IR produced')
    shutil.copyfile(lls[-1], out['ll'])
    r = sh(['gcc', '-O1', '-o', out['replay'], os.path.join(V, 'harness/native/shim.c'), '-rdynamic', '-Wl,--whole-archive', f'{d}/release/libh_{c}.a', '-Wl,--no-whole-archive', '-lpthread', '-ldl', '-lm'])
    if r.returncode: fail('native replay build failed\n' + r.stdout[-3000:])
    open(stamp, 'w').write(h)
    return out

def sched_binary(b, c):
    """Native binary of harness c whose atomic operations call the replay scheduler first (same IR, one call inserted per operation)."""
    if 'sched' in b[c]: return b[c]['sched']
    d = os.path.join(B, c); out = os.path.join(d, 'replay-sched'); stamp = out + '.stamp'
    with Lock():
        if not (os.path.exists(stamp) and open(stamp).read() == b[c]['hash'] and os.path.exists(out)):
            at = re.compile(r'^\s+(%\S+ = )?(load atomic|store atomic|atomicrmw|cmpxchg) ')
            with open(b[c]['ll']) as f, open(out + '.ll', 'w') as g:
                for l in f:
                    if at.match(l): g.write('  call void @__sched_point()\n')
                    g.write(l)
                g.write('declare void @__sched_point()\n')
            root = subprocess.run(['rustc', '+stable', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
            llc = glob.glob(f'{root}/lib/rustlib/*/bin/llc')[0]
            r = sh([llc, '-O1', '-filetype=obj', '-relocation-model=pic', out + '.ll', '-o', out + '.o'])
            if not r.returncode: r = sh(['gcc', '-O1', '-DSCHED', '-o', out, os.path.join(V, 'harness/native/shim.c'), out + '.o', '-rdynamic', f'{d}/release/libh_{c}.a', '-lpthread', '-ldl', '-lm'])
            for e in ('.ll', '.o'):
                if os.path.exists(out + e): os.remove(out + e)
            if r.returncode: print('note: schedule replay build failed', r.stdout[-1500:]); out = None
            else: open(stamp, 'w').write(b[c]['hash'])
    b[c]['sched'] = out
    return out

def limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (int(gb * 2**30), int(gb * 2**30)))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

def run_job(exe, b, job, seed, idx):
    c = job['crate']
    outp = os.path.join(B, f'job-{os.getpid()}-{idx}.json')
    cmd = [exe, '--ir', b[c]['ll'], '--entry', job['entry'], '--time', str(job.get('time', 60)), '--seed', str(seed), '--out', outp, '--samples', str(job.get('samples', 3))]
    if job.get('params'): cmd += ['--params', ','.join(map(str, job['params']))]
    for k in ('steps', 'paths', 'switches', 't-inc', 't-full', 't-lia', 'max-viol', 'quiet-fmt'):
        if k in job: cmd += ['--' + k, str(job[k])]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limit(job.get('mem', 7)), timeout=job.get('time', 60) + 90)
        rc, tail = r.returncode, r.stdout[-600:]
    except subprocess.TimeoutExpired:
        rc, tail = 'timeout', ''
    res = None
    if os.path.exists(outp):
        try: res = json.load(open(outp))
        except Exception: pass
        os.remove(outp)
    if res is None: res = {'crashed': f'rc={rc} {tail}'}
    return res

def replay(b, job, inputs, timeout=20, valgrind=False, path=None, sched=None):
    path = path or os.path.join(B, f'in-{os.getpid()}-{time.monotonic_ns()}.txt')
    with open(path, 'w') as f: f.write(''.join(f'{w} {v}\n' for w, v in inputs))
    cmd = [b[job['crate']]['replay'], job['entry'], path]
    if job.get('params'): cmd.append(','.join(map(str, job['params'])))
    if sched:
        exe = sched_binary(b, job['crate'])
        if exe: cmd = [exe, job['entry'], cmd[2], ','.join(map(str, job.get('params') or [0])), ','.join(f'{p}:{t}' for p, t in sched)]
    if valgrind: cmd = ['valgrind', '-q', '--error-exitcode=99', '--undef-value-errors=no'] + cmd
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, preexec_fn=limit(16), cwd=B)
        res = (r.returncode, r.stdout)
    except subprocess.TimeoutExpired:
        res = ('timeout', '')
    if not path.startswith(os.path.join(V, 'evidence')): os.remove(path)
    return res

def demangle(names):
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    out = set()
    for l in r.stdout.split('\n'):
        l = re.sub(r'\[[0-9a-f]{8,}\]', '', l.strip())
        if 'trading_engine' in l or 'quantlib' in l: out.add(l[:160])
    return sorted(out)

def known_findings(prop):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k['status'] == 'known']

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true')
    ap.add_argument('--only'); ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from jobs import PROPS
    P = PROPS[a.prop]
    with Lock():
        exe = build_engine()
        jobs = [dict(j) for j in P['jobs'] if a.tier == 'thorough' or j.get('tier', 'quick') == 'quick']
        if a.tier == 'thorough':
            for j in jobs:
                j['time'] = j.get('ttime', max(600, 4 * j.get('time', 60)))
                if 'tparams' in j: j['params'] = j['tparams']
        if a.only: jobs = [j for j in jobs if re.search(a.only, j['entry'] + ':' + ','.join(map(str, j.get('params', []))))]
        b = {c: build_harness(c) for c in sorted({j['crate'] for j in jobs})}
    tb = time.time() - t0
    os.makedirs(os.path.join(V, 'evidence/replay'), exist_ok=True)
    for f in glob.glob(os.path.join(V, f'evidence/replay/{a.prop}-*')): os.remove(f)
    kf = known_findings(a.prop)
    viol, known, unconfirmed, mism, errors, samples, validated = [], {}, [], [], [], [], 0
    tot = dict(paths=0, forks=0, instrs=0, asserts=0, assert_unsat=0, queries=0, sat=0, unsat=0, unknown=0, lia=0, fallback=0, solver_s=0.0, panics=0)
    trunc, covers, fns, stubs, jrep, labels = {}, {}, set(), set(), [], {}
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex:
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('cost', jobs[i].get('time', 60)))
        fut = {i: ex.submit(run_job, exe, b, jobs[i], seed, i) for i in order}
        for i in range(len(jobs)):
            job, r = jobs[i], fut[i].result()
            name = job['entry'] + ('' if not job.get('params') else '(' + ','.join(map(str, job['params'])) + ')')
            if 'crashed' in r:
                errors.append(f'{name}: {r["crashed"]}'); trunc['job-crashed'] = trunc.get('job-crashed', 0) + 1
                if a.v: print(name, 'CRASHED', r['crashed'])
                continue
            for k in tot: tot[k] += r.get(k, 0)
            for k, v in r['truncated'].items(): trunc[k] = trunc.get(k, 0) + v
            for k, v in r['covers'].items(): covers[k] = covers.get(k, 0) + v
            for k, v in r['asserts_by'].items(): labels[k] = labels.get(k, 0) + v
            fns.update(r['functions']); stubs.update(r['stubs'])
            jrep.append({'job': name, 'paths': r['paths'], 'queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall'], 'truncated': r['truncated'], 'complete': not r['truncated']})
            if a.v: print(f"{name}: paths={r['paths']} q={r['queries']} unk={r['unknown']} solver={r['solver_s']:.1f} wall={r['wall']:.1f} trunc={r['truncated']} viol={r['viol_count']} susp={len(r['suspects'])} covers={r['covers']} stubs={r['stubs']}")
            missing = [c for c in job.get('cover', []) if c not in r['covers']]
            if missing and not r['truncated'] and not r['viol_count']: errors.append(f'{name}: vacuity guard: never reached {missing}')
            seen = {}
            for v in r['violations'] + [dict(s, kind='nonterm') for s in r['suspects']]:
                key = (v['kind'], v['label'], v['region'], v['loc'] if v['kind'] != 'assert' else '')
                if seen.get(key, 0) >= 3: continue
                seen[key] = seen.get(key, 0) + 1
                rc, out = replay(b, job, v['inputs'], sched=v['sched'])
                if v['kind'] == 'assert': ok = ('FAIL ' + v['label'] + '\n') in out
                elif v['kind'] == 'panic': ok = rc in (-6, 134, -4, -5, -8) or rc == -11
                elif v['kind'] == 'nonterm': ok = rc == 'timeout'
                else:
                    ok = rc in (-6, -11, -7)
                    if not ok: rc, out = replay(b, job, v['inputs'], valgrind=True, timeout=60, sched=v['sched']); ok = rc == 99
                rec = dict(job=name, kind=v['kind'], label=v['label'], region=v['region'], loc=v['loc'], inputs=v['inputs'], sched=v['sched'], native=str(rc), out=out[-500:])
                if not ok:
                    if v['kind'] == 'nonterm': trunc['step-budget'] = trunc.get('step-budget', 0) + 1
                    else: unconfirmed.append(rec)
                    if a.v: print('UNCONFIRMED', json.dumps(rec)[:1500])
                    continue
                k = next((k for k in kf if re.fullmatch(k['region'], v['region']) and v['kind'] in k['kinds'] and re.fullmatch(k.get('label', '.*'), v['label'])), None)
                if k: known.setdefault(k['id'], (k, rec)); continue
                if len(viol) < 40: viol.append((job, rec))
            for s in r['samples'][:3]:
                rc, out = replay(b, job, s['inputs'])
                obs = [l[4:] for l in out.split('\n') if l.startswith('OBS ')]
                want = [x for x in s['obs']]
                if rc == 0 and 'DONE' in out and obs == want: validated += 1
                elif not job.get('threads'):
                    mism.append({'job': name, 'rc': str(rc), 'want': want[:20], 'got': obs[:20], 'out': out[-300:], 'inputs': s['inputs'][:60]})
                    if a.v: print('MISMATCH', mism[-1])
                if len(samples) < 6: samples.append({'job': name, 'inputs': s['inputs'][:40], 'observed': s['obs'][:20]})
    # report
    dedup = {}
    for job, rec in viol: dedup.setdefault((job['entry'], rec['kind'], rec['label'], rec['region']), []).append((job, rec))
    lines = []
    for n, ((entry, kind, label, region), l) in enumerate(sorted(dedup.items())):
        job, rec = l[0]
        path = os.path.join(V, f'evidence/replay/{a.prop}-{n}.txt')
        replay(b, job, rec['inputs'], path=path, timeout=5, sched=rec['sched'])
        meta = dict(rec, entry=entry, params=job.get('params', []), command=f"{b[job['crate']]['sched' if rec['sched'] else 'replay']} {entry} {path} {','.join(map(str, job.get('params') or [0]))} {','.join(f'{p}:{t}' for p, t in rec['sched'])}", note='input values consumed by the harness in order: lines "<width> <value>" in the .txt file; width 0 is an enumerated choice')
        json.dump(meta, open(path[:-4] + '.json', 'w'), indent=1)
        print(f'  {kind} in {entry}: {label or rec["loc"]} (region {region or "-"}), inputs {[x[1] for x in rec["inputs"]][:24]}, native replay: {rec["native"]} {rec["out"].strip()[-200:]}')
        lines.append(f'VIOLATION property={a.prop} replay={path}')
    for k, rec in known.values(): print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    complete = sum(1 for j in jrep if j['complete'])
    notes = list(P.get('assumptions', []))
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(dedup),
        'assumptions': notes + ['rustc/LLVM front end, the IR semantics implemented by the executor, and z3 are trusted; allocation never fails',
                                'integer arithmetic is compiled with overflow checks on (as in the test profile)'],
        'coverage': {
            'states': tot['paths'], 'transitions': tot['forks'] + tot['queries'], 'traces_validated_against_impl': validated, 'samples': samples,
            'exhaustive': complete == len(jobs) and not errors and not unconfirmed,
            'meaning': 'states = symbolic paths completed (each stands for every input satisfying its path condition); transitions = path forks plus solver queries',
            'bounds': P['bounds'], 'outside_bounds': P.get('outside', ''), 'functions_encoded': demangle(fns), 'instructions_executed': tot['instrs'],
            'queries': {k: tot[k] for k in ('queries', 'sat', 'unsat', 'unknown', 'lia', 'fallback')}, 'solver_s': round(tot['solver_s'], 2), 'build_s': round(tb, 1),
            'assertions_checked': tot['asserts'], 'assertions_by_label': labels, 'covers': covers, 'library_stubs': sorted(stubs),
            'jobs': jrep, 'jobs_total': len(jobs), 'jobs_complete': complete, 'truncated': trunc,
            'unconfirmed_counterexamples': unconfirmed[:5], 'sample_mismatches': mism[:5], 'errors': errors[:10], 'known_findings': [k for k in known],
        }}
    json.dump(ev, open(os.path.join(V, f'evidence/{a.prop}.json'), 'w'), indent=1)
    print(f"{a.prop} [{a.tier}] jobs {complete}/{len(jobs)} complete, paths {tot['paths']}, assertions {tot['asserts']}, queries {tot['queries']} (unknown {tot['unknown']}), solver {tot['solver_s']:.1f}s, wall {time.time()-t0:.1f}s, validated {validated}, truncated {trunc}")
    for e in errors: print('  note:', e)
    for m in mism[:3]: print('  sample mismatch:', json.dumps(m)[:400])
    for u in unconfirmed[:3]: print('  unconfirmed:', json.dumps(u)[:400])
    for l in lines: print(l)
    sys.stdout.flush()
    if lines: os._exit(1)
    if errors and any('vacuity' in e for e in errors): os._exit(2)
    if tot['paths'] == 0: os._exit(2)
    os._exit(0)

if __name__ == '__main__': main()
