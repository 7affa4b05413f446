#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decides one property on /repo's current working tree.

1. The functions the property depends on are extracted from /repo/src and joined with the contracts in
   /verif/contracts; Verus has to discharge every obligation.  A second run of Verus with canaries (assertions that
   must fail) makes sure that no contract is vacuous.
2. The harness searches for a failing input in the real crate with an executable form of the same property.  It gives
   the failing input for a failed obligation and is the (bounded) stand-in for code out of reach of the verifier.

Exit 0: property holds on everything explored.  Exit 1: VIOLATION line.  Exit 2: no answer.
"""
import glob, json, os, shutil, subprocess, sys, threading, time, re
import vgen

V = os.path.dirname(os.path.abspath(__file__))
BUILD = f'{V}/build'
TARGET = f'{BUILD}/target'

# components (contract files) that carry the obligations of each property
COMPONENTS = {
    'C01': ['trace'], 'C02': ['trace'], 'C03': ['trace'], 'C04': ['trace'], 'C05': ['trace'], 'C06': ['trace'],
    'C07': ['trace'], 'C08': [], 'C09': [], 'C10': [], 'C11': [], 'C12': [], 'C13': [], 'C14': [], 'C15': [], 'C16': [],
    'C17': [], 'C18': [], 'C19': [], 'C20': ['trace'], 'C21': [], 'C22': [],
}
# what of the property is not under contract and is only searched for failing inputs
BOUNDED = {}
try:
    from scope import COMPONENTS, BOUNDED  # noqa
except ImportError:
    pass

ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
ENV.pop('CARGO_TARGET_DIR', None)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def findings():
    """-> {property: {finding id: text}} of the recorded (not repaired) findings"""
    r = {}
    for l in open(f'{V}/KNOWN_FINDINGS.md'):
        m = re.match(r'finding: property=(C\d+) id=(\w+) (.*)', l.strip())
        if m:
            r.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return r


def build_extractor():
    p = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked', '--quiet'], cwd=f'{V}/extract', env=ENV, capture_output=True, text=True)
    if p.returncode != 0:
        raise SystemExit2('extractor does not build:\n' + p.stderr[-2000:])


class SystemExit2(Exception):
    pass


def build_harness():
    """Builds the harness and the program from /repo's current tree (never from a cached build of it)."""
    for d in glob.glob(f'{TARGET}/debug/.fingerprint/reqtrace-*') + glob.glob(f'{TARGET}/debug/.fingerprint/harness-*'):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(ENV, CARGO_TARGET_DIR=TARGET)
    a = subprocess.run(['cargo', 'build', '--offline', '--locked', '--quiet', '--manifest-path', '/repo/Cargo.toml', '--bin', 'reqtrace'], env=env, capture_output=True, text=True)
    if a.returncode != 0:
        return 'the program does not build:\n' + a.stderr[-3000:]
    b = subprocess.run(['cargo', 'build', '--offline', '--locked', '--quiet', '--manifest-path', f'{V}/harness/Cargo.toml'], env=env, capture_output=True, text=True)
    if b.returncode != 0:
        return 'the harness does not build:\n' + b.stderr[-3000:]
    return None


def run_harness(prop, seed, units, secs, only=None):
    scratch = f'{BUILD}/scratch_{prop}_{os.getpid()}_{seed}'
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cmd = [f'{TARGET}/debug/harness', prop, '--seed', str(seed), '--units', str(units), '--secs', str(secs), '--bin', f'{TARGET}/debug/reqtrace', '--scratch', scratch]
    if only:
        cmd += ['--only', only]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=secs * 3 + 120, cwd=scratch)
    except subprocess.TimeoutExpired:
        # the code under test does not come back: find out on which case
        return {'error': 'timeout', 'cmd': cmd}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    try:
        r = json.loads(p.stdout.strip().split('\n')[-1])
    except (ValueError, IndexError):
        return {'error': f'harness ended with {p.returncode}: {p.stderr[-1500:]}', 'cmd': cmd}
    r['cmd'] = cmd
    return r


def semantic(d):
    m = d['message'].lower()
    return any(k in m for k in vgen.SEMANTIC)


def limit(d):
    m = d['message'].lower()
    return 'resource limit' in m or 'rlimit' in m or 'timed out' in m or 'canceled' in m


def verify(prop, name, tier, out):
    try:
        verify_(prop, name, tier, out)
    except Exception:
        import traceback
        out[name] = {'component': name, 'status': 'undecided', 'reason': 'generator: ' + traceback.format_exc()[-600:]}


def verify_(prop, name, tier, out):
    """-> result of the component: status proved | failed | undecided"""
    res = {'component': name}
    t0 = time.time()
    try:
        g = vgen.Gen(name, prop)
    except vgen.Lost as e:
        res.update(status='undecided', reason=f'contract not attachable: {e}')
        out[name] = res
        return
    wd = f'{BUILD}/verus/{prop}_{os.getpid()}_{name}'
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    path = f'{wd}/{name}.rs'
    open(path, 'w').write(g.text())
    gc = vgen.Gen(name, prop, canary=True)
    cpath = f'{wd}/{name}_canary.rs'
    open(cpath, 'w').write(gc.text())
    box = {}
    th = threading.Thread(target=lambda: box.update(c=vgen.verus(cpath, rlimit=60, timeout=60 if tier == 'quick' else 600)))
    th.start()
    r = vgen.verus(path, rlimit=60 if tier == 'quick' else 200, timeout=200, errors=6)
    rl = 60 if tier == 'quick' else 200
    kw = {}

    def again(**more):
        k = dict(kw, **more)
        h = vgen.Gen(name, prop, **k)
        open(path, 'w').write(h.text())
        return k, h, vgen.verus(path, rlimit=rl, timeout=200, errors=6)

    try:
        for _ in range(3):
            # clauses about locals that are gone: perhaps it can be proved without them
            lost = vgen.lost_locals(g, r) if r['status'] == 'compile' else set()
            if not lost:
                break
            kw, g, r = again(skip=lost | set(g.skipped))
        if g.guesses and r['status'] != 'ok':
            kw, g, r = again(guess=False)
        if g.alternatives and r['status'] == 'failed':
            k, h, q = again(alt=1)
            if q['status'] == 'ok':
                kw, g, r = k, h, q
            else:
                open(path, 'w').write(g.text())
    except vgen.Lost as e:
        th.join()
        shutil.rmtree(wd, ignore_errors=True)
        res.update(status='undecided', reason=f'contract not attachable: {e}')
        out[name] = res
        return
    if g.skipped and r['status'] != 'ok':
        th.join()
        shutil.rmtree(wd, ignore_errors=True)
        res.update(status='undecided', reason=f'the contracts speak of locals that are gone: {g.skipped}')
        out[name] = res
        return
    if r['status'] == 'failed' and any(semantic(d) or limit(d) for d in r['errors']):
        # an unlucky search of the solver is not a failed obligation: once more with more time and another seed
        r2 = vgen.verus(path, rlimit=300, seed=7, timeout=200, errors=6)
        if r2['status'] in ('ok', 'failed'):
            r = r2
    th.join()
    if kw.get('skip') or kw.get('alt'):
        gc = vgen.Gen(name, prop, canary=True, **kw)
        open(cpath, 'w').write(gc.text())
        box['c'] = vgen.verus(cpath, rlimit=60, timeout=60 if tier == 'quick' else 600)
    c = box['c']
    if g.skipped:
        res['left_out'] = g.skipped
    res.update(functions=[f.id for f in g.comp['fns'] if f.mode == 'fn'], elsewhere=[f.id for f in g.comp['fns'] if f.mode == 'extern'],
               trusted=[f.id for f in g.comp['fns'] if f.mode == 'trusted'], clauses=g.clauses, inlined=g.inlined, rules=g.rules, dropped=g.dropped,
               verified=r.get('verified', 0), failed=r.get('failed', 0), smt_ms=r.get('smt_ms', 0), cmd=r['cmd'], notes=g.comp['notes'],
               external=len(re.findall(r'external_body', g.text())), axioms=sorted(set(re.findall(r'axiom fn (\w+)', g.text()))),
               assumes=len(re.findall(r'\b(?:assume|admit)\s*\(', g.text())))
    if r['status'] == 'ok':
        hit = set()
        for d in c.get('errors', []):
            for s in d['spans']:
                for l in range(s['line_start'], s['line_end'] + 1):
                    k = gc.map.get(l, '')
                    if k.startswith('CANARY'):
                        hit.add(int(k.split()[1]))
        miss = [w for i, w in enumerate(gc.canaries) if i not in hit]
        res['canaries'] = len(gc.canaries)
        res['canaries_failing_as_they_must'] = len(gc.canaries) - len(miss)
        # a canary that neither failed nor could be proved (time or resource limit) says nothing; only a proved one shows vacuity
        unsure = c['late'] or any(limit(d) for d in c.get('errors', []))
        if unsure:
            res['canaries_unconfirmed'] = miss
        if not unsure and (c['status'] == 'compile' or miss):
            res.update(status='undecided', reason=f'vacuity check: {miss or c["stderr"][-500:]}')
        elif r['verified'] == 0:
            res.update(status='undecided', reason='no obligations')
        else:
            res.update(status='proved')
    elif r['status'] == 'failed' and g.renamed and all(semantic(d) and vgen.describe(g, d)[2] in g.renamed for d in r['errors'] if not limit(d)):
        res.update(status='undecided', reason=f'locals of {g.renamed} do not have the names the contracts speak of')
    elif r['status'] == 'failed' and g.reordered:
        res.update(status='undecided', reason=f'the loops of {g.reordered} stand in another order than in the contracts')
    elif r['status'] == 'failed' and all(semantic(d) for d in r['errors'] if not limit(d)) and any(semantic(d) for d in r['errors']):
        obs = []
        for d in r['errors']:
            if limit(d):
                continue
            m, desc, owner, where, other = vgen.describe(g, d)
            obs.append({'obligation': f'{m}: {desc}', 'function': owner, 'at': where, 'see': other, 'verifier': d['rendered'][:3000]})
        res.update(status='failed', failures=obs)
    else:
        why = [d['message'] for d in r['errors']][:5]
        res.update(status='undecided', reason=f'verifier gave no verdict ({r["status"]}): {why}')
    res['wall_s'] = round(time.time() - t0, 2)
    shutil.rmtree(wd, ignore_errors=True)
    out[name] = res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    os.makedirs(f'{V}/evidence', exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    known = findings().get(prop, {})
    build_extractor()
    box = {}
    hb = threading.Thread(target=lambda: box.update(err=build_harness()))
    hb.start()
    out = {}
    ths = [threading.Thread(target=verify, args=(prop, c, tier, out)) for c in COMPONENTS[prop]]
    for t in ths:
        t.start()
    hb.join()
    # search for a failing input
    runs = []
    if box['err']:
        log(box['err'])
        if box['err'].startswith('the program does not build'):
            for t in ths:
                t.join()
            return 2
    else:
        plan = [(seed, 12, 45)] if tier == 'quick' else [(seed + k, 60, 150) for k in range(4)]
        for s, u, secs in plan:
            runs.append(run_harness(prop, s, u, secs))
            if runs[-1].get('violation') or runs[-1].get('error'):
                break
    for t in ths:
        t.join()
    comps = [out[c] for c in COMPONENTS[prop]]
    failed = [c for c in comps if c['status'] == 'failed']
    undecided = [c for c in comps if c['status'] == 'undecided']
    if (failed or undecided) and runs and not any(r.get('violation') or r.get('error') for r in runs):
        # the proof did not go through: look harder
        runs.append(run_harness(prop, seed + 1000, 60, 120))
    viol = next((r['violation'] for r in runs if r.get('violation')), None)
    errs = [r for r in runs if r.get('error')]
    seen = sorted({k for r in runs for k in r.get('known', [])})
    unlisted = [k for k in seen if k not in known]

    for k in seen:
        if k in known:
            print(f'KNOWN-FINDING: property={prop} {known[k]}')
    replay = None
    code = 0
    tail = ''
    os.makedirs(f'{BUILD}/replay', exist_ok=True)
    if viol or unlisted:
        replay = f'{BUILD}/replay/{prop}.json'
        cmd = next(r['cmd'] for r in runs if r.get('violation') or unlisted)
        json.dump({'property': prop, 'failing_input': viol, 'unlisted_findings': unlisted,
                   'replay': f"cd {V} && python3 replay.py {BUILD}/replay/{prop}.json", 'harness_cmd': cmd,
                   'failed_obligations': [o for c in failed for o in c['failures']]}, open(replay, 'w'), indent=1)
        code = 1
    elif any(r['error'] == 'timeout' for r in errs):
        replay = f'{BUILD}/replay/{prop}.json'
        json.dump({'property': prop, 'failure': 'the code under test does not terminate', 'harness_cmd': errs[0]['cmd'],
                   'failed_obligations': [o for c in failed for o in c['failures']]}, open(replay, 'w'), indent=1)
        code = 1
    elif errs:
        # abort of the process (stack overflow, out of memory): the real code did that on a generated input
        replay = f'{BUILD}/replay/{prop}.json'
        json.dump({'property': prop, 'failure': errs[0]['error'], 'harness_cmd': errs[0]['cmd'],
                   'failed_obligations': [o for c in failed for o in c['failures']]}, open(replay, 'w'), indent=1)
        code = 1
    elif failed:
        replay = f'{BUILD}/replay/{prop}.json'
        json.dump({'property': prop, 'failing_input': None, 'failed_obligations': [o for c in failed for o in c['failures']],
                   'searched': [{k: r.get(k) for k in ('evaluations', 'cmd')} for r in runs]}, open(replay, 'w'), indent=1)
        code, tail = 1, ' no-failing-input-found'
    elif box['err'] and (undecided or not comps):
        log('neither the proof nor the search gave an answer')
        code = 2

    # evidence
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'wall_s': 0, 'violations': 1 if code == 1 else 0}
    cov = {}
    proved = [c for c in comps if c['status'] == 'proved']
    ob = sum(c.get('verified', 0) + c.get('failed', 0) for c in comps)
    dis = sum(c.get('verified', 0) for c in comps if c['status'] == 'proved')
    evals = sum(r.get('evaluations', 0) for r in runs)
    cov['evaluations'] = evals
    cov['distinct_nontrivial'] = sum(r.get('distinct_nontrivial', 0) for r in runs)
    cov['rule'] = ('harness: pseudo random inputs (from the seed) for the real code, compared with an executable form of the property; '
                   'non-trivial: the property has something to say about the input (e.g. at least one reference, requirement, error), counted by distinct input text')
    cov['samples'] = [s for r in runs for s in r.get('samples', [])][:3]
    cov['harness_parts'] = [p for r in runs for p in r.get('parts', [])]
    cov['components'] = [{k: v for k, v in c.items() if k not in ('failures',)} for c in comps]
    trusted = []
    if comps:
        cov['obligations'] = ob
        cov['discharged'] = dis
        cov['checker_cmd'] = '; '.join(c['cmd'] for c in comps if 'cmd' in c) or 'verus'
        trusted = ['Verus 0.2026.09.13 and its Z3', 'extractor /verif/extract (mechanical desugaring; rules counted per component; drops log and requirement_covered! macros)',
                   'contracts/prelude.rs: assumed contracts of the standard library (external_body functions and axioms listed below)',
                   'derived Clone and PartialEq of /repo types are structural (derive lists are checked on every run)']
        for c in comps:
            for f in c.get('trusted', []):
                trusted.append(f'assumed contract of {f} ({c["component"]})')
        cov['trusted_base'] = trusted
        cov['contract_clauses'] = sum(c.get('clauses', 0) for c in comps)
        cov['functions_under_contract'] = sorted({f for c in comps for f in c.get('functions', [])})
        cov['solver_ms'] = sum(c.get('smt_ms', 0) for c in comps)
        cov['back_end'] = 'Verus with Z3'
    cov['bounded'] = BOUNDED.get(prop, [])
    if undecided:
        cov['bounded'] = cov['bounded'] + [f'{c["component"]}: {c["reason"]} - decided by the harness only (bounded)' for c in undecided]
    ev['level'] = 'proof' if comps and not undecided else 'exploration'
    ev['coverage'] = cov
    ev['assumptions'] = sorted({f'axiom {a}' for c in comps for a in c.get('axioms', [])}
                               | {f'{c["component"]}: {c.get("external", 0)} external_body items (prelude, opaque types, derived Clone/PartialEq)' for c in comps if 'external' in c}
                               | {f'{c["component"]}: note: {n}' for c in comps for n in c.get('notes', [])}
                               | {f'{c["component"]}: {c.get("assumes", 0)} assume/admit' for c in comps if 'assumes' in c})
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for c in comps:
        log(f'{prop} {c["component"]}: {c["status"]} {c.get("reason", "")} verified={c.get("verified")} failed={c.get("failed")} canaries={c.get("canaries")} wall={c.get("wall_s")}')
        for o in c.get('failures', []):
            log('   ', o['obligation'][:300])
    log(f'{prop} harness: {evals} cases, {cov["distinct_nontrivial"]} distinct non-trivial; total {ev["wall_s"]} s')
    if code == 1:
        if viol:
            log('failing input', viol['case'], str(viol['failure'])[:600])
        print(f'VIOLATION property={prop} replay={replay}{tail}')
    elif code == 0:
        print(f'OK property={prop} level={ev["level"]}')
    return code


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit2 as e:
        log(e)
        sys.exit(2)
    except Exception:
        import traceback
        log(traceback.format_exc())
        sys.exit(2)
