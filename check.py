#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]

1. proves the contracts of the property on the functions of /repo's current tree (pyv/specs/<id>.py),
2. runs the executable specification of the property on the real code (oracle/<id>.py, bounded),
3. writes evidence/<id>.json.
Exit 0: nothing violates the property; exit 1: VIOLATION line.
"""
import argparse
import importlib
import importlib.util
import json
import os
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from oracle import common  # noqa: E402

common.setup_path()
FINDINGS = os.path.join(HERE, 'known-findings.txt')

# bounded part: (number of cases, seconds) per tier
BUDGET = {'quick': (60000, 25.0), 'thorough': (6000000, 600.0)}
CASES = {'C07': (30000, 30.0), 'C09': (60000, 35.0), 'C08': (60000, 30.0), 'C16': (20000, 20.0), 'C17': (20000, 25.0)}


def findings(pid):
    """known findings: id -> text"""
    res = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith(f'known: property={pid} '):
                rest = line[len(f'known: property={pid} '):].strip()
                fid, _s, text = rest.partition(' ')
                res[fid.removeprefix('id=')] = text
    return res


def run_proof(pid, tier, budget):
    """the proof runs in a process of its own: it can be stopped and cannot disturb the rest"""
    if importlib.util.find_spec(f'pyv.specs.{pid.lower()}') is None:
        return None
    out = os.path.join(HERE, 'evidence', f'.proof-{pid}.json')
    if os.path.exists(out):
        os.unlink(out)
    t0 = time.time()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        p = subprocess.Popen([sys.executable, '-m', 'pyv.prove', pid, out, tier, str(budget)], cwd=HERE, env=env, start_new_session=True,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log = p.communicate(timeout=budget + 60)[0]
    except subprocess.TimeoutExpired:
        log = f'timeout after {budget}s'
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    if os.path.exists(out):
        with open(out) as f:
            rep = json.load(f)
        os.unlink(out)
    else:
        rep = dict(obligations=[], functions=[], trusted=[], assumptions=[], error=f'the prover ended without a report: {log[-2000:]}')
    rep['wall_s'] = round(time.time() - t0, 2)
    return rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--no-oracle', action='store_true')
    a = ap.parse_args()
    pid = a.pid.upper()
    tier = a.tier if a.tier in BUDGET else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    known = findings(pid)
    mod = importlib.import_module(f'oracle.{pid.lower()}')

    proof = None if a.no_proof else run_proof(pid, tier, 300 if tier == 'quick' else 1800)
    seen = {}
    for o in proof['obligations'] if proof else []:
        if o['status'] == 'failed' and o.get('finding') in known:
            o['status'] = 'known-finding'
            seen.setdefault(o['finding'], o['name'])
    failed = [o for o in proof['obligations'] if o['status'] == 'failed'] if proof else []
    undecided = [o for o in proof['obligations'] if o['status'] == 'undecided'] if proof else []

    n, secs = CASES.get(pid, BUDGET['quick']) if tier == 'quick' else BUDGET['thorough']
    if failed:
        n, secs = n * 6, secs * 4     # look harder for an input that fails on the real code
    if a.no_oracle:
        n = 0
    res = common.run(f'oracle.{pid.lower()}', seed, n, secs)

    violations = 0
    exit_code = 0
    replay = os.path.join(evid, f'replay-{pid}.json')
    if os.path.exists(replay):
        os.unlink(replay)
    for k in sorted(set(res['known']) | set(seen)):
        if k in known:
            print(f'KNOWN-FINDING: property={pid} {k}: {known[k]}' + (f' (obligation {seen[k]})' if k in seen else ''))
        else:
            res['bad'] = res['bad'] or res['known'][k]
    if res['bad']:
        case, msg = res['bad']
        with open(replay, 'w') as f:
            json.dump(dict(property=pid, case=case, message=msg, failed_obligations=failed,
                           replay_cmd=f'cd {HERE} && python3-vt replay.py {replay}'), f, indent=1)
        print(f'{pid}: {msg}'[:3000])
        for o in failed[:5]:
            print(f'failed obligation: {o["name"]}: {o.get("detail", "")}'[:600])
        print(f'VIOLATION property={pid} replay={replay}')
        violations, exit_code = 1, 1
    elif failed:
        with open(replay, 'w') as f:
            json.dump(dict(property=pid, case=None, message='no failing input found', failed_obligations=failed), f, indent=1)
        for o in failed[:5]:
            print(f'failed obligation: {o["name"]}: {o.get("detail", "")}'[:1000])
        print(f'VIOLATION property={pid} replay={replay} no-failing-input-found')
        violations, exit_code = len(failed), 1

    for e in res['errors'][:3]:
        print('error in the bounded part:', e[-1500:])
    bounded = dict(evaluations=res['done'], distinct_nontrivial=res['distinct'], rule=getattr(mod, 'RULE', ''), samples=res['samples'] or [c for c in [next(iter(getattr(mod, 'fixed', lambda: [])()), None)] if c],
                   timeouts=res['timeouts'], fixed_cases=res['fixed'], errors=len(res['errors']))
    cov = {}
    level = 'exploration'
    assumptions = []
    if proof is not None:
        obs = proof['obligations']
        done = [o for o in obs if o['status'] == 'discharged']
        level = proof.get('level', 'proof')
        backends = {'symbolic execution of the source (pyv): paths': proof.get('paths'), 'z3: queries': proof.get('z3_calls'),
                    'automata library: language queries': proof.get('lang_checks')}
        cov = dict(obligations=len(obs), discharged=len(done), failed=len(failed), undecided=len(undecided), known_finding=len(obs) - len(done) - len(failed) - len(undecided),
                   checker_cmd=f'cd {HERE} && python3-vt -m pyv.prove {pid} /dev/stdout {tier} 300',
                   trusted_base=['semantics of Python and of the built-in types as implemented by pyv/interp.py, models.py, loops.py, rematch.py, automata.py'] + [f'{k}: {v}' for k, v in dict(proof.get('trusted') or {}).items()],
                   functions_under_contract=proof.get('functions', []),
                   backends=backends, proof_wall_s=proof.get('wall_s'), solver_s=proof.get('solver_s'), paths=proof.get('paths'),
                   obligation_list=[dict(name=o['name'], status=o['status'], checked_on_paths=o.get('checked'), detail=(o.get('detail') or '')[:300]) for o in obs],
                   vacuity=proof.get('vacuity'))
        if proof.get('error'):
            cov['error'] = proof['error']
            print('proof part:', proof['error'][-1500:])
        if not obs:
            print('proof part: no obligation was generated (nothing is proved on this tree)')
        assumptions = proof.get('assumptions', [])
        cov['bounded_part'] = bounded
        cov['explanation'] = ('obligations: contracts of the listed functions, discharged for all inputs; bounded_part: executable specification of the whole property '
                              'on the real code (labelled bounded, not counted as proved); undecided obligations are covered by the bounded part only')
        cov['evaluations'] = bounded['evaluations']
        cov['distinct_nontrivial'] = bounded['distinct_nontrivial']
        cov['rule'] = bounded['rule']
        cov['samples'] = bounded['samples']
        for o in undecided[:10]:
            print(f'undecided obligation: {o["name"]}: {o.get("detail", "")}'[:400])
        print(f'{pid}: {len(done)}/{len(obs)} obligations discharged ({len(undecided)} undecided, {len(failed)} failed) in {proof.get("wall_s")}s')
    else:
        cov = bounded
    print(f'{pid}: bounded part: {res["done"]} cases, {res["distinct"]} distinct and non-trivial, {res["timeouts"]} timeouts')
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=violations)
    with open(os.path.join(evid, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return exit_code


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
