"""The check of one property:  check.py ID [quick|thorough]

1. The contracts of /verif/contracts are spliced into the code of /repo and every obligation is put to Verus.
2. In parallel, the bounded layer: random histories against the real code, compared with a reference model
   (never counted as proved; it provides the failing input when an obligation fails).
Exit 0: nothing found. Exit 1 with a VIOLATION line: a failed obligation of this property, or a failing history.
"""
import json
import os
import re
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import verify  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN='1.88.0', CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)


def known(prop):
    out = []
    for line in open(os.path.join(ROOT, 'known_findings.txt')):
        m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', line.strip())
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


class Harness:
    def __init__(self, prop, seed):
        self.prop, self.seed = prop, seed
        self.target = os.path.join(ROOT, 'build', 'harness')
        self.bin = os.path.join(self.target, 'debug', 'sfh')
        self.note = None
        self.found = None
        self.stats = []

    def build(self):
        p = subprocess.run(['cargo', 'build', '--offline', '--target-dir', self.target], cwd=os.path.join(ROOT, 'harness'),
                           env=ENV, capture_output=True, text=True)
        if p.returncode != 0:
            self.note = 'the harness does not build against this tree: ' + p.stderr[-600:]
            return False
        return True

    def search(self, secs, seed, threads):
        out = os.path.join(ROOT, 'replay', f'{self.prop}-{seed}.json')
        try:
            p = subprocess.run([self.bin, 'search', '--prop', self.prop, '--seed', str(seed), '--secs', str(secs),
                                '--threads', str(threads), '--out', out], env=ENV, capture_output=True, text=True, timeout=secs * 3 + 120)
        except subprocess.TimeoutExpired:
            self.note = 'a search did not end'
            return
        for line in p.stdout.splitlines():
            if line.startswith('STATS '):
                self.stats.append(json.loads(line[6:]))
        if p.returncode == 1 and os.path.exists(out):
            self.found = out
        elif p.returncode not in (0, 1):
            self.note = f'a search ended with {p.returncode}: {p.stderr[-300:]}'


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    for d in ('build', 'replay', 'evidence'):
        os.makedirs(os.path.join(ROOT, d), exist_ok=True)
    h = Harness(prop, seed)
    secs = 25 if tier == 'quick' else 400

    def bounded():
        if h.build():
            h.search(secs, seed, 6)

    th = threading.Thread(target=bounded)
    th.start()
    r = verify.verify(os.path.join(ROOT, 'build', 'verus'), threads=4)
    smoke = None
    if tier == 'thorough' and not r['broken'] and not r['failures']:
        smoke = verify.verify(os.path.join(ROOT, 'build', 'verus'), smoke=True, threads=4)
    th.join()

    fails = [f for f in r['failures'] if prop in f['tags']]
    mytags = {f['name']: f['tags'] for f in (r['rep'].fns if r.get('rep') else [])}
    suspects = [n for n in r['undecided'] if prop in mytags.get(n, [prop])]
    if (fails or suspects or r['broken']) and not h.found and not (h.note or '').startswith('the harness'):
        # look longer for an input that shows the failed obligation
        for k in range(1, 4):
            h.search(40 if tier == 'quick' else 120, seed * 1000 + k, 8)
            if h.found:
                break

    rep = r.get('rep')
    fns = rep.fns if rep else []
    mine = [f for f in fns if prop in f['tags']]
    status = {}
    for f in fns:
        if f['has_body'] or f['in_trait']:
            status.setdefault(f['status'], []).append(f['name'])
    st = r.get('stats') or {}
    undecided = dict(r['undecided'])
    trusted_base = []
    if rep:
        trusted_base += [f'function {n}: {w}' for n, w in rep.trusted]
        trusted_base += [f'left out {n}: {w}' for n, w in rep.dropped]
    trusted_base += ['contracts of the dependencies: /verif/contracts/shim.rs',
                     'the extractor /verif/tools/extract.py and its rewriting rules', 'Verus and Z3']
    ev_h = sum(s.get('histories', 0) for s in h.stats)
    violations = len(fails) + (1 if h.found else 0)
    cov = dict(
        obligations=st.get('obligations', 0),
        discharged=st.get('discharged', 0),
        checker_cmd=r.get('cmd', ''),
        trusted_base=trusted_base,
        functions_of_this_property=sorted({f['name'] for f in mine}),
        clauses_of_this_property=sum(len(re.findall(r'//[^\n]*\b' + prop + r'\b', f['spec'])) for f in fns),
        functions_under_contract=sorted(set(status.get('contract', []))),
        functions_trusted=sorted(set(status.get('trusted', []))),
        functions_not_under_contract=sorted(set(status.get('unknown', []))),
        functions_undecided={k: v for k, v in undecided.items()},
        verifier_broken=r['broken'] or '',
        degraded=bool(r['broken'] or undecided),
        rewriting_rules=rep.rules if rep else {},
        back_end='Verus ' + st.get('verus', '') + ' / Z3',
        solver_ms=st.get('solver_ms', 0),
        verifier_wall_s=r.get('wall', 0),
        failed_obligations=[dict(function=f['fn'], kind=f['kind'], clause=f['clause'], properties=f['tags']) for f in r['failures']],
        bounded_layer=dict(label='bounded: random histories against a reference model, not counted as proved',
                           histories=ev_h, stats=h.stats, note=h.note or ''),
    )
    if smoke is not None and smoke.get('rep'):
        failing = {f['fn'] for f in smoke['failures']}
        vac = [f['name'] for f in smoke['rep'].fns if f['status'] == 'contract' and f['has_body'] and f['name'] not in failing]
        cov['vacuous_preconditions'] = vac
    assumptions = [
        'growing a memory succeeds; ids, descriptors and directory indices are not exhausted',
        'interior mutability of memories is expressed by exclusive borrows; distinct memories do not alias',
        'the derive macros and the byte encoding of the records have their documented meaning',
    ]
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=violations)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', f'{prop}.json'), 'w'), indent=1)

    for k in known(prop):
        print(f'KNOWN-FINDING: property={prop} {k}')
    print(f'{prop} {tier}: {st.get("discharged", 0)}/{st.get("obligations", 0)} obligations discharged in {r.get("wall", 0)} s, '
          f'{len(mine)} functions of this property, {len(undecided)} undecided; bounded layer: {ev_h} histories'
          + (f'; NOTE {h.note}' if h.note else '') + (f'; NOTE {r["broken"]}' if r['broken'] else ''))
    if not violations:
        return 0
    if fails:
        obl = os.path.join(ROOT, 'replay', f'{prop}-obligation.json')
        json.dump(dict(property=prop, failed_obligations=[dict(function=f['fn'], kind=f['kind'], clause=f['clause'], verifier_output=f['rendered']) for f in fails],
                       failing_input=h.found), open(obl, 'w'), indent=1)
        for f in fails:
            print(f'failed obligation: {f["fn"]}: {f["kind"]}: {f["clause"]}')
    if h.found:
        print(f'VIOLATION property={prop} replay={h.found}')
    else:
        print(f'VIOLATION property={prop} replay={obl} no-failing-input-found')
    return 1


if __name__ == '__main__':
    sys.exit(main())
