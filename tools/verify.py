"""Runs the deductive verifier (Verus) on the code extracted from /repo and attributes what it reports.

verify() -> dict with
  failures   obligations the verifier refused: function, kind, clause, property tags, the verifier's message
  undecided  functions the verifier could not be asked about (construct outside its reach, lost anchor), with the reason
  stats      numbers of this run
"""
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
import extract as X

VERUS = os.environ.get('SFV_VERUS', 'verus')
TAG = re.compile(r'//[^\n]*\[((?:C\d+)(?:\s*,\s*C\d+)*)\]')


def tags_of_line(line):
    m = TAG.search(line)
    return [t.strip() for t in m.group(1).split(',')] if m else []


def fn_at(rep, line):
    best = None
    for s, e, f in rep.lines:
        if s <= line <= e and (best is None or s > best[0]):
            best = (s, e, f)
    return best


def clause_tags(lines, n):
    """the tags written at the end of the clause that contains line n (1-based)"""
    for k in range(n - 1, min(n + 14, len(lines))):
        t = tags_of_line(lines[k])
        if t:
            return t
        s = lines[k].rstrip()
        if s.endswith(',') and k >= n - 1:
            # the end of the clause, when the brackets are balanced
            part = '\n'.join(lines[n - 1:k + 1])
            if part.count('(') <= part.count(')') and part.count('{') <= part.count('}'):
                return []
        if s.strip() == '{' or s.strip().startswith('//@'):
            return []
    return []


KINDS = [
    ('postcondition', 'postcondition not satisfied'),
    ('precondition', 'precondition not satisfied'),
    ('invariant', 'invariant not satisfied'),
    ('loop ensures', 'loop ensures not satisfied'),
    ('arithmetic', 'possible arithmetic underflow/overflow'),
    ('arithmetic', 'possible division by zero'),
    ('assertion', 'assertion failed'),
    ('termination', 'decreases not satisfied'),
    ('termination', 'could not prove termination'),
    ('bounds', 'possible'),
    ('arithmetic', 'overflow'),
    ('lifetime', 'unable to prove'),
]


def verify(outdir, modules=None, smoke=False, threads=8, timeout=600):
    os.makedirs(outdir, exist_ok=True)
    path = os.path.join(outdir, 'crate.rs' if not smoke else 'smoke.rs')
    X.FORCE_TRUST = set()
    X.SMOKE = smoke
    undecided = {}
    weak = {}
    rounds = []
    t0 = time.time()
    res = dict(failures=[], undecided=undecided, broken=None, rounds=rounds)
    for rnd in range(10):
        try:
            rep = X.extract(path, modules)
        except Exception as e:  # the extractor does not understand the source
            res['broken'] = f'extraction: {type(e).__name__}: {e}'
            res['rep'] = None
            break
        res['rep'] = rep
        for fn, what in rep.lost:
            if what == 'function is gone':
                undecided.setdefault(fn, 'the function is gone')
            elif fn not in X.FORCE_TRUST:
                # annotations without a place are left out: the function counts as decided only if it is accepted without them
                weak.setdefault(fn, what)
        cmd = [VERUS, '--edition=2024', path, '--triggers-mode', 'silent', '--rlimit', '60', '--output-json', '--time', '--error-format=json',
               '--multiple-errors', '4', '--num-threads', str(threads)]
        t1 = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=outdir)
        except subprocess.TimeoutExpired:
            res['broken'] = 'the verifier ran out of time'
            break
        rounds.append(round(time.time() - t1, 2))
        res['cmd'] = ' '.join(cmd)
        lines = open(path).read().split('\n')
        diags = []
        for ln in p.stderr.splitlines():
            if ln.startswith('{'):
                try:
                    diags.append(json.loads(ln))
                except ValueError:
                    pass
        try:
            out = json.loads(p.stdout[p.stdout.index('{'):])
        except ValueError:
            out = {}
        vr = out.get('verification-results', {})
        ran = vr.get('verified', 0) + vr.get('errors', 0) > 0
        errors = [d for d in diags if d.get('level') == 'error' and d.get('spans')]
        if not ran:
            # nothing was verified: constructs the verifier does not take
            new = set()
            for d in errors:
                for s in [x for x in d['spans'] if x['is_primary']] + d['spans']:
                    f = fn_at(rep, s['line_start'])
                    if f and f[2] not in X.FORCE_TRUST:
                        new.add(f[2])
                        undecided[f[2]] = 'outside of the verifier\'s reach: ' + d['message'].split('\n')[0][:200]
                        break
            if not new:
                res['broken'] = 'the verifier accepts no text: ' + '; '.join(d['message'][:160] for d in errors[:3]) + p.stderr[-300:] * (not errors)
                break
            X.FORCE_TRUST |= new
            continue
        # attribution
        unknown = {f['name'] for f in rep.fns if f['status'] in ('unknown', 'undecided') and f['has_body']}
        unames = {u.split('::')[-1] for u in unknown}
        byname = {f['name']: f for f in rep.fns}
        fails = []
        for d in errors:
            msg = d['message']
            if msg.startswith('aborting'):
                continue
            prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
            f = None
            for s in prim + d['spans']:
                f = fn_at(rep, s['line_start'])
                if f:
                    break
            kind = next((k for k, m in KINDS if m in msg), 'other')
            name = f[2] if f else lines_owner(lines, prim[0]['line_start'])
            # a clause of a trait is written in the trait: the failing function is the implementation
            fnspans = [fn_at(rep, s['line_start']) for s in d['spans']]
            fnspans = [x for x in fnspans if x]
            if kind == 'postcondition' and len({x[2] for x in fnspans}) > 1:
                other = [x for x in fnspans if not byname.get(x[2], {}).get('in_trait')]
                if other:
                    name, f = other[0][2], other[0]
            if kind == 'precondition':      # the caller is at fault, its span is the primary one
                for sp in prim:
                    g = fn_at(rep, sp['line_start'])
                    if g:
                        name, f = g[2], g
            clause, tags = '', []
            if kind in ('postcondition', 'invariant', 'loop ensures'):
                for s in d['spans']:
                    lab = s.get('label') or ''
                    if 'failed this' in lab or 'not satisfied' in lab:
                        clause = ' '.join(x['text'].strip() for x in s['text'])[:300]
                        tags = clause_tags(lines, s['line_start'])
            if not clause and prim:
                clause = ' '.join(x['text'].strip() for x in prim[0]['text'])[:300]
            info = byname.get(name, {})
            if not tags:
                tags = list(info.get('tags') or [])
            if kind == 'precondition':      # what the callee guarantees is not to be had either
                for s in d['spans']:
                    g = fn_at(rep, s['line_start'])
                    if g and g[2] != name:
                        tags = sorted(set(tags) | set(byname.get(g[2], {}).get('tags') or []))
            if not tags:                    # a lemma or a function without marks: whatever its module answers for
                pos = f[0] if f else prim[0]['line_start']
                near = sorted(rep.lines, key=lambda x: abs(x[0] - pos))[:1]
                mod = near[0][2].split('::')[:2] if near else []
                tags = sorted({t for g in rep.fns if g['name'].split('::')[:2] == mod for t in (g['tags'] or [])})
            fails.append(dict(fn=name, kind=kind, message=msg, clause=clause, tags=tags, rendered=d.get('rendered', ''), region=(f[0], f[1]) if f else None))
        final = []
        for x in fails:
            st = byname.get(x['fn'], {}).get('status')
            if 'rlimit' in x['message'].lower() or 'resource limit' in x['message'].lower():
                undecided.setdefault(x['fn'], 'the solver gave up')
                continue
            if x['fn'] in weak:
                undecided.setdefault(x['fn'], f'an annotation has no place in it any more: {weak[x["fn"]]}; not proved without it: {x["kind"]} {x["clause"][:80]}')
                continue
            if x['region']:
                text = '\n'.join(lines[x['region'][0]:x['region'][1]])
                used = [u for u in unames if re.search(r'\b' + re.escape(u) + r'\s*\(', text) and not x['fn'].endswith('::' + u)]
                if used:
                    undecided.setdefault(x['fn'], 'it calls a function without a contract: ' + ', '.join(used))
                    continue
            if st == 'unknown':
                undecided.setdefault(x['fn'], 'a function without a contract')
                continue
            final.append(x)
        res['moved'] = {}
        bad = {x['fn'] for x in final}
        if bad and not smoke and len(bad) <= 6:
            res['moved'] = elsewhere(outdir, modules, sorted(bad))
            final = [x for x in final if x['fn'] not in res['moved']]
        res['failures'] = final
        fb = []
        for m in out.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            fb += m.get('function-breakdown', [])
        res['stats'] = dict(
            obligations=vr.get('verified', 0) + vr.get('errors', 0), discharged=vr.get('verified', 0) + len(res['moved']),
            solver_ms=out.get('times-ms', {}).get('smt', {}).get('smt-run', 0),
            functions=[dict(name=x['function'], ms=x['time'], rlimit=x['rlimit'], ok=x['success']) for x in fb],
            verus=out.get('verus', {}).get('version', ''))
        break
    else:
        res['broken'] = 'too many rounds'
    res['wall'] = round(time.time() - t0, 2)
    return res


def variant_cmd(outdir, modules, fn, variant, n):
    """the command that verifies one function with its proof hints at other places (its code and its contract are the same)"""
    X.VARIANT = {fn: variant}
    path = os.path.join(outdir, f'variant{n}.rs')
    try:
        X.extract(path, modules)
    except Exception:
        return None
    finally:
        X.VARIANT = {}
    if '@' in fn:
        mod = fn[:fn.index('@')].split('::')[:-1]
    else:
        mod = fn.split('::')[:-1]
        if mod and mod[-1][:1].isupper():
            mod = mod[:-1]
    return [VERUS, '--edition=2024', path, '--triggers-mode', 'silent', '--rlimit', '60', '--output-json', '--verify-only-module', '::'.join(mod),
            '--verify-function', '*::' + fn.split('::')[-1]]


def elsewhere(outdir, modules, fns):
    """the functions whose proof goes through with the hints at other places: {function: which places}"""
    jobs = [(fn, v) for fn in fns if not fn.startswith('lemma ') for v in (1, 2, 3)]
    jobs = [(fn, v, variant_cmd(outdir, modules, fn, v, n)) for n, (fn, v) in enumerate(jobs)]

    def run(job):
        fn, v, cmd = job
        if cmd is None:
            return None
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=120, cwd=outdir)
            vr = json.loads(p.stdout[p.stdout.index('{'):]).get('verification-results', {})
        except (subprocess.TimeoutExpired, ValueError):
            return None
        return (fn, v) if vr.get('verified', 0) > 0 and vr.get('errors', 1) == 0 else None

    with ThreadPoolExecutor(6) as ex:
        ok = [x for x in ex.map(run, jobs) if x]
    out = {}
    for fn, v in ok:
        out.setdefault(fn, v)
    return out


def lines_owner(lines, n):
    """the name of the lemma that contains line n"""
    for k in range(n - 1, max(0, n - 200), -1):
        m = re.search(r'\bfn\s+(\w+)', lines[k])
        if m:
            return 'lemma ' + m.group(1)
    return '?'


if __name__ == '__main__':
    import sys
    if '--loops' in sys.argv:       # after the contracts of a loop were written anew
        X.BASE_LOOPS = {}
        json.dump(X.extract('/tmp/vx/out/crate.rs', None).loops, open(X.LOOPS_FILE, 'w'), indent=0, sort_keys=True)
        sys.exit(0)
    r = verify('/tmp/vx/out')
    print('broken', r['broken'], 'wall', r['wall'], r['rounds'])
    for k, v in r['undecided'].items():
        print('UNDECIDED', k, '--', v)
    for f in r['failures']:
        print('FAIL', f['fn'], f['kind'], f['tags'], f['clause'])
    print({k: v for k, v in r.get('stats', {}).items() if k != 'functions'})
