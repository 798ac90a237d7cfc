#!/usr/bin/env python3
"""check.py PROPERTY|all|setup [quick|thorough] [--only HARNESS] [--keep]

Decides one property of /repo's current tree: builds the symbolic engine, compiles the harnesses together with
/repo's crate to LLVM IR, has every path of every job decided by the solver, replays counterexamples and samples of
the explored paths natively, and writes evidence/PROPERTY.json.

exit 0: held on everything explored; 1: VIOLATION; 2: no verdict (engine or build trouble)."""
import hashlib, json, os, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import threading

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TARGET = os.path.join(V, 'target')
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import jobs as J
sys.path.insert(0, os.path.join(V, 'tools'))
import nostd_copy

ENV = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN')}
ENV['CARGO_NET_OFFLINE'] = 'true'
ENV['CARGO_INCREMENTAL'] = '0'
IRFLAGS = '-C no-vectorize-loops -C no-vectorize-slp --emit=llvm-ir -C target-cpu=x86-64 -C link-args=-Wl,--unresolved-symbols=ignore-all -Awarnings'
# name: (crate, cargo arguments, environment, replayed by)
IR = {
    'std': ('harness', [], {}, 'std'),
    'nostd': ('harness', ['--no-default-features'], {}, 'nostd'),
    'unwind': ('harness', [], {'CARGO_PROFILE_RELEASE_PANIC': 'unwind'}, 'std'),
    'stub': ('harness-stub', [], {}, 'std'),
    'both': ('harness-both', [], {}, 'both'),
}
# name: (crate, cargo arguments, flags)
REPLAY = {'std': ('replay', [], ''), 'nostd': ('replay', ['--no-default-features'], ''), 'both': ('replay-both', [], ' --cfg both')}


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = sorted(os.path.join(d, f) for d, ds, ff in os.walk(p) for f in ff if '/target' not in d and '/.git' not in d)
        for f in fs:
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as s:
                h.update(s.read())
            h.update(b'\0')
    return h.hexdigest()


REPO_SRC = [os.path.join(REPO, x) for x in ('Cargo.toml', 'src', 'derive', 'build.rs') if os.path.exists(os.path.join(REPO, x))]


class NoVerdict(Exception):
    pass


def cargo(args, cwd, env, out, stamp):
    """cargo build into `out`, from scratch unless the same sources were built there before."""
    st = os.path.join(out, 'stamp')
    if os.path.exists(st) and open(st).read() == stamp:
        return
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    e = dict(ENV)
    e.update(env)
    e['CARGO_TARGET_DIR'] = out
    r = subprocess.run(['cargo'] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise NoVerdict('build failed in %s: cargo %s\n%s' % (cwd, ' '.join(args), r.stdout[-4000:]))
    with open(st, 'w') as f:
        f.write(stamp)


def build_engine():
    h = tree_hash([os.path.join(V, 'symex/src'), os.path.join(V, 'symex/Cargo.toml'), os.path.join(V, 'symex/build.rs'), os.path.join(V, 'harness/src/fcheck.rs')][:2] + [os.path.join(V, 'harness/src/fcheck.rs')])
    out = os.path.join(TARGET, 'symex')
    cargo(['build', '--release', '--offline'], os.path.join(V, 'symex'), {}, out, h)
    return os.path.join(out, 'release/symex')


copied = threading.Lock()


def copy_nostd():
    """A copy of the crate under another version, for the programs linked with both builds."""
    out = os.path.join(TARGET, 'nostd-src')
    h = tree_hash(REPO_SRC + [os.path.join(V, 'tools/nostd_copy.py')])
    with copied:
        st = os.path.join(TARGET, 'nostd-src.stamp')
        if os.path.exists(st) and open(st).read() == h and os.path.isdir(out):
            return
        os.makedirs(TARGET, exist_ok=True)
        nostd_copy.copy(REPO, out)
        with open(st, 'w') as f:
            f.write(h)


def build_ir(v):
    crate, args, env, _ = IR[v]
    if v == 'both':
        copy_nostd()
    out = os.path.join(TARGET, 'ir-' + v)
    h = tree_hash(REPO_SRC + [os.path.join(V, x) for x in ('harness', crate, 'stub', 'tools/nostd_copy.py')]) + repr((args, env, IRFLAGS))
    e = dict(env)
    e['RUSTFLAGS'] = IRFLAGS
    cargo(['+nightly'] + ['build', '--release', '--offline'] + args, os.path.join(V, crate), e, out, h)
    for d, _, ff in os.walk(out):
        for f in ff:
            if f.startswith('vharness') and f.endswith('.ll'):
                return os.path.join(d, f)
    raise NoVerdict('no IR in ' + out)


def build_replay(v):
    crate, args, flags = REPLAY[v]
    if v == 'both':
        copy_nostd()
    out = os.path.join(TARGET, 'replay-' + v)
    h = tree_hash(REPO_SRC + [os.path.join(V, x) for x in ('harness', 'replay', crate, 'harness-both', 'tools/nostd_copy.py')])
    cargo(['+nightly', 'build', '--release', '--offline'] + args, os.path.join(V, crate), {'RUSTFLAGS': '--cfg replay -Awarnings' + flags}, out, h)
    return os.path.join(out, 'release/vreplay')


def miri(v, args, secs):
    e = dict(ENV)
    crate, ca, flags = REPLAY[v]
    e.update({'RUSTFLAGS': '--cfg replay -Awarnings' + flags, 'CARGO_TARGET_DIR': os.path.join(TARGET, 'miri-' + v), 'MIRIFLAGS': '-Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks'})
    try:
        r = subprocess.run(['cargo', '+nightly', 'miri', 'run', '--offline'] + ca + ['--'] + args, cwd=os.path.join(V, crate), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs)
    except subprocess.TimeoutExpired:
        return None
    if 'error: Undefined Behavior' in r.stdout:
        i = r.stdout.index('error: Undefined Behavior')
        return r.stdout[i:i + 1500]
    return None


def inputs_hex(ins):
    return ''.join(i[1] for i in ins)


def inputs_text(ins):
    b = bytes.fromhex(inputs_hex(ins))
    return b.decode('latin-1').encode('unicode_escape').decode()


def native(exe, args, secs=60):
    """(verdict, text): 'ok', 'fail', 'skip'"""
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs)
    except subprocess.TimeoutExpired:
        return 'fail', 'does not terminate within %d s' % secs
    out = r.stdout.decode('utf-8', 'replace') + r.stderr.decode('utf-8', 'replace')
    res = ' '.join(l for l in out.split('\n') if l.startswith('RESULT'))
    if r.returncode == 0:
        return 'ok', res
    if r.returncode in (10, 11, 12):
        return 'fail', res
    if r.returncode < 0:
        return 'fail', 'killed by signal %d %s' % (-r.returncode, out[-300:])
    return 'skip', res or out[-300:]


def confirm(rep, bug, j):
    """Replays a counterexample against the real code. Text of what happened, or None."""
    args = [j.h, j.params(), inputs_hex(bug['inputs'])]
    v, t = native(rep[j.v], args, 90 if bug['kind'] == 'steps' else 60)
    if v == 'fail':
        return t
    if bug['kind'] not in ('assert', 'steps') or j.h.startswith('beside'):
        return miri(IR[j.v][3], args, 300)
    return None


def batch(exe, rows):
    """Runs of the native build; one line each, '' where there is none."""
    n = max(1, min(8, len(rows) // 4))
    size = (len(rows) + n - 1) // n
    parts = [rows[i:i + size] for i in range(0, len(rows), size)]

    def go(p):
        try:
            r = subprocess.run([exe, '--batch'], input=''.join(x + '\n' for x in p).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
            o = r.stdout
        except subprocess.TimeoutExpired as e:
            return (e.stdout or b'').decode('utf-8', 'replace').split('\n')[:len(p)], True
        return o.decode('utf-8', 'replace').split('\n')[:len(p)], False

    lines = []
    with ThreadPoolExecutor(8) as ex:
        for p, (o, late) in zip(parts, ex.map(go, parts)):
            o = o + [None if late else ''] * (len(p) - len(o))
            if late and None in o and o.index(None) > 0:
                o[o.index(None) - 1] = None
            lines += o
    return lines


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = [x[7:] for x in sys.argv if x.startswith('--only=')]
    if prop == 'setup':
        with ThreadPoolExecutor(5) as ex:
            fs = [ex.submit(build_engine)] + [ex.submit(build_ir, v) for v in IR] + [ex.submit(build_replay, v) for v in REPLAY]
            for f in fs:
                f.result()
        print('built')
        return 0
    t0 = time.time()
    spec = J.P[prop]
    js = [j for j in spec.jobs if tier == 'thorough' or j.tier == 'quick']
    if only:
        js = [j for j in js if j.h in only]
    budget = float(os.environ.get('VERIF_BUDGET', 780 if tier == 'quick' else 6 * 3600))
    vs = sorted(set(j.v for j in js))
    with ThreadPoolExecutor(6) as ex:
        fe = ex.submit(build_engine)
        fi = {v: ex.submit(build_ir, v) for v in vs}
        fr = {v: ex.submit(build_replay, v) for v in sorted(set(IR[v][3] for v in vs))}
        eng = fe.result()
        ir = {v: f.result() for v, f in fi.items()}
        built = {v: f.result() for v, f in fr.items()}
        rep = {v: built[IR[v][3]] for v in vs}
    tb = time.time() - t0
    stop = threading.Event()
    live = set()
    lock = threading.Lock()

    def run(t):
        j, i, n = t
        if stop.is_set():
            return None
        left = budget - (time.time() - t0)
        if left < 5:
            return {'job': j, 'err': 'no time left'}
        secs = min(left, j.secs or (400 if tier == 'quick' else 3 * 3600))
        cmd = [eng, ir[j.v], j.h, '--params', j.params(), '--split', '%d/%d' % (i, n), '--secs', str(int(secs)), '--timeout', str(60000 if tier == 'quick' else 120000)]
        if j.steps:
            cmd += ['--steps', str(j.steps * 1000000)]
        if os.environ.get('VERIF_DUMP'):
            os.makedirs(os.environ['VERIF_DUMP'], exist_ok=True)
            cmd += ['--dump', os.environ['VERIF_DUMP']]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        with lock:
            live.add(p)
        try:
            out, err = p.communicate(timeout=secs + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return {'job': j, 'err': 'killed after %d s' % secs}
        finally:
            with lock:
                live.discard(p)
        if stop.is_set() and p.returncode not in (0, 1, 2):
            return None
        try:
            d = json.loads(out)
        except ValueError:
            return {'job': j, 'err': 'engine exit %d: %s' % (p.returncode, err[-800:])}
        d['job'] = j
        return d

    tasks = [(j, i, j.split) for j in js for i in range(j.split)]
    results, found, unconfirmed = [], [], []
    known = J.known(prop)
    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(run, t) for t in tasks]
        for f in fs:
            d = f.result()
            if d is None:
                continue
            results.append(d)
            for b in d.get('bugs', []):
                if found:
                    continue
                c = confirm(rep, b, d['job'])
                if c:
                    found.append((d['job'], b, c))
                    stop.set()
                    with lock:
                        for p in live:
                            p.kill()
                else:
                    unconfirmed.append((d['job'], b))

    # samples of the explored paths, natively
    validated, mismatch, samples = 0, [], []
    if not found:
        for v in vs:
            rows = []
            for d in results:
                if d['job'].v == v and d['job'].validate:
                    for s in d.get('samples', []):
                        rows.append((d['job'], s))
            if not rows:
                continue
            lines = batch(rep[v], ['%s %s %s' % (j.h, j.params(), inputs_hex(s['inputs'])) for j, s in rows])
            for k, (j, s) in enumerate(rows):
                want = 'covers %s logs %s' % (','.join(str(x) for x in sorted(s['covers'])), ','.join(str(x) for x in s['logs']))
                got = lines[k]
                if got is None:
                    continue
                if got == want:
                    validated += 1
                    if len(samples) < 12 and (not samples or samples[-1]['harness'] != j.h or k % 7 == 0):
                        samples.append({'harness': j.h, 'params': j.params(), 'input': inputs_text(s['inputs']), 'native': got})
                    continue
                # did the real code fail here?
                args = [j.h, j.params(), inputs_hex(s['inputs'])]
                vv, t = native(rep[v], args)
                if vv == 'fail':
                    found.append((j, {'kind': 'replayed', 'msg': t, 'inputs': s['inputs'], 'trace': []}, t))
                else:
                    mismatch.append('%s %s: engine %s, native %s' % (j.h, j.params() + ' ' + inputs_hex(s['inputs']), want, got))
                break

    ok = [d for d in results if 'err' not in d]
    errs = ['%s %s: %s' % (d['job'].h, d['job'].params(), d['err']) for d in results if 'err' in d]
    # vacuity: situations that must have been reached
    cov = {}
    for d in ok:
        for k in d['covers']:
            cov.setdefault(d['job'].h, set()).add(int(k))
    missing = []
    hs = set(j.h for j in js)
    for h, need in spec.covers.items():
        if h in hs:
            m = set(need) - cov.get(h, set())
            if m:
                missing.append('%s %s' % (h, sorted(m)))
    fns = {}
    for d in ok:
        for n, c, i in d['functions']:
            fns[n] = max(fns.get(n, 0), i)
    repo_fns = sorted(n for n in fns if 'miniserde' in n and not n.startswith('vharness'))
    inc = [d for d in ok if not d['complete']]

    def tot(k):
        return sum(d[k] for d in ok)

    bounds = []
    for j in js:
        bounds.append(j.text())
    cover = {
        'states': tot('paths') + tot('pruned'),
        'transitions': tot('steps'),
        'traces_validated_against_impl': validated,
        'samples': samples if samples else [{'harness': d['job'].h, 'params': d['job'].params()} for d in ok[:5]],
        'explanation': 'states: symbolic paths decided; transitions: LLVM IR instructions of harness and crate executed symbolically; each path stands for all inputs satisfying its path condition',
        'jobs': len(tasks),
        'jobs_incomplete': ['%s %s %s' % (d['job'].h, d['job'].params(), d['stuck']) for d in inc],
        'bounds': bounds,
        'outside_the_bounds': spec.outside,
        'functions_encoded': len(fns),
        'repo_functions_encoded': repo_fns,
        'repo_ir_instructions_in_them': sum(fns[n] for n in repo_fns),
        'assertions_reached': tot('asserts'),
        'assertions_decided_by_solver_query': tot('asserts_solver'),
        'branch_feasibility_queries': tot('branch_queries'),
        'solver_queries': {'asked': tot('queries'), 'answered_from_cache': tot('cache_hits'), 'solved': tot('z3'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown')},
        'solver_seconds': round(tot('solver_time'), 1),
        'longest_query_seconds': round(max([d['max_query'] for d in ok] or [0]), 2),
        'solver': 'z3 ' + (ok[0]['z3_version'] if ok else '?'),
        'situations_reached': {h: sorted(x) for h, x in cov.items()},
        'situations_required_but_missing': missing,
        'build_seconds': round(tb, 1),
        'exhaustive': not inc and not errs and not found,
    }
    if errs:
        cover['engine_errors'] = errs[:10]
    if unconfirmed:
        cover['unconfirmed_counterexamples'] = ['%s %s %s: %s %s' % (j.h, j.params(), inputs_hex(b['inputs']), b['kind'], b['msg']) for j, b in unconfirmed[:10]]
    if mismatch:
        cover['engine_native_mismatches'] = mismatch[:10]
    real, old = [], []
    for f in found:
        (old if J.is_known(known, f[0], f[1]) else real).append(f)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking',
        'coverage': cover,
        'assumptions': J.ASSUME + spec.assume,
        'wall_s': round(time.time() - t0, 1),
        'violations': len(real),
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d jobs, %d paths, %d pruned, %.1fM instructions, %d queries, %.0f solver s, %d validated, %.0f s (build %.0f)' % (prop, tier, len(tasks), tot('paths'), tot('pruned'), tot('steps') / 1e6, tot('z3'), tot('solver_time'), validated, time.time() - t0, tb))
    if os.environ.get('VERIF_TIMES'):
        for d in sorted(ok, key=lambda d: -d['time'])[:25]:
            print('   %7.1f s %6d paths %s %s %s' % (d['time'], d['paths'], d['job'].h, d['job'].params(), d['job'].v))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if real:
        j, b, c = real[0]
        d = os.path.join(V, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        h = inputs_hex(b['inputs'])
        p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256((j.h + j.params() + h).encode()).hexdigest()[:10]))
        with open(p, 'w') as f:
            json.dump({'property': prop, 'harness': j.h, 'params': j.params(), 'variant': j.v, 'input_hex': h, 'input': inputs_text(b['inputs']), 'inputs': b['inputs'], 'engine': {'kind': b['kind'], 'message': b['msg'], 'trace': b['trace']}, 'native': c, 'rerun': [rep[j.v], j.h, j.params(), h]}, f, indent=1)
        print('  %s(%s) on %s' % (j.h, j.params(), inputs_text(b['inputs'])))
        print('  engine: %s %s' % (b['kind'], b['msg']))
        print('  native: %s' % c.strip().split('\n')[0])
        print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    bad = False
    for x in errs[:10]:
        print('NO-VERDICT', x)
    for j, b in unconfirmed[:5]:
        print('UNCONFIRMED %s %s %s: %s %s' % (j.h, j.params(), inputs_hex(b['inputs']), b['kind'], b['msg']))
        if j.v != 'stub':
            bad = True
    for m in mismatch[:5]:
        print('MISMATCH', m)
        bad = True
    for d in inc[:8]:
        print('INCOMPLETE %s %s %s' % (d['job'].h, d['job'].params(), str(d['stuck'])[:400]))
    if errs and len(errs) * 4 > len(tasks):
        bad = True
    if missing:
        print('VACUOUS: not reached:', '; '.join(missing))
        bad = True
    return 2 if bad else 0


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        sys.exit(main())
    except NoVerdict as e:
        print('NO-VERDICT', e)
        sys.exit(2)
