"""Check driver:  run.py <property> [quick|thorough]

exit 0  every obligation of the property's contracts is discharged on /repo's current tree
exit 1  a named obligation fails:  VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2+ the check could not decide (extraction, engine limits, time budget)
"""
import glob
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
import ir  # noqa: E402
import loops  # noqa: E402
import sym  # noqa: E402
from checks import CHECKS  # noqa: E402

VERIF = build.VERIF
MODULE = None


def repo_sources():
    out = []
    for d in ('bmd', 'bms', 'common'):
        out += glob.glob(os.path.join(build.REPO, 'src', d, '**', '*.cpp'), recursive=True)
    return sorted(out)


def load_module(harnesses):
    srcs = [os.path.join(VERIF, 'harness', h) for h in harnesses] + repo_sources()
    build.shim_dir()
    with ThreadPoolExecutor(8) as ex:
        lls = list(ex.map(build.to_ll, srcs))
    return ir.Module().load(build.link(lls))


def cover_labels(m, hname):
    """labels of vf_cover calls in the harness body (constant strings)"""
    f = m.funcs['vfh_' + hname]
    f.parse()
    out = set()
    for b in f.blocks.values():
        for i in b:
            if i.op == 'call' and i.a[0] == ('g', 'vf_cover'):
                g = i.a[1][0][1]
                if g[0] == 'gep':
                    g = g[2]
                init = m.globals[g[1]][1]
                if init[0] == 'cstr':
                    out.add(init[1].rstrip(b'\0').decode())
    return out


def run_harness(job):
    """job: dict(h, fixed, opts, deadline) -> result dict (executed in a child process)"""
    t0 = time.time()
    res = dict(h=job['h'], fixed=job['fixed'], error=None, obligations={}, failures=[], covers={}, loops={}, fns=[],
               trusted=[], paths=0, queries=0, qtime=0.0, backends={}, truncated=0, instrs=0, choices={})
    opts = dict(job['opts'])
    opts['fixed'] = job['fixed']
    opts['deadline'] = job['deadline']
    rep = opts.pop('replace', {})
    cutset = set()
    eng = None
    try:
        while True:
            eng = sym.Engine(MODULE, opts)
            eng.cutset = cutset
            eng.replace = resolve_replace(rep)
            try:
                eng.run('vfh_' + job['h'])
            except loops.Restart:
                continue
            except sym.StopEngine:
                res['stopped'] = True
            break
    except (sym.Unsupported, ir.IRError) as e:
        res['error'] = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        res['error'] = 'RecursionError'
    except Exception as e:  # noqa: BLE001
        res['error'] = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e)) + \
            traceback.format_exc()[-1500:]
    if eng is not None:
        res['obligations'] = {k: list(v) for k, v in eng.obligations.items()}
        res['failures'] = [dict(label=f.label, kind=f.kind, where=f.where, inputs=f.inputs, trail=f.trail,
                                reason=f.reason, status=f.status) for f in eng.failures]
        res['covers'] = dict(eng.covers)
        res['loops'] = {eng.dem(k[0]): v for k, v in eng.loops_cut.items()}
        res['fns'] = sorted(eng.fns_executed)
        res['trusted'] = sorted(eng.trusted)
        res.update(paths=eng.paths, queries=eng.queries, qtime=eng.qtime, backends=eng.backends,
                   truncated=eng.truncated, instrs=eng.instrs)
        res['choices'] = dict(eng.choices)
    res['wall'] = time.time() - t0
    return res


class Absent(Exception):
    """an internal function that a separate contract is about is not there: its callers are verified with their callees inlined"""


def resolve_replace(rep):
    """{demangled-name regex: stub}: contract substitution of callees"""
    if not rep:
        return {}
    out = {}
    names = [n for n in MODULE.funcs if n.startswith('_Z')]
    key = id(MODULE)
    if not hasattr(resolve_replace, 'dm') or resolve_replace.dm[0] != key:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        resolve_replace.dm = (key, dict(zip(names, p.stdout.split('\n'))))
    dm = resolve_replace.dm[1]
    for rx, stub in rep.items():
        if rx[0] == '=':
            # a name for a function with internal linkage
            r = re.compile(stub)
            found = [n for n, d in dm.items() if r.search(d)]
            if len(found) != 1:
                raise Absent(stub)
            out[rx[1:]] = found[0]
            continue
        r = re.compile(rx)
        for n, d in dm.items():
            if r.search(d):
                out[n] = stub
    return out


def child(job, q):
    try:
        q.send(run_harness(job))
    except Exception as e:  # noqa: BLE001
        q.send(dict(h=job['h'], fixed=job['fixed'], error='child: %r' % e))
    q.close()


def run_jobs(jobs, nproc=8):
    """process pool with one fresh fork per job (the parsed module is shared copy-on-write)"""
    ctx = mp.get_context('fork')
    pend = list(jobs)
    running = []
    out = []
    while pend or running:
        while pend and len(running) < nproc:
            j = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(j, b))
            p.start()
            b.close()
            running.append((p, a, j))
        time.sleep(0.02)
        nxt = []
        for p, a, j in running:
            if a.poll():
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append(dict(h=j['h'], fixed=j['fixed'], error='worker died'))
                p.join()
            elif not p.is_alive():
                if a.poll():
                    out.append(a.recv())
                else:
                    out.append(dict(h=j['h'], fixed=j['fixed'], error='worker died'))
                p.join()
            elif time.time() > j['deadline'] + 30:
                p.kill()
                p.join()
                out.append(dict(h=j['h'], fixed=j['fixed'], error='time budget exhausted (killed)'))
            else:
                nxt.append((p, a, j))
        running = nxt
    return out


# ---- replay --------------------------------------------------------------------------------------

def write_inputs(path, inputs, header):
    with open(path, 'w') as f:
        for line in header.split('\n'):
            f.write('# ' + line + '\n')
        for n, k, v in inputs or []:
            if isinstance(v, int):
                nb = max(4 if k == 'choose' else 8, (v.bit_length() + 7) // 8)
                v = v.to_bytes(nb, 'little')
            f.write('%s %s %s\n' % (n.replace(' ', '_'), k, v.hex()))


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')


def replay(exe, h, path):
    """True if the real code, run natively on the input, breaks the contract"""
    try:
        p = subprocess.run([exe, h, path], capture_output=True, text=True, timeout=20, env=ENV, errors='replace')
    except subprocess.TimeoutExpired:
        return True, 'does not terminate within 20 s'
    out = (p.stdout + p.stderr).strip()
    if p.returncode in (0, 2, 3):
        return False, out[-500:]
    return True, out[:1500]


def fuzz(exe, h, seconds, seed, out):
    end = time.time() + seconds
    k = 0
    procs = []
    hit = None
    while time.time() < end and hit is None:
        procs = [(subprocess.Popen([exe, h, '--fuzz', str(seed * 1000 + k + i), '4000', out + '.%d' % i],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV), i) for i in range(8)]
        k += 8
        for p, i in procs:
            try:
                p.communicate(timeout=max(1, end - time.time() + 5))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                continue
            f = out + '.%d' % i
            if p.returncode == 1 and os.path.exists(f):
                if hit is None:
                    os.replace(f, out)
                    hit = out
        for i in range(8):
            if os.path.exists(out + '.%d' % i):
                os.unlink(out + '.%d' % i)
    return hit


# ---- main ----------------------------------------------------------------------------------------

def known(prop):
    f = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e.get('property') == prop and e.get('status') == 'open':
                    out.append(e)
    return out


def matches(e, h, f):
    if e['harness'] != h or not re.fullmatch(e.get('label', '.*'), f['label']):
        return False
    tr = ' '.join(f['trail'])
    if not re.search(e.get('trail', ''), tr):
        return False
    return re.search(e.get('where', ''), ' | '.join(f['where'] or [])) is not None


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    budget = spec.get('budget', 780) if tier == 'quick' else spec.get('thorough_budget', 3400)
    deadline = t0 + budget
    global MODULE
    try:
        MODULE = load_module([spec['file']] + spec.get('extra_files', []))
    except (build.BuildError, ir.IRError, OSError) as e:
        print('ERROR: %s: extraction failed: %s' % (prop, e))
        return 2
    jobs = []
    for h in spec['harnesses']:
        if h.get('tier') == 'thorough' and tier != 'thorough':
            continue
        opts = dict(spec.get('opts', {}))
        opts.update(h.get('opts', {}))
        if tier == 'thorough':
            opts['timeout'] = 3 * opts.get('timeout', 20000)
            opts.update(h.get('thorough_opts', {}))
        if 'vfh_' + h['name'] not in MODULE.funcs:
            print('ERROR: harness %s missing' % h['name'])
            return 2
        splits = [{}]
        for k, n in enumerate(h.get('split', [])):
            splits = [{**s, k: v} for s in splits for v in range(n)]
        # json keys are ints here
        for s in splits:
            jobs.append(dict(h=h['name'], fixed={int(a): b for a, b in s.items()}, opts=opts, deadline=deadline))
    res = run_jobs(jobs, int(os.environ.get('VF_JOBS', '8')))
    by = {}
    for r in res:
        by.setdefault(r['h'], []).append(r)
    errors = [(r['h'], r['fixed'], r['error']) for r in res if r.get('error')]
    # obligations
    tot = dis = 0
    oblig = {}
    fails = []
    for r in res:
        for (lab, kind), (n, d) in (r.get('obligations') or {}).items():
            k = (r['h'], lab, kind)
            o = oblig.setdefault(k, [0, 0])
            o[0] += n
            o[1] += d
        for f in r.get('failures') or []:
            fails.append((r['h'], f))
    for v in oblig.values():
        tot += v[0]
        dis += v[1]
    hnames = [h['name'] for h in spec['harnesses'] if h['name'] in by]
    # reachability guards (an unreachable case would make its contract vacuous)
    for h in hnames:
        if any(r.get('error') or r.get('stopped') for r in by[h]):
            continue
        for lab in cover_labels(MODULE, h):
            k = (h, 'reachable: ' + lab, 'reachability')
            hit = any((r.get('covers') or {}).get(lab) for r in by[h])
            oblig[k] = [1, int(hit)]
            tot += 1
            dis += int(hit)
            if not hit:
                fails.append((h, dict(label='reachable: ' + lab, kind='reachability', where=[], inputs=None, trail=[],
                                      reason='no execution of the contract reaches this case', status='refuted')))
    kn = known(prop)
    kf = {}
    newf = []
    for h, f in fails:
        e = next((e for e in kn if matches(e, h, f)), None)
        if e is not None:
            kf.setdefault(json.dumps(e, sort_keys=True), []).append((h, f))
        else:
            newf.append((h, f))
    violations = []
    if newf or errors:
        violations = investigate(prop, spec, newf, errors, by, seed, kn, min(deadline + 60, t0 + 860))
    rc = 0
    for e in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, json.loads(e)['what']))
    for v in violations:
        print('VIOLATION property=%s replay=%s%s' % (prop, v['path'], '' if v['found'] else ' no-failing-input-found'))
        print('  failed obligation: %s' % v['what'])
        rc = 1
    if rc == 0 and errors:
        rc = 2
    for e in errors[:6]:
        print('ERROR: %s %s: %s' % (e[0], e[1], e[2]))
    write_evidence(prop, spec, tier, seed, res, oblig, tot, dis, kf, violations, errors, time.time() - t0)
    if rc == 0:
        print('OK %s: %d obligations, %d discharged, %d paths, %d solver queries, %.1f s' % (
            prop, tot, dis, sum(r.get('paths', 0) for r in res), sum(r.get('queries', 0) for r in res), time.time() - t0))
    return rc


def investigate(prop, spec, fails, errors, by, seed, kn, limit):
    """turn failed obligations into violations, looking for an input that fails on the real code"""
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    exe = None
    nerr = ''
    try:
        exe = build.native([os.path.join(VERIF, 'harness', spec['file'])] +
                           [os.path.join(VERIF, 'harness', x) for x in spec.get('extra_files', [])] + repo_sources(),
                           '-DVF_NATIVE')
    except build.BuildError as e:
        nerr = str(e)[-800:]
    out = []
    seen = set()
    unconfirmed = {}
    n = 0
    nonative = {h['name'] for h in spec['harnesses'] if h.get('native') is False}
    for h, f in fails:
        key = (h, f['label'])
        if key in seen:
            continue
        n += 1
        path = os.path.join(rdir, '%s-%s-%d.txt' % (prop, h, n))
        head = 'property %s\nharness %s\nfailed obligation: [%s] %s\nverifier: %s (%s)\nin: %s\ncase: %s' % (
            prop, h, f['kind'], f['label'], f['status'], f['reason'], ' > '.join(f['where'] or []), ' '.join(f['trail']))
        write_inputs(path, f['inputs'], head)
        ok, txt = (False, nerr)
        if exe and f['inputs'] is not None and h not in nonative and n <= 25:
            ok, txt = replay(exe, h, path)
        if ok:
            seen.add(key)
            with open(path, 'a') as g:
                g.write('# replayed on the real code: ' + txt.replace('\n', '\n# ') + '\n')
            out.append(dict(path=path, found=True, what='%s: [%s] %s' % (h, f['kind'], f['label'])))
        else:
            unconfirmed.setdefault(h, []).append((f, path, txt))
    # harnesses without a confirmed failure: search for a failing input
    confirmed_h = {k[0] for k in seen}
    todo = [h for h in list(unconfirmed) + sorted({e[0] for e in errors}) if h not in confirmed_h]
    done = set()
    for h in todo:
        if h in done:
            continue
        done.add(h)
        hit = None
        path = os.path.join(rdir, '%s-%s-search.txt' % (prop, h))
        if exe and h not in nonative and time.time() < limit - 30:
            hit = fuzz(exe, h, min(25, limit - time.time() - 20), seed, path)
            if hit is None and time.time() < limit - 40:
                hit = bounded(spec, h, exe, path, kn, min(limit - 15, time.time() + 150))
        if hit:
            ok, txt = replay(exe, h, path)
            with open(path, 'a') as g:
                g.write('# property %s harness %s: failing input found by search\n# %s\n' % (prop, h, txt.replace('\n', '\n# ')))
            out.append(dict(path=path, found=True, what='%s: %s' % (h, '; '.join(f['label'] for f, _, _ in unconfirmed.get(h, [])[:3])
                                                                     or txt[:100])))
        elif h in unconfirmed:
            f, p, txt = unconfirmed[h][0]
            with open(p, 'a') as g:
                g.write('# no failing input found on the real code (native replay: %s)\n' % txt.replace('\n', '\n# ')[:600])
                for f2, p2, t2 in unconfirmed[h][1:10]:
                    g.write('# also: [%s] %s %s\n' % (f2['kind'], f2['label'], f2['reason']))
            out.append(dict(path=p, found=False, what='%s: [%s] %s' % (h, f['kind'], f['label'])))
    return out


def bounded(spec, h, exe, path, kn, deadline):
    """bounded unrolling (only to find a concrete failing input; never counted as proof)"""
    hs = next(x for x in spec['harnesses'] if x['name'] == h)
    for k in (3, 6, 9):
        if time.time() > deadline - 5:
            return None
        opts = dict(spec.get('opts', {}))
        opts.update(hs.get('opts', {}))
        opts.update(unroll=k + 2, strlen=k, cvc5=False, timeout=8000, max_fail=3)
        splits = [{}]
        for i, n in enumerate(hs.get('split', [])):
            splits = [{**s, i: v} for s in splits for v in range(n)]
        jobs = [dict(h=h, fixed=s, opts=opts, deadline=min(deadline, time.time() + 60)) for s in splits]
        for r in run_jobs(jobs):
            for f in r.get('failures') or []:
                if any(matches(e, h, f) for e in kn) or f['inputs'] is None:
                    continue
                write_inputs(path, f['inputs'], 'bounded search, obligation [%s] %s' % (f['kind'], f['label']))
                ok, txt = replay(exe, h, path)
                if ok:
                    return path
    return None


def write_evidence(prop, spec, tier, seed, res, oblig, tot, dis, kf, violations, errors, wall):
    eng = sym.Engine(MODULE)
    fns = set()
    for r in res:
        fns |= set(r.get('fns') or [])
    names = [n for n in fns if n.startswith('_Z')]
    dm = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    repo_fns = sorted({d[:160] for d in dm if 'bit_manipulation' in d and not d.startswith('std::')})
    trusted = set()
    loopsd = {}
    be = {}
    for r in res:
        trusted |= set(r.get('trusted') or [])
        loopsd.update(r.get('loops') or {})
        for k, v in (r.get('backends') or {}).items():
            be[k] = be.get(k, 0) + v
    tb = ['bmv symbolic verifier (bmv/*.py): LLVM IR semantics, memory model, invariant and ghost-function rules',
          'clang 18 front end and sroa: C++ -> LLVM IR (with a patched <span> array constructor, see DESIGN.md)',
          'z3 %s' % sym.z3.get_version_string(), 'cvc5 1.1.2 (fallback)'] + sorted(trusted) + spec.get('trusted', [])
    cov = dict(obligations=tot, discharged=dis, checker_cmd='python3-vt bmv/run.py %s %s' % (prop, tier),
               trusted_base=tb,
               functions_under_contract=repo_fns, functions_count=len(repo_fns),
               harnesses={h['name']: dict(jobs=len([r for r in res if r['h'] == h['name']]),
                                          paths=sum(r.get('paths', 0) for r in res if r['h'] == h['name']))
                          for h in spec['harnesses']},
               obligations_by_name={'%s | %s | %s' % k: v for k, v in sorted(oblig.items())},
               loops_cut_by_invariants={k[:140]: v for k, v in loopsd.items()},
               back_ends=be, paths=sum(r.get('paths', 0) for r in res),
               ir_instructions=sum(r.get('instrs', 0) for r in res),
               solver_queries=sum(r.get('queries', 0) for r in res),
               solver_time_s=round(sum(r.get('qtime', 0) for r in res), 2),
               known_findings=[json.loads(k)['what'] for k in kf],
               errors=['%s %s %s' % e for e in errors][:10])
    if spec.get('bounded'):
        cov['bounded'] = spec['bounded']
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=spec.get('level', 'proof'),
              coverage=cov, assumptions=spec.get('assumptions', []), wall_s=round(wall, 2), violations=len(violations))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, prop + '.json')
    with open(f + '.tmp', 'w') as g:
        json.dump(ev, g, indent=1, default=str)
    os.replace(f + '.tmp', f)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
