#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: extracts the LLVM IR of /repo's current sources, verifies
every function of the property (and every function whose contract was used on the
way) against its contract, and, when an obligation is not discharged, replays the
contract on the real code to find a failing input.
Exit 0: every obligation discharged.  Exit 1: VIOLATION line.
"""
import sys, os, time, json, re, argparse, tempfile, shutil, subprocess, multiprocessing, signal, glob, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++'
IRFLAGS = ['-std=c++20', '-I%s/include' % REPO, '-I%s/units' % HERE, '-include', 'cstdint', '-include', 'algorithm', '-DNDEBUG', '-O1',
           '-Xclang', '-disable-llvm-passes', '-S', '-emit-llvm', '-fno-discard-value-names', '-w']
RPFLAGS = ['-std=c++20', '-I%s/include' % REPO, '-I%s/replay' % HERE, '-include', 'cstdint', '-include', 'algorithm', '-O1', '-g1', '-w', '-DNDEBUG',
           '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
import props


def log(*a):
    print(*a, flush=True)


def unit_path(u):
    p = os.path.join(HERE, 'units', u + '.cpp')
    return p if os.path.exists(p) else os.path.join(REPO, 'src', u + '.cxx')


def par(cmds):
    """run commands, 8 at a time; list of (rc, output)"""
    procs, out = [], {}
    todo = list(enumerate(cmds))
    while todo or procs:
        while todo and len(procs) < 8:
            i, c = todo.pop(0)
            f = tempfile.TemporaryFile('w+')
            procs.append((i, subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT), f))
        for t in list(procs):
            if t[1].poll() is not None:
                t[2].seek(0)
                out[t[0]] = (t[1].returncode, t[2].read())
                procs.remove(t)
        time.sleep(0.02)
    return [out[i] for i in range(len(cmds))]


# ------------------------------------------------------------------ verification (in worker processes)
G = {}


def work(job):
    """verify one (contract, function): first with uninterpreted floating-point operations; when that fails, with
    doubles read as real numbers (an equal formula written differently is equal there)"""
    import spec
    ci, fname, budget = job
    c = spec.REG[ci]
    r = work1(job, c.mode)
    if c.mode == 'exact' and any(not o[2] for o in r['obs']):
        r2 = work1((ci, fname, max(20, budget - r['t'])), 'real')
        if all(o[2] for o in r2['obs']):
            r2['assumed'] = sorted(set(r2['assumed']) | {'floating-point arithmetic read as arithmetic of real numbers in: %s' % r2['dem'][:200]})
            r2['t'] += r['t']
            r2['tq'] += r['tq']
            r2['nq'] += r['nq']
            # equal over the real numbers only: what rounding, infinities and NaN make of it is left to the replay
            r2['obs'].append(('reach', 'the same result for floating-point values as they are (proved over the real numbers only)', False))
            return r2
    if any(not o[2] for o in r['obs']) and r['t'] < budget:
        r2 = work1((ci, fname, max(20, budget - r['t'])), r['mode'], 4)   # a prover that gave up too early must not raise an alarm
        if all(o[2] for o in r2['obs']):
            return r2
    return r


def work1(job, mode, more=1):
    import execu, spec, lib, z3
    ci, fname, budget = job
    c = spec.REG[ci]
    t0 = time.time()
    E = execu.Engine(G['prog'], mode=mode, contracts=spec.REG, lib=G['lib'])
    if c.unroll:
        E.unroll = c.unroll
    E.rlimit *= more
    E.deadline = t0 + budget
    err = None

    def alarm(*_):
        raise TimeoutError('time limit of this function')
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(budget) + 30)
    try:
        spec.verify(E, c, fname)
    except TimeoutError as e:
        err = str(e)
    except Exception as e:
        err = 'verifier error: %s: %s' % (type(e).__name__, ''.join(traceback.format_exc().splitlines(True)[-3:]))
    finally:
        signal.alarm(0)
    obs = []
    ints, texts = set(), []
    for o in E.obligs:
        obs.append((o.kind, o.label, bool(o.ok)))
        if not o.ok and o.pc and len(texts) < 6:
            try:
                s = z3.SimpleSolver()
                s.set('rlimit', 2000000)
                s.set('timeout', 2000)
                for _, f in o.pc:
                    s.add(f)
                if o.goal is not None and o.goal is not False:
                    s.add(z3.Not(o.goal))
                s.check()
                m = s.model()
                w = {}
                for d in m.decls():
                    if d.arity() == 0 and d.range() == z3.IntSort() and '!' not in d.name():
                        w[d.name()] = m[d].as_long()
                        if 0 <= w[d.name()] <= 5000:
                            ints.add(w[d.name()])
                texts.append('%s: %s  counterexample path: %s' % (o.kind, o.label, w))
            except Exception:
                pass
    if err:
        obs.append(('reach', err, False))
    return dict(ci=ci, mode=mode, name=c.name, fname=fname, dem=G['prog'].dem.get(fname, fname), obs=obs, t=time.time() - t0, nq=E.nq, tq=E.tq,
                used=sorted(E.used_contracts), inlined=sorted(E.inlined), trusted=sorted(E.trusted), assumed=sorted(E.assumed),
                ints=sorted(ints), texts=texts, missing=sorted(E.missing))


def targets(spec, prog, c):
    if c.inputs is None:
        return []
    fs = [f for f in prog.where if c.search(prog.dem[f])]
    # complete-object constructors are aliases or copies of the base-object ones
    return sorted(f for f in fs if 'C1' not in f or f.replace('C1', 'C2') not in fs)


# ------------------------------------------------------------------ replay
def literals():
    ints, dbls = set(), set()
    for d in ('include', 'src'):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                if not f.endswith(('.h', '.hxx', '.cxx')):
                    continue
                t = open(os.path.join(r, f), errors='replace').read()
                t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
                t = re.sub(r'//[^\n]*', ' ', t)
                t = re.sub(r'"(\\.|[^"\\])*"', ' ', t)
                for m in re.finditer(r'(?<![\w.])(\d+\.\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|\d+[eE][-+]?\d+|0[xX][0-9a-fA-F]+|\d+)', t):
                    w = m.group(1)
                    try:
                        if re.fullmatch(r'\d+', w):
                            v = int(w)
                            dbls.add(float(v)) if v < 1e6 else None
                            if v <= 5000:
                                ints.add(v)
                        elif w[:2] in ('0x', '0X'):
                            if int(w, 16) <= 5000:
                                ints.add(int(w, 16))
                        else:
                            dbls.add(float(w))
                    except ValueError:
                        pass
    return sorted(ints), sorted(dbls)


def replay(pid, P, tmp, ints, budget, seed, outpath):
    """(verdict, text): 'fail' with a failing input, 'pass' with coverage, or 'error'"""
    src = [os.path.join(HERE, 'replay', P['replay'])]
    for u in P.get('replay_src', ['Serie']):
        f = os.path.join(REPO, 'src', u + '.cxx')
        if os.path.exists(f):
            src.append(f)
    objs, cmds = [], []
    for i, s in enumerate(src):
        o = os.path.join(tmp, 'r%d.o' % i)
        objs.append(o)
        cmds.append([CLANG] + RPFLAGS + ['-c', s, '-o', o])
    for (rc, out), s in zip(par(cmds), src):
        if rc:
            return 'error', 'replay harness: %s does not compile\n%s' % (s, out[-4000:])
    exe = os.path.join(tmp, 'replay')
    rc, out = par([[CLANG, '-fsanitize=address,undefined'] + objs + ['-o', exe, '-pthread']])[0]
    if rc:
        # the sources may have come to depend on others: link all of them
        more = [f for f in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cxx'), recursive=True)) if f not in src]
        extra = [os.path.join(tmp, 'x%d.o' % i) for i in range(len(more))]
        rcs = par([[CLANG] + RPFLAGS + ['-c', s, '-o', o] for s, o in zip(more, extra)])
        objs += [o for o, (rc, _) in zip(extra, rcs) if not rc]
        rc, out = par([[CLANG, '-fsanitize=address,undefined'] + objs + ['-o', exe, '-pthread']])[0]
    if rc:
        return 'error', 'replay harness does not link\n' + out[-4000:]
    li, ld = literals()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:exitcode=42:allocator_may_return_null=1:max_allocation_size_mb=4000' % (1 if P.get('leaks') else 0),
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=42')
    n = P.get('replay_jobs', 7)
    runs = []
    os.makedirs(os.path.join(tmp, 'cwd'), exist_ok=True)
    for k in range(n):
        of = os.path.join(tmp, 'out%d' % k)
        so = open(os.path.join(tmp, 'log%d' % k), 'w+')
        cmd = [exe, '--seed', str(seed * 1000 + k), '--budget', str(budget), '--out', of,
               '--ints', ','.join(map(str, sorted(set(li) | set(ints)))), '--dbls', ','.join(map(repr, ld))]
        # every other process gets freed memory back at once, so that objects of successive calls share their addresses
        e = dict(env, ASAN_OPTIONS=env['ASAN_OPTIONS'] + ':quarantine_size_mb=0:thread_local_quarantine_size_kb=0') if k % 2 else env
        runs.append((subprocess.Popen(cmd, stdout=so, stderr=subprocess.STDOUT, env=e, cwd=os.path.join(tmp, 'cwd')), of, so, cmd))
    end = time.time() + budget + 90
    cases, hung, bad = 0, False, None
    for p, of, so, cmd in runs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            p.kill()
            p.wait()
        so.seek(0)
        lg = so.read()
        m = re.search(r'cases (\d+)', lg)
        if m:
            cases += int(m.group(1))
        if (p.returncode == 42 or os.path.exists(of)) and bad is None:
            t = open(of).read() if os.path.exists(of) else ''
            bad = t + '\n' + lg[-6000:]
        elif p.returncode not in (0, 42) and bad is None and not m:
            return 'error', 'replay harness ended with %s\n%s' % (p.returncode, lg[-3000:])
    if bad is not None:
        return 'fail', bad
    return 'pass', '%d cases, %d processes, %g s each' % (cases, n, budget)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    pid = a.pid
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        return run(a, pid, P, tier, seed, tmp, t0)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


def plain_find(d):
    """libstdc++ unrolls std::find_if four times by hand; the verifier reads it with its own plain version of the loop
    (the overload for input iterators), which is the same function by definition of the standard"""
    for h in sorted(glob.glob('/usr/include/c++/*/bits/stl_algobase.h')):
        s = open(h).read()
        m = re.search(r'(__find_if\(_RandomAccessIterator __first, _RandomAccessIterator __last,\s*_Predicate __pred, random_access_iterator_tag\)\s*)\{.*?\n    \}\n', s, re.S)
        if not m:
            continue
        os.makedirs(os.path.join(d, os.path.basename(h[:h.index('/bits/')]), 'bits'), exist_ok=True)
        o = os.path.join(d, os.path.basename(h[:h.index('/bits/')]))
        open(os.path.join(o, 'bits', 'stl_algobase.h'), 'w').write(s[:m.end(1)] + '''{
      while (__first != __last && !__pred(__first))
	++__first;
      return __first;
    }
''' + s[m.end():])
        used = subprocess.run([CLANG, '-std=c++20', '-M', '-include', 'algorithm', '-x', 'c++', '/dev/null'], capture_output=True, text=True).stdout
        if h in ' '.join(os.path.normpath(x) for x in used.split()):
            return ['-isystem', o]
    return []


def run(a, pid, P, tier, seed, tmp, t0):
    import importlib, execu, spec, lib
    # ---- 1. extraction: the IR of the current sources
    units = P['units']
    IRFLAGS.extend(plain_find(os.path.join(tmp, 'std')))
    cmds = [[CLANG] + IRFLAGS + [unit_path(u), '-o', os.path.join(tmp, u.replace('/', '_') + '.ll')] for u in units]
    bad_units = []
    for u, (rc, out) in zip(units, par(cmds)):
        if rc:
            bad_units.append((u, out[-3000:]))
    lls = [os.path.join(tmp, u.replace('/', '_') + '.ll') for u in units if u not in [b[0] for b in bad_units]]
    t_ext = time.time() - t0
    for m in P['contracts']:
        importlib.import_module(m)
    own = [i for i, c in enumerate(spec.REG) if pid in c.props and c.inputs is not None]
    byname = {}
    for i, c in enumerate(spec.REG):
        byname.setdefault(c.name, []).append(i)
    budget = P.get('budget', 150) * (3 if tier == 'thorough' else 1)
    t_end = t0 + (540 if tier == 'quick' else 7200)      # whatever the solver makes of a change: there is an answer in time
    extended = False
    while True:
        prog = execu.Program(lls)
        L = lib.Lib()
        L.extra.append(spec.CallbackLib())
        G['prog'], G['lib'] = prog, L
        # ---- 2. the functions of the property, then those whose contracts they used
        failures, results, unresolved = [], [], []
        done = set()
        for i in own:
            if not targets(spec, prog, spec.REG[i]) and not spec.REG[i].internal:
                unresolved.append(spec.REG[i].name)
        assumed_contracts = set()
        wave = own if lls else []
        while wave:
            jobs = []
            for i in wave:
                done.add(i)
                for f in targets(spec, prog, spec.REG[i]):
                    jobs.append((i, f, budget))
            rs = []
            with multiprocessing.get_context('fork').Pool(min(8, max(1, len(jobs))), maxtasksperchild=1) as pool:
                pend = [(j, pool.apply_async(work, (j,))) for j in jobs]
                for j, x in pend:
                    try:
                        rs.append(x.get(max(0.1, t_end - time.time())))
                    except multiprocessing.TimeoutError:
                        rs.append(dict(ci=j[0], mode=spec.REG[j[0]].mode, name=spec.REG[j[0]].name, fname=j[1], dem=prog.dem.get(j[1], j[1]),
                                       obs=[('reach', 'time limit of the check', False)], t=0, nq=0, tq=0, used=[], inlined=[], trusted=[], assumed=[],
                                       ints=[], texts=[], missing=[]))
                pool.terminate()
            results.extend(rs)
            nxt = set()
            for r in rs:
                for u in r['used']:
                    for i in byname.get(u, []):
                        if i in done:
                            continue
                        if spec.REG[i].inputs is None or not targets(spec, prog, spec.REG[i]):
                            assumed_contracts.add(u)
                        else:
                            nxt.add(i)
            wave = sorted(nxt)
        # code of this repository may have moved to, or come to use, sources outside the units of the property
        missing = {n for r in results for n in r['missing'] if '2df' in n or n not in prog.dem or prog.dem[n].startswith('df::')}
        if not extended and (missing or unresolved or bad_units):
            extended = True
            have = {unit_path(u) for u in units}
            more = [f for f in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cxx'), recursive=True)) if f not in have]
            outs = [os.path.join(tmp, 'more%d.ll' % i) for i in range(len(more))]
            rcs = par([[CLANG] + IRFLAGS + [f, '-o', o] for f, o in zip(more, outs)])
            lls += [o for o, (rc, _) in zip(outs, rcs) if not rc]
            bad_units = [b for b in bad_units if os.path.exists(unit_path(b[0]))]
            units = list(units) + [os.path.relpath(f, os.path.join(REPO, 'src'))[:-4] for f in more]
            continue
        break
    for nm, ps, fn in spec.LEMMAS:
        if pid in ps:
            E = execu.Engine(prog, mode=fn.mode, contracts=spec.REG, lib=L)
            E.deadline = time.time() + 300
            t1 = time.time()
            obs = []
            try:
                for lab, ok in fn(E):
                    obs.append(('lemma', lab, bool(ok)))
            except execu.Fail as e:
                obs.append(('reach', 'the code the lemma is about can be followed: %s' % e, False))
            obs += [(o.kind, o.label, o.ok) for o in E.obligs]
            results.append(dict(ci=own[0], mode='real', name='lemma ' + nm, fname=nm, dem='(lemma over the contracts) ' + nm, obs=obs, t=time.time() - t1, nq=E.nq,
                                tq=E.tq, used=[], inlined=[], trusted=[], assumed=[], ints=[], texts=[]))
    nobl = sum(len(r['obs']) for r in results)
    nok = sum(1 for r in results for o in r['obs'] if o[2])
    undecided, broken = [], []
    for r in results:
        bad = [o for o in r['obs'] if not o[2]]
        if not bad:
            continue
        # the verifier could not follow the code (nothing is refuted) / an obligation is not discharged
        hard = [o for o in bad if o[0] != 'reach']
        (broken if hard else undecided).append((r, bad))
    for u, out in bad_units:
        undecided.append((dict(name=u, fname=u, dem='unit ' + u, texts=[], ints=[]), [('reach', 'the unit does not compile: ' + out, False)]))
    for n in unresolved:
        undecided.append((dict(name=n, fname=n, dem=n, texts=[], ints=[]), [('reach', 'function under contract not found', False)]))
    ints = sorted({x for r, _ in broken + undecided for x in r['ints']})
    rep = None
    bounded = P.get('bounded')
    repdir = os.path.join(HERE, 'build', 'replay')
    os.makedirs(repdir, exist_ok=True)
    rpath = os.path.join(repdir, pid + '.txt')
    violations = []
    known = load_known(pid)
    t_ver = time.time() - t0
    if broken or undecided or bounded or tier == 'thorough':
        b = 20 if broken or undecided else P.get('bounded_budget', 10)
        if tier == 'thorough':
            b = float(os.environ.get('VERIF_BUDGET') or P.get('thorough_budget', 120))
        rep = replay(pid, P, tmp, ints, b, seed, rpath)
    lines = []
    for r, bad in broken + undecided:
        lines.append('function: %s' % r['dem'])
        lines.append('contract: %s' % r['name'])
        for o in bad:
            lines.append('  FAILED OBLIGATION [%s] %s' % (o[0], o[1]))
        for t in r['texts']:
            lines.append('  ' + t)
    err = None
    if rep and rep[0] == 'fail':
        violations.append('')
        lines = ['PROPERTY %s: %s' % (pid, P['title']), '', 'failing input on the real code (replay/%s):' % P['replay'], rep[1], ''] + lines
    elif broken:
        violations.append(' no-failing-input-found')
        lines = ['PROPERTY %s: %s' % (pid, P['title']), '', 'obligations not discharged; the replay found no failing input (%s: %s)' % rep, ''] + lines
    elif rep and rep[0] == 'error' and (undecided or bounded):
        # neither the verifier nor the stand-in can follow the code
        violations.append(' no-failing-input-found')
        lines = ['PROPERTY %s: %s' % (pid, P['title']), '', rep[1], ''] + lines
    if not results and not bounded and not violations:
        err = 'no obligations were generated'
    if lines:
        open(rpath, 'w').write('\n'.join(lines) + '\n')
    elif os.path.exists(rpath):
        os.remove(rpath)
    for k in known:
        log('KNOWN-FINDING: property=%s %s' % (pid, k))
    # ---- 3. evidence
    fl = [dict(function=r['dem'][:300], contract=r['name'], mode=r['mode'], obligations=len(r['obs']), discharged=sum(1 for o in r['obs'] if o[2]),
               seconds=round(r['t'], 2), solver_seconds=round(r['tq'], 2), queries=r['nq'], own=pid in spec.REG[r['ci']].props) for r in results]
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=round(time.time() - t0, 2), violations=len(violations),
              coverage=dict(
                  obligations=nobl, discharged=nok,
                  checker_cmd='python3-vt /verif/check.py %s --tier %s (verification conditions from LLVM IR of /repo by clang; back end: z3)' % (pid, tier),
                  backend='z3 %s (python API), deterministic resource limit per query' % __import__('z3').get_version_string() + P.get('backend', ''),
                  functions_under_contract=fl, functions=len(fl), solver_seconds=round(sum(r['tq'] for r in results), 2),
                  solver_queries=sum(r['nq'] for r in results),
                  trusted_base=sorted({t for r in results for t in r['trusted']}) + props.TRUSTED,
                  inlined_helpers=sorted({t[:160] for r in results for t in r['inlined']})[:200],
                  assumed_contracts=sorted(assumed_contracts),
                  undecided_by_the_verifier=[dict(function=r['dem'][:200], reason=bad[0][1][:300]) for r, bad in undecided],
                  bounded_standin=(None if rep is None else dict(harness='replay/' + P['replay'], result=rep[0], covered=rep[1][:300],
                                                                 functions=P.get('bounded', []) if not undecided else
                                                                 list(P.get('bounded') or []) + [r['dem'][:120] for r, _ in undecided])),
                  extraction_seconds=round(t_ext, 2)),
              assumptions=props.ASSUMPTIONS + P.get('assumptions', []) + sorted({t for r in results for t in r['assumed']}))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s: %d functions, %d obligations, %d discharged; extraction %.1fs, verification %.1fs, total %.1fs' % (
        pid, len(fl), nobl, nok, t_ext, t_ver - t_ext, time.time() - t0))
    if rep:
        log('replay: %s %s' % (rep[0], rep[1][:1500] if rep[0] != 'pass' else rep[1]))
    if a.v:
        for l in lines:
            log(l[:600])
    for r, bad in undecided:
        log('undecided by the verifier (bounded stand-in used): %s: %s' % (r['dem'][:120], bad[0][1][:200]))
    if err:
        log('ERROR', err)
        return 2
    if violations:
        for v in violations:
            log('VIOLATION property=%s replay=%s%s' % (pid, rpath, v))
        return 1
    return 0


def load_known(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':      # same order of everything in every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
