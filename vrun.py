#!/usr/bin/env python3
"""vrun: contract checks for michaeljclark/crefl.

  vrun.py check C01 [--tier quick|thorough]   decide one property
  vrun.py entry NAME [...]                    run single obligation groups (development)
  vrun.py setup                               self-test of the tool chain
"""
import sys, os, copy, re, json, time, subprocess, tempfile, shutil, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VF_REPO', '/repo')
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
LLVM = '/usr/lib/llvm-18/bin/'
IRFLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-discard-value-names', '-DNDEBUG',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-U_FORTIFY_SOURCE', '-w', '-I' + REPO + '/include', '-I' + V + '/spec', '-include', 'cstdint', '-emit-llvm', '-c']
NATFLAGS = ['-std=c++17', '-O1', '-g', '-fsanitize=address,shift-exponent,bounds,integer-divide-by-zero,unreachable', '-fno-sanitize-recover=all',
            '-DNDEBUG', '-DVF_NATIVE', '-w', '-I' + REPO + '/include', '-I' + V + '/spec', '-include', 'cstdint']
DEFSRC = ['asn1.cc']
# descriptions of failures that mean "cannot decide", not "violated"
SOFT = ('[limit]', '[general]', '[extern]', 'unwinding assertion', 'recursion unwinding', '[cut]')
# contracts of the buffer primitives stand in for them in every caller (enforced in spec/buf.cc)
PRIMS = ['_ZL%d%sP9crefl_buf%s:%s' % (len(a), a, t, b) for a, t, b in [
    ('crefl_buf_read_i8', 'Pa', 'stub_read_i8'), ('crefl_buf_write_i8', 'a', 'stub_write_i8'),
    ('crefl_buf_read_unchecked_i8', 'Pa', 'stub_read_unchecked_i8'), ('crefl_buf_write_unchecked_i8', 'a', 'stub_write_unchecked_i8'),
    ('crefl_buf_check_capacity', 'm', 'stub_check_capacity'),
    ('crefl_buf_read_bytes', 'Pcm', 'stub_read_bytes'), ('crefl_buf_write_bytes', 'PKcm', 'stub_write_bytes'),
    ('crefl_buf_read_bytes_unchecked', 'Pcm', 'stub_read_bytes_unchecked'), ('crefl_buf_write_bytes_unchecked', 'PKcm', 'stub_write_bytes_unchecked')]]
NPROC = int(os.environ.get('VF_JOBS', '8'))

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

class Entry:
    def __init__(s, name, file, kv):
        s.name = name; s.file = file
        s.props = kv.get('props', '').split(',')
        s.fns = [x for x in kv.get('fn', '').split(',') if x]
        s.stubs = [x for x in kv.get('stubs', '').split(',') if x]
        s.unwind = int(kv.get('unwind', '26'))
        s.unwindmax = int(kv.get('unwindmax', str(max(140, s.unwind))))
        s.src = kv['src'].split(',') if 'src' in kv else DEFSRC
        s.kind = kv.get('kind', 'proof'); s.bound = kv.get('bound', '').replace('_', ' ')
        s.tmo = int(kv.get('tmo', '400')); s.defs = [x for x in kv.get('defs', '').split(',') if x]
        s.cc = [x for x in kv.get('cc', '').split(',') if x]     # -D for the extracted C
        s.opts = [x for x in kv.get('opts', '').split(',') if x]
        s.tier = kv.get('tier', 'quick'); s.cuts = [x for x in kv.get('cuts', '').split(',') if x]
        s.objbits = kv.get('objbits', '8')
        s.inline = [x for x in kv.get('inline','').split(',') if x]
        s.mem = int(kv.get('mem', '6'))
        s.cases = int(kv.get('cases', '1'))
        s.gcases = int(kv.get('gcases', str(s.cases)))      # cases when verified without contract stubs
        s.prims = kv.get('prims', '0') == '1'
        s.general = False
        s.track = kv.get('track', '0') == '1'
        s.gstubs = [x for x in kv.get('gstubs', '').split(',') if x]
        s.gfull = kv.get('gfull', '0') == '1'       # the unrolled variant covers every input (the loop is bounded by the format)
        s.gunwind = int(kv.get('gunwind', '12')); s.gbound = kv.get('gbound', '').replace('_', ' ')

def load_entries():
    out = {}
    for f in sorted(os.listdir(V + '/spec')):
        if not f.endswith('.cc') or f == 'native.cc': continue
        fd = {}
        for line in open(V + '/spec/' + f):
            m = re.match(r'//@@ (.*)', line)
            if m: fd = dict(x.split('=', 1) for x in m.group(1).split()); continue
            m = re.match(r'//@ (\w+)(.*)', line)
            if m:
                kv = dict(fd); kv.update(dict(x.split('=', 1) for x in m.group(2).split()))
                out[m.group(1)] = Entry(m.group(1), f, kv)
    return out

class Ctx:
    def __init__(s):
        os.makedirs(V + '/.work', exist_ok=True)
        s.dir = tempfile.mkdtemp(prefix='w', dir=V + '/.work'); s.lock = threading.Lock(); s.cache = {}
        s.memo = {}
    def close(s): shutil.rmtree(s.dir, ignore_errors=True)
    def once(s, key, fn):
        with s.lock:
            if key not in s.cache: s.cache[key] = (threading.Lock(), [])
            l, box = s.cache[key]
        with l:
            if not box:
                try: box.append((fn(), None))
                except Exception as e: box.append((None, e))
        if box[0][1]: raise box[0][1]
        return box[0][0]
    def bc(s, path, defs=()):
        key = ('bc', path, tuple(defs))
        def go():
            o = '%s/%s.bc' % (s.dir, hashlib.md5(repr(key).encode()).hexdigest())
            fl = IRFLAGS
            if path.endswith('.c'): fl = ['-x', 'c', '-std=c11'] + [x for x in fl if x not in ('-std=c++17', '-include', 'cstdint')]
            r = sh([CLANG] + fl + ['-DVF_VERIFY'] + list(defs) + [path, '-o', o])
            if r.returncode: raise Broken('cannot compile %s: %s' % (path, r.stderr.decode()[-1500:]))
            return o
        return s.once(key, go)
    def module(s, e, small):
        defs = ['-D' + d for d in e.defs] + (['-DVF_SMALL'] if small else []) + (['-DVF_GENERAL'] if e.general or not e.prims else []) + (['-DVF_BOUNDED'] if e.general and (e.cuts or e.track) else [])
        passes = e_passes(e)
        key = ('mod', e.file, tuple(e.src), tuple(defs), passes)
        def go():
            bcs = [s.bc(V + '/spec/' + e.file, defs)] + [s.bc(srcpath(x)) for x in e.src]
            o = '%s/m%s' % (s.dir, hashlib.md5(repr(key).encode()).hexdigest())
            r = sh([LLVM + 'llvm-link'] + bcs + ['-o', o + '.l.bc'])
            if r.returncode: raise Broken('llvm-link: ' + r.stderr.decode()[-800:])
            if not passes: return o + '.l.bc'
            r = sh([LLVM + 'opt', '-passes=' + passes, o + '.l.bc', '-o', o + '.bc'])
            if r.returncode: raise Broken('opt: ' + r.stderr.decode()[-800:])
            return o + '.bc'
        return s.once(key, go)
    def native(s, e):
        key = ('nat', e.file, tuple(e.src), tuple(e.defs))
        def go():
            o = '%s/n%s' % (s.dir, hashlib.md5(repr(key).encode()).hexdigest())
            srcs = []
            for x in e.src:
                p = srcpath(x)
                if p.endswith('.c'):
                    q = o + os.path.basename(p) + '.o'
                    r = sh([CLANG, '-x', 'c', '-std=c11'] + [y for y in NATFLAGS if y not in ('-std=c++17', '-include', 'cstdint')] + ['-c', p, '-o', q])
                    if r.returncode: raise Broken('native build: ' + r.stderr.decode()[-1500:])
                    p = q
                srcs.append(p)
            r = sh([CLANG] + NATFLAGS + ['-D' + d for d in e.defs] + [V + '/spec/native.cc', V + '/spec/' + e.file] + srcs + ['-o', o])
            if r.returncode: raise Broken('native build: ' + r.stderr.decode()[-1500:])
            return o
        return s.once(key, go)

def e_passes(e): return '' if e.cuts and not e.general else 'function(sroa)'   # loop invariants name the source's locals
def srcpath(x): return (V + '/spec/' + x[1:]) if x.startswith('@') else REPO + '/src/' + x
class Broken(Exception): pass

def extract(ctx, e, small):
    mod = ctx.module(e, small)
    c = '%s/%s%s%s.c' % (ctx.dir, e.name, '.small' if small else '', '.gen' if e.general else '')
    cmd = ['python3', V + '/tools/ir2c.py', mod, '-o', c, '-e', e.name]
    for st in (e.gstubs if e.general else e.stubs + (PRIMS if e.prims else [])): cmd += ['-r', st.replace(':', '=')]
    for cu in ([] if e.general else e.cuts): cmd += ['-c', cu]
    if e.track and not e.general: cmd.append('-t')
    r = sh(cmd, timeout=200)
    if r.returncode: raise Broken('extraction: ' + r.stderr.decode()[-600:])
    return c, json.loads(r.stdout.decode().strip().splitlines()[-1])

def cbmc_cmd(e, c, unwind, trace=None, cover=False, case=0):
    cmd = ['cbmc', c, '--function', 'VF_' + e.name, '--unwind', str(unwind), '--no-standard-checks',
           '--object-bits', e.objbits, '--json-ui', '--verbosity', '8'] + (['--sat-solver', os.environ['VF_SAT']] if 'VF_SAT' in os.environ else []) + e.opts
    cmd += ['-D', 'VF_COVERRUN'] if cover else ['--pointer-check', '--unwinding-assertions']
    for d in e.cc + ['VF_CASE=%d' % case, 'VF_NCASES=%d' % e.cases]: cmd += ['-D', d]
    if trace: cmd += ['--trace', '--property', trace]
    return cmd

def limited(cmd, tmo, gb):
    return ['bash', '-c', 'ulimit -v %d; exec timeout %d "$@"' % (gb * 1024 * 1024, tmo), 'x'] + cmd

def parse(out):
    try: data = json.loads(out)
    except Exception:
        return None, None, out[-800:].decode('utf8', 'replace')
    res, solver, msg = None, None, ''
    for d in data:
        if not isinstance(d, dict): continue
        if 'result' in d: res = d['result']
        t = d.get('messageText', '')
        if t.startswith('Solving with') or ('SMT2' in t and 'using' in t.lower()): solver = t
        if d.get('messageType') == 'ERROR': msg += t + ' '
    return res, solver, msg

SLOTS = threading.Semaphore(NPROC)
def one_case(e, c, k, deadline, cover=False):
    """run cbmc on one case of the entry -> dict"""
    u = e.unwind; t0 = time.time()
    while True:
        with SLOTS:
            left = int(min(e.tmo, deadline - time.time()))
            if left < 5: return dict(case=k, err='time budget')
            p = sh(limited(cbmc_cmd(e, c, u, case=k, cover=cover), left, e.mem))
        res, solver, msg = parse(p.stdout)
        if res is None: return dict(case=k, err='cbmc rc=%d %s %s' % (p.returncode, msg, p.stderr.decode()[-300:]))
        if cover: return dict(case=k, res=[x for x in res if x['description'].startswith('[cover]')])
        bad = [x for x in res if x['status'] != 'SUCCESS']
        unw = [x for x in bad if 'unwinding assertion' in x['description'] or 'recursion unwinding' in x['description']]
        hard = [x for x in bad if x['status'] == 'FAILURE' and not any(q in x['description'] for q in SOFT)]
        if unw and not hard and u < e.unwindmax:
            u = min(e.unwindmax, u * 2 + 6); continue
        return dict(case=k, n=len(res), bad=bad, hard=hard, unwind=u, solver=solver, wall=time.time() - t0)

def run_entry(ctx, e, deadline, small=False, only=None):
    R = run_entry1(ctx, e, deadline, small, only)
    if not (e.cuts or e.track) or e.general or R['status'] == 'proved': return R
    # the loops are not the ones the invariants were written for, or the proof fails: the same
    # contract is checked on the unmodified loops up to a bound, which is what decides then
    g = copy.copy(e); g.general = True; g.cases = e.gcases; g.unwind = e.gunwind; g.unwindmax = max(2 * e.gunwind, 20); g.kind = 'bounded'
    G = run_entry1(ctx, g, deadline, small)
    why = R.get('why') or '; '.join(sorted({f['label'] for f in R['failed']}))
    G['unbounded_attempt'] = why
    # invariants that hold but do not give the contract: that is a failed obligation of the code
    if R['status'] == 'failed' and not R['soft'] and not any('[inv]' in f['label'] for f in R['failed']): G['strong'] = R['failed']
    if G['status'] == 'proved' and e.gfull: G['kind'] = e.kind; return G
    if G['status'] == 'proved': G['status'] = 'unknown'; G['why'] = 'no unbounded proof (%s); the same contract holds up to the bound: %s' % (why[:300], e.gbound or 'unwind %d' % e.gunwind)
    elif G['status'] == 'unknown': G['why'] = 'no unbounded proof (%s); bounded: %s' % (why[:300], G.get('why'))
    return G

def run_entry1(ctx, e, deadline, small=False, only=None):
    """-> dict(status=proved|failed|unknown, ...)"""
    t0 = time.time(); R = dict(entry=e.name, fns=e.fns, stubs=e.stubs, kind=e.kind, bound=e.bound, obligations=0, discharged=0, cases=e.cases, failed=[], soft=[])
    try:
        with SLOTS: c, info = extract(ctx, e, small)
    except (Broken, subprocess.TimeoutExpired) as x:
        R.update(status='unknown', why=str(x)[:600], wall=time.time() - t0); return R
    R['externs'] = info['externs']; R['extracted'] = info['functions']; R['instructions'] = info['ins']; R['cutinfo'] = info.get('cuts'); R['stubbed'] = info.get('stubbed')
    if info.get('cutmiss'): R.update(status='unknown', why='loop invariants do not match the code: ' + '; '.join(info['cutmiss'])[:400], wall=time.time() - t0); return R
    R['c'] = c; R['cmd'] = ' '.join(os.path.basename(x) if x == c else x for x in cbmc_cmd(e, c, e.unwind))
    stop = []
    def go(k):
        if stop: return dict(case=k, err='skipped after a failure', skipped=True)
        r = one_case(e, c, k, deadline)
        if r.get('hard') and len(stop) < 1: stop.append(k)
        return r
    ks = list(only if only is not None else range(e.cases - 1, -1, -1))
    with ThreadPoolExecutor(max(1, len(ks))) as ex: rs = list(ex.map(go, ks))
    R['solver'] = '; '.join(sorted({r['solver'] for r in rs if r.get('solver')}))
    ok = [r for r in rs if 'n' in r]
    R['obligations'] = sum(r['n'] for r in ok); R['discharged'] = sum(r['n'] - len(r['bad']) for r in ok)
    R['unwind'] = max([r['unwind'] for r in ok] or [e.unwind])
    R['solver_s'] = sum(r['wall'] for r in ok)
    for r in ok:
        for x in r['hard']: R['failed'].append(dict(name=x['property'], label=x['description'], loc=x.get('sourceLocation', {}).get('function', ''), case=r['case'], unwind=r['unwind']))
    soft = {x['description'] for r in ok for x in r['bad'] if x['status'] == 'FAILURE' and x not in r['hard']} or {'undecided: ' + x['description'] for r in ok for x in r['bad'] if x not in r['hard']}
    errs = [r['err'] for r in rs if 'err' in r and not r.get('skipped')]
    R['soft'] = sorted(soft)
    if e.prims and not e.general and any('[general]' in x for x in soft):
        g = copy.copy(e); g.general = True; g.cases = e.gcases
        return run_entry(ctx, g, deadline, small, only)
    R['general'] = e.general
    if R['failed']: R['status'] = 'failed'
    elif errs: R['status'] = 'unknown'; R['why'] = errs[0]
    elif soft: R['status'] = 'unknown'; R['why'] = 'not decidable: ' + '; '.join(R['soft'][:3])
    else:
        want, seen = set(), set()
        for k in ks:
            r = one_case(e, c, k, deadline, cover=True)
            if 'err' in r: R.update(status='unknown', why='vacuity run: ' + r['err'], wall=time.time() - t0); return R
            for x in r['res']:
                want.add(x['description'])
                if x['status'] != 'SUCCESS': seen.add(x['description'])
            if want == seen: break
        R['covers'] = sorted(x[8:] for x in seen)
        if want - seen: R['status'] = 'unknown'; R['why'] = 'vacuous: ' + '; '.join(sorted(want - seen))
        else: R['status'] = 'proved'
    R['wall'] = time.time() - t0
    return R

def trace_inputs(ctx, e, f, c, tmo):
    p = sh(limited(cbmc_cmd(e, c, f['unwind'], f['name'], case=f['case']), tmo, 8))
    try: data = json.loads(p.stdout)
    except Exception: return None
    for d in data:
        if isinstance(d, dict) and 'result' in d:
            for x in d['result']:
                if x['status'] == 'FAILURE' and x.get('trace'):
                    v = []
                    for st in x['trace']:
                        if st.get('stepType') == 'input' and st.get('inputID') == 'vf_input':
                            val = st['values'][0]
                            v.append(int(val['binary'], 2) if 'binary' in val else int(re.sub(r'\D', '', val['data'])))
                    return v
    return None

def native_run(ctx, e, args, tmo):
    try: exe = ctx.native(e)
    except Broken as x: return dict(failed=None, error=str(x)[:400])
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=99', UBSAN_OPTIONS='halt_on_error=1')
    try: p = sh([exe, e.name] + args, timeout=tmo, env=env)
    except subprocess.TimeoutExpired: return dict(failed=None, error='timeout')
    o = p.stdout.decode().strip().splitlines()
    try: r = json.loads(o[-1])
    except Exception: r = dict(failed=None, error='rc %d' % p.returncode)
    r['stderr'] = p.stderr.decode(errors='replace')[-1500:]
    return r

def find_input(ctx, e, R, deadline, seed):
    if R.get('general'):
        e = copy.copy(e); e.general = True; e.cases = e.gcases
        if e.cuts or e.track: e.unwind = e.gunwind; e.unwindmax = max(2 * e.gunwind, 20)
    """a failing input on the real code for a failed obligation group, or None"""
    if e.kind == 'static': return None
    prefer = sorted(R['failed'], key=lambda x: (not x['label'].startswith('[post]'), not x['label'].startswith('[lemma]')))
    for small in (True, False):
        if time.time() > deadline - 60: break
        R2 = run_entry(ctx, e, min(deadline - 45, time.time() + 200), small, sorted({f['case'] for f in R['failed']})[:2]) if small else R
        if R2['status'] != 'failed': continue
        for f in sorted(R2['failed'], key=lambda x: (not x['label'].startswith('[post]'), not x['label'].startswith('[lemma]')))[:3]:
            if time.time() > deadline - 45: break
            v = trace_inputs(ctx, e, f, R2['c'], int(max(10, min(150, deadline - 40 - time.time()))))
            if v is None: continue
            n = native_run(ctx, e, ['replay'] + [str(x) for x in v], 60)
            if n.get('failed'):
                return dict(source='verifier counterexample for "%s"' % f['label'], inputs=v, native=n)
    left = int(min(25, deadline - time.time() - 10))
    if left > 3:
        n = native_run(ctx, e, ['search', str(left), str(seed)], left + 40)
        if n.get('failed'): return dict(source='native search', inputs=n['inputs'], native=n)
    return None

def known():
    out = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\w+) entry=(\w+) label="([^"]*)" (.*)', l.strip())
            if m: out.append(m.groups())
    return out

def check(prop, tier, seed):
    t0 = time.time(); budget = 840 if tier == 'quick' else 3300
    deadline = t0 + budget
    ents = [e for e in load_entries().values() if prop in e.props and (tier == 'thorough' or e.tier == 'quick')]
    if not ents: print('no obligations for', prop); return 2
    if tier == 'thorough':
        for e in ents: e.tmo *= 4
    ctx = Ctx()
    try:
        try:
            for f in sorted({e.file for e in ents}): pass
            with ThreadPoolExecutor(32) as ex:
                order = sorted(ents, key=lambda e: -e.tmo)
                res = list(ex.map(lambda e: run_entry(ctx, e, deadline - 150), order))
        except Broken as x:
            print('error:', x); return 2
        by = {e.name: e for e in ents}
        viol, kf, notes, assumptions = [], [], [], set()
        kn = known()
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        for R in res:
            e = by[R['entry']]
            if R['status'] == 'failed':
                rest = []
                for f in R['failed']:
                    k = [x for x in kn if x[0] == prop and x[1] == e.name and x[2] == f['label']]
                    if k: kf.append(k[0])
                    else: rest.append(f)
                if not rest: continue
                R['failed'] = rest
                if len(viol) >= 3 and any(v[1] for v in viol): cex = None
                else: cex = find_input(ctx, e, R, deadline, seed)
                viol.append((R, cex))
            elif R['status'] == 'unknown':
                # bounded stand-in: the same contract, run natively on generated inputs
                left = int(max(5, min(40, (deadline - time.time() - 30) / 2)))
                n = native_run(ctx, e, ['search', str(left), str(seed)], left + 60)
                R['bounded_standin'] = dict(seconds=left, result=n.get('failed'), batches=n.get('batches'), error=n.get('error'))
                if n.get('failed'): viol.append((R, dict(source='bounded stand-in (native search)', inputs=n['inputs'], native=n)))
                elif R.get('strong'): R['failed'] = R['strong']; viol.append((R, None))
                else: notes.append('%s: %s - NOT PROVED on this tree, bounded stand-in only' % (e.name, R['why']))
        for k in sorted(set(kf)): print('KNOWN-FINDING: property=%s %s [%s / %s]' % (prop, k[3], k[1], k[2]))
        for n in notes: print('note:', n)
        # report: one VIOLATION line, the best evidence first
        viol.sort(key=lambda v: v[1] is None)
        nproved = sum(1 for R in res if R['status'] == 'proved')
        ob = sum(R['obligations'] for R in res if by[R['entry']].kind == 'proof'); di = sum(R['discharged'] for R in res if by[R['entry']].kind == 'proof')
        if viol:
            R, cex = viol[0]
            path = '%s/evidence/replay/%s-%s.json' % (V, prop, R['entry'])
            json.dump(dict(property=prop, obligation_group=R['entry'], functions=R['fns'],
                           failed_obligations=R.get('failed', []), verifier_cmd=R.get('cmd'), solver=R.get('solver'),
                           counterexample=cex, how_to_replay='%s/vrun.py replay %s' % (V, path),
                           others=[dict(entry=v[0]['entry'], failed=v[0].get('failed')) for v in viol[1:]]), open(path, 'w'), indent=1)
            for v in viol:
                print('failed: %s: %s' % (v[0]['entry'], '; '.join(sorted({f['label'] for f in v[0].get('failed', [])})) or v[0].get('why')))
                if v[1]: print('   input on the real code (%s): %s -> %s' % (v[1]['source'], v[1]['inputs'][:40], v[1]['native']['failed']))
            print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if cex else ' no-failing-input-found'))
        lvl = manifest_level(prop)
        ext = sorted({x for R in res for x in R.get('externs', [])})
        fns = sorted({f for e in ents for f in e.fns})
        real = sorted({x for R in res for x in R.get('extracted', []) if not x.startswith(('enforce_', 'lemma_', 'roundtrip_', 'stub_'))})
        ev = dict(property=prop, tier=tier, seed=seed, level=lvl, wall_s=round(time.time() - t0, 1), violations=len(viol),
          coverage=dict(obligations=ob, discharged=di,
            checker_cmd='cbmc <extracted>.c --function VF_<entry> --unwind N --pointer-check (unwinding assertions on)',
            trusted_base=['clang 18 front end and LLVM IR semantics', 'tools/ir2c.py extraction', 'cbmc 6.11 and its SAT back end', 'spec/*.h specifications', 'libc models in tools/prelude.c'],
            groups_total=len(res), groups_proved=nproved,
            functions_under_contract=fns, functions_extracted=real, contract_stubs=sorted({x for e in ents for x in e.stubs}),
            back_ends=sorted({str(R.get('solver')) for R in res if R.get('solver')}),
            bounded_groups=[dict(entry=e.name, bound=e.bound) for e in ents if e.kind != 'proof'],
            not_decided=[dict(entry=R['entry'], why=R['why'], standin=R.get('bounded_standin')) for R in res if R['status'] == 'unknown'],
            solver_wall_s=round(sum(R.get('solver_s', 0) for R in res), 1),
            groups=[dict(entry=R['entry'], status=R['status'], obligations=R['obligations'], discharged=R['discharged'], wall_s=round(R['wall'], 1), kind=R['kind'], cases=R['cases'], primitives_by_contract=R.get('stubbed'), unwind=R.get('unwind'), instructions=R.get('instructions'), loop_cuts=R.get('cutinfo'), covers=R.get('covers'), cmd=R.get('cmd')) for R in res]),
          assumptions=['objects are smaller than 2^47 bytes (x86-64 user space)', 'malloc succeeds', 'buffers satisfy data_offset <= data_size and data points to data_size bytes on entry',
             'external functions with assumed models: ' + (', '.join(ext) or 'none'), 'a memcpy/memset of zero bytes touches nothing (null pointers tolerated)'])
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
        print('%s: %d groups, %d proved, %d/%d obligations, %.1f s' % (prop, len(res), nproved, di, ob, time.time() - t0))
        return 1 if viol else 0
    finally: ctx.close()

def manifest_level(prop):
    try:
        for c in json.load(open(V + '/MANIFEST.json'))['checks']:
            if c['property'] == prop: return c['level']
    except Exception: pass
    return 'proof'

def main():
    a = sys.argv[1:]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: i = a.index('--tier'); tier = a[i + 1]; del a[i:i + 2]
    if a[0] == 'check': sys.exit(check(a[1], tier, seed))
    if a[0] == 'entry':
        E = load_entries(); ctx = Ctx(); keep = '-k' in a
        names = [n for n in E if any(re.fullmatch(p, n) for p in a[1:])]
        if '-nog' in a: global run_entry; run_entry = run_entry1
        if '-gen' in a:
            for n in names: E[n].general = True; E[n].unwind = E[n].gunwind; E[n].cases = E[n].gcases
        try:
            with ThreadPoolExecutor(32) as ex:
                def go(n):
                    R = run_entry(ctx, E[n], time.time() + 3000)
                    print('%-34s %-8s %4d/%4d %6.1fs u%s %s' % (n, R['status'], R['discharged'], R['obligations'], R['wall'], R.get('unwind'), R.get('why', '') if not R.get('unbounded_attempt') else 'ATTEMPT: '+R['unbounded_attempt']+' | '+R.get('why','')), flush=True)
                    for f in sorted({(f['label'], f['loc'], f['case']) for f in R.get('failed', [])})[:12]: print('     FAIL', *f, flush=True)
                    if R['status'] == 'failed' and '-x' in a:
                        x = find_input(ctx, E[n], R, time.time() + 600, seed); print('     INPUT', x and (x['source'], x['inputs'], x['native']['failed'], x['native'].get('stderr','')[-300:]))
                    if '-s' in a: print('     SEARCH', native_run(ctx, E[n], ['search', '10', str(seed)], 60))
                list(ex.map(go, names))
            if keep: print(ctx.dir)
        finally:
            if not keep: ctx.close()
        return
    if a[0] == 'replay':
        d = json.load(open(a[1])); E = load_entries(); ctx = Ctx()
        try:
            if not d.get('counterexample'): print('no concrete input; failed obligations:', json.dumps(d['failed_obligations'], indent=1)); return
            print(json.dumps(native_run(ctx, E[d['obligation_group']], ['replay'] + [str(x) for x in d['counterexample']['inputs']], 60), indent=1))
        finally: ctx.close()
        return
    if a[0] == 'setup':
        for t in (CLANG, 'cbmc', LLVM + 'opt', LLVM + 'llvm-link'):
            if not shutil.which(t): print('missing', t); sys.exit(1)
        shutil.rmtree(V + '/.work', ignore_errors=True)
        print('ok'); return
main()
