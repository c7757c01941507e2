#!/usr/bin/env python3
"""Entry point of every check:  python3 /verif/run.py <property> [quick|thorough]

Builds libdfp from /repo's working tree (out of tree, with the instrumentation the
property needs), builds the monitors against it, runs the property's workloads,
merges what the monitors observed, and reports.
Exit 0: nothing but recorded findings was observed.  Exit 1: VIOLATION line(s).
Exit 2: the check could not be carried out (build failure, nothing observed...)."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time, fcntl
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from plan import PLAN

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(V, '.cache')
JOBS = os.cpu_count() or 4

# UBSan without object-size (GCC reports valid decNumber accesses: it folds pointers that were decremented below the buffer to size 0)
# and without shift-base (left shifts into the sign bit are defined by GCC).
UB = 'address,shift-exponent,integer-divide-by-zero,unreachable,vla-bound,null,return,signed-integer-overflow,bounds,alignment,nonnull-attribute,returns-nonnull-attribute,bool,enum,pointer-overflow'
VARIANTS = {
    'plain': dict(flags='-O2 -g'),
    'asan': dict(flags='-O1 -g -fsanitize=%s -fno-sanitize-recover=%s -fno-omit-frame-pointer' % (UB, UB.replace('address,', '')), link='-fsanitize=' + UB),
    'tsan': dict(flags='-O1 -g -fsanitize=thread', link='-fsanitize=thread'),
}

class CheckError(Exception):
    pass

def die(msg):
    raise CheckError(msg)

def tree_hash():
    """Content of everything in the source tree that the build could read."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', '_build', 'autom4te.cache'))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]

def sh(cmd, cwd=None, env=None, log=None, timeout=850):
    e = dict(os.environ)
    e.update(env or {})
    for k in ('MAKEFLAGS', 'MAKELEVEL'):
        e.pop(k, None)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        die('timed out: %s' % cmd)
    if log:
        with open(log, 'ab') as f:
            f.write(r.stdout)
    return r.returncode, r.stdout.decode('utf8', 'replace')

def lib(variant):
    """Path of a build of the current tree under the given instrumentation."""
    os.makedirs(CACHE, exist_ok=True)
    vflags = VARIANTS[variant]['flags']
    key = hashlib.sha256((tree_hash() + vflags + 'v3').encode()).hexdigest()[:20]
    d = os.path.join(CACHE, 'lib-%s-%s' % (variant, key))
    with open(os.path.join(CACHE, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, 'OK')):
            return d
        for old in glob.glob(os.path.join(CACHE, 'lib-%s-*' % variant)):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d)
        env = dict(LC_ALL='C', AWK='gawk', CC='gcc', CXX='g++', ASAN_OPTIONS='detect_leaks=0', TSAN_OPTIONS='report_bugs=0',
                   CFLAGS=vflags, CXXFLAGS=vflags)
        if variant != 'plain':
            env['CC'] = 'gcc ' + VARIANTS[variant]['link']
            env['CXX'] = 'g++ ' + VARIANTS[variant]['link']
        rc, out = sh([REPO + '/configure', '--prefix=' + d + '/install'], cwd=d, env=env)
        if rc:
            die('configure failed\n' + out[-2000:])
        if not os.path.exists(REPO + '/libbid/bid_binarydecimal.c'):
            with open(d + '/bid_binarydecimal.c', 'w') as f:
                f.write('/* the binary conversion cores come from libgcc, as in /opt/vp/build.sh */\n')
        rc, out = sh('make -j%d all' % JOBS, cwd=d, env=env)
        if rc or not os.path.exists(d + '/libdfp.so.1'):
            die('build of libdfp (%s) failed\n%s' % (variant, out[-3000:]))
        open(d + '/OK', 'w').close()
    return d

def build_mon(variant, libdir):
    """The monitors, compiled for the variant. All of src/*.cc plus the C shim."""
    srcs = sorted(glob.glob(V + '/src/*.cc') + glob.glob(V + '/src/*.c'))
    hdrs = sorted(glob.glob(V + '/src/*.h*'))
    h = hashlib.sha256()
    for p in srcs + hdrs:
        h.update(open(p, 'rb').read())
    key = h.hexdigest()[:16]
    out = os.path.join(libdir, 'mon-' + key)
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lockm-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        obj = libdir + '/monobj'
        shutil.rmtree(obj, ignore_errors=True)
        os.makedirs(obj)
        san = {'asan': '-fsanitize=address', 'tsan': '-fsanitize=thread'}.get(variant, '')
        opt = '-O1' if san else '-O2'
        procs = []
        for s in srcs:
            o = obj + '/' + os.path.basename(s) + '.o'
            if s.endswith('.c'):
                c = 'gcc -std=gnu11 -fno-builtin -w %s -g %s -D__STDC_WANT_DEC_FP__ -I%s/dfp -I%s/src -c %s -o %s' % (opt, san, REPO, V, s, o)
            else:
                c = 'g++ -std=gnu++17 -w %s -g %s -I%s/src -I%s/dfp -I%s/libdecnumber -I%s/libdecnumber -I%s -c %s -o %s' % (opt, san, V, REPO, REPO, libdir, libdir, s, o)
            if os.path.exists(s + '.flags'):
                c += ' ' + open(s + '.flags').read().strip()
            procs.append((s, subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for s, p in procs:
            o = p.communicate()[0]
            if p.returncode:
                die('cannot compile %s against this tree\n%s' % (s, o.decode('utf8', 'replace')[-3000:]))
        rc, o = sh('g++ %s -o %s.tmp %s/*.o -L%s -ldfp -Wl,-rpath,%s %s -lgmpxx -lgmp -lpthread -lquadmath' % (san + (' -fsanitize=undefined' if variant == 'asan' else ''), out, obj, libdir, libdir,
                   libdir + '/libdecnumber/libdecnumber.a' if False else ''))
        if rc:
            die('cannot link the monitors against this tree\n' + o[-3000:])
        os.rename(out + '.tmp', out)
        shutil.rmtree(obj, ignore_errors=True)
    return out

LOCALES = ['en_US.UTF-8', 'de_DE.UTF-8', 'fr_FR.UTF-8', 'de_CH.UTF-8', 'en_IN.UTF-8', 'ps_AF.UTF-8', 'unm_US.UTF-8', 'cmn_TW.UTF-8', 'de_DE.ISO-8859-1', 'fr_FR.ISO-8859-1', 'tr_TR.UTF-8', 'tr_TR.ISO-8859-9']
def locales():
    """Locales compiled from the system's sources into the cache; nothing outside it is touched."""
    d = os.path.join(CACHE, 'locale-%d' % len(LOCALES))
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock-locale'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(d + '/OK'):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            ps = [(l, subprocess.Popen(['localedef', '-i', l.split('.')[0], '-f', l.split('.')[1], '--no-archive', d + '/' + l], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)) for l in LOCALES]
            for l, p in ps:
                p.wait()
                if not os.path.exists(d + '/' + l + '/LC_NUMERIC'):
                    die('cannot compile locale ' + l)
            open(d + '/OK', 'w').close()
    return d

def dictionary(work):
    """The numbers written in the sources of the library, as operands for the workloads."""
    num = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)([uUlLdDfF]*)(?![\w.])")
    table = re.compile(r'^[\s{}(),]*(?:[-+0-9a-fA-FxXuUlLdD.\s{},]|DFP_CONSTANT|\(|\)|/\*.*?\*/)*(?:/\*.*|//.*)?;?\s*$')
    seen = {}
    for top in ('ieee754r', 'base-math', 'stdlib', 'printf-hooks', 'sysdeps', 'libdecnumber', 'include', 'dfp'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                if not f.endswith(('.c', '.h')):
                    continue
                for line in open(os.path.join(d, f), errors='replace'):
                    ms = num.findall(line)
                    for lit, _ in ms:
                        if lit[:2] in ('0x', '0X'):
                            c, e = str(int(lit, 16)), 0
                        else:
                            m, _, x = lit.lower().partition('e')
                            i, _, fr = m.partition('.')
                            c, e = (i + fr).lstrip('0') or '0', int(x or 0) - len(fr)
                        if len(c) > 34:
                            e += len(c) - 34
                            c = c[:34]
                        k = 'T' if len(ms) > 3 or table.match(line) else 'S'
                        if abs(e) < 9999 and seen.get((c, e)) != 'S':
                            seen[c, e] = k
    p = work + '/dict.txt'
    with open(p, 'w') as o:
        for (c, e), k in sorted(seen.items()):
            o.write('%s %s %d\n' % (k, c, e))
    return p

def inject_lib(work):
    """The allocator that fails on demand (glibc's own, wrapped)."""
    so = work + '/inject.so'
    rc, o = sh('gcc -O1 -g -fno-builtin -shared -fPIC %s/inject/inject.c -o %s' % (V, so))
    if rc:
        die('cannot build the fault injector\n' + o[-2000:])
    return so

def load_known():
    """id -> (property, text) of findings recorded, not repaired."""
    k = {}
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                f = line.split(None, 3)
                k[f[2].split('=', 1)[1]] = (f[1].split('=', 1)[1], f[3].strip())
    return k

ENV_VARIANT = {
    'asan': {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:strict_string_checks=1:handle_segv=1', 'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1'},
    'tsan': {'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:second_deadlock_stack=1'},
}

def run_declog(L, variant, seed, n, jobs, out, env, known, log, pre):
    """Offline checking: the C driver writes a log of decNumber calls, check.py judges it. Leaves one report per worker, like the monitors."""
    exe = out + '.exe'
    link = VARIANTS[variant].get('link', '')
    rc, o = sh('gcc -O1 -g -w %s -I%s/libdecnumber -I%s/libdecnumber -I%s/libdecnumber/bid %s/declog/declog.c %s/libdecnumber/libdecnumber.a -o %s' % (link, REPO, L, REPO, V, L, exe))
    if rc:
        die('cannot build the decNumber driver\n' + o[-2000:])
    ps = []
    for w in range(jobs):
        p = subprocess.Popen(pre + [exe, str(seed), str(w), str(n // jobs)], stdout=subprocess.PIPE, stderr=open('%s.%d.err' % (out, w), 'wb'), env=env)
        c = subprocess.Popen([sys.executable, V + '/declog/check.py', '-', '%s.%d' % (out, w)] + known, stdin=p.stdout, stdout=log, stderr=log)
        p.stdout.close()
        ps.append((w, p, c))
    for w, p, c in ps:
        if c.wait():
            die('the decNumber log checker failed: ' + open(out + '.log', errors='replace').read()[-1500:])
        rc = p.wait()
        err = open('%s.%d.err' % (out, w), errors='replace').read()
        log.write(err.encode()); log.flush()
        if rc:
            op = [l.split()[1] for l in err.splitlines() if l.startswith('crashed-in')]
            json.dump(dict(status=rc, kind='hang' if rc == -14 else 'crash', op='declog/' + (op[0] if op else '?'), call='decNumber ' + (op[0] if op else '?'), signal=-rc), open('%s.%d.died' % (out, w), 'w'))
        elif not json.load(open('%s.%d' % (out, w))).get('complete'):
            die('decNumber log incomplete')
    return 0

def run_context(L, variant, group, seed, n, jobs, out, env, log, pre):
    """Context histories and encodings, in a program linked with the archive; half of it sees the installed headers only."""
    exe, inc = out + '.exe', out + '.inc'
    os.makedirs(inc, exist_ok=True)
    for h in ('decContext.h', 'decConvert.h', 'decNumber.h'):
        shutil.copy(REPO + '/libdecnumber/' + h, inc)
    link = VARIANTS[variant].get('link', '')
    rc, o = sh('gcc -O1 -g -w %s -I%s -c %s/declog/convert.c -o %s.o && g++ -O1 -g -w %s -I%s/libdecnumber -I%s/libdecnumber -I%s/libdecnumber/bid %s/declog/context.cc %s.o %s/libdecnumber/libdecnumber.a -o %s' % (link, inc, V, exe, link, REPO, L, REPO, V, exe, L, exe))
    if rc:
        die('cannot build the context driver\n' + o[-2000:])
    ps = [(w, subprocess.Popen(pre + [exe, group, str(seed), str(w), str(n // jobs), '%s.%d' % (out, w)], stdout=log, stderr=log, env=env)) for w in range(jobs)]
    for w, p in ps:
        rc = p.wait()
        if rc == 3:
            die('worker %d of group %s could not run' % (w, group))
        if rc:
            json.dump(dict(status=rc, kind='hang' if rc == -14 else 'crash', op=group, call='worker %d of %s' % (w, group), signal=-rc), open('%s.%d.died' % (out, w), 'w'))
    return 0

def run_decfault(L, variant, seed, n, jobs, out, env, log, pre):
    """decNumber operations with refused allocations, in a program linked with the archive."""
    exe = out + '.exe'
    rc, o = sh('g++ -std=gnu++17 -O1 -g -w %s -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -I%s/libdecnumber -I%s/libdecnumber -I%s/libdecnumber/bid %s/declog/fault.cc %s/libdecnumber/libdecnumber.a -o %s' % (VARIANTS[variant].get('link', ''), REPO, L, REPO, V, L, exe))
    if rc:
        die('cannot build the decNumber fault driver\n' + o[-2000:])
    ps = [(w, subprocess.Popen(pre + [exe, str(seed), str(w), str(n // jobs), '%s.%d' % (out, w)], stdout=log, stderr=open('%s.%d.err' % (out, w), 'wb'), env=env)) for w in range(jobs)]
    for w, p in ps:
        rc = p.wait()
        err = open('%s.%d.err' % (out, w), errors='replace').read()
        log.write(err.encode()); log.flush()
        if rc == 3:
            die('worker %d of group decfault could not run' % w)
        if rc:
            op = [l.split()[1] for l in err.splitlines() if l.startswith('crashed-in')]
            op = op[0] if op else '?'
            json.dump(dict(status=rc, kind='hang' if rc == -14 else 'crash', op='decnumber/' + op, call='decNumber ' + op + ' with refused storage', signal=-rc), open('%s.%d.died' % (out, w), 'w'))
    return 0

HEADER_MODES = [   # the first of each language is the reference: nothing is optimized on the word of a header, and in C the prototypes are not theirs
    ('c', '-O0 -std=gnu11 -D_GNU_SOURCE -fno-builtin -DOWN'),
    ('c', '-O0 -std=gnu11 -D_GNU_SOURCE -fno-builtin'), ('c', '-O2'), ('c', '-O3 -std=gnu17 -D_GNU_SOURCE -DWANT_FIRST_SYSTEM'), ('c', '-O2 -std=c99'), ('c', '-Os -std=c11 -D_XOPEN_SOURCE=700'), ('c', '-O1 -std=gnu89'), ('c', '-O2 -std=c2x'),
    ('cc', '-O0 -std=gnu++17'), ('cc', '-O2 -std=c++98'), ('cc', '-O2 -std=c++11'), ('cc', '-O3 -std=gnu++20')]
def run_headers(L, seed, n, out, env, log):
    """Ordinary client programs, compiled from the installed headers in every mode; what they got is compared call by call."""
    exes, fails, cls, evals, distinct = [], [], {}, 0, set()
    ps = []
    for i, (lang, flags) in enumerate(HEADER_MODES):
        exe = '%s.mode%d' % (out, i)
        ps.append((i, lang, flags, exe, subprocess.Popen('%s %s -g -w %s %s/headers/client.%s -o %s -L%s -ldfp -lm -Wl,-rpath,%s' % ('gcc' if lang == 'c' else 'g++', flags, '' if '-DOWN' in flags else '-I%s/dfp' % REPO, V, lang, exe, L, L), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = []
    for i, lang, flags, exe, p in ps:
        o = p.communicate()[0].decode('utf8', 'replace')
        if p.returncode:
            bad.append((lang, flags, o))
        else:
            exes.append((i, lang, flags, exe))
    if len(bad) == len(HEADER_MODES):
        die('no program including the headers compiles\n' + bad[0][2][-2000:])
    for lang, flags, o in bad:
        fails.append(['compile:' + flags, 'a program including the installed headers does not compile with %s: %s' % (flags, ' / '.join(l for l in o.splitlines() if 'error' in l or 'undefined' in l)[:300])])
    ps = [(i, lang, flags, exe, subprocess.Popen([exe, str(seed), str(n if lang == 'c' else n // 4), exe + '.rec'], stdout=subprocess.PIPE, stderr=log, env=env)) for i, lang, flags, exe in exes]
    recs = {}
    for i, lang, flags, exe, p in ps:
        o = p.communicate()[0].decode('utf8', 'replace')
        if p.returncode == 3:
            die('header client could not run')
        if p.returncode or 'DONE' not in o:
            fails.append(['crash:' + flags, 'the client compiled with %s ended with %s' % (flags, p.returncode)])
            continue
        for l in o.splitlines():
            if l.startswith('FAIL '):
                k, t = l[5:].split(' | ', 1)
                fails.append([k.strip(), '%s (%s): %s' % (k.strip(), flags, t)])
            elif l.startswith('CLASS '):
                _, c, t = l.split(' ', 2)
                cls[t] = cls.get(t, 0) + int(c)
                cls['mode ' + flags] = cls.get('mode ' + flags, 0) + int(c)
            elif l.startswith('DONE '):
                a, b = l.split()[1:3]
                evals += int(a) + int(b)
        recs[i] = open(exe + '.rec', 'rb').read()
    for lang in ('c', 'cc'):
        ms = [m for m in exes if m[1] == lang and m[0] in recs]
        if not ms:
            continue
        ref = ms[0]
        r = recs[ref[0]]
        for k in range(0, len(r), 8):
            distinct.add(r[k:k + 8])
        for m in ms[1:]:
            q = recs[m[0]]
            if q == r:
                continue
            shown = {}
            for k in range(0, min(len(q), len(r)), 8):
                if q[k:k + 8] != r[k:k + 8]:
                    at = []
                    for x in (ref, m):
                        o = subprocess.run([x[3], str(seed), str(n if lang == 'c' else n // 4), '', str(k // 8)], stdout=subprocess.PIPE, env=env).stdout.decode('utf8', 'replace')
                        at.append(([l for l in o.splitlines() if l.startswith('CALL')] or ['?'])[0])
                    key = 'mode:' + (at[0].split() + ['?', '?'])[1]
                    if key not in shown:
                        shown[key] = 1
                        fails.append([key, 'call %d: %s with %s, but %s with %s' % (k // 8, at[0][5:], ref[2], at[1][5:], m[2])])
                    if len(shown) >= 1:
                        break
            else:
                fails.append(['mode:length', 'different number of calls with %s' % m[2]])
    vc = {}
    for k, _ in fails:
        vc[k] = vc.get(k, 0) + 1
    json.dump(dict(evals=evals, distinct=len(distinct), inconclusive=0, cls=cls, known={}, vcount=vc, viol=fails[:40], samples=['%s: %d calls logged' % (m[2], len(recs.get(m[0], b'')) // 8) for m in exes]), open(out + '.0', 'w'))
    return 0

def run_load(L, seed, n, jobs, out, env, log):
    """Histories of loading and unloading, in a program that is not linked with the library."""
    exe = out + '.exe'
    rc, o = sh('g++ -std=gnu++17 -O1 -g -w -fno-builtin -rdynamic %s/load/load.cc -o %s -ldl -lpthread' % (V, exe))
    if rc:
        die('cannot build the loader\n' + o[-2000:])
    ps = [(w, subprocess.Popen([exe, L + '/libdfp.so.1', str(seed), str(w), str(n), '%s.%d' % (out, w)], stdout=log, stderr=log, env=env)) for w in range(jobs)]
    for w, p in ps:
        if p.wait():
            die('loader worker %d could not run (%d)' % (w, p.returncode))
    return 0

def run_group(step, tier, seed, pid, known, work):
    variant, group = step['variant'], step['group']
    L = lib(variant)
    mon = {'declog': V + '/declog/declog.c', 'load': V + '/load/load.cc', 'decctx': V + '/declog/context.cc', 'dpd': V + '/declog/context.cc', 'headers': V + '/headers/client.c', 'decfault': V + '/declog/fault.cc'}.get(group) or build_mon(variant, L)
    n = step['n'][1 if tier == 'thorough' else 0]
    jobs = step.get('jobs', 8)
    out = '%s/%s-%s' % (work, variant, group)
    cmd = [mon, '-p', group, '-s', str(seed), '-n', str(n), '-j', str(jobs), '-o', out, '-d', work]
    if tier == 'thorough':
        cmd.append('-T')
    for k, (p, _) in known.items():
        if p == pid:
            cmd += ['-k', k]
    cmd += step.get('args', [])
    env = dict(ENV_VARIANT.get(variant, {}))
    env.update(step.get('env', {}))
    env['MON_DICT'] = dictionary(work)
    if step.get('locales'):
        env['LOCPATH'] = locales()
    if step.get('inject'):
        env['LD_PRELOAD'] = inject_lib(work)
    pre = step.get('wrap', [])
    t0 = time.time()
    e = dict(os.environ); e.update(env)
    log = open(out + '.log', 'wb')
    try:
        if group == 'declog':
            rc = run_declog(L, variant, seed, n, jobs, out, e, [k for k, (p, _) in known.items() if p == pid], log, pre)
        elif group in ('decctx', 'dpd'):
            rc = run_context(L, variant, group, seed, n, jobs, out, e, log, pre)
        elif group == 'decfault':
            rc = run_decfault(L, variant, seed, n, jobs, out, e, log, pre)
        elif group == 'headers':
            rc = run_headers(L, seed, n, out, e, log)
        elif group == 'load':
            rc = run_load(L, seed, n, jobs, out, e, log)
        else:
            rc = subprocess.run(pre + cmd, env=e, stdout=log, stderr=log, cwd=work, timeout=7200 if tier == 'thorough' else 780).returncode
    except subprocess.TimeoutExpired:
        die('group %s ran out of time' % group)
    if group in ('oraclelog', 'translog'):   # the references themselves, recomputed by an independent implementation
        ps = [subprocess.Popen(['python3-vt' if group == 'translog' else sys.executable, V + '/lib/selfcheck.py', group, '%s.%d.lines' % (out, w)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for w in range(jobs) if os.path.exists('%s.%d.lines' % (out, w))]
        for p in ps:
            o = p.communicate()[0].decode()
            if p.returncode:
                die('the reference model disagrees with an independent implementation\n' + o[-2000:])
            log.write(o.encode())
    log.close()
    logtxt = open(out + '.log', errors='replace').read()
    res = dict(group=group, variant=variant, cmd=pre + cmd, env=env, rc=rc, wall=time.time() - t0, evals=0, distinct=0, inconclusive=0, cls={}, known={}, viol=[], vcount={}, samples=[])
    workers = 0
    for w in range(jobs):
        f = '%s.%d' % (out, w)
        if os.path.exists(f + '.died'):
            d = json.load(open(f + '.died'))
            if d['status'] == 3:
                die('monitor of group %s could not run: %s' % (group, logtxt[-1500:]))
            diag = [l for l in logtxt.splitlines() if 'runtime error' in l or 'ERROR: AddressSanitizer' in l or 'WARNING: ThreadSanitizer' in l or 'terminate' in l or 'SUMMARY' in l or 'uninitialised' in l or 'Invalid ' in l or ('==    at 0x' in l or '==    by 0x' in l)][:6]
            key = '%s:%s' % ('memory' if d['status'] == 86 else d['kind'], d['op'])
            res['viol'].append([key, '%s in %s (signal %d) %s' % (d['kind'], d['call'], d['signal'], ' / '.join(diag))])
            res['vcount'][key] = res['vcount'].get(key, 0) + 1
            continue
        try:
            r = json.load(open(f))
        except Exception as x:
            die('worker %d of group %s left no report (rc %d) %s' % (w, group, rc, logtxt[-1500:]))
        workers += 1
        for k in ('evals', 'distinct', 'inconclusive'):
            res[k] += r[k]
        for k, v in r['cls'].items():
            res['cls'][k] = res['cls'].get(k, 0) + v
        for k, v in ({} if step.get('sanitizer_only') else r['vcount']).items():
            res['vcount'][k] = res['vcount'].get(k, 0) + v
        for k, v in ({} if step.get('sanitizer_only') else r['known']).items():
            a = res['known'].setdefault(k, [0, v[1]])
            a[0] += v[0]
        if step.get('sanitizer_only'):
            r['viol'], r['vcount'], r['known'] = [], {}, {}
        res['viol'] += r['viol']
        res['samples'] += r['samples'][:2]
    if workers and res['evals'] == 0:
        die('group %s observed nothing' % group)
    # situations the monitor must have met, or its silence means nothing
    if not res['viol']:
        for need in step.get('need', []):
            if not any(c.startswith(need) for c in res['cls']):
                die('group %s never observed %s' % (group, need))
    return res

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PLAN[pid]
    known = load_known()
    t0 = time.time()
    work = os.path.join(CACHE, 'work-%s-%d' % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.chmod(work, 0o755)
    os.makedirs(V + '/evidence/replays', exist_ok=True)
    try:
        results = []
        for step in spec['steps']:
            if tier == 'quick' and step.get('thorough_only'):
                continue
            results.append(run_group(step, tier, seed, pid, known, work))
        viol = []
        cov = dict(evaluations=0, distinct_nontrivial=0, inconclusive=0, rule=spec['rule'], samples=[], groups={}, observed={})
        kf = {}
        for r in results:
            if r['group'] in ('oraclelog', 'translog'):
                cov['references_rechecked'] = dict(records=r['evals'], by='libmpdec' if r['group'] == 'oraclelog' else 'mpmath', disagreements=0)
                continue
            cov['evaluations'] += r['evals']; cov['distinct_nontrivial'] += r['distinct']; cov['inconclusive'] += r['inconclusive']
            cov['samples'] += r['samples'][:6]
            cov['groups'][r['variant'] + '/' + r['group']] = dict(evaluations=r['evals'], distinct=r['distinct'], situations=len(r['cls']), wall_s=round(r['wall'], 1))
            o = cov['observed'].setdefault(r['variant'] + '/' + r['group'], {})
            for k, v in sorted(r['cls'].items(), key=lambda x: -x[1])[:160]:
                o[k] = v
            for k, v in r['known'].items():
                a = kf.setdefault(k, [0, v[1]])
                a[0] += v[0]
            seen = {}
            for key, text in r['viol']:
                if key not in seen:
                    seen[key] = 1
                    viol.append(dict(key=key, text=text, count=r['vcount'].get(key, 1), group=r['group'], variant=r['variant'], cmd=r['cmd'], env=r['env'], seed=seed))
        cov['samples'] = cov['samples'][:12]
        cov['known_findings'] = {k: dict(count=v[0], example=v[1]) for k, v in kf.items()}
        lines = []
        for i, v in enumerate(viol[:20]):
            rp = '%s/evidence/replays/%s-%d.json' % (V, pid, i)
            json.dump(v, open(rp, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s  [%s x%d] %s' % (pid, rp, v['key'], v['count'], v['text'][:400]))
        ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(viol), assumptions=spec.get('assumptions', []))
        json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
        for k, (p, text) in sorted(known.items()):
            if p == pid:
                n = kf.get(k, [0, ''])
                print('KNOWN-FINDING: property=%s %s: %s (met %d times this run)' % (pid, k, text, n[0]))
        for l in lines:
            print(l)
        print('%s %s seed %d: %d executions judged, %d distinct, %d violations, %.1fs' % (pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], len(viol), time.time() - t0))
        return 1 if viol else 0
    except CheckError as x:
        print('CHECK-ERROR property=%s %s' % (pid, x))
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == 'setup':
        try:
            L = lib('plain'); build_mon('plain', L); locales()
            print('setup ok')
            sys.exit(0)
        except CheckError as x:
            print(x); sys.exit(2)
    sys.exit(main())
