#!/usr/bin/env python3
"""Runs the check of one property.

    check.py ID [quick|thorough]

Builds the property's harnesses (specs.py) from /repo's current working tree,
runs them under their sanitizer, collects what the monitors saw, rewrites
evidence/ID.json.  Exit 0: held on everything observed.  Exit 1 + a VIOLATION
line: an execution broke the property.  Exit 2: no answer (build failure of a
harness, nothing observed, ...).
"""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import specs

CXX = shutil.which('mpicxx.openmpi') or 'mpicxx'
BASE = ['-std=c++17', '-include', 'cstring', '-isystem', '/usr/include/hdf5/openmpi', '-w',
        '-DCATCH_CONFIG_NO_POSIX_SIGNALS', '-pthread']
MODES = {
    'asan':  ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'asan0': ['-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
    'aonly': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address', '-fno-sanitize-recover=all'],
    'ubsan': ['-O1', '-g1', '-fsanitize=undefined', '-fno-sanitize-recover=all'],
    'tsan':  ['-O1', '-g1', '-fsanitize=thread'],
    'plain': ['-O1', '-g1'],
    'glibcxx': ['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS'],
}
LINK = ['-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi', '-lhdf5', '-lpthread']

OPTS = "".join("#ifndef %s\n#define %s %d\n#endif\n" % (n, n, v) for n, v in
               [('MARA_COMPILE_SUBPROGRAM_' + p, 1) for p in ('BOILERPLATE', 'PARTDOM', 'CLOUD', 'SEDOV', 'BINARY', 'AMRSAND')]
               + [('MARA_COMPILE_SUBPROGRAM_TEST', 0), ('MARA_PREFERRED_THREAD_COUNT', 12)])


def log(*a):
    print('[check]', *a, file=sys.stderr, flush=True)


def tree_hash(roots):
    h = hashlib.sha256(OPTS.encode())
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.hpp', '.cpp', '.h', '.c')) and f != 'app_compile_opts.hpp':
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode())
                    with open(p, 'rb') as fh:
                        h.update(fh.read())
    return h.hexdigest()


class NoAnswer(Exception):
    pass


def snapshot_sources(build):
    """A private copy of /repo/src: the check compiles from there, so that the
    generated options header never has to be written into /repo."""
    dst = os.path.join(build, 'src')
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for f in os.listdir(SRC):
        if f.endswith(('.hpp', '.cpp')) and f != 'app_compile_opts.hpp':
            shutil.copyfile(os.path.join(SRC, f), os.path.join(dst, f))
    with open(os.path.join(dst, 'app_compile_opts.hpp'), 'w') as fh:
        fh.write(OPTS)
    tools = os.path.join(build, 'tools')
    shutil.rmtree(tools, ignore_errors=True)
    if os.path.isdir(os.path.join(REPO, 'tools')):
        shutil.copytree(os.path.join(REPO, 'tools'), tools)
    HELPERS['VP_TOOLS'] = tools
    HELPERS['VP_APP_PYTHON'] = os.path.realpath(sys.executable)
    return dst


def run_cmd(cmd, timeout, **kw):
    """Run in its own process group; kill the whole group on time-out."""
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    try:
        out = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out = p.communicate()
        return -9, out, True


def compile_one(job):
    cmd, obj = job
    for attempt in (1, 2):
        rc, (o, e), to = run_cmd(cmd, 700, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if rc == 0:
            return None
        if rc > 0 and not to and b'Killed' not in e:
            break       # a diagnostic, not a resource problem
    return ' '.join(cmd) + '\n' + e.decode(errors='replace')[-6000:]


HELPERS = {}     # programs built for a harness to run, by environment variable


def expand(srcs, srcdir):
    """'repoapp' stands for every translation unit of the application but the tests, 'repolib' for those but its main."""
    out = []
    for s in srcs:
        if s in ('repoapp', 'repolib'):
            out += ['repo:' + f for f in sorted(os.listdir(srcdir))
                    if f.endswith('.cpp') and not f.endswith('_test.cpp') and f != 'subprog_test.cpp'
                    and not (s == 'repolib' and f == 'app_main.cpp')]
        else:
            out.append(s)
    return out


def build_units(pid, units, build, thash):
    srcdir = snapshot_sources(build)
    cache = os.path.join(HERE, 'build', 'cache')
    use_cache = os.environ.get('VERIF_CACHE') == '1'
    if use_cache:
        os.makedirs(cache, exist_ok=True)
    jobs, links = {}, []
    for u in units:
        flags = BASE + MODES[u['mode']] + u.get('flags', [])
        inc = ['-I', srcdir, '-I', os.path.join(HERE, 'harness')]
        objs = []
        for s in expand(u['src'], srcdir):
            path = os.path.join(HERE, 'harness', s) if not s.startswith('repo:') else os.path.join(srcdir, s[5:])
            key = hashlib.sha256((thash[s.startswith('repo:')] + s + ' '.join(flags)).encode()).hexdigest()[:24]
            obj = os.path.join(cache if use_cache else build, key + '.o')
            objs.append(obj)
            if not os.path.exists(obj):
                jobs[obj] = [CXX] + flags + inc + ['-c', path, '-o', obj + '.tmp']
        exe = os.path.join(build, u['name'])
        if u.get('helper'):
            HELPERS['VP_APP_' + (u['mode'].upper() if u['helper'] is True else u['helper'])] = exe
        san = [f for f in MODES[u['mode']] if f.startswith('-fsanitize')]
        links.append(([CXX] + ['-pthread'] + san + objs + ['-o', exe] + LINK, exe))
    errors = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        todo = sorted(((cmd, obj) for obj, cmd in jobs.items()), key=lambda j: -weight(j[0]))
        for (cmd, obj), err in zip(todo, ex.map(compile_one, todo)):
            if err:
                errors.append(err)
            else:
                os.replace(obj + '.tmp', obj)
        if not errors:
            for err in ex.map(compile_one, links):
                if err:
                    errors.append(err)
    if errors:
        sys.stderr.write('\n'.join(errors))
        raise NoAnswer('harness build failed')


def weight(cmd):
    p = cmd[cmd.index('-c') + 1]
    w = os.path.getsize(p)
    return w * (10 if 'binary_scheme' in p else 3 if 'subprog' in p else 1)


SAN_RE = re.compile(r'(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|ERROR: LeakSanitizer[^\n]*|terminate called[^\n]*|Assertion [^\n]*failed[^\n]*)')
TSAN_ENV_RE = re.compile(r'FATAL: ThreadSanitizer: (unexpected memory mapping|.*personality)|ThreadSanitizer: failed to|ReserveShadowMemoryRange failed|failed to (re)?map shadow')


def run_unit(u, tier, seed, build, attempt=1):
    exe = os.path.join(build, u['name'])
    work = tempfile.mkdtemp(prefix='run_', dir=build)
    out = os.path.join(work, 'events.jsonl')
    env = dict(os.environ)
    env.update({
        'VP_OUT': out, 'VP_WORK': work,
        'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1',
        'OMPI_MCA_btl': u.get('btl', 'self'), 'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_btl_tcp_if_include': 'lo', 'OMPI_MCA_oob_tcp_if_include': 'lo',
        'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64:handle_abort=1',
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
        'TSAN_OPTIONS': 'exitcode=66:halt_on_error=0:history_size=4:report_signal_unsafe=0:detect_deadlocks=0',
        'LC_ALL': 'C', 'HDF5_USE_FILE_LOCKING': 'FALSE', 'TMPDIR': work,
    })
    env.update(HELPERS)
    env.update(u.get('env', {}))
    args = [exe, str(seed), tier] + u.get('args', [])
    if 'mpi' in u:
        args = ['mpirun.openmpi', '--oversubscribe', '-np', str(u['mpi'])] + args
    limit = u.get('timeout', 200) * (1 if tier == 'quick' else 6)
    t0 = time.time()
    with open(os.path.join(work, 'stdout'), 'wb') as so, open(os.path.join(work, 'stderr'), 'wb') as se:
        rc, _, timed_out = run_cmd(args, limit, stdout=so, stderr=se, cwd=work, env=env, stdin=subprocess.DEVNULL)
    with open(os.path.join(work, 'stderr'), 'rb') as fh:
        err = fh.read().decode(errors='replace')
    if 'tsan' == u['mode'] and TSAN_ENV_RE.search(err):
        if attempt == 1:
            log(u['name'], 'TSan could not map its shadow memory; retrying without ASLR')
            u = dict(u)
            wrapped = run_unit_noaslr(u, tier, seed, build)
            if wrapped is not None:
                return wrapped
        return {'unit': u['name'], 'done': None, 'viols': [], 'skipped': 'TSan unavailable here', 'wall': time.time() - t0}
    if 'mpi' in u and ('unable to reach each other' in err or 'MPI_INIT has failed' in err):
        if attempt == 1 and u.get('btl') != 'self,vader':
            log(u['name'], 'the transport', u.get('btl'), 'is not available here; retrying with shared memory')
            return run_unit(dict(u, btl='self,vader'), tier, seed, build, attempt=2)
        return {'unit': u['name'], 'done': None, 'viols': [], 'skipped': 'no MPI transport here', 'wall': time.time() - t0}
    done, viols = [], []
    if os.path.exists(out):
        for ln in open(out, errors='replace'):
            try:
                j = json.loads(ln)
            except ValueError:
                continue
            if 'viol' in j:
                viols.append(j)
            if 'done' in j:
                done.append(j)
    need = u.get('mpi', 1)
    sec = re.findall(r'\[vp\] section (\S+)', err)
    last = sec[-1] if sec else '(start)'
    if timed_out:
        viols.append({'viol': 'hang', 'section': 'after ' + last, 'case': -1, 'timeout': True,
                      'what': 'no progress: did not finish within %d s' % limit, 'context': ''})
    elif rc != 0 or len(done) < need or SAN_RE.search(err):
        m = SAN_RE.search(err)
        kind = 'sanitizer' if m and 'terminate' not in m.group(1) else 'crash'
        what = m.group(1) if m else 'exit status %d, %d of %d completion records' % (rc, len(done), need)
        viols.append({'viol': kind, 'section': 'after ' + last, 'case': -1, 'what': what[:300],
                      'context': err[-3000:]})
    return {'unit': u['name'], 'done': done, 'viols': viols, 'wall': time.time() - t0, 'args': args, 'work': work,
            'timed_out': timed_out}


def run_unit_noaslr(u, tier, seed, build):
    exe = os.path.join(build, u['name'])
    probe = subprocess.run(['setarch', '-R', 'true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if probe.returncode != 0:
        return None
    wrapper = exe + '.noaslr'
    with open(wrapper, 'w') as fh:
        fh.write('#!/bin/sh\nexec setarch -R %s "$@"\n' % exe)
    os.chmod(wrapper, 0o755)
    u = dict(u, name=u['name'] + '.noaslr')
    return run_unit(u, tier, seed, build, attempt=2)


def load_known(pid):
    with open(os.path.join(HERE, 'known_findings.json')) as fh:
        return [k for k in json.load(fh)['known'] if k['property'] == pid]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = specs.SPECS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    root = os.path.join(HERE, 'build')
    os.makedirs(root, exist_ok=True)
    build = tempfile.mkdtemp(prefix=pid + '_', dir=root)
    try:
        return check(pid, tier, seed, spec, build, t0)
    except NoAnswer as e:
        print('NO-ANSWER property=%s %s' % (pid, e))
        return 2
    finally:
        if os.environ.get('VERIF_KEEP') != '1':
            shutil.rmtree(build, ignore_errors=True)
        else:
            log('kept', build)


def check(pid, tier, seed, spec, build, t0):
    units = spec['units']
    build_units(pid, units, build, (tree_hash([SRC, os.path.join(HERE, 'harness')]), tree_hash([SRC])))
    log(pid, 'built in %.1f s' % (time.time() - t0))
    results = []
    for group in sorted({u.get('group', 0) for u in units}):
        todo = [u for u in units if u.get('group', 0) == group and not u.get('helper')]
        with concurrent.futures.ThreadPoolExecutor(max(1, len(todo))) as ex:
            results += list(ex.map(lambda u: run_unit(u, tier, seed, build), todo))
    # A time-out on its own is inconclusive: once more, alone.
    for i, r in enumerate(results):
        if r.get('timed_out'):
            u = [u for u in units if u['name'] == r['unit']][0]
            log(r['unit'], 'timed out; running it once more on its own')
            r2 = run_unit(u, tier, seed, build)
            if not r2.get('timed_out'):
                results[i] = r2

    known = load_known(pid)
    viols, known_hit = [], []
    for r in results:
        for v in r['viols']:
            v['unit'] = r['unit']
            hit = [k for k in known if re.search(k['match'], v['viol'] + ' ' + v['section'] + ' ' + v['what'])]
            if hit:
                known_hit.append(hit[0]['what'])
            else:
                viols.append((r, v))

    ev = {'evaluations': 0, 'distinct_nontrivial': 0, 'oracle_checks': 0, 'rule': spec['rule'],
          'samples': [], 'monitor_events': {}, 'runs': []}
    per_src = {}        # the same cases run under several sanitizers count once
    for r in results:
        if r.get('skipped'):
            ev['runs'].append({'unit': r['unit'], 'skipped': r['skipped']})
            continue
        tot = {'evaluations': 0, 'checks': 0, 'distinct': 0}
        for d in r['done']:
            for k in tot:
                tot[k] += d[k]
            for k, n in d['events'].items():
                ev['monitor_events'][k] = ev['monitor_events'].get(k, 0) + n
            ev['samples'] += d['samples'][:6]
        ev['evaluations'] += tot['evaluations']
        src = str([u for u in units if u['name'] == r['unit'].replace('.noaslr', '')][0]['src'])
        per_src[src] = max(per_src.get(src, 0), tot['distinct'])
        ev['oracle_checks'] += tot['checks']
        mode = [u for u in units if u['name'] == r['unit'].replace('.noaslr', '')][0]['mode']
        ev['runs'].append({'unit': r['unit'], 'instrumentation': mode, 'wall_s': round(r['wall'], 2), **tot})
    ev['samples'] = ev['samples'][:40]
    ev['distinct_nontrivial'] = sum(per_src.values())

    for what in sorted(set(known_hit)):
        print('KNOWN-FINDING: property=%s %s' % (pid, what))

    rc = 0
    if viols:
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for r, v in viols:
            if v['viol'] in seen:
                continue
            seen.add(v['viol'])
            path = os.path.join(rdir, '%s-%d.json' % (pid, len(seen)))
            with open(path, 'w') as fh:
                json.dump({'property': pid, 'unit': v['unit'], 'seed': seed, 'tier': tier, 'violation': v,
                           'replay': 'VERIF_SEED=%d VERIF_KEEP=1 python3 %s/check.py %s %s, then run the unit binary as: %s %d %s %s %s'
                           % (seed, HERE, pid, tier, v['unit'], seed, tier, v['section'], v['case'])}, fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s [%s case %s]: %s' % (v['viol'], v['section'], v['case'], v['what'][:400]))
            if v.get('context'):
                print('  context: ' + v['context'][:1500].replace('\n', '\n    '))
        rc = 1
    elif ev['evaluations'] == 0 or ev['oracle_checks'] == 0:
        raise NoAnswer('nothing was observed')
    else:
        for name, least in spec.get('must_observe', {}).items():
            if ev['monitor_events'].get(name, 0) < least and not any(r.get('skipped') for r in results):
                raise NoAnswer('monitor saw only %d of at least %d %s events' % (ev['monitor_events'].get(name, 0), least, name))

    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as fh:
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': ev,
                   'wall_s': round(time.time() - t0, 2), 'assumptions': spec.get('assumptions', []),
                   'violations': len(viols)}, fh, indent=1)
    print('%s %s seed=%d: %d evaluations, %d distinct, %d oracle checks, %d violations, %.1f s'
          % (pid, tier, seed, ev['evaluations'], ev['distinct_nontrivial'], ev['oracle_checks'], len(viols), time.time() - t0))
    return rc


if __name__ == '__main__':
    sys.exit(main())
