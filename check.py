#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and decides one property.

  check.py C01                      search (VERIF_SEED, VERIF_TIER)
  check.py C01 --replay FILE        re-execute a replay file, exactly
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('S2S_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SIM = os.path.join(VERIF, 'sim')
sys.path.insert(0, os.path.join(VERIF, 'gen'))
sys.path.insert(0, VERIF)
import corpus          # noqa: E402
import schema          # noqa: E402
import randschema      # noqa: E402
from plan import PLAN, THOROUGH   # noqa: E402

# The hand-written schemas, and a dozen random ones that stay the same from run to run.
FIXED = corpus.P + randschema.make(4, 12)
CXX = next((c for c in ('g++-14', 'g++') if shutil.which(c)), None)
SCHEMA_FLAGS = ['-std=c++23', '-w', '-O1', '-g0', '-fsanitize=address', '-fno-sanitize-address-use-after-scope',
                '-fsanitize-coverage=trace-pc', '-ftrivial-auto-var-init=pattern']
THOROUGH_FLAGS = ['-std=c++23', '-w', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                  '-fno-sanitize=alignment', '-fsanitize-coverage=trace-pc', '-ftrivial-auto-var-init=pattern']
RUNNER_FLAGS = ['-std=c++23', '-O2', '-w', '-fsanitize-recover=address']
JOBS = os.cpu_count() or 8
ENV = dict(os.environ, ASAN_OPTIONS='halt_on_error=1:exitcode=77:detect_leaks=0:allocator_may_return_null=1:'
           'detect_stack_use_after_return=0:malloc_context_size=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=256:handle_abort=0:symbolize=0:abort_on_error=0',
           UBSAN_OPTIONS='halt_on_error=1:exitcode=77:symbolize=0')


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode())
            h.update(open(root, 'rb').read())
            continue
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


def header_dirs():
    """include/, and single_header/ as well when it says something else."""
    inc = os.path.join(REPO, 'include')
    single = os.path.join(REPO, 'single_header')
    out = [('include', inc)]
    try:
        os.makedirs(BUILD, exist_ok=True)
        fresh = os.path.join(BUILD, 'fresh_single.%d.hpp' % os.getpid())
        r = sh(['python3', os.path.join(REPO, 'scripts', 'amalgam.py'), inc, os.path.join(inc, 's2s.hpp'), fresh])
        have = os.path.join(single, 's2s.hpp')
        if os.path.exists(have) and r.returncode == 0 and os.path.exists(fresh):
            if normal(fresh) != normal(have):
                out.append(('single_header', single))
        if os.path.exists(fresh):
            os.remove(fresh)
    except OSError:
        pass
    return out


def normal(path):
    r = subprocess.run([CXX, '-fpreprocessed', '-dD', '-E', '-P', '-x', 'c++', path],
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return ' '.join(r.stdout.split())


def control(header_dir, out):
    src = os.path.join(out, 'control.cpp')
    open(src, 'w').write('#include "s2s.hpp"\nusing namespace s2s_literals;\n'
                         'using L = s2s::struct_field_list<s2s::basic_field<"a", unsigned, 4_B>>;\nL l;\n')
    if sh([CXX, '-std=c++23', '-w', '-I' + header_dir, '-c', src, '-o', os.path.join(out, 'control.o')]).returncode:
        raise BuildError('s2s.hpp itself does not compile')


def build(tag, header_dir, schemas, defines=(), flags=None):
    """Returns (runner binary, {schema: compile log} of those that do not compile)."""
    flags = flags or SCHEMA_FLAGS
    srcs = {s.name: schema.emit_tu([s]) for s in schemas}
    key = hashlib.sha256()
    key.update(tree_hash([header_dir, SIM]).encode())
    key.update(repr((tag, sorted(srcs.items()), list(defines), flags, CXX)).encode())
    out = os.path.join(BUILD, key.hexdigest()[:20])
    exe = os.path.join(out, 'runner')
    bad_file = os.path.join(out, 'bad.json')
    if os.path.exists(exe) and os.path.exists(bad_file):
        return exe, json.load(open(bad_file))
    prune()
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    # One precompiled header for all schemas; without it everything still builds.
    pch = os.path.join(out, 'pch')
    os.makedirs(pch)
    for f in ('bridge.hpp', 'val.hpp'):
        shutil.copy(os.path.join(SIM, f), pch)
    common = [CXX] + flags + ['-D' + d for d in defines] + ['-I' + pch, '-I' + header_dir, '-I' + SIM]
    jobs = []
    for s in sorted(schemas, key=lambda s: -s.weight):
        src = os.path.join(out, s.name + '.cpp')
        open(src, 'w').write(srcs[s.name])
        jobs.append((s.name, common + ['-c', src, '-o', src[:-4] + '.o']))
    for f in ('sessions', 'model', 'main', 'world', 'streams', 'guard'):
        jobs.insert(0, (None, [CXX] + RUNNER_FLAGS + ['-c', os.path.join(SIM, f + '.cpp'), '-o', os.path.join(out, '_' + f + '.o')]))
    bad, objs = {}, []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        head = ex.submit(sh, common + ['-x', 'c++-header', os.path.join(pch, 'bridge.hpp'), '-o', os.path.join(pch, 'bridge.hpp.gch')])

        def job(j):
            if j[0] is not None:
                head.result()
            return sh(j[1])
        for (name, cmd), r in zip(jobs, ex.map(job, jobs)):
            if r.returncode == 0:
                objs.append(cmd[-1])
            elif name is None:
                raise BuildError('runner does not build:\n' + r.stdout[-3000:])
            elif ' error: ' in r.stdout:
                bad[name] = r.stdout[-6000:]
            else:
                raise BuildError('compiler failed on %s:\n%s' % (name, r.stdout[-3000:]))
    if bad and len(bad) == len(schemas):
        raise BuildError('no schema compiles:\n' + next(iter(bad.values())))
    if bad:
        # Is it s2s that rejects these, or is the compiler unwell?
        control(header_dir, out)
    extra = ['-fsanitize=undefined'] if any('undefined' in f for f in flags) else []
    r = sh([CXX, '-fsanitize=address'] + extra + objs + ['-o', exe + '.tmp', '-pthread'])
    if r.returncode:
        raise BuildError('link failed:\n' + r.stdout[-3000:])
    os.rename(exe + '.tmp', exe)
    json.dump(bad, open(bad_file, 'w'))
    for o in objs:
        os.remove(o)
    shutil.rmtree(pch, ignore_errors=True)
    return exe, bad


def prune(keep=12):
    if not os.path.isdir(BUILD):
        return
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    ds = sorted((d for d in ds if os.path.isdir(d) and not os.path.basename(d).startswith('scratch')), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def scratch_dir():
    d = os.path.join(BUILD, 'scratch.%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def merge(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def relevant(pid, schemas):
    """The schemas the property's workload can pick (see pick() in sessions.cpp)."""
    want = PLAN[pid].get('needs')
    return [s for s in schemas if re.search(want, schema.emit_tu([s]))] if want else list(schemas)


def variants(pid, tier):
    """(label, defines, model ceiling, schema list, share of the runs)"""
    p = PLAN[pid]
    names = corpus.by_name()
    base = relevant(pid, FIXED)
    defs = ['SIM_NO_' + p['without'].upper()] if p.get('without') else []
    vs = [('default', defs, 16 * 1024 * 1024, base, 1.0)]
    if p.get('ceilings'):
        sub = [names[n] for n in p['ceiling_schemas']]
        vs.append(('ceiling=96', defs + ['S2S_DEFAULT_MAX_BYTES=96'], 96, sub, 0.35))
        vs.append(('ceiling=4096', defs + ['S2S_DEFAULT_MAX_BYTES=4096'], 4096, sub, 0.35))
        # Low 32 bits next to nothing: a ceiling kept in too narrow a type refuses what it must not.
        wide = (1 << 32) + 4
        vs.append(('ceiling=%d' % wide, defs + ['S2S_DEFAULT_MAX_BYTES=%dull' % wide], wide, [s for s in sub if s.name in p['wide_schemas']], 0.1))
    return vs


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        return setup()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    replay = sys.argv[sys.argv.index('--replay') + 1] if '--replay' in sys.argv else None
    if replay:
        return do_replay(pid, replay)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'violations': 0, 'wall_s': 0,
          'coverage': {}, 'assumptions': PLAN[pid].get('assumptions', [])}
    stats, samples, blocks, distinct, search_s, builds = {}, [], 0, 0, 0.0, []
    scratch = scratch_dir()
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    found, broken, noncompiling = None, None, {}
    runs_scale = THOROUGH['scale'] if tier == 'thorough' else 1.0
    cap = THOROUGH['seconds'] if tier == 'thorough' else PLAN[pid].get('seconds', 60)
    try:
        plans = []
        for hi, (htag, hdir) in enumerate(header_dirs()):
            for vi, (label, defs, ceil, schemas, share) in enumerate(variants(pid, tier)):
                if hi and vi:
                    continue
                if hi:
                    schemas = schemas[::2]
                plans.append((htag, hdir, label, defs, ceil, schemas, share * (0.5 if hi else 1.0), None, vi + 10 * hi))
        if tier == 'thorough':
            inc = os.path.join(REPO, 'include')
            plans.append(('include', inc, 'ubsan', [], 16 * 1024 * 1024, relevant(pid, FIXED), 0.3, THOROUGH_FLAGS, 50))
            for r in range(THOROUGH['random_rounds']):
                rs = randschema.make(seed * 1000 + r, THOROUGH['random_schemas'])
                plans.append(('include', inc, 'random-%d' % r, [], 16 * 1024 * 1024, rs, 0.5, None, 100 + r))
        for htag, hdir, label, defs, ceil, schemas, share, flags, variant in plans:
            exe, bad = build('%s/%s' % (htag, label), hdir, schemas, defs, flags)
            noncompiling.update({'%s/%s/%s' % (htag, label, k): v for k, v in bad.items()})
            rp = os.path.join(VERIF, 'replays', '%s-%s-%s-seed%d.replay' % (pid, htag, label.replace('=', ''), seed))
            if os.path.exists(rp):
                os.remove(rp)
            cmd = [exe, '--prop', pid, '--seed', str(seed), '--variant', str(variant), '--ceiling', str(ceil), '--scratch', scratch,
                   '--runs', str(int(PLAN[pid]['runs'] * share * runs_scale)), '--lanes', str(JOBS), '--max-seconds', str(int(cap * share) + 5),
                   '--replay-out', rp]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV)
            try:
                res = json.loads(r.stdout.strip().splitlines()[-1])
            except (ValueError, IndexError):
                raise BuildError('runner gave no result (exit %s): %s' % (r.returncode, r.stderr[-2000:]))
            merge(stats, res['stats'])
            builds.append({'headers': htag, 'variant': label, 'schemas': res['schemas'], 'runs': res['stats'].get('runs', 0),
                           'search_s': round(res['search_s'], 2), 'distinct_run_signatures': res['distinct'],
                           'basic_blocks_of_s2s_and_schemas_reached': res['blocks']})
            blocks = max(blocks, res['blocks'])
            distinct += res['distinct']
            search_s += res['search_s']
            samples = samples or res.get('samples', [])
            if r.returncode == 10:
                found = (rp, res['violation'], htag, label, defs)
                break
            if r.returncode != 0:
                broken = 'a failing run (%s) does not replay: %s' % (res.get('violation', {}).get('tag'), json.dumps(res.get('violation')))
                break
        if not found and not broken and noncompiling:
            k, log = next(iter(noncompiling.items()))
            rp = os.path.join(VERIF, 'replays', '%s-compile-seed%d.replay' % (pid, seed))
            with open(rp, 'w') as f:
                f.write('property %s\ntag compile\nschema %s\n# A valid schema is no longer accepted:\n' % (pid, k))
                f.write(''.join('# ' + l + '\n' for l in log.splitlines()))
            found = (rp, {'tag': 'compile', 'text': 'schema %s no longer compiles' % k, 'run': -1, 'mode': 'compile'}, '', '', [])
    except BuildError as e:
        print('ERROR: %s' % e)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    faults = {k: v for k, v in stats.items() if k.split('.')[0] in
              ('stream', 'alloc', 'callable', 'corrupt', 'net', 'disk', 'crash', 'delay', 'reentry', 'preempt')}
    runs = stats.get('runs', 0)
    ev['coverage'] = {
        'evaluations': runs,
        'distinct_nontrivial': distinct,
        'rule': PLAN[pid]['rule'] + ' Distinct: the hash of schemas, outcomes, value shapes and schedule of a non-trivial run, '
                                    'counted in a 2^27-bit map (a lower bound).',
        'samples': samples or [{'violation': found[1]}] if found or samples else [{'note': 'no run completed'}],
        'runs_per_hour': int(runs / search_s * 3600) if search_s else 0,
        'simulated_seconds': round(stats.get('sim.us', 0) / 1e6, 3),
        'checks_made': {k: v for k, v in stats.items() if k.startswith('check.')},
        'faults_injected': faults,
        'nontrivial_runs': stats.get('nontrivial', 0),
        'discarded': stats.get('discard', 0),
        'choices_drawn': stats.get('choices', 0),
        'task_switches': stats.get('sched.switches', 0),
        'operations': {k: v for k, v in stats.items() if k.startswith('op.')},
        'builds': builds,
        'components_real': 'all of s2s (headers from /repo compiled unchanged), libstdc++ iostreams, containers, variant, optional',
        'components_simulated': 'byte streams, network, disk, clock, operator new/delete, task scheduling, user callables\' faults',
    }
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = 1 if found else 0
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for line in known(pid):
        print('KNOWN-FINDING: ' + line)
    if broken:
        print('ERROR: ' + broken)
        return 2
    if found:
        rp, v, htag, label, defs = found
        print('%s: %s' % (v['tag'], v['text'][:1500]))
        print('found in run %s (%s, %s), replay mode %s' % (v.get('run'), htag, label, v.get('mode')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('%s held: %d runs, %d distinct, %.0f s' % (pid, runs, distinct, time.time() - t0))
    return 0


def setup():
    """Every check builds for itself; this only says whether it can."""
    if not CXX:
        print('no C++23 compiler')
        return 2
    try:
        control(os.path.join(REPO, 'include'), scratch_dir())
    except BuildError as e:
        print('ERROR: %s' % e)
        return 2
    finally:
        shutil.rmtree(scratch_dir(), ignore_errors=True)
    print('ready: %s, %d schemas, %d properties' % (CXX, len(FIXED), len(PLAN)))
    return 0


def known(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith('known: property=%s ' % pid):
            out.append(line[len('known: '):].strip())
    return out


def do_replay(pid, path):
    meta = {}
    for line in open(path):
        k = line.split(None, 1)
        if len(k) == 2 and k[0] in ('property', 'tag', 'variant', 'ceiling'):
            meta[k[0]] = k[1].strip()
    if meta.get('tag') == 'compile':
        print('a compile failure: see the log in the file; rerun the check to reproduce')
        return 2
    pid = meta['property']
    variant = int(meta['variant'])
    heads = dict(header_dirs())
    hdir = heads.get('single_header', os.path.join(REPO, 'include')) if variant in range(10, 20) else os.path.join(REPO, 'include')
    flags, defs, schemas = None, [], None
    if variant >= 100:
        seed = int([l for l in open(path) if l.startswith('base-seed')][0].split()[1])
        schemas = randschema.make(seed * 1000 + variant - 100, THOROUGH['random_schemas'])
    elif variant == 50:
        flags, schemas = THOROUGH_FLAGS, relevant(pid, FIXED)
    else:
        v = variants(pid, 'quick')[variant % 10]
        defs, schemas = v[1], v[3][::2] if variant >= 10 else v[3]
    exe, _ = build('replay', hdir, schemas, defs, flags)
    scratch = scratch_dir()
    try:
        r = subprocess.run([exe, '--prop', pid, '--ceiling', meta['ceiling'], '--scratch', scratch, '--replay', path],
                           stdout=subprocess.PIPE, text=True, env=ENV)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print(r.stdout)
    if r.returncode == 10:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0 if r.returncode == 0 else 2


if __name__ == '__main__':
    sys.exit(main())
