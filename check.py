#!/usr/bin/env python3
"""check.py PROPERTY [--case FAMILY LO [HI]] [--list] [--only FAMILY] [--keep]

Rebuilds the library from /repo's working tree in a scratch directory, runs the property's exhaustive checker against
it, writes evidence/<PROPERTY>.json and prints VIOLATION lines.  Exit: 0 held, 1 violated, 2 could not decide."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CXX = 'clang++'
BASE = ['-std=c++17', '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer']
ASAN = ['-fsanitize=address']
LIBS = ['-licuuc', '-licui18n', '-lsimdjson', '-lpthread', '-ldl']

# property -> (level, technique, assumptions)
sys.path.insert(0, HERE)
from tools.props import PROPS


class Undecided(Exception):
    pass


def shim(out):
    """The system simdjson lacks field::escaped_key(); make a copy of the header that has it."""
    s = open('/usr/include/simdjson.h').read()
    if 'escaped_key() const' not in s:
        a = "  simdjson_inline raw_json_string key() const noexcept;\n"
        if a not in s:
            raise Undecided('unexpected simdjson.h')
        s = s.replace(a, a + """  simdjson_inline std::string_view escaped_key() const noexcept {
    const char *b = reinterpret_cast<const char*>(first.raw());
    size_t n = 0;
    while (b[n] != '"') n += (b[n] == '\\\\') ? 2 : 1;
    return std::string_view(b, n);
  }
""")
        s = re.sub(r"  simdjson_inline simdjson_result<([a-z0-9]+)::ondemand::raw_json_string> key\(\) noexcept;\n",
                   lambda m: m.group(0) + "  simdjson_inline simdjson_result<std::string_view> escaped_key() noexcept { if (error()) { return error(); } return first.escaped_key(); }\n", s)
    os.makedirs(out + '/inc', exist_ok=True)
    open(out + '/inc/simdjson.h', 'w').write(s)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if p.returncode:
        raise Undecided('command failed: ' + ' '.join(cmd) + '\n' + p.stdout[-6000:])
    return p.stdout


def compile_all(work, jobs):
    """jobs: list of (source, object, flags)"""
    def one(j):
        run([j[3] if len(j) > 3 else CXX] + j[2] + ['-c', j[0], '-o', j[1]])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))


def lib_sources():
    return sorted(glob.glob(REPO + '/src/*.cpp'))


def build(prop, work):
    spec = PROPS[prop]
    shim(work)
    inc = ['-I', work + '/inc', '-I', REPO + '/include', '-I', HERE + '/mc']
    if spec.get('build'):
        import importlib
        return importlib.import_module('tools.' + spec['build']).build(sys.modules[__name__], prop, work, inc)
    return standard(prop, work, inc)


def standard(prop, work, inc, more=()):
    """library + checker in one program; more: additional (source, object, flags) compiled alongside"""
    spec = PROPS[prop]
    flags = BASE + (ASAN if spec.get('asan', True) else []) + spec.get('cflags', []) + inc
    jobs = []
    for s in lib_sources():
        jobs.append((s, '%s/lib_%s.o' % (work, os.path.basename(s)), flags))
    for s in ['ref', 'core', 'cfgs', 'explore', 'scale', 'impl', prop.lower()]:
        jobs.append(('%s/mc/%s.cpp' % (HERE, s), '%s/mc_%s.o' % (work, s), flags))
    cxx = spec.get('cxx', CXX)
    compile_all(work, [j + (cxx,) for j in jobs + [(m[0], m[1], flags + m[2]) for m in more]])
    exe = work + '/checker'
    run([cxx] + (ASAN if spec.get('asan', True) else []) + [j[1] for j in jobs] + ['-o', exe] + spec.get('ldflags', []) + LIBS)
    return [exe]


def known():
    """entries: property=<id> family=<family> match=<regex over case and observation> :: description"""
    r = []
    for l in open(HERE + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) family=(\S+) match=(.*?) :: (.*)', l)
        if m:
            r.append(m.groups())
    return r


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    keep = '--keep' in args
    args = [a for a in args if a != '--keep']
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(HERE + '/replays', exist_ok=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    work = tempfile.mkdtemp(prefix='mc-%s-' % prop)
    rc = 2
    try:
        cmd = build(prop, work)
        tb = time.time() - t0
        env = dict(os.environ, VERIF_TIER=tier, MC_WORK=work, LC_ALL='C', MC_REPO=REPO)
        env.setdefault('ASAN_OPTIONS', 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:symbolize=%d' % (1 if args else 0))
        env.setdefault('TSAN_OPTIONS', 'report_bugs=1:halt_on_error=1:exitcode=66')
        if args:
            return subprocess.call(cmd + ['--replay-dir', HERE + '/replays', '--stats', work + '/stats.json'] + args, env=env, cwd=work)
        p = subprocess.run(cmd + ['--replay-dir', HERE + '/replays', '--stats', work + '/stats.json'], env=env, cwd=work,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        sys.stderr.write(p.stderr[-20000:])
        if p.returncode in (99, -4, -6, -7, -8, -11, -14):
            # the enumerating process itself died inside the library (an exception or crash while building or running the
            # configurations that every case uses)
            path = HERE + '/replays/%s-setup.txt' % prop
            open(path, 'w').write('property %s\nthe enumerating process ended with status %d\n%s\nreplay: python3 check.py %s\n' % (prop, p.returncode, p.stderr[-6000:], prop))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  the library crashed, hung or threw on the fixed configurations and texts every case uses (status %d)\n  %s' % (p.returncode, p.stderr[-1500:]))
            st = {'samples': [], 'families': [], 'states': 1, 'transitions': 1, 'traces': 1, 'cases': 1, 'nontrivial': 1, 'rule': 'setup', 'setup_failed': True}
            bad_setup = True
        else:
            bad_setup = False
        found = [l.split('\t') for l in p.stdout.splitlines() if l.startswith('FOUND\t')]
        if not bad_setup and (p.returncode not in (0, 1) or (p.returncode == 1) != bool(found) or not os.path.exists(work + '/stats.json')):
            print(p.stdout[-3000:])
            raise Undecided('checker ended with status %d' % p.returncode)
        if not bad_setup:
            st = json.load(open(work + '/stats.json'))
        bad = int(bad_setup)
        kn = known()
        for f in found:
            _, pr, fam, idx, path, desc, msg = (f + [''] * 7)[:7]
            hit = [k for k in kn if k[0] == prop and k[1] == fam and re.search(k[2], desc + ' ' + msg)]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][3]))
                continue
            bad += 1
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  family %s case %s: %s\n  %s' % (fam, idx, desc[:1000], msg[:2000]))
        incomplete = [x['name'] for x in st['families'] if x['explored'] < x['size']] if not found and not bad_setup else []
        if incomplete:
            raise Undecided('not explored completely: ' + ', '.join(incomplete))
        level = spec['level']
        cov = {'samples': st['samples'][:12], 'families': st['families'], 'exhaustive': not bad and not incomplete,
               'unreproduced_suspicions': st.get('unreproduced', 0), 'build_s': round(tb, 1)}
        if level == 'model_checking':
            cov.update(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=st['traces'], cases=st['cases'])
        else:
            cov.update(evaluations=st['traces'], distinct_nontrivial=min(st['nontrivial'], st['traces']), rule=st['rule'], states=st['states'])
        cov.update(st.get('extra', {}))
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': spec.get('assumptions', []),
              'wall_s': round(time.time() - t0, 1), 'violations': bad}
        tmp = HERE + '/evidence/%s.json.tmp' % prop
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.replace(tmp, HERE + '/evidence/%s.json' % prop)
        print('%s %s: %d cases, %d executions compared, %d distinct states, %d transitions, %d violations, %.1fs' %
              (prop, tier, st['cases'], st['traces'], st['states'], st['transitions'], bad, time.time() - t0))
        rc = 1 if bad else 0
    except Undecided as e:
        print('UNDECIDED: %s' % e)
        rc = 2
    finally:
        if keep:
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
