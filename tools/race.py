"""C04: library and checker instrumented by ThreadSanitizer, linked with the uninstrumented scheduler."""
import os

WRAP = ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_tryrdlock',
        'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock', 'pthread_once', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', 'sched_yield', 'usleep',
        'nanosleep', 'clock_nanosleep', '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE', '_ZNSt18condition_variable10notify_oneEv', '_ZNSt18condition_variable10notify_allEv']
WRAP += ['__tsan_atomic%d_%s' % (n, o) for n in (8, 16, 32, 64) for o in ('load', 'store', 'exchange', 'fetch_add', 'fetch_sub', 'fetch_and', 'fetch_or', 'fetch_xor', 'fetch_nand',
                                                                          'compare_exchange_strong', 'compare_exchange_weak', 'compare_exchange_val')]


def build(cm, prop, work, inc):
    base = ['-std=c++17', '-O1', '-g1', '-w', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer']
    flags = base + ['-fsanitize=thread'] + inc
    jobs = [(s, '%s/lib_%s.o' % (work, os.path.basename(s)), flags) for s in cm.lib_sources()]
    jobs += [('%s/mc/%s.cpp' % (cm.HERE, s), '%s/mc_%s.o' % (work, s), flags) for s in ['ref', 'core', 'cfgs', 'impl', prop.lower()]]
    sched = ('%s/mc/ctlsched.cpp' % cm.HERE, work + '/sched.o', base + ['-fno-builtin'] + inc)
    cm.compile_all(work, jobs + [sched])
    exe = work + '/checker'
    cm.run([cm.CXX, '-fsanitize=thread'] + [j[1] for j in jobs] + [sched[1]] + ['-Wl,--wrap=' + w for w in WRAP] + ['-o', exe] + cm.LIBS)
    open(work + '/tsan.supp', 'w').write('called_from_lib:libicuuc\ncalled_from_lib:libicui18n\ncalled_from_lib:libsimdjson\n')
    os.environ['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:detect_deadlocks=0:report_thread_leaks=0:report_signal_unsafe=0:suppressions=%s/tsan.supp' % work
    return [exe]
