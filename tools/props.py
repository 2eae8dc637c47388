"""Per-property facts used by check.py and gen_manifest.py."""
import os
A = ['The reference model (mc/ref.cpp) states the intended behaviour; it shares no code with /repo.',
     'ICU (character properties, canonical and compatibility normalization), simdjson and the C++ library are trusted.',
     'The library is compiled by clang++ -O1 with AddressSanitizer and libstdc++ assertions.']
T = 'bounded exhaustive model checking: every case inside the bound is executed on the real code and compared with an executable reference model'
N = 'Exhaustive inside the stated bounds (evidence lists each family, its size and bound); nothing outside them is claimed. Trusts the reference model, ICU, simdjson, the compiler.'
PROPS = {}


def P(i, level='model_checking', **kw):
    kw.setdefault('assumptions', A)
    kw.setdefault('technique', T)
    kw.setdefault('note', N)
    PROPS[i] = dict(level=level, **kw)


for i in range(1, 32):
    P('C%02d' % i)
WRAP = 'iswalpha iswalnum iswspace iswpunct iswupper iswlower iswcntrl iswprint iswgraph iswblank isalpha isalnum isspace ispunct isupper islower iscntrl isprint isgraph isblank towlower towupper tolower toupper getenv secure_getenv time clock clock_gettime gettimeofday _ZNSt6chrono3_V212system_clock3nowEv _ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6thread20hardware_concurrencyEv sysconf getpid isatty'.split()
P('C14', ldflags=['-Wl,--wrap=' + f for f in WRAP], technique='exhaustive enumeration of environments x configurations x texts on the real code, each in a fresh process, compared with the plain environment')
P('C05', level='fault_enumeration', technique='exhaustive fault enumeration on the real code: every single fault of each kind at every position, then use of whatever was accepted')
P('C25', build='run_example', technique='exhaustive enumeration of configuration directories and command-line texts, the real program run on each and its output compared with the encoding the library returns')
P('C21', build='jni', technique='exhaustive enumeration of Java strings, id lists, configurations and call histories through the real binding in a real JVM, compared with the native library')
P('C04', build='race', technique='stateless model checking of the real code: a controlled scheduler enumerates all schedules of small multi-threaded programs up to a preemption bound; every execution is checked for happens-before data races, deadlock and results')
P('C23', cxx='g++', level='fault_enumeration', technique='exhaustive fault enumeration on the real code: every allocation index of each operation fails once, followed by probe calls')
P('C03', technique='explicit enumeration of all operation histories up to a depth on the real code, each followed by probes compared with a fresh process')
P('C27', cflags=['-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'mc', 'choice_rng.h')], ldflags=['-Wl,--wrap=' + f for f in ('rand', 'random', 'drand48', 'arc4random')],
  technique='stateless model checking of the real code: its random choices are taken over by the checker and every outcome of every choice is enumerated; the set of results is compared with the closure computed on a reference model')
P('C29', asan=False, cflags=['-fno-builtin-malloc'], technique='explicit enumeration of all operation histories up to a depth and of damaged configurations on the real code, every allocation of the process counted')
