"""C25: the checker plus the real run example, both linked with the library objects built from the working tree."""
import glob


def build(cm, prop, work, inc):
    cmd = cm.standard(prop, work, inc, [(cm.REPO + '/examples/run/run.cpp', work + '/run.o', [])])
    cm.run([cm.CXX] + cm.ASAN + [work + '/run.o'] + sorted(glob.glob(work + '/lib_*.o')) + ['-o', work + '/run_example'] + cm.LIBS)
    return cmd
