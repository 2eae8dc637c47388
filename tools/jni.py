"""C21: the checker, plus the real Java binding: Tokenizer.java, the JNI library and a driver class run in a JVM."""
import glob, os, shutil
from concurrent.futures import ThreadPoolExecutor


def build(cm, prop, work, inc):
    java = os.path.realpath(shutil.which('javac') or '')
    home = os.path.dirname(os.path.dirname(java))
    if not os.path.exists(home + '/include/jni.h'):
        raise cm.Undecided('no JDK with jni.h')
    a = cm.REPO + '/android/tokenizers_android/src/main'
    srcs = cm.lib_sources() + sorted(glob.glob(a + '/cpp/*.cpp'))
    flags = ['-std=c++17', '-O1', '-fPIC', '-w', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern'] + inc + ['-I', home + '/include', '-I', home + '/include/linux']
    jobs = [(s, '%s/jni_%s.o' % (work, os.path.basename(s)), flags) for s in srcs]

    def native():
        cm.compile_all(work, jobs)
        cm.run([cm.CXX, '-shared'] + [j[1] for j in jobs] + ['-o', work + '/libtokenizers_android.so'] + cm.LIBS)

    def classes():
        os.makedirs(work + '/classes', exist_ok=True)
        cm.run([java, '-d', work + '/classes', cm.HERE + '/mc/java/Driver.java'] + sorted(glob.glob(a + '/java/**/*.java', recursive=True)))
    with ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(native), ex.submit(classes), ex.submit(cm.standard, prop, work, inc)]
        r = [x.result() for x in fs]
    os.environ['MC_JAVA'] = home + '/bin/java'
    return r[2]
