"""Builds the conformance driver from /repo's current working tree."""
import os, glob, subprocess, hashlib, concurrent.futures, shutil, sys
REPO = os.environ.get('MN_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WRAPS = ("open open64 openat creat close read pread pread64 write pwrite pwrite64 writev pwritev pwritev64 "
         "fsync fdatasync sync_file_range ftruncate ftruncate64 truncate rename renameat unlink unlinkat mkdir rmdir link clock_gettime").split()
SCHED_WRAPS = ("pthread_create pthread_join pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_cond_wait "
               "pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_rwlock_init pthread_rwlock_rdlock "
               "pthread_rwlock_wrlock pthread_rwlock_unlock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock usleep sched_yield nanosleep "
               "malloc calloc realloc free strdup munmap").split()

class BuildError(Exception):
    pass

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd)[:400] + '\n' + r.stdout[-4000:])

def build(outdir, name='mdrv', extra=(), wraps=(), srcs=('drv.c', 'wrap.c', 'threads.c', 'curl.c'), opt='-O1', lib_extra=(), link_extra=()):
    os.makedirs(outdir, exist_ok=True)
    root = os.path.join(REPO, 'monotone')
    incs = []
    csrc = []
    for d, _, fs in os.walk(root):
        incs.append('-I' + d)
        csrc += [os.path.join(d, f) for f in fs if f.endswith('.c')]
    incs.sort(); csrc.sort()
    objs = []
    jobs = []
    base = ['gcc', '-std=gnu11', '-g', opt, '-w', '-fPIC', '-pthread'] + list(extra)
    for c in csrc:
        o = os.path.join(outdir, name + '_' + hashlib.md5(c.encode()).hexdigest()[:12] + '.o')
        jobs.append(base + list(lib_extra) + incs + ['-c', c, '-o', o]); objs.append(o)
    for s in srcs:
        c = os.path.join(VERIF, 'harness', s)
        o = os.path.join(outdir, name + '_' + s.replace('.', '_') + '.o')
        jobs.append(base + incs + ['-I' + os.path.join(VERIF, 'harness'), '-c', c, '-o', o]); objs.append(o)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    exe = os.path.join(outdir, name)
    wl = ['-Wl,--wrap=' + w for w in list(WRAPS) + list(wraps)]
    sh(['gcc', '-g', '-pthread', '-rdynamic', '-o', exe] + list(extra) + objs + wl + list(link_extra) +
       ['-lm', '-lcurl', '-lcrypto', '-lssl', '-lzstd', '-llz4', '-ldl'])
    for o in objs:
        os.unlink(o)
    return exe

def build_threads(outdir):
    """the driver with the scheduler: the library is instrumented, and linked without the sanitizer's runtime"""
    return build(outdir, name='mdrv_t', wraps=SCHED_WRAPS, lib_extra=['-fsanitize=thread', '-fno-builtin-malloc'], extra=['-DMDRV_THREADS'])

if __name__ == '__main__':
    print(build(sys.argv[1])); print(build_threads(sys.argv[1]))
