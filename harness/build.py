#!/usr/bin/env python3
"""Builds libdex from /repo's working tree, instrumented, plus the monitor drivers.

Every variant is an out-of-tree meson build of /repo (static library) with
clang; nothing is written to /repo.  Drivers are linked against the static
library with linker redirections (--wrap) for the monitored GLib calls.
"""
import fcntl, hashlib, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_BUILD', os.path.join(os.path.dirname(HERE), 'build'))

COV = ['-fsanitize-coverage=edge,trace-pc-guard']
COMMON = ['-g', '-fno-omit-frame-pointer', '-Wno-everything', '-Werror=implicit-function-declaration', '-Werror=int-conversion']
UBSAN = ['-fsanitize=undefined', '-fno-sanitize=function,vptr', '-fno-sanitize-recover=all']
VARIANTS = {
    # optimised, assertions on, noise injection at every basic block
    'plain': dict(cflags=['-O1'] + COV, meson=[]),
    'asan': dict(cflags=['-O1', '-fsanitize=address'] + UBSAN + COV,
                 ldflags=['-fsanitize=address,undefined', '-fno-sanitize=function,vptr'], meson=[]),
    'tsan': dict(cflags=['-O1', '-fsanitize=thread'] + COV, ldflags=['-fsanitize=thread'], meson=[]),
    # the build without eventfd/io_uring: waiter-list semaphore and the POSIX AIO backend as default
    'noev': dict(cflags=['-O1', '-fsanitize=address'] + UBSAN + COV,
                 ldflags=['-fsanitize=address,undefined', '-fno-sanitize=function,vptr'],
                 meson=['-Dliburing=disabled', '-Deventfd=disabled']),
    # eventfd but no io_uring
    'nouring': dict(cflags=['-O1', '-fsanitize=address'] + UBSAN + COV,
                    ldflags=['-fsanitize=address,undefined', '-fno-sanitize=function,vptr'],
                    meson=['-Dliburing=disabled']),
}

WRAP_ALL = ['g_type_create_instance', 'g_type_free_instance']
WRAP_TSAN = ['g_mutex_lock', 'g_mutex_unlock', 'g_mutex_trylock', 'g_mutex_clear', 'g_cond_wait',
             'g_cond_wait_until', 'g_rw_lock_reader_lock', 'g_rw_lock_reader_unlock',
             'g_rw_lock_writer_lock', 'g_rw_lock_writer_unlock',
             'g_rec_mutex_lock', 'g_rec_mutex_unlock',
             'g_source_new', 'g_source_attach', 'g_source_set_ready_time',
             'g_source_set_callback', 'g_source_destroy', 'g_source_unref', 'g_main_context_wakeup',
             'g_main_context_invoke_full', 'g_main_context_invoke',
             'g_idle_add', 'g_idle_add_full', 'g_timeout_add_full', 'g_source_remove',
             'g_async_queue_push', 'g_async_queue_pop', 'g_async_queue_try_pop',
             'g_async_queue_lock', 'g_async_queue_unlock', 'g_async_queue_push_unlocked',
             'g_async_queue_try_pop_unlocked', 'g_async_queue_pop_unlocked',
             'g_thread_pool_new', 'g_thread_pool_push', 'g_thread_new', 'g_thread_try_new', 'g_thread_join',
             'g_once_init_enter', 'g_once_init_leave',
             'g_main_context_iteration',
             'g_cancellable_connect', 'g_cancellable_cancel', 'g_cancellable_disconnect', 'g_signal_handler_disconnect',
             'g_object_unref', 'g_object_ref',
             'g_task_return_boolean', 'g_task_return_error', 'g_task_return_value', 'g_task_return_pointer', 'g_task_return_int',
             'g_value_unset', 'g_value_copy', 'g_variant_unref',
             'makecontext', 'swapcontext', 'setcontext',
             '__tsan_atomic_thread_fence', '__tsan_atomic64_store', '__tsan_atomic32_store']


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


class BuildError(Exception):
    pass


def pkg(*args):
    return subprocess.check_output(['pkg-config', *args], text=True).split()


def clean_env():
    env = dict(os.environ)
    for k in ('CFLAGS', 'CPPFLAGS', 'LDFLAGS', 'CXXFLAGS'):
        env.pop(k, None)
    env['CC'] = 'clang'
    env['LC_ALL'] = 'C.UTF-8'
    return env


def build_lib(variant):
    """returns the directory of the build; incremental"""
    v = VARIANTS[variant]
    d = os.path.join(OUT, variant)
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, variant + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        os.makedirs(d, exist_ok=True)
        stamp = hashlib.sha1(repr((v, REPO, COMMON)).encode()).hexdigest()
        sfile = os.path.join(d, '.vstamp')
        if not os.path.exists(sfile) or open(sfile).read() != stamp:
            shutil.rmtree(d)
            os.makedirs(d)
            cf = ' '.join(COMMON + v['cflags'])
            run(['meson', 'setup', d, REPO, '--buildtype=plain', '--wrap-mode=nodownload',
                 '-Ddefault_library=static', '-Dtests=false', '-Dexamples=false', '-Dvapi=false',
                 '-Dintrospection=disabled', '-Dstack-protector=false', '-Dsysprof=false', '-Ddocs=false',
                 '-Dwerror=false', '-Db_lundef=false', '-Dc_args=' + cf, '-Dc_link_args=' + ' '.join(v.get('ldflags', []))]
                + v['meson'], env=clean_env())
            with open(sfile, 'w') as f:
                f.write(stamp)
        run(['ninja', '-C', d, 'src/libdex-1.a'], env=clean_env())
    finally:
        lock.close()
    return d


def build_driver(variant, name):
    d = build_lib(variant)
    v = VARIANTS[variant]
    exe = os.path.join(d, 'drv-' + name)
    san = [f for f in v['cflags'] if f.startswith('-fsanitize') and 'coverage' not in f or f.startswith('-fno-sanitize')]
    cflags = COMMON + ['-O1', '-DDEX_COMPILATION', '-D_GNU_SOURCE', '-DG_DISABLE_CAST_CHECKS_X',
                       '-DV_VARIANT="%s"' % variant, '-DV_VARIANT_' + variant] + san + \
        ['-I' + d, '-I' + os.path.join(d, 'src'), '-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'rt')] + \
        pkg('--cflags', 'gio-2.0', 'gio-unix-2.0')
    objs = []
    lock = open(os.path.join(OUT, '%s-%s.lock' % (variant, name)), 'w')
    rlock = open(os.path.join(OUT, '%s-rt.lock' % variant), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        fcntl.flock(rlock, fcntl.LOCK_EX)
        srcs = [(os.path.join(HERE, 'rt', 'vrt.c'), 'rt-vrt.o')]
        if variant == 'tsan':
            srcs.append((os.path.join(HERE, 'rt', 'vtsan.c'), 'rt-vtsan.o'))
        for src, o in srcs:
            o = os.path.join(d, o)
            # drivers of one variant are built side by side: never leave a half-written object
            run(['clang'] + cflags + ['-c', src, '-o', o + '.' + name])
            os.replace(o + '.' + name, o)
            objs.append(o)
        fcntl.flock(rlock, fcntl.LOCK_UN)
        o = os.path.join(d, 'drv-%s.o' % name)
        # // COV: the driver inlines code of the library, which gets the delay points too
        if '\n// COV' in open(os.path.join(HERE, 'drivers', name + '.c')).read():
            cflags = cflags + COV
        run(['clang'] + cflags + ['-c', os.path.join(HERE, 'drivers', name + '.c'), '-o', o])
        objs.append(o)
        wraps = list(WRAP_ALL)
        if variant == 'tsan':
            wraps += WRAP_TSAN
        extra = []
        for line in open(os.path.join(HERE, 'drivers', name + '.c')):
            if line.startswith('// WRAP:'):
                wraps += line.split(':', 1)[1].split()
            if line.startswith('// LINK:'):
                extra += line.split(':', 1)[1].split()
        link = ['clang'] + v.get('ldflags', []) + objs + \
            ['-Wl,--whole-archive', os.path.join(d, 'src', 'libdex-1.a'), '-Wl,--no-whole-archive'] + \
            ['-Wl,--wrap=' + w for w in wraps] + pkg('--libs', 'gio-2.0', 'gio-unix-2.0') + extra + \
            (['-luring'] if 'liburing=disabled' not in ' '.join(v['meson']) else []) + ['-lpthread', '-latomic', '-o', exe]
        run(link)
    finally:
        lock.close()
        rlock.close()
    return exe


if __name__ == '__main__':
    for n in sys.argv[2:]:
        try:
            print(build_driver(sys.argv[1], n))
        except BuildError as e:
            print('BUILD FAILED', e)
            sys.exit(1)
