"""Builds a harness with instrumented memory accesses and the scheduler of sched.cpp in place of the sanitizer runtime."""
import os, re, subprocess


def kind(n):
    """What a function of the C++ library does with its first arguments (see sched_library), or None."""
    if 'ios_base4Init' in n: return None
    if re.search(r'_Rb_tree_(in|de)crement', n): return 5
    if '_Rb_tree_insert_and_rebalance' in n: return 3
    if '_Rb_tree_rebalance_for_erase' in n: return 4
    if n.startswith('_ZNSt8__detail15_List_node_base'): return 0
    stream = re.match(r'_ZN(K?)(R|O)?S[oid]', n) or re.match(r'_ZN(K?)(R|O)?St7__cxx11\d+basic_(string(stream|buf)|[io]stringstream)', n) or re.match(r'_ZN(K?)(R|O)?St(8ios_base|9basic_ios|13basic_[io]stream)', n)
    if stream:
        if re.search(r'3strEv$|3strB5cxx11Ev$|4viewEv$', n) and '3str' in n: return 2
        return 1 if stream.group(1) else 0
    if n.startswith('_ZStls') or n.startswith('_ZStrs') or n.startswith('_ZSt4endl') or n.startswith('_ZSt5flush') or n.startswith('_ZSt7getline') or n.startswith('_ZSt16__ostream_insert') or n.startswith('_ZSt4ends') or n.startswith('_ZSt2ws'): return 0
    return None


TRAMPOLINE = '''
.globl __wrap_%(n)s
.type __wrap_%(n)s, @function
__wrap_%(n)s:
 push %%rbp
 mov %%rsp, %%rbp
 sub $208, %%rsp
 and $-16, %%rsp
 mov %%rdi, 0(%%rsp)
 mov %%rsi, 8(%%rsp)
 mov %%rdx, 16(%%rsp)
 mov %%rcx, 24(%%rsp)
 mov %%r8, 32(%%rsp)
 mov %%r9, 40(%%rsp)
 mov %%rax, 48(%%rsp)
 movups %%xmm0, 64(%%rsp)
 movups %%xmm1, 80(%%rsp)
 movups %%xmm2, 96(%%rsp)
 movups %%xmm3, 112(%%rsp)
 mov $%(k)d, %%r8
 call sched_library
 mov 0(%%rsp), %%rdi
 mov 8(%%rsp), %%rsi
 mov 16(%%rsp), %%rdx
 mov 24(%%rsp), %%rcx
 mov 32(%%rsp), %%r8
 mov 40(%%rsp), %%r9
 mov 48(%%rsp), %%rax
 movups 64(%%rsp), %%xmm0
 movups 80(%%rsp), %%xmm1
 movups 96(%%rsp), %%xmm2
 movups 112(%%rsp), %%xmm3
 leave
 jmp __real_%(n)s@PLT
'''
C = ['memcpy', 'memmove', 'memset', 'memcmp', 'memchr', 'strlen', 'strcpy', 'strcmp', 'sprintf', 'snprintf', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_allocate_exception',
     '__cxa_thread_atexit', 'pthread_self', 'pthread_once', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock'] + ['pthread_rwlock_' + n for n in ('rdlock', 'tryrdlock', 'wrlock', 'trywrlock', 'unlock')]


def build(src, flags, sched, includes, work, out):
    def sh(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    o, so, asm, ao, opts = (out + x for x in ('.o', '.sched.o', '.wrap.s', '.wrap.o', '.opts'))
    base = ['g++', '-std=gnu++20', '-g1', '-w', '-fPIE']
    rc, text = sh(base + ['-O1', '-fno-inline-small-functions', '-fsanitize=thread', '-fno-builtin'] + flags + includes + ['-c', src, '-o', o])
    if rc: return rc, text
    rc, text = sh(base + ['-O2'] + includes + ['-c', sched, '-o', so])
    if rc: return rc, text
    names = subprocess.run(['nm', '-u', o], stdout=subprocess.PIPE).stdout.decode().split()
    names = sorted({n.split('@')[0] for n in names if len(n) > 1})
    wraps = [(n, kind(n)) for n in names if kind(n) is not None]
    with open(asm, 'w') as f:
        f.write('.text\n' + ''.join(TRAMPOLINE % {'n': n, 'k': k} for n, k in wraps) + '.section .note.GNU-stack,"",@progbits\n')
    rc, text = sh(['g++', '-c', asm, '-o', ao])
    if rc: return rc, text
    with open(opts, 'w') as f:
        f.write('\n'.join('-Wl,--wrap=' + n for n in C + [n for n, _ in wraps]))
    return sh(['g++', o, so, ao, '@' + opts, '-o', out])


