/* Runs main() of a shared object: the reference program, without libc link time. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>

/* These live in the static part of the C library, the shared object takes them from here. */
extern int __cxa_atexit(void (*f)(void *), void *p, void *h);
extern int __cxa_at_quick_exit(void (*f)(void *), void *h);
int atexit(void (*f)(void)) { return __cxa_atexit((void (*)(void *))f, 0, 0); }
int at_quick_exit(void (*f)(void)) { return __cxa_at_quick_exit((void (*)(void *))f, 0); }

int main(int argc, char **argv)
{
    int lazy = RTLD_NOW | RTLD_GLOBAL;
    int (*m)(int, char **);
    void *h = dlopen(argv[1], lazy);
    if (!h || !(m = (int (*)(int, char **))dlsym(h, "main"))) {
        fprintf(stderr, "runner: %s\n", dlerror());
        return 125;
    }
    exit(m(argc - 1, argv + 1));
}
