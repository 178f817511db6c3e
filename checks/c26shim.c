// C26: preloaded into the launched program. Records worker threads, precompiled headers opened, and sends files dumped to /tmp into a scratch directory.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void note(const char* k, const char* v) { const char* f = getenv("VF_NOTE"); if (!f) return; int (*op)(const char*, int, ...) = dlsym(RTLD_NEXT, "open"); int fd = op(f, O_WRONLY | O_CREAT | O_APPEND, 0600); char b[5000]; int n = snprintf(b, sizeof b, "%s %s\n", k, v); if (write(fd, b, n)) {} close(fd); }
static const char* redirect(const char* p, char* b) { const char* d = getenv("VF_DUMP"); if (d && !strncmp(p, "/tmp/oclgrind_", 14)) { snprintf(b, 4096, "%s/%s", d, p + 5); return b; } size_t n = strlen(p); if (n > 4 && !strcmp(p + n - 4, ".pch")) note("PCH", p); return p; }
#define OPEN(name) int name(const char* p, int fl, ...) { static int (*f)(const char*, int, ...); if (!f) f = dlsym(RTLD_NEXT, #name); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); char b[4096]; return f(redirect(p, b), fl, m); }
OPEN(open) OPEN(open64)
#define FOPEN(name) FILE* name(const char* p, const char* m) { static FILE* (*f)(const char*, const char*); if (!f) f = dlsym(RTLD_NEXT, #name); char b[4096]; return f(redirect(p, b), m); }
FOPEN(fopen) FOPEN(fopen64)
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* x) { static int (*f)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); if (!f) f = dlsym(RTLD_NEXT, "pthread_create"); note("THREAD", "1"); return f(t, a, fn, x); }
