#include "work.h"
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <malloc.h>
#include <sys/syscall.h>
#define PLAIN __attribute__ ((no_sanitize_coverage, optimize ("no-tree-loop-distribute-patterns")))
namespace work { counts now; }
using work::now;
extern "C"
{
PLAIN void __sanitizer_cov_trace_pc () { ++now.edges; }

// allocation
void *__libc_malloc (size_t);
void __libc_free (void *);
void *__libc_calloc (size_t, size_t);
void *__libc_realloc (void *, size_t);
void *__libc_memalign (size_t, size_t);
PLAIN static void *got (void *p)
{
    if (p)
    {
        ++now.allocs;
        now.live += malloc_usable_size (p);
        if (now.live > now.peak) now.peak = now.live;
    }
    return p;
}
PLAIN static void lost (void *p) { if (p) now.live -= malloc_usable_size (p); }
PLAIN void *malloc (size_t n) { return got (__libc_malloc (n)); }
PLAIN void free (void *p) { lost (p); __libc_free (p); }
PLAIN void *calloc (size_t a, size_t b) { now.bytes += a * b; return got (__libc_calloc (a, b)); }
PLAIN void *realloc (void *p, size_t n) { lost (p); now.bytes += n; return got (__libc_realloc (p, n)); }
PLAIN void *memalign (size_t a, size_t n) { return got (__libc_memalign (a, n)); }
PLAIN void *aligned_alloc (size_t a, size_t n) { return got (__libc_memalign (a, n)); }
PLAIN int posix_memalign (void **p, size_t a, size_t n) { *p = got (__libc_memalign (a, n)); return *p ? 0 : ENOMEM; }

// memory
PLAIN void *memcpy (void *d, const void *s, size_t n)
{
    now.bytes += n;
    void *r = d;
    asm volatile ("rep movsb" : "+D" (d), "+S" (s), "+c" (n) : : "memory");
    return r;
}
PLAIN void *memmove (void *d, const void *s, size_t n)
{
    if ((uintptr_t) d - (uintptr_t) s >= n) return memcpy (d, s, n);
    now.bytes += n;
    char *a = (char *) d + n;
    const char *b = (const char *) s + n;
    for (; n >= 8; n -= 8) { a -= 8; b -= 8; uint64_t t; __builtin_memcpy (&t, b, 8); __builtin_memcpy (a, &t, 8); }
    while (n--) *--a = *--b;
    return d;
}
PLAIN void *memset (void *d, int c, size_t n)
{
    now.bytes += n;
    void *r = d;
    asm volatile ("rep stosb" : "+D" (d), "+c" (n) : "a" (c) : "memory");
    return r;
}
PLAIN int memcmp (const void *a, const void *b, size_t n)
{
    const unsigned char *x = (const unsigned char *) a, *y = (const unsigned char *) b;
    for (size_t k = 0; k < n; ++k)
        if (x[k] != y[k]) { now.bytes += k + 1; return x[k] < y[k] ? -1 : 1; }
    now.bytes += n;
    return 0;
}
}

// A program other than a harness reports at its end
PLAIN __attribute__ ((destructor)) static void report ()
{
    const char *f = getenv ("WORK_REPORT");
    if (!f) return;
    const work::counts c = now;
    char b[300];
    int n = snprintf (b, sizeof b, "%llu %llu %llu %llu\n", (unsigned long long) c.edges, (unsigned long long) c.bytes,
                      (unsigned long long) c.allocs, (unsigned long long) c.peak);
    int fd = open (f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { syscall (SYS_write, fd, b, n); close (fd); }
}
