/* Preloaded: counts the blocks and bytes that are allocated, and writes the largest number of bytes to the file named
   by HEAP_PEAK when the process exits. */
#include <errno.h>
#include <malloc.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);
static long blocks, bytes, peak;
static void* in(void* p)
{
    if (p) {
        __atomic_add_fetch(&blocks, 1, __ATOMIC_RELAXED);
        long b = __atomic_add_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
        if (b > peak) peak = b;
    }
    return p;
}
static void out(void* p)
{
    if (p) {
        __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
        __atomic_sub_fetch(&bytes, (long)malloc_usable_size(p), __ATOMIC_RELAXED);
    }
}
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return in(__libc_calloc(n, m)); }
void* realloc(void* p, size_t n)
{
    long old = p ? (long)malloc_usable_size(p) : 0;
    void* q = __libc_realloc(p, n);
    if (q || (p && !n)) {
        if (p) {
            __atomic_sub_fetch(&blocks, 1, __ATOMIC_RELAXED);
            __atomic_sub_fetch(&bytes, old, __ATOMIC_RELAXED);
        }
        in(q);
    }
    return q;
}
void* memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void** r, size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    *r = in(p);
    return 0;
}
void free(void* p) { out(p); __libc_free(p); }
long heap_blocks(void) { return blocks; }
long heap_bytes(void) { return bytes; }
__attribute__((destructor)) static void done(void)
{
    long p = peak;
    const char* name = getenv("HEAP_PEAK");
    FILE* f = name ? fopen(name, "w") : NULL;
    if (f) { fprintf(f, "%ld\n", p); fclose(f); }
}
