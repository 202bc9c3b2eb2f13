/* Preloaded into bic: tracks the bytes in use on the heap and, when the process ends,
 * writes "peak heap bytes, peak resident kB" to $VERIF_PEAK. */
#define _GNU_SOURCE
#include <errno.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static size_t cur, peak;

static void *add(void *p)
{
	if (p) {
		cur += malloc_usable_size(p) + 8;
		if (cur > peak)
			peak = cur;
	}
	return p;
}

static void sub(void *p)
{
	if (p)
		cur -= malloc_usable_size(p) + 8;
}

void *malloc(size_t n) { return add(__libc_malloc(n)); }
void *calloc(size_t n, size_t m) { return add(__libc_calloc(n, m)); }
void free(void *p) { sub(p); __libc_free(p); }
void *realloc(void *p, size_t n)
{
	size_t old = p ? malloc_usable_size(p) + 8 : 0;
	void *r = __libc_realloc(p, n);

	if (r || !n)
		cur -= old;
	return add(r);
}
void *memalign(size_t a, size_t n) { return add(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n)
{
	*r = memalign(a, n);
	return *r ? 0 : ENOMEM;
}

static __attribute__((destructor)) void done(void)
{
	char *out = getenv("VERIF_PEAK"), *pid = getenv("VERIF_PEAK_PID"), buf[4096], *h;
	int fd, n;

	/* not the preprocessor's */
	if (!out || !pid || atoi(pid) != getpid())
		return;
	fd = open("/proc/self/status", O_RDONLY);
	n = read(fd, buf, sizeof(buf) - 1);
	close(fd);
	buf[n > 0 ? n : 0] = 0;
	h = strstr(buf, "VmHWM:");
	n = sprintf(buf, "%zu %ld\n", peak, h ? atol(h + 6) : 0L);
	fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (write(fd, buf, n) != n)
		abort();
	close(fd);
}
