/* Linked into the library under test: counts the library's own allocations,
 * optionally makes one of them fail, scripts read()/write() on chosen
 * descriptors, and provides a scripted random generator type. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <unistd.h>
#include <gsl/gsl_rng.h>

static long vp_live;     /* live allocations made by the library */
static long vp_count;    /* allocations attempted since vp_fail_arm */
static long vp_fail = -1;/* index of the allocation to fail, -1: none */

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void  __real_free(void *);
char *__real_strdup(const char *);

static int vp_should_fail(void)
{
	long c = __atomic_fetch_add(&vp_count, 1, __ATOMIC_SEQ_CST);
	return vp_fail >= 0 && c == vp_fail;
}
static void *vp_in(void *p)
{
	if (p) __atomic_add_fetch(&vp_live, 1, __ATOMIC_SEQ_CST);
	return p;
}
void *__wrap_malloc(size_t s) { return vp_should_fail() ? NULL : vp_in(__real_malloc(s)); }
void *__wrap_calloc(size_t n, size_t s) { return vp_should_fail() ? NULL : vp_in(__real_calloc(n, s)); }
void *__wrap_realloc(void *p, size_t s)
{
	if (vp_should_fail()) return NULL;
	void *r = __real_realloc(p, s);
	if (!p) return vp_in(r);
	return r;
}
void __wrap_free(void *p)
{
	if (p) __atomic_sub_fetch(&vp_live, 1, __ATOMIC_SEQ_CST);
	__real_free(p);
}
char *__wrap_strdup(const char *s) { return vp_should_fail() ? NULL : (char *)vp_in(__real_strdup(s)); }
long vp_get_live(void) { return vp_live; }
void vp_fail_arm(long n) { vp_count = 0; vp_fail = n; }
long vp_fail_disarm(void) { vp_fail = -1; return vp_count; }

gsl_rng *__real_gsl_rng_alloc(const gsl_rng_type *);
void __real_gsl_rng_free(gsl_rng *);
gsl_rng *__wrap_gsl_rng_alloc(const gsl_rng_type *t)
{
	if (vp_should_fail()) return NULL;
	return (gsl_rng *)vp_in(__real_gsl_rng_alloc(t));
}
void __wrap_gsl_rng_free(gsl_rng *r)
{
	if (r) __atomic_sub_fetch(&vp_live, 1, __ATOMIC_SEQ_CST);
	__real_gsl_rng_free(r);
}

/* ---- scripted descriptors --------------------------------------------- */
/* script entry: >0 at most that many bytes, 0 end of stream (read) ,
 * -1 would block, -2 interrupted, -3 EIO, -4 EWOULDBLOCK. After the script: unlimited. */
static int  vp_fd = -1;
static long vp_io[4096];
static long vp_io_n, vp_io_pos;
static long vp_io_calls;
static long vp_log[65536], vp_log_n;	/* answers given; END of an empty request is not one */
long vp_io_log(long *out, long n)
{
	long m = vp_log_n < n ? vp_log_n : n;
	memcpy(out, vp_log, sizeof(long) * m);
	return vp_log_n;
}
void vp_io_script(int fd, const long *s, long n)
{
	vp_fd = fd;
	vp_io_n = n > 4096 ? 4096 : n;
	memcpy(vp_io, s, sizeof(long) * vp_io_n);
	vp_io_pos = 0;
	vp_io_calls = 0;
	vp_log_n = 0;
}
static void vp_record(long e)
{
	/* transfers in a row count as one */
	if (e > 0 && vp_log_n && vp_log[vp_log_n - 1] > 0) vp_log[vp_log_n - 1] += e;
	else if (vp_log_n < 65536) vp_log[vp_log_n++] = e;
}
long vp_io_used(void) { return vp_io_pos; }
long vp_io_ncalls(void) { return vp_io_calls; }
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
static int vp_next(size_t *n, ssize_t *ret)
{
	vp_io_calls++;
	if (vp_io_pos >= vp_io_n) return 0;
	long e = vp_io[vp_io_pos++];
	if (e > 0) { if ((size_t)e < *n) *n = (size_t)e; return 0; }
	if (e == 0) { *ret = 0; return 1; }
	errno = e == -1 ? EAGAIN : e == -2 ? EINTR : e == -3 ? EIO : EWOULDBLOCK;
	*ret = -1;
	return 1;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	ssize_t r;
	if (fd != vp_fd) return __real_read(fd, b, n);
	if (!n) return __real_read(fd, b, n);
	if (!vp_next(&n, &r)) r = __real_read(fd, b, n);
	vp_record(r >= 0 ? r : errno == EINTR ? -2 : errno == EAGAIN || errno == EWOULDBLOCK ? -1 : -3);
	return r;
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	ssize_t r;
	if (fd != vp_fd) return __real_write(fd, b, n);
	if (!n) return __real_write(fd, b, n);
	if (!vp_next(&n, &r)) r = __real_write(fd, b, n);
	vp_record(r >= 0 ? r : errno == EINTR ? -2 : errno == EAGAIN || errno == EWOULDBLOCK ? -1 : -3);
	return r;
}

/* ---- scripted random generator ---------------------------------------- */
static uint32_t vp_rng_s[65536];
static long vp_rng_n, vp_rng_pos;
static uint64_t vp_rng_lcg = 1;
void vp_rng_script(const uint32_t *s, long n, uint64_t seed)
{
	vp_rng_n = n > 65536 ? 65536 : n;
	if (vp_rng_n) memcpy(vp_rng_s, s, 4 * vp_rng_n);
	vp_rng_pos = 0;
	vp_rng_lcg = seed * 6364136223846793005ULL + 1442695040888963407ULL;
}
long vp_rng_used(void) { return vp_rng_pos; }
static unsigned long vp_rng_get(void *st)
{
	(void)st;
	if (vp_rng_pos < vp_rng_n) return vp_rng_s[vp_rng_pos++];
	vp_rng_pos++;
	vp_rng_lcg = vp_rng_lcg * 6364136223846793005ULL + 1442695040888963407ULL;
	return (unsigned long)(uint32_t)(vp_rng_lcg >> 32);
}
static double vp_rng_get_double(void *st) { return vp_rng_get(st) / 4294967296.0; }
static void vp_rng_set(void *st, unsigned long s) { (void)st; (void)s; }
static const gsl_rng_type vp_rng_type = {"vp_script", 0xffffffffUL, 0, 8, vp_rng_set, vp_rng_get, vp_rng_get_double};
const gsl_rng_type *vp_rng_get_type(void) { return &vp_rng_type; }
/* the library links the symbol, so that python can reach the gsl types */
const gsl_rng_type *vp_gsl_type(int i)
{
	switch (i) {
	case 0: return gsl_rng_mt19937;
	case 1: return gsl_rng_taus2;
	case 2: return gsl_rng_ranlxd2;
	case 3: return gsl_rng_minstd;
	default: {
		/* every other type the library knows of */
		const gsl_rng_type **t = gsl_rng_types_setup();
		int n = 0;
		while (t[n]) n++;
		return n ? t[(i - 4) % n] : gsl_rng_mt19937;
	}
	}
}
