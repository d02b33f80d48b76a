/*
 * Between the small building blocks (messages, threads, processes, writing,
 * clocks) and the system: results of calls come from a tape.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <syslog.h>
#include <time.h>
#include <unistd.h>

#include "align_ptr.h"
#include "asprintf.h"
#include "fork_func.h"
#include "imalloc.h"
#include "millisleep.h"
#include "monoclock.h"
#include "noeintr.h"
#include "pthread_create_blocking_np.h"
#include "sysendian.h"
#include "warnp.h"

/* --- write(2): counts (or negative error numbers), then real writes. */
static int wfd = -1;
static int wtape[4096];
static size_t wn, wpos, wcalls;
void bk_write_tape(int fd, const int *t, size_t n) { wfd = fd; memcpy(wtape, t, n * sizeof(int)); wn = n; wpos = wcalls = 0; }
size_t bk_write_calls(void) { return (wcalls); }
size_t bk_write_pos(void) { return (wpos); }
ssize_t __real_write(int, const void *, size_t);
ssize_t
__wrap_write(int fd, const void *b, size_t n)
{
	int r;

	if (fd != wfd)
		return (__real_write(fd, b, n));
	wcalls++;
	if (wpos < wn) {
		r = wtape[wpos++];
		if (r < 0) {
			errno = -r;
			return (-1);
		}
		if ((size_t)r < n)
			n = r;
	}
	return (__real_write(fd, b, n));
}

/* --- read(2): interrupted this many times first. */
static int reintr;
void bk_read_eintr(int n) { reintr = n; }
ssize_t __real_read(int, void *, size_t);
ssize_t
__wrap_read(int fd, void *b, size_t n)
{

	if (reintr > 0) {
		reintr--;
		errno = EINTR;
		return (-1);
	}
	return (__real_read(fd, b, n));
}

/* --- syslog: recorded as priority, colon, text, zero byte. */
static char slog[1 << 20];
static size_t sloglen;
static int closelogs;
size_t bk_slog(char *b, size_t n) { size_t l = sloglen < n ? sloglen : n; memcpy(b, slog, l); sloglen = 0; return (l); }
int bk_closelogs(void) { int r = closelogs; closelogs = 0; return (r); }
void __wrap_closelog(void) { closelogs++; }
static void
vslog(int pri, const char *f, va_list ap)
{
	size_t room = sizeof(slog) - sloglen;
	int n, m;

	n = snprintf(&slog[sloglen], room, "%d:", pri);
	m = vsnprintf(&slog[sloglen + n], room - n, f, ap);
	if ((size_t)(n + m + 1) < room)
		sloglen += n + m + 1;
	errno = ECHILD;		/* Whatever logging does to it. */
}
void
__wrap_syslog(int pri, const char *f, ...)
{
	va_list ap;

	va_start(ap, f);
	vslog(pri, f, ap);
	va_end(ap);
}
void __wrap_vsyslog(int pri, const char *f, va_list ap) { vslog(pri, f, ap); }

/* --- messages.  Returns errno afterwards. */
int
bk_msg(int x, int form, int err, const char *s, long d)
{

	errno = err;
	switch (form) {
	case 0:
		x ? (warnx)(NULL) : (warn)(NULL);
		break;
	case 1:
		x ? (warnx)("%s", s) : (warn)("%s", s);
		break;
	case 2:
		x ? (warnx)("a %ld b %s%%", d, s) : (warn)("a %ld b %s%%", d, s);
		break;
	case 3:		/* The macros. */
		if (x)
			warn0("%s is %5ld", s, d);
		else
			warnp("%s is %5ld", s, d);
		break;
	case 4:
		if (x)
			warn0("plain");
		else
			warnp("plain");
		break;
	}
	return (errno);
}

struct mt { int id, n, err; size_t len; };
static pthread_barrier_t mbar;
static void *
mthread(void *c)
{
	struct mt *m = c;
	char *s = malloc(m->len + 1);
	int i;

	memset(s, 'a' + m->id, m->len);
	s[m->len] = 0;
	pthread_barrier_wait(&mbar);
	for (i = 0; i < m->n; i++) {
		errno = m->err;
		if (i & 1)
			(warnx)("%d %d %s", m->id, i, s);
		else
			(warn)("%d %d %s", m->id, i, s);
	}
	free(s);
	return (NULL);
}
void
bk_msg_threads(int nt, int n, const int *err, const size_t *len)
{
	pthread_t t[16];
	struct mt m[16];
	int i;

	pthread_barrier_init(&mbar, NULL, nt);
	for (i = 0; i < nt; i++) {
		m[i] = (struct mt){ i, n, err[i], len[i] };
		pthread_create(&t[i], NULL, mthread, &m[i]);
	}
	for (i = 0; i < nt; i++)
		pthread_join(t[i], NULL);
	pthread_barrier_destroy(&mbar);
}

/* --- memory: the n'th allocation fails. */
static int mfail = -1;
static long mlive;
void bk_malloc_fail(int n) { mfail = n; }
long bk_live(void) { return (mlive); }
void * __real_malloc(size_t);
void __real_free(void *);
void *
__wrap_malloc(size_t n)
{
	void *p;

	if (mfail == 0) {
		mfail = -1;
		errno = ENOMEM;
		return (NULL);
	}
	if (mfail > 0)
		mfail--;
	p = __real_malloc(n);
	__atomic_add_fetch(&mlive, 1, __ATOMIC_SEQ_CST);
	return (p);
}
void
__wrap_free(void *p)
{

	if (p != NULL)
		__atomic_sub_fetch(&mlive, 1, __ATOMIC_SEQ_CST);
	__real_free(p);
}

int
bk_asprintf(int form, const char *s, long d, char *out, size_t n, int *len)
{
	char *p = (char *)1;
	int r;

	switch (form) {
	case 0:
		r = asprintf(&p, "%s", s);
		break;
	case 1:
		r = asprintf(&p, "[%s]:%ld", s, d);
		break;
	case 2:
		r = asprintf(&p, "%.*s|%ld|%s", (int)(d & 63), s, d, s);
		break;
	default:
		r = asprintf(&p, "none");
		break;
	}
	*len = r;
	if (r < 0)
		return (0);
	if ((size_t)r + 1 > n)
		return (-1);
	memcpy(out, p, r + 1);
	free(p);
	return (1);
}
int
bk_imalloc(size_t n, int which, int *isnull)
{
	struct r24 { char c[24]; } *a;
	uint64_t *b;
	uint8_t *c;
	void *p;
	int r;

	errno = 0;
	switch (which) {
	case 0:
		r = IMALLOC(a, n, struct r24);
		p = a;
		break;
	case 1:
		r = IMALLOC(b, n, uint64_t);
		p = b;
		break;
	default:
		r = IMALLOC(c, n, uint8_t);
		p = c;
		break;
	}
	if (p != NULL) {
		/* All of it is there. */
		memset(p, 0x5a, n * (which == 0 ? 24 : which == 1 ? 8 : 1));
		free(p);
	}
	*isnull = p == NULL;
	return (r ? errno ? errno : -1 : 0);
}
/* Offset of the aligned pointer within a buffer starting at base + skew. */
long
bk_align(size_t skew, size_t al)
{
	static uint8_t buf[16384] __attribute__((aligned(8192)));

	return ((uint8_t *)align_ptr(&buf[skew], al) - &buf[skew]);
}
static size_t
decl(void)
{
	size_t bad = 0, i;
	ALIGN_PTR_DECL(uint64_t, a, 5, 64);
	ALIGN_PTR_DECL(uint32_t, b, 3, 32);

	ALIGN_PTR_INIT(a, 64);
	ALIGN_PTR_INIT(b, 32);
	bad += ((uintptr_t)a % 64 != 0) + ((uintptr_t)b % 32 != 0);
	for (i = 0; i < 5; i++)
		a[i] = i;
	for (i = 0; i < 3; i++)
		b[i] = i;
	for (i = 0; i < 5; i++)
		bad += a[i] != i;
	return (bad);
}
size_t bk_align_decl(void) { return (decl()); }

void
bk_enc(int w, int big, uint8_t *p, uint64_t x)
{

	switch (w * 2 + big) {
	case 4: le16enc(p, x); break;
	case 5: be16enc(p, x); break;
	case 8: le32enc(p, x); break;
	case 9: be32enc(p, x); break;
	case 16: le64enc(p, x); break;
	case 17: be64enc(p, x); break;
	}
}
uint64_t
bk_dec(int w, int big, const uint8_t *p)
{

	switch (w * 2 + big) {
	case 4: return (le16dec(p));
	case 5: return (be16dec(p));
	case 8: return (le32dec(p));
	case 9: return (be32dec(p));
	case 16: return (le64dec(p));
	default: return (be64dec(p));
	}
}

/* --- clocks: indexed by clock number; an error number or a time. */
static int clkon, clkerr[8], rescalls;
static struct timespec clkval[8], resval[8];
void bk_clock(int on) { clkon = on; }
void bk_clock_set(int c, int err, long s, long ns, long rs, long rns) { clkerr[c] = err; clkval[c] = (struct timespec){ s, ns }; resval[c] = (struct timespec){ rs, rns }; }
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_clock_getres(clockid_t, struct timespec *);
int
__wrap_clock_gettime(clockid_t c, struct timespec *t)
{

	if (!clkon || c < 0 || c > 7)
		return (__real_clock_gettime(c, t));
	if (clkerr[c]) {
		errno = clkerr[c];
		return (-1);
	}
	*t = clkval[c];
	return (0);
}
int
__wrap_clock_getres(clockid_t c, struct timespec *t)
{

	if (!clkon || c < 0 || c > 7)
		return (__real_clock_getres(c, t));
	if (clkerr[c]) {
		errno = clkerr[c];
		return (-1);
	}
	*t = resval[c];
	return (0);
}
int
bk_clock_get(int what, long *s, long *us, double *d)
{
	struct timeval tv = { -1, -1 };
	int r;

	switch (what) {
	case 0:
		r = monoclock_get(&tv);
		break;
	case 1:
		r = monoclock_get_cputime(&tv);
		break;
	default:
		r = monoclock_getres(d);
		break;
	}
	*s = tv.tv_sec;
	*us = tv.tv_usec;
	return (r);
}
double
bk_timeval_diff(long s0, long u0, long s1, long u1)
{
	struct timeval a = { s0, u0 }, b = { s1, u1 };

	return (timeval_diff(a, b));
}

/* --- nanosleep */
static struct timespec slept;
int __wrap_nanosleep(const struct timespec *t, struct timespec *r) { (void)r; slept = *t; return (0); }
void bk_millisleep(size_t n, long *s, long *ns) { millisleep(n); *s = slept.tv_sec; *ns = slept.tv_nsec; }

/* --- processes */
static int forkerr;
void bk_fork_err(int e) { forkerr = e; }
pid_t __real_fork(void);
pid_t
__wrap_fork(void)
{

	if (forkerr) {
		errno = forkerr;
		return (-1);
	}
	return (__real_fork());
}
struct ff { volatile int *shared; int cookie, how; };
static int
ffrun(void *c)
{
	struct ff *f = c;

	*f->shared += f->cookie;
	if (f->how >= 1000) {
		signal(f->how - 1000, SIG_DFL);
		raise(f->how - 1000);
	}
	return (f->how);
}
pid_t
bk_fork(volatile int *shared, int cookie, int how)
{
	static struct ff f[64];
	static int n;
	struct ff *p = &f[n++ % 64];

	*p = (struct ff){ shared, cookie, how };
	return (fork_func(ffrun, p));
}
static FILE *buffered;
static int atexits;
static void onexit(void) { if (buffered != NULL) fprintf(buffered, "exit handler\n"); }
int
bk_buffer(const char *path, const char *text)
{

	if ((buffered = fopen(path, "a")) == NULL)
		return (-1);
	fputs(text, buffered);
	if (!atexits++)
		atexit(onexit);
	return (0);
}
void bk_unbuffer(void) { fclose(buffered); buffered = NULL; }

/* --- threads: delays, and failures in the calling thread. */
static pthread_t caller;
static int tfailop = -1, tfailnum, tfailerr, tops[8];
static int dstart, dlock, dunlock, dunlocked, dsignal, dwait, spurious, indep;
enum { MINIT, CINIT, LOCK, CREATE, WAIT, UNLOCK, CDESTROY, MDESTROY };
static volatile int entered, ran;
static volatile int allon;

static int
tf(int op)
{

	if (!allon || !pthread_equal(pthread_self(), caller))
		return (0);
	if (op == tfailop && tops[op]++ == tfailnum)
		return (tfailerr);
	return (0);
}
static int other(void) { return (allon && !pthread_equal(pthread_self(), caller)); }
#define W(name, op, decl, args)					\
int __real_pthread_##name decl;					\
int __wrap_pthread_##name decl					\
{								\
	int e;							\
								\
	if ((e = tf(op)) != 0)					\
		return (e);					\
	return (__real_pthread_##name args);			\
}
W(mutex_init, MINIT, (pthread_mutex_t *m, const pthread_mutexattr_t *a), (m, a))
W(cond_init, CINIT, (pthread_cond_t *c, const pthread_condattr_t *a), (c, a))
W(cond_destroy, CDESTROY, (pthread_cond_t *c), (c))
W(mutex_destroy, MDESTROY, (pthread_mutex_t *m), (m))
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int
__wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
	int e;

	if ((e = tf(LOCK)) != 0)
		return (e);
	if (other())
		usleep(dlock);
	return (__real_pthread_mutex_lock(m));
}
int
__wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
	int e, o = other();

	if ((e = tf(UNLOCK)) != 0) {
		/* Still held, as the caller has to assume. */
		return (e);
	}
	if (o)
		usleep(dunlock);
	e = __real_pthread_mutex_unlock(m);
	if (o)
		usleep(dunlocked);
	return (e);
}
int
__wrap_pthread_cond_signal(pthread_cond_t *c)
{

	if (other())
		usleep(dsignal);
	return (__real_pthread_cond_signal(c));
}
int
__wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	int e;

	if ((e = tf(WAIT)) != 0)
		return (e);
	if (allon && pthread_equal(pthread_self(), caller)) {
		usleep(dwait);
		if (spurious > 0) {
			/* Wakes up for no reason; others get the mutex. */
			spurious--;
			__real_pthread_mutex_unlock(m);
			usleep(500);
			return (__real_pthread_mutex_lock(m));
		}
	}
	return (__real_pthread_cond_wait(c, m));
}
struct tr { void *(*f)(void *); void *a; };
static void *
tramp(void *c)
{
	struct tr t = *(struct tr *)c;

	__real_free(c);
	usleep(dstart);
	entered++;
	return (t.f(t.a));
}
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int
__wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *c)
{
	struct tr *r;
	int e;

	if (!allon)
		return (__real_pthread_create(t, a, f, c));
	if ((e = tf(CREATE)) != 0)
		return (e);
	r = __real_malloc(sizeof(*r));
	*r = (struct tr){ f, c };
	return (__real_pthread_create(t, a, tramp, r));
}
static size_t tstack;
static int tdetached;
static volatile int quick;
static void *
body(void *c)
{
	pthread_attr_t a;

	pthread_getattr_np(pthread_self(), &a);
	pthread_attr_getstacksize(&a, &tstack);
	pthread_attr_getdetachstate(&a, &tdetached);
	pthread_attr_destroy(&a);
	if (!quick)
		usleep(300);
	__atomic_add_fetch(&ran, 1, __ATOMIC_SEQ_CST);
	return ((void *)((uintptr_t)c * 3 + 1));
}
/* r: rc, entered on return, ran at the end, live blocks more, result right, stack, detached */
int
bk_thread(int nthr, int op, int num, int err, const int *d, size_t stack, int detach, int mf, long *r)
{
	pthread_t t[16];
	pthread_attr_t a, *ap = NULL;
	void *res;
	long live0;
	int i, rc = 0, ok = 0;

	caller = pthread_self();
	tfailop = op; tfailnum = num; tfailerr = err;
	memset(tops, 0, sizeof(tops));
	dstart = d[0]; dlock = d[1]; dsignal = d[2]; dunlock = d[3]; dunlocked = d[4]; dwait = d[5]; spurious = d[6]; quick = d[7];
	entered = ran = 0;
	if (stack || detach) {
		pthread_attr_init(&a);
		if (stack)
			pthread_attr_setstacksize(&a, stack);
		if (detach)
			pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
		ap = &a;
	}
	live0 = mlive;
	mfail = mf;
	r[1] = 0;
	for (i = 0; i < nthr; i++) {
		allon = 1;
		rc = pthread_create_blocking_np(&t[i], ap, body, (void *)(uintptr_t)(1000 + i));
		allon = 0;
		if (rc)
			break;
		if (entered != i + 1)
			r[1]++;
	}
	mfail = -1;
	r[0] = rc;
	nthr = i;
	for (i = 0; i < nthr; i++) {
		if (detach)
			continue;
		pthread_join(t[i], &res);
		if (res == (void *)(uintptr_t)((1000 + i) * 3 + 1))
			ok++;
	}
	for (i = 0; detach && ran < nthr && i < 5000; i++)
		usleep(1000);
	r[2] = ran;
	usleep(dunlocked);
	r[3] = mlive - live0;
	r[4] = ok;
	r[5] = tstack;
	r[6] = tdetached == PTHREAD_CREATE_DETACHED;
	r[7] = nthr;
	if (ap)
		pthread_attr_destroy(ap);
	return (rc);
}

void bk_errno(int e) { errno = e; }
int bk_geterrno(void) { return (errno); }
