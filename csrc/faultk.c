/*
 * Linked into the real programs (--wrap): the n-th call of a kind fails.
 *   VF_FAULT=alloc:17   the 17th allocation returns NULL
 *   VF_FAULT=sys:5+     every call below from the 5th on fails
 * A line naming the first call which failed is written to $VF_FAULTLOG.
 */
#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/socket.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static long left = -2;
static int persist, kind;
static int hits;

static void __attribute__((constructor))
init(void)
{
	const char * p = getenv("VF_FAULT");

	left = -1;
	if (p == NULL)
		return;
	kind = p[0];		/* alloc, sys, thr */
	p = strchr(p, ':') + 1;
	left = atol(p);
	persist = strchr(p, '+') != NULL;
}

static int
fault(int k, const char * what)
{
	const char * f;
	int fd;

	if (left < 0 || k != kind)
		return (0);
	if (__sync_fetch_and_sub(&left, 1) > 0)
		return (0);
	if (persist)
		left = 0;
	else
		left = -1;
	if (__sync_fetch_and_add(&hits, 1) == 0 && (f = getenv("VF_FAULTLOG")) != NULL) {
		if ((fd = __extension__ ({ extern int __real_open(const char *, int, ...); __real_open(f, O_WRONLY | O_CREAT | O_APPEND, 0600); })) != -1) {
			extern ssize_t __real_write(int, const void *, size_t);
			extern int __real_close(int);
			if (__real_write(fd, what, strlen(what)) == -1)
				hits++;
			__real_close(fd);
		}
	}
	return (1);
}

#define W(ret, name, args, call, k, err, bad)			\
	ret __real_##name args;					\
	ret __wrap_##name args;					\
	ret __wrap_##name args					\
	{							\
		if (fault(k, #name)) { errno = err; return (bad); } \
		return (__real_##name call);			\
	}

int __real_close(int);
int __wrap_close(int);
int __wrap_close(int fd) { return (__real_close(fd)); }
W(void *, malloc, (size_t n), (n), 'a', ENOMEM, NULL)
W(void *, calloc, (size_t a, size_t b), (a, b), 'a', ENOMEM, NULL)
W(void *, realloc, (void * p, size_t n), (p, n), 'a', ENOMEM, NULL)
W(char *, strdup, (const char * s), (s), 'a', ENOMEM, NULL)
W(int, socket, (int d, int t, int p), (d, t, p), 's', EMFILE, -1)
W(int, socketpair, (int d, int t, int p, int * v), (d, t, p, v), 's', EMFILE, -1)
W(int, bind, (int s, const struct sockaddr * a, socklen_t l), (s, a, l), 's', EADDRINUSE, -1)
W(int, listen, (int s, int n), (s, n), 's', EADDRINUSE, -1)
W(int, connect, (int s, const struct sockaddr * a, socklen_t l), (s, a, l), 's', ENOBUFS, -1)
W(int, accept, (int s, struct sockaddr * a, socklen_t * l), (s, a, l), 's', ENFILE, -1)
W(int, setsockopt, (int s, int l, int o, const void * v, socklen_t n), (s, l, o, v, n), 's', ENOBUFS, -1)
W(int, getsockopt, (int s, int l, int o, void * v, socklen_t * n), (s, l, o, v, n), 's', ENOBUFS, -1)
W(int, shutdown, (int s, int h), (s, h), 's', ENOBUFS, -1)
W(int, poll, (struct pollfd * f, nfds_t n, int t), (f, n, t), 's', ENOMEM, -1)
W(ssize_t, recv, (int s, void * b, size_t n, int f), (s, b, n, f), 's', ENOBUFS, -1)
W(ssize_t, send, (int s, const void * b, size_t n, int f), (s, b, n, f), 's', ENOBUFS, -1)
W(ssize_t, read, (int s, void * b, size_t n), (s, b, n), 's', EIO, -1)
W(ssize_t, write, (int s, const void * b, size_t n), (s, b, n), 's', EIO, -1)
W(int, clock_gettime, (clockid_t c, struct timespec * t), (c, t), 's', EFAULT, -1)
W(int, pipe, (int * v), (v), 's', EMFILE, -1)
W(pid_t, fork, (void), (), 's', EAGAIN, -1)
W(FILE *, fopen, (const char * p, const char * m), (p, m), 's', EMFILE, NULL)
W(int, pthread_create, (pthread_t * t, const pthread_attr_t * a, void * (* f)(void *), void * c), (t, a, f, c), 't', EAGAIN, EAGAIN)
W(int, pthread_mutex_init, (pthread_mutex_t * m, const pthread_mutexattr_t * a), (m, a), 't', EAGAIN, EAGAIN)
W(int, pthread_cond_init, (pthread_cond_t * m, const pthread_condattr_t * a), (m, a), 't', EAGAIN, EAGAIN)

int __real_open(const char *, int, ...);
int __wrap_open(const char *, int, ...);
int
__wrap_open(const char * p, int f, ...)
{

	if (fault('s', "open")) { errno = EMFILE; return (-1); }
	return (__real_open(p, f, 0666));
}

int __real_fcntl(int, int, ...);
int __wrap_fcntl(int, int, ...);
int
__wrap_fcntl(int fd, int c, ...)
{
	__builtin_va_list ap;
	long a;

	__builtin_va_start(ap, c);
	a = __builtin_va_arg(ap, long);
	__builtin_va_end(ap);
	if (fault('s', "fcntl")) { errno = EINVAL; return (-1); }
	return (__real_fcntl(fd, c, a));
}
