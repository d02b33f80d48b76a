/*
 * Resolver threads under ThreadSanitizer: the script on the command line is
 * sN (spawn token N), rN (resolve with token N), kN (kill token N), o (resolve
 * with a thread of its own), lMS (run the event loop for MS ms or until
 * nothing is outstanding).  argv[1] seeds the delays.
 */
#define _GNU_SOURCE
#include <sys/types.h>
#include <errno.h>
#include <netdb.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "dnsthread.h"
#include "events.h"
#include "sock.h"
#include "warnp.h"

static unsigned int seed, maxdelay;
static __thread unsigned int rnd;
static void
dly(void)
{

	if (rnd == 0)
		rnd = seed * 2654435761U + (unsigned int)(uintptr_t)&rnd;
	rnd = rnd * 1103515245 + 12345;
	if (((rnd >> 16) & 3) == 0 && maxdelay)
		usleep((rnd >> 18) % maxdelay);
}
#define W(ret, name, decl, args) ret __real_##name decl; ret __wrap_##name decl { ret r; dly(); r = __real_##name args; dly(); return (r); }
W(int, pthread_mutex_lock, (pthread_mutex_t *m), (m))
W(int, pthread_mutex_unlock, (pthread_mutex_t *m), (m))
W(int, pthread_cond_wait, (pthread_cond_t *c, pthread_mutex_t *m), (c, m))
W(int, pthread_cond_signal, (pthread_cond_t *c), (c))
W(int, pthread_create, (pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *c), (t, a, f, c))
W(ssize_t, write, (int f, const void *b, size_t n), (f, b, n))
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
int
__wrap_getaddrinfo(const char *n, const char *s, const struct addrinfo *h, struct addrinfo **r)
{
	int rc;

	dly();
	if (strcmp(n, "no.such") == 0)
		return (EAI_NONAME);
	rc = __real_getaddrinfo("127.0.0.1", s, h, r);
	dly();
	return (rc);
}

static int outstanding, answers, asked, busy, tick;
static int
done(void *c, struct sock_addr **sas)
{
	int *want = c;

	outstanding--;
	answers++;
	if ((sas != NULL) != *want) {
		fprintf(stderr, "WRONG ANSWER\n");
		_exit(3);
	}
	sock_addr_freelist(sas);
	return (0);
}
static int timeup(void *c) { (void)c; tick = 1; return (0); }

int
main(int argc, char **argv)
{
	static int yes = 1, no = 0;
	DNSTHREAD T[10] = { NULL };
	void *tm;
	int i, n, w, rc;
	char *p;

	WARNP_INIT;
	seed = atoi(argv[1]);
	maxdelay = atoi(argv[2]);
	for (i = 3; i < argc; i++) {
		p = argv[i];
		n = atoi(p + 1);
		switch (*p) {
		case 's':
			if ((T[n] = dnsthread_spawn()) == NULL)
				return (4);
			break;
		case 'r':
		case 'b':
			w = *p == 'r';
			errno = 0;
			rc = dnsthread_resolveone(T[n], w ? "some.host:80" : "no.such:80", done, w ? &yes : &no);
			if (rc)
				return (5);
			if (errno != EALREADY) {
				outstanding++;
				asked++;
			} else
				busy++;
			break;
		case 'k':
			if (dnsthread_kill(T[n]))
				return (6);
			T[n] = NULL;
			break;
		case 'o':
			if (dnsthread_resolve(n ? "no.such:1" : "a.host:1", done, n ? &no : &yes))
				return (7);
			outstanding++;
			asked++;
			break;
		case 'l':
			tick = 0;
			if ((tm = events_timer_register_double(timeup, NULL, n / 1000.0)) == NULL)
				return (8);
			while (!tick && outstanding > 0)
				if (events_run())
					return (9);
			if (!tick)
				events_timer_cancel(tm);
			break;
		}
	}
	printf("%d asked, %d busy, %d answers, %d outstanding\n", asked, busy, answers, outstanding);
	return (0);
}
