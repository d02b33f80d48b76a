/*
 * Interposed on the real programs (LD_PRELOAD) to control what the system
 * tells them: names in the file $VF_HOSTS ("name numeric-address" lines) are
 * the only ones which can be looked up, and calls listed in $VF_FAIL
 * ("call=errno,...") fail; calls in $VF_DELAY ("call=milliseconds,...") are
 * slow; $VF_DIE names a call at which the process is killed.
 */
#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/socket.h>
#include <dlfcn.h>
#include <errno.h>
#include <grp.h>
#include <netdb.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static long
lookup(const char * var, const char * call)
{
	const char * p = getenv(var);
	size_t n = strlen(call);

	while (p && *p) {
		if (strncmp(p, call, n) == 0 && p[n] == '=')
			return (atol(p + n + 1));
		if ((p = strchr(p, ',')) != NULL)
			p++;
	}
	return (0);
}

/* Nonzero: the call fails. */
static int
pre(const char * call)
{
	long ms;
	long e;

	if ((ms = lookup("VF_DELAY", call)) != 0) {
		struct timespec ts = { ms / 1000, (ms % 1000) * 1000000L };
		while (nanosleep(&ts, &ts) && errno == EINTR)
			continue;
	}
	if (lookup("VF_DIE", call))
		kill(getpid(), SIGKILL);
	if ((e = lookup("VF_FAIL", call)) != 0) {
		errno = (int)e;
		return (1);
	}
	return (0);
}

#define REAL(name) __typeof__(&name) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

pid_t fork(void) { REAL(fork); return (pre("fork") ? -1 : real()); }
pid_t setsid(void) { REAL(setsid); return (pre("setsid") ? -1 : real()); }
int pipe(int fd[2]) { REAL(pipe); return (pre("pipe") ? -1 : real(fd)); }
int listen(int s, int b) { REAL(listen); return (pre("listen") ? -1 : real(s, b)); }
int setuid(uid_t u) { REAL(setuid); return (pre("setuid") ? -1 : real(u)); }
int setgid(gid_t g) { REAL(setgid); return (pre("setgid") ? -1 : real(g)); }
int setgroups(size_t n, const gid_t * g) { REAL(setgroups); return (pre("setgroups") ? -1 : real(n, g)); }

FILE *
fopen(const char * path, const char * mode)
{
	REAL(fopen);

	if (mode[0] != 'r' && pre("fopenw"))
		return (NULL);
	return (real(path, mode));
}

int
fclose(FILE * f)
{
	REAL(fclose);
	int e;

	if (pre("fclose")) {
		e = errno;
		(void)real(f);
		errno = e;
		return (EOF);
	}
	return (real(f));
}

int
getaddrinfo(const char * node, const char * service, const struct addrinfo * hints, struct addrinfo ** res)
{
	REAL(getaddrinfo);
	const char * hosts = getenv("VF_HOSTS");
	char name[256], addr[256];
	FILE * f;

	if (hosts == NULL || node == NULL)
		return (real(node, service, hints, res));
	(void)pre("getaddrinfo");
	if ((f = fopen(hosts, "r")) != NULL) {
		while (fscanf(f, "%255s %255s", name, addr) == 2) {
			if (strcmp(name, node) == 0) {
				fclose(f);
				return (real(addr, service, hints, res));
			}
		}
		fclose(f);
	}
	return (EAI_AGAIN);
}
