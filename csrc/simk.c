/*
 * simk.c: a deterministic stand-in for the parts of the operating system which
 * spiped's libraries use.  It is linked in with -Wl,--wrap=..., so that the
 * repository's objects call __wrap_X where they wrote X.  Virtual sockets live
 * on descriptors VFD_BASE .. VFD_BASE+VFD_N-1 (lowest free first, reused at
 * once); every other descriptor is passed to the real system call.  All
 * scheduling, partial I/O, error injection and the clock are controlled by the
 * test driver through the sim_* functions; nothing here is random.
 */
#define _GNU_SOURCE
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <malloc.h>
#include <netdb.h>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <openssl/bn.h>

#define VFD_BASE 64
#define VFD_N 960
#define MAXEP 4096

void events_interrupt(void);
int events_run(void);
int events_spin(const int *);

/* Real functions. */
int __real_poll(struct pollfd *, nfds_t, int);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_write(int, const void *, size_t);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_connect(int, const struct sockaddr *, socklen_t);
int __real_socket(int, int, int);
int __real_bind(int, const struct sockaddr *, socklen_t);
int __real_listen(int, int);
int __real_close(int);
int __real_shutdown(int, int);
int __real_getsockopt(int, int, int, void *, socklen_t *);
int __real_setsockopt(int, int, int, const void *, socklen_t);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_gettimeofday(struct timeval *, void *);
time_t __real_time(time_t *);
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
void __real_freeaddrinfo(struct addrinfo *);
int __real_open(const char *, int, ...);
int __real_fcntl(int, int, ...);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
void __real_BN_free(BIGNUM *);
void __real_BN_clear_free(BIGNUM *);
ssize_t __real_getrandom(void *, size_t, unsigned);
int __real_getentropy(void *, size_t);
int __real_setgroups(size_t, const gid_t *);
int __real_setgid(gid_t);
int __real_setuid(uid_t);
int __real_setegid(gid_t);
int __real_seteuid(uid_t);
int __real_setregid(gid_t, gid_t);
int __real_setreuid(uid_t, uid_t);
int __real_setresgid(gid_t, gid_t, gid_t);
int __real_setresuid(uid_t, uid_t, uid_t);
int __real_getgroups(int, gid_t *);
int __real_initgroups(const char *, gid_t);
struct group *__real_getgrnam(const char *);
struct passwd *__real_getpwnam(const char *);

/* ---------------------------------------------------------------- state -- */

enum { EP_FREE = 0, EP_STREAM, EP_LISTEN, EP_RNG };
enum { ST_NEW = 0, ST_CONNECTING, ST_CONNECTED, ST_FAILED };

struct ep {
	int kind, fd, state;
	int domain, type, proto;
	uint8_t *rx; size_t rxlen, rxpos, rxalloc;
	int rx_eof, rx_err;
	uint8_t *tx; size_t txlen, txpos, txalloc;
	size_t txcap;
	int tx_err, so_error;
	int shut_rd, shut_wr, closed, nonblock, keepalive, nodelay, reuse, backlog;
	int hup;
	struct sockaddr_storage peer, bound; socklen_t peerlen, boundlen;
	int pend[256]; int npend;
	uint64_t seq_close, seq_shutwr, seq_create;
	uint64_t ncalls_recv, ncalls_send;
	int64_t t_create;
};

static struct ep *E[MAXEP];
static int nE;
static int fdmap[VFD_N];
static int inited;
int sim_enabled = 0;			/* virtualise sockets/clock at all? */
int64_t sim_now = 1000000000LL * 1000;	/* virtual clock, ns */
int64_t sim_until = 0;
int64_t sim_clockstep = 0;		/* ns added by each clock read */
int64_t sim_wallskew = 0;		/* wall clock minus monotonic clock */
int64_t sim_oversleep = 0;		/* ns by which poll sleeps too long */
int sim_idle = 0;
int sim_realwait_ms = 0;
uint64_t sim_seq = 0;
uint64_t sim_npoll = 0, sim_npoll_same = 0, sim_poll_limit = 200000;
int sim_livelock = 0;
int sim_nlog = 0;
char sim_logbuf[65536];
size_t sim_loglen = 0;
int sim_clock_fail = 0;			/* make clock_gettime fail */
uint64_t sim_n_recv, sim_n_send, sim_n_eintr, sim_n_eagain, sim_n_partial;

/* Problems noticed: misuse of descriptors and so on. */
/*
 * A system call made to fail: the n-th one from now on (of those marked FAULT)
 * fails with an error of its own which POSIX allows for it.
 */
int64_t sim_sys_fail_at = -1;
int sim_sys_fail_persist = 0;
uint64_t sim_sys_count = 0, sim_sys_failed = 0;
static char sim_sys_what[16];
const char *sim_sys_name(void) { return (sim_sys_what); }

static int
sysfault(const char *what, int err)
{

	if (!sim_enabled)
		return (0);
	sim_sys_count++;
	if (sim_sys_fail_at < 0)
		return (0);
	if (sim_sys_fail_at > 0) {
		sim_sys_fail_at--;
		return (0);
	}
	if (!sim_sys_fail_persist)
		sim_sys_fail_at = -1;
	if (sim_sys_failed++ == 0)
		snprintf(sim_sys_what, sizeof(sim_sys_what), "%s", what);
	errno = err;
	return (1);
}

static void
problem(const char *fmt, ...)
{
	va_list ap;
	int n;

	va_start(ap, fmt);
	n = vsnprintf(sim_logbuf + sim_loglen, sizeof(sim_logbuf) - sim_loglen, fmt, ap);
	va_end(ap);
	if (n > 0 && sim_loglen + (size_t)n < sizeof(sim_logbuf) - 2) {
		sim_loglen += (size_t)n;
		sim_logbuf[sim_loglen++] = '\n';
		sim_logbuf[sim_loglen] = '\0';
	}
	sim_nlog++;
}

/* Tapes: io (recv/send) and misc (poll/accept/rng). */
struct tape { uint8_t *b; size_t len, pos; };
static struct tape iot, misct, rngt;

static int
tape_next(struct tape *t)
{
	if (t->pos < t->len)
		return (t->b[t->pos++]);
	return (-1);
}

static void
tape_set(struct tape *t, const uint8_t *b, size_t len)
{
	__real_free(t->b);
	t->b = __real_malloc(len ? len : 1);
	memcpy(t->b, b, len);
	t->len = len;
	t->pos = 0;
}

void sim_set_io_tape(const uint8_t *b, size_t len) { tape_set(&iot, b, len); }
void sim_set_misc_tape(const uint8_t *b, size_t len) { tape_set(&misct, b, len); }
void sim_set_rng_tape(const uint8_t *b, size_t len) { tape_set(&rngt, b, len); }
size_t sim_io_tape_used(void) { return (iot.pos); }

/*
 * Asked about every socket (0), bind (1) and connect (2) if set: an errno to
 * report (0: success), or -1 to have the queues below decide.
 */
static int (*conncb)(int what, int domain_or_ep, const void *sa, int len);
void sim_set_conncb(int (*f)(int, int, const void *, int)) { conncb = f; }

/* connect/socket/bind outcomes. */
static int connq[1024]; static int nconnq, connqpos;
static int sockq[1024]; static int nsockq, sockqpos;
static int bindq[1024]; static int nbindq, bindqpos;
static int acceptq[1024]; static int nacceptq, acceptqpos;
int sim_connect_default = EINPROGRESS;
static int connlog[MAXEP]; static int nconnlog;

void sim_push_connect(int e) { if (nconnq < 1024) connq[nconnq++] = e; }
void sim_push_socket(int e) { if (nsockq < 1024) sockq[nsockq++] = e; }
void sim_push_bind(int e) { if (nbindq < 1024) bindq[nbindq++] = e; }
void sim_push_accept(int e) { if (nacceptq < 1024) acceptq[nacceptq++] = e; }
int sim_nconnects(void) { return (nconnlog); }
int sim_connect_ep(int i) { return (i >= 0 && i < nconnlog ? connlog[i] : -1); }

static void
epfree(struct ep *e)
{
	__real_free(e->rx);
	__real_free(e->tx);
	__real_free(e);
}

void
sim_reset(void)
{
	int i;

	for (i = 0; i < nE; i++)
		epfree(E[i]);
	nE = 0;
	for (i = 0; i < VFD_N; i++)
		fdmap[i] = -1;
	inited = 1;
	sim_seq = 0;
	sim_now = 1000000000LL * 1000;
	sim_until = sim_now;
	sim_clockstep = 0;
	sim_oversleep = 0;
	sim_wallskew = 0;
	sim_idle = sim_livelock = 0;
	sim_npoll = sim_npoll_same = 0;
	sim_nlog = 0;
	sim_loglen = 0;
	sim_logbuf[0] = 0;
	sim_clock_fail = 0;
	sim_sys_fail_at = -1;
	sim_sys_fail_persist = 0;
	sim_sys_count = sim_sys_failed = 0;
	nconnq = connqpos = nsockq = sockqpos = nbindq = bindqpos = nacceptq = acceptqpos = 0;
	conncb = NULL;
	nconnlog = 0;
	sim_connect_default = EINPROGRESS;
	iot.len = iot.pos = misct.len = misct.pos = rngt.len = rngt.pos = 0;
	sim_n_recv = sim_n_send = sim_n_eintr = sim_n_eagain = sim_n_partial = 0;
}

static int
newep(int kind)
{
	struct ep *e;

	if (!inited)
		sim_reset();
	if (nE == MAXEP)
		abort();
	e = __real_calloc(1, sizeof(*e));
	e->kind = kind;
	e->fd = -1;
	e->keepalive = e->nodelay = -1;
	e->txcap = 1 << 20;
	e->domain = AF_INET;
	e->type = SOCK_STREAM;
	e->seq_create = ++sim_seq;
	e->t_create = sim_now;
	E[nE] = e;
	return (nE++);
}

static int
allocfd(int id)
{
	int i;

	for (i = 0; i < VFD_N; i++)
		if (fdmap[i] == -1) {
			fdmap[i] = id;
			E[id]->fd = i + VFD_BASE;
			return (i + VFD_BASE);
		}
	return (-1);
}

#define ISV(fd) ((fd) >= VFD_BASE && (fd) < VFD_BASE + VFD_N && inited)

static struct ep *
getep(int fd, const char *what)
{
	int id;

	if (!inited)
		sim_reset();
	if ((id = fdmap[fd - VFD_BASE]) == -1) {
		problem("%s on descriptor %d which is not open", what, fd);
		errno = EBADF;
		return (NULL);
	}
	return (E[id]);
}

/* ------------------------------------------------------- driver's interface */

/* New connected stream; returns endpoint id. */
int
sim_new_stream(void)
{
	int id = newep(EP_STREAM);

	E[id]->state = ST_CONNECTED;
	E[id]->nonblock = 1;
	if (allocfd(id) == -1)
		abort();
	return (id);
}

int
sim_new_listener(void)
{
	int id = newep(EP_LISTEN);

	E[id]->nonblock = 1;
	if (allocfd(id) == -1)
		abort();
	return (id);
}

int sim_fd(int id) { return (E[id]->fd); }
int sim_neps(void) { return (nE); }
int sim_kind(int id) { return (E[id]->kind); }
int sim_state(int id) { return (E[id]->state); }
int sim_closed(int id) { return (E[id]->closed); }
int sim_shutwr(int id) { return (E[id]->shut_wr); }
int sim_shutrd(int id) { return (E[id]->shut_rd); }
int sim_nonblock(int id) { return (E[id]->nonblock); }
int sim_keepalive(int id) { return (E[id]->keepalive); }
int sim_nodelay(int id) { return (E[id]->nodelay); }
int sim_reuse(int id) { return (E[id]->reuse); }
int sim_listening(int id) { return (E[id]->kind == EP_LISTEN ? E[id]->backlog : -1); }
int sim_setsockopt_errno = 0;		/* setsockopt(SOL_SOCKET) fails with this */
uint64_t sim_seq_close(int id) { return (E[id]->seq_close); }
uint64_t sim_seq_shutwr(int id) { return (E[id]->seq_shutwr); }
int64_t sim_t_create(int id) { return (E[id]->t_create); }
void sim_set_nonblock(int id, int v) { E[id]->nonblock = v; }
size_t sim_peer(int id, uint8_t *b, size_t l) { if (l > E[id]->peerlen) l = E[id]->peerlen; memcpy(b, &E[id]->peer, l); return (l); }
size_t sim_bound(int id, uint8_t *b, size_t l) { if (l > E[id]->boundlen) l = E[id]->boundlen; memcpy(b, &E[id]->bound, l); return (l); }
int sim_domain(int id) { return (E[id]->domain); }
int sim_type(int id) { return (E[id]->type); }
size_t sim_rx_unread(int id) { return (E[id]->rxlen - E[id]->rxpos); }
void sim_rx_drain(int id) { E[id]->rxpos = E[id]->rxlen; }
size_t sim_rx_read(int id) { return (E[id]->rxpos); }
size_t sim_tx_len(int id) { return (E[id]->txlen); }
uint64_t sim_nrecv(int id) { return (E[id]->ncalls_recv); }

int
sim_nopen(void)
{
	int i, n = 0;

	if (!inited)
		return (0);
	for (i = 0; i < VFD_N; i++)
		if (fdmap[i] != -1)
			n++;
	return (n);
}

static void
append(uint8_t **b, size_t *len, size_t *alloc, const uint8_t *p, size_t n)
{
	if (*len + n > *alloc) {
		*alloc = (*len + n) * 2 + 64;
		*b = __real_realloc(*b, *alloc);
	}
	memcpy(*b + *len, p, n);
	*len += n;
}

void
sim_feed(int id, const uint8_t *p, size_t n)
{
	append(&E[id]->rx, &E[id]->rxlen, &E[id]->rxalloc, p, n);
}

void sim_feed_eof(int id) { E[id]->rx_eof = 1; }
void sim_feed_err(int id, int err, int drop) { E[id]->rx_err = err; if (drop) E[id]->rxpos = E[id]->rxlen; }
void sim_set_txcap(int id, size_t n) { E[id]->txcap = n; }
void sim_set_txerr(int id, int err) { E[id]->tx_err = err; }
void sim_set_hup(int id, int v) { E[id]->hup = v; }

/* Take up to n bytes which the code under test has sent. */
size_t
sim_take(int id, uint8_t *p, size_t n)
{
	struct ep *e = E[id];

	if (n > e->txlen - e->txpos)
		n = e->txlen - e->txpos;
	if (n)
		memcpy(p, e->tx + e->txpos, n);
	e->txpos += n;
	return (n);
}

size_t sim_tx_avail(int id) { return (E[id]->txlen - E[id]->txpos); }

void
sim_connect_done(int id, int err)
{
	struct ep *e = E[id];

	if (e->state != ST_CONNECTING)
		return;
	e->so_error = err;
	e->state = err ? ST_FAILED : ST_CONNECTED;
}

/* A new incoming connection on listener id; returns the endpoint. */
int
sim_incoming(int lid)
{
	int id = newep(EP_STREAM);

	E[id]->state = ST_CONNECTED;
	if (E[lid]->npend == 256)
		abort();
	E[lid]->pend[E[lid]->npend++] = id;
	return (id);
}

int sim_listener_pending(int lid) { return (E[lid]->npend); }

/*
 * Run the event loop until nothing more can happen before (absolute virtual
 * time) until.  Returns the first non-zero value from events_run, or 0.
 */
int
sim_run(int64_t until)
{
	int rc;

	sim_until = until < sim_now ? sim_now : until;
	sim_idle = 0;
	sim_npoll_same = 0;
	while (!sim_idle) {
		if ((rc = events_run()) != 0)
			return (rc);
	}
	return (0);
}

/* One call of events_run, or of events_spin if done is not NULL. */
int
sim_once(int64_t until, int *done)
{

	sim_until = until < sim_now ? sim_now : until;
	sim_idle = 0;
	sim_npoll_same = 0;
	return (done == NULL ? events_run() : events_spin(done));
}

/* -------------------------------------------------------------- readiness */

static short
readiness(struct ep *e)
{
	short r = 0;

	if (e->kind == EP_LISTEN) {
		if (e->npend > 0 || acceptqpos < nacceptq)
			r |= POLLIN;
		return (r);
	}
	switch (e->state) {
	case ST_NEW:
		return (POLLOUT | POLLHUP);
	case ST_CONNECTING:
		return (0);
	case ST_FAILED:
		return (POLLIN | POLLOUT | POLLERR | POLLHUP);
	default:
		break;
	}
	if (e->rxlen > e->rxpos || e->rx_eof || e->rx_err || e->shut_rd)
		r |= POLLIN;
	if (e->txlen - e->txpos < e->txcap || e->tx_err || e->shut_wr)
		r |= POLLOUT;
	if (e->rx_err)
		r |= POLLERR;
	if ((e->rx_eof && e->shut_wr) || e->hup || (e->rx_err && e->tx_err))
		r |= POLLHUP;
	return (r);
}

int sim_ready(int id) { return (readiness(E[id])); }

int
__wrap_poll(struct pollfd *fds, nfds_t n, int timeout)
{
	nfds_t i;
	int ready, anyreal, b;
	struct pollfd one;
	int64_t t;

	if (!sim_enabled)
		return (__real_poll(fds, n, timeout));
	if (sysfault("poll", ENOMEM))
		return (-1);
	if (!inited)
		sim_reset();
	sim_npoll++;
	sim_npoll_same++;
	if (sim_npoll_same > sim_poll_limit) {
		sim_livelock = 1;
		sim_idle = 1;
		events_interrupt();
		errno = EINTR;
		return (-1);
	}
	if ((b = tape_next(&misct)) != -1 && b >= 240) {
		sim_n_eintr++;
		errno = EINTR;
		return (-1);
	}
again:
	ready = anyreal = 0;
	for (i = 0; i < n; i++) {
		fds[i].revents = 0;
		if (fds[i].fd < 0)
			continue;
		if (ISV(fds[i].fd)) {
			int id = fdmap[fds[i].fd - VFD_BASE];
			if (id == -1) {
				problem("poll on descriptor %d which is not open", fds[i].fd);
				fds[i].revents = POLLNVAL;
			} else {
				fds[i].revents = readiness(E[id]) & (fds[i].events | POLLERR | POLLHUP);
			}
		} else {
			anyreal = 1;
			one = fds[i];
			one.revents = 0;
			if (__real_poll(&one, 1, 0) > 0)
				fds[i].revents = one.revents;
		}
		if (fds[i].revents)
			ready++;
	}
	if (ready)
		return (ready);
	if (timeout == 0)
		return (0);
	if (anyreal && sim_realwait_ms > 0) {
		/* Give other threads some real time. */
		struct pollfd rf[64];
		int m = 0;

		for (i = 0; i < n && m < 64; i++)
			if (fds[i].fd >= 0 && !ISV(fds[i].fd))
				rf[m++] = fds[i];
		if (__real_poll(rf, (nfds_t)m, sim_realwait_ms) > 0)
			goto again;
	}
	/* Nothing is ready: let virtual time pass. */
	if (timeout < 0)
		t = INT64_MAX;
	else
		t = sim_now + (int64_t)timeout * 1000000 + sim_oversleep;
	if (t > sim_until) {
		if (sim_now < sim_until)
			sim_now = sim_until;
		sim_idle = 1;
		events_interrupt();
		errno = EINTR;
		return (-1);
	}
	sim_now = t;
	sim_npoll_same = 0;
	return (0);
}

int
__wrap_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *ss)
{
	int64_t ms;

	(void)ss;
	if (ts == NULL)
		return (__wrap_poll(fds, n, -1));
	ms = (int64_t)ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000;
	if (ms > INT32_MAX)
		ms = INT32_MAX;
	return (__wrap_poll(fds, n, (int)ms));
}

int
__wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
	struct pollfd p[1024];
	nfds_t m = 0, j;
	int i, ms = -1, rc;

	for (i = 0; i < n && i < 1024; i++) {
		short ev = 0;
		if (r && FD_ISSET(i, r)) ev |= POLLIN;
		if (w && FD_ISSET(i, w)) ev |= POLLOUT;
		if (ev) { p[m].fd = i; p[m].events = ev; p[m].revents = 0; m++; }
	}
	if (tv != NULL)
		ms = (int)(tv->tv_sec * 1000 + (tv->tv_usec + 999) / 1000);
	if ((rc = __wrap_poll(p, m, ms)) == -1)
		return (-1);
	if (r) FD_ZERO(r);
	if (w) FD_ZERO(w);
	if (x) FD_ZERO(x);
	rc = 0;
	for (j = 0; j < m; j++) {
		if (r && (p[j].events & POLLIN) && (p[j].revents & (POLLIN | POLLERR | POLLHUP))) { FD_SET(p[j].fd, r); rc++; }
		if (w && (p[j].events & POLLOUT) && (p[j].revents & (POLLOUT | POLLERR | POLLHUP))) { FD_SET(p[j].fd, w); rc++; }
	}
	return (rc);
}

/* ------------------------------------------------------------------ stream */

/* 32-byte stream of "OS randomness", xorshift-based, seeded by the driver. */
static uint64_t rngstate = 0x9E3779B97F4A7C15ULL;
int sim_rng_on = 0;
uint64_t sim_rng_bytes = 0;
int sim_rng_openerr = 0, sim_rng_closeerr = 0;
static uint8_t rnglog[1 << 16];
void sim_rng_seed(uint64_t s) { rngstate = s * 2 + 0x9E3779B97F4A7C15ULL; sim_rng_bytes = 0; }
size_t sim_rng_log(uint8_t *b, size_t n)
{
	if (n > sim_rng_bytes) n = sim_rng_bytes;
	if (n > sizeof(rnglog)) n = sizeof(rnglog);
	memcpy(b, rnglog, n);
	return (n);
}

static void
rngfill(uint8_t *b, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++) {
		rngstate ^= rngstate << 13;
		rngstate ^= rngstate >> 7;
		rngstate ^= rngstate << 17;
		b[i] = (uint8_t)((rngstate * 0x2545F4914F6CDD1DULL) >> 56);
		if (sim_rng_bytes < sizeof(rnglog))
			rnglog[sim_rng_bytes] = b[i];
		sim_rng_bytes++;
	}
}

/*
 * The library's own random numbers, as its other files ask for them.  Mode 0:
 * the real generator; 1: a stream determined by the case.  Either way requests
 * can be answered with queued bytes or made to fail.
 */
int crypto_entropy_read(uint8_t *, size_t);
int __real_crypto_entropy_read(uint8_t *, size_t);
int sim_ent_mode = 0;
int64_t sim_ent_fail_at = -1;
uint64_t sim_ent_calls = 0;
static uint64_t entstate = 1;
static struct { uint8_t b[64]; size_t n; } entq[64]; static int nentq, entqpos;
static uint8_t entlog[1 << 16]; static size_t nentlog;
void sim_ent_seed(uint64_t s) { entstate = s * 2 + 0xD1B54A32D192ED03ULL; nentq = entqpos = 0; nentlog = 0; sim_ent_fail_at = -1; sim_ent_calls = 0; }
void sim_ent_push(const uint8_t *p, size_t n) { if (nentq < 64 && n <= 64) { memcpy(entq[nentq].b, p, n); entq[nentq++].n = n; } }
size_t sim_ent_log(uint8_t *b, size_t n) { if (n > nentlog) n = nentlog; memcpy(b, entlog, n); return (n); }

int
__wrap_crypto_entropy_read(uint8_t *buf, size_t n)
{
	size_t i;

	sim_ent_calls++;
	if (sim_ent_fail_at >= 0 && sim_ent_fail_at-- == 0)
		return (-1);
	if (entqpos < nentq && entq[entqpos].n == n) {
		memcpy(buf, entq[entqpos++].b, n);
	} else if (sim_ent_mode == 0) {
		if (__real_crypto_entropy_read(buf, n))
			return (-1);
	} else {
		for (i = 0; i < n; i++) {
			entstate ^= entstate << 13;
			entstate ^= entstate >> 7;
			entstate ^= entstate << 17;
			buf[i] = (uint8_t)((entstate * 0x2545F4914F6CDD1DULL) >> 56);
		}
	}
	for (i = 0; i < n && nentlog < sizeof(entlog); i++)
		entlog[nentlog++] = buf[i];
	return (0);
}

static ssize_t
rngread(void *buf, size_t n)
{
	int b = tape_next(&rngt);

	/* 0: full; 1..199: that many bytes; 200: EOF; 201: EIO; 202: EINTR */
	if (b == 200)
		return (0);
	if (b == 201) { errno = EIO; return (-1); }
	if (b == 202) { errno = EINTR; return (-1); }
	if (b > 0 && b < 200 && (size_t)b < n)
		n = (size_t)b;
	rngfill(buf, n);
	return ((ssize_t)n);
}

static ssize_t
dorecv(int fd, void *buf, size_t n, int flags, const char *what)
{
	struct ep *e;
	size_t av;
	int b;

	if ((e = getep(fd, what)) == NULL)
		return (-1);
	if (e->kind == EP_RNG)
		return (rngread(buf, n));
	sim_n_recv++;
	e->ncalls_recv++;
	if (e->kind != EP_STREAM || (e->state != ST_CONNECTED && e->state != ST_FAILED)) {
		problem("%s on a socket which is not connected", what);
		errno = ENOTCONN;
		return (-1);
	}
	if (e->state == ST_FAILED) { errno = e->so_error ? e->so_error : ENOTCONN; return (-1); }
	b = tape_next(&iot);
	if (b == 255) { sim_n_eintr++; errno = EINTR; return (-1); }
	if (b == 254 && (e->nonblock || (flags & MSG_DONTWAIT))) { sim_n_eagain++; errno = EAGAIN; return (-1); }
	av = e->rxlen - e->rxpos;
	if (av == 0) {
		if (e->rx_err) {
			errno = e->rx_err;
			e->rx_err = 0;
			e->rx_eof = 1;
			return (-1);
		}
		if (e->rx_eof || e->shut_rd)
			return (0);
		if (!(e->nonblock || (flags & MSG_DONTWAIT)))
			problem("%s would block on a blocking socket", what);
		errno = EAGAIN;
		return (-1);
	}
	if (n == 0)
		return (0);
	if (n > av)
		n = av;
	if (b > 0 && b < 254) {
		/* b == 1..200: at most b bytes; 201..253: larger limits */
		size_t lim = b <= 200 ? (size_t)b : (size_t)(b - 200) * 97;
		if (lim < n && !(flags & MSG_WAITALL)) { n = lim; sim_n_partial++; }
	}
	memcpy(buf, e->rx + e->rxpos, n);
	if (!(flags & MSG_PEEK))
		e->rxpos += n;
	return ((ssize_t)n);
}

static ssize_t
dosend(int fd, const void *buf, size_t n, int flags, const char *what)
{
	struct ep *e;
	size_t sp;
	int b;

	if ((e = getep(fd, what)) == NULL)
		return (-1);
	sim_n_send++;
	e->ncalls_send++;
	if (e->kind != EP_STREAM || (e->state != ST_CONNECTED && e->state != ST_FAILED)) {
		problem("%s on a socket which is not connected", what);
		errno = ENOTCONN;
		return (-1);
	}
	if (e->state == ST_FAILED) { errno = EPIPE; goto epipe; }
	b = tape_next(&iot);
	if (b == 255) { sim_n_eintr++; errno = EINTR; return (-1); }
	if (b == 254 && (e->nonblock || (flags & MSG_DONTWAIT))) { sim_n_eagain++; errno = EAGAIN; return (-1); }
	if (e->shut_wr) { errno = EPIPE; goto epipe; }
	if (e->tx_err) {
		errno = e->tx_err;
		if (errno != EPIPE)
			e->tx_err = EPIPE;
		if (errno == EPIPE)
			goto epipe;
		return (-1);
	}
	sp = e->txlen - e->txpos < e->txcap ? e->txcap - (e->txlen - e->txpos) : 0;
	if (sp == 0) {
		if (!(e->nonblock || (flags & MSG_DONTWAIT)))
			problem("%s would block on a blocking socket", what);
		errno = EAGAIN;
		return (-1);
	}
	if (n > sp)
		n = sp;
	if (b > 0 && b < 254) {
		size_t lim = b <= 200 ? (size_t)b : (size_t)(b - 200) * 97;
		if (lim < n) { n = lim; sim_n_partial++; }
	}
	append(&e->tx, &e->txlen, &e->txalloc, buf, n);
	return ((ssize_t)n);
epipe:
	if (!(flags & MSG_NOSIGNAL)) {
		/* The process could have been killed by SIGPIPE. */
		struct sigaction sa;
		if (sigaction(SIGPIPE, NULL, &sa) == 0 && sa.sa_handler == SIG_DFL) {
			problem("%s to a closed peer would raise SIGPIPE", what);
			errno = EPIPE;
		}
	}
	errno = EPIPE;
	return (-1);
}

ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return (ISV(fd) ? sysfault("recv", ENOBUFS) ? -1 : dorecv(fd, b, n, f, "recv") : __real_recv(fd, b, n, f)); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *sa, socklen_t *sl) { (void)sa; (void)sl; return (__wrap_recv(fd, b, n, f)); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return (ISV(fd) ? sysfault("read", ENOBUFS) ? -1 : dorecv(fd, b, n, 0, "read") : __real_read(fd, b, n)); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return (ISV(fd) ? sysfault("send", ENOBUFS) ? -1 : dosend(fd, b, n, f, "send") : __real_send(fd, b, n, f)); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *sa, socklen_t sl) { (void)sa; (void)sl; return (__wrap_send(fd, b, n, f)); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return (ISV(fd) ? sysfault("write", ENOBUFS) ? -1 : dosend(fd, b, n, 0, "write") : __real_write(fd, b, n)); }

ssize_t
__wrap_readv(int fd, const struct iovec *iov, int c)
{
	ssize_t t = 0, r;
	int i;

	for (i = 0; i < c; i++) {
		if ((r = __wrap_read(fd, iov[i].iov_base, iov[i].iov_len)) < 0)
			return (t ? t : -1);
		t += r;
		if ((size_t)r < iov[i].iov_len)
			break;
	}
	return (t);
}

ssize_t
__wrap_writev(int fd, const struct iovec *iov, int c)
{
	ssize_t t = 0, r;
	int i;

	for (i = 0; i < c; i++) {
		if ((r = __wrap_write(fd, iov[i].iov_base, iov[i].iov_len)) < 0)
			return (t ? t : -1);
		t += r;
		if ((size_t)r < iov[i].iov_len)
			break;
	}
	return (t);
}

/* ------------------------------------------------------------------ sockets */

int
__wrap_accept4(int fd, struct sockaddr *sa, socklen_t *sl, int flags)
{
	struct ep *e;
	int id, nfd, err;

	if (!ISV(fd))
		return (flags ? accept4(fd, sa, sl, flags) : __real_accept(fd, sa, sl));
	if (sysfault("accept", ENFILE))
		return (-1);
	if ((e = getep(fd, "accept")) == NULL)
		return (-1);
	if (e->kind != EP_LISTEN) { errno = EINVAL; return (-1); }
	if (acceptqpos < nacceptq) {
		err = acceptq[acceptqpos++];
		if (err == ECONNABORTED && e->npend > 0 && E[e->pend[0]]->hup) {
			memmove(e->pend, e->pend + 1, (size_t)(--e->npend) * sizeof(int));
		}
		if (err) { errno = err; return (-1); }
	}
	if (e->npend == 0) {
		if (!e->nonblock)
			problem("accept would block");
		errno = EAGAIN;
		return (-1);
	}
	id = e->pend[0];
	if ((nfd = allocfd(id)) == -1) { errno = EMFILE; return (-1); }
	memmove(e->pend, e->pend + 1, (size_t)(--e->npend) * sizeof(int));
	E[id]->nonblock = (flags & SOCK_NONBLOCK) ? 1 : 0;
	E[id]->seq_create = ++sim_seq;
	if (sa && sl && *sl > 0) {
		struct sockaddr_in sin;
		memset(&sin, 0, sizeof(sin));
		sin.sin_family = AF_INET;
		memcpy(sa, &sin, *sl < sizeof(sin) ? *sl : sizeof(sin));
		*sl = sizeof(sin);
	}
	return (nfd);
}

int __wrap_accept(int fd, struct sockaddr *sa, socklen_t *sl) { return (__wrap_accept4(fd, sa, sl, 0)); }

int
__wrap_socket(int domain, int type, int proto)
{
	int id, fd;

	if (!sim_enabled)
		return (__real_socket(domain, type, proto));
	if (sysfault("socket", EMFILE))
		return (-1);
	if (sockqpos < nsockq) {
		int e = sockq[sockqpos++];
		if (e) { errno = e; return (-1); }
	}
	if (conncb != NULL) {
		int e = conncb(0, domain, NULL, 0);
		if (e > 0) { errno = e; return (-1); }
	}
	id = newep(EP_STREAM);
	E[id]->domain = domain;
	E[id]->type = type & ~(SOCK_NONBLOCK | SOCK_CLOEXEC);
	E[id]->proto = proto;
	E[id]->nonblock = (type & SOCK_NONBLOCK) ? 1 : 0;
	if ((fd = allocfd(id)) == -1) { errno = EMFILE; return (-1); }
	return (fd);
}

int
__wrap_bind(int fd, const struct sockaddr *sa, socklen_t sl)
{
	struct ep *e;

	if (!ISV(fd))
		return (__real_bind(fd, sa, sl));
	if (sysfault("bind", EADDRINUSE))
		return (-1);
	if ((e = getep(fd, "bind")) == NULL)
		return (-1);
	if (bindqpos < nbindq) {
		int r = bindq[bindqpos++];
		if (r) { errno = r; return (-1); }
	}
	if (sl > sizeof(e->bound)) { errno = EINVAL; return (-1); }
	if (conncb != NULL) {
		int r = conncb(1, fdmap[fd - VFD_BASE], sa, (int)sl);
		if (r > 0) { errno = r; return (-1); }
	}
	if (e->state != ST_NEW)
		problem("bind after connect");
	memcpy(&e->bound, sa, sl);
	e->boundlen = sl;
	return (0);
}

int
__wrap_listen(int fd, int n)
{
	struct ep *e;

	if (!ISV(fd))
		return (__real_listen(fd, n));
	if (sysfault("listen", EADDRINUSE))
		return (-1);
	if ((e = getep(fd, "listen")) == NULL)
		return (-1);
	e->kind = EP_LISTEN;
	e->backlog = n;
	return (0);
}

int
__wrap_connect(int fd, const struct sockaddr *sa, socklen_t sl)
{
	struct ep *e;
	int out = sim_connect_default;

	if (!ISV(fd))
		return (__real_connect(fd, sa, sl));
	if (sysfault("connect", ENOBUFS))
		return (-1);
	if ((e = getep(fd, "connect")) == NULL)
		return (-1);
	if (e->state == ST_CONNECTED) { errno = EISCONN; return (-1); }
	if (e->state == ST_CONNECTING) { errno = EALREADY; return (-1); }
	if (sl > sizeof(e->peer)) { errno = EINVAL; return (-1); }
	memcpy(&e->peer, sa, sl);
	e->peerlen = sl;
	if (nconnlog < MAXEP)
		connlog[nconnlog++] = (int)(fdmap[fd - VFD_BASE]);
	if (connqpos < nconnq)
		out = connq[connqpos++];
	if (conncb != NULL) {
		int r = conncb(2, fdmap[fd - VFD_BASE], sa, (int)sl);
		if (r >= 0)
			out = r;
	}
	if (out == 0) {
		e->state = ST_CONNECTED;
		return (0);
	}
	if (out == EINPROGRESS || out == EINTR) {
		if (!e->nonblock)
			problem("connect would block");
		e->state = ST_CONNECTING;
		errno = out;
		return (-1);
	}
	if (out == EAGAIN) {	/* e.g. UNIX socket with a full backlog */
		errno = out;
		return (-1);
	}
	e->state = ST_FAILED;
	errno = out;
	return (-1);
}

int
__wrap_close(int fd)
{
	struct ep *e;

	if (!ISV(fd))
		return (__real_close(fd));
	if ((e = getep(fd, "close")) == NULL)
		return (-1);
	if (e->kind == EP_RNG && sim_rng_closeerr) {
		int er = sim_rng_closeerr;
		sim_rng_closeerr = 0;
		if (er != EINTR) { fdmap[fd - VFD_BASE] = -1; e->closed = 1; }
		errno = er;
		return (-1);
	}
	e->closed = 1;
	e->seq_close = ++sim_seq;
	e->fd = -1;
	fdmap[fd - VFD_BASE] = -1;
	return (0);
}

int
__wrap_shutdown(int fd, int how)
{
	struct ep *e;

	if (!ISV(fd))
		return (__real_shutdown(fd, how));
	if (sysfault("shutdown", ENOBUFS))
		return (-1);
	if ((e = getep(fd, "shutdown")) == NULL)
		return (-1);
	if (e->state != ST_CONNECTED || e->hup) { errno = ENOTCONN; return (-1); }
	if (how == SHUT_WR || how == SHUT_RDWR) {
		if (!e->shut_wr)
			e->seq_shutwr = ++sim_seq;
		e->shut_wr = 1;
	}
	if (how == SHUT_RD || how == SHUT_RDWR)
		e->shut_rd = 1;
	return (0);
}

int
__wrap_getsockopt(int fd, int level, int opt, void *v, socklen_t *l)
{
	struct ep *e;
	int r = 0;

	if (!ISV(fd))
		return (__real_getsockopt(fd, level, opt, v, l));
	if (sysfault("getsockopt", ENOBUFS))
		return (-1);
	if ((e = getep(fd, "getsockopt")) == NULL)
		return (-1);
	if (level == SOL_SOCKET && opt == SO_ERROR) {
		r = e->so_error;
		e->so_error = 0;
	} else if (level == SOL_SOCKET && opt == SO_TYPE)
		r = e->type;
	else if (level == SOL_SOCKET && opt == SO_KEEPALIVE)
		r = e->keepalive == 1;
	if (*l >= sizeof(int)) {
		memcpy(v, &r, sizeof(int));
		*l = sizeof(int);
	}
	return (0);
}

int
__wrap_setsockopt(int fd, int level, int opt, const void *v, socklen_t l)
{
	struct ep *e;
	int x = 0;

	if (!ISV(fd))
		return (__real_setsockopt(fd, level, opt, v, l));
	if (sysfault("setsockopt", ENOBUFS))
		return (-1);
	if ((e = getep(fd, "setsockopt")) == NULL)
		return (-1);
	if (l >= sizeof(int))
		memcpy(&x, v, sizeof(int));
	if (level == SOL_SOCKET && sim_setsockopt_errno) { errno = sim_setsockopt_errno; return (-1); }
	if (level == SOL_SOCKET && opt == SO_REUSEADDR && e->boundlen == 0)
		e->reuse = x ? 1 : 0;
	if (level == SOL_SOCKET && opt == SO_KEEPALIVE)
		e->keepalive = x ? 1 : 0;
	if (level == IPPROTO_TCP && opt == TCP_NODELAY)
		e->nodelay = x ? 1 : 0;
	if (e->domain == AF_UNIX && level == IPPROTO_TCP) { errno = EOPNOTSUPP; return (-1); }
	return (0);
}

int
__wrap_fcntl(int fd, int cmd, ...)
{
	va_list ap;
	long arg;
	struct ep *e;

	va_start(ap, cmd);
	arg = va_arg(ap, long);
	va_end(ap);
	if (!ISV(fd))
		return (__real_fcntl(fd, cmd, arg));
	if (sysfault("fcntl", EINVAL))
		return (-1);
	if ((e = getep(fd, "fcntl")) == NULL)
		return (-1);
	if (cmd == F_GETFL)
		return (O_RDWR | (e->nonblock ? O_NONBLOCK : 0));
	if (cmd == F_SETFL) {
		e->nonblock = (arg & O_NONBLOCK) ? 1 : 0;
		return (0);
	}
	return (0);
}

/* ------------------------------------------------------------------- clock */

int
__wrap_clock_gettime(clockid_t c, struct timespec *tp)
{
	if (!sim_enabled)
		return (__real_clock_gettime(c, tp));
	if (sysfault("clock", EFAULT))
		return (-1);
	if (sim_clock_fail) { errno = EPERM; return (-1); }
	{
		int64_t t = sim_now + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? sim_wallskew : 0);

		tp->tv_sec = t / 1000000000LL;
		tp->tv_nsec = t % 1000000000LL;
	}
	sim_now += sim_clockstep;
	return (0);
}

int
__wrap_gettimeofday(struct timeval *tv, void *tz)
{
	if (!sim_enabled)
		return (__real_gettimeofday(tv, tz));
	tv->tv_sec = (sim_now + sim_wallskew) / 1000000000LL;
	tv->tv_usec = ((sim_now + sim_wallskew) % 1000000000LL) / 1000;
	sim_now += sim_clockstep;
	return (0);
}

time_t
__wrap_time(time_t *t)
{
	time_t r;

	if (!sim_enabled)
		return (__real_time(t));
	r = (sim_now + sim_wallskew) / 1000000000LL;
	if (t)
		*t = r;
	return (r);
}

/* ----------------------------------------------------------------- entropy */

int sim_open_count = 0;

int
__wrap_open(const char *path, int flags, ...)
{
	va_list ap;
	int mode = 0, id;

	if (flags & O_CREAT) {
		va_start(ap, flags);
		mode = va_arg(ap, int);
		va_end(ap);
	}
	if (sim_rng_on && (strcmp(path, "/dev/urandom") == 0 || strcmp(path, "/dev/random") == 0)) {
		sim_open_count++;
		if (sim_rng_openerr) { errno = sim_rng_openerr; return (-1); }
		id = newep(EP_RNG);
		return (allocfd(id));
	}
	return (__real_open(path, flags, mode));
}

ssize_t
__wrap_getrandom(void *b, size_t n, unsigned f)
{
	if (!sim_rng_on)
		return (__real_getrandom(b, n, f));
	if (sim_rng_openerr) { errno = sim_rng_openerr; return (-1); }
	return (rngread(b, n));
}

int
__wrap_getentropy(void *b, size_t n)
{
	if (!sim_rng_on)
		return (__real_getentropy(b, n));
	if (sim_rng_openerr) { errno = sim_rng_openerr; return (-1); }
	rngfill(b, n);
	return (0);
}

/* ------------------------------------------------------------ name lookups */

/* Driver-supplied resolver: called from whichever thread resolves. */
typedef int (*gai_cb)(const char *, const char *, int, struct sockaddr_storage *, socklen_t *, int);
static gai_cb gai;		/* returns number of results or -EAI_* */
int sim_gai_live = 0;
void sim_set_gai(gai_cb f) { gai = f; }

struct fakeai { struct addrinfo ai; struct sockaddr_storage ss; int magic; };

int
__wrap_getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **res)
{
	struct sockaddr_storage ss[16];
	socklen_t sl[16];
	struct addrinfo *head = NULL, **tail = &head;
	int n, i;

	if (gai == NULL || (h != NULL && (h->ai_flags & AI_NUMERICHOST)))
		return (__real_getaddrinfo(node, svc, h, res));
	n = gai(node, svc, h ? h->ai_family : 0, ss, sl, 16);
	if (n < 0)
		return (n);
	for (i = 0; i < n; i++) {
		struct fakeai *f = __real_calloc(1, sizeof(*f));
		f->magic = 0x5a5a;
		memcpy(&f->ss, &ss[i], sl[i]);
		f->ai.ai_family = ((struct sockaddr *)&ss[i])->sa_family;
		f->ai.ai_socktype = h && h->ai_socktype ? h->ai_socktype : SOCK_STREAM;
		f->ai.ai_addrlen = sl[i];
		f->ai.ai_addr = (struct sockaddr *)&f->ss;
		*tail = &f->ai;
		tail = &f->ai.ai_next;
	}
	__sync_fetch_and_add(&sim_gai_live, 1);
	*res = head;
	return (0);
}

void
__wrap_freeaddrinfo(struct addrinfo *ai)
{
	if (gai == NULL) { __real_freeaddrinfo(ai); return; }
	if (ai != NULL && ((struct fakeai *)ai)->magic != 0x5a5a) { __real_freeaddrinfo(ai); return; }
	__sync_fetch_and_sub(&sim_gai_live, 1);
	while (ai != NULL) {
		struct addrinfo *n = ai->ai_next;
		__real_free(ai);
		ai = n;
	}
}

/* ---------------------------------------------------------------- allocator */

static pthread_mutex_t amtx = PTHREAD_MUTEX_INITIALIZER;
#define TBL (1 << 18)
static struct { void *p; size_t n; uint64_t seq; } tbl[TBL];
static size_t ntbl;
int sim_alloc_track = 0;
int64_t sim_alloc_live = 0, sim_alloc_bytes = 0;
uint64_t sim_alloc_count = 0;		/* number of allocation calls so far */
int64_t sim_alloc_fail_at = -1;		/* fail when this many more have been made */
int sim_alloc_fail_persist = 0;
uint64_t sim_alloc_failed = 0;

#define MAXSEC 256
static uint8_t sec[MAXSEC][64]; static size_t seclen[MAXSEC]; static int nsec;
static int secret_hits[MAXSEC];
uint64_t sim_frees_scanned = 0, sim_bytes_scanned = 0;
void sim_secrets_clear(void) { nsec = 0; memset(secret_hits, 0, sizeof(secret_hits)); }
int sim_secret_add(const uint8_t *p, size_t n)
{
	if (nsec == MAXSEC || n > 64) return (-1);
	memcpy(sec[nsec], p, n); seclen[nsec] = n; secret_hits[nsec] = 0;
	return (nsec++);
}
int sim_secret_hits(int i) { return (secret_hits[i]); }

static void
scan(const void *p, size_t n)
{
	int i;

	if (nsec == 0)
		return;
	sim_frees_scanned++;
	sim_bytes_scanned += n;
	for (i = 0; i < nsec; i++)
		if (n >= seclen[i] && memmem(p, n, sec[i], seclen[i]) != NULL)
			secret_hits[i]++;
}

/* Is this secret anywhere in live tracked memory?  Counts occurrences. */
int
sim_secret_live(const uint8_t *p, size_t n)
{
	size_t i;
	int hits = 0;

	pthread_mutex_lock(&amtx);
	for (i = 0; i < TBL; i++)
		if (tbl[i].p && tbl[i].p != (void *)1 && tbl[i].n >= n &&
		    memmem(tbl[i].p, tbl[i].n, p, n))
			hits++;
	pthread_mutex_unlock(&amtx);
	return (hits);
}

static size_t
hashp(void *p)
{
	return (((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 40) & (TBL - 1);
}

static void
tadd(void *p, size_t n)
{
	size_t h;

	if (p == NULL)
		return;
	pthread_mutex_lock(&amtx);
	if (ntbl < TBL / 2) {
		for (h = hashp(p); tbl[h].p && tbl[h].p != (void *)1; h = (h + 1) & (TBL - 1))
			continue;
		tbl[h].p = p;
		tbl[h].n = n;
		tbl[h].seq = sim_alloc_count;
		ntbl++;
		sim_alloc_live++;
		sim_alloc_bytes += (int64_t)n;
	}
	pthread_mutex_unlock(&amtx);
}

static size_t
tdel(void *p)
{
	size_t h, n = 0;

	if (p == NULL)
		return (0);
	pthread_mutex_lock(&amtx);
	for (h = hashp(p); tbl[h].p; h = (h + 1) & (TBL - 1))
		if (tbl[h].p == p) {
			sim_alloc_live--;
			n = tbl[h].n;
			sim_alloc_bytes -= (int64_t)n;
			tbl[h].p = (void *)1;
			ntbl--;
			if (tbl[(h + 1) & (TBL - 1)].p == NULL) {
				/* No chain goes on: drop the tombstones before it too. */
				for (; tbl[h].p == (void *)1; h = (h - 1) & (TBL - 1))
					tbl[h].p = NULL;
			}
			break;
		}
	pthread_mutex_unlock(&amtx);
	return (n);
}

static int
shouldfail(void)
{
	uint64_t c = __sync_fetch_and_add(&sim_alloc_count, 1);

	(void)c;
	if (sim_alloc_fail_at < 0)
		return (0);
	if (sim_alloc_fail_at == 0) {
		if (!sim_alloc_fail_persist)
			sim_alloc_fail_at = -1;
		sim_alloc_failed++;
		errno = ENOMEM;
		return (1);
	}
	sim_alloc_fail_at--;
	return (0);
}

void *
__wrap_malloc(size_t n)
{
	void *p;

	if (shouldfail())
		return (NULL);
	p = __real_malloc(n);
	if (sim_alloc_track)
		tadd(p, n);
	return (p);
}

void *
__wrap_calloc(size_t a, size_t b)
{
	void *p;

	if (shouldfail())
		return (NULL);
	p = __real_calloc(a, b);
	if (sim_alloc_track)
		tadd(p, a * b);
	return (p);
}

void
__wrap_free(void *p)
{
	if (p == NULL) {
		__real_free(p);
		return;
	}
	if (nsec)
		scan(p, malloc_usable_size(p));
	if (sim_alloc_track)
		tdel(p);
	__real_free(p);
}

void *
__wrap_realloc(void *p, size_t n)
{
	void *q;
	size_t o;

	if (shouldfail())
		return (NULL);
	if (p != NULL && nsec) {
		/* May move: the old copy is then freed by the allocator. */
		o = malloc_usable_size(p);
		if ((q = __real_malloc(n ? n : 1)) == NULL)
			return (NULL);
		memcpy(q, p, o < n ? o : n);
		scan(p, o);
		if (sim_alloc_track) { tdel(p); tadd(q, n); }
		__real_free(p);
		return (q);
	}
	o = 0;
	if (sim_alloc_track && p)
		o = tdel(p);
	q = __real_realloc(p, n);
	if (sim_alloc_track) {
		if (q)
			tadd(q, n);
		else if (p && n)
			tadd(p, o);
	}
	return (q);
}

char *
__wrap_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = __wrap_malloc(n);

	if (p)
		memcpy(p, s, n);
	return (p);
}

char *
__wrap_strndup(const char *s, size_t m)
{
	size_t n = strnlen(s, m);
	char *p = __wrap_malloc(n + 1);

	if (p) {
		memcpy(p, s, n);
		p[n] = 0;
	}
	return (p);
}

int
__wrap_posix_memalign(void **pp, size_t a, size_t n)
{
	int r;

	if (shouldfail())
		return (ENOMEM);
	r = __real_posix_memalign(pp, a, n);
	if (r == 0 && sim_alloc_track)
		tadd(*pp, n);
	return (r);
}

void *
__wrap_aligned_alloc(size_t a, size_t n)
{
	void *p;

	if (shouldfail())
		return (NULL);
	p = __real_aligned_alloc(a, n);
	if (sim_alloc_track)
		tadd(p, n);
	return (p);
}

/* BIGNUMs which are released without being cleared. */
static void
scanbn(const BIGNUM *b)
{
	uint8_t buf[1024];
	int n;

	if (nsec == 0 || b == NULL || (n = BN_num_bytes(b)) > (int)sizeof(buf))
		return;
	BN_bn2bin(b, buf);
	scan(buf, (size_t)n);
}

int64_t sim_bn_frees = 0;
void __wrap_BN_free(BIGNUM *b) { if (b) sim_bn_frees++; scanbn(b); __real_BN_free(b); }
void __wrap_BN_clear_free(BIGNUM *b) { if (b) sim_bn_frees++; __real_BN_clear_free(b); }

/* ------------------------------------------------------------- privileges */

int sim_priv_on = 0;
enum { P_SETGROUPS = 1, P_SETGID, P_SETUID, P_SETEGID, P_SETEUID, P_SETREGID, P_SETREUID, P_SETRESGID, P_SETRESUID, P_INITGROUPS, P_GETGROUPS, P_GETPWNAM, P_GETGRNAM };
static int perr[16];		/* errno to return for each kind, 0 = succeed */
static int perr_skip[16];	/* after so many successful calls */
static long pgroups_n; static gid_t pgroups[64];
static uid_t puid[3]; static gid_t pgid[3];	/* real, effective, saved */
struct pname { char name[64]; uint32_t id; };
static struct pname pusers[16], pgrps[16]; static int npusers, npgrps;
int sim_priv_setgroups_noop = 0;

void sim_priv_reset(uint32_t uid, uint32_t gid)
{
	memset(perr, 0, sizeof(perr)); memset(perr_skip, 0, sizeof(perr_skip)); pgroups_n = 0; npusers = npgrps = 0;
	puid[0] = puid[1] = puid[2] = uid; pgid[0] = pgid[1] = pgid[2] = gid;
	sim_priv_setgroups_noop = 0;
}
void sim_priv_err(int what, int e, int skip) { perr[what] = e; perr_skip[what] = skip; }
void sim_priv_group(uint32_t g) { pgroups[pgroups_n++] = g; }
void sim_priv_name(int grp, const char *name, uint32_t id)
{
	struct pname *p = grp ? &pgrps[npgrps++] : &pusers[npusers++];
	snprintf(p->name, sizeof(p->name), "%s", name); p->id = id;
}
/* uids, gids, number of groups, groups */
int sim_priv_state(uint32_t *o)
{
	long i;
	for (i = 0; i < 3; i++) { o[i] = puid[i]; o[3 + i] = pgid[i]; }
	for (i = 0; i < pgroups_n; i++) o[6 + i] = pgroups[i];
	return ((int)pgroups_n);
}

static int
pfail(int what)
{
	if (perr[what]) {
		if (perr_skip[what] > 0) { perr_skip[what]--; return (0); }
		errno = perr[what];
		return (1);
	}
	return (0);
}

/* The kernel's rules (without capabilities other than root's). */
static int
setres(uint32_t *c, uint32_t r, uint32_t e, uint32_t s)
{
	uint32_t n[3] = { r, e, s };
	int i;

	for (i = 0; i < 3; i++) {
		if (n[i] != (uint32_t)-1 && puid[1] != 0 && n[i] != c[0] && n[i] != c[1] && n[i] != c[2]) { errno = EPERM; return (-1); }
	}
	for (i = 0; i < 3; i++)
		if (n[i] != (uint32_t)-1) c[i] = n[i];
	return (0);
}

static int
setone(uint32_t *c, uint32_t v)
{
	if (v == (uint32_t)-1) { errno = EINVAL; return (-1); }
	if (puid[1] == 0) { c[0] = c[1] = c[2] = v; return (0); }
	if (v == c[0] || v == c[2]) { c[1] = v; return (0); }
	errno = EPERM;
	return (-1);
}

static int
setre(uint32_t *c, uint32_t r, uint32_t e)
{
	int ch = (r != (uint32_t)-1) || (e != (uint32_t)-1 && e != c[0]);
	if (setres(c, r, e, -1)) return (-1);
	if (ch) c[2] = c[1];
	return (0);
}

int __wrap_setgroups(size_t n, const gid_t *g)
{
	if (!sim_priv_on) return (__real_setgroups(n, g));
	if (pfail(P_SETGROUPS)) return (-1);
	if (puid[1] != 0) { errno = EPERM; return (-1); }
	if (!sim_priv_setgroups_noop) { pgroups_n = (long)n; for (size_t i = 0; i < n && i < 64; i++) pgroups[i] = g[i]; }
	return (0);
}
int __wrap_initgroups(const char *u, gid_t g)
{
	if (!sim_priv_on) return (__real_initgroups(u, g));
	if (pfail(P_INITGROUPS)) return (-1);
	if (puid[1] != 0) { errno = EPERM; return (-1); }
	pgroups_n = 1; pgroups[0] = g;
	return (0);
}
int __wrap_setgid(gid_t g) { if (!sim_priv_on) return (__real_setgid(g)); return (pfail(P_SETGID) ? -1 : setone(pgid, g)); }
int __wrap_setuid(uid_t u) { if (!sim_priv_on) return (__real_setuid(u)); return (pfail(P_SETUID) ? -1 : setone(puid, u)); }
int __wrap_setegid(gid_t g) { if (!sim_priv_on) return (__real_setegid(g)); return (pfail(P_SETEGID) ? -1 : setres(pgid, -1, g, -1)); }
int __wrap_seteuid(uid_t u) { if (!sim_priv_on) return (__real_seteuid(u)); return (pfail(P_SETEUID) ? -1 : setres(puid, -1, u, -1)); }
int __wrap_setregid(gid_t a, gid_t b) { if (!sim_priv_on) return (__real_setregid(a, b)); return (pfail(P_SETREGID) ? -1 : setre(pgid, a, b)); }
int __wrap_setreuid(uid_t a, uid_t b) { if (!sim_priv_on) return (__real_setreuid(a, b)); return (pfail(P_SETREUID) ? -1 : setre(puid, a, b)); }
int __wrap_setresgid(gid_t a, gid_t b, gid_t c) { if (!sim_priv_on) return (__real_setresgid(a, b, c)); return (pfail(P_SETRESGID) ? -1 : setres(pgid, a, b, c)); }
int __wrap_setresuid(uid_t a, uid_t b, uid_t c) { if (!sim_priv_on) return (__real_setresuid(a, b, c)); return (pfail(P_SETRESUID) ? -1 : setres(puid, a, b, c)); }
uid_t __real_getuid(void); uid_t __real_geteuid(void); gid_t __real_getgid(void); gid_t __real_getegid(void);
uid_t __wrap_getuid(void) { return (sim_priv_on ? puid[0] : __real_getuid()); }
uid_t __wrap_geteuid(void) { return (sim_priv_on ? puid[1] : __real_geteuid()); }
gid_t __wrap_getgid(void) { return (sim_priv_on ? pgid[0] : __real_getgid()); }
gid_t __wrap_getegid(void) { return (sim_priv_on ? pgid[1] : __real_getegid()); }

int
__wrap_getgroups(int n, gid_t *g)
{
	long i;

	if (!sim_priv_on)
		return (__real_getgroups(n, g));
	if (pfail(P_GETGROUPS)) return (-1);
	if (n == 0)
		return ((int)pgroups_n);
	if (n < pgroups_n) { errno = EINVAL; return (-1); }
	for (i = 0; i < pgroups_n; i++)
		g[i] = pgroups[i];
	return ((int)pgroups_n);
}

struct group *
__wrap_getgrnam(const char *s)
{
	static struct group g;
	int i;

	if (!sim_priv_on)
		return (__real_getgrnam(s));
	if (pfail(P_GETGRNAM)) return (NULL);
	for (i = 0; i < npgrps; i++) {
		if (strcmp(s, pgrps[i].name)) continue;
		memset(&g, 0, sizeof(g));
		g.gr_name = pgrps[i].name;
		g.gr_gid = pgrps[i].id;
		errno = ENOTTY;		/* (errno means nothing after success.) */
		return (&g);
	}
	return (NULL);
}

struct passwd *
__wrap_getpwnam(const char *s)
{
	static struct passwd p;
	int i;

	if (!sim_priv_on)
		return (__real_getpwnam(s));
	if (pfail(P_GETPWNAM)) return (NULL);
	for (i = 0; i < npusers; i++) {
		if (strcmp(s, pusers[i].name)) continue;
		memset(&p, 0, sizeof(p));
		p.pw_name = pusers[i].name;
		p.pw_uid = pusers[i].id;
		p.pw_gid = 54321;
		errno = ENOTTY;
		return (&p);
	}
	return (NULL);
}
