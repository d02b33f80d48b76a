From d191cf265fddc8d3debed8d2560fc2afbfc1e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 01/11] fix: sock_resolve: accept port number 0

sock_addr_ensure_port adds ":0" to a bind address without port number, as
documented for -b, but sock_resolve refused port number 0 for numeric
addresses, so "-b [127.0.0.1]" could not be used.
---
 libcperciva/util/sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/sock.c b/libcperciva/util/sock.c
index f86aea2..5b24c2c 100644
--- a/libcperciva/util/sock.c
+++ b/libcperciva/util/sock.c
@@ -280,7 +280,7 @@ sock_resolve(const char * addr)
 	ips[strlen(ips) - 1] = '\0';
 
 	/* Parse the port number in base 10, no trailing characters. */
-	if (PARSENUM_EX(&p, ports, 1, 65535, 10, 0)) {
+	if (PARSENUM_EX(&p, ports, 0, 65535, 10, 0)) {
 		warn0("Invalid port number: %s", ports);
 		goto err1;
 	}
-- 
2.43.0


From 52b7db0f610ad489777e320dde6db8de86014c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 02/11] fix: spiped: do not crash if the dispatcher was never
 started

If dropping privileges (-u) or dispatch_accept fails, there is no dispatcher
to shut down; spiped dereferenced a NULL pointer instead of exiting.
---
 spiped/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spiped/main.c b/spiped/main.c
index 60110b2..80b3f10 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -391,7 +391,8 @@ main(int argc, char * argv[])
 	exit(0);
 
 err7:
-	dispatch_shutdown(dispatch_cookie);
+	if (dispatch_cookie != NULL)
+		dispatch_shutdown(dispatch_cookie);
 err6:
 	if ((s != -1) && close(s))
 		warnp("close");
-- 
2.43.0


From da7d6e481e1d97b18ee9db28a7c26190e54e2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 03/11] fix: PARSENUM: refuse negative numbers for unsigned
 types

strtoumax(3) negates numbers with a minus sign in the unsigned type, so e.g.
"-n -5" was taken as 18446744073709551611 although it is not between the
minimum and maximum.
---
 libcperciva/util/parsenum.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..6e10311 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -2,6 +2,7 @@
 #define PARSENUM_H_
 
 #include <assert.h>
+#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <math.h>
@@ -180,16 +181,22 @@ static inline uintmax_t
 parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
     uintmax_t typemax, int base, int trailing)
 {
+	const char * p;
 	char * eptr;
 	uintmax_t val;
 
 	/* Sanity check. */
 	assert(s != NULL);
 
+	/* Find the sign (if any). */
+	for (p = s; isspace((unsigned char)(*p)); p++)
+		continue;
+
 	val = strtoumax(s, &eptr, base);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max) || (val > typemax))
+	else if ((val < min) || (val > max) || (val > typemax) ||
+	    ((*p == '-') && (val != 0)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From 7ed1699d9e0695545884db963c22a70a9a95c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 04/11] fix: events_timer_register_double: cap huge timeouts

Converting a double which does not fit (e.g. the infinity accepted by -o and
-r) to time_t is undefined; on amd64 it gave a time in the distant past, so
that "-o inf" made every connection time out at once.
---
 libcperciva/events/events_timer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libcperciva/events/events_timer.c b/libcperciva/events/events_timer.c
index e4033bc..09f66bd 100644
--- a/libcperciva/events/events_timer.c
+++ b/libcperciva/events/events_timer.c
@@ -9,6 +9,9 @@
 #include "events.h"
 #include "events_internal.h"
 
+/* Longest timeout which events_timer_register_double() uses: ~31 years. */
+#define MAXTIMEO 1000000000.0
+
 struct timerrec {
 	struct eventrec * r;
 	void * cookie;
@@ -105,6 +108,10 @@ events_timer_register_double(int (* func)(void *), void * cookie,
 {
 	struct timeval tv;
 
+	/* Don't overflow the struct timeval (or the absolute time later on). */
+	if (timeo > MAXTIMEO)
+		timeo = MAXTIMEO;
+
 	/* Convert timeo to a struct timeval. */
 	tv.tv_sec = (time_t)timeo;
 	tv.tv_usec = (suseconds_t)((timeo - (double)tv.tv_sec) * 1000000.0);
-- 
2.43.0


From 905634d09a0a6e74b5ab7fcc82568bffdcc3bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 05/11] fix: spiped: refuse -r nan

Like for -o, a value which is not a positive number makes no sense; it
silently disabled re-resolving (which is what -R is for).
---
 spiped/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spiped/main.c b/spiped/main.c
index 80b3f10..e3571dd 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -238,6 +238,8 @@ main(int argc, char * argv[])
 		usage();
 	if (!(opt_o > 0.0))
 		usage();
+	if (!(opt_r > 0.0))
+		usage();
 	if ((opt_r != 60.0) && opt_R)
 		usage();
 	if ((opt_s == NULL) || sock_addr_validate(opt_s))
-- 
2.43.0


From 60756de6370cd307ad165a2694d3c77d913933db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 06/11] fix: spipe: do not run exit handlers in worker threads

If the connection died while there was unsent data, the worker thread
reading from our socket pair got ECONNRESET and called exit(3) while the
main thread was running the event loop, exiting, or cancelling it.  As a
result spipe could crash, or hang forever if the thread was cancelled while
holding the lock of stderr.
---
 spipe/pushbits.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/spipe/pushbits.c b/spipe/pushbits.c
index 78be162..fb972d5 100644
--- a/spipe/pushbits.c
+++ b/spipe/pushbits.c
@@ -20,6 +20,23 @@ struct push {
 	int out;
 };
 
+/*
+ * Print an error and terminate the process.  This can happen while the main
+ * thread is cancelling us (e.g. because the connection died), or while other
+ * threads are using data which would be cleaned up by exit(3); so make sure
+ * that we are not cancelled while holding any stdio locks, and do not run
+ * any atexit handlers.
+ */
+static void
+die(const char * msg)
+{
+	int oldstate;
+
+	pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &oldstate);
+	warnp("%s", msg);
+	_exit(1);
+}
+
 static void
 workthread_cleanup(void * cookie)
 {
@@ -30,10 +47,8 @@ workthread_cleanup(void * cookie)
 	 * since it might, indeed, not be a socket.
 	 */
 	if (shutdown(P->out, SHUT_WR)) {
-		if (errno != ENOTSOCK) {
-			warnp("Error shutting down socket");
-			exit(1);
-		}
+		if (errno != ENOTSOCK)
+			die("Error shutting down socket");
 	}
 
 	/* Free our parameters. */
@@ -56,8 +71,7 @@ workthread(void * cookie)
 		if ((readlen = read(P->in, P->buf, BUFSIZ)) == -1) {
 			if (errno == EINTR)
 				continue;
-			warnp("Error reading");
-			exit(1);
+			die("Error reading");
 		}
 
 		/* If we hit EOF, exit the loop. */
@@ -67,8 +81,7 @@ workthread(void * cookie)
 		/* Write the data back out. */
 		if (noeintr_write(P->out, &P->buf, (size_t)readlen)
 		    != readlen) {
-			warnp("Error writing");
-			exit(1);
+			die("Error writing");
 		}
 	} while (1);
 
-- 
2.43.0


From fdfe747c576b4b9d1563cbe0d141e377a19cb435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 07/11] fix: dnsthread_resolveone: refuse requests until the
 callback is performed

If the resolver had finished its work but its callback had not been
performed yet, a new request overwrote the pending one and then failed with
the wrong error; the callback of the first one was lost.
---
 lib/dnsthread/dnsthread.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/dnsthread/dnsthread.c b/lib/dnsthread/dnsthread.c
index 1733b6f..e805627 100644
--- a/lib/dnsthread/dnsthread.c
+++ b/lib/dnsthread/dnsthread.c
@@ -192,8 +192,9 @@ dnsthread_spawn(void)
 		goto err4;
 	}
 
-	/* The thread starts out sleeping. */
+	/* The thread starts out sleeping, with nothing to resolve. */
 	T->state = THREAD_SLEEPING;
+	T->addr = NULL;
 
 	/* Create the thread. */
 	if ((rc = pthread_create(&T->thr, NULL, workthread, T)) != 0) {
@@ -251,8 +252,11 @@ dnsthread_resolveone(DNSTHREAD T, const char * addr,
 		goto err0;
 	}
 
-	/* If the resolver is already busy, fail. */
-	if (T->state == THREAD_HASWORK) {
+	/*
+	 * If the resolver is already busy (or has finished, but we have not
+	 * yet performed the callback), fail.
+	 */
+	if ((T->state == THREAD_HASWORK) || (T->addr != NULL)) {
 		err = EALREADY;
 		goto ealready;
 	}
@@ -328,6 +332,7 @@ callback_resolveone(void * cookie)
 
 	/* Free the (strduped) address which was to be resolved. */
 	free(T->addr);
+	T->addr = NULL;
 
 	/* Grab the result. */
 	sas = T->sas;
-- 
2.43.0


From 3c8f88a23c50b17daf76162c534ddea5a0585bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 08/11] fix: do not lose track of a failed connection attempt

---
 libcperciva/network/network_connect.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/libcperciva/network/network_connect.c b/libcperciva/network/network_connect.c
index 940e7a9..415b939 100644
--- a/libcperciva/network/network_connect.c
+++ b/libcperciva/network/network_connect.c
@@ -59,7 +59,16 @@ dofailed(struct connect_cookie * C)
 	C->sas++;
 
 	/* Try other addresses until we run out of options. */
-	return (tryconnect(C));
+	if (tryconnect(C)) {
+		/* Tell the upstream that the cookie is gone. */
+		(void)docallback(C);
+
+		/* Fatal error! */
+		return (-1);
+	}
+
+	/* Success! */
+	return (0);
 }
 
 /* Callback when connect(2) succeeds or fails. */
@@ -92,7 +101,10 @@ callback_connect(void * cookie)
 err1:
 	if (close(C->s))
 		warnp("close");
-	free(C);
+	C->s = -1;
+
+	/* Tell the upstream that the cookie is gone. */
+	(void)docallback(C);
 
 	/* Fatal error! */
 	return (-1);
@@ -114,7 +126,7 @@ callback_timeo(void * cookie)
 	return (dofailed(C));
 }
 
-/* Try to launch a connection.  Free the cookie on fatal errors. */
+/* Try to launch a connection.  On fatal errors, there is no socket. */
 static int
 tryconnect(struct connect_cookie * C)
 {
@@ -162,7 +174,7 @@ err2:
 err1:
 	if ((C->s != -1) && close(C->s))
 		warnp("close");
-	free(C);
+	C->s = -1;
 
 	/* Fatal error. */
 	return (-1);
@@ -209,11 +221,13 @@ network_connect_internal(struct sock_addr * const * sas,
 
 	/* Try to connect to the first address. */
 	if (tryconnect(C))
-		goto err0;
+		goto err1;
 
 	/* Success! */
 	return (C);
 
+err1:
+	free(C);
 err0:
 	/* Failure! */
 	return (NULL);
-- 
2.43.0


From 9f45a577833a7c0811c5f863ee4a846ef4f17fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 09/11] fix: spipe: do not drop a connection which has died

---
 spipe/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spipe/main.c b/spipe/main.c
index ba21659..ac9a1c4 100644
--- a/spipe/main.c
+++ b/spipe/main.c
@@ -338,7 +338,9 @@ err6:
 	if ((rc = pthread_join(ET.threads[1], NULL)) != 0)
 		warn0("pthread_join: %s", strerror(rc));
 err5:
-	proto_conn_drop(conn_cookie, PROTO_CONN_CANCELLED);
+	/* Drop the connection, unless that has already happened. */
+	if (ET.conndone == 0)
+		proto_conn_drop(conn_cookie, PROTO_CONN_CANCELLED);
 err4:
 	if ((s[1] != -1) && close(s[1]))
 		warnp("close");
-- 
2.43.0


From 2f22887e3ccf6e7237e335b59dbad2585da746d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:01 +0000
Subject: [PATCH 10/11] fix: warnp: do not free the name while another thread
 prints it

---
 libcperciva/util/warnp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libcperciva/util/warnp.c b/libcperciva/util/warnp.c
index 04c0d0c..dbb94c1 100644
--- a/libcperciva/util/warnp.c
+++ b/libcperciva/util/warnp.c
@@ -21,8 +21,11 @@ warnp_atexit(void)
 	if (use_syslog)
 		closelog();
 
+	/* Another thread might be printing the name. */
+	flockfile(stderr);
 	free(name);
 	name = NULL;
+	funlockfile(stderr);
 }
 
 /**
-- 
2.43.0


From 12bb8d70e41bc4dcec9c5bbeaba3d72018ffd7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:04 +0000
Subject: [PATCH 11/11] fix: refuse a key on standard input whose reading was
 cut short by an error

A read error which is followed by an end of file (a connection which was
reset, for instance) left feof() true, and the bytes read before the error
were taken to be the whole key.
---
 lib/proto/proto_crypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/proto/proto_crypt.c b/lib/proto/proto_crypt.c
index 1e1803f..d9825a8 100644
--- a/lib/proto/proto_crypt.c
+++ b/lib/proto/proto_crypt.c
@@ -96,7 +96,7 @@ proto_crypt_secret(const char * filename)
 		SHA256_Update(&ctx, buf, lenread);
 
 	/* Did we hit EOF? */
-	if (!feof(f)) {
+	if (ferror(f) || !feof(f)) {
 		if (f == stdin) {
 			warnp("Error reading from stdin");
 		} else {
-- 
2.43.0

