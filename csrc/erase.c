/*
 * Linked with an ordinary -O2 build of the repository's objects: call one of
 * its functions on a stack of its own, and look for secrets left there.
 */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "sha256.h"

#define STACK (512 * 1024)
static uint8_t *stk;
struct job { int what; uint8_t *a[4]; size_t n[4]; int rc; uint8_t *out; size_t ol; };

int crypto_entropy_read(uint8_t *, size_t);

/* The operating system's random bytes. */
static uint8_t ent[1 << 16];
static size_t entlen, entpos;
void er_entropy(const uint8_t *p, size_t n) { memcpy(ent, p, n); entlen = n; entpos = 0; }
size_t er_entpos(void) { return (entpos); }
int __wrap_entropy_read(uint8_t *, size_t);
int
__wrap_entropy_read(uint8_t *b, size_t n)
{

	if (entpos + n > entlen)
		return (-1);
	memcpy(b, &ent[entpos], n);
	entpos += n;
	return (0);
}

static int
zero(const void *p, size_t n)
{
	const uint8_t *b = p;
	size_t i;

	for (i = 0; i < n; i++)
		if (b[i])
			return (0);
	return (1);
}

static SHA256_CTX sctx;
static HMAC_SHA256_CTX hctx;

struct crypto_aes_key;
struct crypto_aes_key * crypto_aes_key_expand(const uint8_t *, size_t);
void crypto_aes_key_free(struct crypto_aes_key *);
void crypto_aesctr_buf(const struct crypto_aes_key *, uint64_t, const uint8_t *, uint8_t *, size_t);
static struct crypto_aes_key *aeskey;
void er_aeskey(const uint8_t *k, size_t n) { crypto_aes_key_free(aeskey); aeskey = crypto_aes_key_expand(k, n); }

static void *
go(void *c)
{
	struct job *j = c;
	uint64_t iter;
	size_t i;

	switch (j->what) {
	case 0:
		SHA256_Buf(j->a[0], j->n[0], j->out);
		break;
	case 1:		/* in pieces of n[1] */
		SHA256_Init(&sctx);
		for (i = 0; i < j->n[0]; i += j->n[1])
			SHA256_Update(&sctx, &j->a[0][i], j->n[0] - i < j->n[1] ? j->n[0] - i : j->n[1]);
		SHA256_Final(j->out, &sctx);
		j->rc = !zero(&sctx, sizeof(sctx));
		break;
	case 2:
		HMAC_SHA256_Buf(j->a[0], j->n[0], j->a[1], j->n[1], j->out);
		break;
	case 3:
		HMAC_SHA256_Init(&hctx, j->a[0], j->n[0]);
		for (i = 0; i < j->n[1]; i += j->n[2])
			HMAC_SHA256_Update(&hctx, &j->a[1][i], j->n[1] - i < j->n[2] ? j->n[1] - i : j->n[2]);
		HMAC_SHA256_Final(j->out, &hctx);
		j->rc = !zero(&hctx, sizeof(hctx));
		break;
	case 4:
		iter = j->n[2];
		PBKDF2_SHA256(j->a[0], j->n[0], j->a[1], j->n[1], iter, j->out, j->ol);
		break;
	case 8:
		HMAC_SHA256_Update(&hctx, j->a[0], j->n[0]);
		break;
	case 9:
		HMAC_SHA256_Final(j->out, &hctx);
		j->rc = !zero(&hctx, sizeof(hctx));
		break;
	case 10:
		crypto_aesctr_buf(aeskey, 7, j->a[0], j->out, j->n[0]);
		break;
	case 6:
		HMAC_SHA256_Init(&hctx, j->a[0], j->n[0]);
		break;
	case 7:
		SHA256_Init(&sctx);
		for (i = 0; i < j->n[0]; i += j->n[1])
			SHA256_Update(&sctx, &j->a[0][i], j->n[0] - i < j->n[1] ? j->n[0] - i : j->n[1]);
		break;
	case 5:
		j->rc = crypto_entropy_read(j->out, j->ol);
		break;
	}
	return (NULL);
}

/* Stay clear of what ending the thread leaves on the stack. */
static void * __attribute__((noinline))
deep(void *c)
{
	volatile uint8_t room[32768];
	void *r;

	room[0] = 0;
	r = go(c);
	room[1] = 0;
	return (r);
}

int
er_run(int what, uint8_t *a0, size_t n0, uint8_t *a1, size_t n1, size_t n2, uint8_t *out, size_t ol)
{
	struct job j = { what, { a0, a1 }, { n0, n1, n2 }, 0, out, ol };
	pthread_attr_t at;
	pthread_t t;

	if (stk == NULL && (stk = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)) == MAP_FAILED)
		abort();
	memset(stk, 0, STACK);
	pthread_attr_init(&at);
	if (pthread_attr_setstack(&at, stk, STACK) || pthread_create(&t, &at, deep, &j))
		abort();
	pthread_join(t, NULL);
	pthread_attr_destroy(&at);
	return (j.rc);
}

/* Is this left on that stack? */
int
er_left(const uint8_t *p, size_t n)
{

	return (memmem(stk, STACK, p, n) != NULL);
}

/* How much of the stack was written to?  (Evidence that it was used.) */
size_t
er_used(void)
{
	size_t i;

	for (i = 0; i < STACK - 32768 && stk[i] == 0; i++)
		continue;
	return (STACK - 32768 - i);
}
