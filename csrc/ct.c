/*
 * Secrets under MemorySanitizer: key material is marked as "uninitialized",
 * so that a branch, an address or a memcmp which depends on it is reported
 * (its time would tell something about it).  What leaves the program, and the
 * verdict of crypto_verify_bytes, are public.  Operations come from argv.
 */
#define _GNU_SOURCE
#include <sys/socket.h>
#include <sys/types.h>
#include <openssl/aes.h>
#include <openssl/bn.h>
#include <sanitizer/msan_interface.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "crypto_dh.h"
#include "crypto_entropy.h"
#include "crypto_verify_bytes.h"
#include "events.h"
#include "proto_crypt.h"
#include "proto_handshake.h"
#include "sha256.h"
#include "warnp.h"

#define FAIL(...) do { fprintf(stderr, "FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); exit(3); } while (0)

/* --- what is secret, what is public -------------------------------------- */
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t
__wrap_fread(void *b, size_t s, size_t n, FILE *f)
{
	size_t r = __real_fread(b, s, n, f);

	__msan_poison(b, r * s);
	return (r);
}
int __real_entropy_read(uint8_t *, size_t);
int
__wrap_entropy_read(uint8_t *b, size_t n)
{
	int r = __real_entropy_read(b, n);

	__msan_poison(b, n);
	return (r);
}
ssize_t __real_send(int, const void *, size_t, int);
ssize_t
__wrap_send(int f, const void *b, size_t n, int fl)
{

	__msan_unpoison((void *)(uintptr_t)b, n);
	return (__real_send(f, b, n, fl));
}
/* OpenSSL is not instrumented: its results are secret. */
int __real_AES_set_encrypt_key(const unsigned char *, int, AES_KEY *);
int
__wrap_AES_set_encrypt_key(const unsigned char *k, int n, AES_KEY *K)
{
	int r = __real_AES_set_encrypt_key(k, n, K);

	__msan_poison(K, sizeof(*K));
	return (r);
}
void __real_AES_encrypt(const unsigned char *, unsigned char *, const AES_KEY *);
void
__wrap_AES_encrypt(const unsigned char *i, unsigned char *o, const AES_KEY *K)
{

	__real_AES_encrypt(i, o, K);
	__msan_poison(o, 16);
}
int __real_crypto_dh_compute(const uint8_t *, const uint8_t *, uint8_t *);
int
__wrap_crypto_dh_compute(const uint8_t *p, const uint8_t *x, uint8_t *k)
{
	int r = __real_crypto_dh_compute(p, x, k);

	__msan_poison(k, CRYPTO_DH_KEYLEN);
	return (r);
}
/* What has been decrypted is used once it is known to be authentic. */
struct crypto_aesctr;
static struct { void *p; size_t n; } dec[16];
static int ndec, authentic, decrypting;
static void
decrypted(void *p, size_t n)
{

	if (!decrypting)
		return;
	if (authentic)
		__msan_unpoison(p, n);
	else if (ndec < 16) {
		dec[ndec].p = p;
		dec[ndec++].n = n;
	}
}
uint8_t __real_crypto_verify_bytes(const uint8_t *, const uint8_t *, size_t);
uint8_t
__wrap_crypto_verify_bytes(const uint8_t *a, const uint8_t *b, size_t n)
{
	uint8_t r = __real_crypto_verify_bytes(a, b, n);

	__msan_unpoison(&r, sizeof(r));
	if (r == 0) {
		authentic = 1;
		while (ndec > 0) {
			ndec--;
			__msan_unpoison(dec[ndec].p, dec[ndec].n);
		}
	}
	return (r);
}
void __real_crypto_aesctr_stream(struct crypto_aesctr *, const uint8_t *, uint8_t *, size_t);
void
__wrap_crypto_aesctr_stream(struct crypto_aesctr *s, const uint8_t *i, uint8_t *o, size_t n)
{

	__real_crypto_aesctr_stream(s, i, o, n);
	decrypted(o, n);
}

struct crypto_aes_key;
void __real_crypto_aesctr_buf(const struct crypto_aes_key *, uint64_t, const uint8_t *, uint8_t *, size_t);
void
__wrap_crypto_aesctr_buf(const struct crypto_aes_key *k, uint64_t nonce, const uint8_t *i, uint8_t *o, size_t n)
{

	__real_crypto_aesctr_buf(k, nonce, i, o, n);
	decrypted(o, n);
}

/* --- exponents given to OpenSSL's variable-time exponentiation ------------ */
#define NEXP 64
static struct { int bits; uint8_t val[64]; } seen[NEXP];
static int nseen;
static int
note(const BIGNUM *e)
{

	if (BN_get_flags(e, BN_FLG_CONSTTIME))
		return (1);
	if (nseen < NEXP && BN_num_bytes(e) <= 64) {
		seen[nseen].bits = BN_num_bits(e);
		memset(seen[nseen].val, 0, 64);
		BN_bn2bin(e, seen[nseen].val);
		__msan_unpoison(seen[nseen].val, 64);
		nseen++;
	}
	return (1);
}
int __real_BN_mod_exp(BIGNUM *, const BIGNUM *, const BIGNUM *, const BIGNUM *, BN_CTX *);
int
__wrap_BN_mod_exp(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, const BIGNUM *m, BN_CTX *c)
{

	note(p);
	return (__real_BN_mod_exp(r, a, p, m, c));
}
int __real_BN_mod_exp_mont(BIGNUM *, const BIGNUM *, const BIGNUM *, const BIGNUM *, BN_CTX *, BN_MONT_CTX *);
int
__wrap_BN_mod_exp_mont(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, const BIGNUM *m, BN_CTX *c, BN_MONT_CTX *mc)
{

	note(p);
	return (__real_BN_mod_exp_mont(r, a, p, m, c, mc));
}
int __real_BN_mod_exp_simple(BIGNUM *, const BIGNUM *, const BIGNUM *, const BIGNUM *, BN_CTX *);
int
__wrap_BN_mod_exp_simple(BIGNUM *r, const BIGNUM *a, const BIGNUM *p, const BIGNUM *m, BN_CTX *c)
{

	note(p);
	return (__real_BN_mod_exp_simple(r, a, p, m, c));
}

/* --- operations ----------------------------------------------------------- */
static uint32_t rnd = 1;
static uint8_t
r8(void)
{

	rnd = rnd * 1103515245 + 12345;
	return (rnd >> 16);
}
static void
fill(uint8_t *b, size_t n)
{

	while (n--)
		*b++ = r8();
}

static void
op_verify(size_t n, long diff, int both)
{
	uint8_t *a = malloc(n + 1), *b = malloc(n + 1), r;

	fill(a, n);
	memcpy(b, a, n);
	if (diff >= 0 && n)
		b[(size_t)diff % n] ^= 1 << (diff & 7);
	__msan_poison(a, n);
	if (both)
		__msan_poison(b, n);
	r = crypto_verify_bytes(a, b, n);
	if ((r != 0) != (diff >= 0 && n))
		FAIL("wrong comparison");
	__msan_unpoison(b, n);
	free(a);
	free(b);
}

static void
op_hash(int kind, size_t klen, size_t n, size_t chunk)
{
	uint8_t *k = malloc(klen + 1), *d = malloc(n + 1), out[200];
	SHA256_CTX c;
	HMAC_SHA256_CTX h;
	size_t i, m;

	fill(k, klen);
	fill(d, n);
	__msan_poison(k, klen);
	__msan_poison(d, n);
	if (kind == 0) {
		SHA256_Init(&c);
		for (i = 0; i < n; i += m) {
			m = n - i < chunk ? n - i : chunk;
			SHA256_Update(&c, d + i, m);
		}
		SHA256_Final(out, &c);
	} else if (kind == 1) {
		HMAC_SHA256_Init(&h, k, klen);
		for (i = 0; i < n; i += m) {
			m = n - i < chunk ? n - i : chunk;
			HMAC_SHA256_Update(&h, d + i, m);
		}
		HMAC_SHA256_Final(out, &h);
	} else if (kind == 2)
		HMAC_SHA256_Buf(k, klen, d, n, out);
	else
		PBKDF2_SHA256(k, klen, d, n, 1 + chunk % 3, out, chunk % 200);
	free(k);
	free(d);
}

/* The same private value twice, and others: what does the exponentiation see? */
static void
op_dh(int how, int n)
{
	uint8_t x[CRYPTO_DH_PRIVLEN], pub[CRYPTO_DH_PUBLEN], pub0[CRYPTO_DH_PUBLEN], key[CRYPTO_DH_KEYLEN];
	int bits[8], per = 0, i, j, k;

	fill(pub, sizeof(pub));
	pub[0] = 1;
	nseen = 0;
	for (i = 0; i < 2 + n; i++) {
		if (i < 2)
			memset(x, how == 0 ? 0 : how == 1 ? 0xff : 0x55, sizeof(x));
		else if (i == 2)
			memset(x, 0, sizeof(x));
		else if (i == 3)
			memset(x, 0xff, sizeof(x));
		else
			fill(x, sizeof(x));
		__msan_poison(x, sizeof(x));
		if (how == 2 ? crypto_dh_compute(pub, x, key) : crypto_dh_generate_pub(pub0, x))
			FAIL("exponentiation");
		__msan_unpoison(x, sizeof(x));
		if (i == 0) {
			per = nseen;
			if (per > 8)
				return;
			for (j = 0; j < per; j++)
				bits[j] = seen[j].bits;
			continue;
		}
		if (nseen != per * (i + 1))
			FAIL("number of exponentiations depends on the secret");
		for (j = 0; j < per; j++)
			if (seen[i * per + j].bits != bits[j])
				FAIL("length of the exponent depends on the secret (%d bits, %d bits)", seen[i * per + j].bits, bits[j]);
		if (i == 1)
			for (j = 0; j < per; j++)
				for (k = 0; k < per; k++)
					if (memcmp(seen[j].val, seen[per + k].val, 64) == 0)
						FAIL("an exponent is used twice for the same secret: it is not blinded");
	}
}

static struct side { struct proto_keys *f, *r; int done, ok; } side[2];
static int
finished(void *c, struct proto_keys *f, struct proto_keys *r)
{
	struct side *s = c;

	s->f = f;
	s->r = r;
	s->done = 1;
	s->ok = f != NULL;
	return (0);
}
static int both(void) { return (side[0].done && side[1].done); }
static int tick;
static int timeup(void *c) { (void)c; tick = 1; return (0); }

static void
op_session(const char *keyfile, const char *keyfile2, int nopfs, int want, char **pk, int npk)
{
	struct proto_secret *K, *K2;
	struct proto_keys *e, *d;
	uint8_t data[PCRYPT_MAXDSZ], pkt[PCRYPT_ESZ], out[PCRYPT_ESZ];
	int s[2], i, dir, n, pos;
	ssize_t r;
	void *h[2], *tm;

	if ((K = proto_crypt_secret(keyfile)) == NULL || (K2 = proto_crypt_secret(keyfile2)) == NULL)
		FAIL("key file");
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, s))
		FAIL("socketpair");
	memset(side, 0, sizeof(side));
	if ((h[0] = proto_handshake(s[0], 0, nopfs & 1, nopfs >> 1 & 1, K, finished, &side[0])) == NULL ||
	    (h[1] = proto_handshake(s[1], 1, nopfs >> 2 & 1, nopfs >> 3 & 1, K2, finished, &side[1])) == NULL)
		FAIL("proto_handshake");
	tick = 0;
	tm = events_timer_register_double(timeup, NULL, 30);
	while (!both() && !tick) {
		if (events_run())
			FAIL("events_run");
		for (i = 0; i < 2; i++)
			if (side[i].done == 1) {
				side[i].done = 2;
				if (!side[i].ok)
					shutdown(s[i], SHUT_RDWR);
			}
	}
	if (tick)
		FAIL("the handshake does not end");
	events_timer_cancel(tm);
	if (want >= 0 && (side[0].ok && side[1].ok) != want)
		FAIL("the handshake %s", want ? "failed" : "succeeded");
	/* Packets, some of them changed on the way (after which the pair is not used any more). */
	for (i = 0; i < npk && side[0].ok && side[1].ok; i++) {
		/* DIR,LEN,POS */
		if (sscanf(pk[i], "%d,%d,%d", &dir, &n, &pos) != 3)
			break;
		e = dir ? side[1].r : side[0].f;
		d = dir ? side[0].r : side[1].f;
		fill(data, n);
		__msan_poison(data, n);
		proto_crypt_enc(data, n, pkt, e);
		__msan_unpoison(pkt, sizeof(pkt));
		if (pos >= 0)
			pkt[pos % PCRYPT_ESZ] ^= 1 << (pos & 7);
		decrypting = 1;
		authentic = ndec = 0;
		r = proto_crypt_dec(pkt, out, d);
		decrypting = 0;
		ndec = 0;
		__msan_unpoison(&r, sizeof(r));
		__msan_unpoison(out, sizeof(out));
		__msan_unpoison(data, sizeof(data));
		if (pos >= 0 ? r != -1 : r != n || memcmp(out, data, n))
			FAIL("packet");
		if (pos >= 0)
			break;
	}
	for (i = 0; i < 2; i++) {
		proto_crypt_free(side[i].f);
		proto_crypt_free(side[i].r);
		close(s[i]);
	}
	proto_crypt_secret_free(K);
	proto_crypt_secret_free(K2);
}

int
main(int argc, char **argv)
{
	long a, b, c, d;
	int i, n;

	WARNP_INIT;
	for (i = 1; i < argc; i++) {
		a = b = c = d = 0;
		sscanf(argv[i] + 1, "%ld,%ld,%ld,%ld", &a, &b, &c, &d);
		switch (argv[i][0]) {
		case 'z': rnd = a; break;
		case 'v': op_verify(a, b, c); break;
		case 'h': op_hash(a, b, c, d); break;
		case 'x': op_dh(a, b); break;
		case 's':
			/* sFLAGS,WANT KEYFILE KEYFILE2 packets... end */
			for (n = 0; i + 3 + n < argc && strcmp(argv[i + 3 + n], "end"); n++)
				continue;
			op_session(argv[i + 1], argv[i + 2], a, b, &argv[i + 3], n);
			i += 3 + n;
			break;
		}
	}
	printf("done\n");
	return (0);
}
