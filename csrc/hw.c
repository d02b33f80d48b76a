/*
 * The repository's code on a CPU of the check's making: what CPUID says, and
 * what the accelerated routines compute, come from the case.
 */
#define _GNU_SOURCE
#include <emmintrin.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "crypto_entropy.h"
#include "sha256.h"

static unsigned int maxleaf, leaf1[4], leaf7[4], junk;
static int fails;	/* bit n: __get_cpuid() of leaf n does not work */
void hw_cpu(unsigned int m, const unsigned int *l1, const unsigned int *l7, unsigned int j, int f) { maxleaf = m; memcpy(leaf1, l1, 16); memcpy(leaf7, l7, 16); junk = j; fails = f; }
void
hw_cpuid_raw(unsigned int l, unsigned int s, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d)
{
	const unsigned int *r = NULL;

	if (l == 1 && maxleaf >= 1)
		r = leaf1;
	else if (l == 7 && s == 0 && maxleaf >= 7)
		r = leaf7;
	*a = l == 0 ? maxleaf : r ? r[0] : junk;
	*b = r && l ? r[1] : junk;
	*c = r && l ? r[2] : junk;
	*d = r && l ? r[3] : junk;
}
int
hw_cpuid(unsigned int l, unsigned int s, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d)
{

	if ((l < 31 && (fails >> l) & 1) || l > maxleaf)
		return (0);
	hw_cpuid_raw(l, s, a, b, c, d);
	return (1);
}

/* Which routines were called, how often; how each goes wrong. */
enum { SHANI, SSE2, EXPAND, BLOCK, BLOCKM, RDRAND, OPENSSL, NR };
static long calls[NR];
static int wrong[NR], bit[NR];
void hw_wrong(int r, int w, int b) { wrong[r] = w; bit[r] = b; }
long hw_calls(int r) { return (calls[r]); }

static void flip(void *p, int b) { ((uint8_t *)p)[(b >> 3) & 31] ^= 1 << (b & 7); }

void __real_SHA256_Transform_shani(uint32_t *, const uint8_t *);
void
__wrap_SHA256_Transform_shani(uint32_t *s, const uint8_t *b)
{

	calls[SHANI]++;
	__real_SHA256_Transform_shani(s, b);
	if (wrong[SHANI])
		flip(s, bit[SHANI]);
}
void __real_SHA256_Transform_sse2(uint32_t *, const uint8_t *, uint32_t *, uint32_t *);
void
__wrap_SHA256_Transform_sse2(uint32_t *s, const uint8_t *b, uint32_t *W, uint32_t *S)
{

	calls[SSE2]++;
	__real_SHA256_Transform_sse2(s, b, W, S);
	if (wrong[SSE2])
		flip(s, bit[SSE2]);
}

/* Keys: remember which are long. */
static struct { const void *p; size_t n; } keys[256];
static size_t
klen(const void *p)
{
	int i;

	for (i = 0; i < 256; i++)
		if (keys[i].p == p)
			return (keys[i].n);
	return (0);
}
void * __real_crypto_aes_key_expand_aesni(const uint8_t *, size_t);
void *
__wrap_crypto_aes_key_expand_aesni(const uint8_t *k, size_t n)
{
	void *p;
	int i;

	calls[EXPAND]++;
	if (wrong[EXPAND] == 1)
		return (NULL);
	p = __real_crypto_aes_key_expand_aesni(k, n);
	for (i = 0; i < 256; i++)
		if (keys[i].p == NULL || keys[i].p == p) {
			keys[i].p = p;
			keys[i].n = n;
			break;
		}
	return (p);
}
/* wrong: 1 always, 2 for 16-byte keys, 3 for 32-byte keys */
static int
bad(const void *key)
{

	return (wrong[BLOCK] == 1 || (wrong[BLOCK] == 2 && klen(key) == 16) || (wrong[BLOCK] == 3 && klen(key) == 32));
}
void __real_crypto_aes_encrypt_block_aesni(const uint8_t *, uint8_t *, const void *);
void
__wrap_crypto_aes_encrypt_block_aesni(const uint8_t *in, uint8_t *out, const void *key)
{

	calls[BLOCK]++;
	__real_crypto_aes_encrypt_block_aesni(in, out, key);
	if (bad(key))
		flip(out, bit[BLOCK] & 127);
}
__m128i __real_crypto_aes_encrypt_block_aesni_m128i(__m128i, const void *);
__m128i
__wrap_crypto_aes_encrypt_block_aesni_m128i(__m128i in, const void *key)
{
	__m128i r;

	calls[BLOCKM]++;
	r = __real_crypto_aes_encrypt_block_aesni_m128i(in, key);
	if (bad(key))
		flip(&r, bit[BLOCK] & 127);
	return (r);
}
void __real_AES_encrypt(const unsigned char *, unsigned char *, const void *);
void
__wrap_AES_encrypt(const unsigned char *in, unsigned char *out, const void *key)
{

	calls[OPENSSL]++;
	__real_AES_encrypt(in, out, key);
	if (wrong[OPENSSL])
		flip(out, bit[OPENSSL] & 127);
}

/* RDRAND: words from a tape; fails when wrong says so (after some words). */
static uint32_t rtape[4096];
static uint8_t rfail[512];
static size_t rn, rk;
void hw_rdrand(const uint32_t *w, size_t n, const uint8_t *f, size_t nf) { memcpy(rtape, w, n * 4); memset(rfail, 0, sizeof(rfail)); memcpy(rfail, f, nf); rn = rk = 0; }
int
__wrap_generate_seed_rdrand(unsigned int *b, size_t n)
{
	size_t i;
	int f = rfail[rk++ % 512];

	calls[RDRAND]++;
	for (i = 0; i < n; i++) {
		if (f && i + 1 == f)
			return (1);
		b[i] = rtape[rn++ % 4096];
	}
	return (0);
}
static uint8_t ent[1 << 16];
static size_t entlen, entpos;
void hw_entropy(const uint8_t *p, size_t n) { memcpy(ent, p, n); entlen = n; entpos = 0; }
int
__wrap_entropy_read(uint8_t *b, size_t n)
{

	if (entpos + n > entlen)
		return (-1);
	memcpy(b, &ent[entpos], n);
	entpos += n;
	return (0);
}

void hw_sha(const uint8_t *p, size_t n, uint8_t *o) { SHA256_Buf(p, n, o); }
void hw_hmac(const uint8_t *k, size_t kn, const uint8_t *p, size_t n, uint8_t *o) { HMAC_SHA256_Buf(k, kn, p, n, o); }
int
hw_aes(const uint8_t *k, size_t n, const uint8_t *in, uint8_t *out)
{
	struct crypto_aes_key *K;

	if ((K = crypto_aes_key_expand(k, n)) == NULL)
		return (-1);
	crypto_aes_encrypt_block(in, out, K);
	crypto_aes_key_free(K);
	return (0);
}
int
hw_ctr(const uint8_t *k, size_t n, uint64_t nonce, const uint8_t *in, uint8_t *out, size_t len, size_t step)
{
	struct crypto_aes_key *K;
	struct crypto_aesctr *s;
	size_t i, m;

	if ((K = crypto_aes_key_expand(k, n)) == NULL)
		return (-1);
	if ((s = crypto_aesctr_init(K, nonce)) == NULL)
		return (-1);
	for (i = 0; i < len; i += m) {
		m = len - i < step ? len - i : step;
		crypto_aesctr_stream(s, &in[i], &out[i], m);
	}
	crypto_aesctr_free(s);
	crypto_aes_key_free(K);
	return (0);
}
int hw_random(uint8_t *b, size_t n) { return (crypto_entropy_read(b, n)); }
