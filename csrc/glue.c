/* glue.c: plain functions around the repository's macros and inline code. */
#include <errno.h>
#include <inttypes.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

#include "elasticarray.h"
#include "mpool.h"
#include "parsenum.h"
#include "sysendian.h"

/* parsenum.h, one instance per type. */
#define PN_U(name, type)						\
int g_pn4_##name(const char *s, uintmax_t lo, uintmax_t hi, uintmax_t *out, int *err) \
{ type x; int rc = PARSENUM(&x, s, lo, hi); *err = errno; *out = x; return (rc); } \
int g_pn2_##name(const char *s, uintmax_t *out, int *err)		\
{ type x; int rc = PARSENUM(&x, s); *err = errno; *out = x; return (rc); } \
int g_pnx_##name(const char *s, uintmax_t lo, uintmax_t hi, int base, int trailing, uintmax_t *out, int *err) \
{ type x; int rc = PARSENUM_EX(&x, s, lo, hi, base, trailing); *err = errno; *out = x; return (rc); } \
int g_pns_##name(const char *s, intmax_t lo, intmax_t hi, uintmax_t *out, int *err) \
{ type x; int rc = PARSENUM(&x, s, lo, hi); *err = errno; *out = x; return (rc); }
#define PN_S(name, type)						\
int g_pn4_##name(const char *s, intmax_t lo, intmax_t hi, intmax_t *out, int *err) \
{ type x; int rc = PARSENUM(&x, s, lo, hi); *err = errno; *out = x; return (rc); } \
int g_pnx_##name(const char *s, intmax_t lo, intmax_t hi, int base, int trailing, intmax_t *out, int *err) \
{ type x; int rc = PARSENUM_EX(&x, s, lo, hi, base, trailing); *err = errno; *out = x; return (rc); }

PN_U(u8, uint8_t)
PN_U(u16, uint16_t)
PN_U(u32, uint32_t)
PN_U(u64, uint64_t)
PN_U(size, size_t)
PN_S(i8, int8_t)
PN_S(i16, int16_t)
PN_S(i32, int32_t)
PN_S(i64, int64_t)

int g_pn4_dbl(const char *s, double lo, double hi, double *out, int *err)
{ double x; int rc = PARSENUM(&x, s, lo, hi); *err = errno; *out = x; return (rc); }
int g_pn2_dbl(const char *s, double *out, int *err)
{ double x; int rc = PARSENUM(&x, s); *err = errno; *out = x; return (rc); }
int g_pn4_flt(const char *s, double lo, double hi, double *out, int *err)
{ float x; int rc = PARSENUM(&x, s, lo, hi); *err = errno; *out = (double)x; return (rc); }

/* elasticarray.h, typed wrapper with an awkward record size. */
struct rec7 { uint8_t b[7]; };
ELASTICARRAY_DECL(EA7, ea7, struct rec7);
void *g_ea7_init(size_t n) { return (ea7_init(n)); }
int g_ea7_resize(void *p, size_t n) { return (ea7_resize(p, n)); }
size_t g_ea7_getsize(void *p) { return (ea7_getsize(p)); }
int g_ea7_append(void *p, const uint8_t *b, size_t n) { return (ea7_append(p, (const struct rec7 *)b, n)); }
void g_ea7_shrink(void *p, size_t n) { ea7_shrink(p, n); }
int g_ea7_truncate(void *p) { return (ea7_truncate(p)); }
void *g_ea7_get(void *p, size_t i) { return (ea7_get(p, i)); }
void g_ea7_free(void *p) { ea7_free(p); }
int g_ea7_export(void *p, void **b, size_t *n) { struct rec7 *r = NULL; int rc = ea7_export(p, &r, n); *b = r; return (rc); }
int g_ea7_exportdup(void *p, void **b, size_t *n) { struct rec7 *r = NULL; int rc = ea7_exportdup(p, &r, n); *b = r; return (rc); }
struct iter_state { uint8_t *out; size_t n; };
static struct iter_state *its;
static void itfn(struct rec7 *r) { memcpy(its->out + its->n * 7, r->b, 7); its->n++; }
size_t g_ea7_iter(void *p, uint8_t *out) { struct iter_state s = { out, 0 }; its = &s; ea7_iter(p, itfn); return (s.n); }

/* mpool.h */
struct mrec { uint8_t b[48]; };
MPOOL(g4, struct mrec, 4);
MPOOL(g1, struct mrec, 1);
void *g_mp4_malloc(void) { return (mpool_g4_malloc()); }
void g_mp4_free(void *p) { mpool_g4_free(p); }
void *g_mp1_malloc(void) { return (mpool_g1_malloc()); }
void g_mp1_free(void *p) { mpool_g1_free(p); }

/* sysendian.h */
void g_be16enc(void *p, uint16_t x) { be16enc(p, x); }
uint16_t g_be16dec(const void *p) { return (be16dec(p)); }
void g_be32enc(void *p, uint32_t x) { be32enc(p, x); }
uint32_t g_be32dec(const void *p) { return (be32dec(p)); }
void g_be64enc(void *p, uint64_t x) { be64enc(p, x); }
uint64_t g_be64dec(const void *p) { return (be64dec(p)); }
void g_le16enc(void *p, uint16_t x) { le16enc(p, x); }
uint16_t g_le16dec(const void *p) { return (le16dec(p)); }
void g_le32enc(void *p, uint32_t x) { le32enc(p, x); }
uint32_t g_le32dec(const void *p) { return (le32dec(p)); }
void g_le64enc(void *p, uint64_t x) { le64enc(p, x); }
uint64_t g_le64dec(const void *p) { return (le64dec(p)); }

void sim_free(void *p) { free(p); }
void g_set_errno(int e) { errno = e; }
int g_get_errno(void) { return (errno); }

/* sha256.h */
#include "sha256.h"
void g_sha_buf(const void *p, size_t n, uint8_t *o) { SHA256_Buf(p, n, o); }
void *g_sha_new(void) { SHA256_CTX *c = calloc(1, sizeof(*c)); SHA256_Init(c); return (c); }
void g_sha_update(void *c, const void *p, size_t n) { SHA256_Update(c, p, n); }
void g_sha_final(void *c, uint8_t *o) { SHA256_Final(o, c); free(c); }
void g_hmac_buf(const void *k, size_t kl, const void *p, size_t n, uint8_t *o) { HMAC_SHA256_Buf(k, kl, p, n, o); }
void *g_hmac_new(const void *k, size_t n) { HMAC_SHA256_CTX *c = calloc(1, sizeof(*c)); HMAC_SHA256_Init(c, k, n); return (c); }
void g_hmac_update(void *c, const void *p, size_t n) { HMAC_SHA256_Update(c, p, n); }
void g_hmac_final(void *c, uint8_t *o) { HMAC_SHA256_Final(o, c); free(c); }
void *g_hmac_dup(const void *c) { HMAC_SHA256_CTX *d = malloc(sizeof(*d)); memcpy(d, c, sizeof(*d)); return (d); }
void *g_sha_dup(const void *c) { SHA256_CTX *d = malloc(sizeof(*d)); memcpy(d, c, sizeof(*d)); return (d); }
void g_pbkdf2(const uint8_t *p, size_t pl, const uint8_t *s, size_t sl, uint64_t c, uint8_t *o, size_t n) { PBKDF2_SHA256(p, pl, s, sl, c, o, n); }
