/* Stands in for the compiler's <cpuid.h>: the CPU is whatever the check says. */
#ifndef FAKE_CPUID_H_
#define FAKE_CPUID_H_
int hw_cpuid(unsigned int, unsigned int, unsigned int *, unsigned int *, unsigned int *, unsigned int *);
static inline int
__get_cpuid(unsigned int l, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d)
{
	return (hw_cpuid(l, 0, a, b, c, d));
}
static inline int
__get_cpuid_count(unsigned int l, unsigned int s, unsigned int *a, unsigned int *b, unsigned int *c, unsigned int *d)
{
	return (hw_cpuid(l, s, a, b, c, d));
}
static inline unsigned int
__get_cpuid_max(unsigned int l, unsigned int *sig)
{
	unsigned int a, b, c, d;

	if (!hw_cpuid(l, 0, &a, &b, &c, &d))
		return (0);
	if (sig)
		*sig = b;
	return (a);
}
/* The instruction itself: no check of the level. */
void hw_cpuid_raw(unsigned int, unsigned int, unsigned int *, unsigned int *, unsigned int *, unsigned int *);
#define __cpuid(l, a, b, c, d) hw_cpuid_raw((l), 0, &(a), &(b), &(c), &(d))
#define __cpuid_count(l, s, a, b, c, d) hw_cpuid_raw((l), (s), &(a), &(b), &(c), &(d))
#endif
