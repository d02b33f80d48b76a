/* ThreadSanitizer does not know that flockfile() is a lock: tell it. */
#include <stdio.h>

void __tsan_acquire(void *);
void __tsan_release(void *);
void __real_flockfile(FILE *);
void __real_funlockfile(FILE *);
void __wrap_flockfile(FILE *);
void __wrap_funlockfile(FILE *);

void
__wrap_flockfile(FILE *f)
{

	__real_flockfile(f);
	__tsan_acquire(f);
}

void
__wrap_funlockfile(FILE *f)
{

	__tsan_release(f);
	__real_funlockfile(f);
}
