/* glue_getopt.c: two option loops over getopt.h, with and without GETOPT_MISSING_ARG. */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

#include "getopt.h"

struct ev { int code; char ch[64]; char arg[256]; int hasarg; };

static void
put(struct ev *e, int *n, int max, int code, const char *ch)
{

	if (*n >= max)
		abort();
	e[*n].code = code;
	strncpy(e[*n].ch, ch, 63);
	e[*n].hasarg = (optarg != NULL);
	if (optarg != NULL)
		strncpy(e[*n].arg, optarg, 255);
	(*n)++;
}

int
g_getopt_missing(int argc, char **argv, struct ev *e, int max, int *endind)
{
	const char *ch;
	int n = 0;

	optreset = 1;
	opterr = 0;
	while ((ch = GETOPT(argc, argv)) != NULL) {
		GETOPT_SWITCH(ch) {
		GETOPT_OPT("-a"):
			put(e, &n, max, 1, ch);
			break;
		GETOPT_OPT("-b"):
			put(e, &n, max, 2, ch);
			break;
		GETOPT_OPTARG("-c"):
			put(e, &n, max, 3, ch);
			break;
		GETOPT_OPTARG("-x"):
			put(e, &n, max, 4, ch);
			break;
		GETOPT_OPT("--foo"):
			put(e, &n, max, 5, ch);
			break;
		GETOPT_OPT("--foobar"):
			put(e, &n, max, 6, ch);
			break;
		GETOPT_OPTARG("--bar"):
			put(e, &n, max, 7, ch);
			break;
		GETOPT_OPTARG("--b"):
			put(e, &n, max, 8, ch);
			break;
		GETOPT_MISSING_ARG:
			put(e, &n, max, 100, ch);
			break;
		GETOPT_DEFAULT:
			put(e, &n, max, 101, ch);
			break;
		}
	}
	*endind = optind;
	return (n);
}

int
g_getopt_plain(int argc, char **argv, struct ev *e, int max, int *endind)
{
	const char *ch;
	int n = 0;

	optreset = 1;
	opterr = 0;
	while ((ch = GETOPT(argc, argv)) != NULL) {
		GETOPT_SWITCH(ch) {
		GETOPT_OPTARG("--bar"):
			put(e, &n, max, 7, ch);
			break;
		GETOPT_OPTARG("-x"):
			put(e, &n, max, 4, ch);
			break;

		/* Not on adjacent lines. */

		GETOPT_OPT("--foobar"):
			put(e, &n, max, 6, ch);
			break;
		GETOPT_OPT("--foo"):
			put(e, &n, max, 5, ch);
			break;
		GETOPT_OPT("-a"):
			put(e, &n, max, 1, ch);
			break;
		GETOPT_OPTARG("-c"):
			put(e, &n, max, 3, ch);
			break;
		GETOPT_OPTARG("--b"):
			put(e, &n, max, 8, ch);
			break;
		GETOPT_OPT("-b"):
			put(e, &n, max, 2, ch);
			break;
		GETOPT_DEFAULT:
			put(e, &n, max, 101, ch);
			break;
		}
	}
	*endind = optind;
	return (n);
}
