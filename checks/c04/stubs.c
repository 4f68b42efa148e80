/* In place of the controlled scheduler when real processes are used */
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
void vs_init (uint64_t seed, unsigned a, unsigned b, unsigned c) { (void) seed; (void) a; (void) b; (void) c; }
void vs_yield (void) {}
uint64_t vs_rand (void) { abort(); }
static char *tb; static size_t tl, tc;
void vs_log (const char *fmt, ...) {
	char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap); b[n++] = '\n';
	if (tl + (size_t) n > tc) { tc = (tl + (size_t) n) * 2; tb = realloc(tb, tc); }
	memcpy(tb + tl, b, (size_t) n); tl += (size_t) n;
}
void vs_end (void) { fflush(stdout); if (write(1, "\n", 1)) {} size_t o = 0; while (o < tl) { ssize_t k = write(1, tb + o, tl - o); if (k <= 0) break; o += (size_t) k; } }
int vs_active;
