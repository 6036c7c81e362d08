/* Native side of the symbolic inputs: replays one assignment against the
 * natively compiled harness.  argv: harness name, model (hex), further
 * arguments of the harness. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <stdarg.h>
#include <sys/syscall.h>

static unsigned char model[4096];
static size_t nmodel, pos;
static int violated;

static void say(const char *fmt, ...) {
    char b[1024]; va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (n > (int)sizeof b) n = sizeof b;
    syscall(SYS_write, 1, b, n);
}
static void quit(int c) { syscall(SYS_exit_group, c); __builtin_unreachable(); }
void sym_init(int argc, char **argv) {
    if (argc < 3) { say("usage: harness NAME MODELHEX [ARG]\n"); quit(2); }
    const char *h = argv[2];
    if (!strcmp(h, "-")) h = "";
    for (; h[0] && h[1] && nmodel < sizeof model; h += 2) { char t[3] = { h[0], h[1], 0 }; model[nmodel++] = (unsigned char)strtoul(t, 0, 16); }
}
static unsigned char next(void) { return pos < nmodel ? model[pos++] : (pos++, 0); }
uint8_t sym_u8(const char *n) { unsigned char c = next(); say("INPUT %s = %u\n", n, c); return c; }
void sym_bytes(unsigned char *p, size_t n, const char *name) { say("INPUT %s =", name); for (size_t i = 0; i < n; i++) { p[i] = next(); say(" %02x", p[i]); } say("\n"); }
uint32_t sym_fork(uint32_t n, const char *name) { uint32_t v = next(); say("INPUT %s = %u of %u\n", name, v, n); if (v >= n) { say("INFEASIBLE fork\n"); quit(3); } return v; }
void sym_assume(int c) { if (!c) { say("INFEASIBLE assumption\n"); quit(3); } }
void sym_check(int c, const char *id) { if (!c) { say("VIOLATED %s\n", id); violated = 1; } else say("OK %s\n", id); }
void sym_cover(const char *id) { say("COVER %s\n", id); }
uint32_t sym_pick(uint32_t x) { return x; }
void sym_stop(void) { say("END %s\n", violated ? "violated" : "clean"); quit(violated ? 1 : 0); }
void sym_limit(const char *m) { say("LIMIT %s\n", m); quit(5); }
void sym_log(const char *p, size_t n) { say("LOG %.*s\n", (int)n, p); }
int sym_engine(void) { return 0; }
void sym_done(void) { sym_stop(); }
