// Native counterpart of the engine's harness intrinsics: replays one assignment.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned char *g_in; static size_t g_n, g_pos; static int g_init;
static uint64_t g_h = 0xcbf29ce484222325ull, g_cnt;
static int g_verbose;
static FILE *g_err;
static void init(void) {
    if (g_init) return; g_init = 1;
    // results go to a saved descriptor: harnesses may redirect 1 and 2
    int fd = dup(2); g_err = fdopen(fd, "w");
    const char *v = getenv("RSYM_VERBOSE"); g_verbose = v && *v == '1';
    const char *s = getenv("RSYM_REPLAY"); if (!s) s = "";
    size_t l = strlen(s) / 2; g_in = malloc(l + 1);
    for (size_t i = 0; i < l; i++) { unsigned x; sscanf(s + 2 * i, "%2x", &x); g_in[i] = x; }
    g_n = l;
}
static void hb(unsigned char c) { g_h ^= c; g_h *= 0x100000001b3ull; g_cnt++; }
void rsym_sym(unsigned char *p, size_t n) {
    init();
    for (size_t i = 0; i < n; i++) p[i] = g_pos < g_n ? g_in[g_pos] : 0, g_pos++;
}
void rsym_assume(uint32_t c) { init(); if (!c) { fprintf(g_err, "RSYM-ASSUME\n"); fflush(g_err); _exit(77); } }
void rsym_check(uint32_t c, const char *l, size_t n) {
    init();
    if (!c) { fprintf(g_err, "RSYM-FAIL %.*s\n", (int)n, l); fflush(g_err); _exit(78); }
}
void rsym_reach(const char *l, size_t n) { init(); if (g_verbose) { fprintf(g_err, "RSYM-REACH %.*s\n", (int)n, l); fflush(g_err); } }
void rsym_observe(const unsigned char *p, size_t n) {
    init(); for (size_t i = 0; i < n; i++) hb(p[i]); hb(0xfe);
}
void rsym_fork(unsigned char *p, size_t n) { init(); (void)p; (void)n; }
void rsym_debug(const char *l, size_t n) { init(); if (g_verbose) { fprintf(g_err, "RSYM-DEBUG %.*s\n", (int)n, l); fflush(g_err); } }
uint64_t rsym_param(const char *k, size_t n, uint64_t d) {
    init(); char b[128]; snprintf(b, sizeof b, "RSYM_PARAM_%.*s", (int)n, k);
    const char *v = getenv(b); return v ? strtoull(v, 0, 10) : d;
}
void rsym_done(void) {
    init(); fprintf(g_err, "RSYM-OBS %016llx %llu\n", (unsigned long long)g_h, (unsigned long long)g_cnt); fflush(g_err);
}
// hands the arguments to std the way the dynamic loader does
typedef void (*initfn)(int, char **, char **);
extern initfn __init_array_start[] __attribute__((weak)), __init_array_end[] __attribute__((weak));
extern char **environ;
void rsym_set_args(uint32_t argc, char **argv) {
    init();
    for (initfn *f = __init_array_start; f < __init_array_end; f++) (*f)(argc, argv, environ);
}
