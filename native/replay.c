/* Native replay of one path: replay LIB HARNESS INPUT...
 * Defines the vsym_* symbols the harness crate imports, feeds it the given
 * inputs in order and reports what happened.
 * exit 0 OK | 1 ASSERT <id> | 2 usage | 3 ASSUME (inputs excluded by the
 * harness) | 4 out of inputs | 101 PANIC (abort) | 102 SIGSEGV etc. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static uint64_t *in;
static int nin, pos, expect;
static void fin(const char *m, int c) { printf("%s\n", m); fflush(stdout); _exit(c); }

uint64_t vsym_u64(uint32_t bits) {
    if (pos >= nin) fin("NOINPUT", 4);
    uint64_t v = in[pos++];
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vsym_assume(bool c) { if (!c) fin("ASSUME", 3); }
void vsym_assert(bool c, uint32_t id) {
    if (!c) { printf("ASSERT %u\n", id); fflush(stdout); _exit(1); }
}
void vsym_cover(uint32_t id) { printf("COVER %u\n", id); }
void vsym_covers(uint32_t n) { (void)n; }
uint64_t vsym_concretize(uint64_t v) { return v; }
void vsym_expect_panic(bool on) { expect = on; }
void vsym_merge(bool on) { (void)on; }
void vsym_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }

static void on_abort(int s) {
    (void)s;
    if (expect) fin("EXPECTED_PANIC", 0);
    fin("PANIC", 101);
}
static void on_segv(int s) { printf("SIGNAL %d\n", s); fflush(stdout); _exit(102); }

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    nin = argc - 3;
    in = calloc(nin + 1, 8);
    for (int i = 0; i < nin; i++) in[i] = strtoull(argv[i + 3], 0, 10);
    stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
    sigaltstack(&ss, 0);
    struct sigaction a = {.sa_handler = on_abort};
    sigaction(SIGABRT, &a, 0);
    struct sigaction b = {.sa_handler = on_segv, .sa_flags = SA_ONSTACK};
    sigaction(SIGSEGV, &b, 0);
    sigaction(SIGBUS, &b, 0);
    sigaction(SIGILL, &b, 0);
    sigaction(SIGFPE, &b, 0);
    void *l = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
    if (!l) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    void (*f)(void) = (void (*)(void))dlsym(l, argv[2]);
    if (!f) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    f();
    fin("OK", 0);
}
