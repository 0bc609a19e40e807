// Native replay: runs a harness entry point of the compiled library on concrete inputs.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <unistd.h>
static uint64_t vals[64]; static uint32_t params[16]; static int nv, pos, np; static jmp_buf jb; static uint64_t h; static int verbose;
static int failcode = -1, status;
enum { OK, FAIL, ASSUME, KNOWN, SHORT };
uint32_t sym_in(const uint32_t *r, size_t n) { if (pos >= nv) { status = SHORT; longjmp(jb, 1); } return (uint32_t)vals[pos++]; }
uint32_t sym_choice(uint32_t n) { if (pos >= nv) { status = SHORT; longjmp(jb, 1); } return (uint32_t)vals[pos++]; }
uint32_t sym_param(uint32_t i) { return i < (uint32_t)np ? params[i] : 0; }
void sym_assume(_Bool c) { if (!c) { status = ASSUME; longjmp(jb, 1); } }
void sym_fail(uint32_t c) { failcode = (int)c; status = FAIL; longjmp(jb, 1); }
void sym_cover(uint32_t i) {}
void sym_declare(uint32_t n) {}
void sym_observe(const unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ULL; }
uint32_t sym_conc(uint32_t v) { return v; }
void sym_note(const char *p, size_t n) { if (verbose) { printf("NOTE %.*s\n", (int)n, p); fflush(stdout); } }
void sym_known(uint32_t i) { failcode = (int)i; status = KNOWN; longjmp(jb, 1); }
void sym_end(void) { status = OK; longjmp(jb, 1); }
uint32_t sym_is(void) { return 0; }
static void tick(int s) { printf("TIMEOUT\n"); fflush(stdout); _exit(20); }
static void crash(int s) { printf("SIGNAL %d\n", s); fflush(stdout); _exit(21); }
int main(int c, char **v) {
  // loader LIB ENTRY PARAMS(comma) [-v]   ; input lines "v,v,v" on stdin
  if (c < 4) return 2;
  verbose = c > 4;
  void *l = dlopen(v[1], RTLD_NOW);
  if (!l) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*f)(void) = (void (*)(void))dlsym(l, v[2]);
  if (!f) { fprintf(stderr, "no entry\n"); return 2; }
  char *sp = strdup(v[3]);
  for (char *t = strtok(sp, ","); t && np < 16; t = strtok(0, ",")) params[np++] = (uint32_t)strtoul(t, 0, 10);
  struct rlimit rl = {4ull << 30, 4ull << 30};
  setrlimit(RLIMIT_AS, &rl);
  stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
  sigaltstack(&ss, 0);
  struct sigaction sa = {.sa_handler = crash, .sa_flags = SA_ONSTACK};
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0);
  signal(SIGALRM, tick);
  static char line[8192];
  while (fgets(line, sizeof line, stdin)) {
    nv = pos = 0;
    for (char *t = strtok(line, ",\n"); t && nv < 64; t = strtok(0, ",\n")) vals[nv++] = strtoull(t, 0, 10);
    h = 0xcbf29ce484222325ULL; status = OK; failcode = -1;
    alarm(20);
    if (!setjmp(jb)) f();
    alarm(0);
    static const char *nm[] = {"OK", "FAIL", "ASSUME", "KNOWN", "SHORT"};
    printf("%s %d %lx\n", nm[status], failcode, (unsigned long)h);
    fflush(stdout);
  }
  return 0;
}
