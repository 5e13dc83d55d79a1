// Native counterpart of the engine's intrinsics: replays recorded inputs against the real code.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
static uint64_t *vals; static size_t nvals, pos; static int loaded, outfd = -1, realout = -1;
static void load(void) {
  if (loaded) return; loaded = 1;
  const char *p = getenv("SYM_INPUT");
  FILE *f = p ? fopen(p, "r") : NULL;
  if (!f) return;
  unsigned w; unsigned long long v; size_t cap = 0;
  while (fscanf(f, "%u:%llu%*[,\n ]", &w, &v) == 2) {
    if (nvals == cap) { cap = cap ? cap * 2 : 64; vals = realloc(vals, cap * sizeof *vals); }
    vals[nvals++] = v;
  }
  fclose(f);
}
void __sym_init(void) {
  load();
  realout = dup(1); outfd = memfd_create("out", 0); dup2(outfd, 1);
}
uint64_t __sym_bits(uint32_t bits) { load(); uint64_t v = pos < nvals ? vals[pos] : 0; pos++; if (bits < 64) v &= (1ull << bits) - 1; return v; }
uint64_t __sym_below(uint64_t n) { load(); uint64_t v = pos < nvals ? vals[pos] : 0; pos++; if (v >= n) { fprintf(stderr, "ASSUME-FALSE\n"); _exit(43); } return v; }
void __sym_assume(bool b) { if (!b) { fprintf(stderr, "ASSUME-FALSE\n"); _exit(43); } }
void __sym_check(bool ok, const char *l, uint64_t n) { if (!ok) { fprintf(stderr, "FAIL %.*s\n", (int)n, l); fflush(stderr); _exit(42); } }
void __sym_observe(uint64_t v) { if (getenv("SYM_TRACE")) fprintf(stderr, "OBS %llu|", (unsigned long long)v); }
void __sym_reach(const char *l, uint64_t n) { if (getenv("SYM_TRACE")) fprintf(stderr, "REACH %.*s|", (int)n, l); }
uint64_t __sym_concretize(uint64_t v) { return v; }
bool __sym_branch(bool b) { return b; }
uint64_t __sym_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool __sym_native(void) { return true; }
uint64_t __sym_out_take(char *buf, uint64_t cap) {
  fflush(stdout);
  off_t n = lseek(outfd, 0, SEEK_END);
  lseek(outfd, 0, SEEK_SET);
  uint64_t k = (uint64_t)n < cap ? (uint64_t)n : cap;
  uint64_t got = 0; while (got < k) { ssize_t r = read(outfd, buf + got, k - got); if (r <= 0) break; got += r; }
  ftruncate(outfd, 0); lseek(outfd, 0, SEEK_SET);
  return (uint64_t)n;
}
