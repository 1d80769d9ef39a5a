// Native runtime behind the `sym_*` interface of the harnesses.
//
// The symbolic executor gives these functions their symbolic meaning; here they read a
// recorded assignment, so that a path found by the executor can be run on the real code.
//
//   PROG list                      entry points
//   PROG run FILE                  one record per line:  ENTRY w:hex w:hex ...
//
// One line of output per record:  INDEX STATUS CODE obs=..;.. covers=hex known=N
#define _GNU_SOURCE
#include <errno.h>
#include <stddef.h>
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

typedef unsigned __int128 u128;
struct entry { const char *name; void (*f)(void); };
extern const struct entry *harness_entries(size_t *n);

#define MAXIN 4096
#define MAXOBS 65536
struct shared {
  uint32_t nobs, known, assumed, failed, failed_id, misuse, done;
  uint64_t covers_lo, covers_hi;
  uint64_t obs[MAXOBS];
};
static struct shared *sh;
static unsigned in_w[MAXIN];
static u128 in_v[MAXIN];
static int n_in, pos, verbose;

static u128 next(unsigned w) {
  if (pos >= n_in || in_w[pos] != w) {
    sh->misuse = 1;
    _exit(44);
  }
  return in_v[pos++];
}

void sym_bytes(uint8_t *p, size_t n) { for (size_t i = 0; i < n; i++) p[i] = (uint8_t)next(8); }
uint64_t sym_choice(uint64_t n) {
  u128 v = next(8);
  if (v >= n) { sh->misuse = 2; _exit(44); }
  return (uint64_t)v;
}
uint64_t sym_range(uint64_t lo, uint64_t hi) {
  u128 v = next(8);
  if (v < lo || v > hi) { sh->misuse = 3; _exit(44); }
  return (uint64_t)v;
}
void sym_bits(uint8_t *p, size_t n) {
  u128 v = next(n * 8);
  for (size_t i = 0; i < n; i++) { p[i] = (uint8_t)v; v >>= 8; }
}
void sym_assume(uint32_t c) { if (!c) { sh->assumed = 1; _exit(43); } }
void sym_assert(uint32_t c, uint32_t id) {
  if (!c) { sh->failed = 1; sh->failed_id = id; _exit(42); }
}
void sym_cover(uint32_t id) {
  if ((id & 127) < 64) sh->covers_lo |= 1ull << (id & 63); else sh->covers_hi |= 1ull << (id & 63);
}
void sym_obs(uint64_t v) { if (sh->nobs < MAXOBS) sh->obs[sh->nobs++] = v; }
void sym_known(uint32_t id) { sh->known = id; }
void sym_opaque(uint32_t on) { (void)on; }
uint64_t sym_concrete(uint64_t v) { return v; }
uint32_t sym_native(void) { return verbose; }
void sym_note(const uint8_t *p, size_t n) {
  if (verbose) { printf("    "); fwrite(p, 1, n, stdout); printf("\n"); fflush(stdout); }
}

static u128 hex(const char *s, char **end) {
  u128 v = 0;
  for (;; s++) {
    int d;
    if (*s >= '0' && *s <= '9') d = *s - '0';
    else if (*s >= 'a' && *s <= 'f') d = *s - 'a' + 10;
    else break;
    v = v << 4 | (unsigned)d;
  }
  *end = (char *)s;
  return v;
}

int main(int argc, char **argv) {
  size_t ne;
  const struct entry *es = harness_entries(&ne);
  if (argc >= 2 && !strcmp(argv[1], "list")) {
    for (size_t i = 0; i < ne; i++) printf("%s\n", es[i].name);
    return 0;
  }
  if (argc < 3) { fprintf(stderr, "usage: run|show FILE\n"); return 2; }
  verbose = !strcmp(argv[1], "show");
  FILE *f = fopen(argv[2], "r");
  if (!f) { perror(argv[2]); return 2; }
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct rlimit nocore = {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  char *line = 0;
  size_t cap = 0;
  int idx = 0;
  while (getline(&line, &cap, f) > 0) {
    if (line[0] == '#' || line[0] == '\n') continue;
    char *p = strchr(line, ' ');
    if (!p) p = line + strcspn(line, "\n");
    char c = *p;
    *p = 0;
    void (*fn)(void) = 0;
    for (size_t i = 0; i < ne; i++) if (!strcmp(es[i].name, line)) fn = es[i].f;
    if (!fn) { fprintf(stderr, "no entry %s\n", line); return 2; }
    n_in = pos = 0;
    if (c == ' ') p++;
    while (*p && *p != '\n' && n_in < MAXIN) {
      while (*p == ' ') p++;
      if (!*p || *p == '\n') break;
      in_w[n_in] = (unsigned)strtoul(p, &p, 10);
      if (*p == ':') p++;
      in_v[n_in++] = hex(p, &p);
    }
    memset(sh, 0, offsetof(struct shared, obs));
    fflush(stdout);
    pid_t k = fork();
    if (k == 0) {
      alarm(60);
      if (!verbose) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
      fn();
      sh->done = 1;
      fflush(stdout);
      _exit(0);
    }
    int st;
    while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
    const char *s = "?";
    int code = 0;
    if (WIFEXITED(st)) {
      code = WEXITSTATUS(st);
      if (sh->failed) { s = "assert"; code = (int)sh->failed_id; }
      else if (sh->assumed) s = "assumed";
      else if (sh->misuse) { s = "misuse"; code = (int)sh->misuse; }
      else if (sh->done) s = "done";
      else s = "exit";
    } else if (WIFSIGNALED(st)) {
      code = WTERMSIG(st);
      s = code == SIGABRT ? "panic" : code == SIGALRM ? "hang" : code == SIGSEGV || code == SIGBUS ? "crash" : "signal";
    }
    printf("%d %s %d covers=%llx%016llx known=%u obs=", idx++, s, code, (unsigned long long)sh->covers_hi,
           (unsigned long long)sh->covers_lo, sh->known);
    for (uint32_t i = 0; i < sh->nobs; i++) printf("%s%llx", i ? "," : "", (unsigned long long)sh->obs[i]);
    printf("\n");
  }
  return 0;
}
