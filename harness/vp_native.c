/* Native driver: replays one counterexample, or searches with random inputs. */
#include <fcntl.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

void vp_load(void);
void VP_ENTRY(void);

static jmp_buf skip_jmp;
static int rnd;
static uint64_t s;
static volatile uint64_t *shared;

uint64_t vp_rand(void) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
int vp_random_mode(void) { return rnd; }
void vp_havoc(void *p, size_t n) {
  if (!rnd) return;
  uint8_t *b = p;
  unsigned mode = (unsigned)(vp_rand() % 8);
  uint64_t small = vp_rand() % 70;
  double d;
  switch (mode) {
    case 0:
      memset(b, 0, n);
      break;
    case 1:
      memset(b, 0xff, n);
      break;
    case 2:
    case 3:
      memset(b, 0, n);
      memcpy(b, &small, n < 8 ? n : 8);
      break;
    case 4:
      if (n == 8) {
        d = (double)(int64_t)(vp_rand() % 2000000) - 1000000 +
            (vp_rand() % 4) * 0.25;
        memcpy(b, &d, 8);
        break;
      }
      /* fall through */
    default:
      for (size_t i = 0; i < n; i++) b[i] = (uint8_t)vp_rand();
  }
}
void vp_skip(void) {
  if (!rnd) {
    printf("VP-REPLAY: input rejected by the precondition\n");
    fflush(stdout);
    _exit(3);
  }
  longjmp(skip_jmp, 1);
}
void vp_fail(const char *name, const char *file, int line) {
  printf("VP-FAIL: %s (%s:%d)\n", name, file, line);
  fflush(stdout);
  _exit(10);
}
static void *arena[256];
static unsigned n_arena;
static void arena_reset(void) {
  while (n_arena) free(arena[--n_arena]);
}
void *vp_alloc(size_t n) {
  if ((rnd && n > (1u << 20)) || n_arena >= 256) vp_skip();
  void *p = malloc(n);
  if (!p) vp_skip();
  arena[n_arena++] = p;
  memset(p, 0, n);
  if (rnd) vp_havoc(p, n);
  return p;
}
int main(int argc, char **argv) {
  if (argc < 2 || strcmp(argv[1], "random")) {
    if (argc == 3) { /* re-run one random case */
      rnd = 1;
      s = strtoull(argv[2], 0, 10);
      if (setjmp(skip_jmp)) return 3;
    } else {
      vp_load();
    }
    VP_ENTRY();
    printf("VP-REPLAY: no violation reproduced\n");
    return 0;
  }
  /* random <seed> <seconds> <shared file> */
  uint64_t seed = strtoull(argv[2], 0, 10);
  double secs = atof(argv[3]);
  int fd = open(argv[4], O_RDWR | O_CREAT, 0600);
  if (fd < 0 || ftruncate(fd, 24)) return 4;
  shared = mmap(0, 24, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  rnd = 1;
  struct timespec t0, t;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  volatile uint64_t it = 0, done = 0;
  for (;; it++) {
    if (it % 64 == 0) {
      clock_gettime(CLOCK_MONOTONIC, &t);
      if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) break;
    }
    s = seed * 0x100000001ull + it * 0x2545f4914f6cdd1dull;
    shared[0] = s;
    shared[1] = it;
    shared[2] = done;
    arena_reset();
    if (!setjmp(skip_jmp)) {
      VP_ENTRY();
      done++;
    }
  }
  printf("VP-RANDOM: iterations=%llu accepted=%llu\n", (unsigned long long)it,
         (unsigned long long)done);
  return 0;
}
