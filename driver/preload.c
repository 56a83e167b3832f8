/* Preloaded into the command line program: its hash maps are seeded from
   getrandom(2), so that their iteration order is that of $CASE_SEED. */
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>
static uint64_t state;
static int started;
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  (void)flags;
  if (!started) {
    const char *s = getenv("CASE_SEED");
    state = s ? strtoull(s, 0, 10) : 1;
    started = 1;
  }
  for (size_t i = 0; i < len; i++) {
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    ((unsigned char *)buf)[i] = z ^ (z >> 31);
  }
  return (ssize_t)len;
}
