// An allocator whose addresses follow a plan (MC_HEAP):
//   a      ascending           d      descending
//   b<k>   allocation i goes to the upper half if bit k of i is set, else to the lower one (both ascending)
//   B<k>   the other way round
//   s<k>   only allocation k goes to the upper half
//   t<k>   descending from allocation k on
//   r      freed blocks are used again at once, last one first, ascending otherwise
// MC_BASE=1 moves everything to other addresses. Nothing but `r` uses memory again.
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#define SIZE (3ul << 30)
static char *lo, *hi, *mid, *top;
static unsigned long n, arg;
static char mode = 'a';
static int lock, other;
static void *reuse[64];
static void start(void) {
  char *at = (char *)(other ? 0x3a5000000000ul : 0x100000000000ul);
  char *p = mmap(at, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _exit(97);
  lo = p; top = hi = p + SIZE; mid = p + SIZE / 2;
}
static void read_plan(char **env) {
  for (; *env; env++) {
    if (!strncmp(*env, "MC_HEAP=", 8)) {
      mode = (*env)[8];
      arg = strtoul(*env + 9, 0, 10);
    }
    if (!strncmp(*env, "MC_BASE=1", 9)) other = 1;
  }
}
__attribute__((constructor)) static void plan(int c, char **v, char **env) {
  // the loader may have allocated before; what it has does not matter to the program
  __atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE);
  read_plan(env);
  if (other) lo = 0;
  n = 0;
  __atomic_store_n(&lock, 0, __ATOMIC_RELEASE);
}
static int class_of(size_t s) {
  int c = 0;
  while ((16ul << c) < s) c++;
  return c;
}
static void *get(size_t align, size_t size) {
  if (align < 16) align = 16;
  if (size > SIZE / 8) { errno = ENOMEM; return 0; }
  while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE)) ;
  if (!lo) start();
  char *r = 0;
  unsigned long i = n++;
  int c = class_of(size);
  if (mode == 'r') size = 16ul << c;
  if (mode == 'r' && align == 16 && reuse[c]) {
    r = reuse[c];
    reuse[c] = *(void **)r;
  } else {
    int down = mode == 'd' || (mode == 't' && i >= arg);
    int upper = (mode == 'b' && (i >> arg & 1)) || (mode == 'B' && !(i >> arg & 1)) || (mode == 's' && i == arg);
    if (down) {
      r = (char *)((uintptr_t)(hi - size) & ~(align - 1));
      hi = r - 16;
    } else {
      char **p = upper ? &mid : &lo;
      r = (char *)(((uintptr_t)*p + 16 + align - 1) & ~(align - 1));
      *p = r + size;
    }
    if (lo >= top - SIZE / 2 || mid >= hi || hi <= lo) _exit(98);
    ((size_t *)r)[-1] = size;
    ((size_t *)r)[-2] = align;
  }
  __atomic_store_n(&lock, 0, __ATOMIC_RELEASE);
  return r;
}
void *malloc(size_t s) { return get(16, s); }
void free(void *p) {
  if (!p || mode != 'r' || ((size_t *)p)[-2] != 16) return;
  size_t s = ((size_t *)p)[-1];
  int c = class_of(s);
  if ((16ul << c) != s) return;
  while (__atomic_exchange_n(&lock, 1, __ATOMIC_ACQUIRE)) ;
  *(void **)p = reuse[c];
  reuse[c] = p;
  __atomic_store_n(&lock, 0, __ATOMIC_RELEASE);
}
void *calloc(size_t a, size_t b) {
  size_t s;
  if (__builtin_mul_overflow(a, b, &s)) { errno = ENOMEM; return 0; }
  void *p = get(16, s);
  if (p) memset(p, 0, s);
  return p;
}
void *realloc(void *p, size_t s) {
  if (!p) return get(16, s);
  size_t o = ((size_t *)p)[-1];
  void *q = get(16, s);
  if (q) { memcpy(q, p, o < s ? o : s); free(p); }
  return q;
}
int posix_memalign(void **p, size_t a, size_t s) { *p = get(a, s); return *p ? 0 : ENOMEM; }
void *aligned_alloc(size_t a, size_t s) { return get(a, s); }
void *memalign(size_t a, size_t s) { return get(a, s); }
void *valloc(size_t s) { return get(4096, s); }
size_t malloc_usable_size(void *p) { return p ? ((size_t *)p)[-1] : 0; }
