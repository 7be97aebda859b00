/* Conformance driver: executes a script of library calls against the real
 * library and records one JSON event per call (see spec/Trace.tla).
 *
 *   driver SCRIPT OUT
 *
 * Allocation calls of the library are routed here by -Wl,--wrap, which makes
 * every allocation and release an event of its own, lets any of them fail, and
 * fills fresh memory with a pattern.  A child process runs the segments of the
 * script; when it dies or hangs, the parent records that and starts another
 * child at the next segment.  Only functions declared in the library's headers
 * are used. */
#include <ctype.h>
#include <errno.h>
#include <inttypes.h>
#include <math.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "src/basic/broadcast.h"
#include "src/basic/cast.h"
#include "src/basic/duplicate.h"
#include "src/basic/factories.h"
#include "src/basic/index_utils.h"
#include "src/basic/reshape.h"
#include "src/basic/slice.h"
#include "src/basic/squeeze.h"
#include "src/core/allocator.h"
#include "src/core/shape.h"
#include "src/core/storage.h"
#include "src/core/tensor.h"
#include "src/core/types.h"
#include "src/core/utils.h"
#include "src/math/binary_op.h"
#include "src/math/dot.h"
#include "src/math/matmul.h"
#include "src/math/sqrt.h"
#include "src/nn/batch_norm.h"
#include "src/nn/conv.h"
#include "src/nn/dropout.h"
#include "src/nn/pooling.h"
#include "src/nn/relu.h"
#include "src/nn/sigmoid.h"
#include "src/nn/softmax.h"
#include "src/nn/tanh.h"

void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);

#define SLOTS 24
#define MAXARR 640
#define SENTINEL ((Tensor)0x5e5e5e5e5e5e5e50ULL)
#define WIDE_S 2147483647

static void die(const char *m) {
  fprintf(stderr, "driver: %s\n", m);
  exit(3);
}

/* ------------------------------------------------------------------ memory */

enum { M_ALLOC = 1, M_FREE = 2, M_FAIL = 3, M_BADFREE = 4, M_RAWALLOC = 5, M_RAWFREE = 6 };
/* blocks too big to fill are reserved, not held */
#define BIG ((size_t)1 << 27)
typedef struct Block {
  struct Block *next;
  void *p;    /* what the library sees */
  void *base; /* what the system gave */
  size_t size;
  int id, custom, mapped;
} Block;
#define NB 4096
static Block *g_blocks[NB];
static int g_live, g_nextid, g_custom;
/* 1: every block on pages of its own; calls find the user's data in read-only memory
 * 2: besides, arrays with the same contents are one array, and may be a live tensor's dims */
static int g_rdonly;
static int g_fill = 0xA5; /* fresh memory; -1: other contents every time */
static unsigned g_noise = 12345;
static pthread_mutex_t g_lock = PTHREAD_MUTEX_INITIALIZER;

/* What belongs to one call of the library; two calls can be under way. */
typedef struct {
  void *p, *copy;
  size_t n;
  int mapped;
} Arr;
typedef struct {
  int inlib, fk, fm, nalloc, fired, nmem, capmem;
  int (*mem)[2];
  Arr arr[16];
  int narr, argchanged;
  long left;  /* instrumentation points before the other call's turn, 0: none */
  long count; /* points passed */
} Ctx;
static Ctx g_ctx[2];
static __thread Ctx *cx = &g_ctx[0];
#define g_inlib (cx->inlib)
#define g_fk (cx->fk)
#define g_fm (cx->fm)
#define g_nalloc (cx->nalloc)
#define g_fired (cx->fired)
#define g_mem (cx->mem)
#define g_nmem (cx->nmem)
#define g_capmem (cx->capmem)
#define g_arr (cx->arr)
#define g_narr (cx->narr)
#define g_argchanged (cx->argchanged)

static unsigned noise(void) {
  g_noise = g_noise * 1103515245u + 12345u;
  return g_noise >> 8;
}

static void memlog(int kind, int id) {
  if (g_nmem == g_capmem) {
    g_capmem = g_capmem ? 2 * g_capmem : 256;
    g_mem = __real_realloc(g_mem, sizeof(*g_mem) * (size_t)g_capmem);
  }
  g_mem[g_nmem][0] = kind;
  g_mem[g_nmem++][1] = id;
}
static unsigned hashp(void *p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % NB; }
static int failing(void) {
  g_nalloc++;
  if (g_fk && (g_nalloc == g_fk || (g_fm && g_nalloc > g_fk))) {
    g_fired = 1;
    memlog(M_FAIL, 0);
    return 1;
  }
  return 0;
}
static void *track(void *base, void *p, size_t n, int custom) {
  Block *b = __real_malloc(sizeof *b);
  unsigned h = hashp(p);
  b->p = p;
  b->base = base;
  b->size = n;
  b->custom = custom;
  b->mapped = n + (size_t)((char *)p - (char *)base) > BIG || g_rdonly;
  pthread_mutex_lock(&g_lock);
  b->id = ++g_nextid;
  b->next = g_blocks[h];
  g_blocks[h] = b;
  g_live++;
  pthread_mutex_unlock(&g_lock);
  return p;
}
static Block *untrack(void *p) {
  Block *b = NULL;
  pthread_mutex_lock(&g_lock);
  for (Block **q = &g_blocks[hashp(p)]; *q; q = &(*q)->next)
    if ((*q)->p == p) {
      b = *q;
      *q = b->next;
      g_live--;
      break;
    }
  pthread_mutex_unlock(&g_lock);
  return b;
}
static int block_id(void *p) {
  for (Block *b = g_blocks[hashp(p)]; b; b = b->next)
    if (b->p == p) return b->id;
  return 0;
}
static int g_huge; /* inaccessible memory before and after every big block */
static int g_short; /* a block of a plausible size could not be had */
static void *fresh(size_t n) {
  void *p;
  if (g_huge && n > BIG) {
    const size_t gap = (size_t)6 << 30, len = (n + 4095) & ~(size_t)4095;
    char *q = n > (size_t)1 << 44 ? MAP_FAILED
                                  : mmap(NULL, len + 2 * gap, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (q == MAP_FAILED || mprotect(q + gap, len, PROT_READ | PROT_WRITE)) {
      if (n < (size_t)1 << 35) g_short = 1;
      return NULL;
    }
    return q + gap + ((len - n) & ~(size_t)15);
  }
  if (n > BIG || g_rdonly) {
    if (!n) n = 1;
    p = n > (size_t)1 << 44 ? MAP_FAILED
                            : mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return NULL;
    if (n <= 1 << 20) memset(p, g_fill & 255, n);
    return p;
  }
  p = __real_malloc(n ? n : 1);
  if (p && n <= (64u << 20)) {
    if (g_fill >= 0) memset(p, g_fill, n);
    else
      for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)noise();
  }
  return p;
}
static void *lib_alloc(size_t n, int bypass) {
  void *p;
  if (!bypass && failing()) return NULL;
  p = fresh(n);
  if (!p) {
    g_fired = 1;
    memlog(M_FAIL, 0);
    return NULL;
  }
  track(p, p, n, 0);
  memlog(bypass ? M_RAWALLOC : M_ALLOC, block_id(p));
  return p;
}
static void lib_free(void *p, int custom) {
  Block *b;
  if (!p) return;
  b = untrack(p);
  if (!b) {
    memlog(M_BADFREE, 0);
    return;
  }
  memlog(b->custom == custom ? M_FREE : M_RAWFREE, b->id);
  if (b->mapped) {
    size_t n = b->size + (size_t)((char *)b->p - (char *)b->base);
    munmap(b->base, n ? n : 1);
  }
  else
    __real_free(b->base);
  __real_free(b);
}
/* a user's allocator: its blocks do not start where the system's do */
static void *custom_alloc(size_t n) {
  char *p;
  if (g_inlib && failing()) return NULL;
  p = fresh(n + 64);
  if (!p) {
    g_fired = 1;
    memlog(M_FAIL, 0);
    return NULL;
  }
  track(p, p + 64, n, 1);
  if (g_inlib) memlog(M_ALLOC, block_id(p + 64));
  return p + 64;
}
static void custom_dealloc(void *p) { lib_free(p, 1); }

void *__wrap_malloc(size_t n) { return g_inlib ? lib_alloc(n, g_custom) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
  void *p;
  if (!g_inlib) return __real_calloc(a, b);
  p = lib_alloc(a * b, g_custom);
  if (p && a * b <= BIG) memset(p, 0, a * b);
  return p;
}
void __wrap_free(void *p) {
  if (g_inlib) lib_free(p, 0);
  else __real_free(p);
}
void *__wrap_realloc(void *p, size_t n) {
  void *q;
  if (!g_inlib) return __real_realloc(p, n);
  q = lib_alloc(n, g_custom);
  if (q && p) {
    for (Block *b = g_blocks[hashp(p)]; b; b = b->next)
      if (b->p == p) {
        memcpy(q, p, b->size < n ? b->size : n);
        break;
      }
    lib_free(p, 0);
  }
  return q;
}

/* the clock, when the library asks for it, tells another second every time */
time_t __real_time(time_t *);
time_t __wrap_time(time_t *t) {
  time_t v;
  if (!g_inlib) return __real_time(t);
  v = (time_t)(1700000000u + noise() * 97u % 200000000u);
  if (t) *t = v;
  return v;
}

/* random numbers: the library's own, or extreme ones */
static int g_rand;
int __real_rand(void);
int __wrap_rand(void) {
  if (!g_inlib || !g_rand) return __real_rand();
  if (g_rand == 1) return 0;
  if (g_rand == 2) return RAND_MAX;
  return noise() & 1 ? RAND_MAX : 0;
}

/* ------------------------------------------------------------------ values */

static const DataType *dtype_of(int code) {
  static const DataType *tab[10];
  if (!tab[1]) {
    tab[0] = (const DataType *)&kInt8, tab[1] = &kUint8, tab[2] = &kInt16, tab[3] = &kUint16;
    tab[4] = &kInt32, tab[5] = &kUint32, tab[6] = &kInt64, tab[7] = &kUint64;
    tab[8] = &kFloat, tab[9] = &kDouble;
  }
  return tab[code];
}
static DataType mk_dtype(int code) {
  DataType d;
  if (code >= 0 && code < 10) return *dtype_of(code);
  memset(&d, 0, sizeof d);
  d.code = (TypeCode)code;
  d.size = 4;
  return d;
}
static const int SIZES[10] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};

static FILE *g_out;
static void put(const char *s) { fputs(s, g_out); }
static void put_int(int64_t v) {
  /* TLC integers have 32 bits */
  if (v > 2147483647) v = 2147483647;
  if (v < -2147483647) v = -2147483647 - 1;
  fprintf(g_out, "%" PRId64, v);
}
static int g_wide; /* numbers as limbs in base 4096, least significant first */
static void put_limbs(int64_t v) {
  uint64_t u = (uint64_t)v;
  fputc('[', g_out);
  for (int i = 0; u; i++, u >>= 12) fprintf(g_out, "%s%d", i ? "," : "", (int)(u & 4095));
  fputc(']', g_out);
}
static void put_arr64(const int64_t *a, int64_t n) {
  fputc('[', g_out);
  for (int64_t i = 0; i < n; i++) {
    if (i) fputc(',', g_out);
    if (g_wide) put_limbs(a[i]);
    else put_int(a[i]);
  }
  fputc(']', g_out);
}

static void put_el(char kind, int dt, const unsigned char *p) {
  int sz = SIZES[dt];
  if (kind == 'h') {
    fputc('"', g_out);
    for (int i = 0; i < sz; i++) fprintf(g_out, "%02x", p[i]);
    fputc('"', g_out);
  } else if (kind == 'w') {
    uint64_t v = 0;
    int limbs = sz == 1 ? 1 : sz == 2 ? 2 : sz == 4 ? 3 : 6;
    memcpy(&v, p, (size_t)sz);
    fputc('[', g_out);
    for (int i = 0; i < limbs; i++) {
      if (i) fputc(',', g_out);
      fprintf(g_out, "%d", (int)(v & 4095));
      v >>= 12;
    }
    fputc(']', g_out);
  } else {
    int64_t v = 0;
    int ok = 1;
    switch (dt) {
      case 0: v = *(int8_t *)p; break;
      case 1: v = *(uint8_t *)p; break;
      case 2: v = *(int16_t *)p; break;
      case 3: v = *(uint16_t *)p; break;
      case 4: v = *(int32_t *)p; break;
      case 5: v = *(uint32_t *)p; break;
      case 6: v = *(int64_t *)p; break;
      case 7: {
        uint64_t u = *(uint64_t *)p;
        ok = u < WIDE_S;
        v = ok ? (int64_t)u : 0;
        break;
      }
      default: {
        double d = dt == 8 ? (double)*(float *)p : *(double *)p;
        ok = d == floor(d) && fabs(d) < (double)WIDE_S;
        v = ok ? (int64_t)d : 0;
      }
    }
    if (v >= WIDE_S || v <= -WIDE_S) ok = 0;
    fprintf(g_out, "%d", ok ? (int)v : WIDE_S);
  }
}
static void put_data(char kind, int dt, const void *p, int64_t n) {
  fputc('[', g_out);
  for (int64_t i = 0; i < n; i++) {
    if (i) fputc(',', g_out);
    put_el(kind, dt, (const unsigned char *)p + i * SIZES[dt]);
  }
  fputc(']', g_out);
}

/* ------------------------------------------------------------------ script */

typedef struct {
  char op[24], key[24], m[24];
  int o, p, h, dt, dv, di, fk, fm, len, hasx, mnull, hasnull;
  int t[8], nt;
  int64_t dims[MAXARR], a[MAXARR], b[MAXARR], c[MAXARR], d[MAXARR], n[MAXARR], sw[MAXARR];
  int ndims, na, nb, nc, nd, nn, rep, nsw; /* nsw -1: every schedule of one switch */
  double xd;
  unsigned char *x;
  int64_t nx; /* bytes */
} Cmd;

static int parse_list(const char *s, int64_t *out, int max) {
  int n = 0;
  while (*s) {
    char *e;
    if (n == max) die("list too long");
    out[n++] = strtoll(s, &e, 10);
    if (e == s) die("bad list");
    s = *e == ',' ? e + 1 : e;
  }
  return n;
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static void parse(char *line, Cmd *c) {
  memset(c, 0, sizeof *c);
  c->o = c->p = -1;
  c->dt = c->dv = c->di = 0;
  for (char *tok = strtok(line, " \n"); tok; tok = strtok(NULL, " \n")) {
    char *v = strchr(tok, '=');
    if (!v) die("bad token");
    *v++ = 0;
    if (!strcmp(tok, "op")) snprintf(c->op, sizeof c->op, "%s", v);
    else if (!strcmp(tok, "key")) snprintf(c->key, sizeof c->key, "%s", v);
    else if (!strcmp(tok, "m")) snprintf(c->m, sizeof c->m, "%s", v);
    else if (!strcmp(tok, "o")) c->o = atoi(v);
    else if (!strcmp(tok, "p")) c->p = atoi(v);
    else if (!strcmp(tok, "rep")) c->rep = atoi(v);
    else if (!strcmp(tok, "h")) c->h = atoi(v);
    else if (!strcmp(tok, "dt")) c->dt = atoi(v);
    else if (!strcmp(tok, "dv")) c->dv = atoi(v);
    else if (!strcmp(tok, "di")) c->di = atoi(v);
    else if (!strcmp(tok, "fk")) c->fk = !strcmp(v, "*") ? -1 : atoi(v);
    else if (!strcmp(tok, "fm")) c->fm = atoi(v);
    else if (!strcmp(tok, "len")) c->len = atoi(v);
    else if (!strcmp(tok, "dims")) c->ndims = parse_list(v, c->dims, MAXARR);
    else if (!strcmp(tok, "a")) c->na = parse_list(v, c->a, MAXARR);
    else if (!strcmp(tok, "b")) c->nb = parse_list(v, c->b, MAXARR);
    else if (!strcmp(tok, "c")) c->nc = parse_list(v, c->c, MAXARR);
    else if (!strcmp(tok, "d")) c->nd = parse_list(v, c->d, MAXARR);
    else if (!strcmp(tok, "sw")) {
      if (!strcmp(v, "*")) c->nsw = -1;
      else c->nsw = parse_list(v, c->sw, MAXARR);
    } else if (!strcmp(tok, "n")) c->nn = parse_list(v, c->n, MAXARR);
    else if (!strcmp(tok, "t")) {
      int64_t tmp[8];
      c->nt = parse_list(v, tmp, 8);
      for (int i = 0; i < c->nt; i++) c->t[i] = (int)tmp[i];
    } else if (!strcmp(tok, "x") || !strcmp(tok, "xd")) {
      size_t l = strlen(v) / 2;
      unsigned char *d = __real_malloc(l ? l : 1);
      for (size_t i = 0; i < l; i++) d[i] = (unsigned char)(hexv(v[2 * i]) * 16 + hexv(v[2 * i + 1]));
      if (tok[1] == 'd') {
        memcpy(&c->xd, d, 8);
        __real_free(d);
      } else {
        c->x = d;
        c->nx = (int64_t)l;
        c->hasx = 1;
      }
    } else die("unknown key");
  }
}

/* --------------------------------------------------------- slots, snapshots */

typedef struct {
  void *data, *dimsp;
  unsigned char *bytes;
  int64_t nbytes, ndim, size, dims[MAXARR];
  int code, tsize, dv, di, lay;
} Snap;
static Tensor g_slot[SLOTS];
static Snap g_snap[SLOTS];
static int g_used[SLOTS];
static char g_kind = 's';
static int g_hist; /* whether the whole tensor data is recorded in events */

static void unsnap(int i) {
  if (g_snap[i].bytes) __real_free(g_snap[i].bytes);
  memset(&g_snap[i], 0, sizeof g_snap[i]);
}
static void snap(int i) {
  Tensor t = g_slot[i];
  Snap *s = &g_snap[i];
  unsnap(i);
  s->data = aitisa_tensor_data(t);
  s->dimsp = aitisa_tensor_dims(t);
  s->ndim = aitisa_tensor_ndim(t);
  for (int64_t k = 0; k < s->ndim && k < MAXARR; k++) s->dims[k] = aitisa_tensor_dim(t, k);
  s->size = aitisa_tensor_size(t);
  s->code = aitisa_tensor_data_type(t).code;
  s->tsize = aitisa_tensor_data_type(t).size;
  s->dv = aitisa_tensor_device(t).type;
  s->di = aitisa_tensor_device(t).id;
  s->lay = aitisa_tensor_layout_type(t);
  s->nbytes = s->size * s->tsize;
  if (s->nbytes > (64 << 20)) s->nbytes = 64;
  s->bytes = __real_malloc((size_t)s->nbytes + 1);
  memcpy(s->bytes, s->data, (size_t)s->nbytes);
}
static int same_as_snap(int i) {
  Tensor t = g_slot[i];
  Snap *s = &g_snap[i];
  if (s->data != aitisa_tensor_data(t) || s->dimsp != (void *)aitisa_tensor_dims(t) ||
      s->ndim != aitisa_tensor_ndim(t) || s->size != aitisa_tensor_size(t) ||
      s->code != (int)aitisa_tensor_data_type(t).code || s->tsize != aitisa_tensor_data_type(t).size ||
      s->dv != (int)aitisa_tensor_device(t).type || s->di != aitisa_tensor_device(t).id ||
      s->lay != (int)aitisa_tensor_layout_type(t))
    return 0;
  for (int64_t k = 0; k < s->ndim && k < MAXARR; k++)
    if (s->dims[k] != aitisa_tensor_dim(t, k)) return 0;
  return !memcmp(s->bytes, s->data, (size_t)s->nbytes);
}
static int overlap(const void *p, int64_t n, const void *q, int64_t m) {
  const char *a = p, *b = q;
  return n > 0 && m > 0 && a < b + m && b < a + n;
}
static int tensors_overlap(Tensor t, Tensor u) {
  const void *r1[3] = {t, aitisa_tensor_data(t), aitisa_tensor_dims(t)};
  int64_t n1[3] = {(int64_t)sizeof *t, aitisa_tensor_size(t) * aitisa_tensor_data_type(t).size,
                   aitisa_tensor_ndim(t) * 8};
  const void *r2[3] = {u, aitisa_tensor_data(u), aitisa_tensor_dims(u)};
  int64_t n2[3] = {(int64_t)sizeof *u, aitisa_tensor_size(u) * aitisa_tensor_data_type(u).size,
                   aitisa_tensor_ndim(u) * 8};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (overlap(r1[i], n1[i], r2[j], n2[j])) return 1;
  return 0;
}
static void put_tensor(Tensor t) {
  int code = (int)aitisa_tensor_data_type(t).code;
  int64_t n = aitisa_tensor_size(t), nd = aitisa_tensor_ndim(t);
  int ok = code >= 0 && code < 10 && n >= 0 && n <= (64 << 20);
  fprintf(g_out, "{\"dt\":%d,\"ts\":%d,\"dv\":%d,\"di\":%d,\"lay\":%d,\"sz\":", code,
          aitisa_tensor_data_type(t).size, (int)aitisa_tensor_device(t).type,
          aitisa_tensor_device(t).id, (int)aitisa_tensor_layout_type(t));
  put_int(n);
  put(",\"dims\":");
  if (nd < 0 || nd > 4096) put("[-1]");
  else put_arr64(aitisa_tensor_dims(t), nd);
  put(",\"data\":");
  if (ok && n <= (1 << 20)) put_data(g_kind, code, aitisa_tensor_data(t), n);
  else put("[]");
  put("}");
}

/* --------------------------------------------- shapes and storages on their own */

#define PARTS 6
typedef struct {
  int made; /* 0 no, 1 yes, 2 destroyed */
  int64_t g0;
  Shape s;
  int64_t g1;
  Snap snap;
} ShapePart;
typedef struct {
  int made;
  Storage s;
  Snap snap;
} StorePart;
static ShapePart g_shape[PARTS];
static StorePart g_store[PARTS];
#define G0 0x1234567812345678LL

static void snap_shape(int i) {
  ShapePart *p = &g_shape[i];
  memset(&p->snap, 0, sizeof p->snap);
  if (p->made != 1) return;
  p->snap.dimsp = p->s.dims;
  p->snap.data = p->s.layout.min2maj;
  p->snap.ndim = p->s.ndim;
  p->snap.lay = (int)p->s.layout.type;
  for (int64_t k = 0; k < p->s.ndim && k < MAXARR / 2; k++) {
    p->snap.dims[k] = p->s.dims[k];
    p->snap.dims[MAXARR / 2 + k] = p->s.layout.min2maj[k];
  }
}
static int same_shape(int i) {
  ShapePart *p = &g_shape[i];
  if (p->made != 1) return 1;
  if (p->g0 != G0 || p->g1 != G0 || p->snap.dimsp != p->s.dims || p->snap.data != p->s.layout.min2maj ||
      p->snap.ndim != p->s.ndim || p->snap.lay != (int)p->s.layout.type)
    return 0;
  for (int64_t k = 0; k < p->s.ndim && k < MAXARR / 2; k++)
    if (p->snap.dims[k] != p->s.dims[k] || p->snap.dims[MAXARR / 2 + k] != p->s.layout.min2maj[k]) return 0;
  return 1;
}
static void snap_store(int i) {
  StorePart *p = &g_store[i];
  if (p->snap.bytes) __real_free(p->snap.bytes);
  memset(&p->snap, 0, sizeof p->snap);
  if (p->made != 1) return;
  p->snap.data = p->s->data;
  p->snap.code = p->s->dtype.code;
  p->snap.tsize = p->s->dtype.size;
  p->snap.dv = p->s->device.type;
  p->snap.di = p->s->device.id;
  p->snap.size = p->s->size;
  p->snap.nbytes = p->s->size * p->s->dtype.size;
  if (p->snap.nbytes > (int64_t)BIG) p->snap.nbytes = 64;
  p->snap.bytes = __real_malloc((size_t)p->snap.nbytes + 1);
  memcpy(p->snap.bytes, p->s->data, (size_t)p->snap.nbytes);
}
static int same_store(int i) {
  StorePart *p = &g_store[i];
  if (p->made != 1) return 1;
  return p->snap.data == p->s->data && p->snap.code == (int)p->s->dtype.code && p->snap.tsize == p->s->dtype.size &&
         p->snap.dv == (int)p->s->device.type && p->snap.di == p->s->device.id && p->snap.size == p->s->size &&
         !memcmp(p->snap.bytes, p->s->data, (size_t)p->snap.nbytes);
}

/* ------------------------------------------------------- caller's own arrays */

static void *arr_add(const void *src, size_t n) {
  Arr *a = &g_arr[g_narr];
  if (g_rdonly == 2)
    for (int i = 0; i < g_narr; i++)
      if (g_arr[i].n == n && !memcmp(g_arr[i].p, src, n)) return g_arr[i].p;
  g_narr++;
  a->p = g_rdonly ? mmap(NULL, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) : __real_malloc(n);
  if (a->p == MAP_FAILED) die("mmap");
  a->copy = __real_malloc(n + 1);
  a->n = n;
  a->mapped = g_rdonly;
  memcpy(a->p, src, n);
  memcpy(a->copy, src, n);
  return a->p;
}
static int64_t *arr64(const int64_t *v, int n) {
  if (g_rdonly == 2)
    for (int i = 0; i < SLOTS; i++)
      if (g_used[i] && n && aitisa_tensor_ndim(g_slot[i]) == n &&
          !memcmp(aitisa_tensor_dims(g_slot[i]), v, sizeof *v * (size_t)n))
        return aitisa_tensor_dims(g_slot[i]);
  return arr_add(v, sizeof *v * (size_t)n);
}
static int *arr32(const int64_t *v, int n) {
  int tmp[MAXARR];
  for (int i = 0; i < n; i++) tmp[i] = (int)v[i];
  return arr_add(tmp, sizeof *tmp * (size_t)n);
}
static void arr_check(void) {
  g_argchanged = 0;
  for (int i = 0; i < g_narr; i++)
    if (memcmp(g_arr[i].p, g_arr[i].copy, g_arr[i].n)) g_argchanged = 1;
}
static int arr_overlap(Tensor t) {
  for (int i = 0; i < g_narr; i++) {
    if (overlap(aitisa_tensor_data(t), aitisa_tensor_size(t) * aitisa_tensor_data_type(t).size,
                g_arr[i].p, (int64_t)g_arr[i].n))
      return 1;
    if (overlap(aitisa_tensor_dims(t), aitisa_tensor_ndim(t) * 8, g_arr[i].p, (int64_t)g_arr[i].n))
      return 1;
  }
  return 0;
}
static void arr_drop(void) {
  for (int i = 0; i < g_narr; i++) {
    memset(g_arr[i].p, 0x7b, g_arr[i].n);
    if (g_arr[i].mapped) munmap(g_arr[i].p, g_arr[i].n + 1);
    else __real_free(g_arr[i].p);
    __real_free(g_arr[i].copy);
  }
  g_narr = 0;
}

/* ------------------------------------------------------------- running calls */

static int g_seg;

static void put_cmd(const Cmd *c, int fk) {
  fprintf(g_out, "{\"op\":\"%s\",\"seg\":%d,\"o\":%d,\"p\":%d,\"h\":%d,\"dt\":%d,\"dv\":%d,\"di\":%d,"
          "\"len\":%d,\"m\":\"%s\",\"key\":\"%s\",\"fk\":%d,\"fm\":%d,\"hasx\":%d,",
          c->op, g_seg, c->o, c->p, c->h, c->dt, c->dv, c->di, c->len, c->m, c->key, fk, c->fm, c->hasx);
  put("\"t\":[");
  for (int i = 0; i < c->nt; i++) fprintf(g_out, "%s%d", i ? "," : "", c->t[i]);
  put("],\"dims\":");
  put_arr64(c->dims, c->ndims);
  put(",\"a\":");
  put_arr64(c->a, c->na);
  put(",\"b\":");
  put_arr64(c->b, c->nb);
  put(",\"c\":");
  put_arr64(c->c, c->nc);
  put(",\"d\":");
  put_arr64(c->d, c->nd);
  put(",\"n\":");
  put_arr64(c->n, c->nn);
  put(",\"xd\":");
  put_el('w', 9, (const unsigned char *)&c->xd);
  put(",\"x\":");
  if (c->hasx && c->dt >= 0 && c->dt < 10) put_data(g_kind, c->dt, c->x, c->nx / SIZES[c->dt]);
  else put("[]");
}

/* What a call of the library produced. */
typedef struct {
  int st;        /* status, or 0 for functions without one */
  Tensor out;    /* new value of the handle */
  int hashandle; /* whether the call has an output handle */
  int64_t *ret;  /* numbers returned */
  int64_t nret;
  int guard;     /* whether memory next to a caller's array was written */
  int adopt;     /* id of the data block handed over, or 0 */
  int same;      /* create: data pointer is the buffer handed over */
  int skipset;   /* slot whose contents the call is meant to change */
  int part;      /* 100 + k, 200 + k: shape or storage k, which it is about */
} Res;

static int g_curadopt;

#define RETS(n) (r->nret = (n), r->ret = __real_calloc((size_t)(n) + 1, 8))

static void coords_of(int64_t idx, const int64_t *dims, int nd, int64_t *co) {
  for (int k = nd - 1; k >= 0; k--) {
    co[k] = idx % dims[k];
    idx /= dims[k];
  }
}

/* Index functions of one tensor, for the linear indices c->a (all when empty).
 * Every output array stands between two guard cells. */
static void run_index(const Cmd *c, Tensor t, Res *r) {
  int nd = (int)aitisa_tensor_ndim(t);
  int64_t dims[MAXARR], sz = aitisa_tensor_size(t), cnt = c->na ? c->na : sz, w = 0;
  const int64_t G = 0x1122334455667788LL;
  for (int k = 0; k < nd; k++) dims[k] = aitisa_tensor_dim(t, k);
  RETS(2 * nd + cnt * (3 + 2 * nd) + 1);
  r->nret--;
  int64_t *buf = __real_malloc(sizeof(int64_t) * (size_t)(nd + 2));
#define GUARD() (buf[0] != G || buf[nd + 1] != G)
#define FILL() for (int k = 0; k < nd + 2; k++) buf[k] = G
  g_inlib = 1;
  for (int k = 0; k < nd; k++) r->ret[w++] = aitisa_get_stride(t, k);
  FILL();
  aitisa_get_all_strides(t, buf + 1);
  r->guard |= GUARD();
  for (int k = 0; k < nd; k++) r->ret[w++] = buf[1 + k];
  for (int64_t i = 0; i < cnt; i++) {
    int64_t idx = c->na ? c->a[i] : i, co[MAXARR];
    coords_of(idx, dims, nd, co);
    r->ret[w++] = idx;
    FILL();
    memcpy(buf + 1, co, sizeof(int64_t) * (size_t)nd);
    r->ret[w++] = aitisa_coords_to_linidx(t, buf + 1, nd);
    r->ret[w++] = aitisa_coords_to_offset(t, buf + 1, nd);
    r->guard |= GUARD() || memcmp(buf + 1, co, sizeof(int64_t) * (size_t)nd);
    FILL();
    aitisa_linidx_to_coords(t, idx, buf + 1);
    r->guard |= GUARD();
    for (int k = 0; k < nd; k++) r->ret[w++] = buf[1 + k];
    FILL();
    aitisa_offset_to_coords(t, idx, buf + 1);
    r->guard |= GUARD();
    for (int k = 0; k < nd; k++) r->ret[w++] = buf[1 + k];
  }
  g_inlib = 0;
  __real_free(buf);
}

static void ret_shape(const Shape *s, Res *r) {
  int64_t nd = s->ndim > 0 && s->ndim < 4096 ? s->ndim : 0;
  RETS(2 + 2 * nd);
  r->ret[0] = s->ndim;
  r->ret[1] = s->layout.type;
  for (int64_t k = 0; k < nd; k++) {
    r->ret[2 + k] = s->dims[k];
    r->ret[2 + nd + k] = s->layout.min2maj[k];
  }
}
static void ret_store(Storage s, int dataok, Res *r) {
  RETS(7);
  int64_t f[7] = {1, s->dtype.code, s->dtype.size, s->device.type, s->device.id, s->size, dataok};
  memcpy(r->ret, f, sizeof f);
}

/* Takes away, or gives back, the right to write to the user's arrays and data. */
static void protect_block(void *p, int how) {
  for (Block *b = g_blocks[hashp(p)]; b; b = b->next)
    if (b->p == p && b->mapped) {
      size_t n = b->size + (size_t)((char *)b->p - (char *)b->base);
      mprotect(b->base, n ? n : 1, how);
    }
}
static void protect(const Cmd *c, int how) {
  for (int i = 0; i < g_narr; i++)
    if (g_arr[i].mapped) mprotect(g_arr[i].p, g_arr[i].n + 1, how);
  if (!strcmp(c->op, "destroy") || !strcmp(c->op, "setitem") || !strcmp(c->op, "poke")) return;
  for (int i = 0; i < SLOTS; i++)
    if (g_used[i]) protect_block(aitisa_tensor_data(g_slot[i]), how);
}

static int run_call(const Cmd *c, Res *r) {
  const char *op = c->op;
  Tensor in[8];
  Tensor *oh = NULL, local;
  Device dev = {(DeviceType)c->dv, c->di};
  DataType dt = mk_dtype(c->dt);
  memset(r, 0, sizeof *r);
  r->skipset = r->part = -1;
  for (int i = 0; i < c->nt; i++) in[i] = g_slot[c->t[i]];
  if (c->o >= 0) {
    r->hashandle = 1;
    local = c->h == 2 ? g_slot[c->o] : c->h == 1 ? NULL : SENTINEL;
    oh = &local;
  }
#define A64(f) arr64(c->f, c->n##f)
#define A32(f) arr32(c->f, c->n##f)
#define CALL(e)    \
  do {             \
    if (g_rdonly) protect(c, PROT_READ); \
    g_inlib = 1;   \
    e;             \
    g_inlib = 0;   \
    if (g_rdonly) protect(c, PROT_READ | PROT_WRITE); \
  } while (0)
  if (!strcmp(op, "create")) {
    int64_t *dims = A64(dims);
    void *data = NULL;
    int nmem = g_nmem;
    if (c->hasx) {
      size_t n = c->nx > 0 ? (size_t)c->nx : 1;
      int fk = g_fk;
      g_fk = 0;
      g_inlib = 1;
      data = g_custom ? custom_alloc(n) : lib_alloc(n, 0);
      g_inlib = 0;
      g_fk = fk;
      g_nmem = nmem; /* not an allocation of the library */
      g_nalloc = 0;
      g_curadopt = r->adopt = block_id(data);
      memcpy(data, c->x, (size_t)c->nx);
    }
    if (g_rdonly) protect_block(data, PROT_READ);
    CALL(r->st = aitisa_create(dt, dev, dims, c->ndims, data, (unsigned)c->len, oh));
    if (g_rdonly) protect_block(data, PROT_READ | PROT_WRITE);
    if (c->hasx) {
      r->same = r->st == 0 && local != SENTINEL && local && aitisa_tensor_data(local) == data;
      if (r->st != 0 && block_id(data) == r->adopt) {
        /* still the caller's: its bytes must be untouched, and it can be freed */
        if (memcmp(data, c->x, (size_t)c->nx)) r->guard = 1;
        nmem = g_nmem;
        lib_free(data, g_custom);
        g_nmem = nmem;
      }
    }
  } else if (!strcmp(op, "full")) {
    int64_t *dims = A64(dims);
    CALL(r->st = aitisa_full(dt, dev, dims, c->ndims, c->xd, oh));
  } else if (!strcmp(op, "destroy")) {
    Tensor h = in[0];
    r->skipset = c->t[0];
    CALL(r->st = aitisa_destroy(&h));
    r->hashandle = 1;
    r->out = h;
    RETS(1);
    r->ret[0] = h == NULL;
    return 1;
  } else if (!strcmp(op, "destroynull")) {
    Tensor h = NULL;
    CALL(r->st = aitisa_destroy(&h));
    RETS(1);
    r->ret[0] = h == NULL;
  } else if (!strcmp(op, "resolve")) {
    DataType d2;
    Device v2 = {DEVICE_CPU, -9};
    int64_t *dims2 = NULL, nd2 = -9;
    void *data2 = NULL;
    unsigned len2 = 0;
    memset(&d2, 0x55, sizeof d2);
    CALL(r->st = aitisa_resolve(in[0], &d2, &v2, &dims2, &nd2, &data2, &len2));
    RETS(9 + (nd2 > 0 && nd2 < 4096 ? nd2 : 0));
    int64_t f[9] = {d2.code, d2.size, v2.type, v2.id, nd2, len2, data2 == aitisa_tensor_data(in[0]),
                    dims2 == aitisa_tensor_dims(in[0]), 0};
    memcpy(r->ret, f, sizeof f);
    for (int64_t k = 0; k < nd2 && nd2 < 4096; k++) r->ret[9 + k] = dims2[k];
  } else if (!strcmp(op, "inspect")) {
    /* every accessor of a tensor */
    Tensor t = in[0];
    int64_t nd, w = 0;
    g_inlib = 1;
    nd = aitisa_tensor_ndim(t);
    if (nd < 0 || nd > 4096) nd = 0;
    RETS(16 + 3 * nd);
    r->ret[w++] = aitisa_tensor_ndim(t);
    r->ret[w++] = aitisa_tensor_size(t);
    r->ret[w++] = aitisa_tensor_data_type(t).code;
    r->ret[w++] = aitisa_tensor_data_type(t).size;
    r->ret[w++] = aitisa_tensor_device(t).type;
    r->ret[w++] = aitisa_tensor_device(t).id;
    r->ret[w++] = aitisa_tensor_layout_type(t);
    r->ret[w++] = aitisa_tensor_shape(t).ndim;
    r->ret[w++] = aitisa_tensor_shape(t).dims == aitisa_tensor_dims(t);
    r->ret[w++] = aitisa_tensor_shape(t).layout.type;
    r->ret[w++] = aitisa_tensor_storage(t)->size;
    r->ret[w++] = aitisa_tensor_storage(t)->dtype.code;
    r->ret[w++] = aitisa_tensor_storage(t)->dtype.size;
    r->ret[w++] = aitisa_tensor_storage(t)->device.type;
    r->ret[w++] = aitisa_tensor_storage(t)->device.id;
    r->ret[w++] = aitisa_tensor_storage(t)->data == aitisa_tensor_data(t);
    for (int64_t k = 0; k < nd; k++) r->ret[w++] = aitisa_tensor_dim(t, k);
    for (int64_t k = 0; k < nd; k++) r->ret[w++] = aitisa_tensor_dims(t)[k];
    for (int64_t k = 0; k < nd; k++) r->ret[w++] = aitisa_get_stride(t, k);
    g_inlib = 0;
  } else if (!strcmp(op, "setitem")) {
    void *v = arr_add(c->x, (size_t)c->nx);
    r->skipset = c->t[0];
    CALL(aitisa_tensor_set_item(in[0], c->n[0], v));
  } else if (!strcmp(op, "poke")) {
    /* the user writes to the tensor's data directly */
    r->skipset = c->t[0];
    memcpy(aitisa_tensor_data(in[0]), c->x, (size_t)c->nx);
  } else if (!strcmp(op, "slice")) {
    int *a = A32(a), *b = A32(b), *s = A32(c);
    CALL(r->st = aitisa_slice(in[0], a, b, s, oh));
  } else if (!strcmp(op, "duplicate")) {
    CALL(r->st = aitisa_duplicate(in[0], oh));
  } else if (!strcmp(op, "squeeze")) {
    int64_t *a = A64(a);
    CALL(r->st = aitisa_squeeze(in[0], a, c->n[0], oh));
  } else if (!strcmp(op, "reshape")) {
    int64_t *a = A64(dims);
    CALL(r->st = aitisa_reshape(in[0], a, c->ndims, oh));
  } else if (!strcmp(op, "cast")) {
    CALL(r->st = aitisa_cast(in[0], dt, oh));
  } else if (!strcmp(op, "add")) {
    CALL(r->st = aitisa_add(in[0], in[1], oh));
  } else if (!strcmp(op, "sub")) {
    CALL(r->st = aitisa_sub(in[0], in[1], oh));
  } else if (!strcmp(op, "mul")) {
    CALL(r->st = aitisa_mul(in[0], in[1], oh));
  } else if (!strcmp(op, "div")) {
    CALL(r->st = aitisa_div(in[0], in[1], oh));
  } else if (!strcmp(op, "matmul")) {
    CALL(r->st = aitisa_matmul(in[0], in[1], oh));
  } else if (!strcmp(op, "dot")) {
    CALL(r->st = aitisa_dot(in[0], in[1], oh));
  } else if (!strcmp(op, "sqrt")) {
    CALL(r->st = aitisa_sqrt(in[0], oh));
  } else if (!strcmp(op, "relu")) {
    CALL(r->st = aitisa_relu(in[0], oh));
  } else if (!strcmp(op, "sigmoid")) {
    CALL(r->st = aitisa_sigmoid(in[0], oh));
  } else if (!strcmp(op, "tanh")) {
    CALL(r->st = aitisa_tanh(in[0], oh));
  } else if (!strcmp(op, "softmax")) {
    CALL(r->st = aitisa_softmax(in[0], (int)c->n[0], oh));
  } else if (!strcmp(op, "dropout")) {
    CALL(r->st = aitisa_dropout(in[0], c->xd, oh));
  } else if (!strcmp(op, "batch_norm")) {
    CALL(r->st = aitisa_batch_norm(in[0], (int)c->n[0], in[1], in[2], in[3], in[4], c->xd, oh));
  } else if (!strcmp(op, "conv") || !strcmp(op, "conv2d") || !strcmp(op, "conv3d")) {
    int *s = A32(a), *p = A32(b), *d = A32(c), g = (int)c->n[0];
    if (op[4] == 0) CALL(r->st = aitisa_conv(in[0], in[1], s, p, d, g, oh));
    else if (op[4] == '2')
      CALL(r->st = aitisa_conv2d(in[0], in[1], s, c->na, p, c->nb, d, c->nc, g, oh));
    else CALL(r->st = aitisa_conv3d(in[0], in[1], s, c->na, p, c->nb, d, c->nc, g, oh));
  } else if (!strcmp(op, "pooling")) {
    int *k = A32(a), *s = A32(b), *p = A32(c), *d = A32(d);
    char *m = arr_add(c->m, strlen(c->m) + 1);
    CALL(r->st = aitisa_pooling(in[0], m, k, s, p, d, oh));
  } else if (!strcmp(op, "index")) {
    run_index(c, in[0], r);
  } else if (!strcmp(op, "windex")) {
    /* the same for a tensor with more elements than 32 bits count: it adopts a
       buffer said to hold them, which these functions have no business with */
    int64_t *dims = A64(dims);
    Tensor t = NULL;
    g_inlib = 1;
    void *data = g_custom ? custom_alloc(64) : lib_alloc(64, 0);
    r->st = aitisa_create(dt, dev, dims, c->ndims, data, (unsigned)c->n[0], &t);
    g_inlib = 0;
    if (r->st == 0) {
      run_index(c, t, r);
      r->ret[r->nret++] = aitisa_tensor_size(t);
      CALL(aitisa_destroy(&t));
    } else CALL(lib_free(data, g_custom));
  } else if (!strcmp(op, "bcast") || !strcmp(op, "wbcast")) {
    int64_t *a = A64(a), *b = A64(b);
    int64_t no = c->n[0];
    RETS(no);
    for (int64_t k = 0; k < no; k++) r->ret[k] = -77;
    int64_t *o = __real_malloc(sizeof(int64_t) * (size_t)(no + 2));
    for (int64_t k = 0; k < no + 2; k++) o[k] = -77;
    CALL(r->st = aitisa_broadcast_array(a, c->na, b, c->nb, o + 1, no));
    r->guard = o[0] != -77 || o[no + 1] != -77;
    memcpy(r->ret, o + 1, sizeof(int64_t) * (size_t)no);
    __real_free(o);
  } else if (!strcmp(op, "sizes") || !strcmp(op, "wsizes")) {
    /* all the size helpers over one dims array */
    int64_t *dims = A64(dims), w = 0;
    int nd = c->ndims;
    RETS(1 + 2 * (nd + 1) + (nd + 1) * (nd + 1));
    g_inlib = 1;
    r->ret[w++] = size_of_dims(dims, nd);
    for (int k = 0; k <= nd; k++) r->ret[w++] = size_from_dim(k, dims, nd);
    for (int k = 0; k <= nd; k++) r->ret[w++] = size_to_dim(k, dims, nd);
    for (int k = 0; k <= nd; k++)
      for (int l = 0; l <= nd; l++) r->ret[w++] = size_between_dim(k, l, dims, nd);
    g_inlib = 0;
  } else if (!strcmp(op, "typed")) {
    /* get/set of one element, single and array, at index n[0] of a buffer x;
       n[1]: 0 get 1 getarr 2 set 3 setarr.  Records the buffer (n elements)
       and the value cell, which stands between two more cells. */
    int sz = SIZES[c->dt];
    int64_t i = c->n[0], n = c->nx / sz, which = c->n[1];
    /* x holds n-1 elements of the buffer, then the value */
    unsigned char *bufp = __real_malloc((size_t)(sz * (n - 1)));
    unsigned char *val = __real_malloc((size_t)(3 * sz));
    memcpy(bufp, c->x, (size_t)(sz * (n - 1)));
    for (int k = 0; k < 3; k++) memcpy(val + k * sz, c->x + sz * (n - 1), (size_t)sz);
    g_inlib = 1;
    if (which == 0) aitisa_get_typed_value_func(dt)(bufp + i * sz, val + sz);
    if (which == 1) aitisa_get_typed_array_value_func(dt)(bufp, i, val + sz);
    if (which == 2) aitisa_set_typed_value_func(dt)(bufp + i * sz, val + sz);
    if (which == 3) aitisa_set_typed_array_value_func(dt)(bufp, i, val + sz);
    g_inlib = 0;
    r->guard = memcmp(val, c->x + sz * (n - 1), (size_t)sz) ||
               memcmp(val + 2 * sz, c->x + sz * (n - 1), (size_t)sz);
    put_cmd(c, 0);
    put(",\"res\":");
    put_data(g_kind, c->dt, bufp, n - 1);
    put(",\"val\":");
    put_el(g_kind, c->dt, val + sz);
    __real_free(bufp);
    __real_free(val);
    return 2;
  } else if (!strcmp(op, "dropstat")) {
    /* n[0] dropouts of a tensor without zeros: how often each element became
       zero, and the smallest and largest number of zeros in one result */
    int64_t sz = aitisa_tensor_size(in[0]), es = aitisa_tensor_data_type(in[0]).size, bad = 0;
    static const unsigned char zero[8];
    RETS(sz + 1);
    for (int64_t k = 0; k < c->n[0]; k++) {
      Tensor out = NULL;
      CALL(r->st = aitisa_dropout(in[0], c->xd, &out));
      if (r->st != STATUS_SUCCESS || !out) break;
      const char *p = aitisa_tensor_data(out), *q = aitisa_tensor_data(in[0]);
      for (int64_t i = 0; i < sz; i++) {
        if (!memcmp(p + i * es, zero, (size_t)es)) r->ret[i]++;
        else if (memcmp(p + i * es, q + i * es, (size_t)es)) bad++;
      }
      CALL(aitisa_destroy(&out));
    }
    r->ret[sz] = bad;
    g_nmem = 0;
  } else if (!strcmp(op, "castto")) {
    /* converts xd to dt, between two cells */
    int sz = SIZES[c->dt];
    unsigned char *val = __real_malloc((size_t)(3 * sz));
    double *v = arr_add(&c->xd, 8);
    memset(val, 0x3c, (size_t)(3 * sz));
    CALL(aitisa_castto_typed_value_func(dt)(val + sz, v));
    for (int k = 0; k < sz; k++) r->guard |= val[k] != 0x3c || val[2 * sz + k] != 0x3c;
    put_cmd(c, 0);
    put(",\"val\":");
    put_el(g_kind, c->dt, val + sz);
    __real_free(val);
    return 2;
  } else if (!strcmp(op, "shape")) {
    ShapePart *p = &g_shape[c->p];
    int64_t *dims = A64(dims);
    r->part = 100 + c->p;
    memset(&p->s, 0x5e, sizeof p->s);
    p->g0 = p->g1 = G0;
    CALL(r->st = aitisa_create_shape((LayoutType)c->n[0], dims, c->ndims, &p->s));
    r->guard = p->g0 != G0 || p->g1 != G0;
    p->made = r->st == STATUS_SUCCESS;
    if (p->made) ret_shape(&p->s, r);
  } else if (!strcmp(op, "lookshape")) {
    ret_shape(&g_shape[c->p].s, r);
  } else if (!strcmp(op, "unshape")) {
    ShapePart *p = c->p >= 0 ? &g_shape[c->p] : NULL;
    if (p) r->part = 100 + c->p;
    CALL(r->st = aitisa_destroy_shape(p ? &p->s : NULL));
    RETS(2);
    r->ret[0] = !p || p->s.dims == NULL;
    r->ret[1] = !p || p->s.layout.min2maj == NULL;
    if (p) p->made = 2;
  } else if (!strcmp(op, "storage")) {
    StorePart *p = &g_store[c->p];
    Storage const before = (Storage)SENTINEL;
    void *data = NULL;
    int nmem = g_nmem, fk = g_fk;
    r->part = 200 + c->p;
    if (c->hasx) {
      g_fk = 0;
      g_inlib = 1;
      /* a storage of a great many elements: memory for them all, the first few of them set */
      size_t all = (size_t)c->n[0] * (size_t)dt.size;
      if (all < (size_t)c->nx) all = (size_t)c->nx;
      data = g_custom ? custom_alloc(all) : lib_alloc(all, 0);
      g_inlib = 0;
      g_fk = fk;
      g_nmem = nmem;
      g_nalloc = 0;
      if (!data) return 0;
      g_curadopt = r->adopt = block_id(data);
      memcpy(data, c->x, (size_t)c->nx);
    }
    p->s = before;
    CALL(r->st = aitisa_create_storage(dt, dev, c->n[0], data, &p->s));
    p->made = r->st == STATUS_SUCCESS && p->s != before && p->s;
    if (p->made) {
      int ok = 0;
      if (data) {
        ok = p->s->data == data;
        if (block_id(data) != r->adopt || memcmp(data, c->x, (size_t)c->nx)) r->guard = 1;
      } else {
        for (Block *b = g_blocks[hashp(p->s->data)]; b; b = b->next)
          if (b->p == p->s->data && (int64_t)b->size >= c->n[0] * dt.size) ok = 1;
        if (ok && c->n[0] * dt.size <= (int64_t)BIG) memset(p->s->data, 0x40 + c->p, (size_t)(c->n[0] * dt.size));
      }
      ret_store(p->s, ok, r);
    } else {
      RETS(1);
      r->ret[0] = p->s != before;
      p->s = NULL;
      if (data && block_id(data) == r->adopt) {
        if (memcmp(data, c->x, (size_t)c->nx)) r->guard = 1;
        nmem = g_nmem;
        lib_free(data, g_custom);
        g_nmem = nmem;
      }
    }
  } else if (!strcmp(op, "lookstorage")) {
    ret_store(g_store[c->p].s, 1, r);
  } else if (!strcmp(op, "unstorage")) {
    /* n[0] = 1: the user takes the data out first */
    StorePart *p = c->p >= 0 ? &g_store[c->p] : NULL;
    Storage none = NULL;
    void *taken = NULL;
    int id = 0;
    if (p) r->part = 200 + c->p;
    if (p && p->s && c->n[0]) {
      taken = p->s->data;
      id = block_id(taken);
      p->s->data = NULL;
    }
    CALL(r->st = aitisa_destroy_storage(p ? &p->s : &none));
    RETS(2);
    r->ret[0] = (p ? p->s : none) == NULL;
    r->ret[1] = id;
    if (taken && block_id(taken) == id) {
      int nmem = g_nmem;
      lib_free(taken, g_custom);
      g_nmem = nmem;
    }
    if (p) p->made = 2, p->s = NULL;
  } else die("unknown op");
  r->out = oh ? local : NULL;
  return 1;
}

static int first_free(void) {
  for (int i = 0; i < SLOTS; i++)
    if (!g_used[i]) return i;
  die("no slot");
  return -1;
}

static void put_mem(void) {
  put(",\"mem\":[");
  for (int i = 0; i < g_nmem; i++)
    fprintf(g_out, "%s[%d,%d]", i ? "," : "", g_mem[i][0], g_mem[i][1]);
  put("]");
}
static void put_changed(int except, int part) {
  int first = 1;
  put(",\"chg\":[");
  for (int i = 0; i < SLOTS; i++)
    if (g_used[i] && i != except && !same_as_snap(i)) {
      fprintf(g_out, "%s%d", first ? "" : ",", i);
      first = 0;
    }
  for (int i = 0; i < PARTS; i++) {
    if (100 + i != part && !same_shape(i)) {
      fprintf(g_out, "%s%d", first ? "" : ",", 100 + i);
      first = 0;
    }
    if (200 + i != part && !same_store(i)) {
      fprintf(g_out, "%s%d", first ? "" : ",", 200 + i);
      first = 0;
    }
  }
  put("]");
}

static int run_it(const Cmd *c, int fk, Res *r) {
  int how;
  g_nmem = 0;
  g_nalloc = 0;
  g_fired = 0;
  g_fk = fk;
  g_fm = c->fm;
  g_argchanged = 0;
  g_narr = 0;
  how = run_call(c, r);
  g_fk = 0;
  return how;
}

/* Writes the event of a call that was run. */
static int record(const Cmd *c, int fk, int how, Res rr) {
  Res r = rr;
  int changed, newtensor = 0, al[SLOTS], nal = 0;
  arr_check();
  g_wide = c->op[0] == 'w'; /* wbcast, wsizes: extents beyond 32 bits */
  if (how == 1) put_cmd(c, fk);
  if (!strcmp(c->op, "destroy")) {
    g_used[c->t[0]] = 0;
    g_slot[c->t[0]] = NULL;
    unsnap(c->t[0]);
    changed = 1;
  } else {
    Tensor before = c->o < 0 ? NULL : c->h == 2 ? g_slot[c->o] : c->h == 1 ? NULL : SENTINEL;
    changed = c->o >= 0 && r.out != before;
    if (changed && r.st == 0 && r.out && r.out != SENTINEL) newtensor = 1;
  }
  put_changed(r.skipset, r.part);
  if (newtensor) {
    if (c->h == 2) {
      /* the variable's old tensor goes on living in slot p */
      if (c->p < 0 || g_used[c->p]) die("slot p");
      g_slot[c->p] = g_slot[c->o];
      g_used[c->p] = 1;
      snap(c->p);
      unsnap(c->o);
    } else if (g_used[c->o]) die("slot o in use");
    g_slot[c->o] = r.out;
    g_used[c->o] = 1;
    for (int i = 0; i < SLOTS; i++)
      if (g_used[i] && i != c->o && tensors_overlap(r.out, g_slot[i])) al[nal++] = i;
    if (arr_overlap(r.out)) al[nal++] = -1;
  }
  put(",\"al\":[");
  for (int i = 0; i < nal; i++) fprintf(g_out, "%s%d", i ? "," : "", al[i]);
  fprintf(g_out, "],\"st\":%d,\"oh\":%d,\"has\":%d,\"ac\":%d,\"gd\":%d,\"fired\":%d,\"adopt\":%d,\"same\":%d",
          r.st, changed, newtensor, g_argchanged, r.guard, g_fired, r.adopt, r.same);
  put_mem();
  put(",\"ret\":");
  put_arr64(r.ret ? r.ret : (int64_t *)"", r.nret);
  g_wide = 0;
  if (r.ret) __real_free(r.ret);
  if (r.part >= 200) snap_store(r.part - 200);
  else if (r.part >= 100) snap_shape(r.part - 100);
  arr_drop(); /* before the tensor is read: it must not depend on them */
  put(",\"out\":");
  if (newtensor) {
    put_tensor(r.out);
    snap(c->o);
  } else if (r.skipset >= 0 && g_used[r.skipset]) {
    put_tensor(g_slot[r.skipset]);
    snap(r.skipset);
  } else put("{}");
  put("}\n");
  fflush(g_out);
  return g_fired;
}

/* Runs one command with the given fault; returns whether the fault fired. */
static int exec_one(const Cmd *c, int fk) {
  Res r;
  int how = run_it(c, fk, &r);
  return record(c, fk, how, r);
}

/* Two calls at a time: they run in threads of their own, and one goes on
   while the other waits.  The turn passes after a number of instrumentation
   points (the library is compiled with -fsanitize-coverage=trace-pc), and when
   a call is over. */
static pthread_mutex_t g_turnlock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t g_turncond = PTHREAD_COND_INITIALIZER;
static int g_pairing, g_turn, g_done[2], g_free, g_swpos, g_nsw;
static int64_t g_sw[MAXARR];

static void pass_turn(int me, int waiting) {
  struct timespec ts;
  pthread_mutex_lock(&g_turnlock);
  if (!g_done[1 - me] && !g_free) {
    g_turn = 1 - me;
    g_ctx[1 - me].left = g_swpos < g_nsw ? (long)g_sw[g_swpos++] : 0;
    pthread_cond_broadcast(&g_turncond);
    clock_gettime(CLOCK_REALTIME, &ts);
    ts.tv_sec += 3;
    while (waiting && g_turn != me && !g_free)
      /* the other may be waiting for something this call holds */
      if (pthread_cond_timedwait(&g_turncond, &g_turnlock, &ts) == ETIMEDOUT) g_free = 1;
    if (g_free) pthread_cond_broadcast(&g_turncond);
  }
  pthread_mutex_unlock(&g_turnlock);
}
void __sanitizer_cov_trace_pc(void) {
  if (!g_pairing || !cx->inlib) return;
  cx->count++;
  if (cx->left > 0 && --cx->left == 0) pass_turn((int)(cx - g_ctx), 1);
}
typedef struct {
  const Cmd *c;
  Res r;
  int how, me;
} Job;
static void *run_job(void *v) {
  Job *j = v;
  cx = &g_ctx[j->me];
  pthread_mutex_lock(&g_turnlock);
  while (g_turn != j->me && !g_free) pthread_cond_wait(&g_turncond, &g_turnlock);
  pthread_mutex_unlock(&g_turnlock);
  j->how = run_it(j->c, 0, &j->r);
  pthread_mutex_lock(&g_turnlock);
  g_done[j->me] = 1;
  g_turn = 1 - j->me;
  g_ctx[1 - j->me].left = 0;
  pthread_cond_broadcast(&g_turncond);
  pthread_mutex_unlock(&g_turnlock);
  return NULL;
}
/* returns the number of points the first call passed */
static long exec_pair(const Cmd *a, const Cmd *b, const int64_t *sw, int nsw) {
  Job j[2] = {{.c = a, .me = 0}, {.c = b, .me = 1}};
  pthread_t th[2];
  memcpy(g_sw, sw, sizeof(int64_t) * (size_t)nsw);
  g_nsw = nsw;
  g_swpos = 1;
  g_turn = g_done[0] = g_done[1] = g_free = 0;
  g_ctx[0].left = nsw ? (long)sw[0] : 0;
  g_ctx[1].left = 0;
  g_ctx[0].count = g_ctx[1].count = 0;
  g_pairing = 1;
  for (int i = 0; i < 2; i++)
    if (pthread_create(&th[i], NULL, run_job, &j[i])) die("thread");
  for (int i = 0; i < 2; i++) pthread_join(th[i], NULL);
  g_pairing = 0;
  for (int i = 0; i < 2; i++) {
    cx = &g_ctx[i];
    record(j[i].c, 0, j[i].how, j[i].r);
  }
  cx = &g_ctx[0];
  return g_ctx[0].count;
}

static Cmd g_first;   /* the first call of a pair */
static int g_hasfirst;

static void drop_output(const Cmd *c) {
  if (c->o >= 0 && g_used[c->o]) {
    Cmd d;
    memset(&d, 0, sizeof d);
    strcpy(d.op, "destroy");
    d.o = d.p = -1;
    d.t[0] = c->o;
    d.nt = 1;
    exec_one(&d, 0);
  }
}

/* The same call many times over.  The first and the last time are recorded as
 * events, and every time at which it was not like the first. */
static void exec_rep(const Cmd *c) {
  Snap first;
  Res r;
  int (*mem)[2] = NULL, nmem = 0, st, made, live = g_live;
  int64_t *ret = NULL, nret;
  memset(&first, 0, sizeof first);
  for (int k = 0; k < c->rep; k++) {
    int differs = 0, how = run_it(c, 0, &r);
    Tensor before = c->h == 1 ? NULL : SENTINEL;
    int out = c->o >= 0 && r.out != before;
    int whole = out && r.st == 0 && r.out;
    if (k > 0) {
      arr_check();
      if (r.st != st || out != made || r.guard || g_argchanged || g_nmem != nmem || r.nret != nret ||
          (nret && memcmp(r.ret, ret, sizeof *ret * (size_t)nret)))
        differs = 1;
      for (int i = 0; i < nmem && !differs; i++) differs = g_mem[i][0] != mem[i][0];
      for (int i = 0; i < SLOTS; i++)
        if (g_used[i] && i != r.skipset && !same_as_snap(i)) differs = 1;
      if (whole && !differs) {
        Snap s;
        g_slot[c->o] = r.out;
        snap(c->o);
        s = g_snap[c->o];
        g_slot[c->o] = NULL;
        differs = s.ndim != first.ndim || s.size != first.size || s.code != first.code || s.tsize != first.tsize ||
                  s.dv != first.dv || s.di != first.di || s.lay != first.lay ||
                  memcmp(s.dims, first.dims, sizeof s.dims) || memcmp(s.bytes, first.bytes, (size_t)s.nbytes);
        unsnap(c->o);
      }
    }
    if (k > 0 && !differs && k < c->rep - 1) {
      if (r.ret) __real_free(r.ret);
      arr_drop();
      if (whole) {
        g_inlib = 1;
        aitisa_destroy(&r.out);
        g_inlib = 0;
      }
      if (g_live != live) { /* the destruction that goes wrong */
        fprintf(g_out, "{\"op\":\"crash\",\"sig\":0,\"line\":%d}\n", k);
        break;
      }
      continue;
    }
    if (k == 0) {
      st = r.st, made = out, nret = r.nret, nmem = g_nmem;
      mem = __real_malloc(sizeof *mem * (size_t)(nmem + 1));
      memcpy(mem, g_mem, sizeof *mem * (size_t)nmem);
      if (nret) {
        ret = __real_malloc(sizeof *ret * (size_t)nret);
        memcpy(ret, r.ret, sizeof *ret * (size_t)nret);
      }
    }
    record(c, 0, how, r);
    if (k == 0 && c->o >= 0 && g_used[c->o]) {
      first = g_snap[c->o];
      first.bytes = __real_malloc((size_t)first.nbytes + 1);
      memcpy(first.bytes, g_snap[c->o].bytes, (size_t)first.nbytes);
    }
    if (k < c->rep - 1) drop_output(c);
    live = k == 0 ? g_live : live;
    if (differs) break;
  }
  if (mem) __real_free(mem);
  if (ret) __real_free(ret);
  if (first.bytes) __real_free(first.bytes);
}

static int is_part(const Cmd *c) {
  const char *n = c->op;
  if (!strncmp(n, "un", 2)) n += 2;
  else if (!strncmp(n, "look", 4)) n += 4;
  return !strcmp(n, "shape") ? 1 : !strcmp(n, "storage") ? 2 : 0;
}
static void drop_part(int which, int i) {
  Cmd d;
  memset(&d, 0, sizeof d);
  strcpy(d.op, which == 1 ? "unshape" : "unstorage");
  d.o = -1;
  d.p = i;
  exec_one(&d, 0);
}

static int possible(const Cmd *c) {
  int w = is_part(c);
  if (w) {
    int made = c->p < 0 ? 0 : w == 1 ? g_shape[c->p].made : g_store[c->p].made;
    if (c->p >= PARTS) return 0;
    if (c->op[0] == 's') return c->p >= 0 && made != 1;
    if (c->op[0] == 'l') return made == 1;
    return c->p < 0 || made;
  }
  for (int i = 0; i < c->nt; i++)
    if (c->t[i] < 0 || c->t[i] >= SLOTS || !g_used[c->t[i]]) return 0;
  if (c->o >= 0 && (c->o >= SLOTS || g_used[c->o] != (c->h == 2))) return 0;
  if (c->h == 2 && (c->p < 0 || c->p >= SLOTS || g_used[c->p])) return 0;
  return 1;
}

static void exec_pairs(const Cmd *a, const Cmd *b) {
  if (!possible(a) || !possible(b) || a->h == 2 || b->h == 2) return;
  if (a->nsw >= 0) {
    int64_t sw[MAXARR];
    memcpy(sw, a->sw, sizeof sw);
    if (sw[0] < 0) {
      /* thousandths of the points of each call */
      exec_pair(a, b, sw, 0);
      drop_output(a);
      drop_output(b);
      for (int i = 0; i < a->nsw; i++) {
        sw[i] = -sw[i] * g_ctx[i % 2].count / 1000;
        if (sw[i] < 1) sw[i] = 1;
      }
    }
    exec_pair(a, b, sw, a->nsw);
    drop_output(a);
    drop_output(b);
    return;
  }
  for (int64_t n = 1;; n += n < 40 ? 1 : 1 + n / 16) {
    long points = exec_pair(a, b, &n, 1);
    drop_output(a);
    drop_output(b);
    if (n >= points) break;
  }
}

static void exec_cmd(Cmd *c) {
  if (g_hasfirst) {
    g_hasfirst = 0;
    exec_pairs(&g_first, c);
    if (g_first.x) __real_free(g_first.x);
    return;
  }
  if (c->nsw) {
    g_first = *c;
    g_hasfirst = 1;
    c->x = NULL;
    return;
  }
  if (!strcmp(c->op, "rand")) {
    g_rand = (int)c->n[0];
    return;
  }
  if (!strcmp(c->op, "rdonly")) {
    g_rdonly = (int)c->n[0];
    return;
  }
  if (!strcmp(c->op, "fill")) {
    g_fill = (int)c->n[0];
    return;
  }
  if (!strcmp(c->op, "alloc")) {
    g_custom = (int)c->n[0];
    aitisa_set_default_cpu_raw_alloc(g_custom ? custom_alloc : malloc);
    aitisa_set_default_cpu_raw_dealloc(g_custom ? custom_dealloc : free);
    fprintf(g_out, "{\"op\":\"alloc\",\"seg\":%d,\"n\":[%d]}\n", g_seg, g_custom);
    return;
  }
  if (!strcmp(c->op, "srand")) {
    srand((unsigned)c->n[0]);
    return;
  }
  /* a generated history may name a tensor that an earlier call did not make */
  if (!possible(c)) return;
  if (!strcmp(c->op, "scribble")) {
    /* the user overwrites the tensor's data */
    Tensor t = g_slot[c->t[0]];
    int64_t n = aitisa_tensor_size(t) * aitisa_tensor_data_type(t).size;
    if (n <= 0 || n > (1 << 20)) return;
    strcpy(c->op, "poke");
    c->dt = (int)aitisa_tensor_data_type(t).code;
    c->x = __real_malloc((size_t)n);
    c->nx = n;
    c->hasx = 1;
    for (int64_t i = 0; i < n; i++) c->x[i] = (unsigned char)noise();
  }
  if (c->rep > 1 && c->h < 2) {
    exec_rep(c);
    return;
  }
  if (c->fk >= 0) {
    exec_one(c, c->fk);
    return;
  }
  /* every allocation index in turn, until the call makes fewer allocations */
  for (int k = 1; k < 400; k++) {
    int live = c->o >= 0 ? g_used[c->o] : 0;
    int fired = exec_one(c, k);
    if (!fired) return;
    if (!live) drop_output(c);
    if (is_part(c) && c->op[0] == 's' && (is_part(c) == 1 ? g_shape[c->p].made : g_store[c->p].made) == 1)
      drop_part(is_part(c), c->p);
  }
}

/* ------------------------------------------------------------------ segments */

static volatile int *g_shared; /* [0] current segment index, [1] line */

static void destroy_rest(void) {
  for (int i = 0; i < SLOTS; i++)
    if (g_used[i]) {
      Cmd d;
      memset(&d, 0, sizeof d);
      strcpy(d.op, "destroy");
      d.o = d.p = -1;
      d.t[0] = i;
      d.nt = 1;
      exec_one(&d, 0);
    }
  for (int i = 0; i < PARTS; i++) {
    if (g_shape[i].made == 1) drop_part(1, i);
    if (g_store[i].made == 1) drop_part(2, i);
    g_shape[i].made = g_store[i].made = 0;
  }
}

int main(int argc, char **argv) {
  FILE *f;
  char *line = NULL;
  size_t cap = 0;
  int skip = -1, crashes = 0, hangs = 0;
  int seg_timeout = argc > 3 ? atoi(argv[3]) : 60;
  if (argc < 3) die("usage: driver SCRIPT OUT [TIMEOUT]");
  g_shared = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_shared[0] = -1;
  if (!(f = fopen(argv[2], "w"))) die("cannot write");
  fclose(f);
  for (;;) {
    pid_t pid = fork();
    if (pid == 0) {
      int idx = -1;
      if (!(f = fopen(argv[1], "r"))) die("cannot read script");
      if (!(g_out = fopen(argv[2], "a"))) die("cannot append");
      setvbuf(g_out, NULL, _IOFBF, 1 << 16);
      int lineno = 0;
      while (getline(&line, &cap, f) > 0) {
        lineno++;
        if (!strncmp(line, "seg ", 4)) {
          int id;
          char k;
          if (idx > skip) destroy_rest();
          idx++;
          if (idx <= skip) continue;
          if (sscanf(line, "seg %d %c", &id, &k) != 2) die("bad seg");
          g_seg = id;
          g_kind = k;
          g_fill = 0xA5;
          g_rand = 0;
          g_rdonly = 0;
          g_hasfirst = 0;
          g_shared[0] = idx;
          if (g_custom) {
            g_custom = 0;
            aitisa_set_default_cpu_raw_alloc(malloc);
            aitisa_set_default_cpu_raw_dealloc(free);
          }
          alarm((unsigned)seg_timeout);
          fprintf(g_out, "{\"op\":\"seg\",\"seg\":%d,\"kind\":\"%c\"}\n", id, k);
          fflush(g_out);
          continue;
        }
        if (idx <= skip || line[0] == '#' || line[0] == '\n') continue;
        Cmd c;
        g_shared[1] = lineno;
        parse(line, &c);
        exec_cmd(&c);
        if (c.x) __real_free(c.x);
      }
      if (idx > skip) destroy_rest();
      fclose(g_out);
      g_shared[2] = 1;
      _exit(0);
    }
    int ws;
    waitpid(pid, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) break;
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 3) return 3;
    if (g_shared[0] <= skip) die("child died before its segment");
    skip = g_shared[0];
    /* drop a line the child did not finish */
    f = fopen(argv[2], "r+");
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    while (n > 0) {
      fseek(f, n - 1, SEEK_SET);
      if (fgetc(f) == '\n') break;
      n--;
    }
    fflush(f);
    if (ftruncate(fileno(f), n)) die("truncate");
    fseek(f, n, SEEK_SET);
    fprintf(f, "{\"op\":\"crash\",\"sig\":%d,\"line\":%d}\n",
            WIFSIGNALED(ws) ? WTERMSIG(ws) : 1000 + WEXITSTATUS(ws), g_shared[1]);
    fclose(f);
    if (++crashes > 20) break;
    /* a segment which does not end costs its whole time: the next ones get less */
    if (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM) {
      if (++hangs >= 4) break;
      if (seg_timeout > 15) seg_timeout = 15;
    }
  }
  return 0;
}
