/* Conformance driver for auto_test: runs scripts of commands against
 * auto_test/sample.{h,cpp} and auto_test/basic.{h,cpp} and records, as one JSON
 * event per command, what every object reports, which blocks of memory were
 * obtained and given back, and what the tables and generators give.
 *
 * Script:  seg ID k
 *          op=... o=SLOT p=SLOT cls=U|B|R|X|Y vec=0|1 dev=0|1 i=PART parts=P;P
 *   with   P = dims(,-separated or "e"):dtype:device:hexdata("e" empty, "n" NULL)
 * Crashes end a segment with an event "crash".                             */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <map>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "auto_test/basic.h"
#include "auto_test/sample.h"

using namespace aitisa_api;

static FILE *g_out;
static int *g_shared;
static bool g_log;

/* ---- memory ------------------------------------------------------------ */

struct Rec { void *p; int id; };
static Rec g_live[4096];
static int g_nlive, g_next = 1;
struct MemEv { int kind, id; };
static MemEv g_mem[4096];
static int g_nmem;

static void memlog(int kind, int id) {
  if (g_nmem < 4096) { g_mem[g_nmem].kind = kind; g_mem[g_nmem].id = id; g_nmem++; }
}
static void *obtain(size_t n) {
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  if (g_log) {
    memset(p, 0xA5, n);
    if (g_nlive < 4096) {
      g_live[g_nlive].p = p;
      g_live[g_nlive].id = g_next++;
      memlog(1, g_live[g_nlive].id);
      g_nlive++;
    }
  }
  return p;
}
static void give_back(void *p) {
  if (!p) return;
  for (int i = 0; i < g_nlive; i++) {
    if (g_live[i].p == p) {
      memlog(2, g_live[i].id);
      g_live[i] = g_live[--g_nlive];
      free(p);
      return;
    }
  }
  if (g_log) { memlog(4, 0); return; }
  free(p);
}
static int block_of(const void *p) {
  if (!p) return 0;
  for (int i = 0; i < g_nlive; i++) if (g_live[i].p == p) return g_live[i].id;
  return -1;
}
void *operator new(size_t n) { return obtain(n); }
void *operator new[](size_t n) { return obtain(n); }
void operator delete(void *p) noexcept { give_back(p); }
void operator delete[](void *p) noexcept { give_back(p); }
void operator delete(void *p, size_t) noexcept { give_back(p); }
void operator delete[](void *p, size_t) noexcept { give_back(p); }

/* ---- commands ----------------------------------------------------------- */

struct Part {
  int64_t dims[16];
  int nd, dt, dv;
  unsigned char data[4096];
  unsigned len;
  bool null;
};
struct Cmd {
  char op[24];
  int o, p, vec, dev, i, dt;
  long len;
  char cls;
  Part parts[2];
  int np;
};

static void die(const char *m) { fprintf(stderr, "auto_driver: %s\n", m); _exit(3); }
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static void parse_part(char *s, Part *q) {
  char *f[4];
  int n = 0;
  for (char *t = s; n < 4; n++) {
    f[n] = t;
    t = strchr(t, ':');
    if (!t) { n++; break; }
    *t++ = 0;
  }
  if (n != 4) die("bad part");
  q->nd = 0;
  if (strcmp(f[0], "e")) for (char *t = f[0];;) {
    q->dims[q->nd++] = strtoll(t, &t, 10);
    if (*t != ',') break;
    t++;
  }
  q->dt = atoi(f[1]);
  q->dv = atoi(f[2]);
  q->len = 0;
  q->null = !strcmp(f[3], "n");
  if (!q->null && strcmp(f[3], "e"))
    for (char *t = f[3]; t[0] && t[1]; t += 2) q->data[q->len++] = (unsigned char)(hexv(t[0]) * 16 + hexv(t[1]));
}

static void parse(char *line, Cmd *c) {
  memset(c, 0, sizeof *c);
  c->o = c->p = -1;
  for (char *t = strtok(line, " \n"); t; t = strtok(NULL, " \n")) {
    char *v = strchr(t, '=');
    if (!v) die("bad field");
    *v++ = 0;
    if (!strcmp(t, "op")) snprintf(c->op, sizeof c->op, "%s", v);
    else if (!strcmp(t, "o")) c->o = atoi(v);
    else if (!strcmp(t, "p")) c->p = atoi(v);
    else if (!strcmp(t, "vec")) c->vec = atoi(v);
    else if (!strcmp(t, "dev")) c->dev = atoi(v);
    else if (!strcmp(t, "dt")) c->dt = atoi(v);
    else if (!strcmp(t, "len")) c->len = atol(v);
    else if (!strcmp(t, "i")) c->i = atoi(v);
    else if (!strcmp(t, "cls")) c->cls = v[0];
    else if (!strcmp(t, "parts")) {
      char *semi = strchr(v, ';');
      if (semi) *semi++ = 0;
      parse_part(v, &c->parts[c->np++]);
      if (semi) parse_part(semi, &c->parts[c->np++]);
    } else die("unknown field");
  }
}

/* ---- objects ------------------------------------------------------------ */

struct Slot { char cls; void *p; };
static Slot g_slots[16];

#define SIZEMAX (sizeof(Sample<Binary_Input>) + 64)
static void *room(int o, char cls) {
  if (o < 0 || o >= 16 || g_slots[o].p) die("slot");
  g_slots[o].p = malloc(SIZEMAX);
  memset(g_slots[o].p, 0x5A, SIZEMAX);
  g_slots[o].cls = cls;
  return g_slots[o].p;
}
template <typename T> static T &at(int o) {
  if (o < 0 || o >= 16 || !g_slots[o].p) die("no object");
  return *(T *)g_slots[o].p;
}

/* buffers handed to the objects, in the ledger */
static int64_t *dims_buffer(const Part &q) {
  int64_t *d = new int64_t[q.nd];
  for (int i = 0; i < q.nd; i++) d[i] = q.dims[i];
  return d;
}
static void *data_buffer(const Part &q) {
  if (q.null) return nullptr;
  char *d = new char[q.len];
  memcpy(d, q.data, q.len);
  return d;
}

/* the class of the input inside a sample */
template <typename S> static void set_result(S &r, const Cmd *c) {
  Part q = c->parts[0];
  int64_t dims[16];
  char data[4096];
  memcpy(dims, q.dims, sizeof dims);
  memcpy(data, q.data, sizeof data);
  r.set_result(q.nd, dims, q.dt, q.dv, data, q.len);
  memset(dims, 0x77, sizeof dims);       /* the caller may reuse his arguments */
  memset(data, 0x77, sizeof data);
}
static Result &result_of(int s) {
  switch (g_slots[s].cls) {
    case 'R': return at<Result>(s);
    case 'X': return at<Sample<Unary_Input>>(s).result();
    case 'Y': return at<Sample<Binary_Input>>(s).result();
  }
  die("no result");
  abort();
}
/* set_result through the class itself */
static void set_result_raw(int s, int64_t nd, int64_t *dims, int dt, int dv, void *data, unsigned len) {
  switch (g_slots[s].cls) {
    case 'R': at<Result>(s).set_result(nd, dims, dt, dv, data, len); break;
    case 'X': at<Sample<Unary_Input>>(s).set_result(nd, dims, dt, dv, data, len); break;
    case 'Y': at<Sample<Binary_Input>>(s).set_result(nd, dims, dt, dv, data, len); break;
  }
}

static std::string g_given;              /* blocks of the buffers handed over */
static void given(void *dims, void *data) {
  char t[64];
  snprintf(t, sizeof t, "%s[%d,%d]", g_given.empty() ? "" : ",", dims ? block_of(dims) : 0, data ? block_of(data) : 0);
  bool l = g_log;
  g_log = false;
  g_given += t;
  g_log = l;
}

static int64_t g_ret[8192];
static int g_nret;

/* without assignment of results, which the compiler would refuse, there is none
 * of samples either: dying says so */
template <typename T, bool has> struct Assign { static void run(T &a, T &b) { a = b; } };
template <typename T> struct Assign<T, false> { static void run(T &, T &) { abort(); } };
template <typename T> static void assign(T &a, T &b) {
  constexpr bool input = std::is_same<T, Unary_Input>::value || std::is_same<T, Binary_Input>::value;
  Assign<T, input || std::is_assignable<Result &, Result &>::value>::run(a, b);
}

template <typename T> static void lifecycle(const Cmd *c, int o, int p) {
  if (!strcmp(c->op, "new")) new (room(o, c->cls)) T();
  else if (!strcmp(c->op, "copy")) { T &src = at<T>(p); new (room(o, c->cls)) T(src); }
  else if (!strcmp(c->op, "move")) { T &src = at<T>(p); new (room(o, c->cls)) T(std::move(src)); }
  else if (!strcmp(c->op, "assign")) assign(at<T>(o), at<T>(p));
  else if (!strcmp(c->op, "destroy")) {
    at<T>(o).~T();
    free(g_slots[o].p);
    g_slots[o].p = nullptr;
  }
}

static void put_guarded(const Cmd *c) {
  /* a buffer between guards, filled twice over different contents */
  static unsigned char buf[2][9000];
  int bad = 0;
  for (int k = 0; k < 2; k++) {
    memset(buf[k], k ? 0x3C : 0xC3, sizeof buf[k]);
    if (!strcmp(c->op, "natural")) natural_assign(buf[k] + 256, (unsigned)c->len, c->dt);
    else random_assign(buf[k] + 256, (unsigned)c->len, c->dt);
    for (size_t i = 0; i < sizeof buf[k]; i++)
      if ((i < 256 || i >= 256 + (size_t)c->len) && buf[k][i] != (k ? 0x3C : 0xC3)) bad = 1;
  }
  /* bytes after the last whole element stay as they were: reported as "tail" */
  static const int size[10] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
  int sz = size[c->dt];
  long n = c->len / sz;
  int tail = 0, same = 1;
  for (long i = n * sz; i < c->len; i++) {
    if (buf[0][256 + i] != 0xC3 || buf[1][256 + i] != 0x3C) tail = 1;
  }
  if (memcmp(buf[0] + 256, buf[1] + 256, (size_t)(n * sz))) same = 0;
  fprintf(g_out, ",\"ret\":[%d,%d,%d],\"data\":[", bad, tail, same);
  for (long i = 0; i < n; i++) {
    unsigned char *q = buf[0] + 256 + i * sz;
    uint64_t v = 0;
    for (int b = sz - 1; b >= 0; b--) v = v << 8 | q[b];
    fprintf(g_out, "%s[", i ? "," : "");
    int limbs = (sz * 8 + 11) / 12;
    for (int b = 0; b < limbs; b++) fprintf(g_out, "%s%d", b ? "," : "", (int)(v >> (12 * b) & 4095));
    fprintf(g_out, "]");
  }
  fprintf(g_out, "]");
}

static void put_tables(void) {
  fprintf(g_out, ",\"ret\":[");
  const char *sep = "";
  for (int i = 0; i < 10; i++) {
    DataType d = aitisa_int_to_dtype(i);
    fprintf(g_out, "%s%d,%d,%d,%u", sep, (int)d.code, (int)d.size, aitisa_dtype_to_int(d), elem_size(i));
    sep = ",";
  }
  for (int i = 0; i < 2; i++) {
    Device d = aitisa_int_to_device(i);
    fprintf(g_out, ",%d,%d,%d", (int)d.type, (int)d.id, aitisa_device_to_int(d));
  }
  fprintf(g_out, "],\"data\":[]");
}

static void run(const Cmd *c) {
  g_given.clear();
  g_nmem = 0;
  g_log = true;
  char cls = c->cls ? c->cls : c->o >= 0 ? g_slots[c->o].cls : 0;
  Cmd d = *c;
  d.cls = cls;
  if (!strcmp(c->op, "make")) {
    void *x[2];
    int64_t *dm[2];
    if (cls == 'U') {
      x[0] = data_buffer(c->parts[0]);
      const Part &q = c->parts[0];
      if (c->vec) {
        given(nullptr, x[0]);
        std::vector<int64_t> v(q.dims, q.dims + q.nd);
        new (room(c->o, cls)) Unary_Input(q.nd, v, q.dt, q.dv, x[0], q.len);
      } else {
        dm[0] = dims_buffer(q);
        given(dm[0], x[0]);
        new (room(c->o, cls)) Unary_Input(q.nd, dm[0], q.dt, q.dv, x[0], q.len);
      }
    } else {
      const Part &q = c->parts[0], &r = c->parts[1];
      x[0] = data_buffer(q);
      x[1] = data_buffer(r);
      if (c->vec) {
        given(nullptr, x[0]);
        given(nullptr, x[1]);
        std::vector<int64_t> v(q.dims, q.dims + q.nd), w(r.dims, r.dims + r.nd);
        new (room(c->o, cls)) Binary_Input(q.nd, v, q.dt, q.dv, x[0], q.len, r.nd, w, r.dt, r.dv, x[1], r.len);
      } else {
        dm[0] = dims_buffer(q);
        dm[1] = dims_buffer(r);
        given(dm[0], x[0]);
        given(dm[1], x[1]);
        new (room(c->o, cls)) Binary_Input(q.nd, dm[0], q.dt, q.dv, x[0], q.len, r.nd, dm[1], r.dt, r.dv, x[1], r.len);
      }
    }
  } else if (!strcmp(c->op, "wrap")) {
    if (cls == 'X') { Unary_Input &in = at<Unary_Input>(c->p); new (room(c->o, cls)) Sample<Unary_Input>(in); }
    else { Binary_Input &in = at<Binary_Input>(c->p); new (room(c->o, cls)) Sample<Binary_Input>(in); }
  } else if (!strcmp(c->op, "setin")) {
    if (cls == 'X') at<Sample<Unary_Input>>(c->o).set_input(at<Unary_Input>(c->p));
    else at<Sample<Binary_Input>>(c->o).set_input(at<Binary_Input>(c->p));
  } else if (!strcmp(c->op, "setres")) {
    const Part &q = c->parts[0];
    int64_t *dims = (int64_t *)malloc(16 * 8);
    char *data = (char *)malloc(q.len + 1);
    memcpy(dims, q.dims, sizeof q.dims);
    memcpy(data, q.data, q.len);
    set_result_raw(c->o, q.nd, dims, q.dt, q.dv, data, q.len);
    free(dims);                            /* the arguments were the caller's */
    free(data);
  } else if (!strcmp(c->op, "setresof")) {
    Result &r = result_of(c->p);
    set_result_raw(c->o, r.ndim(), r.dims(), r.dtype(), r.device(), r.data(), r.len());
  } else if (!strcmp(c->op, "setdata")) {
    void *x = data_buffer(c->parts[0]);
    given(nullptr, x);
    if (cls == 'U') at<Unary_Input>(c->o).set_data(x, c->parts[0].len);
    else if (c->i == 1) at<Binary_Input>(c->o).set_data1(x, c->parts[0].len);
    else at<Binary_Input>(c->o).set_data2(x, c->parts[0].len);
  } else if (!strcmp(c->op, "dev")) {
    if (cls == 'U') c->dev ? at<Unary_Input>(c->o).to_CUDA() : at<Unary_Input>(c->o).to_CPU();
    else c->dev ? at<Binary_Input>(c->o).to_CUDA() : at<Binary_Input>(c->o).to_CPU();
  } else {
    switch (cls) {
      case 'U': lifecycle<Unary_Input>(&d, c->o, c->p); break;
      case 'B': lifecycle<Binary_Input>(&d, c->o, c->p); break;
      case 'R': lifecycle<Result>(&d, c->o, c->p); break;
      case 'X': lifecycle<Sample<Unary_Input>>(&d, c->o, c->p); break;
      case 'Y': lifecycle<Sample<Binary_Input>>(&d, c->o, c->p); break;
      default: die("class");
    }
  }
  g_log = false;
}

/* ---- the event ----------------------------------------------------------- */

static void put_part(int64_t nd, int64_t *dims, int dt, int dv, void *data, unsigned len) {
  fprintf(g_out, "{\"nd\":%lld,\"dt\":%d,\"dv\":%d,\"len\":%u,\"db\":%d,\"xb\":%d,\"dims\":[", (long long)nd, dt, dv, len,
          block_of(dims), block_of(data));
  if (dims && nd >= 0 && nd <= 16)
    for (int64_t i = 0; i < nd; i++) fprintf(g_out, "%s%lld", i ? "," : "", (long long)dims[i]);
  fprintf(g_out, "],\"data\":[");
  if (data && len <= 4096)
    for (unsigned i = 0; i < len; i++) fprintf(g_out, "%s%d", i ? "," : "", ((unsigned char *)data)[i]);
  fprintf(g_out, "]}");
}
static void put_u(Unary_Input &u) {
  fprintf(g_out, "[");
  put_part(u.ndim(), u.dims(), u.dtype(), u.device(), u.data(), u.len());
  fprintf(g_out, "]");
}
static void put_b(Binary_Input &u) {
  fprintf(g_out, "[");
  put_part(u.ndim1(), u.dims1(), u.dtype1(), u.device1(), u.data1(), u.len1());
  fprintf(g_out, ",");
  put_part(u.ndim2(), u.dims2(), u.dtype2(), u.device2(), u.data2(), u.len2());
  fprintf(g_out, "]");
}
static void put_r(Result &u) {
  fprintf(g_out, "[");
  put_part(u.ndim(), u.dims(), u.dtype(), u.device(), u.data(), u.len());
  fprintf(g_out, "]");
}

static void put_cmd(const Cmd *c) {
  fprintf(g_out, "{\"op\":\"%s\",\"o\":%d,\"p\":%d,\"cls\":\"%c\",\"vec\":%d,\"dev\":%d,\"i\":%d,\"dt\":%d,\"len\":%ld,\"parts\":[",
          c->op, c->o, c->p, c->cls ? c->cls : '-', c->vec, c->dev, c->i, c->dt, c->len);
  for (int k = 0; k < c->np; k++) {
    const Part &q = c->parts[k];
    fprintf(g_out, "%s{\"nd\":%d,\"dims\":[", k ? "," : "", q.nd);
    for (int i = 0; i < q.nd; i++) fprintf(g_out, "%s%lld", i ? "," : "", (long long)q.dims[i]);
    fprintf(g_out, "],\"dt\":%d,\"dv\":%d,\"len\":%u,\"null\":%d,\"data\":[", q.dt, q.dv, q.len, q.null);
    for (unsigned i = 0; i < q.len; i++) fprintf(g_out, "%s%d", i ? "," : "", q.data[i]);
    fprintf(g_out, "]}");
  }
  fprintf(g_out, "]");
}

static void event(const Cmd *c) {
  if (!strcmp(c->op, "tables") || !strcmp(c->op, "natural") || !strcmp(c->op, "random")) {
    put_cmd(c);
    if (c->op[0] == 't') put_tables(); else put_guarded(c);
    fprintf(g_out, "}\n");
    return;
  }
  run(c);
  put_cmd(c);
  fprintf(g_out, ",\"mem\":[");
  for (int i = 0; i < g_nmem; i++) fprintf(g_out, "%s[%d,%d]", i ? "," : "", g_mem[i].kind, g_mem[i].id);
  fprintf(g_out, "],\"given\":[%s],\"rep\":[", g_given.c_str());
  const char *sep = "";
  for (int s = 0; s < 16; s++) {
    if (!g_slots[s].p) continue;
    fprintf(g_out, "%s{\"s\":%d,\"hs\":[", sep, s);
    sep = ",";
    switch (g_slots[s].cls) {
      case 'U': put_u(at<Unary_Input>(s)); break;
      case 'B': put_b(at<Binary_Input>(s)); break;
      case 'R': put_r(at<Result>(s)); break;
      case 'X':
        put_u(at<Sample<Unary_Input>>(s).input());
        fprintf(g_out, ",");
        put_r(at<Sample<Unary_Input>>(s).result());
        break;
      case 'Y':
        put_b(at<Sample<Binary_Input>>(s).input());
        fprintf(g_out, ",");
        put_r(at<Sample<Binary_Input>>(s).result());
        break;
    }
    fprintf(g_out, "]}");
  }
  fprintf(g_out, "]}\n");
}

static void destroy_rest(void) {
  for (int s = 0; s < 16; s++) {
    if (!g_slots[s].p) continue;
    Cmd c;
    memset(&c, 0, sizeof c);
    snprintf(c.op, sizeof c.op, "destroy");
    c.o = s;
    c.p = -1;
    event(&c);
  }
  for (int i = 0; i < g_nlive; i++) free(g_live[i].p);
  g_nlive = 0;
  g_next = 1;
}

int main(int argc, char **argv) {
  if (argc < 3) die("usage: auto_driver SCRIPT OUT [TIMEOUT]");
  int seg_timeout = argc > 3 ? atoi(argv[3]) : 60, skip = -1, crashes = 0;
  g_shared = (int *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_shared[0] = -1;
  FILE *f = fopen(argv[2], "w");
  if (!f) die("cannot write");
  fclose(f);
  for (;;) {
    pid_t pid = fork();
    if (pid == 0) {
      int idx = -1;
      char *line = NULL;
      size_t cap = 0;
      static Cmd c;
      if (!(f = fopen(argv[1], "r"))) die("cannot read script");
      if (!(g_out = fopen(argv[2], "a"))) die("cannot append");
      setvbuf(g_out, NULL, _IOFBF, 1 << 16);
      while (getline(&line, &cap, f) > 0) {
        if (!strncmp(line, "seg ", 4)) {
          if (idx > skip) destroy_rest();
          idx++;
          if (idx <= skip) continue;
          g_shared[0] = idx;
          alarm((unsigned)seg_timeout);
          fprintf(g_out, "{\"op\":\"seg\",\"seg\":%d}\n", atoi(line + 4));
          fflush(g_out);
          continue;
        }
        if (idx <= skip || line[0] == '#' || line[0] == '\n') continue;
        parse(line, &c);
        event(&c);
        fflush(g_out);
      }
      if (idx > skip) destroy_rest();
      fclose(g_out);
      _exit(0);
    }
    int ws;
    waitpid(pid, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) break;
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 3) return 3;
    if (g_shared[0] <= skip) die("child died before its segment");
    skip = g_shared[0];
    f = fopen(argv[2], "r+");
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    while (n > 0) {
      fseek(f, n - 1, SEEK_SET);
      if (fgetc(f) == '\n') break;
      n--;
    }
    fflush(f);
    if (ftruncate(fileno(f), n)) die("truncate");
    fseek(f, n, SEEK_SET);
    fprintf(f, "{\"op\":\"crash\"}\n");
    fclose(f);
    if (++crashes > 20) break;
  }
  return 0;
}
