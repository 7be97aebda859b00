/* Calls on tensors of more elements than 32 bits count.  The trace does not
 * hold such tensors: it holds their quotients, which Trace.tla judges like any
 * other tensor.  A quotient keeps one element of every run of equal elements
 * (operations that work element by element, or copy in row-major order), or
 * the elements at the kept coordinates of every axis (operations that only look
 * at those); spec/MCQuot.tla states when an operation commutes with that.
 *
 *   huge SCRIPT OUT [TIMEOUT]
 *
 *   op=create ...                 a quotient (an ordinary call, recorded)
 *   T t=S dims=.. a=STARTS        slot S stands for a tensor of these extents whose
 *                                 element j fills the run from STARTS[j] on
 *   G t=S dims=.. a=COUNTS b=COORDS   or for one that has its elements at the kept
 *                                 coordinates (COUNTS[k] of them for axis k), and zeros
 *   R op=.. .. a=.. b=..          the real call
 *   E dims=.. a=.. [b=STARTS]     extents the result must have, those of its quotient, and the
 *                                 runs it consists of (all of its elements when absent)
 *   op=..                         the call on quotients; it is recorded with the real call's outcome
 */
#define main driver_main
#include "driver.c"
#undef main

static Tensor g_real[SLOTS];

/* A segment that this machine has no memory or time for is left out: nothing is said about it. */
enum { NO_MEMORY = 4 };

static void make_real(const Cmd *c, int grid) {
  int s = c->t[0];
  Tensor q = g_slot[s], t = SENTINEL;
  int64_t size = 1;
  char *data, *from = aitisa_tensor_data(q);
  size_t w = (size_t)aitisa_tensor_data_type(q).size;
  g_inlib = 1;
  int st = aitisa_create(aitisa_tensor_data_type(q), aitisa_tensor_device(q), (int64_t *)c->dims, c->ndims, NULL, 0, &t);
  g_inlib = 0;
  if (g_short) _exit(NO_MEMORY);
  if (st || t == SENTINEL) die("a tensor of this size cannot be made");
  for (int i = 0; i < c->ndims; i++) size *= c->dims[i];
  data = aitisa_tensor_data(t);
  g_real[s] = t;
  if (!grid) {
    for (int j = 0; j < c->na; j++) {
      int64_t end = j + 1 < c->na ? c->a[j + 1] : size;
      char *el = from + j * w;
      int zero = 1;
      for (size_t k = 0; k < w; k++) zero &= !el[k];
      if (zero) continue;
      if (w == 1) memset(data + c->a[j], *el, (size_t)(end - c->a[j]));
      else
        for (int64_t i = c->a[j]; i < end; i++) memcpy(data + (size_t)i * w, el, w);
    }
    return;
  }
  /* row-major over the kept coordinates */
  int64_t n = aitisa_tensor_size(q);
  for (int64_t j = 0; j < n; j++) {
    int64_t at = 0, rest = j, idx[MAXARR];
    for (int k = c->ndims - 1; k >= 0; k--) idx[k] = rest % c->a[k], rest /= c->a[k];
    int base = 0;
    for (int k = 0; k < c->ndims; k++) {
      at = at * c->dims[k] + c->b[base + idx[k]];
      base += (int)c->a[k];
    }
    memcpy(data + (size_t)at * w, from + (size_t)j * w, w);
  }
}

static void emit(const Cmd *q, const Cmd *real, const Cmd *e) {
  Res r;
  Tensor keep[SLOTS];
  memcpy(keep, g_slot, sizeof keep);
  for (int i = 0; i < real->nt; i++) g_slot[real->t[i]] = g_real[real->t[i]];
  g_nmem = g_nalloc = 0;
  g_fired = 0;
  run_call(real, &r);
  if (g_short) _exit(NO_MEMORY);
  memcpy(g_slot, keep, sizeof keep);
  if (r.hashandle && !r.out) r.out = NULL;
  put_cmd(q, 0);
  int has = r.out && r.out != SENTINEL;
  fprintf(g_out, ",\"chg\":[],\"al\":[],\"st\":%d,\"oh\":%d,\"has\":%d,\"ac\":0,\"gd\":0,\"fired\":0,\"adopt\":0,\"same\":0,\"mem\":[],"
          "\"ret\":[],\"out\":", r.st, has, has);
  if (!has) {
    put("{}}\n");
    return;
  }
  Tensor t = r.out;
  int code = (int)aitisa_tensor_data_type(t).code, same;
  int64_t size = 1, qsize = 1;
  for (int i = 0; i < e->ndims; i++) size *= e->dims[i];
  for (int i = 0; i < e->na; i++) qsize *= e->a[i];
  same = aitisa_tensor_ndim(t) == e->ndims && aitisa_tensor_size(t) == size && code >= 0 && code < 10 &&
         aitisa_tensor_data_type(t).size == SIZES[code];
  for (int i = 0; same && i < e->ndims; i++) same = aitisa_tensor_dim(t, i) == e->dims[i];
  fprintf(g_out, "{\"dt\":%d,\"ts\":%d,\"dv\":%d,\"di\":%d,\"lay\":%d,\"sz\":", code, aitisa_tensor_data_type(t).size,
          (int)aitisa_tensor_device(t).type, aitisa_tensor_device(t).id, (int)aitisa_tensor_layout_type(t));
  char *data = aitisa_tensor_data(t);
  if (same && e->nb) {
    size_t w = (size_t)SIZES[code];
    char *vals = __real_malloc(w * (size_t)e->nb);
    if (e->nb != qsize) die("runs");
    for (int j = 0; j < e->nb; j++) {
      int64_t end = j + 1 < e->nb ? e->b[j + 1] : size, first = e->b[j];
      memcpy(vals + j * w, data + (size_t)first * w, w);
      /* every element is as the one before it */
      if (end - first > 1 && memcmp(data + (size_t)first * w, data + (size_t)(first + 1) * w, (size_t)(end - first - 1) * w)) same = 0;
    }
    data = vals;
  }
  if (!same) put_int(aitisa_tensor_size(t) == qsize ? -1 : aitisa_tensor_size(t));
  else put_int(qsize);
  put(",\"dims\":");
  put_arr64(e->a, e->na);
  put(",\"data\":");
  if (same) put_data(g_kind, code, data, qsize);
  else put("[]");
  put("}}\n");
}

static void child(char *text, int seg, const char *out) {
  char *line, *save = NULL;
  Cmd real, e;
  memset(&real, 0, sizeof real);
  memset(&e, 0, sizeof e);
  g_huge = 1;
  if (!(g_out = fopen(out, "a"))) die("cannot append");
  g_seg = seg;
  for (line = strtok_r(text, "\n", &save); line; line = strtok_r(NULL, "\n", &save)) {
    Cmd c;
    if (line[1] != ' ') {
      parse(line, &c);
      if (real.op[0]) {
        emit(&c, &real, &e);
        memset(&real, 0, sizeof real);
      } else
        exec_cmd(&c);
    } else {
      parse(line + 2, &c);
      if (line[0] == 'T' || line[0] == 'G') make_real(&c, line[0] == 'G');
      else if (line[0] == 'R') real = c;
      else if (line[0] == 'E') e = c;
      else die("unknown line");
    }
    fflush(g_out);
  }
  fclose(g_out);
  _exit(0);
}

int main(int argc, char **argv) {
  FILE *f;
  char *line = NULL, *text = NULL;
  size_t cap = 0, len = 0;
  int seg_timeout = argc > 3 ? atoi(argv[3]) : 60, lineno = 0, seg = 0, more = 1;
  char kind = 's';
  if (argc < 3) die("usage: huge SCRIPT OUT [TIMEOUT]");
  if (!(f = fopen(argv[2], "w"))) die("cannot write");
  fclose(f);
  if (!(f = fopen(argv[1], "r"))) die("cannot read script");
  g_shared = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  while (more) {
    more = getline(&line, &cap, f) > 0;
    lineno++;
    if (!more || !strncmp(line, "seg ", 4)) {
      if (seg) {
        FILE *o = fopen(argv[2], "a");
        int ws;
        fprintf(o, "{\"op\":\"seg\",\"seg\":%d,\"kind\":\"%c\"}\n", seg, kind);
        fclose(o);
        pid_t pid = fork();
        if (!pid) {
          alarm((unsigned)seg_timeout);
          g_kind = kind;
          child(text, seg, argv[2]);
        }
        waitpid(pid, &ws, 0);
        if (WIFEXITED(ws) && WEXITSTATUS(ws) == 3) return 3;
        int slow = WIFSIGNALED(ws) && WTERMSIG(ws) == SIGALRM;
        int unknown = slow || (WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) || (WIFEXITED(ws) && WEXITSTATUS(ws) == NO_MEMORY);
        if (!WIFEXITED(ws) || WEXITSTATUS(ws)) {
          o = fopen(argv[2], "r+");
          fseek(o, 0, SEEK_END);
          long n = ftell(o);
          while (n > 0) {
            fseek(o, n - 1, SEEK_SET);
            if (fgetc(o) == '\n') break;
            n--;
          }
          if (ftruncate(fileno(o), n)) die("truncate");
          fseek(o, n, SEEK_SET);
          if (unknown) fprintf(stderr, "segment %d left out\n", seg);
          else fprintf(o, "{\"op\":\"crash\",\"sig\":%d,\"line\":%d}\n",
                  WIFSIGNALED(ws) ? WTERMSIG(ws) : 1000 + WEXITSTATUS(ws), lineno);
          fclose(o);
          if (slow) return 0;
        }
      }
      if (more && sscanf(line, "seg %d %c", &seg, &kind) != 2) die("bad seg");
      len = 0;
      continue;
    }
    size_t n = strlen(line);
    text = realloc(text, len + n + 1);
    memcpy(text + len, line, n + 1);
    len += n;
  }
  return 0;
}
