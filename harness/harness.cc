// Conformance harness: runs Scheme programs against the interpreter compiled
// from /repo's sources, one forked process per program, and prints what each
// program observed (its `emit` events) as canonical text.  It uses no hook in
// the interpreter: only its C interface, plus the linker's --wrap to run a
// collection every K allocations.
//
//   harness JOBLIST [--gc K] [--timeout SECONDS] [--stop-after N]
//
// JOBLIST: one path of a program per line.  Each program runs in its own
// directory.  Output, per program:
//   =<index>
//   a line per event, beginning with a space
//   !<status>        ok | exit N | signal N | timeout
#include "eval.h"
#include "pscm.h"
#include "pscm_api.h"
#include "smob.h"
#include "throw.h"
#include <fcntl.h>
#include <poll.h>
#include <sys/personality.h>
#include <signal.h>
#include <malloc.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

// The interpreter prints every expression it evaluates into a temporary file of its own (error.cc).  Here
// those files are kept in memory, which saves most of the time of a run and changes nothing else.
struct MemFile {
  char *data;
  size_t size, cap, pos;
};
static ssize_t mem_read(void *c, char *buf, size_t n) {
  MemFile *m = (MemFile *)c;
  if (m->pos >= m->size)
    return 0;
  if (n > m->size - m->pos)
    n = m->size - m->pos;
  memcpy(buf, m->data + m->pos, n);
  m->pos += n;
  return n;
}
static ssize_t mem_write(void *c, const char *buf, size_t n) {
  MemFile *m = (MemFile *)c;
  if (m->pos + n > m->cap) {
    m->cap = (m->pos + n) * 2 + 256;
    m->data = (char *)realloc(m->data, m->cap);
  }
  if (m->pos > m->size)
    memset(m->data + m->size, 0, m->pos - m->size);
  memcpy(m->data + m->pos, buf, n);
  m->pos += n;
  if (m->pos > m->size)
    m->size = m->pos;
  return n;
}
static int mem_seek(void *c, off64_t *off, int whence) {
  MemFile *m = (MemFile *)c;
  off64_t p = *off + (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)m->pos : (off64_t)m->size);
  if (p < 0)
    return -1;
  *off = m->pos = p;
  return 0;
}
static int mem_close(void *c) {
  free(((MemFile *)c)->data);
  free(c);
  return 0;
}
extern "C" FILE *tmpfile() {
  MemFile *m = (MemFile *)calloc(1, sizeof(MemFile));
  return fopencookie(m, "w+", {mem_read, mem_write, mem_seek, mem_close});
}

static int g_event_fd = -1;

static void put_event(const std::string &s) {
  std::string line = " " + s + "\n";
  const char *p = line.data();
  size_t n = line.size();
  while (n) {
    ssize_t w = write(g_event_fd, p, n);
    if (w <= 0) {
      _exit(97);
    }
    p += w;
    n -= w;
  }
}

// ---------------------------------------------------------------- showing
static long g_tracked_tag;
static const size_t SHOW_LIMIT = 20000;

static SCM *g_eof_p; // the interpreter's own eof-object?

static bool is_eof(SCM *v) {
  return g_eof_p && is_true(scm_call_1(g_eof_p, v));
}

static void show_chars(std::string &out, const char *data, int len) {
  char buf[8];
  for (int i = 0; i < len; i++) {
    unsigned char c = data[i];
    if (c == '"' || c == '\\') {
      out += '\\';
      out += (char)c;
    } else if (c < 32 || c > 126) {
      snprintf(buf, sizeof buf, "\\x%02x", c);
      out += buf;
    } else {
      out += (char)c;
    }
  }
}

static void show(std::string &out, SCM *v, int depth) {
  if (out.size() > SHOW_LIMIT || depth > 200) {
    out += "#deep";
    return;
  }
  if (!v) {
    out += "#null";
    return;
  }
  char buf[64];
  switch (v->type) {
  case SCM::NONE: out += is_eof(v) ? "#eof" : "#none"; break;
  case SCM::NIL: out += "()"; break;
  case SCM::BOOL: out += v->value ? "#t" : "#f"; break;
  case SCM::NUM: snprintf(buf, sizeof buf, "%lld", (long long)(int64_t)v->value); out += buf; break;
  case SCM::FLOAT: snprintf(buf, sizeof buf, "~%.17g", scm_to_double(v)); out += buf; break;
  case SCM::RATIO: {
    auto r = (SCM_Rational *)v->value;
    snprintf(buf, sizeof buf, "%lld/%lld", (long long)r->numerator, (long long)r->denominator);
    out += buf;
    break;
  }
  case SCM::CHAR: snprintf(buf, sizeof buf, "#\\%d", (int)(unsigned char)ptr_to_char(v->value)); out += buf; break;
  case SCM::SYM: {
    auto s = (SCM_Symbol *)v->value;
    show_chars(out, s->data, s->len);
    break;
  }
  case SCM::STR: {
    auto s = (SCM_String *)v->value;
    out += '"';
    show_chars(out, s->data, s->len);
    out += '"';
    break;
  }
  case SCM::VECTOR: {
    auto s = (SCM_Vector *)v->value;
    out += "#(";
    for (size_t i = 0; i < s->length && out.size() <= SHOW_LIMIT; i++) {
      if (i) {
        out += ' ';
      }
      show(out, s->elements[i], depth + 1);
    }
    out += ')';
    break;
  }
  case SCM::VALUES:
  case SCM::LIST: {
    out += v->type == SCM::VALUES ? "#values(" : "(";
    auto l = (SCM_List *)v->value;
    bool first = true;
    for (; l && out.size() <= SHOW_LIMIT; l = l->next) {
      if (!first) {
        out += ' ';
      }
      if (l->is_dotted) {
        out += first ? "#dotted-head " : ". ";
      }
      first = false;
      show(out, l->data, depth + 1);
    }
    out += ')';
    break;
  }
  case SCM::PROC:
  case SCM::FUNC:
  case SCM::CONT: out += "#proc"; break;
  case SCM::MACRO: out += "#macro"; break;
  case SCM::HASH_TABLE: out += "#hash"; break;
  case SCM::PORT: out += "#port"; break;
  case SCM::PROMISE: out += "#promise"; break;
  case SCM::MODULE: out += "#module"; break;
  case SCM::VARIABLE: out += "#variable"; break;
  case SCM::SMOB: {
    auto s = (SCM_Smob *)v->value;
    if (s->tag == g_tracked_tag) {
      snprintf(buf, sizeof buf, "#tracked%ld", (long)(intptr_t)s->data);
      out += buf;
    } else {
      out += "#smob";
    }
    break;
  }
  default: snprintf(buf, sizeof buf, "#type%d", (int)v->type); out += buf;
  }
}

static std::string shown(SCM *v) {
  std::string s;
  show(s, v, 0);
  return s;
}

// ---------------------------------------------------------------- gsubrs
static SCM *h_emit(SCM *v) {
  put_event(shown(v));
  return v;
}

static SCM *h_gc() {
  run_gc();
  return scm_none();
}

static SCM *num(int64_t n) {
  SCM *s = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
  s->type = SCM::NUM;
  s->value = (void *)n;
  s->source_loc = nullptr;
  return s;
}

// tracked objects: a smob type whose free function records the object's
// number, for the properties about what the collector reclaims
static std::vector<long> *g_freed;

static size_t tracked_free(SCM *smob) {
  auto s = (SCM_Smob *)smob->value;
  g_freed->push_back((long)(intptr_t)s->data);
  return 0;
}

static SCM *h_tracked(SCM *n) {
  return scm_make_smob(g_tracked_tag, (void *)n->value);
}

static SCM *h_tracked_number(SCM *t) {
  if (!is_smob_type(t, g_tracked_tag)) {
    return num(-1);
  }
  return num((long)(intptr_t)cast<SCM_Smob>(t)->data);
}

// (%freed) lists the numbers of the tracked objects freed since the last call
static SCM *h_freed() {
  std::vector<long> v;
  v.swap(*g_freed);
  SCM_List *l = nullptr;
  for (size_t i = v.size(); i-- > 0;) {
    SCM *n = num(v[i]);
    auto node = (SCM_List *)gc_alloc(GC_LIST, sizeof(SCM_List));
    node->data = n;
    node->next = l;
    l = node;
  }
  return l ? wrap(l) : scm_nil();
}

// (%graph v ...): the values with everything reachable from them, as text in
// which every pair and vector has a number at its first visit: what is shared
// shows.  Pairs are taken apart by the interpreter's own car and cdr.
static SCM *g_car, *g_cdr;

static void graph(std::string &out, SCM *v, std::vector<void *> &seen, int depth) {
  if (out.size() > SHOW_LIMIT || depth > 300) {
    out += "#deep";
    return;
  }
  if (!v || (v->type != SCM::LIST && v->type != SCM::VECTOR)) {
    show(out, v, 0);
    return;
  }
  char buf[32];
  for (size_t i = 0; i < seen.size(); i++) {
    if (seen[i] == v->value) {
      snprintf(buf, sizeof buf, "#%zu", i + 1);
      out += buf;
      return;
    }
  }
  seen.push_back(v->value);
  snprintf(buf, sizeof buf, "%zu=", seen.size());
  out += buf;
  if (v->type == SCM::LIST) {
    out += '(';
    graph(out, scm_call_1(g_car, v), seen, depth + 1);
    out += " . ";
    graph(out, scm_call_1(g_cdr, v), seen, depth + 1);
    out += ')';
  } else {
    auto vec = (SCM_Vector *)v->value;
    out += '[';
    for (size_t i = 0; i < vec->length; i++) {
      if (i) {
        out += ' ';
      }
      graph(out, vec->elements[i], seen, depth + 1);
    }
    out += ']';
  }
}

static SCM *h_graph(SCM_List *args) {
  std::string out;
  std::vector<void *> seen;
  for (auto l = args; l; l = l->next) {
    if (l != args) {
      out += ' ';
    }
    graph(out, l->data, seen, 0);
  }
  put_event(out);
  return scm_none();
}

#include "capi.inc"

static SCM *h_counting();
static SCM *h_usage();

static void define_gsubrs() {
  scm_define_function("emit", 1, 0, 0, h_emit);
  scm_define_function("%gc", 0, 0, 0, h_gc);
  g_eof_p = pscm_eval_string("eof-object?");
  g_freed = new std::vector<long>();
  g_tracked_tag = scm_make_smob_type("tracked", sizeof(void *));
  scm_set_smob_free(g_tracked_tag, tracked_free);
  scm_define_function("%tracked", 1, 0, 0, h_tracked);
  scm_define_function("%tracked-number", 1, 0, 0, h_tracked_number);
  scm_define_function("%freed", 0, 0, 0, h_freed);
  scm_define_function("%counting", 0, 0, 0, h_counting);
  scm_define_function("%usage", 0, 0, 0, h_usage);
  g_car = pscm_eval_string("car");
  g_cdr = pscm_eval_string("cdr");
  scm_define_vararg_function("%graph", h_graph);
  capi_define();
}

// ---------------------------------------------------------------- GC stress
static long g_gc_every, g_gc_count;
static bool g_in_program;

// The blocks handed out so far: their distinct addresses and bytes, and the bytes altogether.  In memory of
// its own, which mallinfo does not see.
static const size_t SEEN = 1u << 22;
static uintptr_t *g_seen;
static long g_blocks, g_block_bytes, g_alloc_bytes;
static void count_block(void *p, size_t size) {
  g_alloc_bytes += size;
  if (!g_seen || g_blocks >= (long)(SEEN / 2)) {
    return;
  }
  size_t h = ((uintptr_t)p >> 3) * 0x9E3779B97F4A7C15ull >> 20 & (SEEN - 1);
  while (g_seen[h]) {
    if (g_seen[h] == (uintptr_t)p) {
      return;
    }
    h = (h + 1) & (SEEN - 1);
  }
  g_seen[h] = (uintptr_t)p;
  g_blocks++;
  g_block_bytes += size;
}
// (%counting) starts counting; (%usage) gives distinct blocks, their bytes, all bytes, and malloc's bytes
static SCM *h_counting() {
  if (!g_seen) {
    g_seen = (uintptr_t *)mmap(nullptr, SEEN * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  return scm_none();
}
static SCM *h_usage() {
  struct mallinfo2 m = mallinfo2();
  long v[4] = {g_blocks, g_block_bytes, g_alloc_bytes, (long)(m.uordblks + m.hblkhd)};
  SCM_List *l = nullptr;
  for (int i = 4; i-- > 0;) {
    SCM *n = num(v[i]);
    auto node = (SCM_List *)gc_alloc(GC_LIST, sizeof(SCM_List));
    node->data = n;
    node->next = l;
    l = node;
  }
  return wrap(l);
}

extern "C" void *__real__Z8gc_alloc7TypeTagm(TypeTag tag, size_t size) __attribute__((weak));
extern "C" void *__wrap__Z8gc_alloc7TypeTagm(TypeTag tag, size_t size) {
  if (g_gc_every && g_in_program && ++g_gc_count >= g_gc_every) {
    g_gc_count = 0;
    run_gc();
  }
  void *p = __real__Z8gc_alloc7TypeTagm(tag, size);
  if (g_in_program) {
    count_block(p, size);
  }
  return p;
}

// What the collector frees is overwritten at once, so that a use of it shows.
// Only cells whose tracing looks at nothing but the two words overwritten.
static SweepFn g_sweep_scm, g_sweep_list;
static void poison_scm(GCBlock *b) {
  if (g_sweep_scm) {
    g_sweep_scm(b);
  }
  auto s = (SCM *)block_to_obj(b);
  s->type = SCM::NUM;
  s->value = (void *)0x5eed5eed;
  s->source_loc = nullptr;
}
static void poison_list(GCBlock *b) {
  if (g_sweep_list) {
    g_sweep_list(b);
  }
  auto l = (SCM_List *)block_to_obj(b);
  l->data = nullptr;
  l->next = nullptr;
  l->is_dotted = false;
}

// ---------------------------------------------------------------- running
SCM *eval(SCM *ast) {
  return pscm_eval(ast);
}

// what the pscm program does with a script, without the printing
static int run_program(const char *path) {
  auto l = pscm_parse_file(path);
  if (!l) {
    return 1;
  }
  while (l) {
    if (!c_direct(l->data)) {
      eval(l->data);
    }
    l = l->next;
  }
  return 0;
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

int main(int argc, char **argv) {
  // The same addresses in every run: the stack scan is conservative.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) {
    execv("/proc/self/exe", argv);
  }
  long stack_marker;
  gc_set_stack_top(&stack_marker);
  double limit = 20;
  long stop_after = 0, timeouts = 0;  // programs that run out of time, then the others are left out
  const char *joblist = nullptr;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--gc")) {
      g_gc_every = atol(argv[++i]);
    } else if (!strcmp(argv[i], "--timeout")) {
      limit = atof(argv[++i]);
    } else if (!strcmp(argv[i], "--stop-after")) {
      stop_after = atol(argv[++i]);
    } else {
      joblist = argv[i];
    }
  }
  std::vector<std::string> jobs;
  FILE *f = fopen(joblist, "r");
  if (!f) {
    perror(joblist);
    return 2;
  }
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0;
    jobs.push_back(line);
  }
  fclose(f);

  pscm_init();
  define_gsubrs();
  if (g_gc_every) {
    g_sweep_scm = sweep_fns[GC_SCM];
    sweep_fns[GC_SCM] = poison_scm;
    g_sweep_list = sweep_fns[GC_LIST];
    sweep_fns[GC_LIST] = poison_list;
  }
  fflush(stdout);

  for (size_t i = 0; i < jobs.size(); i++) {
    if (stop_after && timeouts >= stop_after) {
      printf("=%zu\n!skipped\n", i);
      continue;
    }
    int fds[2];
    if (pipe(fds)) {
      perror("pipe");
      return 2;
    }
    pid_t pid = fork();
    if (pid < 0) {
      perror("fork");
      return 2;
    }
    if (pid == 0) {
      close(fds[0]);
      g_event_fd = fds[1];
      struct rlimit core = {0, 0};
      setrlimit(RLIMIT_CORE, &core);
      struct rlimit as = {4ul << 30, 4ul << 30};
      setrlimit(RLIMIT_AS, &as);
      setpgid(0, 0);
      std::string dir = jobs[i].substr(0, jobs[i].rfind('/'));
      if (chdir(dir.c_str())) {
        _exit(98);
      }
      int null = open("/dev/null", O_RDWR);
      dup2(null, 0);
      dup2(null, 1);
      dup2(null, 2);
      g_in_program = true;
      int rc = run_program(jobs[i].c_str());
      g_in_program = false;
      fflush(nullptr);
      _exit(rc);
    }
    close(fds[1]);
    printf("=%zu\n", i);
    double deadline = now() + limit;
    bool timed_out = false;
    size_t total = 0;
    while (true) {
      struct pollfd p = {fds[0], POLLIN, 0};
      double left = deadline - now();
      int r = left > 0 ? poll(&p, 1, (int)(left * 1000) + 1) : 0;
      if (r == 0 || total > (8u << 20)) {
        timed_out = true;
        kill(pid, SIGKILL);
        break;
      }
      char buf[65536];
      ssize_t n = read(fds[0], buf, sizeof buf);
      if (n <= 0) {
        break;
      }
      total += n;
      fwrite(buf, 1, n, stdout);
    }
    close(fds[0]);
    int st;
    while (true) {
      pid_t w = waitpid(pid, &st, WNOHANG);
      if (w == pid) {
        break;
      }
      if (now() > deadline) {
        timed_out = true;
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        break;
      }
      usleep(200);
    }
    if (timed_out) {
      timeouts++;
      printf("!timeout\n");
    } else if (WIFSIGNALED(st)) {
      printf("!signal %d\n", WTERMSIG(st));
    } else if (WEXITSTATUS(st)) {
      printf("!exit %d\n", WEXITSTATUS(st));
    } else {
      printf("!ok\n");
    }
    fflush(stdout);
  }
  return 0;
}
