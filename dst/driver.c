/* Simulation driver: fork server around the real monitor library and the real
 * CLI. Everything nondeterministic (input arrival, chunking, errors, output
 * sink, restarts, interleaving of instances) is dictated by the run script. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <errno.h>
#include <setjmp.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include "r2u2.h"
#include "cli/csv_trace.h"

#define NMON 4
static r2u2_monitor_t mons[NMON] = {
  R2U2_DEFAULT_MONITOR, R2U2_DEFAULT_MONITOR, R2U2_DEFAULT_MONITOR, R2U2_DEFAULT_MONITOR };

/* run-time storage bounds, used by builds whose bounds.h refers to them (see msim.rt_bounds) */
size_t dst_bounds[12];
enum { B_AUXB, B_AUXF, B_AUXC, B_SIG, B_ATOM, B_BZ, B_TL, B_TEMP, B_SLOT };
static void *exact(size_t n) { void *p = malloc(n); if (n) memset(p, 0, n); return p; } /* ASan guards both ends */
static void alloc_exact(r2u2_monitor_t *m) { /* what R2U2_DEFAULT_MONITOR reserves under these bounds, one block per array */
  size_t *b = dst_bounds;
  m->bz_instruction_tbl = exact(b[B_BZ] * sizeof *m->bz_instruction_tbl);
  m->mltl_instruction_tbl = exact(b[B_TL] * sizeof *m->mltl_instruction_tbl);
  m->signal_vector = exact(b[B_SIG] * sizeof *m->signal_vector);
  m->value_buffer = exact(b[B_BZ] * sizeof *m->value_buffer);
  m->atomic_buffer = exact(b[B_ATOM] * sizeof *m->atomic_buffer);
  m->queue_arena.control_blocks = exact(b[B_TL] * sizeof *m->queue_arena.control_blocks);
  m->queue_arena.queue_mem = exact((b[B_SLOT] + b[B_TEMP] * (R2U2_TEMPORAL_METADATA_SIZE)) * sizeof(r2u2_verdict));
#if R2U2_AUX_STRING_SPECS
  m->aux_info_arena.formula_control_blocks = exact(b[B_AUXF] * sizeof *m->aux_info_arena.formula_control_blocks);
  m->aux_info_arena.contract_control_blocks = exact(b[B_AUXC] * sizeof *m->aux_info_arena.contract_control_blocks);
  m->aux_info_arena.aux_mem = exact(b[B_AUXB]);
#endif
}
static r2u2_csv_reader_t *csv[NMON];

/* ---------- edge coverage + deterministic work budget ---------- */
static uint32_t n_edges;
static uint8_t edge_hit[65536];
static uint64_t work, work_budget = 0;
static volatile int in_target = 0;
static FILE *evlog;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) *x = ++n_edges;
}
static void finish(int code);
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
  if (!*guard) return;
  edge_hit[*guard & 65535] = 1;
  if (in_target && work_budget && ++work > work_budget) {
    in_target = 0;
    fprintf(evlog, "HANG %llu\n", (unsigned long long)work_budget);
    finish(77);
  }
}

/* ---------- event log ---------- */
static void finish(int code) { /* flush the log and leave the child */
  fflush(evlog);
  _exit(code);
}
static void hexout(const char *tag, const char *b, size_t n) {
  fprintf(evlog, "%s ", tag);
  for (size_t i = 0; i < n; i++) fprintf(evlog, "%02x", (unsigned char)b[i]);
  fputc('\n', evlog);
}

/* ---------- monitor-level simulation ---------- */
static int cur_mon = -1;
static r2u2_status_t on_verdict(r2u2_mltl_instruction_t instr, r2u2_verdict *v) {
  fprintf(evlog, "V %d %u %u %d\n", cur_mon, instr.op2_value, get_verdict_time(*v), get_verdict_truth(*v) ? 1 : 0);
  return R2U2_OK;
}
static char *obuf[NMON]; static size_t olen[NMON];
static void drain(int m) {
  if (!mons[m].out_file) return;
  fflush(mons[m].out_file);
  char *p = obuf[m], *e = obuf[m] + olen[m];
  while (p < e) {
    char *q = memchr(p, '\n', (size_t)(e - p));
    size_t n = q ? (size_t)(q - p) : (size_t)(e - p);
    fprintf(evlog, "O %d ", m); fwrite(p, 1, n, evlog); fputc('\n', evlog);
    p += n + 1;
  }
  rewind(mons[m].out_file);
  obuf[m][0] = 0; 
}

/* ---------- simulated files for the CLI ---------- */
#define NFILE 8
typedef struct {
  char name[64]; uint8_t *data; size_t len; size_t pos; int open;
  uint32_t *chunks; size_t nchunks, ci;     /* sizes returned by successive reads */
  long err_at; int err_no;                   /* I/O error once pos reaches err_at */
  int access_err, open_err, fstat_err, mmap_err, close_err;
} sfile;
static sfile files[NFILE]; static int nfiles;
static struct { char *buf; size_t len, cap; long fail_at; long fail_n; int err_no; int close_err; unsigned long writes; size_t fired; } sink;
static char *errbuf; static size_t errlen;
FILE *dst_stdin, *dst_stdout, *dst_stderr;
static jmp_buf exit_jmp; static int exit_code;
static unsigned long fired_read_err, fired_write_err, fired_chunk, fired_sys;

static sfile *ffind(const char *n) { for (int i = 0; i < nfiles; i++) if (!strcmp(files[i].name, n)) return &files[i]; return NULL; }
static ssize_t sread(sfile *f, void *b, size_t n) {
  if (f->err_at >= 0 && f->pos >= (size_t)f->err_at) { fired_read_err++; errno = f->err_no; return -1; }
  size_t lim = f->len - f->pos;
  if (f->err_at >= 0 && f->pos + lim > (size_t)f->err_at) lim = (size_t)f->err_at - f->pos;
  size_t want = n < lim ? n : lim;
  if (f->ci < f->nchunks && want) {
    size_t c = f->chunks[f->ci++]; if (c < 1) c = 1;
    if (c < want) { want = c; fired_chunk++; }
  }
  memcpy(b, f->data + f->pos, want); f->pos += want; return (ssize_t)want;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return sread((sfile *)c, b, n); }
static int ck_seek(void *c, off64_t *o, int w) {
  sfile *f = c; if (!strcmp(f->name, "<stdin>")) { errno = ESPIPE; return -1; }
  long base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (long)f->pos : (long)f->len;
  long np = base + (long)*o; if (np < 0) { errno = EINVAL; return -1; }
  f->pos = (size_t)np > f->len ? f->len : (size_t)np; *o = (off64_t)f->pos; return 0; }
static int ck_close(void *c) { (void)c; return 0; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  (void)c; sink.writes++;
  size_t room = n; int failing = 0;
  if (sink.fail_at >= 0 && sink.fail_n != 0) {
    if (sink.len >= (size_t)sink.fail_at) { failing = 1; room = 0; }
    else if (sink.len + n > (size_t)sink.fail_at) { failing = 1; room = (size_t)sink.fail_at - sink.len; }
  }
  if (sink.len + room > sink.cap) { sink.cap = (sink.len + room) * 2 + 64; sink.buf = realloc(sink.buf, sink.cap); }
  memcpy(sink.buf + sink.len, b, room); sink.len += room;
  if (failing) { if (sink.fail_n > 0) sink.fail_n--; fired_write_err++; errno = sink.err_no; return room ? (ssize_t)room : 0; }
  return (ssize_t)n;
}
static int ck_wclose(void *c) { (void)c; if (sink.close_err) { fired_write_err++; errno = sink.close_err; return -1; } return 0; }
static FILE *mkread(sfile *f) {
  cookie_io_functions_t io = { .read = ck_read, .seek = ck_seek, .close = ck_close };
  FILE *r = fopencookie(f, "r", io); setvbuf(r, NULL, _IOFBF, 4096); return r;
}
FILE *dst_fopen(const char *p, const char *m) {
  (void)m; sfile *f = ffind(p);
  if (!f) { errno = ENOENT; return NULL; }
  if (f->open_err) { fired_sys++; errno = f->open_err; return NULL; }
  f->pos = 0; return mkread(f);
}
int dst_fclose(FILE *f) { return fclose(f); }
int dst_open(const char *p, int fl, ...) { (void)fl; sfile *f = ffind(p); if (!f) { errno = ENOENT; return -1; }
  if (f->open_err) { fired_sys++; errno = f->open_err; return -1; } f->open = 1; f->pos = 0; return 100 + (int)(f - files); }
static sfile *fdfile(int fd) { if (fd < 100 || fd >= 100 + nfiles || !files[fd - 100].open) { errno = EBADF; return NULL; } return &files[fd - 100]; }
int dst_close(int fd) { sfile *f = fdfile(fd); if (!f) return -1; f->open = 0; if (f->close_err) { fired_sys++; errno = f->close_err; return -1; } return 0; }
int dst_access(const char *p, int m) { (void)m; sfile *f = ffind(p); if (!f) { errno = ENOENT; return -1; } if (f->access_err) { fired_sys++; errno = f->access_err; return -1; } return 0; }
int dst_fstat(int fd, struct stat *st) { sfile *f = fdfile(fd); if (!f) return -1; if (f->fstat_err) { fired_sys++; errno = f->fstat_err; return -1; }
  memset(st, 0, sizeof *st); st->st_size = (off_t)f->len; st->st_mode = S_IFREG | 0644; return 0; }
int dst_stat(const char *p, struct stat *st) { int fd = dst_open(p, 0); if (fd < 0) return -1; int r = dst_fstat(fd, st); dst_close(fd); return r; }
ssize_t dst_read(int fd, void *b, size_t n) { sfile *f = fdfile(fd); if (!f) return -1; return sread(f, b, n); }
off_t dst_lseek(int fd, off_t o, int w) { sfile *f = fdfile(fd); if (!f) return -1; off64_t x = o; if (ck_seek(f, &x, w)) return -1; return (off_t)x; }
static struct { void *base, *user; size_t len; } maps[8]; static int nmaps;
void *dst_mmap(void *a, size_t l, int p, int fl, int fd, off_t o) {
  (void)a; (void)p; (void)fl; sfile *f = fdfile(fd); if (!f) return MAP_FAILED;
  if (l == 0) { errno = EINVAL; return MAP_FAILED; }
  if (f->mmap_err) { fired_sys++; errno = f->mmap_err; return MAP_FAILED; }
  size_t r = (l + 4095) & ~(size_t)4095; uint8_t *m = calloc(1, r); /* page-rounded, zero tail, ASan-guarded end */
  if ((size_t)o < f->len) { size_t n = f->len - (size_t)o; memcpy(m, f->data + o, n < r ? n : r); }
  if (nmaps < 8) { maps[nmaps].user = m; maps[nmaps].len = l; nmaps++; }
  return m;
}
int dst_munmap(void *p, size_t l) {
  for (int i = 0; i < nmaps; i++) if (maps[i].user == p) {
    if (((maps[i].len + 4095) & ~(size_t)4095) != ((l + 4095) & ~(size_t)4095)) { errno = EINVAL; return -1; }
    free(p); maps[i] = maps[--nmaps]; return 0; } /* later use of the mapping is a use-after-free */
  errno = EINVAL; return -1;
}
void dst_perror(const char *s) { int e = errno; fprintf(dst_stderr, "%s: %s\n", s, strerror(e)); }
void dst_exit(int c) { exit_code = c; longjmp(exit_jmp, 1); }
int r2u2_cli_main(int argc, char const *argv[]);

static uint8_t *unhex(const char *h, size_t *n) {
  size_t l = strlen(h) / 2; uint8_t *b = malloc(l ? l : 1); *n = l;
  for (size_t i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); b[i] = (uint8_t)v; }
  return b;
}
static void fill_stale(r2u2_monitor_t *m, uint32_t seed) { /* arbitrary leftover contents in signal storage */
  for (int i = 0; i < R2U2_MAX_SIGNALS; i++) { seed = seed * 1664525u + 1013904223u; m->signal_vector[i].i = (int)(seed >> 8); }
  for (int i = 0; i < R2U2_MAX_ATOMICS; i++) { seed = seed * 1664525u + 1013904223u; m->atomic_buffer[i] = (seed >> 13) & 1; }
}

static void run_script(char *s, size_t n) {
  char *e = s + n;
  uint8_t *specs[16] = {0}; size_t slen[16] = {0};
  char *args[8]; int na = 0;
  while (s < e) {
    char *nl = memchr(s, '\n', (size_t)(e - s)); if (!nl) nl = e;
    *nl = 0; char *line = s; s = nl + 1;
    char *op = strtok(line, " "); if (!op) continue;
#define ARG() strtok(NULL, " ")
    if (!strcmp(op, "b") || !strcmp(op, "i") || !strcmp(op, "f") || !strcmp(op, "s")) {
      int m = atoi(ARG()); size_t idx = (size_t)atol(ARG()); char *v = strtok(NULL, "");
      if (!v) v = "";
      in_target = 1;
      if (*op == 'b') r2u2_load_bool_signal(&mons[m], idx, atoi(v) != 0);
      else if (*op == 'i') r2u2_load_int_signal(&mons[m], idx, (int32_t)atol(v));
      else if (*op == 'f') r2u2_load_float_signal(&mons[m], idx, strtod(v, NULL));
      else { char *d = strdup(v); r2u2_load_string_signal(&mons[m], idx, d); free(d); }
      in_target = 0;
    } else if (!strcmp(op, "step")) {
      int m = atoi(ARG()); cur_mon = m; in_target = 1; r2u2_status_t r = r2u2_step(&mons[m]); in_target = 0; drain(m);
      fprintf(evlog, "R %d %d %u\n", m, (int)r, mons[m].time_stamp);
    } else if (!strcmp(op, "t")) { int m = atoi(ARG()); mons[m].time_stamp = (uint32_t)strtoul(ARG(), NULL, 10);
    } else if (!strcmp(op, "alloc")) { int m = atoi(ARG()); for (int i = 0; i <= B_SLOT; i++) dst_bounds[i] = (size_t)atol(ARG()); alloc_exact(&mons[m]);
    } else if (!strcmp(op, "csv")) { int m = atoi(ARG()); csv[m] = calloc(1, sizeof **csv); csv[m]->input_file = dst_fopen(ARG(), "r");
    } else if (!strcmp(op, "csvrow")) { int m = atoi(ARG()); in_target = 1; r2u2_status_t r = r2u2_csv_load_next_signals(csv[m], &mons[m]); in_target = 0;
      fprintf(evlog, "C %d %d %u\n", m, (int)r, mons[m].time_stamp);
    } else if (!strcmp(op, "spec")) { int k = atoi(ARG()); specs[k] = unhex(ARG(), &slen[k]);
    } else if (!strcmp(op, "load")) {
      int m = atoi(ARG()), k = atoi(ARG());
      uint8_t *c = malloc(slen[k]); memcpy(c, specs[k], slen[k]);  /* exact-size buffer, gone after the call */
      cur_mon = m; in_target = 1; r2u2_status_t r = r2u2_load_specification(c, &mons[m]); in_target = 0; free(c);
      drain(m); fprintf(evlog, "L %d %d %u\n", m, (int)r, mons[m].time_stamp);
    } else if (!strcmp(op, "cb")) { int m = atoi(ARG()); mons[m].out_func = atoi(ARG()) ? on_verdict : NULL;
    } else if (!strcmp(op, "of")) { int m = atoi(ARG()); int on = atoi(ARG());
      if (on && !mons[m].out_file) mons[m].out_file = open_memstream(&obuf[m], &olen[m]);
      else if (!on && mons[m].out_file) { fclose(mons[m].out_file); mons[m].out_file = NULL; }
    } else if (!strcmp(op, "reset")) { int m = atoi(ARG()); char *k = ARG(); in_target = 1;
      if (*k == 'c') r2u2_monitor_clock_reset(&mons[m]); else if (*k == 's') r2u2_monitor_soft_reset(&mons[m]); else r2u2_monitor_hard_reset(&mons[m]);
      in_target = 0;
    } else if (!strcmp(op, "stale")) { int m = atoi(ARG()); fill_stale(&mons[m], (uint32_t)strtoul(ARG(), NULL, 10));
    } else if (!strcmp(op, "budget")) { work_budget = strtoull(ARG(), NULL, 10); work = 0;
    } else if (!strcmp(op, "file")) { sfile *f = &files[nfiles++]; memset(f, 0, sizeof *f); snprintf(f->name, sizeof f->name, "%s", ARG()); char *h = ARG(); f->data = unhex(h ? h : "", &f->len); f->err_at = -1;
    } else if (!strcmp(op, "chunks")) { sfile *f = ffind(ARG()); char *c; f->chunks = malloc(65536 * sizeof(uint32_t)); while ((c = ARG()) && f->nchunks < 65536) f->chunks[f->nchunks++] = (uint32_t)atoi(c);
    } else if (!strcmp(op, "rerr")) { sfile *f = ffind(ARG()); f->err_at = atol(ARG()); f->err_no = atoi(ARG());
    } else if (!strcmp(op, "serr")) { sfile *f = ffind(ARG()); char *k = ARG(); int v = atoi(ARG());
      if (!strcmp(k, "access")) f->access_err = v; else if (!strcmp(k, "open")) f->open_err = v; else if (!strcmp(k, "fstat")) f->fstat_err = v; else if (!strcmp(k, "mmap")) f->mmap_err = v; else if (!strcmp(k, "close")) f->close_err = v;
    } else if (!strcmp(op, "sink")) { sink.fail_at = atol(ARG()); sink.fail_n = atol(ARG()); sink.err_no = atoi(ARG()); sink.close_err = atoi(ARG()); char *bm = ARG(); sink.fired = bm ? (size_t)atol(bm) : 4096;
    } else if (!strcmp(op, "arg")) { args[na++] = strtok(NULL, "");
    } else if (!strcmp(op, "cli")) {
      const char *argv[10] = {"r2u2"}; for (int i = 0; i < na; i++) argv[i + 1] = args[i]; argv[na + 1] = NULL;
      sfile *in = ffind("<stdin>"); if (!in) { in = &files[nfiles++]; memset(in, 0, sizeof *in); strcpy(in->name, "<stdin>"); in->err_at = -1; in->data = malloc(1); }
      dst_stdin = mkread(in);
      cookie_io_functions_t io = { .write = ck_write, .close = ck_wclose };
      if (!sink.fired) { sink.fail_at = -1; sink.fired = 4096; }
      dst_stdout = fopencookie(&sink, "w", io);
      if (sink.fired == 1) setvbuf(dst_stdout, NULL, _IOLBF, 4096); else setvbuf(dst_stdout, NULL, _IOFBF, sink.fired);
      dst_stderr = open_memstream(&errbuf, &errlen);
      int rc;
      optind = 1;
      if (setjmp(exit_jmp) == 0) { in_target = 1; rc = r2u2_cli_main(na + 1, argv); in_target = 0; } else { in_target = 0; rc = exit_code; }
      fflush(dst_stderr);
      hexout("OUT", sink.buf ? sink.buf : "", sink.len); hexout("ERR", errbuf, errlen);
      fprintf(evlog, "RC %d\nFIRED %lu %lu %lu %lu %lu\n", rc & 255, fired_read_err, fired_write_err, fired_chunk, fired_sys, sink.writes);
    } else { fprintf(evlog, "BADOP %s\n", op); finish(78); }
  }
  unsigned c = 0; uint64_t h = 1469598103934665603ull;
  for (uint32_t i = 0; i < 65536; i++) if (edge_hit[i]) { c++; h = (h ^ i) * 1099511628211ull; }
  fprintf(evlog, "COV %u %u %016llx %llu\n", c, n_edges, (unsigned long long)h, (unsigned long long)work);
}

int main(void) {
  char hdr[64];
  setvbuf(stdout, NULL, _IONBF, 0);
  for (;;) {
    if (!fgets(hdr, sizeof hdr, stdin)) return 0;
    size_t n = 0; if (sscanf(hdr, "RUN %zu", &n) != 1) return 2;
    char *s = malloc(n + 1); if (fread(s, 1, n, stdin) != n) return 3; s[n] = 0;
    int p[2]; if (pipe(p)) return 4;
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]); dup2(p[1], 2); /* sanitizer reports join the log */
      signal(SIGALRM, SIG_DFL);
      struct rlimit rl = {60, 60}; setrlimit(RLIMIT_CPU, &rl); /* harness guard only */
      evlog = fdopen(p[1], "w");
      run_script(s, n); finish(0);
    }
    close(p[1]); free(s);
    size_t cap = 65536, len = 0; char *o = malloc(cap); ssize_t r;
    while ((r = read(p[0], o + len, cap - len)) != 0) { if (r < 0) { if (errno == EINTR) continue; break; } len += (size_t)r; if (len == cap) o = realloc(o, cap *= 2); }
    close(p[0]); int st; waitpid(pid, &st, 0);
    printf("DONE %d %zu\n", st, len); fwrite(o, 1, len, stdout); free(o);
  }
}
