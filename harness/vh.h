/* vh.h - stateless exhaustive explorer and reporting, header only, C and C++.
   vh_init(argc,argv); while(vh_next()) { ...choose(n)...; vh_fail(...) } return vh_done();
   Every execution is identified by its list of choices; all choice lists are enumerated depth first.
   Output: one JSON object per line on the descriptor that was standard output at start. */
#ifndef VH_H
#define VH_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#define VH_MAXCH 8192
static int vh_n[VH_MAXCH], vh_c[VH_MAXCH], vh_pos, vh_len, vh_started, vh_replaying, vh_changed = -1;
static long vh_shard = 0, vh_shards = 1, vh_prefix = -1, vh_execs, vh_states, vh_trans, vh_nfail, vh_maxfail = 10;
static int vh_fd = -1, vh_thorough, vh_finished, vh_skip, vh_capped;
static double vh_deadline = 1e18, vh_t0;
static char vh_note_buf[1 << 16]; static int vh_note_len;
static int vh_nsample = 0, vh_argc; static char **vh_argv;
static volatile long vh_tick; static int vh_hang_s = 60; static pid_t vh_pid;
static double vh_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void vh_raw(const char *s, size_t n) { while (n) { ssize_t k = write(vh_fd, s, n); if (k <= 0) return; s += k; n -= k; } }
static char *vh_json(const char *s) { /* JSON string literal, malloced outside of E's allocator */
  size_t n = strlen(s); char *o = (char *)malloc(n * 6 + 3), *p = o; *p++ = '"';
  for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { *p++ = '\\'; *p++ = c; } else if (c < 32 || c > 126) p += sprintf(p, "\\u%04x", c); else *p++ = c; }
  *p++ = '"'; *p = 0; return o; }
static void vh_choices(char *b, size_t sz) { int l = 0; b[0] = 0; for (int i = 0; i < vh_pos && l + 12 < (int)sz; i++) l += snprintf(b + l, sz - l, "%s%d", i ? "," : "", vh_c[i]); }
static void vh_note(const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(vh_note_buf + vh_note_len, sizeof vh_note_buf - vh_note_len, f, a); va_end(a); if (r > 0) { vh_note_len += r; if (vh_note_len > (int)sizeof vh_note_buf - 1) vh_note_len = sizeof vh_note_buf - 1; } }
static int vh_done(void);
static void vh_emit(const char *kind, const char *key, const char *msg) {
  static char ch[VH_MAXCH * 4]; static char line[1 << 18]; vh_choices(ch, sizeof ch); char *k = vh_json(key), *m = vh_json(msg), *n = vh_json(vh_note_buf);
  int l = snprintf(line, sizeof line, "{\"t\":\"%s\",\"key\":%s,\"msg\":%s,\"note\":%s,\"choices\":\"%s\"}\n", kind, k, m, n, ch); if (l >= (int)sizeof line) { l = snprintf(line, sizeof line, "{\"t\":\"%s\",\"key\":%s,\"msg\":\"(long)\",\"note\":\"(long)\",\"choices\":\"%s\"}\n", kind, k, ch); }
  vh_raw(line, l); free(k); free(m); free(n); }
/* report a violation; key identifies the kind of failure (used to group and to match known findings) */
static void vh_fail(const char *key, const char *f, ...) { static char b[1 << 16]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); vh_emit("viol", key, b); vh_nfail++; if (vh_nfail >= vh_maxfail) { vh_capped = 1; exit(vh_done()); } }
static void vh_sample(void) { if (vh_nsample < 3) { vh_nsample++; vh_emit("sample", "", ""); } }
static void vh_stat(const char *name, long v) { char b[200]; int l = snprintf(b, sizeof b, "{\"t\":\"stat\",\"name\":\"%s\",\"v\":%ld}\n", name, v); vh_raw(b, l); }
/* distinct observations */
#define VH_OSZ (1u << 21)
static uint64_t *vh_oset; static long vh_distinct;
static uint64_t vh_h(uint64_t h, const void *p, size_t n) { const unsigned char *s = (const unsigned char *)p; while (n--) { h ^= *s++; h *= 1099511628211ULL; } return h; }
static uint64_t vh_hs(const char *s) { return vh_h(14695981039346656037ULL, s, strlen(s)); }
static int vh_outcome(uint64_t h) { if (!h) h = 1; if (!vh_oset) vh_oset = (uint64_t *)calloc(VH_OSZ, 8); uint32_t i = (uint32_t)(h ^ (h >> 32)) % VH_OSZ; for (int k = 0; k < 64; k++, i = (i + 1) % VH_OSZ) { if (vh_oset[i] == h) return 0; if (!vh_oset[i]) { vh_oset[i] = h; vh_distinct++; return 1; } } return 0; }
static void vh_crash(int sig) { char b[64]; snprintf(b, sizeof b, sig == SIGALRM ? "no progress (hang)" : "signal %d", sig); if (getpid() == vh_pid) { vh_emit("viol", sig == SIGALRM ? "hang" : "crash", b); vh_finished = 1; } _exit(3); }
static void vh_alarm(int sig) { static long last = -1; static int same; if (vh_tick == last) { if (++same >= vh_hang_s) vh_crash(sig); } else { same = 0; last = vh_tick; } }
static void vh_atexit(void) { if (!vh_finished && getpid() == vh_pid) { vh_emit("viol", "exit", "library ended the process unexpectedly"); } }
static const char *vh_arg(const char *name) { for (int i = 1; i + 1 < vh_argc; i++) if (!strcmp(vh_argv[i], name)) return vh_argv[i + 1]; return NULL; }
static void vh_init(int argc, char **argv) {
  const char *s; vh_argc = argc; vh_argv = argv; vh_t0 = vh_now(); vh_pid = getpid();
  vh_fd = dup(1); fcntl(vh_fd, F_SETFD, FD_CLOEXEC);
  if ((s = vh_arg("--shard"))) sscanf(s, "%ld/%ld", &vh_shard, &vh_shards);
  if ((s = vh_arg("--tier"))) vh_thorough = !strcmp(s, "thorough");
  if ((s = vh_arg("--deadline"))) vh_deadline = vh_t0 + atof(s);
  if ((s = vh_arg("--hang"))) vh_hang_s = atoi(s);
  if ((s = vh_arg("--replay"))) { vh_replaying = 1; while (*s) { vh_c[vh_len++] = strtol(s, (char **)&s, 10); if (*s == ',') s++; } }
  /* the code under test must not write into our report */
  int nul = open("/dev/null", O_WRONLY); if (nul >= 0 && !vh_arg("--show")) { dup2(nul, 1); if (!getenv("VH_STDERR")) dup2(nul, 2); close(nul); }
  static char astk[65536]; stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = astk; ss.ss_size = sizeof astk; sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = vh_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL);
  sa.sa_handler = vh_alarm; sa.sa_flags = SA_RESTART | SA_ONSTACK; sigaction(SIGALRM, &sa, NULL); struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &it, NULL);
  atexit(vh_atexit); }
/* next execution */
static int vh_next(void) {
  vh_tick++; vh_note_len = 0; vh_note_buf[0] = 0;
  if (vh_replaying) { if (vh_started) return 0; vh_started = 1; vh_pos = 0; vh_changed = -1; vh_execs++; return 1; }
  if (!vh_started) { vh_started = 1; vh_len = 0; vh_changed = -1; }
  else { int i = vh_pos - 1; while (i >= 0 && vh_c[i] + 1 >= vh_n[i]) i--; if (i < 0) return 0; vh_c[i]++; vh_len = i + 1; vh_changed = i; }
  if (vh_now() > vh_deadline) { vh_capped = 1; return 0; }
  vh_pos = 0; vh_skip = 0; vh_execs++; return 1; }
/* nondeterministic choice in 0..n-1 */
static int choose(int n) {
  vh_tick++;
  if (vh_pos >= VH_MAXCH) { fprintf(stderr, "too many choices\n"); abort(); }
  if (n <= 0) { vh_fail("harness", "choose(%d)", n); abort(); }
  if (vh_pos < vh_len) { if (!vh_replaying && vh_pos < vh_len - 1 && vh_n[vh_pos] != n) { vh_fail("nondeterminism", "replaying a prefix gave %d alternatives instead of %d", n, vh_n[vh_pos]); }
    vh_n[vh_pos] = n; if (vh_c[vh_pos] >= n) { vh_fail("nondeterminism", "choice %d of %d", vh_c[vh_pos], n); vh_c[vh_pos] = n - 1; } return vh_c[vh_pos++]; }
  vh_n[vh_pos] = n; vh_c[vh_pos] = 0; vh_pos++; return 0; }
/* call after the first few choices: does this execution belong to this shard?  If not, return from the case. */
static int vh_mine(void) { if (vh_replaying) return 1; if (vh_changed < vh_pos) { vh_prefix++; } if (vh_prefix % vh_shards != vh_shard) { vh_execs--; return 0; } return 1; }
static int vh_done(void) { vh_finished = 1; char b[400]; int l = snprintf(b, sizeof b, "{\"t\":\"end\",\"execs\":%ld,\"states\":%ld,\"trans\":%ld,\"distinct\":%ld,\"capped\":%d,\"wall\":%.2f}\n", vh_execs, vh_states, vh_trans, vh_distinct, vh_capped, vh_now() - vh_t0); vh_raw(b, l); return 0; }
static void vh_unused(void) { (void)vh_unused; (void)vh_hs; (void)vh_sample; (void)vh_stat; (void)vh_outcome; (void)vh_note; (void)vh_mine; (void)choose; (void)vh_next; (void)vh_init; }
#endif
