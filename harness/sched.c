#define _GNU_SOURCE
/* sched.c - C20: the real scheduler of strategy processes under a controlled environment.  The schedule runs in a process P of its own;
   its strategy processes are real but act (write a piece, end, crash) only when told to, and P's select() is where the explorer decides
   who acts next, whether P sees it at once, and whether P gets SIGTERM.  All such histories within the bounds are enumerated. */
#include "vh.h"
#include <errno.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <cco_scheduling.h>
bool app_encode = false;
#define MAXS 16
#include <sys/stat.h>
#include <dirent.h>
#include <cco_batch_spec.h>
static int batch;
#define CR COMCHARRAW
static char longtext[40000];
typedef struct { const char *w[3]; int end; } Beh; /* pieces written; end: exit code, or -signal */
static Beh B[] = {
  {{CR " SZS status Theorem\nproof\n"}, 0}, {{"nothing\n"}, 8}, {{"x"}, -SIGKILL}, {{CR " SZS st", "atus Unsatisfiable\nproof\n"}, 0}, {{CR " SZS status Satisfiable\n", "model\n"}, 1}, {{CR " SZS status GaveUp\n"}, 9}, {{NULL}, -SIGXCPU}, {{CR " SZS status CounterSatisfiable\n"}, 1}, {{CR " SZS status ContradictoryAxioms\nproof\n"}, 0}, {{longtext, CR " SZS status Theorem\nend\n"}, 0}, {{CR " SZS status ResourceOut\n"}, 3}};
static int success(int b) { if (batch && (b == 4 || b == 7)) return 0; return b == 0 || b == 3 || b == 4 || b == 7 || b == 8 || b == 9; }
typedef struct { int n[512], c[512], pos; int started[MAXS], ended[MAXS], seenEof[MAXS], pid[MAXS], ns, maxrun, badkill, terms, idle, outcome, ret, order; } Shm;
static Shm *sh; static int inP, ns, beh[MAXS], cores[MAXS], maxc, ctl[MAXS][2], ack[MAXS][2], step[MAXS], alive[MAXS], nextStart, termBudget, idleBudget, evs, evMax, lastSel;
static void save(void) { memcpy(sh->n, vh_n, sizeof sh->n); memcpy(sh->c, vh_c, sizeof sh->c); sh->pos = vh_pos; }
static int npieces(int b) { int i; for (i = 0; i < 3 && B[b].w[i]; i++); return i; }
static void advance(int s) { char c = 'g'; int b = beh[s]; if (write(ctl[s][1], &c, 1) != 1) _exit(97); if (step[s] < npieces(b)) { if (read(ack[s][0], &c, 1) != 1) _exit(96); step[s]++; } else { siginfo_t si; while (waitid(P_PID, sh->pid[s], &si, WEXITED | WNOWAIT) < 0 && errno == EINTR); alive[s] = 0; sh->ended[s] = ++sh->order; } }
pid_t fork(void) { pid_t p; if (!inP) return syscall(SYS_fork); int s = nextStart++; if (s >= MAXS) _exit(95); p = syscall(SYS_fork); if (p == 0) { /* strategy process: inP = 2; acts later */ inP = 2; lastSel = s; return 0; } sh->pid[s] = p; sh->started[s] = ++sh->order; sh->ns = nextStart; alive[s] = 1; int run = 0, i; for (i = 0; i < nextStart; i++) if (alive[i]) run += cores[i]; if (run > sh->maxrun) sh->maxrun = run; return p; }
int kill(pid_t p, int sig) { if (inP == 1) { int i, ok = 0; for (i = 0; i < nextStart; i++) if (sh->pid[i] == p) { siginfo_t si; si.si_pid = 0; ok = waitid(P_PID, p, &si, WEXITED | WNOWAIT | WNOHANG) == 0; alive[i] = 0; } if (!ok) { sh->badkill = p; errno = ESRCH; return -1; } } return syscall(SYS_kill, p, sig); }
static int nsym;
static double vclock = 1e9;
time_t time(time_t *t) { if (t) *t = (time_t)vclock; return (time_t)vclock; }
int gettimeofday(struct timeval *t, void *z) { t->tv_sec = (time_t)vclock; t->tv_usec = 0; return 0; }
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { static const struct timeval Z = {0, 0}; if (inP != 1) { struct timespec ts = {0, 1000000}; nanosleep(&ts, NULL); if (r) FD_ZERO(r); return 0; }
  int i, forced = 0; struct timeval z; if (evs > 400) { sh->outcome = 3; save(); _exit(94); }
  for (;;) { evs++; fd_set rr = *r; z = Z; int rdy = (int)syscall(SYS_select, n, &rr, NULL, NULL, &z); int opt[32], no = 0, free_ = evs < evMax; for (i = 0; i < nextStart; i++) if (alive[i]) { opt[no++] = i; if (batch && i >= nsym) break; } if (rdy > 0) opt[no++] = 100; if (free_ && termBudget) opt[no++] = 101; if (free_ && idleBudget && !rdy) opt[no++] = 102;
    if (!no) { *r = rr; sh->idle++; vclock += 0.5; return 0; } int k; if (free_) { if (forced && rdy > 0) { /* at most two events per round */ k = 100; } else { k = opt[choose(no)]; save(); } } else k = rdy > 0 ? 100 : opt[0];
    if (k < 100) { advance(k); forced++; if (forced < 2 && free_) continue; forced = 2; continue; }
    if (k == 100) { *r = rr; return rdy; } if (k == 101) { termBudget--; sh->terms++; raise(SIGTERM); errno = EINTR; return -1; } idleBudget--; vclock += 0.5; FD_ZERO(r); return 0; } }
static void child(int s) { char c; int i, b = beh[s]; signal(SIGPIPE, SIG_DFL); prctl(PR_SET_PDEATHSIG, 0); for (i = 0;; i++) { if (read(ctl[s][0], &c, 1) != 1) _exit(0); if (i < npieces(b)) { const char *w = B[b].w[i]; size_t l = strlen(w); if (write(1, w, l) != (ssize_t)l) _exit(93); c = 'a'; if (write(ack[s][1], &c, 1) != 1) _exit(92); } else { if (B[b].end < 0) { signal(-B[b].end, SIG_DFL); struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); syscall(SYS_kill, getpid(), -B[b].end); for (;;) pause(); } _exit(B[b].end); } } }
static void child(int s);
static FILE *PF[64]; static int PP[64], np_;
FILE *popen(const char *cmd, const char *m) { int fd[2]; if (pipe(fd)) return NULL; fflush(NULL); pid_t p = fork(); if (!p) { char b[64]; int s = lastSel; dup2(fd[1], 1); close(fd[0]); close(fd[1]); snprintf(b, sizeof b, CR " Pid: %d\n", getpid()); signal(SIGTERM, SIG_DFL); if (write(1, b, strlen(b)) < 0) _exit(91); child(s); } close(fd[1]); FILE *f = fdopen(fd[0], "r"); PF[np_] = f; PP[np_++] = p; return f; }
int pclose(FILE *f) { int i, st = -1; for (i = 0; i < np_; i++) if (PF[i] == f) { fclose(f); waitpid(PP[i], &st, 0); PF[i] = NULL; return st; } return -1; }
static int countFiles(const char *d, int rm) { DIR *D = opendir(d); struct dirent *e; int n = 0; char p[600]; while (D && (e = readdir(D))) if (e->d_name[0] != '.') { n++; if (rm) { snprintf(p, sizeof p, "%s/%s", d, e->d_name); unlink(p); } } if (D) closedir(D); return n; }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("sched"); sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); prctl(PR_SET_CHILD_SUBREAPER, 1); int NS = atoi(vh_arg("--n")), NB = atoi(vh_arg("--b")), i, term = vh_arg("--term") ? 1 : 0; int EV = atoi(vh_arg("--ev")); memset(longtext, 'l', 3000); for (i = 99; i < 3000; i += 100) longtext[i] = '\n'; long procs = 0, results = 0; char tmpd[300]; batch = vh_arg("--batch") != NULL; if (batch) { snprintf(tmpd, sizeof tmpd, "%s/b%d", vh_arg("--scratch"), getpid()); mkdir(tmpd, 0700); setenv("TMPDIR", tmpd, 1); B[3] = (Beh){{"one\n", CR " SZS status Unsatisfiable\nproof\n"}, 0}; B[2] = (Beh){{"x\n"}, -SIGKILL}; OutputFormat = TSTPFormat; }

  while (vh_next()) { static const int CS[][2 + MAXS] = {{1, 0, 1, 1, 1, 1, 1}, {2, 0, 1, 1, 1, 1, 1}, {3, 0, 1, 1, 1, 1, 1}, {3, 0, 2, 1, 1, 2, 1}}; ns = NS; int cs = batch ? 0 : choose(4); maxc = CS[cs][0]; for (i = 0; i < ns; i++) { beh[i] = choose(NB); cores[i] = CS[cs][2 + i]; } if (!vh_mine()) continue; vh_states++; nsym = NS; if (batch) { maxc = 8; ns = MAXS; for (i = NS; i < ns; i++) { beh[i] = 1; cores[i] = 1; } for (i = 0; i < ns; i++) cores[i] = 1; }
    memset(sh, 0, sizeof *sh); vh_note("cores %d; strategies:", maxc); for (i = 0; i < ns; i++) vh_note(" %d(%d)", beh[i], cores[i]); for (i = 0; i < ns; i++) { if (pipe(ctl[i]) || pipe(ack[i])) abort(); step[i] = alive[i] = 0; } nextStart = 0; termBudget = term; idleBudget = 1; evs = 0; evMax = EV; int out[2]; if (pipe(out)) abort(); fcntl(out[1], F_SETPIPE_SZ, 1 << 18); save();
    fflush(NULL); pid_t P = fork(); if (!P) { inP = 1; vh_finished = 1; dup2(out[1], 1); GlobalOut = stdout; ScheduleCell sc[MAXS + 1]; memset(sc, 0, sizeof sc); static char *nm[] = {"S0", "S1", "S2", "S3", "S4"}; for (i = 0; i < ns && i < 5; i++) { sc[i].heu_name = nm[i]; sc[i].time_fraction = 0.05; sc[i].cores = cores[i]; } HeuristicParms_p h = HeuristicParmsAlloc(); static struct itimerval it0; setitimer(ITIMER_REAL, &it0, NULL); signal(SIGALRM, SIG_DFL); struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_REAL, &it, NULL); signal(SIGABRT, SIG_DFL); signal(SIGSEGV, SIG_DFL);
      if (batch) { BatchSpec_p spec = BatchSpecAlloc("stub", TSTPFormat); spec->category = SecureStrdup("d"); spec->res_proof = BODesired; StructFOFSpec_p ct = StructFOFSpecAlloc(); BatchStructFOFSpecInit(spec, ct, NULL); Scanner_p in = CreateScanner(StreamTypeUserString, "fof(a,axiom,p(a)). fof(g,conjecture,p(a)).", true, NULL, true); ScannerSetFormat(in, TSTPFormat); ClauseSet_p c0 = ClauseSetAlloc(); FormulaSet_p f0 = FormulaSetAlloc(); FormulaAndClauseSetParse(in, f0, c0, ct->terms, NULL, &(ct->parsed_includes)); DestroyScanner(in); GlobalOut = fopen("/dev/null", "w"); bool r = BatchProcessProblem(spec, 3, ct, "job", c0, f0, stdout, -1, false); sh->outcome = 4; sh->ret = r; save(); fflush(stdout); exit(78); }
      int r = ExecuteScheduleMultiCore(sc, h, false, 300, false, maxc, false); if (inP == 2) { child(r); } sh->outcome = 1; sh->ret = r; save(); fflush(stdout); _exit(77); }
    close(out[1]); int st; while (waitpid(P, &st, 0) < 0 && errno == EINTR); memcpy(vh_n, sh->n, sizeof sh->n); memcpy(vh_c, sh->c, sizeof sh->c); vh_pos = sh->pos; vh_trans += sh->order; procs += sh->ns; 
    /* anything left behind? */ int left = 0; for (i = 0; i < ns; i++) { close(ctl[i][1]); } for (;;) { int s2; pid_t q = waitpid(-1, &s2, WNOHANG); if (q > 0) { left++; continue; } if (q < 0) break; left += 100; int k; for (k = 0; k < sh->ns; k++) if (sh->pid[k] > 0) syscall(SYS_kill, sh->pid[k], SIGKILL); while ((q = waitpid(-1, &s2, 0)) > 0 || (q < 0 && errno == EINTR)); break; }
    static char o[1 << 18]; int l = 0, k; while ((k = read(out[0], o + l, sizeof o - 1 - l)) > 0) l += k; o[l] = 0; close(out[0]); for (i = 0; i < ns; i++) { close(ctl[i][0]); close(ack[i][0]); close(ack[i][1]); }
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st); vh_note("; order of events:"); { int e; for (e = 1; e <= sh->order; e++) for (i = 0; i < ns; i++) { if (sh->started[i] == e) vh_note(" start%d", i); if (sh->ended[i] == e) vh_note(" end%d", i); } } if (sh->terms) vh_note(" SIGTERM"); vh_note("; result %d", code);
    if (batch) { int nf = countFiles(tmpd, 1); if (nf && !sh->terms) vh_fail("tempfile", "%d temporary files are left", nf); }
    if (left) vh_fail("leftover", "%d processes are left when the scheduler has ended", left);
    if (sh->badkill) vh_fail("badkill", "a signal is sent to process %d that is not a strategy process of this run", sh->badkill);
    if (sh->maxrun > maxc) vh_fail("cores", "%d cores are used although %d are allowed", sh->maxrun, maxc);
    if (sh->outcome == 3) vh_fail("endless", "the scheduler does not come to an end");
    else if (code == -SIGALRM) vh_fail("endless", "the scheduler hangs");
    else if (batch && sh->terms) { if (strstr(o, "Theorem") || strstr(o, "Unsatisfiable")) vh_fail("term", "a result is printed after SIGTERM"); }
    else if (batch && sh->outcome != 4) vh_fail("crash", "the batch run ends with status %d", code);
    else if (batch) { int any = 0, ok = 0; for (i = 0; i < ns; i++) if (sh->ended[i] && success(beh[i])) { any = 1; char want[8192]; int p; want[0] = 0; for (p = 0; p < 3 && B[beh[i]].w[p]; p++) strcat(want, B[beh[i]].w[p]); char *f = strstr(o, want); if (f && !f[strlen(want)] && !strncmp(o, CR " SZS status ", 13) && strstr(o, "for job")) ok = 1; } results += ok; if (sh->ret && !ok) vh_fail("result", "a result is reported that is not the outcome of a prover that succeeded: %.300s", o); if (!sh->ret && any) vh_fail("missed", "a prover succeeded but no result is reported"); if (!sh->ret && !strstr(o, "GaveUp")) vh_fail("result", "no status is reported"); if (!any) for (i = 0; i < NS; i++) if (!sh->started[i]) vh_fail("skipped", "prover %d was not started", i); }
    else if (sh->outcome == 1) { /* schedule exhausted */ if (sh->terms) vh_fail("term", "SIGTERM is ignored"); if (sh->ret != SCHEDULE_DONE) vh_fail("return", "returns %d", sh->ret); for (i = 0; i < ns; i++) { if (!sh->started[i]) vh_fail("skipped", "strategy %d was never started although none succeeded", i); else if (sh->ended[i] && success(beh[i])) { vh_fail("missed", "strategy %d succeeded but no result is reported", i); break; } } }
    else if (sh->terms && strstr(o, "Result found") == NULL) { if (code == 0 || code == 1 || code == -SIGKILL || code == -SIGSEGV) vh_fail("term", "ends with status %d after SIGTERM", code); if (strstr(o, "SZS status")) vh_fail("term", "a status is printed after SIGTERM"); }
    else { results++; int ok = 0, s0 = -1; for (i = 0; i < ns; i++) if (sh->ended[i] && success(beh[i]) && code == B[beh[i]].end) { char want[8192]; int p; want[0] = 0; for (p = 0; p < 3 && B[beh[i]].w[p]; p++) strcat(want, B[beh[i]].w[p]); char *f = strstr(o, want); if (f && !f[strlen(want)]) { char nm2[40]; snprintf(nm2, sizeof nm2, "Result found by S%d\n", i); if (strstr(o, nm2)) { ok = 1; s0 = i; } } } if (!ok) vh_fail("result", "ends with status %d; this is not the outcome of a strategy that succeeded (output: %.300s)", code, o); else for (i = 0; i < s0; i++) if (!sh->started[i]) vh_fail("order", "strategy %d skipped", i); }
    vh_outcome(vh_h(code * 31 + sh->order, o, l)); vh_sample(); }
  if (batch) rmdir(tmpd); vh_stat("processes", procs); vh_stat("results", results); return vh_done(); }
