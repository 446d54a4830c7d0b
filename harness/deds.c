/* deds.c - C18: every command sequence of a deduction server session up to a length, run by the real command loop over a socket. */
#include "vh.h"
#include <sys/socket.h>
#include <sys/stat.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <cio_tempfile.h>
#include <cco_einteractive_mode.h>
bool app_encode = false;
#define NN 3
static const char *NAME_[NN] = {"a", "ab", "x.ax"};
/* contents: the number of each is the marker predicate */
static const char *CT[] = {"fof(a1,axiom,(u1(k))).\n", "cnf(a2,axiom,(u2(k))).\nfof(a3,axiom,(![X]:(u2(X)=>u3(X)))).\n", "fof(ab1,axiom,(u4(k))).\n", "fof(x1,axiom,(u5(k))).\n"}; static const int CM[] = {1 << 1, 1 << 2 | 1 << 3, 1 << 4, 1 << 5};
static const char *JOB = "fof(j1,hypothesis,(u6(k))).\nfof(goal,conjecture,(u3(k)|u7(k))).\n"; static const int JM = 1 << 6 | 1 << 7 | 1 << 3;
typedef struct { const char *cmd; int n, c; } Cmd; /* c: content for ADD */
static const Cmd A[] = {{"ADD", 0, 0}, {"ADD", 1, 2}, {"STAGE", 0}, {"STAGE", 1}, {"UNSTAGE", 0}, {"UNSTAGE", 1}, {"REMOVE", 0}, {"REMOVE", 1}, {"LOAD", 2, 3}, {"STAGE", 2}, {"UNSTAGE", 2}, {"REMOVE", 2}, {"ADD", 0, 1}, {"DOWNLOAD", 0}, {"LOAD", 0}, {"BOGUS", 0}, {"HELP", 0}, {"ADD", 2, 1}};
static int have[NN], staged[NN]; static int sv[2]; static char lib[300];
static void put(const char *s) { uint32_t l = htonl(strlen(s) + 4); char b[4096]; memcpy(b, &l, 4); strcpy(b + 4, s); if (write(sv[0], b, strlen(s) + 4) != (ssize_t)strlen(s) + 4) abort(); }
static void putf(const char *f, const char *a) { char b[300]; snprintf(b, sizeof b, f, a); put(b); }
static char *get(void) { static char b[1 << 16]; uint32_t l; int k, t = 0; while (t < 4) { k = recv(sv[0], (char *)&l + t, 4 - t, MSG_DONTWAIT); if (k <= 0) return NULL; t += k; } int n = ntohl(l) - 4; t = 0; while (t < n) { k = recv(sv[0], b + t, n - t, MSG_DONTWAIT); if (k <= 0) return NULL; t += k; } b[n] = 0; return b; }
static const char *expectReply(const Cmd *c) { int n = c->n; if (!strcmp(c->cmd, "ADD")) { if (have[n] >= 0) return "401"; have[n] = c->c; staged[n] = 0; return "205"; } if (!strcmp(c->cmd, "LOAD")) { if (n != 2) return "404"; if (have[n] >= 0) return "401"; have[n] = c->c; staged[n] = 0; return "206"; } if (!strcmp(c->cmd, "BOGUS")) return "407"; if (!strcmp(c->cmd, "HELP")) return "200"; if (have[n] < 0) return "404"; if (!strcmp(c->cmd, "STAGE")) { if (staged[n]) return "405"; staged[n] = 1; return "201"; } if (!strcmp(c->cmd, "UNSTAGE")) { if (!staged[n]) return "406"; staged[n] = 0; return "202"; } if (!strcmp(c->cmd, "REMOVE")) { if (staged[n]) return "403"; have[n] = -1; return "203"; } return "204"; }
static int marks(const char *s, int *dup) { int m = 0, i; *dup = 0; char p[8]; const char *q; for (q = s; q && *q; q = strchr(q, '\n'), q = q ? q + 1 : q) { if (strncmp(q, "fof(", 4) && strncmp(q, "cnf(", 4) && strncmp(q, "tff(", 4) && strncmp(q, "tcf(", 4)) continue; const char *e = strchr(q, '\n'); char line[600]; int n = e ? (int)(e - q) : (int)strlen(q); if (n > 599) n = 599; memcpy(line, q, n); line[n] = 0; if (strstr(line, ", type,") || strstr(line, ",type,")) continue; int lm = 0; for (i = 1; i < 8; i++) { snprintf(p, sizeof p, "u%d(", i); if (strstr(line, p)) lm |= 1 << i; } int own = lm & ~(1 << 3) ? lm : lm; if ((lm & (1 << 1 | 1 << 4 | 1 << 5 | 1 << 6 | 1 << 7)) & m) *dup = 1; (void)own; m |= lm; } return m; }
static void wipe(const char *d) { DIR *D = opendir(d); struct dirent *e; char p[600]; if (!D) return; while ((e = readdir(D))) if (e->d_name[0] != '.') { snprintf(p, sizeof p, "%s/%s", d, e->d_name); unlink(p); } closedir(D); }
int main(int argc, char **argv) { vh_init(argc, argv); const char *scr = vh_arg("--scratch"); int K = atoi(vh_arg("--k")), NA = atoi(vh_arg("--a")), run = vh_arg("--run") != NULL, i, j; char base[300], tmpd[300], cap[300], stub[300], p[600]; snprintf(base, sizeof base, "%s/ds%d", scr, getpid()); mkdir(base, 0700); snprintf(tmpd, sizeof tmpd, "%s/t", base); mkdir(tmpd, 0700); snprintf(lib, sizeof lib, "%s/lib", base); mkdir(lib, 0700); snprintf(cap, sizeof cap, "%s/cap", base); mkdir(cap, 0700); snprintf(stub, sizeof stub, "%s/prover", base); setenv("TMPDIR", tmpd, 1); setenv("CAP", cap, 1);
  FILE *f; snprintf(p, sizeof p, "%s/x.ax", lib); f = fopen(p, "w"); fputs(CT[3], f); fclose(f); f = fopen(stub, "w"); fprintf(f, "#!/bin/sh\nfor last; do :; done\ncat \"$last\" > $CAP/x$$; mv $CAP/x$$ $CAP/j$$\necho '"COMCHAR" Pid: 99999999'\ncase \"$*\" in *satauto*) echo '"COMCHAR" SZS status Theorem' ;; esac\n"); fclose(f); chmod(stub, 0700);
  InitIO("deds"); OutputFormat = TSTPFormat; long cmds = 0, jobs = 0; signal(SIGPIPE, SIG_IGN);
  while (vh_next()) { const Cmd *s[16]; int k = 0; while (k < K) { int op = choose(NA + 1); if (op == NA) break; s[k++] = &A[op]; if (k == 2 && !vh_mine()) { k = -1; break; } } if (k < 0 || (k < 2 && !vh_mine())) continue; vh_states++; cmds += k; vh_trans += k;
    for (i = 0; i < NN; i++) have[i] = -1, staged[i] = 0; socketpair(AF_UNIX, SOCK_STREAM, 0, sv); int big = 1 << 20; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &big, sizeof big); setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
    for (j = 0; j < k; j++) { char b[300]; if (!strcmp(s[j]->cmd, "HELP")) put("HELP\n"); else { snprintf(b, sizeof b, "%s %s\n", s[j]->cmd, NAME_[s[j]->n]); put(b); if (!strcmp(s[j]->cmd, "ADD")) { put(CT[s[j]->c]); put("GO\n"); } } vh_note(" %s %s", s[j]->cmd, NAME_[s[j]->n]); }
    int nrun = run ? 2 : 0; for (j = 0; j < nrun; j++) { put("RUN job1\n"); put(JOB); put("GO\n"); } put("LIST\n"); for (i = 0; i < NN; i++) putf("DOWNLOAD %s\n", NAME_[i]); put("QUIT\n");
    wipe(cap); BatchSpec_p spec = BatchSpecAlloc(stub, TSTPFormat); spec->category = SecureStrdup("dummy"); spec->total_wtc_limit = 5; spec->per_prob_limit = 5; spec->res_proof = BODesired; StructFOFSpec_p ctrl = StructFOFSpecAlloc(); BatchStructFOFSpecInit(spec, ctrl, NULL);
    StartDeductionServer(spec, ctrl, lib, NULL, sv[1]);
    long g0 = vh_nfail; char *r; uint64_t h = 3; if (vh_arg("--tmp")) { DIR *D = opendir(tmpd); struct dirent *e; while (D && (e = readdir(D))) if (e->d_name[0] != '.') { vh_fail("left", "the session has ended, but the temporary file %.3s is still there", e->d_name); break; } if (D) closedir(D); }
    for (j = 0; j < k && vh_nfail == g0; j++) { const char *x = expectReply(s[j]); r = get(); if (r && !strcmp(s[j]->cmd, "DOWNLOAD") && x[0] == '2') { if (strcmp(r, CT[have[s[j]->n]])) vh_fail("download", "command %d prints a different text", j + 1); r = get(); } if (r && !strcmp(s[j]->cmd, "HELP")) r = get(); if (!r) { vh_fail("unanswered", "command %d (%s) is not answered", j + 1, s[j]->cmd); break; } if (strncmp(r, x, 3)) vh_fail("reply", "command %d (%s %s) is answered %.3s instead of %s", j + 1, s[j]->cmd, NAME_[s[j]->n], r, x); h = h * 31 + atoi(x); }
    if (vh_nfail == g0) { int want = JM, got = 0, n = 0, dup = 0, sub = 1, exact = 0; for (i = 0; i < NN; i++) if (have[i] >= 0 && staged[i]) want |= CM[have[i]];
      for (j = 0; j < nrun; j++) { char *e = NULL; int saw = 0; while ((r = get())) { if (strstr(r, "SZS status Theorem")) saw = 1; if (!strncmp(r, "200", 3)) { e = r; break; } } if (!e || !saw) vh_fail("run", "a job is not answered"); jobs++; }
      if (nrun) { DIR *D = opendir(cap); struct dirent *e; int bad = 0; while ((e = readdir(D))) if (e->d_name[0] == 'j') { n++; static char t[1 << 16]; snprintf(p, sizeof p, "%s/%s", cap, e->d_name); f = fopen(p, "r"); int l = f ? fread(t, 1, sizeof t - 1, f) : 0; t[l > 0 ? l : 0] = 0; if (f) fclose(f); int m = marks(t, &dup); got = m; if (m & ~want) sub = 0; if (m == want) exact++; if (dup) bad = 1; if (!(m & 1 << 7)) bad = 2; } closedir(D); if (!n) vh_fail("nojob", "no prover is started"); else if (!sub) vh_fail("extra", "a job contains axioms that are not staged (%x, staged and own %x)", got, want); else if (exact < nrun) vh_fail("missing", "%d of the %d jobs get all staged axioms (%x of %x)", exact, nrun, got, want); else if (bad) vh_fail(bad == 1 ? "twice" : "nogoal", "a job %s", bad == 1 ? "contains a formula twice" : "lacks the conjecture"); }
      /* LIST */ int st = 0, lh[NN] = {0}, ended = 0; while ((r = get())) { if (!strncmp(r, "200", 3)) { ended = 1; break; } if (!strncmp(r, "Staged", 6)) st = 1; else if (!strncmp(r, "Unstaged", 8)) st = 2; else if (!strncmp(r, "On Disk", 7)) st = 3; else if (r[0] == ' ' && (st == 1 || st == 2)) { for (i = 0; i < NN; i++) { snprintf(p, sizeof p, "  %s\n", NAME_[i]); if (!strcmp(r, p)) { if (lh[i]) vh_fail("listtwice", "%s is listed twice", NAME_[i]); lh[i] = st; break; } } if (i == NN) vh_fail("listunknown", "LIST shows %s", r); } }
      if (!ended) vh_fail("unanswered", "LIST is not answered"); else for (i = 0; i < NN; i++) { int w = have[i] < 0 ? 0 : staged[i] ? 1 : 2; if (lh[i] != w) vh_fail("list", "LIST shows %s as %s instead of %s", NAME_[i], lh[i] == 1 ? "staged" : lh[i] ? "unstaged" : "absent", w == 1 ? "staged" : w ? "unstaged" : "absent"); h = h * 7 + w; }
      for (i = 0; ended && i < NN && vh_nfail == g0; i++) { r = get(); if (have[i] >= 0) { if (!r || strcmp(r, CT[have[i]])) { vh_fail("content", "%s has the wrong content", NAME_[i]); break; } r = get(); } if (!r || strncmp(r, have[i] < 0 ? "404" : "204", 3)) vh_fail("reply", "DOWNLOAD %s", NAME_[i]); }
      if (vh_nfail == g0 && get()) vh_fail("extra-reply", "more answers than commands"); }
    close(sv[0]); close(sv[1]); StructFOFSpecFree(ctrl); BatchSpecFree(spec); TempFileCleanup(); vh_outcome(h); vh_sample(); }
  wipe(tmpd); wipe(lib); wipe(cap); unlink(stub); rmdir(tmpd); rmdir(lib); rmdir(cap); rmdir(base); vh_stat("commands", cmds); vh_stat("jobs", jobs); return vh_done(); }
