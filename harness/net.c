/* net.c - C19: message layer on virtual connections; every segmentation of the byte stream within bounds is enumerated. */
#include "vh.h"
#include <errno.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <clb_defines.h>
#include <cio_network.h>
#include <cio_multiplexer.h>
#include <cio_simplestuff.h>
#define VB 900
typedef struct { unsigned char b[1 << 16]; int h, t, eof, err; } Q;
static Q q[4]; /* q[i]: bytes readable at end VB+i; VB+i writes to q[i^1] */
static int splitR, splitW, werr = -1, wtotal, blocked, closedfd[4];
/* splitR/splitW: 0 everything, 1 every size, 2 sizes 1, 3 or all, 3 fixed chunk, 4 one cut at cutpos */
static int chunk, cutpos, rtotal;
static int amount(int mode, int max, int done) { switch (mode) { case 1: return 1 + choose(max); case 2: { int o[3] = {max, 1, 3}, n = max == 1 ? 1 : max <= 3 ? 2 : 3; return o[choose(n)]; } case 3: return max < chunk ? max : chunk; case 4: return done < cutpos && done + max > cutpos ? cutpos - done : max; } return max; }
static TCPChannel_p cc_[2];
static ssize_t vread(int fd, void *buf, size_t n) { Q *p = &q[fd - VB]; vh_trans++; if (!n) return 0; /* a blocking read lets the peer go on */ while (p->t == p->h && cc_[0] && TCPChannelHasOutMsg(cc_[1 - (fd - VB)])) { vh_note(" (waiting: %c:write)", 'B' - (fd - VB)); if (TCPChannelWrite(cc_[1 - (fd - VB)]) == NWError) break; } int av = p->t - p->h; if (!av) { if (p->err) { errno = ECONNRESET; return -1; } if (p->eof) return 0; blocked++; errno = EAGAIN; return -1; } int k = amount(splitR, n < (size_t)av ? (int)n : av, rtotal); memcpy(buf, p->b + p->h, k); p->h += k; rtotal += k; return k; }
static ssize_t vwrite(int fd, const void *buf, size_t n) { Q *p = &q[(fd - VB) ^ 1]; vh_trans++; if (werr >= 0 && wtotal >= werr) { errno = EPIPE; return -1; } if (!n) return 0; int k = amount(splitW, (int)n, wtotal); if (werr >= 0 && wtotal + k > werr) k = werr - wtotal; memcpy(p->b + p->t, buf, k); p->t += k; wtotal += k; return k; }
ssize_t read(int fd, void *b, size_t n) { if (fd >= VB && fd < VB + 4) return vread(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t o) { return read(fd, b, n); }
ssize_t recv(int fd, void *b, size_t n, int f) { return read(fd, b, n); }
ssize_t __recv_chk(int fd, void *b, size_t n, size_t o, int f) { return read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (fd >= VB && fd < VB + 4) return vwrite(fd, b, n); return syscall(SYS_write, fd, b, n); }
ssize_t send(int fd, const void *b, size_t n, int f) { return write(fd, b, n); }
static int conmode, nopen; static int ares[4], na, cur, opened[64], no; static struct addrinfo AI[4]; static struct sockaddr SA;
int close(int fd) { if (fd >= VB && fd < VB + 4) { closedfd[fd - VB]++; return 0; } if (conmode && fd >= 800 && fd < 864) { opened[fd - 800] = 0; return 0; } return syscall(SYS_close, fd); }
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r) { for (int i = 0; i < na; i++) { AI[i].ai_next = i + 1 < na ? &AI[i + 1] : NULL; AI[i].ai_family = AF_INET; AI[i].ai_socktype = SOCK_STREAM; AI[i].ai_addr = &SA; AI[i].ai_addrlen = i + 1; } cur = -1; *r = AI; return 0; }
void freeaddrinfo(struct addrinfo *a) {}
static int ordr[64];
int socket(int d, int t, int p) { cur++; if (ares[cur] == 1) { errno = EMFILE; return -1; } opened[no] = 1; ordr[no] = cur; return 800 + no++; }
int connect(int fd, const struct sockaddr *a, socklen_t l) { if (ares[l - 1] == 2) { errno = ECONNREFUSED; return -1; } return 0; }
static void reset(void) { cc_[0] = NULL; memset(closedfd, 0, sizeof closedfd); for (int i = 0; i < 4; i++) { q[i].h = q[i].t = q[i].eof = q[i].err = 0; } wtotal = rtotal = blocked = 0; werr = -1; splitR = splitW = 0; }
static const char *M[] = {"a", "", "GO\n", "xyz", "\377\n", "0000"};
static char big[1 << 15];
static void fill(char *d, int n) { for (int i = 0; i < n; i++) d[i] = 'a' + (i * 7 + i / 26) % 26; d[n] = 0; }
static void wire(Q *p, const char *s) { uint32_t l = htonl(strlen(s) + 4); memcpy(p->b + p->t, &l, 4); strcpy((char *)p->b + p->t + 4, s); p->t += 4 + strlen(s); }
static void expectWire(const char **m, int n) { static Q r; r.t = 0; for (int i = 0; i < n; i++) wire(&r, m[i]); if (q[1].t != r.t || memcmp(q[1].b, r.b, r.t)) vh_fail("wire", "%d bytes were sent instead of the %d bytes of the messages", q[1].t, r.t); }
static void receive(const char **m, int n) { MsgStatus st; for (int i = 0; i < n; i++) { char *s = TCPStringRecv(VB + 1, &st, false); if (blocked) { vh_fail("blocked", "reading message %d waits for more bytes than were sent", i); return; } if (!s) { vh_fail("lost", "message %d of %d is not received (status %d)", i, n, st); return; } if (strcmp(s, m[i])) vh_fail("changed", "message %d of length %zu arrives with length %zu, changed", i, strlen(m[i]), strlen(s)); FREE(s); } if (q[1].h != q[1].t) vh_fail("rest", "%d bytes too few were read", q[1].t - q[1].h); q[1].eof = 1; char *s = TCPStringRecv(VB + 1, &st, false); if (s) vh_fail("invented", "a message is received after the last"); else if (st != NWConnClosed && st != NWError) vh_fail("status", "closing is reported as %d", st); }
int main(int argc, char **argv) { vh_init(argc, argv); InitIO("net"); const char *mode = vh_arg("--mode"); int K = vh_arg("--k") ? atoi(vh_arg("--k")) : 2, i; long msgs = 0; const char *m[8];
  while (vh_next()) { reset(); int n;
    if (!strcmp(mode, "split")) { /* all write splits, then all read splits */
      n = 1 + choose(K); for (i = 0; i < n; i++) m[i] = M[choose(6)]; int rd = choose(3); if (!vh_mine()) continue; vh_states++; msgs += n; int tot = 0; for (i = 0; i < n; i++) { tot += strlen(m[i]) + 4; vh_note(" %zu", strlen(m[i])); } vh_note(rd == 1 ? " read splits" : " write splits");
      if (rd == 2) { DStr_p d = DStrAlloc(); char cat[64] = ""; for (i = 0; i < n; i++) { TCPStringSendX(VB, (char *)m[i]); if (strcmp(m[i], "GO\n")) strcat(cat, m[i]); else break; } if (i == n) TCPStringSendX(VB, "GO\n"); splitR = 2; TCPReadTextBlock(d, VB + 1, "GO\n"); if (strcmp(DStrView(d), cat)) vh_fail("block", "a text block arrives changed"); DStrFree(d); vh_outcome(wtotal * 100 + n); continue; }
      splitW = rd ? 0 : 1; for (i = 0; i < n; i++) if (TCPStringSend(VB, (char *)m[i], false) != NWSuccess) vh_fail("send", "sending fails"); expectWire(m, n); splitR = rd ? 1 : 0; receive(m, n); vh_outcome((uint64_t)vh_trans * 31 + tot); vh_sample(); }
    else if (!strcmp(mode, "big")) { /* long messages around the buffer size */
      static const int SZ[] = {1018, 1019, 1020, 1021, 1023, 1024, 1025, 1026, 1028, 2043, 2044, 2047, 2048, 2049, 2052, 3073, 5000, 20000}; int sz = SZ[choose(18)], how = choose(4); fill(big, sz); int step = sz > 4000 ? 97 : sz > 2100 ? 13 : 1; if (!vh_thorough && step == 1) step = 3; n = 1 + choose(2); m[0] = big; m[1] = "tail"; if (!vh_mine()) continue; msgs += n; vh_states++; 
      if (how == 0) { splitR = 4; cutpos = 1 + step * choose((sz + 3) / step); vh_note("size %d read cut at %d", sz, cutpos); } else if (how == 1) { splitW = 4; cutpos = 1 + step * choose((sz + 3) / step); vh_note("size %d write cut at %d", sz, cutpos); } else if (how == 2) { splitR = 3; chunk = 1 + choose(1100 / step); vh_note("size %d read in pieces of %d", sz, chunk); } else { splitW = 3; chunk = 1 + choose(1100 / step); vh_note("size %d written in pieces of %d", sz, chunk); }
      for (i = 0; i < n; i++) if (TCPStringSend(VB, (char *)m[i], false) != NWSuccess) vh_fail("send", "sending fails"); expectWire(m, n); receive(m, n); vh_outcome(sz * 7919ul + vh_trans); vh_sample(); }
    else if (!strcmp(mode, "cut")) { /* the peer goes away after any number of bytes; broken length fields */
      int kind = choose(3); MsgStatus st;
      if (kind == 0) { n = 1 + choose(2); for (i = 0; i < n; i++) m[i] = M[choose(6)]; for (i = 0; i < n; i++) wire(&q[1], m[i]); int k = choose(q[1].t + 1); q[1].t = k; int er = choose(2); if (!vh_mine()) continue; vh_states++; if (er) q[1].err = 1; else q[1].eof = 1; splitR = 2; vh_note("%s after %d bytes", er ? "error" : "end", k); int at = 0; for (i = 0; i < n + 1; i++) { int full = i < n && at + 4 + (int)strlen(m[i]) <= k; char *s = TCPStringRecv(VB + 1, &st, false); if (full != (s != NULL)) { vh_fail(full ? "lost" : "invented", "message %d: %s, status %d", i, s ? "received" : "not received", st); break; } if (!s) { if (st != NWError && st != NWConnClosed) vh_fail("status", "failure reported as %d", st); if (er && st != NWError) vh_fail("status", "a read error is reported as %d", st); break; } if (strcmp(s, m[i])) vh_fail("changed", "message %d changed", i); at += 4 + strlen(m[i]); FREE(s); } }
      else if (kind == 1) { n = 1 + choose(2); for (i = 0; i < n; i++) m[i] = M[choose(6)]; int tot = 0; for (i = 0; i < n; i++) tot += 4 + strlen(m[i]); werr = choose(tot); if (!vh_mine()) continue; vh_states++; splitW = 2; vh_note("write fails after %d bytes", werr); int at = 0; for (i = 0; i < n; i++) { at += 4 + strlen(m[i]); st = TCPStringSend(VB, (char *)m[i], false); if ((st == NWSuccess) != (at <= werr)) vh_fail("sendstatus", "sending message %d reports %d", i, st); if (st != NWSuccess) break; } }
      else { static const uint32_t LV[] = {0, 1, 2, 3, 5, 0x100, 0x7fffffff, 0x80000000u, 0x80000004u, 0xffffffffu, 0xfffffffcu, 0xfffffbffu, 0x7ffffc03}; uint32_t lv = LV[choose(13)]; int extra = (int[]){0, 1, 3, 64, 1023, 1024, 1025, 2048, 3000}[choose(9)]; splitR = choose(2) ? 2 : 0; int nul = choose(2); if (splitR && extra > 3) splitR = 3, chunk = extra > 64 ? 700 : 3; if (!vh_mine()) continue; vh_states++; if (lv >= 4 && lv < 0x7fffffff && (int)lv - 4 <= extra) { continue; } uint32_t l = htonl(lv); memcpy(q[1].b, &l, 4); memset(q[1].b + 4, nul ? 0 : 'Z', extra); q[1].t = 4 + extra; q[1].eof = 1; vh_note("length field %u followed by %d bytes", lv, extra); char *s = TCPStringRecv(VB + 1, &st, false); if (s) vh_fail("invented", "a message of length %zu is received for a broken length field %u", strlen(s), lv); else if (st != NWError && st != NWConnClosed) vh_fail("status", "status %d", st); }
      vh_outcome(vh_trans * 31ul + kind); vh_sample(); }
    else if (!strcmp(mode, "chan")) { /* two message channels, both directions, every schedule of K steps, then run to the end */
      TCPChannel_p c[2]; const char *mm[2][2]; int nn[2], e; for (e = 0; e < 2; e++) { nn[e] = choose(3); for (i = 0; i < nn[e]; i++) mm[e][i] = M[choose(3)]; } if (!vh_mine()) continue; vh_states++; c[0] = TCPChannelAlloc(VB); c[1] = TCPChannelAlloc(VB + 1); cc_[0] = c[0]; cc_[1] = c[1]; for (e = 0; e < 2; e++) for (i = 0; i < nn[e]; i++) TCPChannelSendStr(c[e], (char *)mm[e][i]); int got[2] = {0, 0}, bad = 0, step, idle = 0;
      for (step = 0; step < 200 && !bad; step++) { int en[6], ne = 0; for (e = 0; e < 2; e++) { if (TCPChannelHasOutMsg(c[e])) en[ne++] = e; if (q[e].t > q[e].h) en[ne++] = 2 + e; if (TCPChannelHasInMsg(c[e])) en[ne++] = 4 + e; } if (!ne) break; int op = en[step < K ? choose(ne) : step % ne]; splitR = splitW = step < K ? 2 : 0; e = op & 1; MsgStatus st = NWSuccess; vh_trans++;
        if (op < 2) { vh_note(" %c:write", 'A' + e); st = TCPChannelWrite(c[e]); } else if (op < 4) { vh_note(" %c:read", 'A' + e); st = TCPChannelRead(c[e]); if (blocked) { vh_fail("blocked", "a channel waits for bytes although a message is complete"); bad = 1; } } else { vh_note(" %c:take", 'A' + e); char *s = TCPMsgUnpack(TCPChannelGetInMsg(c[e])); int o = 1 - e; if (got[e] >= nn[o]) { vh_fail("invented", "end %d receives a message that was not sent", e); bad = 1; } else if (strcmp(s, mm[o][got[e]])) { vh_fail("changed", "end %d receives a changed message", e); bad = 1; } got[e]++; FREE(s); }
        if (!bad && (st == NWError || st == NWConnClosed)) { vh_fail("status", "end %d reports %d", e, st); bad = 1; } }
      (void)idle; if (!bad && (got[0] != nn[1] || got[1] != nn[0])) vh_fail("lost", "%d of %d and %d of %d messages arrive", got[0], nn[1], got[1], nn[0]); cc_[0] = NULL; TCPChannelFree(c[0]); TCPChannelFree(c[1]); vh_outcome(step * 31ul + got[0]); vh_sample(); }
    else { /* connect to the first address that works */
      na = 1 + choose(3); int good = -1; for (i = 0; i < na; i++) { ares[i] = choose(3); if (good < 0 && !ares[i]) good = i; } if (!vh_mine()) continue; vh_states++; memset(opened, 0, sizeof opened); no = 0; conmode = 1; vh_note("addresses:"); for (i = 0; i < na; i++) vh_note(" %s", ares[i] ? "bad" : "good");
      pid_t p = fork(); if (!p) { int s = CreateClientSock("host", 7); int ok = s >= 800 && s < 800 + no && opened[s - 800] && ordr[s - 800] == good, left = 0; for (i = 0; i < no; i++) left += opened[i]; _exit(!ok ? 41 : left != 1 ? 42 : 40); } int st; waitpid(p, &st, 0); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -1; if (good >= 0 ? rc != 40 : (rc == 40 || rc == 41 || rc == 42 || rc == 0 || rc == -1)) vh_fail(rc == 42 ? "leftopen" : "connect", "connecting gives %d", rc); conmode = 0; vh_outcome(rc * 10 + na); vh_sample(); }
  }
  vh_stat("messages", msgs); return vh_done(); }
