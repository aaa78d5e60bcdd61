/* P23: address URIs against an independent reading; sockets against a model of the system calls in which every call may fail, be interrupted or time out */
#include "vdrv.h"
#include <sys/time.h>
#include <sys/select.h>
#include <fcntl.h>
#include <netinet/tcp.h>
void v_driver_init (void) { v_hooks_on(); }
enum { F0 = 500, NF = 8 };
enum { NEW, PENDING, CONNECTED, BOUND, LISTENING, BROKEN };
static struct { int open, nb, st, dom, type, proto, reuse, bcast, soerr, ai; } S[NF];
static vin_t *sv; static int on, quiet, nsock, nclosed, base; static long long now, t0, budget; static int timed_out, has_to, faults, calls, reportedfail, blockfail, lasterr;
static struct addrinfo AI[3]; static struct sockaddr_in A4[3]; static int nai, freed, gaifail; 
#define FD(x) ((x) - base)
static int is (int fd) { return on && fd >= base && fd < base + NF; }
static int bad (unsigned per, int e) { unsigned k; if (++calls > 400) return 0; k = vb(sv); if (!faults || k % per) return 0; errno = lasterr = e; reportedfail++; return 1; }
#define LIVE(fd) VCHECK(is(fd) && S[FD(fd)].open, "%s on descriptor %d, which is not open", __func__ + 7, fd)
int __real_close (int); int __real_fcntl (int, int, ...); int __real_gettimeofday (struct timeval *, void *);
int __real_getaddrinfo (const char *, const char *, const struct addrinfo *, struct addrinfo **); void __real_freeaddrinfo (struct addrinfo *);
int __wrap_close (int fd) { if (!is(fd)) return __real_close(fd); LIVE(fd); S[FD(fd)].open = 0; nclosed++; return 0; }
int __wrap_socket (int dom, int type, int proto)
{
    if (!on) abort();
    if (bad(9, EMFILE)) return -1;
    VCHECK(nsock < NF, "too many sockets");
    memset(&S[nsock], 0, sizeof *S); S[nsock].open = 1; S[nsock].dom = dom; S[nsock].type = type; S[nsock].proto = proto; S[nsock].ai = -1;
    return base + nsock++;
}
int __wrap_setsockopt (int fd, int lev, int name, const void *v, socklen_t l)
{
    LIVE(fd); if (bad(13, ENOPROTOOPT)) return -1;
    if (lev == SOL_SOCKET && name == SO_REUSEADDR) { VCHECK(l == sizeof(int) && *(const int *) v, "SO_REUSEADDR"); S[FD(fd)].reuse = 1; }
    else if (lev == SOL_SOCKET && name == SO_BROADCAST) { VCHECK(l == sizeof(int) && *(const int *) v, "SO_BROADCAST"); S[FD(fd)].bcast = 1; }
    else if (lev == IPPROTO_TCP && name == TCP_NODELAY) VCHECK(l == sizeof(int) && *(const int *) v, "TCP_NODELAY");
    else { size_t i; unsigned x = 0; VCHECK(lev == IPPROTO_SCTP, "option %d/%d", lev, name); for (i = 0; i < l; i++) x += ((const uint8_t *) v)[i] > 1; VCHECK(x == 0, "uninitialised SCTP events"); }
    return 0;
}
int __wrap_getsockopt (int fd, int lev, int name, void *v, socklen_t *l)
{
    LIVE(fd); VCHECK(lev == SOL_SOCKET && name == SO_ERROR && *l == sizeof(int), "getsockopt"); if (bad(13, EBADF)) return -1;
    *(int *) v = S[FD(fd)].soerr; if (S[FD(fd)].soerr) { reportedfail++; lasterr = S[FD(fd)].soerr; } return 0;
}
int __wrap_fcntl (int fd, int cmd, long arg)
{
    if (!is(fd)) return __real_fcntl(fd, cmd, arg);
    LIVE(fd);
    if (cmd == F_GETFL) { if (bad(23, EBADF)) { blockfail = 1; return -1; } return O_RDWR | (S[FD(fd)].nb ? O_NONBLOCK : 0); }
    VCHECK(cmd == F_SETFL && (arg & ~O_NONBLOCK) == O_RDWR, "fcntl %d %lx", cmd, arg); if (bad(23, EBADF)) { blockfail = 1; return -1; }
    S[FD(fd)].nb = (arg & O_NONBLOCK) != 0; return 0;
}
int __wrap_gettimeofday (struct timeval *tv, void *z) { if (!on) return __real_gettimeofday(tv, z); if (bad(31, EFAULT)) return -1; tv->tv_sec = now / 1000000; tv->tv_usec = now % 1000000; return 0; }
static int which (const struct sockaddr *a) { int i; for (i = 0; i < nai; i++) if ((const void *) a == (const void *) &A4[i]) return i; return -1; }
int __wrap_connect (int fd, const struct sockaddr *a, socklen_t l)
{
    unsigned k = vb(sv); LIVE(fd); VCHECK(S[FD(fd)].st == NEW, "connect called twice"); VCHECK(l == sizeof *A4, "address length"); S[FD(fd)].ai = which(a);
    t0 = now;
    VCHECK(S[FD(fd)].nb == has_to, "connecting in %sblocking mode", S[FD(fd)].nb ? "non-" : "");
    switch (k % 6) {
        case 0: case 1: S[FD(fd)].st = CONNECTED; return 0;
        case 2: S[FD(fd)].st = PENDING; errno = EINTR; return -1;
        case 3: if (S[FD(fd)].nb) { S[FD(fd)].st = PENDING; errno = EINPROGRESS; return -1; } S[FD(fd)].st = CONNECTED; return 0;
        case 4: reportedfail++; errno = lasterr = k & 64 ? ECONNREFUSED : ENETUNREACH; S[FD(fd)].st = BROKEN; return -1;
        default: if (!S[FD(fd)].nb && k & 64) { reportedfail++; timed_out = 1; errno = ETIMEDOUT; S[FD(fd)].st = BROKEN; return -1; } S[FD(fd)].st = CONNECTED; return 0;
    }
}
int __wrap_select (int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int i, fd = -1; unsigned k = vb(sv); long long left = -1;
    if (++calls > 400) k = 3;
    VCHECK(n <= FD_SETSIZE && n > 0, "select on %d descriptors", n);
    for (i = 0; i < n; i++) if (FD_ISSET(i, w)) { VCHECK(fd == -1, "two descriptors"); fd = i; }
    VCHECK(!r && !e && fd == n - 1, "select on %d, highest %d", fd, n - 1); LIVE(fd); VCHECK(S[FD(fd)].st == PENDING, "waiting without a pending connection");
    VCHECK((tv != NULL) == has_to, "timeout %s", tv ? "given" : "missing");
    if (tv) { left = tv->tv_sec * 1000000ll + tv->tv_usec; VCHECK(tv->tv_usec >= 0 && tv->tv_usec < 1000000, "timeout %ld.%ld", (long) tv->tv_sec, (long) tv->tv_usec); VCHECK(left == budget - (now - t0), "waiting for %lld us, %lld of %lld left", left, budget - (now - t0), budget); }
    switch (k % 5) {
        case 0: case 3: S[FD(fd)].st = CONNECTED; now += left > 0 ? (k * 977) % left : k; return 1;
        case 1: S[FD(fd)].st = BROKEN; S[FD(fd)].soerr = k & 64 ? ETIMEDOUT : ECONNREFUSED; if (k & 64) timed_out = 1; return 1;
        case 2: if (tv) { now += left; FD_ZERO(w); timed_out = 1; reportedfail++; tv->tv_sec = tv->tv_usec = 0; return 0; } /* fall through */
        default: if (k & 128 && faults) { reportedfail++; errno = lasterr = ENOMEM; return -1; } now += (k >> 3) * 60000ll + k * 17; if (tv) { if (now - t0 > budget && k & 1) now = t0 + budget; tv->tv_sec = 77; tv->tv_usec = 77; } errno = EINTR; return -1;
    }
}
int __wrap_bind (int fd, const struct sockaddr *a, socklen_t l) { LIVE(fd); VCHECK(S[FD(fd)].st == NEW && l == sizeof *A4, "bind"); if (bad(4, EADDRINUSE)) return -1; S[FD(fd)].ai = which(a); S[FD(fd)].st = BOUND; return 0; }
int __wrap_listen (int fd, int b) { LIVE(fd); VCHECK(S[FD(fd)].st == BOUND && b == U_NET_BACKLOG, "listen"); if (bad(6, EADDRINUSE)) return -1; S[FD(fd)].st = LISTENING; return 0; }
static int acc_fd; static struct sockaddr *acc_a; static socklen_t *acc_l; static int acc_done;
int __wrap_accept (int fd, struct sockaddr *a, socklen_t *l) { unsigned k = vb(sv); VCHECK(fd == acc_fd && a == acc_a && l == acc_l && !acc_done, "accept"); if (++calls > 300) k = 2; if (k % 3 == 0) { errno = EINTR; return -1; } acc_done = 1; if (k % 3 == 1) { errno = lasterr = EMFILE; return -1; } *l = 1; return 31; }
int __wrap_getaddrinfo (const char *h, const char *s, const struct addrinfo *hi, struct addrinfo **r)
{
    int i; if (!on) return __real_getaddrinfo(h, s, hi, r);
    gaifail = vb(sv) % 11 == 0; if (gaifail) return EAI_AGAIN;
    for (i = 0; i < nai; i++) { AI[i] = *hi; AI[i].ai_addr = (struct sockaddr *) &A4[i]; AI[i].ai_addrlen = sizeof *A4; AI[i].ai_next = i + 1 < nai ? &AI[i + 1] : NULL; A4[i].sin_family = AF_INET; A4[i].sin_port = htons(80 + i); AI[i].ai_canonname = NULL; }
    *r = AI; freed = 0; return 0;
}
void __wrap_freeaddrinfo (struct addrinfo *a) { if (!on) { __real_freeaddrinfo(a); return; } VCHECK(a == AI && !freed, "freeaddrinfo"); freed = 1; }
static void sockets (vin_t *in, unsigned op)
{
    struct timeval tv, *ptv = NULL; u_net_addr_t *a = NULL; int rc, i, mode, opts = 0, type, proto, fd, alive; unsigned k = vb(in); static const char *U[] = { "tcp://h:80", "udp://h:53", "sctp://h:9", "tcp4://h:1" };
    sv = in; faults = op & 1; nai = 1 + k % 3; base = k / 3 % 8 == 7 ? 1030 : F0; budget = 0; has_to = 0;
    if (k & 128) { ptv = &tv; has_to = 1; tv.tv_sec = vb(in) % 4; tv.tv_usec = vb(in) * 3901; budget = tv.tv_sec * 1000000ll + tv.tv_usec; }
    now = 1000000000000ll + vb(in) * 4001; nsock = nclosed = calls = timed_out = reportedfail = blockfail = 0; on = 1;
    if (op / 2 % 3 == 0) {     /* u_connect_ex on its own */
        S[0].open = 1; S[0].nb = 0; S[0].st = NEW; S[0].soerr = 0; nsock = 1;
        rc = u_connect_ex(base, (struct sockaddr *) A4, sizeof *A4, ptv); on = 0; vtrace("connect_ex -> %d ", rc);
        VCHECK(S[0].open, "the caller's descriptor was closed");
        if (rc == 0) VCHECK(S[0].st == CONNECTED && !S[0].nb, "reported as connected: state %d, %sblocking", S[0].st, S[0].nb ? "non-" : "");
        else { VCHECK(rc == -1 || rc == -2, "returned %d", rc); VCHECK(reportedfail || timed_out || (has_to && now - t0 >= budget) || base >= 1024, "failed though nothing went wrong"); VCHECK(!S[0].nb || blockfail, "left in non-blocking mode"); 
            if (rc == -2) VCHECK(timed_out || (has_to && now - t0 >= budget), "reported a timeout"); if (timed_out && !blockfail && faults == 0) VCHECK(rc == -2, "timeout reported as %d", rc); }
        return;
    }
    mode = k & 16 ? U_NET_SSOCK : U_NET_CSOCK; i = vb(in) % 4; type = i == 1 ? SOCK_DGRAM : SOCK_STREAM; proto = i == 1 ? IPPROTO_UDP : i == 2 ? IPPROTO_SCTP : IPPROTO_TCP;
    k = vb(in); if (k & 1) opts |= U_NET_OPT_DONT_REUSE_ADDR; if (i == 1 && k & 2) opts |= U_NET_OPT_DONT_CONNECT; if (i == 2 && k & 4) opts |= U_NET_OPT_SCTP_ONE_TO_MANY | (k & 8 ? U_NET_OPT_SCTP_DATA_IO_EVENT | U_NET_OPT_SCTP_AUTHENTICATION_EVENT : 0); if (k & 16) opts |= U_NET_OPT_DGRAM_BROADCAST;
    if (i == 2 && k & 4) type = SOCK_SEQPACKET;
    if (has_to && nai > 1) { nai = 1; }   /* the budget is shared by the attempts */
    if (op / 2 % 3 == 1) { fd = u_net_sd_ex(U[i], mode, opts, ptv); }
    else { fd = -1; if (u_net_uri2addr(U[i], mode, &a) == 0) { u_net_addr_set_opts(a, 0); u_net_addr_add_opts(a, opts); fd = u_net_sd_by_addr_ex(a, ptv); if (fd >= 0) VCHECK(u_net_addr_can_accept(a) == (mode == U_NET_SSOCK && i != 1), "can accept"); u_net_addr_free(a); } }
    vtrace("%s mode %d opts %x -> %d ", U[i], mode, opts, fd);
    VCHECK(gaifail || freed, "the address list was not released");
    on = 0; alive = nsock - nclosed; if (k & 32 && fd >= 0) ;
    if (gaifail) { VCHECK(fd == -1 && nsock == 0, "descriptor %d without an address", fd); return; }
    if (fd < 0) { VCHECK(fd == -1, "returned %d", fd); VCHECK(alive == 0, "%d descriptors left open", alive); VCHECK(reportedfail || timed_out || (has_to && now - t0 >= budget) || base >= 1024, "failed though nothing went wrong"); return; }
    VCHECK(alive == 1 && fd == base + nsock - 1 && S[nsock - 1].open, "%d descriptors open, returned %d", alive, fd);
    i = nsock - 1; VCHECK(S[i].type == type && S[i].proto == proto && S[i].dom == AF_INET, "socket %d/%d/%d", S[i].dom, S[i].type, S[i].proto); VCHECK(!S[i].nb, "left in non-blocking mode");
    if (!(opts & U_NET_OPT_DONT_CONNECT && mode == U_NET_CSOCK)) VCHECK(S[i].ai == nsock - 1 || reportedfail, "address number %d", S[i].ai);
    if (mode == U_NET_SSOCK) VCHECK(S[i].st == (type == SOCK_DGRAM ? BOUND : LISTENING) && S[i].reuse == !(opts & U_NET_OPT_DONT_REUSE_ADDR), "passive socket: state %d, reuse %d", S[i].st, S[i].reuse);
    else VCHECK(S[i].st == (opts & U_NET_OPT_DONT_CONNECT ? NEW : CONNECTED) && S[i].bcast == (type == SOCK_DGRAM && opts & U_NET_OPT_DGRAM_BROADCAST), "active socket: state %d broadcast %d", S[i].st, S[i].bcast);
}
struct mirror { int opts, mode; struct addrinfo *addr, *cur; };
static void addresses (vin_t *in)
{
    static const struct { const char *s; int fam, type, proto; } SC[] = { { "tcp", AF_INET, SOCK_STREAM, IPPROTO_TCP }, { "tcp4", AF_INET, SOCK_STREAM, IPPROTO_TCP }, { "udp", AF_INET, SOCK_DGRAM, IPPROTO_UDP }, { "udp4", AF_INET, SOCK_DGRAM, IPPROTO_UDP }, { "sctp", AF_INET, SOCK_STREAM, IPPROTO_SCTP }, { "sctp4", AF_INET, SOCK_STREAM, IPPROTO_SCTP }, { "unix", AF_UNIX, SOCK_STREAM, 0 }, { "tcp6", AF_INET6, SOCK_STREAM, IPPROTO_TCP }, { "udp6", AF_INET6, SOCK_DGRAM, IPPROTO_UDP }, { "sctp6", AF_INET6, SOCK_STREAM, IPPROTO_SCTP }, { "tcp5", 0, 0, 0 }, { "unixx", 0, 0, 0 }, { "http", 0, 0, 0 }, { "t", 0, 0, 0 } };
    static const struct { const char *s; long p; } PT[] = { { "80", 80 }, { "0", 0 }, { "65535", 65535 }, { "65536", -1 }, { "70000", -1 }, { "*", 0 }, { "00080", 80 }, { "0000000081", 81 }, { "4294967376", -1 }, { "18446744073709551696", -1 }, { "1", 1 }, { "99999", -1 }, { "655350", -1 } };
    unsigned k = vb(in), i, j; char uri[900], h[64], path[700], s[24]; u_net_addr_t *a = NULL; struct mirror *m; uint8_t b[16]; int rc, mode = k & 1 ? U_NET_SSOCK : U_NET_CSOCK, nf = 0; long want = 0; struct addrinfo *x; char d[300], e[300]; const char *q;
    i = vb(in) % 14; strcpy(s, SC[i].s); for (j = 0; s[j]; j++) if (k & 2 && vb(in) & 1) s[j] = (char) toupper((unsigned char) s[j]);
    if (k & 64) { v_nalloc = v_failed = 0; nf = 1; }
    if (SC[i].fam == AF_UNIX) {
        static const char AL[] = "abcZ09_-.~/"; size_t n = k & 4 ? 90 + vb(in) % 40 : 1 + vb(in) % 30; char slash = 0;
        path[0] = '/'; for (j = 1; j <= n; j++) { char c = AL[vb(in) % 11]; if (c == '/' && slash) c = 'x'; slash = j == 1 ? c == '/' : c == '/'; if (j == 1 && c == '/') { c = 'y'; slash = 0; } path[j] = c; } path[j] = 0;
        sprintf(uri, "%s:%s%s", s, k & 8 ? "//" : "", path); vtrace("%s ", uri);
        if (nf) v_fail_at = vb(in) % 12;
        rc = u_net_uri2addr(uri, (u_net_mode_t) mode, &a); v_fail_at = -1; if (v_failed) { VCHECK(rc, "success though memory ran out"); return; }
        if (strlen(path) >= sizeof ((struct sockaddr_un *) 0)->sun_path) { VCHECK(rc, "a path of %zu bytes was accepted", strlen(path)); return; }
        VCHECK(rc == 0, "%s refused", uri); m = (struct mirror *) a; x = m->addr; VCHECK(m->mode == mode && x && !x->ai_next && x->ai_family == AF_UNIX && x->ai_socktype == SOCK_STREAM && x->ai_protocol == 0, "attributes of %s", uri);
        VCHECK(x->ai_addr->sa_family == AF_UNIX && !strcmp(((struct sockaddr_un *) x->ai_addr)->sun_path, path), "path of %s is %s", uri, ((struct sockaddr_un *) x->ai_addr)->sun_path);
        j = vb(in) % 140; q = u_sa_ntop(x->ai_addr, d, sizeof d); VCHECK(!strcmp(q, path), "printed as %s", q);
        if (j) { char *g = malloc(j); q = u_sa_ntop(x->ai_addr, g, j); if (strlen(path) < j) VCHECK(!strcmp(q, path), "printed as %s", q); free(g); }
        u_net_addr_free(a); return;
    }
    for (j = 0; j < 16; j++) b[j] = (uint8_t) (k & 32 ? vb(in) : vb(in) % 4 ? 0 : vb(in));
    if (k & 16) strcpy(h, "*"); else VCHECK(inet_ntop(SC[i].fam == AF_INET6 ? AF_INET6 : AF_INET, b, h, sizeof h), "driver");
    j = vb(in); if (j & 16) { want = v16(in); sprintf(d, "%ld", want); } else { strcpy(d, PT[j % 13].s); want = PT[j % 13].p; }
    if (SC[i].fam == AF_INET6) sprintf(uri, "%s://[%s]:%s", s, h, d); else sprintf(uri, "%s://%s:%s", s, h, d);
    if (j & 128) strcat(uri, "/");
    vtrace("%s ", uri);
    if (nf) v_fail_at = vb(in) % 12;
    rc = u_net_uri2addr(uri, (u_net_mode_t) mode, &a); v_fail_at = -1; if (v_failed) { VCHECK(rc, "success though memory ran out"); return; }
    if (!SC[i].fam || want < 0) { VCHECK(rc, "%s accepted", uri); return; }
    VCHECK(rc == 0, "%s refused", uri);
    m = (struct mirror *) a; VCHECK(m->mode == mode && m->opts == 0 && m->addr, "address object");
    for (x = m->addr; x; x = x->ai_next) {
        VCHECK(x->ai_family == SC[i].fam && x->ai_socktype == SC[i].type && x->ai_protocol == SC[i].proto, "%s: family %d type %d protocol %d", uri, x->ai_family, x->ai_socktype, x->ai_protocol);
        if (SC[i].fam == AF_INET) { struct sockaddr_in *t = (struct sockaddr_in *) x->ai_addr; uint32_t w = htonl(mode == U_NET_SSOCK ? INADDR_ANY : INADDR_LOOPBACK); VCHECK(!memcmp(&t->sin_addr, k & 16 ? (void *) &w : (void *) b, 4) && ntohs(t->sin_port) == want, "%s denotes another address", uri); sprintf(e, "%u.%u.%u.%u:%u", ((uint8_t *) &t->sin_addr)[0], ((uint8_t *) &t->sin_addr)[1], ((uint8_t *) &t->sin_addr)[2], ((uint8_t *) &t->sin_addr)[3], (unsigned) want); }
        else { struct sockaddr_in6 *t = (struct sockaddr_in6 *) x->ai_addr; char z[64]; const struct in6_addr *w = mode == U_NET_SSOCK ? &in6addr_any : &in6addr_loopback; VCHECK(!memcmp(&t->sin6_addr, k & 16 ? (const void *) w : (void *) b, 16) && ntohs(t->sin6_port) == want, "%s denotes another address", uri); sprintf(e, "[%s]:%u", inet_ntop(AF_INET6, &t->sin6_addr, z, sizeof z), (unsigned) want); }
        q = u_sa_ntop(x->ai_addr, d, sizeof d); VCHECK(!strcmp(q, e), "%s printed as %s", e, q);
        j = 1 + vb(in) % 60; { char *g = malloc(j); q = u_sa_ntop(x->ai_addr, g, j); if (strlen(e) < j) VCHECK(!strcmp(q, e), "%s printed as %s", e, q); free(g); }
    }
    u_net_addr_free(a);
}
int v_run_case (const uint8_t *d, size_t n)
{
    vin_t in = { d, n, 0 }; unsigned op = vb(&in); on = 0; v_fail_at = -1; v_failed = 0;
    if (op % 4 == 0) addresses(&in);
    else if (op % 16 == 1) { char b[8]; socklen_t l = 8; int rc; sv = &in; calls = 0; acc_fd = 7; acc_a = (struct sockaddr *) b; acc_l = &l; acc_done = 0; errno = 0; rc = u_accept(7, acc_a, acc_l); VCHECK(acc_done && (rc == 31 ? l == 1 : rc == -1 && errno == EMFILE), "accept -> %d", rc); }
    else if (op % 16 == 2) { int fd = F0, x, rc; sv = &in; base = F0; nsock = 1; calls = 0; faults = op >> 4 & 1; memset(S, 0, sizeof S); S[0].open = 1; S[0].nb = x = vb(&in) & 1; reportedfail = 0; on = 1; rc = vb(&in) & 1 ? (x = 1, u_net_set_nonblocking(fd)) : (x = 0, u_net_unset_nonblocking(fd)); on = 0; VCHECK(rc ? reportedfail : !reportedfail && S[0].nb == x, "non-blocking mode: %d", rc); reportedfail = 0; on = 1; rc = u_net_nagle_off(fd); on = 0; VCHECK((rc != 0) == (reportedfail != 0), "nagle off"); }
    else sockets(&in, op >> 2);
    VCHECK(v_live == 0, "%ld blocks left", v_live);
    return 0;
}
