/* C32, C34, C36: sending, line configuration and life cycle of a handle.
 *   TCP  the TCP transport (default: serial)
 *   SEND=type N=payload size   |  LINE  |  LIFE=ops  |  OPT  |  CTX FAILAT=k
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <mbus/mbus-serial.h>
#include <mbus/mbus-tcp.h>
#ifndef N
#define N 0
#endif
#ifndef LIFE
#define LIFE 0
#endif
struct IN { u8 start1, control, address, ci, stop, tty, evt, short_write, drain; int wr; u64 big; u8 d[N + 1]; long baud, val; int opt; u8 f[16]; u8 op[LIFE + 1]; int type; u32 k; u16 port; };
#define VP_LIGHT_FMT
#define VP_STR_MAX 16
#ifdef FAILAT
#define VP_MAY_FAIL
#endif
#define VP_HAVE_write
#define VP_HAVE_isatty
#define VP_HAVE_open
#define VP_HAVE_close
#define VP_HAVE_socket
#define VP_HAVE_connect
#define VP_HAVE_getaddrinfo
#define VP_HAVE_tcsetattr
#define VP_HAVE_tcdrain
#define VP_HAVE_cfsetispeed
#define VP_HAVE_setsockopt
#define VP_HAVE_read
#include "vp_input.h"

/* ---- descriptors: 3 + i, never reused ------------------------------------- */
#define MAXFD 12
static int nopen, isopen[MAXFD], nextfd;
static int fk;                                          /* which fault decision comes next */
#ifdef SEND
static int fault(void) { return 0; }
#else
static int fault(void) { return fk < 16 ? IN.f[fk++] & 1 : 0; }
#endif
static int newfd(void) { if (nextfd >= MAXFD) return -1; isopen[nextfd] = 1; nopen++; return 3 + nextfd++; }
static int own(int fd) { return fd >= 3 && fd < 3 + MAXFD && isopen[fd - 3]; }
int vp_open(const char *p, int fl, ...)
{
    VP_ASSERT(p[0] == 'd' && p[1] == 'e' && p[2] == 'v' && p[3] == 0, "the handle's device");
    VP_ASSERT((fl & O_ACCMODE) == O_RDWR, "read and write");
    return fault() ? -1 : newfd();
}
int vp_close(int fd)
{
    VP_ASSERT(own(fd), "only an own, open descriptor is closed");
    if (own(fd)) { isopen[fd - 3] = 0; nopen--; }
    return 0;
}
int (vp_socket)(int d, int t, int p) { VP_ASSERT(t == SOCK_STREAM, "a stream"); return fault() ? -1 : newfd(); }
int vp_connect(int fd, const struct sockaddr *a, socklen_t l) { VP_ASSERT(own(fd), "own descriptor"); return fault() ? -1 : 0; }
static int rcvto, sndto;
int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n)
{
    VP_ASSERT(own(fd), "own descriptor");
    if (o == SO_RCVTIMEO) rcvto = 1;
    if (o == SO_SNDTIMEO) sndto = 1;
    return 0;
}
static struct addrinfo ai[2];
static int ais;
int vp_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res)
{
    VP_ASSERT(h[0] == 'd' && h[1] == 'e' && h[2] == 'v' && h[3] == 0, "the handle's host");
    if (fault()) return EAI_FAIL;
    memset(ai, 0, sizeof ai);
    ai[0].ai_socktype = ai[1].ai_socktype = SOCK_STREAM;
    ai[0].ai_next = fault() ? &ai[1] : NULL;
    ais++;
    *res = &ai[0];
    return 0;
}
void vp_freeaddrinfo(struct addrinfo *a) { VP_ASSERT(a == &ai[0] && ais == 1, "the address list is released once"); ais--; }
int vp_isatty(int fd) { return own(fd) && (IN.tty & 1); }
int vp_tcdrain(int fd) { VP_ASSERT(own(fd), "own descriptor"); return IN.drain & 1 ? -1 : 0; }
ssize_t vp_read(int fd, void *b, size_t n) { VP_ASSERT(own(fd) || fd == -1, "own descriptor"); errno = EBADF; return -1; }
/* ---- terminal --------------------------------------------------------------- */
static struct termios line;
static int tcs, tcsfail;
int vp_tcsetattr(int fd, int a, const struct termios *t)
{
    VP_ASSERT(own(fd) || fd == -1, "own descriptor");
    if (!own(fd)) { errno = EBADF; return -1; }
    if (fault()) { tcsfail = 1; return -1; }
    tcs++;
    line = *t;
    return 0;
}
static int spd(speed_t s) { return s == B300 || s == B600 || s == B1200 || s == B2400 || s == B4800 || s == B9600 || s == B19200 || s == B38400; }
int vp_cfsetispeed(struct termios *t, speed_t s) { if (!spd(s)) return -1; t->c_ispeed = s; t->c_cflag = (t->c_cflag & ~(tcflag_t)(CBAUD | CBAUDEX)) | s; return 0; }
int vp_cfsetospeed(struct termios *t, speed_t s) { if (!spd(s)) return -1; t->c_ospeed = s; t->c_cflag = (t->c_cflag & ~(tcflag_t)(CBAUD | CBAUDEX)) | s; return 0; }
int vp_cfsetspeed(struct termios *t, speed_t s) { return vp_cfsetispeed(t, s) ? -1 : vp_cfsetospeed(t, s); }
/* ---- output ------------------------------------------------------------------- */
static u8 out[2048];
static size_t outlen;
static int writes, events, evok = 1, asked;
ssize_t vp_write(int fd, const void *b, size_t n)
{
    VP_ASSERT(own(fd) || fd == -1, "own descriptor");
    if (!own(fd)) { errno = EBADF; return -1; }
    writes++;
    VP_ASSERT(n >= 1 && n <= N + 9, "a packed frame");
    asked = (int)n;
    outlen = n;
    for (size_t i = 0; i < N + 9; i++) if (i < n) out[i] = ((const u8 *)b)[i];
    if (IN.short_write & 1) { VP_ASSUME(IN.wr >= -1 && IN.wr < (int)n); errno = EIO; return IN.wr; }
    return (ssize_t)n;
}
static void on_send(unsigned char type, const char *b, size_t n)
{
    events++;
#ifdef TCP
    evok = type == MBUS_HANDLE_TYPE_TCP;
#else
    evok = type == MBUS_HANDLE_TYPE_SERIAL;
#endif
    if (n != outlen) evok = 0;
    for (size_t i = 0; i < N + 9; i++) if (i < outlen && i < n && (u8)b[i] != out[i]) evok = 0;
}
static mbus_handle *context(void)
{
#ifdef TCP
    return mbus_context_tcp("dev", IN.port);
#else
    return mbus_context_serial("dev");
#endif
}
static int vtime_ok(long baud, int vtime) { return (long)vtime * baud * 10 >= 341 * 100 + 15 * baud; }     /* 341 bit times + 150 ms */
static void line_ok(long baud, speed_t s)
{
    VP_ASSERT((line.c_cflag & CSIZE) == CS8 && (line.c_cflag & PARENB) && !(line.c_cflag & (PARODD | CSTOPB | CMSPAR)), "8 data bits, even parity, one stop bit");
    VP_ASSERT((line.c_cflag & (CREAD | CLOCAL)) == (CREAD | CLOCAL), "receiver on, no modem control");
    VP_ASSERT(!(line.c_lflag & (ICANON | ECHO | ISIG | IEXTEN)) && !(line.c_oflag & OPOST) && !(line.c_iflag & (ISTRIP | INLCR | IGNCR | ICRNL | IXON | IXOFF | PARMRK)), "raw");
    VP_ASSERT((line.c_cflag & (CBAUD | CBAUDEX)) == s, "baud rate");
    VP_ASSERT(line.c_cc[VMIN] == 0 && vtime_ok(baud, line.c_cc[VTIME]), "the inter-byte timeout covers the reply time");
}
int main(void)
{
    VP_INPUT;
    int i;
#ifdef SEND
    {
        static mbus_frame fr;
        fr.start1 = IN.start1; fr.control = IN.control; fr.address = IN.address; fr.control_information = IN.ci; fr.stop = IN.stop; fr.start2 = 0x68;
        fr.type = SEND;
        fr.data_size = N;
        for (i = 0; i < N; i++) fr.data[i] = IN.d[i];
#if SEND == 0
        fr.type = IN.type;
        VP_ASSUME(IN.type < 1 || IN.type > 4);
#endif
#ifdef BIG
        VP_ASSUME(IN.big > 252);
        fr.data_size = IN.big;
#endif
        mbus_handle *h = context();
        if (IN.evt & 1) mbus_register_send_event(h, on_send);
        VP_ASSERT(mbus_connect(h) == 0, "connected");
        int r = mbus_send_frame(h, &fr);
        /* what the frame is on the wire */
        u8 w[N + 9];
        size_t n = 0;
        u8 sum = (u8)(IN.control + IN.address);
#if SEND == 1
        w[n++] = IN.start1;
#elif SEND == 2
        w[n++] = IN.start1; w[n++] = IN.control; w[n++] = IN.address; w[n++] = sum; w[n++] = IN.stop;
#elif SEND == 3 || SEND == 4
        sum += IN.ci;
        for (i = 0; i < N; i++) sum += IN.d[i];
        w[n++] = IN.start1; w[n++] = SEND == 3 ? 3 : N + 3; w[n++] = SEND == 3 ? 3 : N + 3; w[n++] = 0x68; w[n++] = IN.control; w[n++] = IN.address; w[n++] = IN.ci;
        for (i = 0; i < N; i++) w[n++] = IN.d[i];
        w[n++] = sum; w[n++] = IN.stop;
#endif
        int ok = n > 0;
#ifdef BIG
        ok = 0;
#endif
#ifndef TCP
        if (!(IN.tty & 1)) { VP_ASSERT(r == -1 && writes == 0 && events == 0, "no terminal, no write"); VP_REACH("no terminal"); ok = -1; }
#endif
        if (ok == 0) { VP_ASSERT(r == -1 && writes == 0 && events == 0, "a frame that cannot be packed writes nothing");
#if SEND == 0 || defined(BIG)
            VP_REACH("refused");
#endif
        }
#if SEND != 0 && !defined(BIG)
        if (ok == 1) {
            VP_ASSERT(writes == 1 && outlen == n, "one write of the whole frame");
            for (i = 0; i < (int)n; i++) VP_ASSERT(out[i] == w[i], "the packed bytes");
            if (IN.short_write & 1) { VP_ASSERT(r == -1 && events == 0, "an incomplete write is an error"); VP_REACH("write failed"); }
            else { VP_ASSERT(r == 0, "sent"); VP_ASSERT(events == (IN.evt & 1) && evok, "the send event sees the bytes"); VP_REACH("sent"); }
        }
#endif
        VP_ASSERT(mbus_send_frame(NULL, &fr) == -1, "no handle is an error");
        int w0 = writes;
        VP_ASSERT(mbus_send_frame(h, NULL) == -1 && writes == w0, "no frame is an error");
        return 0;
    }
#endif
#ifdef LINE
    {
        VP_ASSUME((IN.f[0] & 1) == 0);
        mbus_handle *h = context();
        int r = mbus_connect(h);
        if (tcsfail) { VP_ASSERT(r != 0 && nopen == 0, "a failing terminal call is reported"); VP_REACH("terminal call failed"); return 0; }
        VP_ASSERT(r == 0 && tcs >= 1, "connected");
        line_ok(2400, B2400);
        struct termios before = line;
        int n = tcs;
        long b = IN.baud;
        speed_t s = b == 300 ? B300 : b == 600 ? B600 : b == 1200 ? B1200 : b == 2400 ? B2400 : b == 4800 ? B4800 : b == 9600 ? B9600 : b == 19200 ? B19200 : b == 38400 ? B38400 : B0;
        r = mbus_serial_set_baudrate(h, b);
        if (s == B0) {
            VP_ASSERT(r == -1 && tcs == n, "an unsupported rate is refused and leaves the line as it was");
            /* ... and so does the next rate that is set */
            VP_REACH("unsupported");
        } else if (tcsfail) { VP_ASSERT(r == -1, "a failing terminal call is reported"); VP_REACH("baud rate failed"); }
        else { VP_ASSERT(r == 0 && tcs > n, "rate set"); line_ok(b, s); VP_REACH("rate set"); }
        /* once more: nothing of a refused or failed attempt remains */
        tcsfail = 0;
        r = mbus_serial_set_baudrate(h, 2400);
        if (tcsfail) VP_ASSERT(r == -1, "a failing terminal call is reported");
        else { VP_ASSERT(r == 0, "rate set"); line_ok(2400, B2400); }
        VP_ASSERT(mbus_serial_set_baudrate(NULL, 2400) == -1, "no handle");
        return 0;
    }
#endif
#ifdef OPT
    {
        mbus_handle *h = context();
        int a = h->max_data_retry, b = h->max_search_retry, c = h->purge_first_frame;
        VP_ASSERT(a == 3 && b == 1 && c == MBUS_FRAME_PURGE_M2S, "defaults");
        int rc = mbus_context_set_option(h, IN.opt, IN.val);
        int good = 0;
        if (IN.opt == MBUS_OPTION_MAX_DATA_RETRY && IN.val >= 0 && IN.val <= 9) { good = 1; a = (int)IN.val; }
        if (IN.opt == MBUS_OPTION_MAX_SEARCH_RETRY && IN.val >= 0 && IN.val <= 9) { good = 1; b = (int)IN.val; }
        if (IN.opt == MBUS_OPTION_PURGE_FIRST_FRAME && IN.val >= 0 && IN.val <= 2) { good = 1; c = (int)IN.val; }
        VP_ASSERT(good ? rc == 0 : rc == -1, "exactly the documented range is accepted");
        VP_ASSERT(h->max_data_retry == a && h->max_search_retry == b && h->purge_first_frame == c, "the other options keep their value");
        VP_ASSERT(mbus_context_set_option(NULL, IN.opt, IN.val) == -1 && mbus_connect(NULL) == -1 && mbus_disconnect(NULL) == -1, "no handle");
        mbus_context_free(h);
        mbus_context_free(NULL);
        VP_ASSERT(vp_live == 0, "every block is released");
        if (good) VP_REACH("set"); else VP_REACH("refused");
        return 0;
    }
#endif
#if LIFE
    {
#ifdef FAILAT
        vp_fail_at = FAILAT;
#endif
        int connected = 0, sends = 0;
        mbus_handle *h = context();
#ifdef FAILAT
        VP_ASSERT(h == NULL && vp_live == 0, "no memory: no handle and nothing left behind");
        VP_REACH("no memory");
        return 0;
#else
        VP_ASSERT(h != NULL, "created");
        for (i = 0; i < LIFE; i++) switch (IN.op[i] & 3) {
        case 0: {
            if (connected) break;               /* an application disconnects first */
            int r = mbus_connect(h);
            VP_ASSERT(ais == 0, "the address list is released");
            if (r == 0) {
                connected = 1;
                VP_ASSERT(nopen == 1 && own(h->fd), "connected: one descriptor");
#ifdef TCP
                VP_ASSERT(rcvto && sndto, "timeouts are set");
#endif
                VP_REACH("connected");
            } else { VP_ASSERT(nopen == 0, "a failed connect leaves nothing open"); VP_REACH("connect failed"); }
            break; }
        case 1: {
            int r = mbus_disconnect(h);
            VP_ASSERT(connected ? r == 0 : r == -1, "disconnect");
            connected = 0;
            VP_ASSERT(nopen == 0, "disconnected: nothing open");
            VP_REACH("disconnected");
            break; }
        case 2: {
            int r = mbus_send_request_frame(h, 5);
            if (!connected) { VP_ASSERT(r == -1, "sending without a connection is an error"); VP_REACH("not connected"); }
            break; }
        case 3: {
            static mbus_frame fr;
#ifndef TCP
            if (!connected) VP_ASSERT(mbus_serial_set_baudrate(h, 9600) == -1, "no line to configure");
            else mbus_serial_set_baudrate(h, 9600);
#endif
            if (!connected) VP_ASSERT(mbus_recv_frame(h, &fr) == MBUS_RECV_RESULT_ERROR, "receiving without a connection is an error");
            break; }
        }
        VP_ASSERT(nopen == connected, "one descriptor while connected");
        if (connected) mbus_disconnect(h);
        VP_ASSERT(nopen == 0, "nothing open");
        mbus_context_free(h);
        VP_ASSERT(vp_live == 0, "every block is released once");
        VP_REACH("freed");
        return 0;
#endif
    }
#endif
    return 0;
}
