/* C20, C21: reception from a serial line / TCP gateway.
 *   TCP        the TCP receiver (default: serial)
 *   K          number of scripted read results; afterwards silence
 *   REAL=n     real mbus_parse on a valid frame of n bytes, arriving as SCRIPT says
 *              (bytes; 0: pause, -1: error, -2: interrupted); default: the
 *              parser's contract and symbolic read results
 * In the encoding of the contract queries the bytes themselves are not stored:
 * where they are to be stored is compared instead.
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#include <mbus/mbus-serial.h>
#include <mbus/mbus-tcp.h>
#ifndef REAL
#define REAL 0
#define STUBBED 1
#endif
struct IN { u8 kind[K]; u16 cnt[K]; int rem[K + 1]; u16 j; u8 sj; u8 tty; u8 ev; u8 s[REAL + 1]; u8 e[K]; };
#define VP_LIGHT_FMT
#define VP_HAVE_read
#define VP_HAVE_isatty
#include "vp_input.h"
#define FD 7
#ifdef STUBBED
#define WIT(m) VP_REACH(m)
#else
#define WIT(m) do { } while (0)
#endif
static int calls, zeros, last, events, evlen, evok, asked = -1;   /* last: outcome of the last read */
static size_t pos;
static char *base;
static int idx = -1;                       /* index of the parser's answer for the current size */
static size_t idx_size = (size_t)-1;
enum { L_NONE, L_DATA, L_ZERO, L_EIO, L_EINTR, L_EAGAIN };
static u8 stream(size_t i)
{
#ifdef STUBBED
    return i == IN.j ? IN.sj : 0;
#else
    return i < REAL ? IN.s[i] : 0;
#endif
}
int vp_isatty(int fd) { return fd == FD ? IN.tty & 1 : 0; }
ssize_t vp_read(int fd, void *b, size_t n)
{
    VP_ASSERT(fd == FD, "own descriptor");
    VP_ASSERT(n > 0, "something is read");
    VP_ASSERT(last == L_NONE || last == L_DATA || last == L_ZERO || last == L_EINTR, "nothing is read after a failure");
#ifdef STUBBED
    VP_ASSERT(pos == 0 ? n == 1 : asked > 0 && n <= (size_t)asked, "never reads more than the frame still needs");
#endif
    int k = calls++;
#ifdef STUBBED
    int kind = k < K ? IN.kind[k] : 9;
#else
    static const int script[] = { SCRIPT };
    static int item;
    int sn = sizeof script / sizeof *script, sk = item < sn ? script[item] : 0;
    int kind = item >= sn ? 9 : sk > 0 ? 3 : sk == 0 ? 0 : sk == -1 ? 1 : 2;
    if (kind != 3) item++;
#endif
#ifdef TCP
    if (kind == 2) { last = L_EINTR; errno = EINTR; return -1; }
    if (kind == 0) { last = L_ZERO; return 0; }
    if (kind == 1) { last = L_EIO; errno = EIO; return -1; }
    if (kind == 9) { last = L_EAGAIN; errno = EAGAIN; return -1; }
#else
    if (kind == 1) { last = L_EIO; errno = EIO; return -1; }
    if (kind == 0 || kind == 9) { last = L_ZERO; zeros++; return 0; }
#endif
#ifdef STUBBED
    size_t r = IN.cnt[k];
    VP_ASSUME(r >= 1);
    if (r > n) r = n;
#else
    /* what arrived and was not asked for stays for the next read */
    static size_t used;
    size_t r = sk - used;
    if (r > n) r = n;
    used += r;
    if (used == sk) { item++; used = 0; }
#endif
#ifdef STUBBED
#ifdef VP_ENC
    VP_ASSERT(__CPROVER_w_ok(b, n), "the receive buffer");
    if (base == NULL) base = b;
    VP_ASSERT(b == base + pos, "bytes are stored in the order received");
#else
    memset(b, 0, n);
    for (size_t i = 0; i < r; i++) ((u8 *)b)[i] = stream(pos + i);
#endif
#else
    for (size_t i = 0; i < r; i++) ((u8 *)b)[i] = stream(pos + i);
    VP_ASSERT(pos + r <= REAL, "bytes beyond the frame are not consumed");
#endif
    pos += r;
    last = L_DATA;
    return (ssize_t)r;
}
static mbus_frame frame;
#ifdef STUBBED
/* what C01 establishes about the parser: its answer is a function of the bytes */
int mbus_parse(mbus_frame *f, unsigned char *data, size_t size)
{
    VP_ASSERT(f == &frame, "the caller's frame");
    VP_ASSERT(size == pos, "all bytes received so far are looked at");
    if (size == 0) return -1;
#ifdef VP_ENC
    VP_ASSERT((char *)data == base, "in the order received");
#else
    VP_ASSERT(IN.j >= size || data[IN.j] == IN.sj, "in the order received");
#endif
    if (size != idx_size) { idx++; idx_size = size; }
    VP_MODEL(idx <= K, "answers");
    int r = IN.rem[idx];
    VP_ASSUME(r >= -5);
    asked = r;
    return r;
}
#endif
static void on_recv(unsigned char type, const char *b, size_t n)
{
    events++;
    evlen = (int)n;
#ifdef TCP
    evok = type == MBUS_HANDLE_TYPE_TCP;
#else
    evok = type == MBUS_HANDLE_TYPE_SERIAL;
#endif
#ifdef STUBBED
#ifdef VP_ENC
    if (b != base) evok = 0;
#else
    if (IN.j < n && (u8)b[IN.j] != IN.sj) evok = 0;
#endif
#else
    for (size_t i = 0; i < REAL; i++) if (i < n && (u8)b[i] != IN.s[i]) evok = 0;
#endif
}
int main(void)
{
    VP_INPUT;
    int i;
    static mbus_handle h;
    h.fd = FD;
    h.recv_event = IN.ev ? on_recv : NULL;
    for (i = 0; i < K; i++) VP_ASSUME(IN.kind[i] <= 3);
    VP_ASSUME(IN.j < 2048);
#ifndef STUBBED
    /* a valid frame of REAL bytes */
    u8 *s = IN.s;
    u8 sum = 0;
#if REAL == 1
    s[0] = 0xE5;
#elif REAL == 5
    s[0] = 0x10; s[4] = 0x16;
    VP_ASSUME((s[1] == 0x40 || s[1] == 0x5A || s[1] == 0x7A || s[1] == 0x5B || s[1] == 0x7B) && s[3] == (u8)(s[1] + s[2]));
#else
    for (i = 4; i < REAL - 2; i++) sum += s[i];
    VP_ASSUME(s[0] == 0x68 && s[1] == REAL - 6 && s[2] == REAL - 6 && s[3] == 0x68 && s[REAL - 2] == sum && s[REAL - 1] == 0x16);
    VP_ASSUME(s[4] == 0x53 || s[4] == 0x73 || s[4] == 0x08 || s[4] == 0x18 || s[4] == 0x28 || s[4] == 0x38);
    s[0] = s[3] = 0x68; s[1] = s[2] = REAL - 6; s[REAL - 1] = 0x16;
#endif
#endif
#ifdef TCP
    int r = mbus_tcp_recv_frame(&h, &frame);
#else
    int r = mbus_serial_recv_frame(&h, &frame);
    if (!(IN.tty & 1)) {
        VP_ASSERT(r == MBUS_RECV_RESULT_ERROR && calls == 0, "no terminal");
        WIT("no terminal");
        return 0;
    }
#endif
    #ifdef STUBBED
    VP_ASSERT(calls <= K + 4, "reception ends");
#endif
#ifdef STUBBED
    int done = pos > 0 && asked <= 0;
#else
    int done = pos == REAL;
#endif
    if (done) {
#ifdef STUBBED
        VP_ASSERT(asked == 0 ? r == MBUS_RECV_RESULT_OK : r == MBUS_RECV_RESULT_INVALID, "a complete reply is returned, a malformed one is invalid");
        VP_ASSERT(last == L_DATA, "reception ends with the frame");
        if (asked == 0) VP_REACH("complete"); else VP_REACH("malformed");
#else
        VP_ASSERT(r == MBUS_RECV_RESULT_OK, "the frame is returned");
        VP_ASSERT(frame.start1 == s[0], "start");
#if REAL == 1
        VP_ASSERT(frame.type == MBUS_FRAME_TYPE_ACK, "type");
#elif REAL == 5
        VP_ASSERT(frame.type == MBUS_FRAME_TYPE_SHORT && frame.control == s[1] && frame.address == s[2] && frame.checksum == s[3] && frame.stop == s[4], "short frame");
#else
        VP_ASSERT(frame.type == (REAL == 9 ? MBUS_FRAME_TYPE_CONTROL : MBUS_FRAME_TYPE_LONG), "type");
        VP_ASSERT(frame.control == s[4] && frame.address == s[5] && frame.control_information == s[6] && frame.checksum == sum && frame.data_size == REAL - 9, "fields");
        for (i = 7; i < REAL - 2; i++) VP_ASSERT(frame.data[i - 7] == s[i], "data");
#endif
#ifndef PARTIAL
        VP_REACH("frame received");
#endif
#endif
        if (IN.ev) VP_ASSERT(events == 1 && evok && evlen == (int)pos, "the receive event sees the bytes");
    }
#ifdef TCP
    else if (last == L_EAGAIN) { VP_ASSERT(r == MBUS_RECV_RESULT_TIMEOUT, "read timeout"); WIT("timeout"); }
    else if (last == L_ZERO) { VP_ASSERT(r == MBUS_RECV_RESULT_RESET, "closed connection"); WIT("reset"); }
    else if (last == L_EIO) { VP_ASSERT(r == MBUS_RECV_RESULT_ERROR, "read error"); WIT("error"); }
#ifdef STUBBED
    else VP_ASSERT(r == MBUS_RECV_RESULT_ERROR && pos + asked > 2048, "gives up only when the buffer is full");
#else
    else VP_ASSERT(0, "a part of a frame is not a result");
#endif
#else
    else if (last == L_EIO) { VP_ASSERT(r == MBUS_RECV_RESULT_ERROR, "read error"); WIT("error"); }
    else if (pos == 0) { VP_ASSERT(r == MBUS_RECV_RESULT_TIMEOUT && events == 0, "silence is a timeout"); WIT("timeout"); }
#ifdef STUBBED
    else if (pos + asked > 2048) VP_ASSERT(r == MBUS_RECV_RESULT_ERROR || (r == MBUS_RECV_RESULT_INVALID && zeros >= 3), "reply longer than the buffer");
#endif
    else {
        VP_ASSERT(zeros >= 3, "two pauses are tolerated");
        VP_ASSERT(r == MBUS_RECV_RESULT_INVALID, "an incomplete reply is invalid");
        if (IN.ev) VP_ASSERT(events == 1 && evok && evlen == (int)pos, "the receive event sees the bytes");
        WIT("incomplete");
    }
#endif
#ifdef PARTIAL
    if (!done) VP_REACH("no frame");
#endif
    if (!IN.ev) VP_ASSERT(events == 0, "no event");
#ifdef TCP
    VP_ASSERT(mbus_tcp_recv_frame(NULL, &frame) == MBUS_RECV_RESULT_ERROR && mbus_tcp_recv_frame(&h, NULL) == MBUS_RECV_RESULT_ERROR, "missing arguments");
#else
    VP_ASSERT(mbus_serial_recv_frame(NULL, &frame) == MBUS_RECV_RESULT_ERROR && mbus_serial_recv_frame(&h, NULL) == MBUS_RECV_RESULT_ERROR, "missing arguments");
#endif
    return 0;
}
