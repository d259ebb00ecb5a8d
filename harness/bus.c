/* C19, C22, C23, C24: what a master puts on the bus and how it judges replies.
 * The bus is the pair of transport callbacks of the handle.
 *   CMD=n     one command                          (C19)
 *   RECV      mbus_recv_frame, mbus_purge_frames   (C22)
 *   REQ=k     mbus_sendrecv_request, k receptions  (C23; the data parser is its contract)
 *   SEL=k, PROBE=k, READ=k  selection, probing, reading a slave with k receptions (C24)
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#ifndef K
#define K 8
#endif
#ifndef N
#define N 1
#endif
struct IN { int addr, sub, addr2; long baud; u8 purge, dir[K], res[K], ftype[K], ev; int sendfail; u8 d[N]; u64 n; u8 mask[20]; u8 retry; int maxf;
            u8 prc[K], ptype[K], more[K], nrec[K]; u8 hdr[12]; u8 ci; u64 now; u8 stale; u8 hnull; };
#define VP_LIGHT_FMT
#define VP_STR_MAX 20
#if defined(PROBE)
#undef VP_LIGHT_FMT
#define VP_QUIET_ERRORS
#endif
#ifdef FAILAT
#define VP_MAY_FAIL
#endif
#define VP_TYPED_ALLOC
#include "vp_input.h"
enum { MAXSEND = 12 };
static int sends, sent_ctl[MAXSEND], sent_addr[MAXSEND], sent_ci[MAXSEND], sent_type[MAXSEND];
static u8 wire[N + 20];
static int wirelen;
static int recvs, purging, purge_recvs;
static mbus_frame *rxframe[K + 1];
static int failed_send;
static int my_send(mbus_handle *h, mbus_frame *f)
{
    VP_ASSERT(f != NULL, "a frame");
    VP_MODEL(sends < MAXSEND, "number of frames sent");
    if (sends < MAXSEND) { sent_ctl[sends] = f->control; sent_addr[sends] = f->address; sent_ci[sends] = f->control_information; sent_type[sends] = f->type; }
#if defined(CMD) || defined(SEL)
    wirelen = mbus_frame_pack(f, wire, sizeof wire);
#endif
    if (IN.sendfail == sends++) { failed_send = 1; return -1; }
    return 0;
}
/* reception k gives result res[k] and a frame of direction dir[k], type ftype[k] */
static int my_recv(mbus_handle *h, mbus_frame *f)
{
    int k = recvs++, r;
    VP_ASSERT(f != NULL, "a frame");
    if (k >= K) return MBUS_RECV_RESULT_TIMEOUT;
    rxframe[k] = f;
    switch (IN.res[k]) {
    case 0: r = MBUS_RECV_RESULT_OK; break;
    case 1: r = MBUS_RECV_RESULT_INVALID; break;
    case 2: r = MBUS_RECV_RESULT_TIMEOUT; break;
    case 3: r = MBUS_RECV_RESULT_ERROR; break;
    default: r = MBUS_RECV_RESULT_RESET;
    }
    if (r == MBUS_RECV_RESULT_OK) {
        f->type = IN.ftype[k];
        f->control = IN.dir[k] ? 0x53 : 0x08;
        f->start1 = (u8)k;
#ifdef PROBE
        f->control_information = IN.ci;
#endif
    }
    return r;
}
static mbus_handle H;
static mbus_handle *handle(void)
{
    memset(&H, 0, sizeof H);
    H.send = my_send; H.recv = my_recv;
    H.max_data_retry = IN.retry; H.max_search_retry = IN.retry;
    H.purge_first_frame = MBUS_FRAME_PURGE_NONE;
    return &H;
}
static int found, foundok;
static void on_found(mbus_handle *h, mbus_frame *f) { found++; foundok = h == &H && f != NULL; }
static int isx(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10; }

#ifdef REQ
/* the data parser as C04/C05 establish it: on success a list of fresh records,
 * on failure possibly a part of one; the rest of *data belongs to the caller */
static int parses, pk[K];
int mbus_frame_data_parse(mbus_frame *f, mbus_frame_data *d)
{
    int k = f->start1;
    VP_ASSERT(f != NULL && d != NULL, "arguments");
    VP_MODEL(parses < K, "parses");
    if (parses < K) pk[parses++] = k;
    if (IN.prc[k] == 1) return -1;                               /* unknown data: nothing touched */
    d->type = IN.ptype[k];
    if (IN.prc[k] == 2 && IN.ptype[k] != MBUS_DATA_TYPE_VARIABLE) return -1;
    if (IN.ptype[k] != MBUS_DATA_TYPE_VARIABLE) return 0;
    d->data_var.nrecords = 0;
    d->data_var.more_records_follow = 0;
    if (IN.prc[k] == 2) return -1;                               /* header too short */
    d->data_var.record = NULL;
    if (IN.nrec[k] & 1) {
        mbus_data_record *r = mbus_data_record_new();
        if (r == NULL) return -2;
        mbus_data_record_append(&d->data_var, r);
        d->data_var.nrecords = 1;
        if (IN.more[k] & 1) d->data_var.more_records_follow = 1;
    }
    if (IN.prc[k] == 3) return -1;                               /* a later record is cut short */
    if (IN.prc[k] == 4) return -2;                               /* no memory for it */
    return 0;
}
#endif

#ifdef PROBE
/* the address text as C18 establishes it: of a variable data reply, its address */
static char rxaddr[32];
static mbus_frame *addr_of;
char *mbus_frame_get_secondary_address(mbus_frame *f)
{
    addr_of = f;
    VP_ASSERT(f != NULL, "a frame");
    if (f->control_information != 0x72 || IN.dir[f->start1]) return NULL;
    for (int i = 0; i < 16; i++) rxaddr[i] = "0123456789ABCDEF"[IN.mask[i] & 15];
    rxaddr[16] = 0;
    return rxaddr;
}
#endif

int main(void)
{
    VP_INPUT;
    int i, k;
    mbus_handle *h = handle();
    for (k = 0; k < K; k++) VP_ASSUME(IN.res[k] <= 4 && IN.dir[k] <= 1 && IN.ftype[k] >= 1 && IN.ftype[k] <= 4);
#ifdef FAILAT
    vp_fail_at = FAILAT;
#endif
#ifdef CMD
    {
        int rc = -99, good = 0, n = 0;
        u8 w[N + 12], ctl = 0, ci = 0, dat[N + 3];
        int dn = 0, type = 4, a = IN.addr;
        mbus_handle *hh = IN.hnull & 1 ? NULL : h;
        int arg = a >= 0 && a <= 255;
        VP_ASSUME(IN.sendfail == 0 || IN.sendfail == 99);
#if CMD == 1
        h->recv = my_recv;
        rc = mbus_send_ping_frame(hh, a, 0); ctl = 0x40; type = 2;
#elif CMD == 2
        rc = mbus_send_request_frame(hh, a); ctl = 0x5B; type = 2;
#elif CMD == 3
        rc = mbus_send_application_reset_frame(hh, a, IN.sub); ctl = 0x53; ci = 0x50;
        if (IN.sub > 255) arg = 0;
        if (IN.sub >= 0) { dn = 1; dat[0] = (u8)IN.sub; }
#elif CMD == 4
        { int nw = IN.addr2;
        rc = mbus_set_primary_address(hh, a, nw); ctl = 0x53; ci = 0x51;
        if (nw < 0 || nw > 250) arg = 0;
#ifdef RESERVED
        VP_ASSUME(nw == 251 || nw == 252); arg = 0;
#else
        VP_ASSUME(nw != 251 && nw != 252);
#endif
        dn = 3; dat[0] = 0x01; dat[1] = 0x7A; dat[2] = (u8)nw; }
#elif CMD == 5
        { long b = IN.baud;
        rc = mbus_send_switch_baudrate_frame(hh, a, b); ctl = 0x53; type = 3;
        ci = b == 300 ? 0xB8 : b == 600 ? 0xB9 : b == 1200 ? 0xBA : b == 2400 ? 0xBB : b == 4800 ? 0xBC : b == 9600 ? 0xBD : b == 19200 ? 0xBE : b == 38400 ? 0xBF : 0;
        if (!ci) arg = 0; }
#elif CMD == 6
        { u64 sz = N - 1;
#ifdef BADSIZE
        sz = IN.n; VP_ASSUME(sz == 0 || sz > 252); arg = 0;
#endif
        rc = mbus_send_user_data_frame(hh, a, IN.d, sz); ctl = 0x53; ci = 0x51;
        for (i = 0; i < N - 1; i++) dat[i] = IN.d[i];
        dn = N - 1;
        VP_ASSERT(sends == (arg && hh), "one frame");
        i = sends; VP_ASSERT(mbus_send_user_data_frame(h, a, NULL, 4) != 0 && sends == i, "no data"); }
#elif CMD == 7
        /* secondary selection: any 16 characters */
        { char m[18]; int ok = 1;
        for (i = 0; i < 17; i++) m[i] = IN.mask[i];
        m[17] = 0;
        for (i = 0; i < 16; i++) { if (!isx(IN.mask[i])) ok = 0; }
        if (IN.mask[16]) ok = 0;
        rc = mbus_send_select_frame(hh, m); ctl = 0x73; ci = 0x52; arg = ok; a = 0xFD; dn = 8;
        if (ok) for (i = 0; i < 4; i++) dat[3 - i] = (u8)(hexv(m[2 * i]) << 4 | hexv(m[2 * i + 1]));
        if (ok) for (i = 4; i < 8; i++) dat[i] = (u8)(hexv(m[2 * i]) << 4 | hexv(m[2 * i + 1])); }
#endif
        good = arg && hh != NULL;
#ifdef FAILAT
        good = 0;
#endif
        u8 sum = ctl + (u8)a;
        if (type == 2) { w[0] = 0x10; w[1] = ctl; w[2] = (u8)a; w[3] = sum; w[4] = 0x16; n = 5; }
        else {
            int l = type == 3 ? 3 : dn + 3;
            w[0] = w[3] = 0x68; w[1] = w[2] = (u8)l; w[4] = ctl; w[5] = (u8)a; w[6] = ci; sum += ci;
            for (i = 0; i < N + 2; i++) if (i < dn) { w[7 + i] = dat[i]; sum += dat[i]; }
            n = type == 3 ? 7 : 7 + dn;
            w[n] = sum; w[n + 1] = 0x16; n += 2;
        }
        VP_ASSERT(vp_live == 0, "temporary memory is released");
        if (!good) {
            VP_ASSERT(sends == 0 && rc != 0, "nothing is sent and an error is returned");
#if !defined(FAILAT)
            VP_REACH("refused");
#endif
        } else {
            VP_ASSERT(sends == 1, "exactly one frame");
            VP_ASSERT(wirelen == n, "its length");
            for (i = 0; i < N + 12; i++) if (i < n) VP_ASSERT(wire[i] == w[i], "the protocol's frame");
            VP_ASSERT(failed_send ? rc != 0 : rc == 0, "a failing send is reported");
#if !defined(FAILAT) && !defined(BADSIZE) && !defined(RESERVED)
            VP_REACH("sent");
#endif
        }
#ifdef FAILAT
        VP_REACH("no memory");
#endif
        VP_ASSERT(recvs == 0, "nothing is received");
        return 0;
    }
#endif
#ifdef PING
    {   /* a ping that purges: one frame, then receptions until silence */
        VP_ASSUME(IN.sendfail == 0 || IN.sendfail == 99);
        VP_ASSUME(IN.addr >= 0 && IN.addr <= 255);
        int rc = mbus_send_ping_frame(h, IN.addr, 1), want = 0;
        VP_ASSERT(sends == 1 && sent_ctl[0] == 0x40 && sent_addr[0] == IN.addr, "ping");
        if (failed_send) { VP_ASSERT(rc != 0 && recvs == 0, "a failing send is reported"); VP_REACH("failed"); return 0; }
        while (want < K && IN.res[want] <= 1) want++;
        VP_ASSERT(rc == 0 && recvs == want + 1, "the line is purged");
        VP_ASSERT(vp_live == 0, "temporary memory is released");
        VP_REACH("purged");
        return 0;
    }
#endif
#ifdef RECV
    {
        static mbus_frame f;
        VP_ASSUME(IN.purge <= 2 && IN.now < (1ull << 40));
        h->purge_first_frame = IN.purge;
        vp_now = (time_t)IN.now;
        f.start1 = 99;
        if (IN.stale & 1) { f.type = 4; f.control = IN.stale & 2 ? 0x53 : 0x08; }
        int r = mbus_recv_frame(h, &f);
        VP_ASSERT(recvs == 1 || recvs == 2, "one frame, or one after a dropped one");
        static const int rr[5] = { MBUS_RECV_RESULT_OK, MBUS_RECV_RESULT_INVALID, MBUS_RECV_RESULT_TIMEOUT, MBUS_RECV_RESULT_ERROR, MBUS_RECV_RESULT_RESET };
        VP_ASSERT(r == rr[IN.res[recvs - 1]], "the result is that of the last reception");
        if (IN.res[0] == 0) {
            /* an acknowledge has no direction field: it comes from a slave */
            int m2s = IN.ftype[0] != 1 && IN.dir[0];
            int drop = (IN.purge == MBUS_FRAME_PURGE_M2S && m2s) || (IN.purge == MBUS_FRAME_PURGE_S2M && !m2s);
            VP_ASSERT(recvs == 1 + drop, "exactly the configured echo is dropped");
            if (drop) { VP_ASSERT(rxframe[1] == &f, "the next frame is delivered"); VP_REACH("dropped"); } else VP_REACH("delivered");
        } else if (IN.purge == MBUS_FRAME_PURGE_NONE) { VP_ASSERT(recvs == 1, "nothing is dropped"); VP_REACH("no echo"); }
        VP_ASSERT(f.timestamp == (time_t)IN.now, "time of reception");
        if (IN.res[recvs - 1] == 0) VP_ASSERT(f.start1 == recvs - 1, "the frame of the last reception");
        int base = recvs;
        VP_ASSERT(mbus_recv_frame(NULL, &f) == MBUS_RECV_RESULT_ERROR && mbus_recv_frame(h, NULL) == MBUS_RECV_RESULT_ERROR && recvs == base, "missing arguments");
        return 0;
    }
#endif
#ifdef PURGE
    {
        int want = 0;
        int r = mbus_purge_frames(h);
        while (want < K && IN.res[want] <= 1) want++;
        VP_ASSERT(recvs == want + 1, "reads until nothing more arrives");
        VP_ASSERT(!!r == (want > 0), "reports whether anything arrived");
        if (want) VP_REACH("purged"); else VP_REACH("silent");
        return 0;
    }
#endif
#ifdef REQ
    {
        static mbus_frame reply;
        #ifdef MAXF
        int maxf = MAXF;
        h->max_data_retry = MAXRETRY;
        VP_ASSUME(IN.retry == MAXRETRY);
#else
        int maxf = IN.maxf;
        VP_ASSUME(IN.retry <= MAXRETRY && IN.maxf >= 0 && IN.maxf <= 4);
#endif
        VP_ASSUME(IN.sendfail >= 0 && IN.sendfail < 100);
        for (k = 0; k < K; k++) VP_ASSUME(IN.prc[k] <= 4 && IN.ptype[k] >= 1 && IN.ptype[k] <= 3);
        int rc = mbus_sendrecv_request(h, IN.addr, &reply, maxf);
        if (IN.addr < 0 || IN.addr > 255) {
            VP_ASSERT(rc != 0 && sends == 0 && vp_live == 0, "an invalid address sends nothing");
            VP_REACH("invalid address");
            return 0;
        }
        /* the exchange the protocol prescribes */
        int s = 0, x = 0, retry = 0, fcb = 0x20, frames = 0, ok = -1, got[K + 1];
        for (i = 0; i < K + MAXRETRY + 2 && ok < 0; i++) {
            if (retry > IN.retry) { ok = 0; break; }
            if (s < MAXSEND) VP_ASSERT(s < sends && sent_type[s] == MBUS_FRAME_TYPE_SHORT && sent_ctl[s] == (0x5B & ~0x20 | fcb) && sent_addr[s] == IN.addr, "request, repeated with the same frame-count bit, toggled for the next telegram");
            if (IN.sendfail == s++) { ok = 0; break; }
            int r = x < K ? IN.res[x] : 2, me = x++;
            if (r == 0) {
                retry = 0;
                while (x < K && IN.res[x] <= 1) x++;
                x++;
                got[frames++] = me;
                int more = 0, bad = IN.prc[me] == 1 || IN.prc[me] == 2 || (IN.ptype[me] == MBUS_DATA_TYPE_VARIABLE && IN.prc[me] != 0);
                if (bad) { ok = 0; break; }
                if (IN.ptype[me] == MBUS_DATA_TYPE_VARIABLE && (IN.nrec[me] & IN.more[me] & 1) && (maxf == 0 || frames < maxf)) { more = 1; fcb ^= 0x20; }
                if (!more) ok = 1;
            } else if (r == 1) {
                retry++;
                while (x < K && IN.res[x] <= 1) x++;
                x++;
            } else if (r == 2) retry++;
            else ok = 0;
        }
        VP_ASSERT(sends == s, "number of requests");
        if (ok >= 0) {
            VP_ASSERT(ok ? rc == 0 : rc != 0, "success exactly if the last exchange succeeded");
            VP_ASSERT(recvs == x, "number of receptions");
        }
        mbus_frame *f = &reply;
        for (i = 0; i < K; i++) if (i < frames) {
            VP_ASSERT(f != NULL && f->start1 == got[i], "the received frames, in order");
            if (f) f = f->next;
        }
        if (rc == 0) VP_ASSERT(f == NULL, "and nothing else");
        #if !defined(MAXF) || MAXF != 1
        if (ok == 1 && frames > 1) VP_REACH("several telegrams");
#endif
        if (ok == 1 && frames == 1) VP_REACH("one telegram");
        if (ok == 0) VP_REACH("failed");
        if (reply.next) mbus_frame_free(reply.next);
        VP_ASSERT(vp_live == 0, "every intermediate block is released");
        return 0;
    }
#endif
#if defined(SEL) || defined(PROBE) || defined(READ)
    {
        char m[18];
        int ok = 1;
        for (i = 0; i < 17; i++) m[i] = IN.mask[i];
        m[17] = 0;
#ifdef SEL
        for (i = 0; i < 16; i++) if (!isx(IN.mask[i])) ok = 0;
        if (IN.mask[16]) ok = 0;
        VP_ASSUME(IN.sendfail == 0 || IN.sendfail == 99);
        int r = mbus_select_secondary_address(h, m);
        VP_ASSERT(vp_live == 0, "temporary memory is released");
        if (!ok) { VP_ASSERT(r == MBUS_PROBE_ERROR && sends == 0, "an invalid mask is an error"); VP_REACH("invalid mask"); return 0; }
        VP_ASSERT(sends == 1, "one selection frame");
        if (failed_send) { VP_ASSERT(r == MBUS_PROBE_ERROR && recvs == 0, "a failing send is an error"); VP_REACH("send failed"); return 0; }
        VP_ASSERT(wirelen == 17 && wire[4] == 0x73 && wire[5] == 0xFD && wire[6] == 0x52, "selection of the mask");
        int want = 1;
        while (want < K && IN.res[want] <= 1) want++;
        if (IN.res[0] == 2) { VP_ASSERT(r == MBUS_PROBE_NOTHING && recvs == 1, "silence: nothing"); VP_REACH("nothing"); }
        else if (IN.res[0] == 1) { VP_ASSERT(r == MBUS_PROBE_COLLISION, "a garbled reply is a collision"); VP_ASSERT(recvs == want + 1, "the line is purged"); VP_REACH("garbled"); }
        else if (IN.res[0] >= 3) { VP_ASSERT(r == MBUS_PROBE_ERROR, "a failing line is an error"); VP_REACH("line failed"); }
        else if (IN.ftype[0] == MBUS_FRAME_TYPE_ACK) {
            VP_ASSERT(recvs == want + 1, "looks for more traffic");
            if (want > 1) {
                VP_ASSERT(r == MBUS_PROBE_COLLISION, "more traffic is a collision");
#if K > 1
                VP_REACH("collision");
#endif
            }
            else { VP_ASSERT(r == MBUS_PROBE_SINGLE, "exactly one acknowledge: a single slave"); VP_REACH("single"); }
        } else { VP_ASSERT(r == MBUS_PROBE_NOTHING, "another frame is no slave"); VP_REACH("unexpected"); }
        return 0;
#endif
#ifdef PROBE
        /* a valid mask (the invalid ones are those of SEL) */
        for (i = 0; i < 16; i++) m[i] = 'F';
        m[16] = 0;
        char addr[20];
        memset(addr, 'x', sizeof addr);
        h->max_search_retry = MAXRETRY;
        VP_ASSUME(IN.sendfail >= 0 && IN.sendfail < 100);
        if (IN.ev & 1) mbus_register_found_event(h, on_found);
        int r = mbus_probe_secondary_address(h, m, addr), exp = MBUS_PROBE_NOTHING, s = 0, x = 0, single = 0;
        for (i = 0; i <= MAXRETRY; i++) {
            if (s < MAXSEND) VP_ASSERT(s < sends && sent_ctl[s] == 0x73 && sent_ci[s] == 0x52, "a selection");
            if (IN.sendfail == s++) { exp = MBUS_PROBE_ERROR; break; }
            int me = x++, a = me < K ? IN.res[me] : 2;
            if (a == 2) continue;
            if (a >= 3) { exp = MBUS_PROBE_ERROR; break; }
            if (a == 0 && IN.ftype[me] != MBUS_FRAME_TYPE_ACK) continue;
            int extra = 0;
            while (x < K && IN.res[x] <= 1) { x++; extra = 1; }
            x++;
            if (a == 1 || extra) { exp = MBUS_PROBE_COLLISION; break; }
            VP_ASSERT(s < sends && sent_ctl[s] == 0x5B && sent_addr[s] == 0xFD && sent_type[s] == MBUS_FRAME_TYPE_SHORT, "the slave is read");
            if (IN.sendfail == s++) { exp = MBUS_PROBE_ERROR; break; }
            me = x++; a = me < K ? IN.res[me] : 2;
            if (a == 2) { exp = MBUS_PROBE_NOTHING; break; }
            if (a >= 3) { exp = MBUS_PROBE_ERROR; break; }
            extra = 0;
            while (x < K && IN.res[x] <= 1) { x++; extra = 1; }
            x++;
            if (a == 1 || extra) { exp = MBUS_PROBE_COLLISION; break; }
            if (IN.ftype[me] == MBUS_FRAME_TYPE_LONG && IN.dir[me] == 0 && IN.ci == 0x72) { exp = MBUS_PROBE_SINGLE; single = 1; }
            break;
        }
        VP_ASSERT(r == exp, "classification");
        VP_ASSERT(sends == s && recvs == x, "attempts and receptions");
        VP_ASSERT(vp_live == 0, "temporary memory is released");
        if (single) {
            VP_ASSERT(addr_of != NULL, "address of the reply");
            for (i = 0; i < 16; i++) VP_ASSERT(addr[i] == rxaddr[i], "the full address of the slave");
            VP_ASSERT(addr[16] == 0 && addr[17] == 'x', "full address, terminated");
            VP_ASSERT(found == (IN.ev & 1) && (!found || foundok), "found event");
            VP_REACH("single");
        } else { VP_ASSERT(found == 0, "no found event"); }
        if (exp == MBUS_PROBE_COLLISION) VP_REACH("collision");
        if (exp == MBUS_PROBE_NOTHING) VP_REACH("nothing");
        if (exp == MBUS_PROBE_ERROR) VP_REACH("error");
        s = sends;
        VP_ASSERT(mbus_probe_secondary_address(h, NULL, addr) == MBUS_PROBE_ERROR && mbus_probe_secondary_address(h, m, NULL) == MBUS_PROBE_ERROR && mbus_probe_secondary_address(h, "1234", addr) == MBUS_PROBE_ERROR && sends == s, "missing arguments");
        return 0;
#endif
#ifdef READ
        mbus_address a;
        static mbus_frame reply;
        memset(&a, 0, sizeof a);
        a.is_primary = IN.ev & 1;
        VP_ASSUME(IN.sendfail >= 0 && IN.sendfail < 100);
        for (i = 0; i < 16; i++) m[i] = 'F';
        m[16] = 0;
        if (a.is_primary) a.primary = IN.addr; else a.secondary = m;
        int r = mbus_read_slave(h, &a, &reply), s = 0, x = 0, exp = -1;
        if (a.is_primary) {
            if (IN.addr >= 0 && IN.addr <= 255) {
                VP_ASSERT(sends == 1 && sent_ctl[0] == 0x5B && sent_addr[0] == IN.addr, "request");
                s = 1;
                if (IN.sendfail != 0) { x = 1; if (IN.res[0] == 0) exp = 0; }
            }
        } else {
            VP_ASSERT(sends >= 1 && sent_ctl[0] == 0x73, "selection");
            s = 1;
            if (IN.sendfail != 0) {
                x = 1;
                int sel = IN.res[0] == 0 && IN.ftype[0] == MBUS_FRAME_TYPE_ACK;
                if (sel || IN.res[0] == 1) { while (x < K && IN.res[x] <= 1) { x++; sel = 0; } x++; }
                if (sel) {
                    s = 2;
                    VP_ASSERT(sends == 2 && sent_ctl[1] == 0x5B && sent_addr[1] == 0xFD, "request of the selected slave");
                    if (IN.sendfail != 1) { int q = x < K ? IN.res[x] : 2; x++; if (q == 0) exp = 0; }
                }
            }
        }
        VP_ASSERT(r == exp && sends == s && recvs == x, "reading a slave");
        VP_ASSERT(vp_live == 0, "temporary memory is released");
        if (exp == 0) VP_REACH("read"); else VP_REACH("not read");
        VP_ASSERT(mbus_read_slave(NULL, &a, &reply) == -1 && mbus_read_slave(h, NULL, &reply) == -1, "missing arguments");
        a.is_primary = 0; a.secondary = NULL;
        VP_ASSERT(mbus_read_slave(h, &a, &reply) == -1, "no address");
        return 0;
#endif
    }
#endif
    return 0;
}
