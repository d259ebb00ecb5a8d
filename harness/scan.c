/* C25: scanning for secondary addresses.  The bus holds two devices; probing a
 * mask is replaced by what C24 establishes of it.
 *   MASKSTR   the caller's mask (concrete), START the position given
 *   DIG(i)    the digits of the devices are symbolic at the wildcards and fixed at position CMP
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
struct IN { u8 d[2][8], present[2]; int err; u8 ev, pr; char m[20]; int pos; u8 mn; };
#define VP_LIGHT_FMT
#define VP_STR_MAX 20
#ifdef FAILAT
#define VP_MAY_FAIL
#endif
#define VP_TYPED_ALLOC
#include "vp_input.h"
extern long vp_prints;
static const char MS[] = MASKSTR;
static int probes, hits[2], errs, progress, events, badprobe;
static int wild(int c) { return c == 'F' || c == 'f'; }
static int dev_matches(int k, const char *m)
{
    int ok = IN.present[k];
    for (int i = 0; i < 8; i++) if (!wild(m[i]) && m[i] != '0' + IN.d[k][i]) ok = 0;
    return ok;
}
static int last_wild(const char *m) { int r = -1; for (int i = 0; i < 8; i++) if (wild(m[i])) r = i; return r; }
int mbus_probe_secondary_address(mbus_handle *h, const char *m, char *matching)
{
    int i, tail = 0;
#ifdef BADARG
    VP_ASSERT(0, "nothing is probed");
    VP_ASSUME(0);
#endif
    /* the digits of the identification tell devices apart, so there is no reason
     * to narrow the rest (where single digits cannot be wildcards on the bus) */
    for (i = 8; i < 16; i++) if (wild(MS[i]) && !wild(m[i])) tail = 1;
    if (tail) {
        VP_ASSERT(0, "without a collision the mask is not narrowed");
        VP_ASSUME(0);
    }
    VP_ASSERT(errs == 0, "an error ends the scan");
    VP_ASSERT(strlen(m) == 16 && matching != NULL, "a mask is probed");
    for (i = 0; i < 16; i++) {
        if (!wild(MS[i])) VP_ASSERT(m[i] == MS[i], "positions that are no wildcard keep the digits of the mask");
        else VP_ASSERT(wild(m[i]) || (m[i] >= '0' && m[i] <= '9'), "wildcards are narrowed to digits");
    }
    if (probes++ == IN.err) { errs++; return MBUS_PROBE_ERROR; }
    int a = dev_matches(0, m), b = dev_matches(1, m);
    if (last_wild(m) >= 0) {                /* concrete: two devices cannot share all the digits */
        if (a && b) return MBUS_PROBE_COLLISION;
    }
    if (!a && !b) return MBUS_PROBE_NOTHING;
    if (a) hits[0]++;
    if (b) hits[1]++;
    for (i = 0; i < 16; i++) matching[i] = i < 8 ? '0' + IN.d[a ? 0 : 1][i] : '7';
    matching[16] = 0;
    if (h->found_event) h->found_event(h, NULL);
    return MBUS_PROBE_SINGLE;
}
static void on_found(mbus_handle *h, mbus_frame *f) { events++; }
static void on_progress(mbus_handle *h, const char *m) { progress++; }
int main(void)
{
    VP_INPUT;
    static mbus_handle H;
    mbus_handle *h = &H;
    char m[20];
    int i, k;
#ifdef BADARG
    VP_ASSUME(IN.err == -1 && !IN.present[0] && !IN.present[1]);
    for (i = 0; i < 18; i++) m[i] = IN.mn == i ? 0 : 'F';
    m[18] = 0;
    VP_ASSERT(mbus_scan_2nd_address_range(NULL, 0, m) == -1 && mbus_scan_2nd_address_range(h, 0, NULL) == -1 && probes == 0, "missing arguments");
    VP_ASSUME(IN.mn < 16);
    VP_ASSERT(mbus_scan_2nd_address_range(h, IN.pos, m) == -1 && probes == 0, "a mask that is not 16 characters long");
    for (i = 0; i < 18; i++) m[i] = 'F';
    VP_ASSERT(mbus_scan_2nd_address_range(h, IN.pos, m) == -1 && probes == 0, "a mask that is too long");
    m[16] = 0;
    VP_ASSUME(IN.pos < 0 || IN.pos >= 16);
    VP_ASSERT(mbus_scan_2nd_address_range(h, IN.pos, m) == 0 && probes == 0, "no position, no probe");
    VP_ASSERT(vp_live == 0, "temporary memory is released");
    VP_REACH("refused");
    return 0;
#else
    VP_ASSUME(IN.err >= -1);
#ifndef ERR
    VP_ASSUME(IN.err == -1);
#endif
    for (k = 0; k < 2; k++) {
        VP_ASSUME(IN.present[k] <= 1);
        for (i = 0; i < 8; i++) VP_ASSUME(IN.d[k][i] <= 9);
    }
    /* two devices that the mask matches differ in a wildcard digit */
    int diff = 0;
    for (i = 0; i < 8; i++) if (wild(MS[i]) && IN.d[0][i] != IN.d[1][i]) diff = 1;
    VP_ASSUME(diff || !dev_matches(0, MS) || !dev_matches(1, MS));
    for (i = 0; i < 17; i++) m[i] = MS[i];
    if (IN.ev & 1) H.found_event = on_found;
    if (IN.pr & 1) H.scan_progress = on_progress;
#ifdef FAILAT
    vp_fail_at = FAILAT;
#endif
    int before = dev_matches(0, m), before1 = dev_matches(1, m);
    int r = mbus_scan_2nd_address_range(h, START, m);
    for (i = 0; i < 17; i++) VP_ASSERT(m[i] == MS[i], "the caller's mask is not modified");
    VP_ASSERT(vp_live == 0, "temporary memory is released");
#ifdef FAILAT
    if (vp_nalloc > FAILAT) { VP_ASSERT(r != 0, "no memory is an error"); VP_REACH("no memory"); }
    return 0;
#endif
    if (errs) {
        VP_ASSERT(r != 0, "an error on the line ends the scan with an error");
#ifdef ERR
        VP_REACH("error");
#endif
        return 0;
    }
    VP_ASSERT(r == 0, "the scan ends");
    VP_ASSERT(hits[0] == before && hits[1] == before1, "every device the mask matches is reported exactly once, no other");
    if (IN.pr & 1) VP_ASSERT(progress == probes, "progress is reported for each probe");
    if (!(IN.ev & 1)) VP_ASSERT(!!vp_prints == !!(hits[0] + hits[1]), "without an event the devices are printed");
#ifndef FAILAT
    VP_REACH("scanned");
#endif
#if !defined(NOWILD)
    if (hits[0] && hits[1]) VP_REACH("two devices");
#endif
#ifndef FAILAT
    if (hits[0] + hits[1] == 0) VP_REACH("none");
#endif
    return 0;
#endif
}
