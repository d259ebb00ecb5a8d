/* C18: secondary addresses.
 *   MASK   validity and selection frame of every string of up to 18 characters
 *   GET    address text of a reply, and the selection packed from it
 *   ODD    replies that have no address
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
struct IN { u8 m[18]; u8 h[12]; u8 ctl, ci, adr, n, rec[6]; };
#define VP_STR_MAX 40
#define VP_QUIET_ERRORS
#ifdef FAILAT
#define VP_MAY_FAIL
#endif
#define VP_TYPED_ALLOC
#include "vp_input.h"
static int isx(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
static int hexv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10; }
int main(void)
{
    VP_INPUT;
    int i;
    static mbus_frame f, g;
#ifdef MASK
    char m[20];
    int ok = 1;
    for (i = 0; i < 18; i++) m[i] = IN.m[i];
    m[18] = 0;
    for (i = 0; i < 16; i++) if (!isx(IN.m[i])) ok = 0;
    if (IN.m[16]) ok = 0;
    int r = mbus_is_secondary_address(m);
    VP_ASSERT(ok ? r != 0 : r == 0, "accepted exactly when it is 16 hexadecimal digits");
    VP_ASSERT(mbus_is_secondary_address(NULL) == 0, "no address");
    f.type = MBUS_FRAME_TYPE_LONG;
    r = mbus_frame_select_secondary_pack(&f, m);
    if (!ok) { VP_ASSERT(r != 0, "an invalid mask is refused"); VP_REACH("refused"); return 0; }
    VP_ASSERT(r == 0, "a valid mask is packed");
    VP_ASSERT(f.control == 0x73 || f.control == 0x53, "SND_UD to the slave");
    VP_ASSERT(f.address == 0xFD && f.control_information == 0x52 && f.data_size == 8, "selection frame");
    for (i = 0; i < 4; i++) VP_ASSERT(f.data[3 - i] == (u8)(hexv(m[2 * i]) << 4 | hexv(m[2 * i + 1])), "identification, least significant byte first");
    for (i = 4; i < 8; i++) VP_ASSERT(f.data[i] == (u8)(hexv(m[2 * i]) << 4 | hexv(m[2 * i + 1])), "manufacturer, version, medium");
    VP_ASSERT(mbus_frame_select_secondary_pack(NULL, m) != 0 && mbus_frame_select_secondary_pack(&f, NULL) != 0, "missing arguments");
    VP_REACH("packed");
#endif
#ifdef GET
    f.type = MBUS_FRAME_TYPE_LONG;
    f.control = IN.ctl & ~0x40;
    f.address = IN.adr;
    f.control_information = 0x72;
    f.data_size = 12 + GET;
    for (i = 0; i < 12; i++) f.data[i] = IN.h[i];
    for (i = 0; i < GET; i++) f.data[12 + i] = IN.rec[i];
#if GET == 3
    f.data[12] = 0x01; f.data[13] = 0x13;            /* one record */
#elif GET == 1
    f.data[12] = 0x1F;                               /* more records follow */
#endif
#ifdef FAILAT
    vp_fail_at = FAILAT;
#endif
    char *a = mbus_frame_get_secondary_address(&f);
    VP_ASSERT(vp_live == 0, "temporary memory is released");
#ifdef FAILAT
    VP_REACH("no memory");
    if (FAILAT == 0) VP_ASSERT(a == NULL, "no memory, no address");
    if (a == NULL) return 0;
#endif
    VP_ASSERT(a != NULL, "a variable data reply has an address");
    if (a) {
        static const char hx[] = "0123456789ABCDEF";
        for (i = 0; i < 4; i++) VP_ASSERT(hexv(a[2 * i]) == IN.h[3 - i] >> 4 && hexv(a[2 * i + 1]) == (IN.h[3 - i] & 15), "identification");
        for (i = 4; i < 8; i++) VP_ASSERT(hexv(a[2 * i]) == IN.h[i] >> 4 && hexv(a[2 * i + 1]) == (IN.h[i] & 15), "manufacturer, version, medium");
        VP_ASSERT(a[16] == 0, "terminated");
        VP_ASSERT(mbus_is_secondary_address(a) != 0, "it is a valid address");
        VP_ASSERT(mbus_frame_select_secondary_pack(&g, a) == 0, "it can be selected");
        for (i = 0; i < 8; i++) VP_ASSERT(g.data[i] == IN.h[i], "it selects that meter");
    }
#ifndef FAILAT
    VP_REACH("address");
#endif
#endif
#ifdef ODD
    f.type = MBUS_FRAME_TYPE_LONG;
    f.control = IN.ctl;
    f.control_information = IN.ci;
    f.data_size = ODD;
    for (i = 0; i < 12; i++) f.data[i] = IN.h[i];
    char *a = mbus_frame_get_secondary_address(&f);
    VP_ASSERT(vp_live == 0, "temporary memory is released");
    if (IN.ci == 0x72 && !(IN.ctl & 0x40) && ODD == 12) {
        VP_ASSERT(a != NULL, "an address");
#if ODD == 12
        VP_REACH("address");
#endif
    }
    else { VP_ASSERT(a == NULL, "a reply without an address"); VP_REACH("none"); }
    VP_ASSERT(mbus_frame_get_secondary_address(NULL) == NULL && vp_live == 0, "no frame");
#endif
    return 0;
}
