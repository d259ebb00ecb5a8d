/* C35: printing and dumping.
 *   MODE 0 mbus_frame_print: frames of TYPE with N payload bytes (CHAIN: two of them)
 *   MODE 1 mbus_hex_dump of N bytes; the two dump events
 *   MODE 2 record printing (mbus_frame_data_print of variable data)
 *   MODE 3 fixed data, error data, header, other types
 *   MODE 4 a frame that cannot be packed
 *   MODE 5 parsing with debug output
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
struct IN { u8 d[N ? N : 1]; u8 c, a, ci; u32 err; u8 f[16], h[12], de[10], ve[10], vif; u16 k; };
#ifndef VP_S_WIDTH
#define VP_S_WIDTH 24
#endif
#ifndef VP_CAPTURE
#define VP_CAPTURE 2600
#endif
#include "vp_input.h"

static size_t pos;
static const u8 hexu[] = "0123456789ABCDEF";
/* the captured text continues with t */
static void text(const char *t, size_t n) { for (size_t i = 0; i < n; i++) VP_ASSERT(vp_cap[pos + i] == t[i], "printed text"); pos += n; }
#define lit(t) text(t, sizeof(t) - 1)
static void hex2(u8 v) { VP_ASSERT(vp_cap[pos] == hexu[v >> 4] && vp_cap[pos + 1] == hexu[v & 15], "printed byte"); pos += 2; }
static void hexs(u8 v) { hex2(v); VP_ASSERT(vp_cap[pos] == ' ', "separator"); pos++; }
static char num[40];
/* numbers and texts, printed as the library's printf prints them */
static void dec(int v) { text(num, (size_t)vp_snprintf(num, sizeof num, "%d", v)); }
static void zu(size_t v) { text(num, (size_t)vp_snprintf(num, sizeof num, "%zu", v)); }
static void str(const char *s) { text(num, (size_t)vp_snprintf(num, sizeof num, "%s", s)); }

#if MODE == 2
int mbus_data_variable_header_print(mbus_data_variable_header *h) { vp_printf("HEADER\n"); return -1; }
#endif
#ifdef VP_ENC
const char *mbus_decode_manufacturer(u8 b1, u8 b2) { return "ABC"; }
const char *mbus_data_variable_medium_lookup(u8 m) { return "Heat"; }
const char *mbus_data_fixed_medium(mbus_data_fixed *d) { return "Water"; }
const char *mbus_data_fixed_unit(int u) { return "m^3"; }
const char *mbus_data_fixed_function(int s) { return "Actual"; }
#endif

int main(void)
{
    VP_INPUT;
#if MODE == 0
    static mbus_frame f[2];
    unsigned n = TYPE == MBUS_FRAME_TYPE_ACK ? 1 : TYPE == MBUS_FRAME_TYPE_SHORT ? 5 : 9 + N;
    for (int i = 0; i < 2; i++) {
        f[i].type = TYPE;
        f[i].start1 = TYPE == MBUS_FRAME_TYPE_ACK ? 0xE5 : TYPE == MBUS_FRAME_TYPE_SHORT ? 0x10 : 0x68;
        f[i].start2 = 0x68; f[i].stop = 0x16;
        f[i].control = IN.c; f[i].address = IN.a + i; f[i].control_information = IN.ci;
        f[i].data_size = N;
        for (size_t k = 0; k < N; k++) f[i].data[k] = IN.d[k] + i;
    }
#ifdef TYPE2      /* the second one is short */
    f[1].type = MBUS_FRAME_TYPE_SHORT; f[1].start1 = 0x10;
    f[0].next = &f[1];
#endif
    static u8 exp0[2][9 + N];
    for (int i = 0; i < 2; i++) {
        u8 s = (TYPE == MBUS_FRAME_TYPE_SHORT || (i && f[1].type == MBUS_FRAME_TYPE_SHORT)) ? 5 : 0;
        u8 *e = exp0[i], cs = IN.c + (u8)(IN.a + i);
        if (TYPE == MBUS_FRAME_TYPE_ACK && !s) e[0] = 0xE5;
        else if (s) { e[0] = 0x10; e[1] = IN.c; e[2] = IN.a + i; e[3] = cs; e[4] = 0x16; }
        else {
            e[0] = e[3] = 0x68; e[1] = e[2] = 3 + N; e[4] = IN.c; e[5] = IN.a + i; e[6] = IN.ci; cs += IN.ci;
            for (size_t k = 0; k < N; k++) { e[7 + k] = IN.d[k] + i; cs += (u8)(IN.d[k] + i); }
            e[7 + N] = cs; e[8 + N] = 0x16;
        }
    }
    VP_ASSERT(mbus_frame_print(&f[0]) == 0, "a frame is printed");
    size_t len1 = vp_cap_len, n1 = n;
#ifdef TYPE2
    /* last line first: five bytes of the second frame */
    pos = len1 - 16;
    for (int k = 0; k < 5; k++) hexs(exp0[1][k]);
    lit("\n");
    /* the first line is what printing the first frame alone gives */
    f[0].next = NULL;
    VP_ASSERT(mbus_frame_print(&f[0]) == 0, "a frame is printed");
    size_t l1 = vp_cap_len - len1;
    pos = l1 - 3 * n - 1;
    for (size_t k = 0; k < n; k++) hexs(exp0[0][k]);
    lit("\n");
#else
    pos = len1 - 3 * n1 - 1;
    for (size_t k = 0; k < n; k++) hexs(exp0[0][k]);
    lit("\n");
    VP_ASSERT(mbus_frame_print(NULL) != 0, "no frame");
    VP_ASSERT(vp_cap_len == len1, "nothing is printed without a frame");
#endif
#elif MODE == 4
    static mbus_frame f;
    f.type = (int)IN.err; f.data_size = N;
    for (size_t k = 0; k < N && k < 252; k++) f.data[k] = IN.d[k];
    f.next = NULL;
#if N <= 252
    VP_ASSUME(f.type != MBUS_FRAME_TYPE_ACK && f.type != MBUS_FRAME_TYPE_SHORT && f.type != MBUS_FRAME_TYPE_CONTROL && f.type != MBUS_FRAME_TYPE_LONG);
#else
    f.type = MBUS_FRAME_TYPE_LONG; f.start1 = f.start2 = 0x68; f.stop = 0x16;
#endif
    VP_ASSERT(mbus_frame_print(&f) != 0, "a frame that cannot be packed is an error");
#elif MODE == 1
    char *buf = malloc(N ? N : 1);
    VP_ASSUME(buf != NULL);
    for (size_t k = 0; k < N; k++) buf[k] = (char)IN.d[k];
    const char *label = "LABEL";
#if EVENT == 1
    mbus_dump_recv_event(1, buf, N); label = "RECV";
#elif EVENT == 2
    mbus_dump_send_event(1, buf, N); label = "SEND";
#else
    mbus_hex_dump(label, buf, N);
#endif
    VP_ASSERT(vp_cap_len > 3 * N + 1, "printed");
    char want[16];
    vp_snprintf(want, sizeof want, " (%03zu):", (size_t)N);
    char lab[40];
    size_t nl = (size_t)vp_snprintf(lab, sizeof lab, "%s", label);
    pos = vp_cap_len - 3 * N - 1 - 7 - nl;
    text(lab, nl); text(want, 7);
    for (size_t k = 0; k < N; k++) { lit(" "); hex2((u8)buf[k]); }
    lit("\n");
    size_t l = vp_cap_len;
    mbus_hex_dump(NULL, buf, N);
    mbus_hex_dump(label, NULL, N);
    VP_ASSERT(vp_cap_len == l, "nothing to dump");
    free(buf);
#elif MODE == 2
    static mbus_frame_data fd;
    static mbus_data_record r[2];
    fd.type = MBUS_DATA_TYPE_VARIABLE;
    fd.data_var.record = &r[0]; fd.data_var.nrecords = 2;
    r[0].next = &r[1]; r[1].next = NULL;
    for (int i = 0; i < 2; i++) {
        r[i].drh.dib.dif = i ? DIF1 : DIF0; r[i].drh.dib.ndife = i ? 1 : NDIFE; r[i].drh.vib.vif = IN.vif ^ i; r[i].drh.vib.nvife = i ? 1 : NVIFE;
        r[i].data_len = i ? 2 : N;
        for (size_t k = 0; k < 10; k++) { r[i].drh.dib.dife[k] = IN.de[k] + i; r[i].drh.vib.vife[k] = IN.ve[k] ^ i; }
        for (size_t k = 0; k < N; k++) r[i].data[k] = IN.d[k] + i;
    }
    mbus_frame_data_print(&fd);
    pos = 0;
    lit("HEADER\n");
    for (int i = 0; i < 2; i++) {
        u8 dif = i ? DIF1 : DIF0, vif = IN.vif ^ i;
        lit("Record ID         = "); dec(i);
        lit("\nDIF               = "); hex2(dif);
        lit("\nDIF.Extension     = "); str(dif & 0x80 ? "Yes" : "No");
        lit("\nDIF.StorageNumber = "); dec(dif >> 6 & 1);
        lit("\nDIF.Function      = "); str(dif & 0x30 ? "Value during error state" : "Instantaneous value");
        lit("\nDIF.Data          = "); hex2(dif & 15);
        lit("\n");
        if (dif == 0x0F || dif == 0x1F) {
            /* "<function>: VENDOR DATA" */
            while (vp_cap[pos] != ':') pos++;
            lit(": VENDOR DATA [size="); zu(r[i].data_len); lit("] = ");
            for (size_t k = 0; k < r[i].data_len; k++) hexs(IN.d[k] + i);
            lit("\n");
            if (dif == 0x1F) { while (vp_cap[pos] != ':') pos++; lit(": More records follow in next telegram\n"); }
            continue;
        }
        lit("DATA LENGTH = "); zu(r[i].data_len);
        lit("\n");
        for (size_t k = 0; k < r[i].drh.dib.ndife; k++) {
            u8 v = IN.de[k] + i;
            lit("DIFE["); zu(k); lit("]               = "); hex2(v);
            lit("\nDIFE["); zu(k); lit("].Extension     = ");
            str(v & 0x80 ? "Yes" : "No");
            lit("\nDIFE["); zu(k); lit("].Device        = "); dec(v >> 6 & 1);
            lit("\nDIFE["); zu(k); lit("].Tariff        = "); dec(v >> 4 & 3);
            lit("\nDIFE["); zu(k); lit("].StorageNumber = "); hex2(v & 15);
            lit("\n");
        }
        lit("VIF           = "); hex2(vif);
        lit("\nVIF.Extension = "); str(vif & 0x80 ? "Yes" : "No");
        lit("\nVIF.Value     = "); hex2(vif & 0x7F);
        lit("\n");
        for (size_t k = 0; k < r[i].drh.vib.nvife; k++) {
            u8 v = IN.ve[k] ^ i;
            lit("VIFE["); zu(k); lit("]           = "); hex2(v);
            lit("\nVIFE["); zu(k); lit("].Extension = "); str(v & 0x80 ? "Yes" : "No");
            lit("\nVIFE["); zu(k); lit("].Value     = "); hex2(v & 0x7F);
            lit("\n");
        }
        lit("\n");
    }
    VP_ASSERT(pos == vp_cap_len, "nothing else");
#elif MODE == 3
    static mbus_frame_data fd;
    fd.type = TYPE;
    fd.error = (int)IN.err;
    mbus_data_fixed *x = &fd.data_fix;
    memcpy(x->id_bcd, IN.f, 4); x->tx_cnt = IN.f[4]; x->status = (IN.f[5] & 0x7F) | STFMT; x->cnt1_type = IN.f[6]; x->cnt2_type = IN.f[7];
    memcpy(x->cnt1_val, IN.f + 8, 4); memcpy(x->cnt2_val, IN.f + 12, 4);
    mbus_data_variable_header *h = &fd.data_var.header;
    if (TYPE == MBUS_DATA_TYPE_VARIABLE) {
        memcpy(h->id_bcd, IN.h, 4); memcpy(h->manufacturer, IN.h + 4, 2); h->version = IN.h[6]; h->medium = IN.h[7]; h->access_no = IN.h[8]; h->status = IN.h[9];
        memcpy(h->signature, IN.h + 10, 2);
    }
    mbus_frame_data_print(&fd);
    VP_ASSERT((vp_prints > 0) == (TYPE == MBUS_DATA_TYPE_VARIABLE || TYPE == MBUS_DATA_TYPE_FIXED || TYPE == MBUS_DATA_TYPE_ERROR), "known data is printed");
    long p = vp_prints;
    mbus_frame_data_print(NULL); mbus_data_variable_print(NULL); mbus_data_fixed_print(NULL); mbus_data_variable_header_print(NULL);
    VP_ASSERT(vp_prints == p, "nothing to print");
#elif MODE == 5
    u8 *b = malloc(N ? N : 1);
    VP_ASSUME(b != NULL);
    for (size_t k = 0; k < N; k++) b[k] = IN.d[k];
    static mbus_frame f, g;
    int r0 = mbus_parse(&f, b, N);
    VP_ASSERT(vp_prints == 0, "no debug output unless asked for");
    mbus_parse_set_debug(1);
    int r1 = mbus_parse(&g, b, N);
    VP_ASSERT(r0 == r1 && f.type == g.type && f.data_size == g.data_size && f.control == g.control && f.address == g.address, "debug output changes nothing");
    free(b);
#endif
    VP_REACH("printed");
    return 0;
}
