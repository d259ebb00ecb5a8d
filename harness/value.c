/* C12: the value text of a record.  DF is the data field of the DIF; LEN the length
 * of its data where the DIF does not give it (0Dh, 0Fh); LVAR limits its first byte. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#ifndef LEN
#define LEN 8
#endif
struct IN { u8 dif, vif, vife[3], nvife, ndife, dife[3], next, cut; u8 d[LEN + 8]; u16 k; };
#define VP_STR_MAX (3 * LEN + 40)
#define VP_QUIET_ERRORS
#define VP_PAD_FIT
#include "vp_input.h"
static mbus_data_record R;
static char want[3 * LEN + 64];
static const char HX[] = "0123456789ABCDEF";
int main(void)
{
    VP_INPUT;
    size_t i, n = 0;
    mbus_data_record *r = &R;
    R.drh.dib.dif = (IN.dif & 0xF0) | DF;
    R.drh.vib.vif = IN.vif;
    VP_ASSUME(IN.nvife <= 3 && IN.ndife <= 3 && ((IN.vif & 0x80) ? IN.nvife >= 1 : IN.nvife == 0));
    R.drh.vib.nvife = IN.nvife;
    for (i = 0; i < 3; i++) R.drh.vib.vife[i] = i < IN.nvife ? IN.vife[i] : 0;
    R.drh.dib.ndife = IN.ndife;
    for (i = 0; i < 3; i++) R.drh.dib.dife[i] = i < IN.ndife ? IN.dife[i] : 0;
    for (i = 0; i < LEN; i++) R.data[i] = IN.d[i];
    u8 v7 = IN.vif & 0x7F, e7 = IN.vife[0] & 0x7F;
    int point = v7 == 0x6D || (IN.vif == 0xFD && (e7 == 0x30 || e7 == 0x70)), err = (R.drh.dib.dif & 0x30) == 0x30;
    struct tm t;
    int w = 0, x;
    long long q;
    u8 d[LEN + 8];
    for (i = 0; i < LEN; i++) d[i] = IN.d[i];
    (void)point; (void)err; (void)t; (void)x; (void)q; (void)d; (void)w;
#if DF == 0 || DF == 8
    R.data_len = 0;
#elif DF == 1 || DF == 3 || DF == 7
    R.data_len = DF == 7 ? 8 : DF;
    mbus_data_long_long_decode(d, R.data_len, &q);
    snprintf(want, sizeof want, "%lld", q);
#elif DF == 2
    R.data_len = 2;
    if (v7 == 0x6C) {
        mbus_data_tm_decode(&t, d, 2);
        snprintf(want, sizeof want, "%04d-%02d-%02d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday);
        VP_REACH("date");
    } else { mbus_data_long_long_decode(d, 2, &q); snprintf(want, sizeof want, "%lld", q); VP_REACH("number"); }
#elif DF == 4 || DF == 6
    R.data_len = DF;
    if (point) {
        mbus_data_tm_decode(&t, d, DF);
        snprintf(want, sizeof want, "%04d-%02d-%02dT%02d:%02d:%02d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec);
        VP_REACH("time");
    } else { mbus_data_long_long_decode(d, DF, &q); snprintf(want, sizeof want, "%lld", q); VP_REACH("number"); }
#elif DF == 5
    R.data_len = 4;
    snprintf(want, sizeof want, "%f", (double)mbus_data_float_decode(d));
#elif DF == 9 || DF == 10 || DF == 11 || DF == 12 || DF == 14
    w = DF == 14 ? 6 : DF - 8;
    R.data_len = w;
    if (err) {
        q = 0;
        for (x = w - 1; x >= 0; x--) q = q << 8 | IN.d[x];
        snprintf(want, sizeof want, "%llX", q);
        VP_REACH("error state");
    } else { snprintf(want, sizeof want, "%lld", mbus_data_bcd_decode(d, w)); VP_REACH("BCD"); }
#elif DF == 13
    R.data_len = LEN;
#ifdef TEXT
    VP_ASSUME(IN.d[0] <= 0xBF);
    for (i = 0; i + 1 < LEN; i++) want[i] = IN.d[LEN - 1 - i];
    want[LEN - 1] = 0;
#else
    VP_ASSUME(IN.d[0] >= 0xC0);
    for (i = LEN; i-- > 1; ) { if (n) want[n++] = ' '; want[n++] = HX[IN.d[i] >> 4]; want[n++] = HX[IN.d[i] & 15]; }
#endif
#else
    R.data_len = LEN;
    for (i = LEN; i-- > 0; ) { if (n) want[n++] = ' '; want[n++] = HX[IN.d[i] >> 4]; want[n++] = HX[IN.d[i] & 15]; }
#endif
    const char *v = mbus_data_record_value(r);
    VP_ASSERT(v != NULL, "a record has a value text");
#if DF != 8
    for (i = 0; i < sizeof want; i++) {
        VP_ASSERT(v[i] == want[i], "the value text is the data decoded by its type");
        if (!want[i]) break;
    }
#else
    for (i = 0; i < 40; i++) if (!v[i]) break;
    VP_ASSERT(i < 40, "terminated");
#endif
    VP_ASSERT(mbus_data_record_value(NULL) == NULL, "no record");
    VP_REACH("end");
    return 0;
}
