/* C33: normalised records.
 * VAR  a variable record with data field DF (concrete), data length LEN for 0Dh/0Fh
 * FIX  a fixed record
 * The scaling by unit is C27/C28; here it is replaced by its contract unless
 * REALVIF names a VIF to go through it.  FAILAT: that allocation fails. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#ifndef LEN
#define LEN 8
#endif
struct IN { u8 dif, vif, vife[3], nvife, ndife, dife[3], st, unit; u8 d[LEN + 8]; u64 u; u8 rc, has; };
#define VP_STR_MAX (3 * LEN + 40)
#define VP_QUIET_ERRORS
#define VP_PAD_FIT
#ifdef FAILAT
#define VP_MAY_FAIL
#endif
#include "vp_input.h"
static mbus_data_record R;
static char want[3 * LEN + 64];
static const char HX[] = "0123456789ABCDEF";
static double given;
static int asked;
static mbus_value_information_block *given_vib;
static long given_val;
static int given_unit;
static double scaled(void) { union { u64 u; double d; } x; x.u = IN.u; return x.d; }
static int same(double a, double b) { union { u64 u; double d; } x, y; x.d = a; y.d = b; return x.u == y.u || (a != a && b != b) || a == b; }
#ifdef FAILAT   /* which block is requested when is the library's business */
#undef VP_REACH
#define VP_REACH(m) do { } while (0)
#define VP_END(m) VP_END_(m)
#ifdef VP_ENC
#define VP_END_(msg) __CPROVER_assert(0, "REACH: " msg)
#else
#define VP_END_(msg) vp_reached(msg)
#endif
#else
#define VP_END(m) do { } while (0)
#endif
#if !defined(REALVIF) && !defined(FIX)
/* the scaling: success with a unit, a quantity and a value; failure with or
 * without the texts; texts that could not be allocated are missing */
int mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **u, double *v, char **q)
{
    VP_ASSERT(vib != NULL && u != NULL && v != NULL && q != NULL, "arguments");
    asked++; given = value; given_vib = vib;
    if (IN.rc & 1 && !(IN.has & 1)) return -1;
    *u = vp_strdup(IN.rc & 1 ? "Unknown" : "unit <1>");
    *q = vp_strdup(IN.rc & 1 ? "Unknown" : "quantity");
    *v = IN.rc & 1 ? 0.0 : scaled();
    return IN.rc & 1 ? -1 : 0;
}
#endif
#ifdef FIX
int mbus_fixed_normalize(int unit, long value, char **u, double *v, char **q)
{
    VP_ASSERT(u != NULL && v != NULL && q != NULL, "arguments");
    asked++; given_unit = unit & 0x3F; given_val = value;
    *u = vp_strdup(IN.rc & 1 ? "Unknown" : "unit <1>");
    *q = vp_strdup(IN.rc & 1 ? "Unknown" : "quantity");
    *v = IN.rc & 1 ? 0.0 : scaled();
    return IN.rc & 1 ? (IN.has & 1 ? -1 : -2) : 0;
}
#endif
static void same_text(const char *a, const char *b, size_t max, const char *unused)
{
    (void)unused;
    VP_ASSERT(a != NULL && b != NULL, "the text is present");
    for (size_t i = 0; i < max; i++) {
        VP_ASSERT(a[i] == b[i], "the text");
        if (!b[i]) break;
    }
}
static int run(void)
{
    mbus_record *n;
#ifdef FAILAT
    vp_fail_at = FAILAT;
#endif
#ifdef FIX
    {
        u8 d[4];
        int x;
        for (x = 0; x < 4; x++) d[x] = IN.d[x];
        n = mbus_parse_fixed_record((char)IN.st, (char)IN.unit, d);
        if (n == NULL) {
#ifndef FAILAT
            VP_ASSERT(IN.rc & 1, "a fixed record of a known unit is normalised");
#endif
            VP_ASSERT(vp_live == 0, "nothing is left behind");
            VP_REACH("failed");
            return 0;
        }
#ifndef FAILAT
        VP_ASSERT(!(IN.rc & 1), "an unknown unit fails");
#endif
        long v;
        if (IN.st & 0x80) { mbus_data_int_decode(d, 4, &x); v = x; VP_REACH("binary"); } else { v = (long)mbus_data_bcd_decode(d, 4); VP_REACH("BCD"); }
        VP_ASSERT(asked == 1 && given_val == v, "the counter is scaled");
        VP_ASSERT(given_unit == (IN.unit & 0x3F), "by its unit");
        VP_ASSERT(n->is_numeric, "numeric");
        VP_ASSERT(same(n->value.real_val, scaled()), "the scaled counter");
        same_text(n->function_medium, mbus_data_fixed_function(IN.st), 40, "");
        if (n->unit) same_text(n->unit, "unit <1>", 12, "");
        if (n->quantity) same_text(n->quantity, "quantity", 12, "");
#ifndef FAILAT
        VP_ASSERT(n->unit && n->quantity, "unit and quantity");
#endif
        mbus_record_free(n);
        VP_ASSERT(vp_live == 0, "every block is released");
        VP_REACH("done");
        return 0;
    }
#else
    mbus_data_record *r = &R;
    int i, k = 0, text = 0, x, ok = 1;
    long long q = 0;
    double num = 0.0;
    r->drh.dib.dif = (IN.dif & 0xF0) | DF;
    int special = r->drh.dib.dif == 0x0F || r->drh.dib.dif == 0x1F;
#if DF == 15
#ifdef NOSPECIAL
    VP_ASSUME(!special);
#else
    VP_ASSUME(special);
#endif
#endif
    r->drh.vib.vif = IN.vif;
    VP_ASSUME(IN.nvife <= 3 && IN.ndife <= 3 && ((IN.vif & 0x80) ? IN.nvife >= 1 : IN.nvife == 0));
    VP_ASSUME(((IN.dif & 0x80) != 0) == (IN.ndife > 0));
#ifdef REALVIF
    r->drh.vib.vif = REALVIF;
    IN.nvife = REALVIF >= 0x80 ? 1 : 0;
    VP_ASSUME(IN.d[0] < 10);
    IN.vife[0] = REALVIFE;
    r->drh.vib.custom_vif[0] = 'x'; r->drh.vib.custom_vif[1] = 0;
#endif
    r->drh.vib.nvife = IN.nvife;
    for (i = 0; i < 3; i++) r->drh.vib.vife[i] = i < IN.nvife ? IN.vife[i] : 0;
    r->drh.dib.ndife = IN.ndife;
    for (i = 0; i < 3; i++) r->drh.dib.dife[i] = i < IN.ndife ? IN.dife[i] : 0;
    for (i = 0; i < LEN; i++) r->data[i] = IN.d[i];
    u8 v7 = IN.vif & 0x7F, e7 = IN.vife[0] & 0x7F;
#ifdef REALVIF
    v7 = REALVIF & 0x7F; e7 = IN.vife[0] & 0x7F;
#endif
    int point = v7 == 0x6D || (r->drh.vib.vif == 0xFD && (e7 == 0x30 || e7 == 0x70));
    struct tm t;
    u8 d[LEN + 8];
    for (i = 0; i < LEN; i++) d[i] = IN.d[i];
    (void)point; (void)t; (void)x; (void)q; (void)k; (void)HX;
#if DF == 0
    r->data_len = 0; text = 1; want[0] = 0;
#elif DF == 8
    r->data_len = 0; ok = 0;
#elif DF == 1 || DF == 3
    r->data_len = DF; mbus_data_int_decode(d, DF, &x); num = x;
#elif DF == 7
    r->data_len = 8; mbus_data_long_long_decode(d, 8, &q); num = q;
#elif DF == 2
    r->data_len = 2;
    if (v7 == 0x6C) {
        mbus_data_tm_decode(&t, d, 2); text = 1;
        snprintf(want, sizeof want, "%04d-%02d-%02d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday);
    } else { mbus_data_int_decode(d, 2, &x); num = x; }
#elif DF == 4 || DF == 6
    r->data_len = DF;
    if (point) {
        mbus_data_tm_decode(&t, d, DF); text = 1;
        snprintf(want, sizeof want, "%04d-%02d-%02dT%02d:%02d:%02dZ", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec);
    } else { mbus_data_long_long_decode(d, DF, &q); num = q; }
#elif DF == 5
    r->data_len = 4; num = mbus_data_float_decode(d);
#elif DF == 9 || DF == 10 || DF == 11 || DF == 12 || DF == 14
    x = DF == 14 ? 6 : DF - 8;
    r->data_len = x; num = mbus_data_bcd_decode(d, x);
#elif DF == 13
    r->data_len = LEN; text = 1;
#ifdef TEXT
    VP_ASSUME(IN.d[0] <= 0xBF);
    for (i = 0; i + 1 < LEN; i++) want[i] = IN.d[LEN - 1 - i];
    want[LEN - 1] = 0;
#else
    VP_ASSUME(IN.d[0] >= 0xC0);
    for (i = LEN; i-- > 1; ) { if (k) want[k++] = ' '; want[k++] = HX[IN.d[i] >> 4]; want[k++] = HX[IN.d[i] & 15]; }
#endif
#else
    r->data_len = LEN; text = 1;
    for (i = LEN; i-- > 0; ) { if (k) want[k++] = ' '; want[k++] = HX[IN.d[i] >> 4]; want[k++] = HX[IN.d[i] & 15]; }
#endif
    n = mbus_parse_variable_record(r);
    if (n == NULL) {
#if !defined(FAILAT) && !defined(REALVIF)
        VP_ASSERT(!ok || (IN.rc & 1), "a record that can be decoded and scaled is normalised");
#endif
#if defined(REALVIF)
        VP_ASSERT(REALFAILS, "a record of a known unit is normalised");
#endif
        VP_ASSERT(vp_live == 0, "nothing is left behind");
#if !(defined(REALVIF) && !REALFAILS) && !(DF == 15 && !defined(NOSPECIAL))
        VP_REACH("failed");
#endif
    } else {
#if DF == 8
        VP_ASSERT(0, "a record without a decodable value fails");
#else
        VP_ASSERT(ok, "a record without a decodable value fails");
        VP_ASSERT(n->storage_number == mbus_data_record_storage_number(r), "storage number");
        VP_ASSERT(n->tariff == mbus_data_record_tariff(r), "tariff");
        VP_ASSERT(n->device == mbus_data_record_device(r), "device");
        if (special) {
            same_text(n->function_medium, r->drh.dib.dif == 0x0F ? "Manufacturer specific" : "More records follow", 40, "");
            VP_ASSERT(n->unit == NULL && n->quantity == NULL, "no unit");
        } else {
            same_text(n->function_medium, mbus_data_record_function(r), 40, "");
#ifndef REALVIF
            VP_ASSERT(!(IN.rc & 1), "an unknown unit fails");
            VP_ASSERT(asked == 1 && given_vib == &r->drh.vib, "the value is scaled by the record's unit");
            if (!text) VP_ASSERT(same(given, num), "the decoded number is scaled");
            if (n->unit) same_text(n->unit, "unit <1>", 12, "");
            if (n->quantity) same_text(n->quantity, "quantity", 12, "");
#ifndef FAILAT
            VP_ASSERT(n->unit && n->quantity, "unit and quantity");
#endif
#else
            {
                char *u = NULL, *qq = NULL;
                double z = 0;
                VP_ASSERT(mbus_vib_unit_normalize(&r->drh.vib, num, &u, &z, &qq) == 0 && !REALFAILS, "scaling");
                same_text(n->unit, u, 60, ""); same_text(n->quantity, qq, 60, "");
                if (!text) VP_ASSERT(same(n->value.real_val, z), "the scaled number");
                vp_free(u); vp_free(qq);
            }
#endif
        }
        VP_ASSERT((n->is_numeric != 0) == !text, "the numeric flag tells which value is present");
        if (text) {
            same_text(n->value.str_val.value, want, sizeof want, "");
#if DF == 0 || DF == 2 || DF == 4 || DF == 6 || DF > 14 || DF == 13
            VP_REACH("text");
#endif
        }
#ifndef REALVIF
        else if (!special) { VP_ASSERT(same(n->value.real_val, scaled()), "the scaled number"); }
#endif
        mbus_record_free(n);
        VP_ASSERT(vp_live == 0, "every block is released");
        VP_REACH("done");
#endif
    }
    VP_ASSERT(mbus_parse_variable_record(NULL) == NULL, "no record");
    return 0;
#endif
}
int main(void)
{
    VP_INPUT;
    run();
    VP_END("end");
    return 0;
}
