/* C15: XML never leaves its buffer, whatever the lengths of the texts.
 * In the encoding a text is its length: formatted output computes how much it
 * writes and asks whether the target has that much, and escaped texts, headers
 * and records have symbolic lengths.  The native replay writes real texts of
 * those lengths (AddressSanitizer judges them).
 *   DOC=0 mbus_frame_data_xml of variable data, 1 mbus_frame_xml of two telegrams,
 *   DOC=2 mbus_frame_data_xml_normalized          with up to NREC records
 *   PART=0 record, 1 header, 2 fixed data, 3 error: every length of their texts */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#ifndef NREC
#define NREC 1
#endif
#define RB 2800                    /* longest record; shown by PART=0 */
#define HB 2200                    /* longest header; shown by PART=1 */
struct IN { u16 rlen[NREC], hlen, elen[4 * NREC + 8], cnt0, cnt1; u8 flags[NREC], kind, d[24]; int failat, frame, id, err; u64 ts; u8 dif, vif, dife; u16 cut; };
#define VP_OWN_SNPRINTF
#define VP_OWN_ALLOC
#define VP_OWN_TIME
#define VP_STR_MAX 80
#include "vp_input.h"
char *mbus_data_variable_record_xml(mbus_data_record *, int, int, mbus_data_variable_header *);
char *mbus_data_variable_header_xml(mbus_data_variable_header *);
static size_t doclen;              /* what the current document holds so far */
static int pieces, hdrs, encs;
static char recbuf[RB + 1], hdrbuf[HB + 1];
static size_t reclen, hdrlen, enclen;
static unsigned char *encdst;
static mbus_data_record R0[NREC], R1[NREC];
static int freed0, freed1, expect;
#if defined(DOC) && DOC == 1
void mbus_data_record_free(mbus_data_record *r)
{
    if (r == NULL) return;
    VP_ASSERT(r == R0 || r == R1, "a list of records is released");
    if (r == R0) freed0++; else freed1++;
}
#endif
#if VP_CBMC
/* the document lives in one of two places, of which only `cap' bytes exist;
 * growing it moves it to the other place (contents are lengths: nothing to copy) */
#define ARENA (1 << 18)
static char A[ARENA], B[ARENA];
static size_t cap;
static int inB, isdoc;
static int in_doc(const void *s) { return isdoc && __CPROVER_POINTER_OBJECT(s) == (inB ? __CPROVER_POINTER_OBJECT(B) : __CPROVER_POINTER_OBJECT(A)); }
static int in_arena(const void *s) { return __CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(B) || __CPROVER_POINTER_OBJECT(s) == __CPROVER_POINTER_OBJECT(A); }
void *vp_malloc(size_t n)
{
    if (vp_nalloc++ == IN.failat) return 0;
    VP_MODEL(!isdoc && n < ARENA, "one document");
    vp_live++; isdoc = 1; cap = n;
    return A;
}
void *vp_calloc(size_t a, size_t b) { return vp_malloc(a * b); }
void vp_free(void *p)
{
    if (!p) return;
    VP_ASSERT(in_doc(p) && __CPROVER_POINTER_OFFSET(p) == 0, "the document is released");
    vp_live--; isdoc = 0;
}
void *vp_realloc(void *p, size_t n)
{
    if (!p) return vp_malloc(n);
    VP_ASSERT(in_doc(p) && __CPROVER_POINTER_OFFSET(p) == 0, "the document grows");
    if (vp_nalloc++ == IN.failat) return 0;
    VP_MODEL(n < ARENA, "size of the document");
    cap = n; inB = !inB;
    return inB ? B : A;
}
static size_t lit(const char *s)
{
    size_t k = 0;
    while (k < VP_STR_MAX && s[k]) k++;
    VP_MODEL(s[k] == 0, "literal within the modelled length");
    return k;
}
#ifdef PART   /* the longest a number can be */
#define DIGITS(v) ((v) < 0 ? 20 : 19)
#else
static int digits(long long x) { int n = x < 0 ? 2 : 1; u64 v = x < 0 ? 0ull - (u64)x : (u64)x, p = 10; for (int k = 0; k < 19; k++, p *= 10) if (v >= p) n++; return n; }
#define DIGITS(v) digits(v)
#endif
int vp_snprintf(char *s, size_t n, const char *f, ...)
{
    va_list ap;
    size_t len = 0;
    if (f[0] == '%' && f[1] == 's' && f[2] == ':') { VP_ASSERT(n == 0 || __CPROVER_w_ok(s, 1), "message target"); return 0; }
    va_start(ap, f);
    for (; *f; f++) {
        if (*f != '%') { len++; continue; }
        f++;
        int lng = 0;
        while ((*f >= '0' && *f <= '9') || *f == '.') f++;
        while (*f == 'l' || *f == 'z') { lng = 1; f++; }
        switch (*f) {
        case 'd': case 'u': { long long v = lng ? va_arg(ap, long) : va_arg(ap, int); len += DIGITS(v); break; }
        case 'X': if (lng) { va_arg(ap, long); len += 16; } else { va_arg(ap, int); len += 2; } break;
        case 'f': { va_arg(ap, double); len += 317; break; }
        case 's': {
            char *p = va_arg(ap, char *);
            if (p == recbuf) { VP_ASSERT(hdrs == 1, "the header first"); VP_ASSERT(pieces + 1 == expect, "each record once, in order"); pieces++; len += reclen; }
            else if (p == hdrbuf) { VP_ASSERT(pieces == 0 && hdrs == 0, "the header once, first"); hdrs++; len += hdrlen; }
            else if ((unsigned char *)p == encdst) len += enclen;
            else len += lit(p);
            break; }
        case '%': len++; break;
        default: VP_MODEL(0, "unmodelled conversion");
        }
    }
    va_end(ap);
    size_t w = len + 1 < n ? len + 1 : n, off = __CPROVER_POINTER_OFFSET(s);
    if (in_arena(s)) {
        VP_ASSERT(in_doc(s), "the document has moved");
        VP_ASSERT(off <= cap && w <= cap - off, "formatted text stays inside the document");
    } else VP_ASSERT(__CPROVER_w_ok(s, w), "formatted text stays inside its buffer");
#if !defined(PART) || PART > 1
    if (in_arena(s))
#endif
    {
        VP_ASSERT(n > len, "nothing is cut off");
        VP_ASSERT(off == doclen, "text is appended to what is there");
        doclen += len;
    }
    return (int)len;
}
int vp_sprintf(char *s, const char *f, ...) { VP_MODEL(0, "sprintf"); return 0; }
int vp_vsnprintf(char *s, size_t n, const char *f, va_list ap) { VP_MODEL(0, "vsnprintf"); return 0; }
struct tm *vp_gmtime(const time_t *t) { static struct tm z; return &z; }
struct tm *vp_gmtime_r(const time_t *t, struct tm *r) { return r; }
size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *t)
{
    VP_ASSERT(__CPROVER_w_ok(s, n), "the timestamp's buffer");
    if (n < 21) return 0;
    for (int k = 0; k < 20; k++) s[k] = 'T';
    s[20] = 0;
    return 20;
}
time_t vp_now;
time_t (vp_time)(time_t *t) { return 0; }
#else
#undef snprintf
#undef vsnprintf
#undef gmtime
#undef strftime
time_t vp_now;
time_t (vp_time)(time_t *t) { return 0; }
struct tm *vp_gmtime(const time_t *t) { static struct tm z; z.tm_year = 70; z.tm_mday = 1; return &z; }
struct tm *vp_gmtime_r(const time_t *t, struct tm *r) { return r; }
size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *t) { if (n < 21) return 0; memset(s, 'T', 20); s[20] = 0; return 20; }
#endif

/* an escaped text: any length its buffer admits (C14) */
int mbus_str_xml_encode(unsigned char *dst, const unsigned char *src, size_t max)
{
    size_t l = IN.elen[encs < 4 * NREC + 8 ? encs : 0];
    VP_ASSERT(dst != NULL && max > 0, "a target");
    VP_MODEL(encs < 4 * NREC + 8, "number of escaped texts");
    encs++;
    if (l >= max) l = max - 1;
#if VP_CBMC
    VP_ASSERT(__CPROVER_w_ok(dst, max), "the capacity of an escaped text");
#else
    memset(dst, 'e', max); dst[l] = 0;
#endif
    encdst = dst; enclen = l;
    return 0;
}
#ifdef DOC
char *mbus_data_variable_header_xml(mbus_data_variable_header *h)
{
    hdrlen = IN.hlen;
#if !VP_CBMC
    memset(hdrbuf, 'h', hdrlen); hdrbuf[hdrlen] = 0;
#endif
    return hdrbuf;
}
#if DOC < 2
char *mbus_data_variable_record_xml(mbus_data_record *r, int cnt, int frame, mbus_data_variable_header *h)
{
    VP_ASSERT(r == (cnt < IN.cnt0 ? R0 + cnt : R1 + (cnt - IN.cnt0)), "records in order, numbered");
    VP_ASSERT(cnt == expect, "numbered consecutively");
    expect++;
    reclen = cnt < NREC ? IN.rlen[cnt] : IN.rlen[cnt - NREC];
#if !VP_CBMC
    memset(recbuf, 'a' + cnt % 26, reclen); recbuf[reclen] = 0;
#endif
    return recbuf;
}
#else
/* the normalised record: text or number, or none */
static mbus_record nrec;
static int nlive;
mbus_record *mbus_parse_variable_record(mbus_data_record *r)
{
    int k = (int)(r - R0);
    VP_ASSERT(k == expect, "records in order");
    expect++;
    if (IN.flags[k] & 1) return NULL;
    VP_ASSERT(!nlive, "one at a time");
    nlive = 1;
    nrec.function_medium = "f"; nrec.unit = "u"; nrec.quantity = "q";
    nrec.storage_number = 0x7fffffffffffffffL; nrec.tariff = IN.flags[k] & 2 ? 0x7fffffff : -1; nrec.device = 0x7fffffff;
    nrec.is_numeric = (IN.flags[k] & 4) != 0;
    if (nrec.is_numeric) nrec.value.real_val = -1.7976931348623157e308; else { nrec.value.str_val.value = "v"; nrec.value.str_val.size = 1; }
    return &nrec;
}
void mbus_record_free(mbus_record *r) { if (r) { VP_ASSERT(r == &nrec && nlive, "released once"); nlive = 0; } }
#endif
#if DOC == 1
static int parsed;
int mbus_frame_data_parse(mbus_frame *f, mbus_frame_data *d)
{
    int k = parsed++;
    VP_MODEL(k < 2, "two telegrams");
    d->type = MBUS_DATA_TYPE_VARIABLE;
    d->data_var.record = k == 0 ? (IN.cnt0 ? R0 : NULL) : (IN.cnt1 ? R1 : NULL);
    d->data_var.nrecords = k == 0 ? IN.cnt0 : IN.cnt1;
    return 0;
}
#endif
#elif PART == 0
const char *mbus_data_record_value(mbus_data_record *r) { return "v"; }
const char *mbus_data_record_unit(mbus_data_record *r) { return "u"; }
const char *mbus_data_record_function(mbus_data_record *r) { return "f"; }
#elif PART == 1
const char *mbus_data_product_name(mbus_data_variable_header *h) { return "p"; }
const char *mbus_data_variable_medium_lookup(unsigned char m) { return "m"; }
#elif PART == 2
const char *mbus_data_fixed_medium(mbus_data_fixed *d) { return "m"; }
const char *mbus_data_fixed_unit(int u) { return "u"; }
#endif

static void finish(char *x, int n0, int n1)
{
    int i;
#ifdef DOC
#if DOC == 1
    VP_ASSERT(freed0 == (n0 > 0), "the records are released once");
    VP_ASSERT(freed1 <= (n1 > 0), "no record is released twice");
    VP_ASSERT(freed1 == (n1 > 0 && parsed > 1), "the records are released once");
#endif
#endif
    if (x == NULL) {
        VP_ASSERT(IN.failat >= 0 && IN.failat < vp_nalloc, "a document");
        VP_ASSERT(vp_live == 0, "nothing is left behind");
        VP_REACH("no memory");
        return;
    }
    VP_ASSERT(vp_live == 1, "the document is the only thing left");
#ifdef DOC
    VP_ASSERT(expect == n0 + n1, "every record is rendered");
#if VP_CBMC
    VP_ASSERT(__CPROVER_POINTER_OFFSET(x) == 0, "the document");
#if DOC < 2
    VP_ASSERT(pieces == n0 + n1, "every record is in the document");
#endif
    VP_ASSERT(hdrs == 1, "the header is in the document");
#else
    size_t o = strlen(x), w = 0;
    VP_ASSERT(o >= 12 && memcmp(x + o - 12, "</MBusData>\n", 12) == 0, "the document is complete");
#if DOC < 2
    w = strlen(MBUS_XML_PROCESSING_INSTRUCTION) + strlen("<MBusData>\n\n");
    for (i = 0; i < (int)IN.hlen; i++) VP_ASSERT(x[w + i] == 'h', "the header is in the document");
    w += IN.hlen;
    for (i = 0; i < n0 + n1; i++) {
        size_t l = i < NREC ? IN.rlen[i] : IN.rlen[i - NREC], j;
        for (j = 0; j < l; j++) VP_ASSERT(x[w + j] == 'a' + i % 26, "every record is in the document");
        w += l;
    }
    VP_ASSERT(w + 12 == o, "nothing else");
#endif
#endif
#endif
    VP_REACH("document");
    vp_free(x);
}

int main(void)
{
    VP_INPUT;
    int i;
    char *x;
    VP_ASSUME(IN.failat >= -1 && IN.failat <= 12);
#if !VP_CBMC
    vp_fail_at = IN.failat;
#endif
#ifdef DOC
    VP_ASSUME(IN.cnt0 <= NREC && IN.cnt1 <= NREC && IN.hlen <= HB);
    for (i = 0; i < NREC; i++) {
        VP_ASSUME(IN.rlen[i] <= RB);
        R0[i].next = i + 1 < NREC && i + 1 < IN.cnt0 ? &R0[i + 1] : NULL;
        R1[i].next = i + 1 < NREC && i + 1 < IN.cnt1 ? &R1[i + 1] : NULL;
    }
#if DOC == 1
    static mbus_frame f, g;
    f.next = &g;
    x = mbus_frame_xml(&f);
    finish(x, IN.cnt0, IN.cnt1);
#else
    static mbus_frame_data d;
    d.type = MBUS_DATA_TYPE_VARIABLE;
    d.data_var.record = IN.cnt0 ? R0 : NULL;
    d.data_var.nrecords = IN.cnt0;
    VP_ASSUME(IN.cnt1 == 0);
#if DOC == 0
    x = mbus_frame_data_xml(&d);
#else
    x = mbus_frame_data_xml_normalized(&d);
    VP_ASSERT(!nlive, "every normalised record is released");
#endif
    finish(x, IN.cnt0, 0);
#endif
#elif PART == 0
    {
        mbus_data_record *r = &R0[0];
        VP_ASSUME(IN.ts < (1ull << 40));
        r->drh.dib.dif = IN.dif; r->drh.vib.vif = IN.vif; r->timestamp = (time_t)IN.ts;
        r->drh.dib.ndife = IN.dif & 0x80 ? 1 : 0; r->drh.dib.dife[0] = IN.dife;
        static mbus_data_variable_header h;
        x = mbus_data_variable_record_xml(r, IN.id, IN.frame, &h);
#if VP_CBMC
        VP_ASSERT(doclen <= RB, "the longest record");
#else
        VP_ASSERT(strlen(x) <= RB, "the longest record");
#endif
        VP_REACH("record");
    }
#elif PART == 1
    {
        static mbus_data_variable_header h;
        for (i = 0; i < 4; i++) h.id_bcd[i] = IN.d[i];
        h.manufacturer[0] = IN.d[4]; h.manufacturer[1] = IN.d[5]; h.version = IN.d[6]; h.medium = IN.d[7];
        h.access_no = IN.d[8]; h.status = IN.d[9];
        x = mbus_data_variable_header_xml(&h);
#if VP_CBMC
        VP_ASSERT(doclen <= HB, "the longest header");
#else
        VP_ASSERT(strlen(x) <= HB, "the longest header");
#endif
        VP_REACH("header");
    }
#elif PART == 2
    {
        static mbus_frame_data d;
        d.type = MBUS_DATA_TYPE_FIXED;
        for (i = 0; i < 4; i++) { d.data_fix.id_bcd[i] = IN.d[i]; d.data_fix.cnt1_val[i] = IN.d[4 + i]; d.data_fix.cnt2_val[i] = IN.d[8 + i]; }
        d.data_fix.status = IN.d[12];
        x = IN.kind & 1 ? mbus_frame_data_xml(&d) : mbus_frame_data_xml_normalized(&d);
        finish(x, 0, 0);
    }
#else
    {
        static mbus_frame_data d;
        d.type = MBUS_DATA_TYPE_ERROR; d.error = IN.err;
        x = mbus_frame_data_xml(&d);
        finish(x, 0, 0);
    }
#endif
    return 0;
}
