/* C16: what XML says.  The texts come from stubs (their contents are C09..C13,
 * C27..C30); they hold characters that need escaping.  Numbers are symbolic.
 *   REC   one record: DIF, NDIFE, FRAME, STAMP and TARIFF concrete
 *   HDR   a header; the identification has IDDIG digits
 *   FIX   fixed data with the status' format bit FMT
 *   ERR   a general application error
 *   DOCV  variable data of two records; DOCN normalised (KINDS: n, t or -) */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#ifndef IDDIG
#define IDDIG 8
#endif
struct IN { int cnt, err; u8 dif, dife[3], vif, d[24]; u64 num[2], sto[2]; u32 dev[2]; u8 st; };
#define VP_STR_MAX 80
#define VP_QUIET_ERRORS
#define VP_OWN_ALLOC
#define VP_HEX_EXACT IDDIG
#if defined(KINDS) && defined(VP_ENC)
/* an escaped text is known by the text it was made from (escaping: C14) */
static const unsigned char *enc_src, *enc_dst;
#define VP_PTR_TOKEN(s) ((const unsigned char *)(s) == enc_dst ? (const void *)enc_src : (const void *)0)
#endif
#include "vp_input.h"
char *mbus_data_variable_record_xml(mbus_data_record *, int, int, mbus_data_variable_header *);
char *mbus_data_variable_header_xml(mbus_data_variable_header *);
#define PI MBUS_XML_PROCESSING_INSTRUCTION
#if VP_CBMC
#define DOCSZ 1000
void *vp_malloc(size_t n)
{
    vp_nalloc++; vp_live++;
    char *p = malloc(n < DOCSZ ? n : DOCSZ);
    __CPROVER_assume(p != 0);
    return p;
}
void *vp_calloc(size_t a, size_t b) { char *p = vp_malloc(a * b); memset(p, 0, a * b); return p; }
void vp_free(void *p) { if (p) { vp_live--; free(p); } }
void *vp_realloc(void *p, size_t n) { if (!p) return vp_malloc(n); VP_MODEL(0, "these documents never grow"); return p; }
#endif
static char want[1000];
static size_t n;
#define W(...) (n += snprintf(want + n, sizeof want - n, __VA_ARGS__))
static void compare(const char *x)
{
    VP_ASSERT(x != NULL, "a text");
    for (size_t i = 0; i < sizeof want; i++) {
        VP_ASSERT(x[i] == want[i], "the element shows what it names");
        if (!want[i]) break;
    }
}
/* a value of exactly IDDIG hexadecimal digits */
static void digits(const u8 *d)
{
    u64 v = (u64)d[3] << 24 | (u64)d[2] << 16 | (u64)d[1] << 8 | d[0];
    VP_ASSUME(IDDIG == 8 ? v >> 28 : IDDIG == 1 ? v < 16 : (v >> (4 * IDDIG)) == 0 && (v >> (4 * IDDIG - 4)) != 0);
}
static void hexdigits(const u8 *d)
{
    for (int i = IDDIG; i-- > 0; ) want[n++] = "0123456789ABCDEF"[(d[i / 2] >> (i & 1 ? 4 : 0)) & 15];
}
#ifdef REC
static mbus_data_record R;
#define SPECIAL (DIF == 0x0F ? 1 : DIF == 0x1F ? 2 : 0)
long mbus_data_record_tariff(mbus_data_record *r) { VP_ASSERT(r == &R, "the record"); return TARIFF; }
int mbus_data_record_device(mbus_data_record *r) { VP_ASSERT(r == &R, "the record"); return (int)IN.dev[0]; }
const char *mbus_data_record_function(mbus_data_record *r) { VP_ASSERT(r == &R, "the record"); return "F<1>"; }
const char *mbus_data_record_unit(mbus_data_record *r) { VP_ASSERT(r == &R, "the record"); return "U&\"m\xB3\""; }
const char *mbus_data_record_value(mbus_data_record *r) { VP_ASSERT(r == &R, "the record"); return "v>\x01z&amp;"; }
#elif defined(HDR)
static mbus_data_variable_header H;
const char *mbus_decode_manufacturer(unsigned char a, unsigned char b) { VP_ASSERT(a == H.manufacturer[0] && b == H.manufacturer[1], "the manufacturer"); return "ABZ"; }
const char *mbus_data_product_name(mbus_data_variable_header *h) { VP_ASSERT(h == &H, "the header"); return "A&B <c>"; }
const char *mbus_data_variable_medium_lookup(unsigned char m) { VP_ASSERT(m == H.medium, "the medium"); return "me\"dium"; }
#elif defined(FIX)
#define FMT (ST >> 7)
static mbus_frame_data D;
static int units;
const char *mbus_data_fixed_medium(mbus_data_fixed *d) { VP_ASSERT(d == &D.data_fix, "the data"); return "me\"dium"; }
const char *mbus_data_fixed_function(int s) { VP_ASSERT((s & 0xFF) == D.data_fix.status, "the status"); return "F<1>"; }
const char *mbus_data_fixed_unit(int u) { VP_ASSERT((u & 0xFF) == (units ? D.data_fix.cnt2_type : D.data_fix.cnt1_type), "the counter's unit"); return units++ ? "U2&" : "U1&m"; }
#elif defined(ERR)
const char *mbus_data_error_lookup(int e) { VP_ASSERT(e == IN.err, "the code"); return "E<&>"; }
#else
static mbus_frame_data D;
static mbus_data_record R0, R1;
char *mbus_data_variable_header_xml(mbus_data_variable_header *h) { VP_ASSERT(h == &D.data_var.header, "the header"); return "<H/>\n"; }
#ifdef DOCV
char *mbus_data_variable_record_xml(mbus_data_record *r, int c, int f, mbus_data_variable_header *h)
{
    VP_ASSERT(f < 0, "no telegram number");
    VP_ASSERT(c == (r == &R0 ? 0 : 1), "numbered in order");
    return r == &R0 ? "<R0/>\n" : "<R1/>\n";
}
#else
static const char KIND[] = KINDS;
static char TF[] = "F1", TU0[] = "m^3", TU1[] = "U", TQ[] = "Q", TV0[] = "va0", TV1[] = "value1";
#if VP_CBMC
int mbus_str_xml_encode(unsigned char *dst, const unsigned char *src, size_t max) { enc_src = src; enc_dst = dst; return 0; }
static void put_text(const char *s) { struct vp_out o = { want, sizeof want, n }; vp_token(&o, 's', (unsigned long long)(size_t)s); n = o.pos; }
#else
int mbus_str_xml_encode(unsigned char *dst, const unsigned char *src, size_t max) { strcpy((char *)dst, (const char *)src); return 0; }
static void put_text(const char *s) { W("%s", s); }
#endif
static mbus_record *nr[2];
mbus_record *mbus_parse_variable_record(mbus_data_record *r)
{
    int k = r == &R0 ? 0 : 1;
    union { u64 u; double d; } x;
    VP_ASSERT(r == &R0 || r == &R1, "a record");
    if (KIND[k] == '-') return NULL;
    mbus_record *m = nr[k];
    m->function_medium = TF; m->unit = k ? TU1 : TU0; m->quantity = TQ;
    m->storage_number = (long)IN.sto[k];
    m->tariff = KIND[k] == 'N' || KIND[k] == 'T' ? (k ? 0 : 1048575) : -1;
    m->device = (int)IN.dev[k];
    m->is_numeric = KIND[k] == 'n' || KIND[k] == 'N';
    x.u = IN.num[k];
    if (m->is_numeric) m->value.real_val = x.d; else { m->value.str_val.value = k ? TV1 : TV0; m->value.str_val.size = k ? 6 : 3; }
    return m;
}
static int released[2];
void mbus_record_free(mbus_record *m) { if (m) released[m == nr[0] ? 0 : 1]++; }
#endif
#endif

int main(void)
{
    VP_INPUT;
    int i;
    char *x;
#ifdef REC
    R.drh.dib.dif = DIF;
    R.drh.dib.ndife = NDIFE;
    for (i = 0; i < NDIFE; i++) R.drh.dib.dife[i] = IN.dife[i];
    R.drh.vib.vif = IN.vif;
    R.timestamp = (time_t)STAMP;
    static mbus_data_variable_header h;
    if (FRAME >= 0) W("    <DataRecord id=\"%d\" frame=\"%d\">\n", IN.cnt, FRAME); else W("    <DataRecord id=\"%d\">\n", IN.cnt);
    if (SPECIAL) W("        <Function>%s</Function>\n", SPECIAL == 1 ? "Manufacturer specific" : "More records follow");
    else {
        W("        <Function>F&lt;1&gt;</Function>\n        <StorageNumber>%ld</StorageNumber>\n", mbus_data_record_storage_number(&R));
        if (TARIFF >= 0) W("        <Tariff>%ld</Tariff>\n        <Device>%d</Device>\n", (long)TARIFF, (int)IN.dev[0]);
        W("        <Unit>U&amp;&quot;m\xB3&quot;</Unit>\n");
    }
    W("        <Value>v&gt; z&amp;amp;</Value>\n");
    if (STAMP > 0) W("        <Timestamp>1970-01-01T00:00:00Z</Timestamp>\n");
    W("    </DataRecord>\n\n");
    compare(mbus_data_variable_record_xml(&R, IN.cnt, FRAME, &h));
    VP_ASSERT(*mbus_data_variable_record_xml(NULL, IN.cnt, FRAME, &h) == 0, "no record");
#elif defined(HDR)
    for (i = 0; i < 4; i++) H.id_bcd[i] = IN.d[i];
    digits(H.id_bcd);
    H.manufacturer[0] = IN.d[4]; H.manufacturer[1] = IN.d[5]; H.version = IN.d[6]; H.medium = IN.d[7];
    H.access_no = IN.d[8]; H.status = IN.d[9]; H.signature[0] = IN.d[10]; H.signature[1] = IN.d[11];
    W("    <SlaveInformation>\n        <Id>"); hexdigits(IN.d);
    W("</Id>\n        <Manufacturer>ABZ</Manufacturer>\n");
    W("        <Version>%d</Version>\n", IN.d[6]);
    W("        <ProductName>A&amp;B &lt;c&gt;</ProductName>\n        <Medium>me&quot;dium</Medium>\n");
    W("        <AccessNumber>%d</AccessNumber>\n", IN.d[8]);
    W("        <Status>%02X</Status>\n        <Signature>%02X%02X</Signature>\n    </SlaveInformation>\n\n", IN.d[9], IN.d[11], IN.d[10]);
    compare(mbus_data_variable_header_xml(&H));
    VP_ASSERT(*mbus_data_variable_header_xml(NULL) == 0, "no header");
#elif defined(FIX)
    D.type = MBUS_DATA_TYPE_FIXED;
    for (i = 0; i < 4; i++) { D.data_fix.id_bcd[i] = IN.d[i]; D.data_fix.cnt1_val[i] = IN.d[4 + i]; D.data_fix.cnt2_val[i] = IN.d[8 + i]; }
    D.data_fix.tx_cnt = IN.d[12]; D.data_fix.status = ST;
    D.data_fix.cnt1_type = IN.d[14]; D.data_fix.cnt2_type = IN.d[15];
    digits(IN.d);
    if (!FMT) { digits(IN.d + 4); digits(IN.d + 8); }
    W(PI "<MBusData>\n\n    <SlaveInformation>\n        <Id>"); hexdigits(IN.d);
    W("</Id>\n        <Medium>me&quot;dium</Medium>\n        <AccessNumber>%d</AccessNumber>\n        <Status>%02X</Status>\n    </SlaveInformation>\n\n", D.data_fix.tx_cnt, D.data_fix.status);
    for (i = 0; i < 2; i++) {
        const u8 *c = IN.d + 4 + 4 * i;
        W("    <DataRecord id=\"");
        want[n++] = '0' + i;
        W("\">\n        <Function>F&lt;1&gt;</Function>\n        <Unit>%s</Unit>\n        <Value>", i ? "U2&amp;" : "U1&amp;m");
        if (FMT) W("%d", (int)((u32)c[3] << 24 | (u32)c[2] << 16 | (u32)c[1] << 8 | c[0])); else hexdigits(c);
        W("</Value>\n    </DataRecord>\n\n");
    }
    W("</MBusData>\n");
    x = VIA_NORM ? mbus_frame_data_xml_normalized(&D) : mbus_frame_data_xml(&D);
    compare(x);
    vp_free(x);
    VP_ASSERT(vp_live == 0, "nothing else is left");
    VP_ASSERT(mbus_data_fixed_xml(NULL) == NULL, "no data");
#elif defined(ERR)
    static mbus_frame_data d;
    d.type = MBUS_DATA_TYPE_ERROR; d.error = IN.err;
    W(PI "<MBusData>\n\n    <SlaveInformation>\n        <Error>E&lt;&amp;&gt;</Error>\n    </SlaveInformation>\n\n</MBusData>\n");
    x = mbus_frame_data_xml(&d);
    compare(x);
    vp_free(x);
    VP_ASSERT(vp_live == 0, "nothing else is left");
    d.type = IN.cnt;
    VP_ASSUME(IN.cnt != MBUS_DATA_TYPE_ERROR && IN.cnt != MBUS_DATA_TYPE_FIXED && IN.cnt != MBUS_DATA_TYPE_VARIABLE);
    VP_ASSERT(mbus_frame_data_xml(&d) == NULL && mbus_frame_data_xml_normalized(&d) == NULL, "data of no known type has no document");
    VP_ASSERT(mbus_frame_data_xml(NULL) == NULL && mbus_frame_data_xml_normalized(NULL) == NULL, "no data");
#else
    D.type = MBUS_DATA_TYPE_VARIABLE;
    D.data_var.record = &R0; D.data_var.nrecords = 2;
    R0.next = &R1;
    W(PI "<MBusData>\n\n<H/>\n");
#ifdef DOCV
    W("<R0/>\n<R1/>\n");
    W("</MBusData>\n");
    x = mbus_frame_data_xml(&D);
#else
    static mbus_record m0, m1, t0, t1;
    nr[0] = KIND[0] == 'n' || KIND[0] == 'N' ? &m0 : &t0;
    nr[1] = KIND[1] == 'n' || KIND[1] == 'N' ? &m1 : &t1;
    for (i = 0; i < 2; i++) {
        union { u64 u; double d; } y;
        y.u = IN.num[i];
        /* numbers whose native rendering is not that of another */
        VP_ASSUME((IN.num[i] >> 52 & 0x7FF) != 0x7FF);
        VP_ASSUME(IN.dev[i] <= 0x7fffffff && IN.sto[i] <= 0x7fffffff);
        W("    <DataRecord id=\"%zu\">\n", (size_t)i);
        if (KIND[i] != '-') {
            W("        <Function>"); put_text(TF); W("</Function>\n        <StorageNumber>%ld</StorageNumber>\n", (long)IN.sto[i]);
            if (KIND[i] == 'N' || KIND[i] == 'T') W("        <Tariff>%ld</Tariff>\n        <Device>%d</Device>\n", (long)(i ? 0 : 1048575), (int)IN.dev[i]);
            W("        <Unit>"); put_text(i ? TU1 : TU0); W("</Unit>\n        <Quantity>"); put_text(TQ); W("</Quantity>\n        <Value>");
            if (KIND[i] == 'n' || KIND[i] == 'N') W("%f", y.d); else put_text(i ? TV1 : TV0);
            W("</Value>\n");
        }
        W("    </DataRecord>\n\n");
    }
    W("</MBusData>\n");
    x = mbus_frame_data_xml_normalized(&D);
    for (i = 0; i < 2; i++) VP_ASSERT(released[i] == (KIND[i] != '-'), "every normalised record is released once");
#endif
    compare(x);
    vp_free(x);
    VP_ASSERT(vp_live == 0, "nothing else is left");
#endif
    VP_REACH("end");
    return 0;
}
