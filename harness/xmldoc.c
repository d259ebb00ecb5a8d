/* C17: rendering a chain of telegrams.  The data parser, the header and the
 * record texts are their contracts (C04/C05, C16): short texts that tell whose
 * they are.  KINDS: "v2 v1 f" ... one digit pair per telegram: kind, records.
 * FAILAT: that allocation fails. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
static const char KIND[] = KINDS;          /* 'v', 'f' or 'e' per telegram */
static const int NREC[] = { RECS };
#define NF ((int)sizeof KIND - 1)
struct IN { u8 prc[4], part[4]; u8 k; };
#define VP_STR_MAX 80
#define VP_QUIET_ERRORS
#define VP_OWN_ALLOC
#define VP_TYPED_ALLOC
#include "vp_input.h"
char *mbus_data_variable_record_xml(mbus_data_record *, int, int, mbus_data_variable_header *);
char *mbus_data_variable_header_xml(mbus_data_variable_header *);
#if VP_CBMC
static char *vp_doc;
/* a document of 8192 bytes and more, of which these texts use few */
#define DOCSZ 400
static int nalloc_seen, fail_at = -1;
void *vp_malloc(size_t n)
{
    if (vp_nalloc++ == fail_at) return 0;
    vp_live++;
    char *p = n < DOCSZ ? vp_block(n) : n >= 8192 ? malloc(DOCSZ) : vp_block(n);
    __CPROVER_assume(p != 0);
    return p;
}
void *vp_calloc(size_t a, size_t b) { char *p = vp_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void vp_free(void *p) { if (p) { vp_live--; free(p); } }
void *vp_realloc(void *p, size_t n)
{
    if (!p) return vp_malloc(n);
    VP_MODEL(0, "these documents never grow");
    return p;
}
#else
#define fail_at vp_fail_at
#endif
static mbus_frame *frames[4];
static int parses, rendered;
static char rtext[16], htext[8], want[400];
int mbus_frame_data_parse(mbus_frame *f, mbus_frame_data *d)
{
    int k = f->start1, i;
    VP_ASSERT(k == parses, "each telegram is parsed once, in order");
    parses++;
    if (IN.prc[k] == 1) return -1;
    d->type = KIND[k] == 'v' ? MBUS_DATA_TYPE_VARIABLE : KIND[k] == 'f' ? MBUS_DATA_TYPE_FIXED : MBUS_DATA_TYPE_ERROR;
    if (KIND[k] != 'v') {
        if (IN.prc[k] == 2) return -1;
        if (KIND[k] == 'f') d->data_fix.tx_cnt = (u8)k; else d->error = k;
        return 0;
    }
    d->data_var.nrecords = 0;
    if (IN.prc[k] == 2) return -1;
    d->data_var.record = NULL;
    d->data_var.header.access_no = (u8)k;
    for (i = 0; i < NREC[k]; i++) {
        if (IN.prc[k] >= 3 && IN.part[k] == i) return IN.prc[k] == 3 ? -1 : -2;
        mbus_data_record *r = mbus_data_record_new();
        if (r == NULL) return -2;
        r->data[0] = (u8)k; r->data[1] = (u8)i;
        mbus_data_record_append(&d->data_var, r);
        d->data_var.nrecords++;
    }
    if (IN.prc[k] >= 3) return IN.prc[k] == 3 ? -1 : -2;
    return 0;
}
char *mbus_data_variable_record_xml(mbus_data_record *r, int cnt, int frame, mbus_data_variable_header *h)
{
    int k = r->data[0], i = r->data[1];
    rtext[0] = '<'; rtext[1] = 'R'; rtext[2] = (char)('0' + cnt); rtext[3] = (char)(frame < 0 ? '-' : '0' + frame);
    rtext[4] = (char)('0' + k); rtext[5] = (char)('0' + i); rtext[6] = (char)('0' + h->access_no); rtext[7] = '>'; rtext[8] = 0;
    return rtext;
}
char *mbus_data_variable_header_xml(mbus_data_variable_header *h)
{
    htext[0] = '<'; htext[1] = 'H'; htext[2] = (char)('0' + h->access_no); htext[3] = '>'; htext[4] = 0;
    return htext;
}
static char *one(char c, int k)
{
    char *p = vp_malloc(4);
    if (p == NULL) return NULL;
    p[0] = c; p[1] = (char)('0' + k); p[2] = 0;
    return p;
}
char *mbus_data_fixed_xml(mbus_data_fixed *f) { return one('F', f->tx_cnt); }
char *mbus_data_error_xml(int e) { return one('E', e); }
static size_t put(size_t n, const char *s) { while (*s) want[n++] = *s++; return n; }
int main(void)
{
    VP_INPUT;
    int i, k, cnt = 0, bad = 0;
    size_t n = 0;
    char *x, t[12];
    for (k = NF; k-- > 0; ) {
        VP_ASSUME(IN.prc[k] <= (KIND[k] == 'v' ? 4 : 2) && IN.part[k] <= 2);
        frames[k] = mbus_frame_new(MBUS_FRAME_TYPE_LONG);
        VP_ASSUME(frames[k] != NULL);
        frames[k]->start1 = (u8)k;
        frames[k]->next = k + 1 < NF ? frames[k + 1] : NULL;
    }
    VP_ASSERT(vp_live == NF, "frames");
#ifdef FAILAT
    fail_at = vp_nalloc + FAILAT;
#endif
    n = put(n, MBUS_XML_PROCESSING_INSTRUCTION "<MBusData>\n\n<H0>");
    for (k = 0; k < NF; k++) {
        if (IN.prc[k] && (k == 0 || KIND[0] == 'v')) bad = 1;
        if (KIND[k] != 'v') continue;
        for (i = 0; i < NREC[k]; i++, cnt++) {
            t[0] = '<'; t[1] = 'R'; t[2] = (char)('0' + cnt); t[3] = (char)(NF == 1 ? '-' : '0' + k);
            t[4] = (char)('0' + k); t[5] = (char)('0' + i); t[6] = (char)('0' + k); t[7] = '>'; t[8] = 0;
            n = put(n, t);
        }
    }
    n = put(n, "</MBusData>\n");
    if (KIND[0] != 'v') { want[0] = KIND[0] == 'f' ? 'F' : 'E'; want[1] = '0'; want[2] = 0; }
    x = mbus_frame_xml(frames[0]);
    VP_ASSERT(vp_live == NF + (x != NULL), "nothing but the frames and the document is left");
    if (x == NULL) {
#ifndef FAILAT
        VP_ASSERT(bad, "a chain whose telegrams parse is rendered");
        VP_REACH("none");
#endif
    } else {
        VP_ASSERT(!bad, "a chain of which a telegram does not parse is not rendered");
        for (i = 0; i < (int)sizeof want; i++) {
            VP_ASSERT(x[i] == want[i], "records of all telegrams in order, numbered, under their telegram's number");
            if (!want[i]) break;
        }
        vp_free(x);
#ifndef FAILAT
        VP_REACH("document");
#endif
    }
    for (k = 0; k < NF; k++) VP_ASSERT(frames[k]->start1 == k && frames[k]->next == (k + 1 < NF ? frames[k + 1] : NULL), "the chain is left alone");
    mbus_frame_free(frames[0]);
    VP_ASSERT(vp_live == 0, "every frame of a chain is released");
    VP_ASSERT(mbus_frame_xml(NULL) == NULL, "no frame");
    VP_REACH("end");
    return 0;
}
