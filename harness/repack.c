/* C31: packing parsed data writes its payload back; what does not fit is refused.
 *   FIXED(b) / N    payload of N bytes, some of them concrete (variable data)
 *   KIND 1 fixed, 2 error data, 3 everything else (NULL, unknown types)
 *   LIST            records "dif,ndife,vif,clen,nvife,len; ..." made by hand
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#ifndef N
#define N 1
#endif
#ifndef FIXED
#define FIXED(b)
#endif
struct IN { u8 d[N ? N : 1]; u16 k; u32 type; u8 txt, dat; };
#define VP_LIGHT_FMT
#define VP_TYPED_ALLOC
#include "vp_input.h"

#ifdef VP_ENC
#ifndef TXTMAX
#define TXTMAX (N < 128 ? N : 128)
#endif
void mbus_data_str_decode(unsigned char *dst, const unsigned char *src, size_t len)
{   /* decided by C11; here with every target byte named */
    mbus_data_record *r = vp_last_record;
    VP_MODEL(dst == r->drh.vib.custom_vif, "strings are decoded into the current record");
    for (size_t i = 0; i < TXTMAX; i++)
        if (i < len) r->drh.vib.custom_vif[i] = src[len - 1 - i];
        else if (i == len) r->drh.vib.custom_vif[i] = 0;
    VP_MODEL(len < TXTMAX, "text within the modelled length");
}
#ifdef CLEN
/* every text has CLEN characters: the length stays concrete */
size_t vp_strlen(const char *s)
{
    for (size_t i = 0; i < CLEN; i++) VP_MODEL(s[i] != 0, "texts have the modelled length");
    VP_MODEL(s[CLEN] == 0, "texts have the modelled length");
    return CLEN;
}
#else
size_t vp_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
#endif
#endif

#ifndef VP_ENC
size_t vp_strlen(const char *s) { return strlen(s); }
#endif

static mbus_frame src, dst;

#ifdef LIST
static const int list[][6] = { LIST };
#define NREC (sizeof list / sizeof list[0])
static mbus_data_record rec[NREC];
int main(void)
{
    VP_INPUT;
    mbus_frame_data *fd = mbus_frame_data_new();
    VP_ASSUME(fd != NULL);
    fd->type = MBUS_DATA_TYPE_VARIABLE;
    size_t total = 12;
    for (size_t i = 0; i < NREC; i++) {
        const int *l = list[i];
        int special = l[0] == 0x0F || l[0] == 0x1F, text = !special && (l[2] & 0x7F) == 0x7C;
        rec[i].drh.dib.dif = l[0]; rec[i].drh.dib.ndife = l[1]; rec[i].drh.vib.vif = l[2]; rec[i].drh.vib.nvife = l[4]; rec[i].data_len = l[5];
        for (int k = 0; k < l[3]; k++) rec[i].drh.vib.custom_vif[k] = IN.txt | 1;
        if (l[5]) rec[i].data[l[5] - 1] = IN.dat;
        rec[i].next = i + 1 < NREC ? &rec[i + 1] : NULL;
        total += 1 + (special ? 0 : l[1] + 1 + (text ? 1 + l[3] : 0) + l[4]) + l[5];
    }
    fd->data_var.record = rec; fd->data_var.nrecords = NREC;
    int r = mbus_frame_internal_pack(&dst, fd);
    VP_ASSERT((r == 0) == (total <= 252), "packed exactly when it fits");
    VP_ASSERT(dst.data_size <= 252, "within the payload area");
    if (total <= 252) {
        VP_ASSERT(dst.data_size == total, "size");
        if (list[NREC - 1][5]) VP_ASSERT(dst.data[total - 1] == IN.dat, "last byte");
    }
    VP_REACH("packed");
    fd->data_var.record = NULL;
    mbus_frame_data_free(fd);
    return 0;
}
#else
static u8 b[N ? N : 1], e[N + 1];
int main(void)
{
    VP_INPUT;
    size_t i, n = 0;
    for (i = 0; i < N; i++) b[i] = IN.d[i];
    FIXED(b);
    mbus_frame_data *fd = mbus_frame_data_new();
    VP_ASSUME(fd != NULL);
#if defined(KIND) && KIND == 3
    VP_ASSERT(mbus_frame_internal_pack(NULL, fd) != 0, "no frame");
    VP_ASSERT(mbus_frame_internal_pack(&dst, NULL) != 0, "no data");
    VP_ASSUME((int)IN.type != MBUS_DATA_TYPE_ERROR && (int)IN.type != MBUS_DATA_TYPE_FIXED && (int)IN.type != MBUS_DATA_TYPE_VARIABLE);
    fd->type = (int)IN.type;
    VP_ASSERT(mbus_frame_internal_pack(&dst, fd) != 0, "unknown data");
    VP_REACH("refused");
    fd->type = MBUS_DATA_TYPE_ERROR;
#else
    src.type = MBUS_FRAME_TYPE_LONG;
    src.control = 0x08;
    src.data_size = N;
    for (i = 0; i < N; i++) src.data[i] = b[i];
    int ok = 1;
#if defined(KIND) && KIND == 1
    src.control_information = 0x73;
    for (i = 0; i < N; i++) e[i] = b[i];
    n = N;
#elif defined(KIND) && KIND == 2
    src.control_information = 0x70;
    e[0] = N ? b[0] : 0;
    n = 1;
#else
    src.control_information = 0x72;
    enum { DIF, DIFE, VIF, CLENS, CTXT, VIFE, LVAR, DATA };
    unsigned st = DIF, ndife = 0, nvife = 0, rem = 0, ext = 0, mfg = 0, dif = 0;
    for (i = 0; i < 12; i++) e[n++] = b[i];
    for (i = 12; i < N; i++) {
        u8 c = b[i];
        if (st == DIF && c == 0x2F) continue;   /* idle filler */
        e[n++] = c;
        if (st == DIF) {
            dif = c; ndife = nvife = 0;
            if (c == 0x0F || c == 0x1F) { mfg = 1; st = DATA; } else st = (c & 0x80) ? DIFE : VIF;
        } else if (st == DIFE) { if (ndife++ == 10) ok = 0; st = (c & 0x80) ? DIFE : VIF; }
        else if (st == VIF) { ext = c >> 7; st = (c & 0x7F) == 0x7C ? CLENS : ext ? VIFE : LVAR; }
        else if (st == CLENS) { if (c >= 128) ok = 0; rem = c; st = c ? CTXT : ext ? VIFE : LVAR; }
        else if (st == CTXT) { VP_ASSUME(c != 0); if (--rem == 0) st = ext ? VIFE : LVAR; }
        else if (st == VIFE) { if (nvife++ == 10) ok = 0; st = (c & 0x80) ? VIFE : LVAR; }
        else if (st == LVAR) {
            rem = c <= 0xBF ? c : c >= 0xC0 && c <= 0xC9 ? (c - 0xC0) * 2u : c >= 0xD0 && c <= 0xD9 ? (c - 0xD0) * 2u :
                  c >= 0xE0 && c <= 0xEF ? c - 0xE0u : c >= 0xF0 && c <= 0xF4 ? (c - 0xECu) * 4 : c == 0xF5 ? 48 : c == 0xF6 ? 64 : 0;
            st = rem ? DATA : DIF;
        } else if (!mfg) { if (--rem == 0) st = DIF; }
        if (st == LVAR && (dif & 15) != 13) {
            static const u8 dl[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
            rem = dl[dif & 15];
            st = rem ? DATA : DIF;
        }
    }
    if (st != DIF && !mfg) ok = 0;
    /* an incomplete payload is C05's; it has no data to pack */
#endif
    if (mbus_frame_data_parse(&src, fd) == 0) {
        VP_ASSERT(ok, "only complete payloads are parsed");
        dst.data_size = IN.k;
        VP_ASSERT(mbus_frame_internal_pack(&dst, fd) == 0, "parsed data can be packed");
        VP_ASSERT(dst.data_size == n, "size of the payload");
        size_t k = IN.k;
        if (k < n) VP_ASSERT(dst.data[k] == e[k], "payload byte");
        VP_REACH("packed again");
    } 
#endif
    mbus_frame_data_free(fd);
    return 0;
}
#endif
