/* C04/C05: the variable-data parser on payloads of exactly N bytes.
 * Expected records come from a one-pass automaton over the payload bytes.
 *   FIXED(b)  statements that make some payload bytes concrete
 *   ALLOCFAIL the allocation number FAILAT after the data object fails
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#ifndef PLEN
#define PLEN N
#endif
#ifndef MAXREC
#define MAXREC 4
#endif
#ifndef TXTMAX
#define TXTMAX (N < 128 ? N : 128)
#endif
#ifndef FIXED
#define FIXED(b)
#endif
struct IN { u8 d[N ? N : 1]; u8 q, k; u16 kd; u64 ts; };
#define VP_LIGHT_FMT
#define VP_TYPED_ALLOC
#ifdef ALLOCFAIL
#define VP_MAY_FAIL
#endif
#include "vp_input.h"

#ifdef VP_ENC
/* The plain-text VIF: mbus_data_str_decode (decided by C11) stands for its
 * contract here, written so that each target byte is named. */
void mbus_data_str_decode(unsigned char *dst, const unsigned char *src, size_t len)
{
    mbus_data_record *r = vp_last_record;
    VP_MODEL(dst == r->drh.vib.custom_vif, "strings are decoded into the current record");
    for (size_t i = 0; i < TXTMAX; i++)
        if (i < len) r->drh.vib.custom_vif[i] = src[len - 1 - i];
        else if (i == len) r->drh.vib.custom_vif[i] = 0;
    VP_MODEL(len < TXTMAX, "text within the modelled length");
}
#endif
enum { DIF, DIFE, VIF, CLEN, CTXT, VIFE, LVAR, DATA };
static u8 b[N ? N : 1];
static mbus_frame fr;

int main(void)
{
    VP_INPUT;
    size_t i;
    for (i = 0; i < N; i++) b[i] = IN.d[i];
    FIXED(b);
    mbus_frame *f = &fr;
    f->type = MBUS_FRAME_TYPE_LONG;
    f->data_size = N;
    f->timestamp = (time_t)IN.ts;
    for (i = 0; i < N; i++) f->data[i] = b[i];

    /* ---- expectation: automaton over the payload --------------------------- */
    unsigned q = IN.q, nrec = 0, ndife = 0, nvife = 0, rem = 0, more = 0, st = DIF, err = 0, ext = 0, dn = 0, mfg = 0;
    /* what the q-th record must look like */
    u8 e_dif = 0, e_vif = 0, e_dife[10], e_vife[10];
    unsigned e_ndife = 0, e_nvife = 0, e_len = 0, e_data = 0, e_ctxt = 0, e_clen = 0, hasv = 0;
    u8 dif = 0;
    memset(e_dife, 0, 10); memset(e_vife, 0, 10);
    if (N < 12) err = 1;
    for (i = 12; i < N; i++) {
        u8 c = b[i];
        if (err) continue;
        if (st == DIF) {
            if (c == 0x2F) continue;
            dif = c; ndife = nvife = 0; hasv = 0;
            if (nrec == q) { e_dif = c; e_ndife = 0; e_nvife = 0; e_len = 0; e_clen = 0; e_data = i + 1; }
            if (c == 0x0F || c == 0x1F) {
                if (c == 0x1F) more = 1;
                mfg = 1; st = DATA; rem = 0xFFFF; nrec++;
                if (nrec - 1 == q) e_len = N - i - 1;
            } else st = (c & 0x80) ? DIFE : VIF;
        } else if (st == DIFE) {
            if (ndife == 10) err = 1;
            else { if (nrec == q) { e_dife[ndife] = c; e_ndife = ndife + 1; } ndife++; st = (c & 0x80) ? DIFE : VIF; }
        } else if (st == VIF) {
            if (nrec == q) e_vif = c;
            ext = c >> 7;
            if ((c & 0x7F) == 0x7C) st = CLEN;
            else st = ext ? VIFE : LVAR;
        } else if (st == CLEN) {
            if (c >= 128) err = 1;
            if (nrec == q) { e_clen = c; e_ctxt = i + 1; }
            rem = c;
            st = c ? CTXT : ext ? VIFE : LVAR;
        } else if (st == CTXT) {
            if (--rem == 0) st = ext ? VIFE : LVAR;
        } else if (st == VIFE) {
            if (nvife == 10) err = 1;
            else { if (nrec == q) { e_vife[nvife] = c; e_nvife = nvife + 1; } nvife++; st = (c & 0x80) ? VIFE : LVAR; }
        } else if (st == LVAR) {
            rem = c <= 0xBF ? c : c >= 0xC0 && c <= 0xC9 ? (c - 0xC0) * 2u : c >= 0xD0 && c <= 0xD9 ? (c - 0xD0) * 2u :
                  c >= 0xE0 && c <= 0xEF ? c - 0xE0u : c >= 0xF0 && c <= 0xF4 ? (c - 0xECu) * 4 : c == 0xF5 ? 48 : c == 0xF6 ? 64 : 0;
            if (nrec == q) { e_data = i; e_len = rem + 1; }
            if (rem) st = DATA; else { st = DIF; nrec++; }
        } else if (!mfg) {
            if (--rem == 0) { st = DIF; nrec++; }
        }
        /* a record without LVAR goes straight on to its data, which may be empty */
        if (!err && st == LVAR && (dif & 15) != 13) {
            static const u8 dl[16] = { 0, 1, 2, 3, 4, 4, 6, 8, 0, 1, 2, 3, 4, 0, 6, 8 };
            rem = dl[dif & 15];
            if (nrec == q) { e_data = i + 1; e_len = rem; }
            if (rem) st = DATA; else { st = DIF; nrec++; }
        }
    }
    if (st != DIF && !mfg) err = 1;

    /* ---- the real parser ---------------------------------------------------- */
#ifdef DIRECT
    /* application CI and direction are C06's; here the frame is a variable response */
#endif
    f->control = 0x08; f->control_information = 0x72;
    mbus_frame_data *fd = mbus_frame_data_new();
    VP_ASSUME(fd != NULL);
#ifdef ALLOCFAIL
    vp_fail_at = vp_nalloc + FAILAT;
#endif
    int r = mbus_frame_data_parse(f, fd);
#ifdef ALLOCFAIL
    if (vp_nalloc > vp_fail_at) { VP_ASSERT(r < 0, "running out of memory is an error"); VP_REACH("allocation failure"); }
#else
#ifndef SAFE
    VP_ASSERT(err ? r < 0 : r == 0, "accepted exactly when every record is complete");
#if N == 0
    VP_REACH("empty");
#endif
    if (!err) {
        mbus_data_variable *v = &fd->data_var;
        VP_ASSERT(fd->type == MBUS_DATA_TYPE_VARIABLE, "data type");
        VP_ASSERT(v->nrecords == nrec, "number of records");
        VP_ASSERT(v->more_records_follow == more, "more-records flag");
        VP_ASSERT(v->header.id_bcd[0] == b[0] && v->header.id_bcd[1] == b[1] && v->header.id_bcd[2] == b[2] && v->header.id_bcd[3] == b[3] &&
                  v->header.manufacturer[0] == b[4] && v->header.manufacturer[1] == b[5] && v->header.version == b[6] && v->header.medium == b[7] &&
                  v->header.access_no == b[8] && v->header.status == b[9] && v->header.signature[0] == b[10] && v->header.signature[1] == b[11], "header bytes");
        mbus_data_record *rec = v->record;
        VP_MODEL(nrec <= MAXREC, "records within the modelled number");
        for (i = 0; i < MAXREC; i++) if (i < q && i < nrec) { VP_ASSERT(rec != NULL, "a record is in the list"); rec = rec->next; }
        if (q < nrec) {
            VP_ASSERT(rec != NULL, "the record is in the list");
            VP_ASSERT(rec->drh.dib.dif == e_dif, "DIF");
            VP_ASSERT(rec->drh.dib.ndife == e_ndife, "number of DIFEs");
            if (IN.k < e_ndife) VP_ASSERT(rec->drh.dib.dife[IN.k] == e_dife[IN.k], "DIFE");
            if (e_dif != 0x0F && e_dif != 0x1F) {
                VP_ASSERT(rec->drh.vib.vif == e_vif, "VIF");
                if ((e_vif & 0x7F) == 0x7C) {
                    VP_ASSERT(rec->drh.vib.custom_vif[e_clen] == 0, "plain-text VIF is terminated");
                    if (IN.kd < e_clen) VP_ASSERT(rec->drh.vib.custom_vif[IN.kd] == b[e_ctxt + e_clen - 1 - IN.kd], "plain-text VIF");
                }
            }
            VP_ASSERT(rec->drh.vib.nvife == e_nvife, "number of VIFEs");
            if (IN.k < e_nvife) VP_ASSERT(rec->drh.vib.vife[IN.k] == e_vife[IN.k], "VIFE");
            VP_ASSERT(rec->data_len == e_len, "data length");
            if (IN.kd < e_len) VP_ASSERT(rec->data[IN.kd] == b[e_data + IN.kd], "data bytes");
            VP_ASSERT(rec->timestamp == (time_t)IN.ts, "time of reception");
            VP_ASSERT((rec->next == NULL) == (q + 1 == nrec), "end of the list");
#ifdef REACHREC
            VP_REACH("a record");
#endif
        } else if (nrec == 0) VP_ASSERT(v->record == NULL, "no record, no list");
#ifdef REACHOK
        VP_REACH("accepted");
#endif
    }
#ifdef REACHERR
    else VP_REACH("rejected");
#endif
#else
    VP_REACH("parsed");
#endif
#endif
    if (N) VP_ASSERT(f->data[IN.kd % (N ? N : 1)] == b[IN.kd % (N ? N : 1)], "the frame is left alone");
    mbus_frame_data_free(fd);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
