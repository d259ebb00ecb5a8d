/* C06 (and C04): interpretation of a frame with any control and CI field.
 *   N     payload size;  CI  concrete control information (default: symbolic,
 *   with idle fillers behind a variable-data header)
 */
#include "vp.h"
#include <mbus/mbus-protocol.h>
struct IN { u8 d[N ? N : 1]; u8 control, ci, address, k; u8 nullf, nulld; };
#define VP_LIGHT_FMT
#define VP_TYPED_ALLOC
#include "vp_input.h"
static mbus_frame fr;

int main(void)
{
    VP_INPUT;
    size_t i;
    u8 b[N ? N : 1], ci = IN.ci;
#ifdef CI
    ci = CI;
#endif
    for (i = 0; i < N; i++) b[i] = IN.d[i];
#ifndef CI
    for (i = 12; i < N; i++) b[i] = 0x2F;
#endif
    mbus_frame *f = &fr;
    f->type = MBUS_FRAME_TYPE_LONG;
    f->control = IN.control; f->address = IN.address; f->control_information = ci; f->data_size = N;
    for (i = 0; i < N; i++) f->data[i] = b[i];
    mbus_frame_data *d = mbus_frame_data_new();
    VP_ASSUME(d != NULL);
    VP_ASSERT(d->data_var.record == NULL, "a new data object has no records");
#ifdef NULLS
    VP_ASSERT(mbus_frame_data_parse(NULL, d) < 0 && mbus_frame_data_parse(f, NULL) < 0 && mbus_frame_data_parse(NULL, NULL) < 0, "missing arguments are an error");
    VP_ASSERT(mbus_data_fixed_parse(NULL, &d->data_fix) < 0 && mbus_data_fixed_parse(f, NULL) < 0, "missing arguments are an error");
    VP_ASSERT(mbus_data_variable_parse(NULL, &d->data_var) < 0 && mbus_data_variable_parse(f, NULL) < 0, "missing arguments are an error");
    mbus_frame_data_free(NULL);
#endif
    int r = mbus_frame_data_parse(f, d);
    int s2m = (IN.control & 0x40) == 0;
    if (s2m && ci == 0x70) {
        VP_ASSERT(r == 0 && d->type == MBUS_DATA_TYPE_ERROR, "application error");
        VP_ASSERT(d->error == (N ? b[0] : 0), "error code");
#if !defined(CI) || CI == 0x70
        VP_REACH("error");
#endif
    } else if (s2m && ci == 0x73 && N == 16) {
        VP_ASSERT(r == 0 && d->type == MBUS_DATA_TYPE_FIXED, "fixed data");
#if N == 16
        mbus_data_fixed *x = &d->data_fix;
        VP_ASSERT(x->id_bcd[0] == b[0] && x->id_bcd[1] == b[1] && x->id_bcd[2] == b[2] && x->id_bcd[3] == b[3], "fixed: identification");
        VP_ASSERT(x->tx_cnt == b[4] && x->status == b[5] && x->cnt1_type == b[6] && x->cnt2_type == b[7], "fixed: access number, status, types");
        VP_ASSERT(x->cnt1_val[0] == b[8] && x->cnt1_val[1] == b[9] && x->cnt1_val[2] == b[10] && x->cnt1_val[3] == b[11], "fixed: counter 1");
        VP_ASSERT(x->cnt2_val[0] == b[12] && x->cnt2_val[1] == b[13] && x->cnt2_val[2] == b[14] && x->cnt2_val[3] == b[15], "fixed: counter 2");
#if !defined(CI) || CI == 0x73
        VP_REACH("fixed");
#endif
#endif
    } else if (s2m && ci == 0x72 && N >= 12) {
#ifndef CI
        VP_ASSERT(r == 0 && d->type == MBUS_DATA_TYPE_VARIABLE, "variable data");
        VP_ASSERT(d->data_var.nrecords == 0 && d->data_var.record == NULL, "no records");
#if N >= 12
        VP_ASSERT(d->data_var.header.id_bcd[0] == b[0] && d->data_var.header.signature[1] == b[11], "variable data header");
        VP_REACH("variable");
#endif
#endif
    } else {
        VP_ASSERT(r < 0, "anything else is rejected");
        VP_REACH("rejected");
    }
    mbus_frame_data_free(d);
    VP_ASSERT(vp_live == 0, "every block is released");
    return 0;
}
