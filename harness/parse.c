/* C01/C02: the frame parser against the wire grammar, on every byte string of
 * exactly N bytes. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#ifdef FULL
#define VP_ACC(m) VP_REACH(m)
#else
#define VP_ACC(m)
#endif
struct IN { u8 d[N > 0 ? N : 1]; };
#define VP_LIGHT_FMT
#include "vp_input.h"

static int ctl_short(u8 c) { return c == 0x40 || c == 0x5A || c == 0x7A || c == 0x5B || c == 0x7B; }
static int ctl_long(u8 c) { return c == 0x53 || c == 0x73 || c == 0x08 || c == 0x18 || c == 0x28 || c == 0x38; }

int main(void)
{
    VP_INPUT;
    /* the buffer holds exactly N bytes: reading past them is an error */
#if VP_CBMC
    u8 b[N > 0 ? N : 1];
#else
    u8 *b = (malloc)(N > 0 ? N : 1);
#endif
    static mbus_frame fr;
    mbus_frame *f = &fr;
    size_t i;
    for (i = 0; i < N; i++) b[i] = IN.d[i];
#ifdef FULL
    /* the frame announces exactly the length it has */
    b[0] = 0x68; b[1] = N - 6; b[2] = N - 6;
#else
    VP_ASSUME(!(N >= 9 && b[0] == 0x68 && b[1] == N - 6 && b[2] == N - 6));
#endif
    int r = mbus_parse(f, b, N);
#if N == 0
    VP_ASSERT(r < 0, "nothing to parse is an error");
    VP_ASSERT(mbus_parse(NULL, IN.d, 1) < 0, "no frame is an error");
    VP_ASSERT(mbus_parse(f, NULL, 1) < 0, "no data is an error");
    VP_REACH("end");
    return 0;
#else
    for (i = 3; i < N; i++) VP_ASSERT(b[i] == IN.d[i], "the input is left alone");
    if (b[0] == 0xE5) {
        VP_ASSERT(r == 0, "an acknowledge is accepted");
        VP_ASSERT(f->type == MBUS_FRAME_TYPE_ACK && f->start1 == 0xE5, "acknowledge fields");
    } else if (b[0] == 0x10) {
        if (N < 5) VP_ASSERT(r == 5 - N, "a short frame reports exactly the bytes it still needs");
        else if (N > 5) VP_ASSERT(r < 0, "trailing bytes after a short frame are an error");
#if N == 5
        else {
            int good = ctl_short(b[1]) && (u8)(b[1] + b[2]) == b[3] && b[4] == 0x16;
            VP_ASSERT((r == 0) == good, "a short frame is accepted iff it is well formed");
            VP_ASSERT(r <= 0, "a complete short frame never asks for more");
            if (r == 0) {
                VP_ASSERT(f->type == MBUS_FRAME_TYPE_SHORT && f->start1 == 0x10 && f->control == b[1] && f->address == b[2] &&
                          f->checksum == b[3] && f->stop == 0x16, "short frame fields");
                VP_REACH("accepted short frame");
            }
        }
#endif
    } else if (b[0] == 0x68) {
        if (N < 3) VP_ASSERT(r == 3 - N, "a long frame header reports exactly the bytes it still needs");
#if N >= 3
        else if (b[1] != b[2] || b[1] < 3) VP_ASSERT(r < 0, "an inconsistent length is an error");
        else if (N < b[1] + 6) VP_ASSERT(r == b[1] + 6 - N, "a long frame reports exactly the bytes it still needs");
        else if (N > b[1] + 6) VP_ASSERT(r < 0, "trailing bytes after a long frame are an error");
#if N >= 9
        else {
            u8 s = 0;
            for (i = 4; i < N - 2; i++) s += b[i];
            int good = b[3] == 0x68 && ctl_long(b[4]) && s == b[N - 2] && b[N - 1] == 0x16;
            VP_ASSERT((r == 0) == good, "a long frame is accepted iff it is well formed");
            VP_ASSERT(r <= 0, "a complete long frame never asks for more");
            if (r == 0) {
                VP_ASSERT(f->type == (N == 9 ? MBUS_FRAME_TYPE_CONTROL : MBUS_FRAME_TYPE_LONG), "frame type");
                VP_ASSERT(f->start1 == 0x68 && f->start2 == 0x68 && f->length1 == b[1] && f->length2 == b[1] && f->control == b[4] &&
                          f->address == b[5] && f->control_information == b[6] && f->checksum == b[N - 2] && f->stop == 0x16, "long frame fields");
                VP_ASSERT(f->data_size == N - 9, "payload length");
                for (i = 0; i < N - 9; i++) VP_ASSERT(f->data[i] == b[7 + i], "payload bytes in order");
                VP_ASSERT(f->next == NULL, "a parsed frame has no successor");
                VP_ACC("accepted long frame");
            }
        }
#endif
#endif
    } else VP_ASSERT(r < 0, "an unknown start byte is an error");
    VP_REACH("end");
    return 0;
#endif
}
