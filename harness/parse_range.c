/* C01: the frame parser against the wire grammar, on every byte string whose
 * length lies in [LO, HI]; the length is symbolic too. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
struct IN { u8 d[HI + 1]; u16 n; u16 k; };
#define VP_LIGHT_FMT
#include "vp_input.h"

static int ctl_short(u8 c) { return c == 0x40 || c == 0x5A || c == 0x7A || c == 0x5B || c == 0x7B; }
static int ctl_long(u8 c) { return c == 0x53 || c == 0x73 || c == 0x08 || c == 0x18 || c == 0x28 || c == 0x38; }

int main(void)
{
    VP_INPUT;
    size_t n = IN.n, i;
    VP_ASSUME(n >= LO && n <= HI && n > 0);
#if VP_CBMC
    u8 b[HI + 1];
#else
    u8 *b = (malloc)(n);
#endif
    static mbus_frame fr;
    mbus_frame *f = &fr;
    for (i = 0; i < HI; i++) if (i < n || VP_CBMC) b[i] = IN.d[i];
    int r = mbus_parse(f, b, n);
    if (b[0] == 0xE5) {
        VP_ASSERT(r == 0 && f->type == MBUS_FRAME_TYPE_ACK && f->start1 == 0xE5, "an acknowledge is accepted");
    } else if (b[0] == 0x10) {
        if (n < 5) VP_ASSERT(r == 5 - (int)n, "a short frame reports exactly the bytes it still needs");
        else if (n > 5) VP_ASSERT(r < 0, "trailing bytes after a short frame are an error");
        else {
            int good = ctl_short(b[1]) && (u8)(b[1] + b[2]) == b[3] && b[4] == 0x16;
            VP_ASSERT(good ? r == 0 : r < 0, "a short frame is accepted iff it is well formed");
            if (good) VP_ASSERT(f->type == MBUS_FRAME_TYPE_SHORT && f->start1 == 0x10 && f->control == b[1] && f->address == b[2] &&
                          f->checksum == b[3] && f->stop == 0x16, "short frame fields");
        }
    } else if (b[0] == 0x68) {
        if (n < 3) VP_ASSERT(r == 3 - (int)n, "a long frame header reports exactly the bytes it still needs");
        else if (b[1] != b[2] || b[1] < 3) VP_ASSERT(r < 0, "an inconsistent length is an error");
        else if (n < (size_t)b[1] + 6) VP_ASSERT(r == b[1] + 6 - (int)n, "a long frame reports exactly the bytes it still needs");
        else if (n > (size_t)b[1] + 6) VP_ASSERT(r < 0, "trailing bytes after a long frame are an error");
        else {
            u8 s = 0;
            for (i = 4; i < HI; i++) if (i < n - 2) s += b[i];
            int good = b[3] == 0x68 && ctl_long(b[4]) && s == b[n - 2] && b[n - 1] == 0x16;
            VP_ASSERT(good ? r == 0 : r < 0, "a long frame is accepted iff it is well formed");
            if (good) {
                VP_ASSERT(f->type == (n == 9 ? MBUS_FRAME_TYPE_CONTROL : MBUS_FRAME_TYPE_LONG), "frame type");
                VP_ASSERT(f->start1 == 0x68 && f->start2 == 0x68 && f->length1 == b[1] && f->length2 == b[1] && f->control == b[4] &&
                          f->address == b[5] && f->control_information == b[6] && f->checksum == b[n - 2] && f->stop == 0x16, "long frame fields");
                VP_ASSERT(f->data_size == n - 9, "payload length");
                if (IN.k < n - 9) VP_ASSERT(f->data[IN.k] == b[7 + IN.k], "payload bytes in order");
                VP_ASSERT(f->next == NULL, "a parsed frame has no successor");
#if HI >= 9 && LO <= 261
                VP_REACH("accepted long frame");
#endif
            }
        }
    } else VP_ASSERT(r < 0, "an unknown start byte is an error");
    VP_REACH("end");
    return 0;
}
