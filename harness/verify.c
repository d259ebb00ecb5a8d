/* C03: mbus_frame_verify / mbus_frame_new / mbus_frame_direction on every frame object. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
struct IN { u8 start1, length1, length2, start2, control, address, ci, checksum, stop; u32 type; u8 d[252]; u64 n; u16 k; u8 nulls; };
#define VP_LIGHT_FMT
#ifdef NEW
#define VP_MAY_FAIL
#endif
#include "vp_input.h"
static int ctl_short(u8 c) { return c == 0x40 || c == 0x5A || c == 0x7A || c == 0x5B || c == 0x7B; }
static int ctl_long(u8 c) { return c == 0x53 || c == 0x73 || c == 0x08 || c == 0x18 || c == 0x28 || c == 0x38; }
int main(void)
{
    VP_INPUT;
    size_t i;
#if defined(NEW)
    int ty = (int)IN.type;
    mbus_frame *f = mbus_frame_new(ty);
    VP_ASSERT(f != NULL, "a frame is created");
    VP_ASSERT(f->type == ty && mbus_frame_type(f) == ty && f->next == NULL && f->data_size == 0, "type");
    switch (ty) {
    case MBUS_FRAME_TYPE_ACK: VP_ASSERT(f->start1 == 0xE5 && mbus_frame_verify(f) == 0, "new acknowledge"); VP_REACH("ack"); break;
    case MBUS_FRAME_TYPE_SHORT: VP_ASSERT(f->start1 == 0x10 && f->stop == 0x16, "new short frame"); VP_REACH("short"); break;
    case MBUS_FRAME_TYPE_CONTROL: VP_ASSERT(f->start1 == 0x68 && f->start2 == 0x68 && f->length1 == 3 && f->length2 == 3 && f->stop == 0x16, "new control frame"); VP_REACH("control"); break;
    case MBUS_FRAME_TYPE_LONG: VP_ASSERT(f->start1 == 0x68 && f->start2 == 0x68 && f->stop == 0x16, "new long frame"); VP_REACH("long"); break;
    default: VP_ASSERT(f->start1 == 0 && f->stop == 0, "unknown type has no start"); VP_REACH("other");
    }
    VP_ASSERT(f->control == 0 && f->address == 0 && f->control_information == 0 && f->data[IN.k % 252] == 0, "the rest is zero");
    VP_ASSERT(mbus_frame_free(f) == 0, "freed");
    VP_ASSERT(vp_live == 0, "nothing is left");
    vp_fail_at = vp_nalloc;
    VP_ASSERT(mbus_frame_new(ty) == NULL, "no memory, no frame");
    return 0;
#else
#ifdef TYPE
    int ty = TYPE;
#else
    int ty = (int)IN.type;
    VP_ASSUME(ty < 1 || ty > 4);
#endif
#ifdef N
    size_t n = N;
#else
    size_t n = IN.n;
#ifdef HUGE
    VP_ASSUME(n > 252);
#else
    VP_ASSUME(n <= NMAX);
#endif
#endif
    static mbus_frame fr;
    mbus_frame *f = &fr;
    memset(f, 0, sizeof *f);
    f->start1 = IN.start1; f->start2 = IN.start2; f->length1 = IN.length1; f->length2 = IN.length2; f->control = IN.control;
    f->address = IN.address; f->control_information = IN.ci; f->checksum = IN.checksum; f->stop = IN.stop; f->type = ty;
    f->data_size = n;
    for (i = 0; i < 252; i++) f->data[i] = IN.d[i];
    int r = mbus_frame_verify(f);
    int good = 0;
    u8 s = IN.control + IN.address;
    if (ty == MBUS_FRAME_TYPE_ACK) good = IN.start1 == 0xE5;
    else if (ty == MBUS_FRAME_TYPE_SHORT) good = IN.start1 == 0x10 && ctl_short(IN.control) && IN.checksum == s && IN.stop == 0x16;
    else if (ty == MBUS_FRAME_TYPE_CONTROL || ty == MBUS_FRAME_TYPE_LONG) {
        s += IN.ci;
        if (ty == MBUS_FRAME_TYPE_LONG) { for (i = 0; i < NMAX; i++) if (i < n) s += IN.d[i]; }
        good = IN.start1 == 0x68 && IN.start2 == 0x68 && ctl_long(IN.control) && IN.length1 == IN.length2 &&
               IN.length1 == (ty == MBUS_FRAME_TYPE_LONG ? n + 3 : 3) && IN.stop == 0x16 && IN.checksum == s;
    }
#ifdef HUGE
    good = 0;
#endif
    VP_ASSERT(good ? r == 0 : r < 0, "verification agrees with the protocol");
#if defined(TYPE) && !defined(HUGE)
    if (r == 0) VP_REACH("valid frame");
#endif
    if (r < 0) VP_REACH("invalid frame");
    int dir = mbus_frame_direction(f);
    VP_ASSERT(dir == (ty == MBUS_FRAME_TYPE_ACK ? 0 : (IN.control & 0x40)), "direction");
    VP_ASSERT(mbus_frame_verify(NULL) < 0 && mbus_frame_direction(NULL) == -1 && mbus_frame_type(NULL) == -1, "no frame is an error");
    VP_ASSERT(f->start1 == IN.start1 && f->start2 == IN.start2 && f->length1 == IN.length1 && f->length2 == IN.length2 && f->control == IN.control &&
              f->address == IN.address && f->control_information == IN.ci && f->checksum == IN.checksum && f->stop == IN.stop && f->type == ty &&
              f->data_size == n && f->data[IN.k % 252] == IN.d[IN.k % 252], "verification changes nothing");
    return 0;
#endif
}
