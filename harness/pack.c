/* C02: mbus_frame_pack on every frame object with N payload bytes, every buffer size. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
struct IN { u8 start1, length1, length2, start2, control, address, ci, checksum, stop; u32 type; u8 d[252]; u64 n; u16 cap; u16 k, k2; };
#define VP_LIGHT_FMT
#include "vp_input.h"
#define MAXC (NMAX + 9 + 3)
static int ctl_short(u8 c) { return c == 0x40 || c == 0x5A || c == 0x7A || c == 0x5B || c == 0x7B; }
static int ctl_long(u8 c) { return c == 0x53 || c == 0x73 || c == 0x08 || c == 0x18 || c == 0x28 || c == 0x38; }
int main(void)
{
    VP_INPUT;
    size_t i, cap = IN.cap, n;
    static mbus_frame fr, back;
    mbus_frame *f = &fr;
#ifdef TYPE
    int ty = TYPE;
#else
    int ty = (int)IN.type;
    VP_ASSUME(ty < 1 || ty > 4);
#endif
#ifdef N
    n = N;
#else
    n = IN.n;
#endif
#ifdef HUGE
    VP_ASSUME(n > 252);
#else
    VP_ASSUME(n <= NMAX);
#endif
    VP_ASSUME(cap <= MAXC);
#ifdef ROUND
    cap = MAXC;
#endif
    f->start1 = IN.start1; f->start2 = IN.start2; f->length1 = IN.length1; f->length2 = IN.length2; f->control = IN.control;
    f->address = IN.address; f->control_information = IN.ci; f->checksum = IN.checksum; f->stop = IN.stop; f->type = ty;
    f->data_size = n;
    for (i = 0; i < 252; i++) f->data[i] = IN.d[i];
#if VP_CBMC
    static u8 b[MAXC];
#else
    u8 *b = (malloc)(cap ? cap : 1);
#endif
    for (i = 0; i < MAXC; i++) if (VP_CBMC || i < cap) b[i] = 0xC3;
    size_t k = IN.k;
    VP_ASSUME(k < MAXC);
    int r = mbus_frame_pack(f, b, cap);
    size_t need = ty == 1 ? 1 : ty == 2 ? 5 : ty == 3 ? 9 : n + 9;
    int ok = ty >= 1 && ty <= 4 && need <= cap && !(ty == 4 && n > 252);
    if (!ok) {
        VP_ASSERT(r < 0, "what cannot be packed is an error");
        if (k < cap) VP_ASSERT(b[k] == 0xC3, "nothing is written");
#ifndef ROUND
        VP_REACH("refused");
#endif
    } else {
        VP_ASSERT(r == (int)need, "the number of bytes is returned");
        if ((VP_CBMC || k < cap) && k >= need) VP_ASSERT(b[k] == 0xC3, "nothing is written beyond the frame");
        u8 s = IN.control + IN.address;
        VP_ASSERT(b[0] == IN.start1, "start byte");
        if (ty == 2) VP_ASSERT(b[1] == IN.control && b[2] == IN.address && b[3] == s && b[4] == IN.stop, "short frame");
        if (ty >= 3) {
            s += IN.ci;
            u8 l = ty == 4 ? n + 3 : 3;
            VP_ASSERT(b[1] == l && b[2] == l && b[3] == IN.start2 && b[4] == IN.control && b[5] == IN.address && b[6] == IN.ci, "long frame header");
            if (ty == 4) {
                for (i = 0; i < NMAX; i++) if (i < n) s += IN.d[i];
                if (IN.k2 < n) VP_ASSERT(b[7 + IN.k2] == IN.d[IN.k2], "payload");
            }
            VP_ASSERT(b[need - 2] == s && b[need - 1] == IN.stop, "checksum and stop");
        }
#if defined(TYPE) && !defined(HUGE)
        VP_REACH("packed");
#endif
#if defined(ROUND)
        int valid = ty == 1 ? IN.start1 == 0xE5 : ty == 2 ? IN.start1 == 0x10 && ctl_short(IN.control) && IN.stop == 0x16 :
                    IN.start1 == 0x68 && IN.start2 == 0x68 && ctl_long(IN.control) && IN.stop == 0x16;
        if (valid) {
            VP_ASSERT(mbus_parse(&back, b, r) == 0, "what was packed parses");
            VP_ASSERT(back.type == (ty == 4 && n == 0 ? 3 : ty) && back.start1 == IN.start1, "same type");
            if (ty >= 2) VP_ASSERT(back.control == IN.control && back.address == IN.address && back.stop == IN.stop, "same fields");
            if (ty >= 3) VP_ASSERT(back.control_information == IN.ci && back.data_size == (ty == 4 ? n : 0), "same header");
            if (ty == 4 && IN.k2 < n) VP_ASSERT(back.data[IN.k2] == IN.d[IN.k2], "same payload");
            VP_REACH("round trip");
        }
#endif
    }
    VP_ASSERT(f->start1 == IN.start1 && f->start2 == IN.start2 && f->control == IN.control && f->address == IN.address && f->control_information == IN.ci &&
              f->stop == IN.stop && f->type == ty && f->data_size == n && f->data[IN.k2 % 252] == IN.d[IN.k2 % 252], "the frame keeps its contents");
    VP_ASSERT(mbus_frame_pack(NULL, b, cap) < 0 && mbus_frame_pack(f, NULL, cap) < 0, "missing arguments are errors");
    return 0;
}
