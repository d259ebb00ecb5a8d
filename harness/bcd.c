/* C08: BCD numbers of N bytes. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
struct IN { u8 d[10]; u8 neg; };
#define VP_LIGHT_FMT
#include "vp_input.h"
int main(void)
{
    VP_INPUT;
    int i;
#if N == 0
    u8 *z = (malloc)(1) ;
    VP_ASSERT(mbus_data_bcd_decode(NULL, 4) == -1 && mbus_data_bcd_decode_hex(NULL, 4) == -1, "no data is an error");
    VP_ASSERT(mbus_data_bcd_decode_hex(z, 0) == 0, "no digits, no value");
    VP_ASSERT(mbus_data_bcd_encode(NULL, 4, 12) < 0 && mbus_data_bcd_encode(z, 0, 12) < 0, "nowhere to encode to is an error");
    VP_ASSERT(mbus_data_bcd_decode(z, 0) <= 0, "an empty number reads nothing");
    VP_REACH("end");
    return 0;
#else
    static u8 b[N + 2];
    b[0] = 0xC3; b[N + 1] = 0xC3;
#if defined(RAW)
    /* any bytes: no trap; the hexadecimal reading is the little-endian number */
    u64 h = 0;
    for (i = 0; i < N; i++) { b[1 + i] = IN.d[i]; h |= (u64)IN.d[i] << (8 * i); }
    VP_ASSERT(mbus_data_bcd_decode_hex(b + 1, N) == (long long)h, "hexadecimal reading");
    (void)mbus_data_bcd_decode(b + 1, N);
    VP_REACH("end");
    return 0;
#else
    /* 2N decimal digits, least significant first; a leading Fh makes it negative */
    int neg = IN.neg & 1;
    long long v = 0;
    for (i = 0; i < N; i++) {
        u8 t = IN.d[i];
        VP_ASSUME((t & 15) <= 9 && (t >> 4) <= 9);
        if (neg && i == N - 1) { VP_ASSUME((t >> 4) == 0); t |= 0xF0; }
        b[1 + i] = t;
    }
    for (i = N - 1; i >= 0; i--) v = (v * 10 + (IN.d[i] >> 4)) * 10 + (IN.d[i] & 15);
#if defined(DEC)
    VP_ASSERT(mbus_data_bcd_decode(b + 1, N) == (neg ? -v : v), "decimal value");
    for (i = 0; i < N; i++) VP_ASSERT(b[1 + i] == (IN.d[i] | ((neg && i == N - 1) ? 0xF0 : 0)), "the data is left alone");
    VP_REACH("end");
#else
    u8 o[N + 2];
    VP_ASSUME(v <= 0x7fffffffLL + neg);
#ifdef VLO
    VP_ASSUME(v >= VLO && v <= VHI);
#endif
    if (neg) VP_ASSUME(v > 0);
    memset(o, 0xC3, sizeof o);
    VP_ASSERT(mbus_data_bcd_encode(o + 1, N, (int)(neg ? -v : v)) == 0, "a number that fits is encoded");
    VP_ASSERT(o[0] == 0xC3 && o[N + 1] == 0xC3, "only the n bytes are written");
    for (i = 0; i < N; i++) VP_ASSERT(o[1 + i] == b[1 + i], "encoded digits in the order they are decoded");
    VP_REACH("end");
#endif
    return 0;
#endif
#endif
}
