/* C07: binary integers. N = width in bytes, W selects the function. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
struct IN { u8 d[9]; u32 v; u8 k; };
#define VP_LIGHT_FMT
#include "vp_input.h"
int main(void)
{
    VP_INPUT;
    unsigned i;
#if defined(ENC)
    u8 out[8 + 2];
    memset(out, 0xC3, sizeof out);
    int v = (int)IN.v, back = 77;
    VP_ASSERT(mbus_data_int_encode(out + 1, N, v) == 0, "encoding succeeds");
    VP_ASSERT(out[0] == 0xC3 && out[N + 1] == 0xC3, "only the n bytes are written");
    for (i = 0; i < N && i < 4; i++) VP_ASSERT(out[1 + i] == (u8)(IN.v >> (8 * i)), "bytes are little endian");
    int fits = N >= 4 || (v >= -(1 << (8 * (N < 4 ? N : 3) - 1)) && v < (1 << (8 * (N < 4 ? N : 3) - 1)));
    if (N <= 4) {
        VP_ASSERT(mbus_data_int_decode(out + 1, N, &back) == 0, "what was encoded decodes");
        if (fits) { VP_ASSERT(back == v, "encoding and decoding is the identity"); VP_REACH("fits"); }
    }
    VP_ASSERT(mbus_data_int_encode(NULL, N, v) < 0, "no buffer is an error");
    return 0;
#else
    static u8 in[N ? N : 1];
    for (i = 0; i < N; i++) in[i] = IN.d[i];
    /* reference: sign-extend from the top bit of the n-th byte */
    u64 u = 0;
    for (i = 0; i < N; i++) u |= (u64)IN.d[i] << (8 * i);
    if (N < 8 && N > 0 && (IN.d[N - 1] & 0x80)) u |= ~(u64)0 << (8 * (N < 8 ? N : 0));
    long long ref = (long long)u;
    int vi = 5; long vl = 5; long long vll = 5;
    if (N == 0) {
        VP_ASSERT(mbus_data_int_decode(in, 0, &vi) < 0 && mbus_data_long_decode(in, 0, &vl) < 0 && mbus_data_long_long_decode(in, 0, &vll) < 0, "an empty integer is rejected");
        VP_ASSERT(mbus_data_int_decode(NULL, 1, &vi) < 0 && mbus_data_long_decode(NULL, 1, &vl) < 0 && mbus_data_long_long_decode(NULL, 1, &vll) < 0, "a missing buffer is rejected");
    } else {
        if (N <= 4) VP_ASSERT(mbus_data_int_decode(in, N, &vi) == 0 && vi == ref, "int value");
        VP_ASSERT(mbus_data_long_decode(in, N, &vl) == 0 && vl == ref, "long value");
        VP_ASSERT(mbus_data_long_long_decode(in, N, &vll) == 0 && vll == ref, "long long value");
        for (i = 0; i < N; i++) VP_ASSERT(in[i] == IN.d[i], "the data is left alone");
    }
    VP_REACH("end");
    return 0;
#endif
}
