/* C09: time points; C10: reals. */
#include "vp.h"
#include <mbus/mbus-protocol.h>
struct IN { u8 d[8]; u8 dirty; };
#define VP_LIGHT_FMT
#include "vp_input.h"
int main(void)
{
    VP_INPUT;
#if defined(REAL)
    union { float f; u32 u; } a, z;
    u8 b[4];
    for (int i = 0; i < 4; i++) b[i] = IN.d[i];
    a.f = mbus_data_float_decode(b);
    u32 bits = b[0] | (u32)b[1] << 8 | (u32)b[2] << 16 | (u32)b[3] << 24;
    u32 e = (bits >> 23) & 255;
    if (e == 255 && (bits & 0x7fffff)) VP_ASSERT(((a.u >> 23) & 255) == 255 && (a.u & 0x7fffff), "a NaN stays a NaN");
    else VP_ASSERT(a.u == bits, "the real has the transmitted bit pattern");
    if (e == 0 && (bits & 0x7fffff)) VP_REACH("denormal");
    if (e == 255 && !(bits & 0x7fffff)) VP_REACH("infinity");
    if (e > 0 && e < 255) VP_REACH("normal");
    VP_ASSERT(mbus_data_float_decode(NULL) == -1.0f, "no data");
    return 0;
#else
    struct tm t;
    static u8 b[N ? N : 1];
    u8 *d = IN.d;
    for (int i = 0; i < N; i++) b[i] = d[i];
    memset(&t, IN.dirty, sizeof t);
    mbus_data_tm_decode(&t, b, N);
    int sec = 0, min = 0, hour = 0, day = 0, mon = 0, year = 0, dst = 0;
#if N == 2
    day = d[0] & 31; mon = (d[1] & 15) - 1; year = 100 + ((d[0] >> 5) | (d[1] >> 4) << 3);
    VP_REACH("date");
#elif N == 4
    if (!(d[0] & 0x80)) {
        int y = (d[2] >> 5) | (d[3] >> 4) << 3, h = (d[1] >> 5) & 3;
        if (h == 0 && y <= 80) h = 1;
        min = d[0] & 63; hour = d[1] & 31; day = d[2] & 31; mon = (d[3] & 15) - 1; year = 100 * h + y; dst = d[1] >> 7;
        VP_REACH("valid");
    } else VP_REACH("invalid");
#elif N == 6
    if (!(d[1] & 0x80)) {
        sec = d[0] & 63; min = d[1] & 63; hour = d[2] & 31; day = d[3] & 31; mon = (d[4] & 15) - 1;
        year = 100 + ((d[3] >> 5) | (d[4] >> 4) << 3); dst = (d[0] >> 6) & 1;
        VP_REACH("valid");
    } else VP_REACH("invalid");
#else
    VP_REACH("other size");
#endif
    VP_ASSERT(t.tm_sec == sec, "second"); VP_ASSERT(t.tm_min == min, "minute"); VP_ASSERT(t.tm_hour == hour, "hour");
    VP_ASSERT(t.tm_mday == day, "day"); VP_ASSERT(t.tm_mon == mon, "month"); VP_ASSERT(t.tm_year == year, "year");
    VP_ASSERT(t.tm_isdst == dst, "daylight saving"); VP_ASSERT(t.tm_wday == 0 && t.tm_yday == 0, "the rest is cleared");
    VP_ASSERT(t.tm_mday <= 31 && t.tm_hour <= 31 && t.tm_min <= 63 && t.tm_sec <= 63 && t.tm_mon >= -1 && t.tm_mon <= 14 && t.tm_year >= 0 && t.tm_year <= 427, "field ranges");
    for (int i = 0; i < N; i++) VP_ASSERT(b[i] == d[i], "the data is left alone");
    mbus_data_tm_decode(NULL, b, N);
    memset(&t, IN.dirty, sizeof t);
    mbus_data_tm_decode(&t, NULL, N);
    VP_ASSERT(t.tm_sec == 0 && t.tm_min == 0 && t.tm_hour == 0 && t.tm_mday == 0 && t.tm_mon == 0 && t.tm_year == 0 && t.tm_isdst == 0, "no data is an all-zero time");
    return 0;
#endif
}
