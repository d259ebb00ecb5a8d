/* C11 string and binary text, C14 XML escaping, C26 hex text, C30 manufacturer codes */
#include "vp.h"
#include <mbus/mbus-protocol.h>
#include <mbus/mbus-protocol-aux.h>
#ifndef N
#define N 1
#endif
#ifndef CAP
#define CAP 1
#endif
struct IN { u8 d[N + 4]; u16 cap; u16 n; u16 k; };
#define VP_STR_MAX (N + 8)
#define VP_NUM_MAX 4
#include "vp_input.h"
static const char HX[] = "0123456789ABCDEF";
static u8 out[CAP + 2];
static int hexval(u8 c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static int blank(u8 c) { return c == ' ' || (c >= 9 && c <= 13); }

int main(void)
{
    VP_INPUT;
    size_t i;
    memset(out, 0xC3, sizeof out);
#if defined(STR)
    static u8 src[N + 1];
    for (i = 0; i < N; i++) src[i] = IN.d[i];
    mbus_data_str_decode(out + 1, src, N);
    VP_ASSERT(out[0] == 0xC3 && out[N + 2] == 0xC3, "nothing else is written");
    VP_ASSERT(out[N + 1] == 0, "the text is terminated");
    for (i = 0; i < N; i++) VP_ASSERT(out[1 + i] == IN.d[N - 1 - i], "bytes in reverse order");
    for (i = 0; i < N; i++) VP_ASSERT(src[i] == IN.d[i], "the data is left alone");
    memset(out, 0xC3, sizeof out);
    mbus_data_str_decode(out + 1, NULL, N);
    mbus_data_str_decode(NULL, src, N);
    VP_ASSERT(out[1] == 0xC3, "no data writes nothing");
    VP_REACH("end");
#elif defined(BIN)
    /* the capacity is CAPV: exactly that many bytes exist */
    static u8 src[N + 1];
#if VP_CBMC
    static u8 dst[CAPV];
#else
    u8 *dst = (malloc)(CAPV);
#endif
    for (i = 0; i < N; i++) src[i] = IN.d[i];
    memset(dst, 0xC3, CAPV);
    mbus_data_bin_decode(dst, src, N, CAPV);
    size_t l = 0;
    while (l < CAPV && dst[l]) l++;
    VP_ASSERT(l < CAPV, "the text is terminated inside its capacity");
    VP_ASSERT(l == 0 || l % 3 == 2, "whole bytes only");
    size_t c = (l + 1) / 3;
    VP_ASSERT(c <= N, "no more bytes than there are");
    if (CAPV > 3 * N) VP_ASSERT(c == N, "nothing is lost when there is room");
    VP_ASSERT(c + 2 >= (CAPV < 3 * N ? CAPV : 3 * N) / 3, "the room is used");
    i = IN.k;
    if (i < N && i < c) {
        VP_ASSERT(dst[3 * i] == HX[IN.d[N - 1 - i] >> 4] && dst[3 * i + 1] == HX[IN.d[N - 1 - i] & 15], "two upper-case digits per byte, most significant byte first");
        if (i + 1 < c) VP_ASSERT(dst[3 * i + 2] == ' ', "single blanks between bytes");
    }
    for (i = 0; i < N; i++) VP_ASSERT(src[i] == IN.d[i], "the data is left alone");
    VP_REACH("end");
#elif defined(XML)
    /* N source characters (NUL allowed anywhere), every capacity 1..CAP */
    static u8 src[N + 1];
    size_t cap = IN.cap, len = 0;
    VP_ASSUME(cap >= 1 && cap <= CAP);
    for (i = 0; i < N; i++) src[i] = IN.d[i];
    src[N] = 0;
    while (src[len]) len++;
    VP_ASSERT(mbus_str_xml_encode(out + 1, src, cap) == 0, "escaping succeeds");
    VP_ASSERT(out[0] == 0xC3, "nothing before the text");
    size_t o = 0, s = 0, full = 0;
    /* reference escape of the source, compared on the fly */
    int stop = 0;
    for (i = 0; i < N; i++) if (i < len) {
        u8 ch = src[i];
        const char *e = ch == '&' ? "&amp;" : ch == '<' ? "&lt;" : ch == '>' ? "&gt;" : ch == '"' ? "&quot;" : 0;
        char one[2]; one[0] = (ch < 32 || ch == 127) ? ' ' : (char)ch; one[1] = 0;
        if (!e) e = one;
        size_t el = ch == '&' ? 5 : ch == '<' || ch == '>' ? 4 : ch == '"' ? 6 : 1;
        full += el;
        if (!stop) {
            if (out[1 + o] == 0) stop = 1;
            else {
                for (size_t j = 0; j < 6; j++) if (j < el) VP_ASSERT(out[1 + o + j] == (u8)e[j], "whole escape sequences in order");
                o += el;
            }
        }
    }
    VP_ASSERT(o < cap, "within the capacity");
    VP_ASSERT(out[1 + o] == 0, "the text is terminated");
    VP_ASSERT(o == full || o + 6 >= cap, "nothing is cut while six more bytes fit");
    for (i = 0; i < CAP; i++) if (i >= cap) VP_ASSERT(out[1 + i] == 0xC3, "nothing beyond the capacity");
    VP_ASSERT(mbus_str_xml_encode(NULL, src, cap) < 0, "no destination is an error");
    VP_ASSERT(mbus_str_xml_encode(out + 1, NULL, cap) < 0 && out[1] == 0, "no source gives an empty text");
    if (o == full && len == N) VP_REACH("whole text");
#if N > 0
    if (o < full) VP_REACH("cut text");
#endif
#elif defined(HEX)
    /* N characters, capacity CAPV */
    static u8 src[N + 1], ref[N + 1];
    size_t cnt = 0, p = 0, stop = 0;
    for (i = 0; i < N; i++) src[i] = IN.d[i];
    for (i = 0; i < N; i++) if (!stop && i == p) {
        if (p + 1 >= N) stop = 1;
        else if (blank(IN.d[p])) p++;
        else if (hexval(IN.d[p]) < 0 || hexval(IN.d[p + 1]) < 0 || cnt >= CAPV) stop = 1;
        else { ref[cnt++] = (u8)(hexval(IN.d[p]) << 4 | hexval(IN.d[p + 1])); p += 2; }
    }
    size_t r = mbus_hex2bin(out + 1, CAPV, src, N);
    VP_ASSERT(r == cnt, "one byte per two-digit group, up to the first other character");
    for (i = 0; i < CAPV && i < N; i++) if (i < cnt) VP_ASSERT(out[1 + i] == ref[i], "the bytes the text spells");
    VP_ASSERT(out[0] == 0xC3 && out[CAPV + 1] == 0xC3, "nothing outside the buffer");
    VP_ASSERT(mbus_hex2bin(NULL, CAPV, src, N) == 0 && mbus_hex2bin(out + 1, CAPV, NULL, N) == 0, "nothing to convert");
    if (cnt == (N / 2 < CAPV ? N / 2 : CAPV)) VP_REACH("full conversion");
    VP_REACH("end");
#elif defined(MAN)
    /* letters <-> two bytes <-> numeric id */
    static char code[6];
    for (i = 0; i < 4; i++) code[i] = (char)IN.d[i];
    size_t len = 0;
    while (code[len]) len++;
    int letters = len >= 3;
    u32 id = 0;
    u8 up[3];
    for (i = 0; i < 3; i++) {
        u8 c = (u8)code[i];
        if (c >= 'a' && c <= 'z') c -= 32;
        if (!(c >= 'A' && c <= 'Z')) letters = 0;
        up[i] = c;
        id = id * 32 + (c - 64u);
    }
    VP_ASSERT(mbus_manufacturer_id(code) == (letters ? id : 0), "numeric id of three letters, zero otherwise");
    VP_ASSERT(mbus_manufacturer_id(NULL) == 0, "no code, no id");
    if (letters) {
        VP_ASSERT(mbus_data_manufacturer_encode(out + 1, (u8 *)code) == 0, "letters are encoded");
        VP_ASSERT(out[1] == (u8)id && out[2] == (u8)(id >> 8) && out[0] == 0xC3 && out[3] == 0xC3, "the two header bytes");
        const char *s = mbus_decode_manufacturer(out[1], out[2]);
        VP_ASSERT((u8)s[0] == up[0] && (u8)s[1] == up[1] && (u8)s[2] == up[2] && s[3] == 0, "decoded letters in upper case");
        VP_REACH("letters");
    }
    const char *q = mbus_decode_manufacturer(IN.d[0], IN.d[1]);
    u32 v = IN.d[0] | (u32)IN.d[1] << 8;
    VP_ASSERT((u8)q[0] == ((v >> 10) & 31) + 64 && (u8)q[1] == ((v >> 5) & 31) + 64 && (u8)q[2] == (v & 31) + 64 && q[3] == 0, "three characters and a terminator for any bytes");
    VP_ASSERT(mbus_data_manufacturer_encode(NULL, (u8 *)code) < 0 && mbus_data_manufacturer_encode(out, NULL) < 0, "missing buffers are errors");
    if (!letters) VP_REACH("not letters");
#endif
    return 0;
}
