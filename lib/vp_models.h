/* Models of the C library for the encoding.  Included by a harness, once.
 * Options (define before including):
 *   VP_STR_MAX      longest string %s / strdup may see (default 64)
 *   VP_INT_EXACT    render %d and friends as real decimal (default: an
 *                   injective 17-character token of the mathematical value)
 *   VP_LIGHT_FMT    formatted text is empty (for subjects that format nothing)
 *   VP_QUIET_ERRORS texts of the form "%s: ..." (error messages) are empty
 *   VP_PRINT_SINK   printf/fprintf also traverse their string arguments
 *   VP_MALLOC_END   place blocks of symbolic size at the end of a fixed block
 */
#ifdef VP_ENC
#include "vp.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#ifndef VP_STR_MAX
#define VP_STR_MAX 64
#endif

long vp_live, vp_nalloc, vp_prints, vp_fail_at = -1;
void vp_fail(const char *m, const char *c, int l) { }
void vp_reject(const char *c, int l) { }
void vp_reached(const char *m) { }

#undef memset
#ifdef VP_TYPED_ALLOC
/* Blocks of the library's own structures keep their type (and memset of a
 * whole structure keeps it too): the same bytes, far smaller formulas. */
static const mbus_data_record vp_zero_record;
static const mbus_frame_data vp_zero_frame_data;
static const mbus_frame vp_zero_frame;
static mbus_data_record *vp_last_record;   /* the record allocated last */
static void *vp_block(size_t n)
{
    if (n == sizeof(mbus_data_record)) { vp_last_record = malloc(sizeof(mbus_data_record)); return vp_last_record; }
    if (n == sizeof(mbus_frame_data)) return malloc(sizeof(mbus_frame_data));
    if (n == sizeof(mbus_frame)) return malloc(sizeof(mbus_frame));
    return malloc(n);
}
void *vp_memset(void *p, int c, size_t n)
{
    if (c == 0 && n == sizeof(mbus_data_record)) *(mbus_data_record *)p = vp_zero_record;
    else if (c == 0 && n == sizeof(mbus_frame_data)) *(mbus_frame_data *)p = vp_zero_frame_data;
    else if (c == 0 && n == sizeof(mbus_frame)) *(mbus_frame *)p = vp_zero_frame;
    else memset(p, c, n);
    return p;
}
#else
static void *vp_block(size_t n) { return malloc(n); }
void *vp_memset(void *p, int c, size_t n) { return memset(p, c, n); }
#endif
#ifndef VP_OWN_ALLOC
void *vp_malloc(size_t n)
{
#ifdef VP_MAY_FAIL
    if (vp_nalloc++ == vp_fail_at) return 0;
#else
    vp_nalloc++;
#endif
    void *p = vp_block(n);
    __CPROVER_assume(p != 0);
    vp_live++;
    return p;
}
void *vp_calloc(size_t a, size_t b)
{
    void *p = vp_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void vp_free(void *p)
{
    if (!p) return;
    vp_live--;
#ifndef VP_SHARE_STRDUP
    free(p);
#endif
}
void *vp_realloc(void *p, size_t n)
{
    if (!p) return vp_malloc(n);
    char *q = vp_malloc(n);
    if (!q) return 0;
    size_t o = __CPROVER_OBJECT_SIZE(p);
    memcpy(q, p, o < n ? o : n);
    vp_free(p);
    return q;
}
#endif
#ifdef VP_SHARE_STRDUP
/* The harness only compares and releases what strdup returned, and nothing is
 * written to it: the copy is the original, counted as a block. */
char *vp_strdup(const char *s) { vp_live++; return (char *)s; }
#else
char *vp_strdup(const char *s)
{
    /* a block of fixed size keeps the object's size concrete */
    char *p = vp_malloc(VP_STR_MAX + 1);
    if (!p) return 0;
    size_t i = 0;
    for (; i < VP_STR_MAX && s[i]; i++) p[i] = s[i];
    VP_MODEL(s[i] == 0, "strdup argument within the modelled length");
    p[i] = 0;
    return p;
}
#endif
char *vp_strndup(const char *s, size_t n)
{
    char *p = vp_malloc(VP_STR_MAX + 1);
    if (!p) return 0;
    size_t i = 0;
    for (; i < VP_STR_MAX && i < n && s[i]; i++) p[i] = s[i];
    VP_MODEL(i == n || s[i] == 0, "strndup argument within the modelled length");
    p[i] = 0;
    return p;
}

#ifndef VP_LIGHT_FMT
/* ---- formatted output --------------------------------------------------- */
struct vp_out { char *s; size_t n, pos; };
static void vp_put(struct vp_out *o, char c)
{
    if (o->n && o->pos < o->n - 1) o->s[o->pos] = c;
    o->pos++;
}
static const char vp_hexu[] = "0123456789ABCDEF", vp_hexl[] = "0123456789abcdef";
/* injective token of a 64-bit quantity: tag + 16 nibbles as letters a..p */
static void vp_token(struct vp_out *o, char tag, unsigned long long v)
{
    vp_put(o, tag);
    for (int k = 15; k >= 0; k--) vp_put(o, 'a' + (char)((v >> (4 * k)) & 15));
}
static void vp_hex(struct vp_out *o, unsigned long long v, int width, const char *dig)
{
    /* minimum width (zero padded), grows with the value */
    int nd = 1;
    if (width == 2) {   /* a byte: keeps the position concrete */
        VP_MODEL(v < 256, "two-digit hexadecimal conversions see a byte");
    }
#ifdef VP_HEX_TOKEN
    else if (width <= 1) nd = 16;
#endif
#ifdef VP_HEX_EXACT
    else if (width <= 1) {   /* the harness assumes this many digits */
        nd = VP_HEX_EXACT;
        VP_MODEL((v >> (4 * nd)) == 0 && (nd == 1 || (v >> (4 * nd - 4)) != 0), "hexadecimal conversions have the modelled number of digits");
    }
#endif
    else for (int k = 1; k < 16; k++) if (v >> (4 * k)) nd = k + 1;
    if (nd <= width) {
        for (int k = width - 1; k >= 0; k--)
            vp_put(o, k > 15 ? '0' : dig[(v >> (4 * k)) & 15]);
    } else {
        for (int k = 15; k >= 0; k--) if (k < nd) vp_put(o, dig[(v >> (4 * k)) & 15]);
    }
}
static void vp_dec(struct vp_out *o, long long v, int width, int zero, int maxdig)
{
    char d[20];
    int neg = v < 0, nd = 1;
    unsigned long long u = neg ? 0ull - (unsigned long long)v : (unsigned long long)v;
    unsigned x = (unsigned)u;
    VP_MODEL(u <= 999999999ull, "padded decimal conversions see at most nine digits");
    for (int k = 0; k < maxdig; k++) { d[k] = '0' + (char)(x % 10); x /= 10; if (d[k] != '0') nd = k + 1; }
    VP_MODEL(x == 0, "padded decimal conversions see at most the modelled digits");
#ifdef VP_PAD_FIT
    /* zero-padded numbers fit their width: the position stays concrete */
    if (zero && width > 0) {
        VP_MODEL(!neg && nd <= width, "zero-padded conversions fit their width");
        for (int k = width - 1; k >= 0; k--) vp_put(o, d[k]);
        return;
    }
#endif
    int pad = width - nd - neg;
    if (zero) { if (neg) vp_put(o, '-'); for (int k = 0; k < width; k++) if (k < pad) vp_put(o, '0'); }
    else { for (int k = 0; k < width; k++) if (k < pad) vp_put(o, ' '); if (neg) vp_put(o, '-'); }
    for (int k = maxdig - 1; k >= 0; k--) if (k < nd) vp_put(o, d[k]);
}
#ifndef VP_PAD_DIGITS
#define VP_PAD_DIGITS 5
#endif
static void vp_vfmt(struct vp_out *o, const char *f, va_list ap)
{
    for (; *f; f++) {
        if (*f != '%') { vp_put(o, *f); continue; }
        f++;
        if (*f == '%') { vp_put(o, '%'); continue; }
        int zero = 0, left = 0, width = 0, prec = -1, lng = 0;
        for (; *f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#'; f++) {
            if (*f == '0') zero = 1;
            if (*f == '-') left = 1;
        }
        if (*f == '*') { width = va_arg(ap, int); f++; }
        else for (; *f >= '0' && *f <= '9'; f++) width = width * 10 + (*f - '0');
        if (*f == '.') {
            f++; prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else for (; *f >= '0' && *f <= '9'; f++) prec = prec * 10 + (*f - '0');
        }
        for (; *f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't'; f++) {
            if (*f == 'h') lng--; else if (*f == 'l') lng++; else lng = 2;
        }
        switch (*f) {
        case 'd': case 'i': {
            long long v = lng > 0 ? va_arg(ap, long) : va_arg(ap, int);
            if (lng == -1) v = (short)v; else if (lng <= -2) v = (signed char)v;
            if (prec > width) { width = prec; zero = 1; }
            if (width == 0) {
#ifdef VP_INT_EXACT
                vp_dec(o, v, 0, 0, VP_INT_EXACT);
#else
                vp_token(o, 'i', (unsigned long long)v);
#endif
            } else vp_dec(o, v, width, zero, VP_PAD_DIGITS > width ? VP_PAD_DIGITS : width);
            break; }
        case 'u': {
            unsigned long long v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            if (lng == -1) v = (unsigned short)v; else if (lng <= -2) v = (unsigned char)v;
            if (prec > width) { width = prec; zero = 1; }
            if (width == 0) {
#ifdef VP_INT_EXACT
                vp_dec(o, (long long)v, 0, 0, VP_INT_EXACT);
#else
                vp_token(o, 'i', v);
#endif
            } else vp_dec(o, (long long)v, width, zero, VP_PAD_DIGITS > width ? VP_PAD_DIGITS : width);
            break; }
        case 'x': case 'X': {
            unsigned long long v = lng > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
            if (lng == -1) v = (unsigned short)v; else if (lng <= -2) v = (unsigned char)v;
            if (prec > width) width = prec;
            vp_hex(o, v, width, *f == 'X' ? vp_hexu : vp_hexl);
            break; }
        case 'c': vp_put(o, (char)va_arg(ap, int)); break;
        case 'f': case 'F': case 'e': case 'g': case 'G': case 'E': {
            union { double d; unsigned long long u; } u;
            u.d = va_arg(ap, double);
            vp_token(o, *f, u.u);
            break; }
        case 'p': { void *p = va_arg(ap, void *); vp_put(o, 'p'); break; }
        case 's': {
            const char *s = va_arg(ap, const char *);
            size_t k = 0;
            if (!s) s = "(null)";
#ifdef VP_PTR_TOKEN   /* texts the harness knows by their address */
            if (VP_PTR_TOKEN(s)) { vp_token(o, 's', (unsigned long long)(size_t)VP_PTR_TOKEN(s)); break; }
#endif
#ifdef VP_S_WIDTH   /* every text takes the same room: positions stay concrete */
            int end = 0;
            for (; k < VP_S_WIDTH; k++) { if (!end && s[k] == 0) end = 1; vp_put(o, end ? '~' : s[k]); }
            break;
#endif
            for (; k < VP_STR_MAX && (prec < 0 || k < (size_t)prec) && s[k]; k++) vp_put(o, s[k]);
            VP_MODEL(k < VP_STR_MAX || (prec >= 0 && k >= (size_t)prec) || s[k] == 0, "%s argument within the modelled length");
            for (; k < (size_t)width; k++) vp_put(o, ' ');
            break; }
        default:
            VP_MODEL(0, "unmodelled conversion");
        }
    }
}
static int vp_vout(char *s, size_t n, const char *f, va_list ap)
{
    struct vp_out o = { s, n, 0 };
#ifdef VP_QUIET_ERRORS
    /* the library's error messages ("%s: ...") are not the subject: empty */
    if (f[0] == '%' && f[1] == 's' && f[2] == ':') { if (n) s[0] = 0; return 0; }
#endif
    vp_vfmt(&o, f, ap);
    if (n) s[o.pos < n ? o.pos : n - 1] = 0;
    return (int)o.pos;
}
#endif
#ifdef VP_LIGHT_FMT
/* formatted text is not the subject: it is empty */
int vp_vsnprintf(char *s, size_t n, const char *f, va_list ap) { if (n) s[0] = 0; return 0; }
int vp_snprintf(char *s, size_t n, const char *f, ...) { if (n) s[0] = 0; return 0; }
int vp_sprintf(char *s, const char *f, ...) { s[0] = 0; return 0; }
#elif !defined(VP_OWN_SNPRINTF)
int vp_vsnprintf(char *s, size_t n, const char *f, va_list ap) { return vp_vout(s, n, f, ap); }
int vp_snprintf(char *s, size_t n, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = vp_vout(s, n, f, ap);
    va_end(ap);
    return r;
}
int vp_sprintf(char *s, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = vp_vout(s, 0x7fffffff, f, ap);
    va_end(ap);
    return r;
}
#endif
#ifdef VP_CAPTURE
/* everything printed, one text after the other */
char vp_cap[VP_CAPTURE];
size_t vp_cap_len;
static int vp_capv(const char *f, va_list ap)
{
    struct vp_out o = { vp_cap, sizeof vp_cap, vp_cap_len };
    vp_vfmt(&o, f, ap);
    VP_MODEL(o.pos < sizeof vp_cap, "output within the captured size");
    int r = (int)(o.pos - vp_cap_len);
    vp_cap_len = o.pos;
    vp_prints++;
    return r;
}
int vp_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_capv(f, ap); va_end(ap); return r; }
int vp_fprintf(FILE *h, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_capv(f, ap); va_end(ap); return r; }
#elif defined(VP_PRINT_SINK)
static char vp_sink[VP_PRINT_SINK];
int vp_printf(const char *f, ...)
{
    vp_prints++;
    va_list ap; va_start(ap, f);
    int r = vp_vout(vp_sink, sizeof vp_sink, f, ap);
    va_end(ap);
    return r;
}
int vp_fprintf(FILE *h, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = vp_vout(vp_sink, sizeof vp_sink, f, ap);
    va_end(ap);
    return r;
}
#else
int vp_printf(const char *f, ...) { vp_prints++; return 0; }
int vp_fprintf(FILE *h, const char *f, ...) { return 0; }
#endif
#ifdef VP_CAPTURE
int vp_puts(const char *s) { return vp_printf("%s\n", s); }
int vp_fputs(const char *s, FILE *f) { return vp_printf("%s", s); }
int vp_putchar(int c) { vp_printf("%c", c); return c; }
int vp_fputc(int c, FILE *f) { vp_printf("%c", c); return c; }
#else
int vp_puts(const char *s) { return 0; }
int vp_fputs(const char *s, FILE *f) { return 0; }
int vp_putchar(int c) { return c; }
int vp_fputc(int c, FILE *f) { return c; }
#endif
int vp_fflush(FILE *f) { return 0; }
void vp_perror(const char *s) { }

/* ---- ctype (C locale; arguments outside 0..127 belong to no class) ------- */
int vp_isdigit(int c) { return c >= '0' && c <= '9'; }
int vp_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int vp_islower(int c) { return c >= 'a' && c <= 'z'; }
int vp_isalpha(int c) { return vp_isupper(c) || vp_islower(c); }
int vp_isalnum(int c) { return vp_isalpha(c) || vp_isdigit(c); }
int vp_isxdigit(int c) { return vp_isdigit(c) || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'); }
int vp_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int vp_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int vp_isprint(int c) { return c >= 32 && c < 127; }
int vp_toupper(int c) { return vp_islower(c) ? c - 32 : c; }
int vp_tolower(int c) { return vp_isupper(c) ? c + 32 : c; }

/* ---- number parsing (C locale, up to VP_NUM_MAX characters) -------------- */
#ifndef VP_NUM_MAX
#define VP_NUM_MAX 20
#endif
static int vp_digval(int c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'z') return c - 'a' + 10;
    if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
    return 99;
}
/* magnitude saturates at 2^64-1; *neg, *any report the syntax */
static unsigned long long vp_num(const char *s, char **end, int base, int *neg, int *over)
{
    size_t i = 0;
    int any = 0;
    unsigned long long v = 0;
    const char *stop = s;
    *neg = 0; *over = 0;
    for (int k = 0; k < VP_NUM_MAX && vp_isspace((unsigned char)s[i]); k++) i++;
    if (s[i] == '+' || s[i] == '-') { *neg = s[i] == '-'; i++; }
    if ((base == 0 || base == 16) && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') && vp_digval(s[i + 2]) < 16) { i += 2; base = 16; }
    else if (base == 0) base = s[i] == '0' ? 8 : 10;
    for (int k = 0; k < VP_NUM_MAX; k++) {
        int d = vp_digval((unsigned char)s[i]);
        if (d >= base) break;
        if (v > (0xFFFFFFFFFFFFFFFFull - (unsigned)d) / (unsigned)base) *over = 1;
        v = v * (unsigned)base + (unsigned)d;
        any = 1; i++;
    }
    if (any) stop = s + i;
    VP_MODEL(vp_digval((unsigned char)s[i]) >= base || !any || *over, "number within the modelled length");
    if (end) *end = (char *)stop;
    return v;
}
unsigned long vp_strtoul(const char *s, char **e, int b)
{
    int neg, over;
    unsigned long long v = vp_num(s, e, b, &neg, &over);
    if (over) { errno = ERANGE; return ULONG_MAX; }
    return neg ? 0ul - v : v;
}
long vp_strtol(const char *s, char **e, int b)
{
    int neg, over;
    unsigned long long v = vp_num(s, e, b, &neg, &over);
    if (over || v > (unsigned long long)LONG_MAX + neg) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? (long)(0ull - v) : (long)v;
}
long long vp_strtoll(const char *s, char **e, int b) { return vp_strtol(s, e, b); }
unsigned long long vp_strtoull(const char *s, char **e, int b) { return vp_strtoul(s, e, b); }
int vp_atoi(const char *s) { return (int)vp_strtol(s, 0, 10); }
long vp_atol(const char *s) { return vp_strtol(s, 0, 10); }

/* ---- pow for the two bases the library uses ------------------------------ */
double vp_pow(double x, double y)
{
    int e = (int)y;
    VP_MODEL((double)e == y && (x == 10.0 || x == 2.0), "pow with base 2 or 10 and an integer exponent");
    if (x == 10.0) {
        switch (e) {
        case -12: return 1e-12; case -11: return 1e-11; case -10: return 1e-10;
        case -9: return 1e-9; case -8: return 1e-8; case -7: return 1e-7; case -6: return 1e-6;
        case -5: return 1e-5; case -4: return 1e-4; case -3: return 1e-3; case -2: return 1e-2;
        case -1: return 1e-1; case 0: return 1.0; case 1: return 10.0; case 2: return 100.0;
        case 3: return 1e3; case 4: return 1e4; case 5: return 1e5; case 6: return 1e6;
        case 7: return 1e7; case 8: return 1e8; case 9: return 1e9; case 10: return 1e10;
        case 11: return 1e11; case 12: return 1e12;
        }
        VP_MODEL(0, "pow exponent within -12..12");
        return 1.0;
    }
    union { double d; unsigned long long u; } u;
    VP_MODEL(e >= -1022 && e <= 1023, "pow exponent of two within the normal range");
    u.u = (unsigned long long)(e + 1023) << 52;
    return u.d;
}
char *vp_strerror(int e) { return "error"; }

/* ---- clock ---------------------------------------------------------------- */
#ifndef VP_OWN_TIME
time_t vp_now;
time_t (vp_time)(time_t *t) { if (t) *t = vp_now; return vp_now; }
struct tm *vp_gmtime(const time_t *t) { static struct tm z; return &z; }
struct tm *vp_gmtime_r(const time_t *t, struct tm *r) { memset(r, 0, sizeof *r); return r; }
/* the rendered time is a fixed text: the calendar is not the library's */
size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *t)
{
    const char *z = "1970-01-01T00:00:00Z";
    if (n < 21) return 0;
    for (int k = 0; k < 21; k++) s[k] = z[k];
    return 20;
}
#endif
/* keep harness allocations out of the ghost count */
#endif
