/* Native side of vp_env.h: thin wrappers around the real C library, used when
 * a solver assignment is replayed against the real code. */
#ifndef VP_ENC
#include "vp.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
#undef printf
#undef fprintf
#undef snprintf
#undef vsnprintf
#undef sprintf
#undef time
#undef gmtime
#undef gmtime_r
#undef strftime
#undef fflush
#undef strtol
#undef strtoul
#undef strtoll
#undef strtoull
#undef pow
#undef strerror
long vp_prints, vp_live, vp_nalloc, vp_fail_at = -1;
void vp_fail(const char *m, const char *c, int l)
{
    printf("VP-FAIL line %d: %s [%s]\n", l, m, c); fflush(stdout); _exit(1);
}
void vp_reject(const char *c, int l)
{
    printf("VP-REJECT line %d: %s\n", l, c); fflush(stdout); _exit(77);
}
void vp_reached(const char *m) { printf("VP-REACH %s\n", m); fflush(stdout); }
#ifndef VP_FILL
#define VP_FILL 0xA5
#endif
void *vp_malloc(size_t n)
{
    if (vp_nalloc++ == vp_fail_at) return NULL;
    void *p = malloc(n);
    if (p) { vp_live++; memset(p, VP_FILL, n); }
    return p;
}
void *vp_calloc(size_t a, size_t b)
{
    void *p = vp_malloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
void vp_free(void *p) { if (p) { vp_live--; free(p); } }
void *vp_realloc(void *p, size_t n)
{
    if (!p) return vp_malloc(n);
    if (vp_nalloc++ == vp_fail_at) return NULL;
    return realloc(p, n);
}
char *vp_strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = vp_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
char *vp_strndup(const char *s, size_t n)
{
    n = strnlen(s, n);
    char *p = vp_malloc(n + 1);
    if (p) { memcpy(p, s, n); p[n] = 0; }
    return p;
}
int vp_vsnprintf(char *s, size_t n, const char *f, va_list ap) { return vsnprintf(s, n, f, ap); }
int vp_snprintf(char *s, size_t n, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = vsnprintf(s, n, f, ap);
    va_end(ap);
    return r;
}
int vp_sprintf(char *s, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = vsprintf(s, f, ap);
    va_end(ap);
    return r;
}
#ifdef VP_CAPTURE
char vp_cap[VP_CAPTURE];
size_t vp_cap_len;
static int vp_capv(const char *f, va_list ap)
{
    int r = vsnprintf(vp_cap + vp_cap_len, sizeof vp_cap - vp_cap_len, f, ap);
    vp_cap_len += r;
    if (vp_cap_len >= sizeof vp_cap) vp_reject("output too long", __LINE__);
    vp_prints++;
    return r;
}
int vp_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_capv(f, ap); va_end(ap); return r; }
int vp_fprintf(FILE *h, const char *f, ...) { va_list ap; va_start(ap, f); int r = vp_capv(f, ap); va_end(ap); return r; }
int vp_puts(const char *s) { return vp_printf("%s\n", s); }
int vp_fputs(const char *s, FILE *f) { return vp_printf("%s", s); }
int vp_putchar(int c) { vp_printf("%c", c); return c; }
int vp_fputc(int c, FILE *f) { vp_printf("%c", c); return c; }
#else
static char vp_sink[1 << 16];
int vp_printf(const char *f, ...)
{
    vp_prints++;
    va_list ap; va_start(ap, f);
    int r = vsnprintf(vp_sink, sizeof vp_sink, f, ap);
    va_end(ap);
    return r;
}
int vp_fprintf(FILE *h, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    int r = vsnprintf(vp_sink, sizeof vp_sink, f, ap);
    va_end(ap);
    return r;
}
int vp_puts(const char *s) { return (int)strlen(s); }
int vp_fputs(const char *s, FILE *f) { return (int)strlen(s); }
int vp_putchar(int c) { return c; }
int vp_fputc(int c, FILE *f) { return c; }
#endif
int vp_fflush(FILE *f) { return 0; }
void vp_perror(const char *s) { }
#undef isxdigit
#undef isdigit
#undef isalpha
#undef isalnum
#undef iscntrl
#undef isspace
#undef isprint
#undef isupper
#undef islower
#undef toupper
#undef tolower
int isxdigit(int), isdigit(int), isalpha(int), isalnum(int), iscntrl(int), isspace(int), isprint(int), isupper(int), islower(int), toupper(int), tolower(int);
int vp_isxdigit(int c) { return isxdigit(c); }
int vp_isdigit(int c) { return isdigit(c); }
int vp_isalpha(int c) { return isalpha(c); }
int vp_isalnum(int c) { return isalnum(c); }
int vp_iscntrl(int c) { return iscntrl(c); }
int vp_isspace(int c) { return isspace(c); }
int vp_isprint(int c) { return isprint(c); }
int vp_isupper(int c) { return isupper(c); }
int vp_islower(int c) { return islower(c); }
int vp_toupper(int c) { return toupper(c); }
int vp_tolower(int c) { return tolower(c); }
long vp_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long vp_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
long long vp_strtoll(const char *s, char **e, int b) { return strtoll(s, e, b); }
unsigned long long vp_strtoull(const char *s, char **e, int b) { return strtoull(s, e, b); }
int vp_atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long vp_atol(const char *s) { return strtol(s, NULL, 10); }
double vp_pow(double x, double y) { return pow(x, y); }
char *vp_strerror(int e) { return "error"; }
#ifndef VP_OWN_TIME
time_t vp_now;
time_t (vp_time)(time_t *t) { if (t) *t = vp_now; return vp_now; }
struct tm *vp_gmtime(const time_t *t) { static struct tm z; z.tm_year = 70; z.tm_mday = 1; return &z; }
struct tm *vp_gmtime_r(const time_t *t, struct tm *r) { return gmtime_r(t, r); }
size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *t)
{
    const char *z = "1970-01-01T00:00:00Z";
    if (n < 21) return 0;
    memcpy(s, z, 21);
    return 20;
}
#endif
#define snprintf vp_snprintf
#endif
