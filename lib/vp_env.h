/* Forced include (-include) for every translation unit that is encoded or
 * replayed: the library's sources as they stand in /repo and the harness.
 * It redirects the library's environment (allocator, formatted output, clock,
 * file descriptors, sockets, terminal control, ctype, number parsing) to vp_*
 * functions.  In the encoding these are models (vp_models.h); in the native
 * replay they are thin wrappers around the real C library (vp_native.h), except
 * for the system calls, which the harness itself provides in both builds.
 */
#ifndef VP_ENV_H
#define VP_ENV_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <sys/types.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <math.h>
#include <poll.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

/* allocator */
void *vp_malloc(size_t n);
void *vp_calloc(size_t n, size_t m);
void *vp_realloc(void *p, size_t n);
void vp_free(void *p);
char *vp_strdup(const char *s);
char *vp_strndup(const char *s, size_t n);
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#undef strdup
#undef strndup
#define strdup vp_strdup
#define strndup vp_strndup

#ifdef VP_ENC
void *vp_memset(void *p, int c, size_t n);
#undef memset
#define memset vp_memset
#endif

/* formatted output */
int vp_printf(const char *f, ...);
int vp_fprintf(FILE *s, const char *f, ...);
int vp_snprintf(char *s, size_t n, const char *f, ...);
int vp_sprintf(char *s, const char *f, ...);
int vp_vsnprintf(char *s, size_t n, const char *f, va_list ap);
int vp_puts(const char *s);
int vp_fputs(const char *s, FILE *f);
int vp_putchar(int c);
int vp_fputc(int c, FILE *f);
int vp_fflush(FILE *f);
void vp_perror(const char *s);
#undef printf
#undef fprintf
#undef snprintf
#undef sprintf
#undef vsnprintf
#undef puts
#undef fputs
#undef putchar
#undef putc
#undef fputc
#undef fflush
#undef perror
#ifdef VP_ENC
/* CBMC passes variadic arguments unpromoted; C promotes them. */
#define VP_P(x) _Generic((x), char: (int)(x), signed char: (int)(x), unsigned char: (int)(x), short: (int)(x), unsigned short: (int)(x), float: (double)(x), default: (x))
#define VP_NARG_(a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, N, ...) N
#define VP_NARG(...) VP_NARG_(__VA_ARGS__, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1)
#define VP_CAT_(a, b) a##b
#define VP_CAT(a, b) VP_CAT_(a, b)
#define VP_PR1(a) a
#define VP_PR2(a, ...) a, VP_PQ1(__VA_ARGS__)
#define VP_PR3(a, ...) a, VP_PQ2(__VA_ARGS__)
#define VP_PR4(a, ...) a, VP_PQ3(__VA_ARGS__)
#define VP_PR5(a, ...) a, VP_PQ4(__VA_ARGS__)
#define VP_PR6(a, ...) a, VP_PQ5(__VA_ARGS__)
#define VP_PR7(a, ...) a, VP_PQ6(__VA_ARGS__)
#define VP_PR8(a, ...) a, VP_PQ7(__VA_ARGS__)
#define VP_PR9(a, ...) a, VP_PQ8(__VA_ARGS__)
#define VP_PR10(a, ...) a, VP_PQ9(__VA_ARGS__)
#define VP_PR11(a, ...) a, VP_PQ10(__VA_ARGS__)
#define VP_PR12(a, ...) a, VP_PQ11(__VA_ARGS__)
#define VP_PR13(a, ...) a, VP_PQ12(__VA_ARGS__)
#define VP_PR14(a, ...) a, VP_PQ13(__VA_ARGS__)
#define VP_PR15(a, ...) a, VP_PQ14(__VA_ARGS__)
#define VP_PR16(a, ...) a, VP_PQ15(__VA_ARGS__)
#define VP_PR17(a, ...) a, VP_PQ16(__VA_ARGS__)
#define VP_PR18(a, ...) a, VP_PQ17(__VA_ARGS__)
#define VP_PR19(a, ...) a, VP_PQ18(__VA_ARGS__)
#define VP_PR20(a, ...) a, VP_PQ19(__VA_ARGS__)
#define VP_PR21(a, ...) a, VP_PQ20(__VA_ARGS__)
#define VP_PR22(a, ...) a, VP_PQ21(__VA_ARGS__)
#define VP_PR23(a, ...) a, VP_PQ22(__VA_ARGS__)
#define VP_PR24(a, ...) a, VP_PQ23(__VA_ARGS__)
#define VP_PQ1(a) VP_P(a)
#define VP_PQ2(a, ...) VP_P(a), VP_PQ1(__VA_ARGS__)
#define VP_PQ3(a, ...) VP_P(a), VP_PQ2(__VA_ARGS__)
#define VP_PQ4(a, ...) VP_P(a), VP_PQ3(__VA_ARGS__)
#define VP_PQ5(a, ...) VP_P(a), VP_PQ4(__VA_ARGS__)
#define VP_PQ6(a, ...) VP_P(a), VP_PQ5(__VA_ARGS__)
#define VP_PQ7(a, ...) VP_P(a), VP_PQ6(__VA_ARGS__)
#define VP_PQ8(a, ...) VP_P(a), VP_PQ7(__VA_ARGS__)
#define VP_PQ9(a, ...) VP_P(a), VP_PQ8(__VA_ARGS__)
#define VP_PQ10(a, ...) VP_P(a), VP_PQ9(__VA_ARGS__)
#define VP_PQ11(a, ...) VP_P(a), VP_PQ10(__VA_ARGS__)
#define VP_PQ12(a, ...) VP_P(a), VP_PQ11(__VA_ARGS__)
#define VP_PQ13(a, ...) VP_P(a), VP_PQ12(__VA_ARGS__)
#define VP_PQ14(a, ...) VP_P(a), VP_PQ13(__VA_ARGS__)
#define VP_PQ15(a, ...) VP_P(a), VP_PQ14(__VA_ARGS__)
#define VP_PQ16(a, ...) VP_P(a), VP_PQ15(__VA_ARGS__)
#define VP_PQ17(a, ...) VP_P(a), VP_PQ16(__VA_ARGS__)
#define VP_PQ18(a, ...) VP_P(a), VP_PQ17(__VA_ARGS__)
#define VP_PQ19(a, ...) VP_P(a), VP_PQ18(__VA_ARGS__)
#define VP_PQ20(a, ...) VP_P(a), VP_PQ19(__VA_ARGS__)
#define VP_PQ21(a, ...) VP_P(a), VP_PQ20(__VA_ARGS__)
#define VP_PQ22(a, ...) VP_P(a), VP_PQ21(__VA_ARGS__)
#define VP_PQ23(a, ...) VP_P(a), VP_PQ22(__VA_ARGS__)
#define VP_PQ24(a, ...) VP_P(a), VP_PQ23(__VA_ARGS__)
#define VP_PROMOTE(...) VP_CAT(VP_PR, VP_NARG(__VA_ARGS__))(__VA_ARGS__)
#define printf(...) vp_printf(VP_PROMOTE(__VA_ARGS__))
#define fprintf(s, ...) vp_fprintf(s, VP_PROMOTE(__VA_ARGS__))
#define snprintf(s, n, ...) vp_snprintf(s, n, VP_PROMOTE(__VA_ARGS__))
#define sprintf(s, ...) vp_sprintf(s, VP_PROMOTE(__VA_ARGS__))
#else
#define printf vp_printf
#define fprintf vp_fprintf
#define snprintf vp_snprintf
#define sprintf vp_sprintf
#endif
#define vsnprintf vp_vsnprintf
#define puts vp_puts
#define fputs vp_fputs
#define putchar vp_putchar
#define putc vp_fputc
#define fputc vp_fputc
#define fflush vp_fflush
#define perror vp_perror

/* ctype, number parsing, floating point */
int vp_isxdigit(int c);
int vp_isdigit(int c);
int vp_isalpha(int c);
int vp_isalnum(int c);
int vp_iscntrl(int c);
int vp_isspace(int c);
int vp_isprint(int c);
int vp_isupper(int c);
int vp_islower(int c);
int vp_toupper(int c);
int vp_tolower(int c);
#undef isxdigit
#undef isdigit
#undef isalpha
#undef isalnum
#undef iscntrl
#undef isspace
#undef isprint
#undef isupper
#undef islower
#undef toupper
#undef tolower
#define isxdigit vp_isxdigit
#define isdigit vp_isdigit
#define isalpha vp_isalpha
#define isalnum vp_isalnum
#define iscntrl vp_iscntrl
#define isspace vp_isspace
#define isprint vp_isprint
#define isupper vp_isupper
#define islower vp_islower
#define toupper vp_toupper
#define tolower vp_tolower
long vp_strtol(const char *s, char **e, int b);
unsigned long vp_strtoul(const char *s, char **e, int b);
long long vp_strtoll(const char *s, char **e, int b);
unsigned long long vp_strtoull(const char *s, char **e, int b);
int vp_atoi(const char *s);
long vp_atol(const char *s);
#undef atoi
#undef atol
#define strtol vp_strtol
#define strtoul vp_strtoul
#define strtoll vp_strtoll
#define strtoull vp_strtoull
#define atoi vp_atoi
#define atol vp_atol
double vp_pow(double x, double y);
#undef pow
#define pow vp_pow

/* clock */
time_t vp_time(time_t *t);
struct tm *vp_gmtime(const time_t *t);
struct tm *vp_gmtime_r(const time_t *t, struct tm *r);
size_t vp_strftime(char *s, size_t n, const char *f, const struct tm *t);
#define time(x) vp_time(x)
#define gmtime vp_gmtime
#define gmtime_r vp_gmtime_r
#define strftime vp_strftime
char *vp_strerror(int e);
#define strerror vp_strerror

/* system calls: provided by the harness through vp_sys.h in both builds */
ssize_t vp_read(int fd, void *b, size_t n);
ssize_t vp_write(int fd, const void *b, size_t n);
int vp_open(const char *p, int fl, ...);
int vp_close(int fd);
int vp_isatty(int fd);
int vp_fcntl(int fd, int c, ...);
int vp_ioctl(int fd, unsigned long c, ...);
int vp_socket(int d, int t, int p);
int vp_connect(int fd, const struct sockaddr *a, socklen_t l);
int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n);
int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t);
int vp_poll(struct pollfd *p, nfds_t n, int t);
ssize_t vp_recv(int fd, void *b, size_t n, int fl);
ssize_t vp_send(int fd, const void *b, size_t n, int fl);
struct hostent *vp_gethostbyname(const char *n);
int vp_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res);
void vp_freeaddrinfo(struct addrinfo *a);
const char *vp_gai_strerror(int e);
int vp_tcgetattr(int fd, struct termios *t);
int vp_tcsetattr(int fd, int a, const struct termios *t);
int vp_tcflush(int fd, int q);
int vp_tcdrain(int fd);
int vp_cfsetispeed(struct termios *t, speed_t s);
int vp_cfsetospeed(struct termios *t, speed_t s);
int vp_cfsetspeed(struct termios *t, speed_t s);
int vp_usleep(useconds_t u);
unsigned vp_sleep(unsigned s);
#define read vp_read
#define write vp_write
#define open vp_open
#define close vp_close
#define isatty vp_isatty
#define fcntl vp_fcntl
#define ioctl vp_ioctl
#define socket(d, t, p) vp_socket(d, t, p)
#define connect vp_connect
#define setsockopt vp_setsockopt
#define select vp_select
#define gethostbyname vp_gethostbyname
#define getaddrinfo vp_getaddrinfo
#define freeaddrinfo vp_freeaddrinfo
#define gai_strerror vp_gai_strerror
#define tcgetattr vp_tcgetattr
#define tcsetattr vp_tcsetattr
#define tcflush vp_tcflush
#define tcdrain vp_tcdrain
#define cfsetispeed vp_cfsetispeed
#define cfsetospeed vp_cfsetospeed
#define cfsetspeed vp_cfsetspeed
#define usleep vp_usleep
#define sleep vp_sleep
/* recv/send/poll are called with arguments, and are also struct member names;
 * object-like macros rename both consistently in every unit. */
#define recv vp_recv
#define send vp_send
#define poll vp_poll

#endif
