/* Default system-call stubs.  A harness that models a call defines VP_HAVE_<call>
 * (and the function) before including this file. */
#include "vp.h"
#ifndef VP_HAVE_read
ssize_t vp_read(int fd, void *b, size_t n) { return -1; }
#endif
#ifndef VP_HAVE_write
ssize_t vp_write(int fd, const void *b, size_t n) { return -1; }
#endif
#ifndef VP_HAVE_open
int vp_open(const char *p, int fl, ...) { return -1; }
#endif
#ifndef VP_HAVE_close
int vp_close(int fd) { return 0; }
#endif
#ifndef VP_HAVE_isatty
int vp_isatty(int fd) { return 1; }
#endif
#ifndef VP_HAVE_fcntl
int vp_fcntl(int fd, int c, ...) { return 0; }
#endif
#ifndef VP_HAVE_ioctl
int vp_ioctl(int fd, unsigned long c, ...) { return 0; }
#endif
#ifndef VP_HAVE_socket
int (vp_socket)(int d, int t, int p) { return -1; }
#endif
#ifndef VP_HAVE_connect
int vp_connect(int fd, const struct sockaddr *a, socklen_t l) { return -1; }
#endif
#ifndef VP_HAVE_setsockopt
int vp_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return 0; }
#endif
#ifndef VP_HAVE_select
int vp_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *t) { return 0; }
#endif
#ifndef VP_HAVE_poll
int vp_poll(struct pollfd *p, nfds_t n, int t) { return 0; }
#endif
#ifndef VP_HAVE_recv
ssize_t vp_recv(int fd, void *b, size_t n, int fl) { return vp_read(fd, b, n); }
#endif
#ifndef VP_HAVE_send
ssize_t vp_send(int fd, const void *b, size_t n, int fl) { return vp_write(fd, b, n); }
#endif
#ifndef VP_HAVE_gethostbyname
struct hostent *vp_gethostbyname(const char *n) { return 0; }
#endif
#ifndef VP_HAVE_tcgetattr
int vp_tcgetattr(int fd, struct termios *t) { return 0; }
#endif
#ifndef VP_HAVE_tcsetattr
int vp_tcsetattr(int fd, int a, const struct termios *t) { return 0; }
#endif
#ifndef VP_HAVE_tcflush
int vp_tcflush(int fd, int q) { return 0; }
#endif
#ifndef VP_HAVE_tcdrain
int vp_tcdrain(int fd) { return 0; }
#endif
#ifndef VP_HAVE_cfsetispeed
int vp_cfsetispeed(struct termios *t, speed_t s) { return 0; }
int vp_cfsetospeed(struct termios *t, speed_t s) { return 0; }
int vp_cfsetspeed(struct termios *t, speed_t s) { return 0; }
#endif
#ifndef VP_HAVE_usleep
int vp_usleep(useconds_t u) { return 0; }
unsigned vp_sleep(unsigned s) { return 0; }
#endif
#ifndef VP_HAVE_getaddrinfo
int vp_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res) { return -1; }
void vp_freeaddrinfo(struct addrinfo *a) { }
#endif
const char *vp_gai_strerror(int e) { return "error"; }
