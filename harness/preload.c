/* Under the real programs: traffic to port 53 of a.b.c.d goes to port SIM_PORT of 127.b.c.d,
   and the time limits set on sockets are noted in the file SIM_LOG. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

static void redirect(const struct sockaddr *a, socklen_t l, struct sockaddr_in *o) {
    memcpy(o, a, sizeof *o);
    const char *p = getenv("SIM_PORT");
    if (p && a->sa_family == AF_INET && l >= sizeof *o && o->sin_port == htons(53)) {
        o->sin_addr.s_addr = htonl(0x7f000000u | (ntohl(o->sin_addr.s_addr) & 0xffffffu));
        o->sin_port = htons(atoi(p));
    }
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
    struct sockaddr_in o;
    if (a->sa_family != AF_INET) return syscall(SYS_connect, fd, a, l);
    redirect(a, l, &o);
    return syscall(SYS_connect, fd, &o, sizeof o);
}
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
    struct sockaddr_in o;
    if (!a || a->sa_family != AF_INET) return syscall(SYS_sendto, fd, b, n, fl, a, l);
    redirect(a, l, &o);
    return syscall(SYS_sendto, fd, b, n, fl, &o, sizeof o);
}
static int num(const char *k) {
    const char *p = getenv(k);
    return p ? atoi(p) : -1;
}
int setsockopt(int fd, int level, int name, const void *v, socklen_t n) {
    const char *f = getenv("SIM_LOG");
    if (f && level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO)) {
        int ty = 0;
        socklen_t l = sizeof ty;
        getsockopt(fd, SOL_SOCKET, SO_TYPE, &ty, &l);
        struct sockaddr_storage me;
        socklen_t ml = sizeof me;
        int port = 0;
        if (getsockname(fd, (struct sockaddr *)&me, &ml) == 0)
            port = ntohs(me.ss_family == AF_INET6 ? ((struct sockaddr_in6 *)&me)->sin6_port : ((struct sockaddr_in *)&me)->sin_port);
        /* a socket of one of the servers has its port, any other is a client's */
        const char *c = ty == SOCK_STREAM ? (port == num("SIM_TCP") ? "tcp" : "up") : (port == num("SIM_UDP") ? "udp" : "up");
        char s[100];
        const struct timeval *t = v;
        int k = snprintf(s, sizeof s, "%s %s %ld\n", c, name == SO_RCVTIMEO ? "r" : "w", (long)(t->tv_sec * 1000 + t->tv_usec / 1000));
        int o = open(f, O_WRONLY | O_APPEND | O_CREAT, 0600);
        if (o >= 0) {
            if (write(o, s, k) != k) abort();
            close(o);
        }
    }
    return syscall(SYS_setsockopt, fd, level, name, v, n);
}
