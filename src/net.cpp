// System calls of the asio libraries, which the explorer may shorten or fail; shared by the harnesses on Boost.Asio and on the standalone asio
#include "end.h"
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <cstring>
#include <cerrno>
#include <unistd.h>
#include <poll.h>
namespace net {
mc::Ctx* C = nullptr;
int budget = 0;
std::map<int, End*>& ends() { static std::map<int, End*> m; return m; }
int listen_fd = -1;
bool inj_send, inj_recv, inj_accept, send_err, in_poll_block;
static End* end_of(int fd) { auto i = ends().find(fd); return i == ends().end() ? nullptr : i->second; }
static unsigned dev(unsigned n, const char* what) { if (!C || budget <= 0) return 0; unsigned k = C->choose(n + 1, what); if (k) --budget; return k; }
void End::pull()
{
    char b[65536];
    while (cfd >= 0 && !eof && !rst) {
        long r = syscall(SYS_recvfrom, cfd, b, sizeof b, MSG_DONTWAIT, nullptr, nullptr);
        if (r > 0) rx.append(b, r);
        else if (r == 0) eof = true;
        else if (errno == EAGAIN || errno == EINTR) break;
        else rst = true;
    }
}
void End::put(const std::string& s) { if (cfd >= 0) { long r = syscall(SYS_sendto, cfd, s.data(), s.size(), MSG_NOSIGNAL | MSG_DONTWAIT, nullptr, 0); (void)r; } }
void End::close_() { if (cfd >= 0) { syscall(SYS_close, cfd); cfd = -1; } }
void End::reset_() { if (cfd >= 0) { linger l{1, 0}; setsockopt(cfd, SOL_SOCKET, SO_LINGER, &l, sizeof l); close_(); } }
}
using namespace net;

static long do_send(int fd, const msghdr* m, int flags)
{
    End* e = end_of(fd);
    if (!e) return syscall(SYS_sendmsg, fd, m, flags | MSG_NOSIGNAL);
    size_t total = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) total += m->msg_iov[i].iov_len;
    if (C) C->step();
    if (e->stalled) { errno = EAGAIN; return -1; }
    if (e->broken) { errno = EPIPE; return -1; }
    if (inj_send && total && !e->victim) {
        unsigned k = dev(send_err ? 6 : 4, "send");
        size_t lim = total;
        if (k == 1) lim = 1; else if (k == 2) lim = (total + 1) / 2;
        else if (k == 3) { errno = EAGAIN; return -1; } else if (k == 4) { errno = EINTR; return -1; }
        else if (k == 5) { errno = ECONNRESET; return -1; } else if (k == 6) { errno = EPIPE; return -1; }
        if (k) { std::string s; for (size_t i = 0; i < m->msg_iovlen; ++i) s.append((char*)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); s.resize(lim);
            long r = syscall(SYS_sendto, fd, s.data(), s.size(), flags | MSG_NOSIGNAL, nullptr, 0); if (!e->noread) e->pull(); return r; }
    }
    long r = syscall(SYS_sendmsg, fd, m, flags | MSG_NOSIGNAL);
    if (!e->noread) e->pull();
    return r;
}
static bool recv_dev(int fd, size_t& len, long& res)
{
    End* e = end_of(fd); if (!e) return false;
    if (C) C->step();
    if (e->broken) { errno = e->broken; res = -1; if (++e->fails == 200 && C) C->fail("the server goes on reading a connection that has failed, without end"); return true; }
    if (!inj_recv || e->victim) return false;
    int avail = 0; ioctl(fd, FIONREAD, &avail);
    if (!avail) return false;      // nothing to shorten
    switch (dev(4, "recv")) {
        case 0: return false;
        case 1: len = 1; return false;
        case 2: errno = EINTR; res = -1; return true;
        case 3: errno = ECONNRESET; res = -1; return true;
        case 4: errno = ETIMEDOUT; res = -1; return true;
    }
    return false;
}
extern "C" {
ssize_t sendmsg(int fd, const msghdr* m, int flags) { return do_send(fd, m, flags); }
ssize_t send(int fd, const void* b, size_t n, int flags) { iovec v{const_cast<void*>(b), n}; msghdr m{}; m.msg_iov = &v; m.msg_iovlen = 1; return do_send(fd, &m, flags); }
ssize_t recv(int fd, void* b, size_t n, int flags) { long r; if (recv_dev(fd, n, r)) return r; return syscall(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr); }
ssize_t recvmsg(int fd, msghdr* m, int flags)
{
    size_t n = 0; for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len; size_t n0 = n; long r;
    if (recv_dev(fd, n, r)) return r;
    if (n < n0) { msghdr mm = *m; iovec v{m->msg_iov[0].iov_base, n}; mm.msg_iov = &v; mm.msg_iovlen = 1; return syscall(SYS_recvmsg, fd, &mm, flags); }
    return syscall(SYS_recvmsg, fd, m, flags);
}
int listen(int fd, int n) { listen_fd = fd; return syscall(SYS_listen, fd, n); }
static bool accept_dev(int fd)
{
    if (fd != listen_fd || !inj_accept) return false;
    pollfd p{fd, POLLIN, 0}; if (syscall(SYS_poll, &p, 1, 0) <= 0) return false;
    static const int E[] = {0, EMFILE, ECONNABORTED, EINTR, ENFILE, ENOBUFS, EPROTO, EAGAIN, EPERM};
    unsigned k = dev(8, "accept"); if (!k) return false;
    if (E[k] == ECONNABORTED || E[k] == EPROTO || E[k] == EPERM) { int s = syscall(SYS_accept4, fd, nullptr, nullptr, 0); if (s >= 0) syscall(SYS_close, s); } // that connection is gone
    errno = E[k]; return true;
}
int accept(int fd, sockaddr* a, socklen_t* l) { if (C) C->step(); if (accept_dev(fd)) return -1; return syscall(SYS_accept4, fd, a, l, 0); }
int accept4(int fd, sockaddr* a, socklen_t* l, int f) { if (C) C->step(); if (accept_dev(fd)) return -1; return syscall(SYS_accept4, fd, a, l, f); }
// the library polls a socket only to wait, blocking, for space to write into
int poll(pollfd* p, nfds_t n, int t)
{
    if (n == 1 && (p->events & POLLOUT)) if (End* e = end_of(p->fd)) {
        if (e->stalled || e->noread) { // would it block?
            pollfd q = *p; int r = e->stalled ? 0 : (int)syscall(SYS_poll, &q, 1, 0);
            if (r == 0 && t != 0) { in_poll_block = true; errno = EBADF; return -1; }
        } else e->pull();
    }
    return syscall(SYS_poll, p, n, t);
}
}


namespace net { bool inj_read = false; Ctx* AC = nullptr; int rbudget = 0; unsigned long reads = 0; int watch_dup = -1; }
static bool is_stdin(int fd) { return fd == watch_dup; }
// a read of the session's descriptor may be cut short or interrupted
static bool read_dev(int fd, size_t& n, long& r)
{
    if (!is_stdin(fd)) return false; ++reads; if (AC) AC->step();
    if (!inj_read || rbudget <= 0) return false;
    int av = 0; ioctl(fd, FIONREAD, &av); if (!av) return false;
    unsigned k = AC->choose(3, "read"); if (k) --rbudget;
    if (k == 1) { n = 1; return false; } if (k == 2) { errno = EINTR; r = -1; return true; }
    return false;
}
extern "C" {
ssize_t read(int fd, void* b, size_t n) { long r; if (read_dev(fd, n, r)) return r; return syscall(SYS_read, fd, b, n); }
ssize_t readv(int fd, const iovec* v, int c) { size_t n = 0; for (int i = 0; i < c; ++i) n += v[i].iov_len; size_t n0 = n; long r; if (read_dev(fd, n, r)) return r; if (n < n0) return syscall(SYS_read, fd, v[0].iov_base, n); return syscall(SYS_readv, fd, v, c); }
int dup(int fd) { int r = syscall(SYS_dup, fd); if (fd == 0) watch_dup = r; return r; }
}

