// The operating system's side of sockets, played by the harness.
#pragma once
#include "fly/net/endpoint.hpp"
#include "fly/net/ipv4_address.hpp"
#include "fly/net/ipv6_address.hpp"
#include "fly/net/network_config.hpp"
#include "fly/net/socket/listen_socket.hpp"
#include "fly/net/socket/socket_service.hpp"
#include "fly/net/socket/tcp_socket.hpp"
#include "fly/net/socket/udp_socket.hpp"

#include "models.h"
#include "task.hpp"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <netdb.h>
#include <netinet/in.h>
#include <optional>
#include <string>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

namespace {
using V4 = fly::net::Endpoint<fly::net::IPv4Address>;
using V6 = fly::net::Endpoint<fly::net::IPv6Address>;

struct Settings : fly::net::NetworkConfig
{
    explicit Settings(size_t packet) { m_default_packet_size = packet; }
};

constexpr int g_first = 700, g_most = 4;

struct Net
{
    struct Fd
    {
        bool open = false, stream = false, blocking = true, connecting = false, writable = false;
    };
    int first = g_first; // number of the first descriptor
    Fd fds[g_most];
    std::mutex guard;
    unsigned opened = 0, closed = 0;

    bool mine(int fd) { return fd >= first && fd < first + g_most; }
    Fd *at(int fd) { return mine(fd) && fds[fd - first].open ? &fds[fd - first] : nullptr; }
    int open(bool stream)
    {
        std::lock_guard<std::mutex> lock(guard);
        for (int i = 0; i < g_most; ++i) // the lowest free number, as the system does
            if (!fds[i].open)
            {
                fds[i] = Fd {};
                fds[i].open = true;
                fds[i].stream = stream;
                ++opened;
                return first + i;
            }
        fs_assume(false);
        return -1;
    }
    void close(int fd)
    {
        std::lock_guard<std::mutex> lock(guard);
        fs_assert(at(fd) != nullptr, "only open descriptors are closed");
        at(fd)->open = false;
        ++closed;
    }
    bool is_open(int fd)
    {
        std::lock_guard<std::mutex> lock(guard);
        return at(fd) != nullptr;
    }
    unsigned live()
    {
        std::lock_guard<std::mutex> lock(guard);
        return opened - closed;
    }
    static int fail(int error)
    {
        errno = error;
        return -1;
    }
    // an error other than "would block" (or interrupted, or in progress)
    static int broken()
    {
        uint8_t e = fs_u8("errno");
        fs_assume((e != 0) & (e != EWOULDBLOCK) & (e != EINTR) & (e != EINPROGRESS) & (e < 134));
        errno = e;
        return -1;
    }
    virtual ~Net() = default;
    // what happens, played by each check
    virtual bool refuse(const char *) { return false; } // socket, fcntl, listen, bind, setsockopt
    virtual ssize_t send(int, const char *, size_t) { return broken(); }
    virtual ssize_t sendto(int, const char *, size_t, const sockaddr *, socklen_t) { return broken(); }
    virtual ssize_t recv(int, char *, size_t) { return broken(); }
    virtual ssize_t recvfrom(int, char *, size_t, sockaddr *, socklen_t *) { return broken(); }
    virtual int connect(int, const sockaddr *, socklen_t) { return broken(); }
    virtual int accept(int, sockaddr *, socklen_t *) { return broken(); }
    virtual int so_error(int, int *) { return broken(); }
    // descriptor fd is asked for: whether it is ready for writing / reading; -1: the call is interrupted
    virtual int ready(int, bool /*write*/) { return 1; }
    virtual void selecting(const std::vector<int> & /*write*/, const std::vector<int> & /*read*/) {}
    virtual void selected(int /*status*/) {}
};
Net *g_net;

// addresses as the system lays them out
uint32_t g_host = 0x0a0b0c0d;
uint16_t g_port = 4660;
template <class E> E peer()
{
    if constexpr (E::is_ipv4())
        return E(fly::net::IPv4Address(htonl(g_host)), g_port);
    else
    {
        uint8_t b[16] = {0x20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
        return E(fly::net::IPv6Address(b), g_port);
    }
}
bool is_peer(const sockaddr *a, socklen_t n)
{
    if (a->sa_family == AF_INET)
    {
        sockaddr_in in;
        if (n != sizeof in)
            return false;
        memcpy(&in, a, sizeof in);
        return in.sin_addr.s_addr == htonl(g_host) && in.sin_port == htons(g_port);
    }
    sockaddr_in6 in;
    if (a->sa_family != AF_INET6 || n != sizeof in)
        return false;
    memcpy(&in, a, sizeof in);
    bool same = in.sin6_port == htons(g_port) && in.sin6_addr.s6_addr[0] == 0x20;
    for (int i = 1; i < 16; ++i)
        same = same && in.sin6_addr.s6_addr[i] == i;
    return same;
}
void put_peer(sockaddr *a, socklen_t *n)
{
    if (*n == sizeof(sockaddr_in))
    {
        sockaddr_in in {};
        in.sin_family = AF_INET;
        in.sin_addr.s_addr = htonl(g_host);
        in.sin_port = htons(g_port);
        memcpy(a, &in, sizeof in);
        return;
    }
    sockaddr_in6 in {};
    fs_assert(*n == sizeof in, "there is room for an address");
    in.sin6_family = AF_INET6;
    in.sin6_port = htons(g_port);
    in.sin6_addr.s6_addr[0] = 0x20;
    for (uint8_t i = 1; i < 16; ++i)
        in.sin6_addr.s6_addr[i] = i;
    memcpy(a, &in, sizeof in);
}
} // namespace

extern "C" {
int socket(int domain, int type, int) noexcept
{
    fs_assert(domain == AF_INET || domain == AF_INET6, "sockets of the internet protocols");
    if (g_net->refuse("socket"))
        return Net::fail(EMFILE);
    return g_net->open((type & 15) == SOCK_STREAM);
}
int close(int fd)
{
    if (fd >= 0 && (!g_net || !g_net->mine(fd)))
        return int(syscall(SYS_close, fd));
    g_net->close(fd);
    return 0;
}
int sim_fcntl(int fd, int cmd, int arg) __asm__("fcntl");
int sim_fcntl(int fd, int cmd, int arg)
{
    if (fd >= 0 && !g_net->mine(fd))
        return int(syscall(SYS_fcntl, fd, cmd, arg));
    std::lock_guard<std::mutex> lock(g_net->guard);
    auto *f = g_net->at(fd);
    if (!f)
        return Net::fail(EBADF);
    if (g_net->refuse("fcntl"))
        return Net::fail(EINVAL);
    if (cmd == F_GETFL)
        return O_RDWR | (f->blocking ? 0 : O_NONBLOCK);
    fs_assert(cmd == F_SETFL && (arg & ~O_NONBLOCK) == O_RDWR, "other flags of a descriptor are kept");
    f->blocking = !(arg & O_NONBLOCK);
    return 0;
}
int getsockopt(int fd, int level, int name, void *value, socklen_t *n) noexcept
{
    fs_assert(level == SOL_SOCKET && name == SO_ERROR && *n == sizeof(int), "the pending error is asked for");
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    int v = 0;
    if (g_net->so_error(fd, &v) == -1)
        return -1;
    memcpy(value, &v, sizeof v);
    return 0;
}
int setsockopt(int fd, int, int, const void *, socklen_t) noexcept
{
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    return g_net->refuse("setsockopt") ? Net::fail(ENOPROTOOPT) : 0;
}
int bind(int fd, const sockaddr *a, socklen_t n) noexcept
{
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    fs_assert(is_peer(a, n), "the given endpoint is bound");
    return g_net->refuse("bind") ? Net::fail(EADDRINUSE) : 0;
}
int listen(int fd, int) noexcept
{
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    return g_net->refuse("listen") ? Net::fail(EADDRINUSE) : 0;
}
int connect(int fd, const sockaddr *a, socklen_t n)
{
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    fs_assert(is_peer(a, n), "the given endpoint is connected to");
    return g_net->connect(fd, a, n);
}
int accept(int fd, sockaddr *a, socklen_t *n)
{
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    return g_net->accept(fd, a, n);
}
ssize_t send(int fd, const void *p, size_t n, int flags)
{
    fs_assert(flags & MSG_NOSIGNAL, "a broken connection does not raise a signal");
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    return g_net->send(fd, static_cast<const char *>(p), n);
}
ssize_t sendto(int fd, const void *p, size_t n, int, const sockaddr *a, socklen_t len)
{
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    return g_net->sendto(fd, static_cast<const char *>(p), n, a, len);
}
ssize_t recv(int fd, void *p, size_t n, int)
{
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    return g_net->recv(fd, static_cast<char *>(p), n);
}
ssize_t recvfrom(int fd, void *p, size_t n, int, sockaddr *a, socklen_t *len)
{
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    return g_net->recvfrom(fd, static_cast<char *>(p), n, a, len);
}
int getsockname(int fd, sockaddr *a, socklen_t *n) noexcept
{
    if (!g_net->is_open(fd))
        return Net::fail(EBADF);
    put_peer(a, n);
    return 0;
}
int getpeername(int fd, sockaddr *a, socklen_t *n) noexcept
{
    return getsockname(fd, a, n);
}
int select(int n, fd_set *r, fd_set *w, fd_set *, timeval *)
{
    std::vector<int> want[2];
    auto has = [](const fd_set *s, int fd) { return (reinterpret_cast<const unsigned long *>(s)[fd / 64] >> (fd % 64)) & 1; };
    auto drop = [](fd_set *s, int fd) { reinterpret_cast<unsigned long *>(s)[fd / 64] &= ~(1ul << (fd % 64)); };
    bool bad = false;
    for (int i = 0; i < g_most; ++i)
        for (int k = 0; k < 2; ++k)
            if (int fd = g_net->first + i; fd < n && has(k ? r : w, fd))
            {
                want[k].push_back(fd);
                bad = bad || !g_net->is_open(fd);
            }
    g_net->selecting(want[0], want[1]);
    int status = 0;
    if (bad)
    {
        g_net->selected(-1);
        return Net::fail(EBADF);
    }
    for (int k = 0; k < 2; ++k)
        for (int fd : want[k])
        {
            int ready = g_net->ready(fd, k == 0);
            if (ready == -1)
            {
                g_net->selected(-1);
                return Net::fail(EINTR); // the sets are left as they were
            }
            if (ready)
                ++status;
            else
                drop(k ? r : w, fd);
        }
    g_net->selected(status);
    return status;
}
int getaddrinfo(const char *name, const char *, const addrinfo *hints, addrinfo **out)
{
    static sockaddr_in6 room;
    static addrinfo info;
    if (strcmp(name, "peer") != 0)
        return EAI_NONAME;
    socklen_t n = hints->ai_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
    put_peer(reinterpret_cast<sockaddr *>(&room), &n);
    info = addrinfo {};
    info.ai_addr = reinterpret_cast<sockaddr *>(&room);
    info.ai_addrlen = n;
    *out = &info;
    return 0;
}
void freeaddrinfo(addrinfo *) noexcept {}
const char *gai_strerror(int) noexcept { return "?"; }
}
