// Asynchronous transfers: every byte once and in order, one callback.
#include "sockets.hpp"

using namespace fly::net;

namespace {
struct Wire final : Net
{
    std::string out; // what the kernel was given
    std::string in; // what it will deliver
    std::string taken; // what it has delivered
    size_t packet = 4;
    bool dead = false; // a fatal error was reported
    bool empty = false; // an empty datagram was delivered
    int blocks = 0, waits = 0; // how often it may still delay
    bool datagrams = false;
    Event *over = nullptr; // nothing more to wait for

    ssize_t accept_some(size_t n)
    {
        fs_assert(!dead, "nothing is sent after a fatal error");
        fs_assert(n >= 1, "there is something to send");
        size_t c = fs_choose(unsigned(n + 1 + (blocks > 0)), "accepted");
        if (c == 0)
        {
            dead = true;
            if (over)
                over->n.fetch_add(1); // the failing message's callback follows
            return broken();
        }
        if (c == n + 1)
        {
            --blocks;
            return fail(EWOULDBLOCK);
        }
        return ssize_t(c);
    }
    ssize_t send(int, const char *p, size_t n) override
    {
        ssize_t k = accept_some(n);
        if (k > 0)
            out.append(p, size_t(k));
        return k;
    }
    ssize_t sendto(int, const char *p, size_t n, const sockaddr *a, socklen_t len) override
    {
        fs_assert(is_peer(a, len), "datagrams go to the given endpoint");
        fs_assert(n <= packet, "datagrams are at most as large as configured");
        ssize_t k = accept_some(n);
        if (k > 0)
            out.append(p, size_t(k));
        return k;
    }
    ssize_t recv(int, char *p, size_t n) override
    {
        fs_assert(!dead, "nothing is received after a fatal error");
        fs_assert(n >= 1, "there is room to receive");
        size_t left = std::min(n, in.size() - taken.size());
        size_t c = fs_choose(unsigned(left + 2 + (blocks > 0)), "delivered");
        if (c == 0)
        {
            if (datagrams) // an empty datagram
            {
                empty = true;
                return 0;
            }
            dead = true;
            return 0; // the peer is gone
        }
        if (c == left + 1)
        {
            dead = true;
            return broken();
        }
        if (c == left + 2)
        {
            --blocks;
            return fail(EWOULDBLOCK);
        }
        memcpy(p, in.data() + taken.size(), c);
        taken.append(in, taken.size(), c);
        return ssize_t(c);
    }
    ssize_t recvfrom(int fd, char *p, size_t n, sockaddr *a, socklen_t *len) override
    {
        ssize_t k = recv(fd, p, n);
        if (k >= 0)
            put_peer(a, len);
        return k;
    }
    int ready(int, bool) override
    {
        if (waits == 0)
            return 1;
        unsigned c = fs_choose(3, "ready");
        if (c == 2)
            return 1;
        --waits;
        return c == 0 ? 0 : -1;
    }
};
template <class Socket> struct World
{
    std::unique_ptr<Wire> wire = std::make_unique<Wire>();
    std::shared_ptr<fly::task::TaskManager> tasks;
    std::shared_ptr<fly::task::SequencedTaskRunner> runner;
    std::shared_ptr<SocketService> service;
    std::shared_ptr<Socket> socket;

    World()
    {
        g_net = wire.get();
        wire->blocks = int(fs_param("blocks", 1));
        wire->waits = int(fs_param("waits", 1));
        wire->packet = size_t(fs_param("packet", 4));
        tasks = fly::task::TaskManager::create(1);
        runner = fly::task::SequencedTaskRunner::create(tasks);
        service = SocketService::create(runner, std::make_shared<Settings>(wire->packet));
        socket = service->create_socket<Socket>();
        fs_assert(socket->is_open() && socket->io_mode() == IOMode::Asynchronous, "an asynchronous socket");
    }
    void flush()
    {
        auto e = std::make_shared<Event>();
        for (unsigned i = 1; i <= 2; ++i)
        {
            runner->post_task(FROM_HERE, [e]() { e->hit(); });
            e->until(i);
        }
    }
    void finish()
    {
        flush();
        socket.reset();
        fs_assert(wire->live() == 0, "nothing stays open");
        fs_assert(tasks->stop(), "stopped");
        service.reset();
        runner.reset();
        tasks.reset();
        fs_reach("done");
    }
};
std::string text(unsigned n, const char *name)
{
    std::string s;
    for (unsigned i = 0; i < n; ++i)
        s.push_back(char(fs_u8(name)));
    return s;
}
struct Sent
{
    Event event;
    Event *all = nullptr;
    size_t bytes = 0;
    bool open = false;
};
template <class Socket> bool post(Socket &s, std::string_view m, std::shared_ptr<Sent> r)
{
    auto done = [r](std::shared_ptr<Socket> self, size_t n) {
        r->bytes = n;
        r->open = self->is_open();
        r->event.hit();
        if (r->all)
            r->all->hit();
    };
    auto cb = [done, w = s.weak_from_this()](size_t n) { done(w.lock(), n); };
    if constexpr (requires { s.send_async(m, cb); })
        return s.send_async(m, cb);
    else if (fs_param("host", 0))
        return s.send_async("peer", g_port, m, cb);
    else
        return s.send_async(peer<typename Socket::endpoint_type>(), m, cb);
}
// one message after the other
template <class Socket> void sending()
{
    auto w = std::make_unique<World<Socket>>();
    unsigned n = unsigned(fs_param("n", 3)), count = unsigned(fs_param("count", 1));
    std::string all;
    for (unsigned i = 0; i < count; ++i)
    {
        std::string m = text(n, "byte");
        auto r = std::make_shared<Sent>();
        bool before = w->socket->is_open();
        size_t had = w->wire->out.size();
        fs_assert(post(*w->socket, m, r), "a message is taken");
        r->event.until(1);
        w->flush();
        fs_assert(r->event.n.load() == 1, "a callback runs once");
        std::string got = w->wire->out.substr(had);
        fs_assert(r->bytes == got.size() && got.size() <= n, "the callback is told how many bytes were sent");
        fs_assert(got == m.substr(0, got.size()), "the bytes are sent in order, each once");
        fs_assert(!w->wire->dead || (!r->open && !w->socket->is_open() && w->wire->live() == 0), "a fatal error closes the socket");
        fs_assert(w->wire->dead || (before && r->open && got.size() == n), "without a fatal error everything is sent");
        fs_reach(w->wire->dead ? "failed" : "sent");
    }
    w->finish();
}
// several messages at once
template <class Socket> void burst()
{
    auto w = std::make_unique<World<Socket>>();
    unsigned n = unsigned(fs_param("n", 2));
    std::string a = text(n, "first"), b = text(n, "second");
    auto ra = std::make_shared<Sent>(), rb = std::make_shared<Sent>();
    auto all = std::make_unique<Event>();
    ra->all = rb->all = w->wire->over = all.get();
    fs_assert(post(*w->socket, a, ra) && post(*w->socket, b, rb), "messages are taken");
    volatile bool open = w->socket->is_open(); // may be asked at any time
    (void)open;
    all->until(2);
    w->flush();
    fs_assert(ra->event.n.load() == 1 && rb->event.n.load() <= 1, "a callback runs once");
    fs_assert(w->wire->out == (a + b).substr(0, w->wire->out.size()), "messages are sent one after the other");
    fs_assert(w->wire->dead || (ra->bytes == n && rb->bytes == n), "without a fatal error everything is sent");
    fs_reach(w->wire->dead ? "failed" : "sent");
    w->finish();
}
struct Received
{
    Event event;
    std::string bytes;
    bool open = false;
};
template <class Socket> void receiving()
{
    auto w = std::make_unique<World<Socket>>();
    unsigned n = unsigned(fs_param("n", 3)), count = unsigned(fs_param("count", 1));
    w->wire->in = text(n, "byte");
    w->wire->datagrams = !requires { w->socket->is_connected(); };
    for (unsigned i = 0; i < count; ++i)
    {
        auto r = std::make_shared<Received>();
        size_t had = w->wire->taken.size();
        fs_assert(w->socket->receive_async([r, s = w->socket->weak_from_this()](std::string m) {
            r->bytes = std::move(m);
            r->open = s.lock()->is_open();
            r->event.hit();
        }), "a receive is taken");
        r->event.until(1);
        w->flush();
        fs_assert(r->event.n.load() == 1, "a callback runs once");
        fs_assert(r->bytes == w->wire->taken.substr(had), "the bytes delivered are the bytes received");
        fs_assert(!w->wire->dead || (!r->open && !w->socket->is_open() && w->wire->live() == 0), "a fatal error closes the socket");
        fs_assert(w->wire->dead || (r->open && w->socket->is_open()), "without a fatal error the socket stays open");
        fs_reach(w->wire->dead ? "failed" : w->wire->empty ? "empty" : "received");
    }
    w->finish();
}
// a socket that could not be opened, or was closed
template <class Socket> void not_open()
{
    auto w = std::make_unique<World<Socket>>();
    w->socket->close();
    std::string m = text(2, "byte");
    auto r = std::make_shared<Sent>();
    fs_assert(post(*w->socket, m, r), "a message is taken");
    r->event.until(1);
    auto q = std::make_shared<Received>();
    fs_assert(w->socket->receive_async([q](std::string s) {
        q->bytes = std::move(s);
        q->event.hit();
    }), "a receive is taken");
    q->event.until(1);
    w->flush();
    fs_assert(r->event.n.load() == 1 && r->bytes == 0 && q->event.n.load() == 1 && q->bytes.empty(), "transfers of a closed socket fail");
    w->finish();
}
// descriptors with large numbers
template <class Socket> void many()
{
    auto w = std::make_unique<World<Socket>>();
    w->socket->close();
    w->wire->first = int(fs_param("fd", 1024));
    w->socket = w->service->template create_socket<Socket>();
    fs_assert(w->socket->handle() == w->wire->first, "its number");
    std::string m = text(2, "byte");
    auto r = std::make_shared<Sent>();
    fs_assert(post(*w->socket, m, r), "a message is taken");
    r->event.until(1);
    w->flush();
    fs_assert(r->event.n.load() == 1 && (w->wire->dead || (r->bytes == 2 && w->wire->out == m)), "the message is sent");
    w->finish();
}
} // namespace
FS_ENTRY c28_send() { sending<TcpSocket<V4>>(); }
FS_ENTRY c28_send6() { sending<TcpSocket<V6>>(); }
FS_ENTRY c28_burst() { burst<TcpSocket<V4>>(); }
FS_ENTRY c28_receive() { receiving<TcpSocket<V4>>(); }
FS_ENTRY c28_receive6() { receiving<TcpSocket<V6>>(); }
FS_ENTRY c28_closed() { not_open<TcpSocket<V4>>(); }
FS_ENTRY c28_many() { many<TcpSocket<V4>>(); }
FS_ENTRY c29_send() { sending<UdpSocket<V4>>(); }
FS_ENTRY c29_send6() { sending<UdpSocket<V6>>(); }
FS_ENTRY c29_burst() { burst<UdpSocket<V4>>(); }
FS_ENTRY c29_receive() { receiving<UdpSocket<V4>>(); }
FS_ENTRY c29_receive6() { receiving<UdpSocket<V6>>(); }
FS_ENTRY c29_closed() { not_open<UdpSocket<V4>>(); }
