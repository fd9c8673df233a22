// Sockets own their descriptor; their states say what happened.
#include "sockets.hpp"

using namespace fly::net;

namespace {
struct Owner final : Net
{
    bool refusing = false; // whether calls may fail
    bool refused = false;
    int outcome = 0; // of the next connect: 0 at once, 1 in progress, 2 fails
    bool established[g_most] = {};
    int waits = 0;
    bool written[g_most] = {}; // reported writable since connecting

    bool refuse(const char *what) override
    {
        if (!refusing || !fs_choose(2, what))
            return false;
        refused = true;
        return true;
    }
    int connect(int fd, const sockaddr *, socklen_t) override
    {
        auto &f = fds[fd - first];
        established[fd - first] = outcome == 0;
        written[fd - first] = false;
        f.connecting = outcome == 1 || outcome == 3;
        if (outcome == 0)
            return 0;
        if (outcome == 1)
            return fail(EINPROGRESS);
        if (outcome == 3)
            return fail(EINTR);
        return broken();
    }
    int so_error(int fd, int *value) override
    {
        auto &f = fds[fd - first];
        fs_assert(f.connecting, "a connection is underway");
        fs_assert(written[fd - first], "a connection's result is taken once the descriptor is writable");
        f.connecting = false;
        unsigned c = fs_choose(3, "result");
        if (c == 2)
            return broken();
        if (c == 1)
        {
            uint8_t e = fs_u8("error");
            fs_assume(e != 0);
            *value = e;
        }
        established[fd - first] = c == 0;
        return 0;
    }
    int accept(int fd, sockaddr *a, socklen_t *n) override
    {
        (void)fd;
        unsigned c = fs_choose(waits ? 3 : 2, "accepted");
        if (c == 1)
            return broken();
        if (c == 2)
        {
            --waits;
            return fail(EWOULDBLOCK);
        }
        put_peer(a, n);
        int fd2 = open(true);
        established[fd2 - first] = true;
        return fd2;
    }
    ssize_t send(int, const char *, size_t n) override { return fs_choose(2, "sent") ? ssize_t(n) : broken(); }
    ssize_t recv(int, char *p, size_t) override
    {
        *p = 'x';
        return int(fs_choose(3, "received")) == 2 ? broken() : int(fs_choose(2, "end"));
    }
    ssize_t sendto(int, const char *, size_t n, const sockaddr *, socklen_t) override { return send(0, nullptr, n); }
    ssize_t recvfrom(int, char *p, size_t n, sockaddr *a, socklen_t *len) override
    {
        put_peer(a, len);
        return recv(0, p, n);
    }
    int ready(int fd, bool write) override
    {
        if (waits && fs_choose(2, "delayed"))
        {
            --waits;
            return 0;
        }
        if (write)
            written[fd - first] = true;
        return 1;
    }
};
Owner *net() { return static_cast<Owner *>(g_net); }
std::shared_ptr<NetworkConfig> settings() { return std::make_shared<Settings>(4); }

// what a slot's socket should say
enum State { none, connecting, connected };
template <class S> struct Slot
{
    std::optional<S> socket;
    bool open = false;
    State state = none; // or listening
    IOMode mode = IOMode::Synchronous;
    void check(Net &n)
    {
        if (!socket)
            return;
        fs_assert(socket->is_open() == open, "a socket is valid as long as it was not closed, moved from or failed");
        fs_assert(socket->is_open() == (socket->handle() != -1), "a socket is valid while it has a descriptor");
        if (open)
        {
            fs_assert(n.is_open(socket->handle()), "a valid socket's descriptor is open");
            fs_assert(n.at(socket->handle())->blocking == (socket->io_mode() == IOMode::Synchronous) && socket->io_mode() == mode, "the mode of a socket is that of its descriptor");
        }
        if constexpr (requires { socket->is_connected(); })
        {
            fs_assert(socket->is_connected() == (state == connected), "a socket is connected when its connection is established and was not closed");
            fs_assert(socket->is_connecting() == (state == connecting), "a socket is connecting while its connection is underway");
            fs_assert(state != connected || net()->established[socket->handle() - g_first], "connected means established");
        }
        if constexpr (requires { socket->is_listening(); })
            fs_assert(socket->is_listening() == (state == connected), "a socket listens from the time it started to until it is closed");
    }
    void closed()
    {
        open = false;
        state = none;
    }
};
template <class S> struct Slots
{
    std::unique_ptr<Owner> owner = std::make_unique<Owner>();
    Slot<S> slots[2];
    std::vector<TcpSocket<V4>> accepted;

    Slots() { g_net = owner.get(); }
    void check()
    {
        unsigned open = 0;
        for (auto &s : slots)
        {
            s.check(*owner);
            open += s.socket && s.socket->is_open();
        }
        for (auto &a : accepted)
            open += a.is_open();
        fs_assert(owner->live() == open, "every open descriptor has one owner");
        if (slots[0].socket && slots[1].socket && slots[0].open && slots[1].open)
            fs_assert(slots[0].socket->handle() != slots[1].socket->handle(), "every open descriptor has one owner");
    }
    void step()
    {
        int i = int(fs_choose(2, "slot"));
        Slot<S> &a = slots[i], &b = slots[1 - i];
        owner->refused = false;
        owner->refusing = fs_param("refuse", 0) != 0;
        switch (fs_choose(9, "step"))
        {
            case 0:
                fs_assume(!a.socket);
                a.mode = fs_choose(2, "mode") ? IOMode::Asynchronous : IOMode::Synchronous;
                a.socket.emplace(settings(), a.mode);
                a.open = !owner->refused;
                a.state = none;
                break;
            case 1:
                fs_assume(a.socket.has_value());
                a.socket.reset();
                a.closed();
                break;
            case 2:
                fs_assume(a.socket.has_value());
                a.socket->close();
                a.closed();
                break;
            case 3: // move construction
                fs_assume(a.socket.has_value() && !b.socket);
                b.socket.emplace(std::move(*a.socket));
                b.open = a.open;
                b.state = a.state;
                b.mode = a.mode;
                a.closed();
                break;
            case 4: // move assignment
                fs_assume(a.socket.has_value() && b.socket.has_value());
                *b.socket = std::move(*a.socket);
                b.open = a.open;
                b.state = a.state;
                b.mode = a.mode;
                a.closed();
                break;
            case 5:
                fs_assume(a.socket.has_value());
                {
                    auto mode = fs_choose(2, "mode") ? IOMode::Asynchronous : IOMode::Synchronous;
                    bool ok = a.open;
                    fs_assert(a.socket->set_io_mode(mode) == (ok && !owner->refused), "a change of mode says whether it was made");
                    if (!ok || owner->refused)
                        a.closed();
                    else
                        a.mode = mode;
                }
                break;
            default: own(a); break;
        }
        owner->refusing = false;
        check();
    }
    void own(Slot<S> &a)
    {
        fs_assume(a.socket.has_value() && a.open);
        if constexpr (requires { a.socket->is_connected(); })
        {
            if (a.state == connecting && fs_choose(2, "finish"))
            {
                owner->written[a.socket->handle() - g_first] = true;
                int fd = a.socket->handle();
                auto got = a.socket->finish_connect();
                bool up = owner->established[fd - g_first];
                fs_assert((got == ConnectedState::Connected) == up && got != ConnectedState::Connecting, "a connection succeeds when it is established");
                up ? void(a.state = connected) : a.closed();
                fs_reach(up ? "connected" : "refused");
                return;
            }
            if (a.state == connected)
            {
                bool ok;
                if (fs_choose(2, "direction"))
                    ok = a.socket->send("ab") == 2;
                else
                    ok = !a.socket->receive().empty();
                if (!ok)
                    a.closed();
                return;
            }
            fs_assume(a.state == none);
            owner->outcome = int(fs_choose(4, "outcome"));
            fs_assume(owner->outcome != 1 || a.mode == IOMode::Asynchronous);
            auto got = a.socket->connect(peer<V4>());
            fs_assert(got == (owner->outcome == 0 ? ConnectedState::Connected : owner->outcome == 2 ? ConnectedState::Disconnected : ConnectedState::Connecting), "connecting says what happened");
            if (owner->outcome == 2)
                a.closed();
            else
                a.state = owner->outcome == 0 ? connected : connecting;
        }
        else if constexpr (requires { a.socket->is_listening(); })
        {
            if (a.state == none)
            {
                owner->refusing = true;
                owner->refused = false;
                bool ok = a.socket->listen();
                owner->refusing = false;
                fs_assert(ok == !owner->refused, "listening says whether it works");
                a.state = ok ? connected : none;
                return;
            }
            fs_assume(accepted.size() < 1);
            owner->refusing = true;
            owner->refused = false;
            auto got = a.socket->accept();
            owner->refusing = false;
            if (!got)
                return a.closed();
            fs_assert(got->is_open() == !owner->refused && got->is_connected() == !owner->refused, "an accepted socket is connected");
            accepted.push_back(std::move(*got));
            fs_assert(!got->is_open() && !got->is_connected(), "a socket that was moved from is not valid");
            fs_reach("accepted");
        }
        else
        {
            bool ok;
            bool b = fs_choose(2, "direction");
            if (b)
                ok = a.socket->send(peer<V4>(), "ab") == 2;
            else
                ok = !a.socket->receive().empty() || a.socket->is_open();
            if (!ok)
                a.closed();
        }
    }
    void finish()
    {
        for (auto &s : slots)
            s.socket.reset();
        accepted.clear();
        fs_assert(owner->live() == 0, "nothing stays open");
        fs_reach("done");
    }
};
template <class S> void history()
{
    auto s = std::make_unique<Slots<S>>();
    unsigned n = unsigned(fs_param("n", 4));
    for (unsigned i = 0; i < n; ++i)
        s->step();
    s->finish();
}
struct World
{
    std::unique_ptr<Owner> owner = std::make_unique<Owner>();
    std::shared_ptr<fly::task::TaskManager> tasks;
    std::shared_ptr<fly::task::SequencedTaskRunner> runner;
    std::shared_ptr<SocketService> service;

    World()
    {
        g_net = owner.get();
        owner->waits = 1;
        tasks = fly::task::TaskManager::create(1);
        runner = fly::task::SequencedTaskRunner::create(tasks);
        service = SocketService::create(runner, settings());
    }
    void flush()
    {
        auto e = std::make_shared<Event>();
        runner->post_task(FROM_HERE, [e]() { e->hit(); });
        e->until(1);
    }
    void finish()
    {
        flush();
        fs_assert(owner->live() == 0, "nothing stays open");
        fs_assert(tasks->stop(), "stopped");
        service.reset();
        runner.reset();
        tasks.reset();
        fs_reach("done");
    }
};
struct Done
{
    Event event;
    ConnectedState state = ConnectedState::Connecting;
    bool open = false, said = false;
};
} // namespace

FS_ENTRY c30_tcp() { history<TcpSocket<V4>>(); }
FS_ENTRY c30_udp() { history<UdpSocket<V4>>(); }
FS_ENTRY c30_listen() { history<ListenSocket<V4>>(); }

// connecting asynchronously
template <class E> static void connect_async()
{
    auto w = std::make_unique<World>();
    auto s = w->service->template create_socket<TcpSocket<E>>();
    auto d = std::make_shared<Done>();
    unsigned outcome = fs_choose(4, "outcome");
    w->owner->outcome = int(outcome);
    auto cb = [d, weak = s->weak_from_this()](ConnectedState state) {
        auto self = weak.lock();
        d->state = state;
        d->open = self->is_open();
        d->said = self->is_connected();
        d->event.hit();
    };
    bool host = fs_choose(2, "host");
    auto got = host ? s->connect_async("peer", g_port, std::move(cb)) : s->connect_async(peer<E>(), std::move(cb));
    fs_assert(got == (outcome == 0 ? ConnectedState::Connected : outcome == 2 ? ConnectedState::Disconnected : ConnectedState::Connecting), "connecting says what happened");
    bool up = outcome == 0;
    if (got == ConnectedState::Connecting)
    {
        d->event.until(1);
        up = w->owner->established[0];
        fs_assert(d->state == (up ? ConnectedState::Connected : ConnectedState::Disconnected), "the callback is told how the connection ended");
        fs_assert(d->open == up && d->said == up, "a failed connection's socket is closed first");
    }
    w->flush();
    fs_assert(d->event.n.load() == (got == ConnectedState::Connecting), "the callback runs once for a connection that was underway");
    fs_assert(s->is_open() == up && s->is_connected() == up && !s->is_connecting(), "a socket is connected when its connection is established");
    fs_reach(up ? "connected" : "refused");
    s.reset();
    w->finish();
}
FS_ENTRY c30_connect() { connect_async<V4>(); }
FS_ENTRY c30_connect6() { connect_async<V6>(); }

// accepting asynchronously
FS_ENTRY c30_accept()
{
    auto w = std::make_unique<World>();
    auto s = w->service->create_socket<ListenSocket<V4>>();
    fs_assert(s->bind(peer<V4>(), fs_choose(2, "reuse") ? BindMode::AllowReuse : BindMode::SingleUse) && s->listen(), "it listens");
    auto d = std::make_shared<Done>();
    std::shared_ptr<TcpSocket<V4>> got;
    fs_assert(s->accept_async([d, &got, s](std::shared_ptr<TcpSocket<V4>> c) {
        got = std::move(c);
        d->open = s->is_open();
        d->event.hit();
    }), "a request to accept is taken");
    d->event.until(1);
    w->flush();
    fs_assert(d->event.n.load() == 1, "the callback runs once");
    fs_assert(got ? d->open && got->is_open() && got->is_connected() && got->io_mode() == IOMode::Asynchronous : !d->open && !s->is_listening(), "an accepted socket is connected, a failed listening socket closed");
    fs_assert(w->owner->live() == (got ? 2 : 0), "every open descriptor has one owner");
    fs_reach(got ? "accepted" : "failed");
    got.reset();
    s.reset();
    w->finish();
}
