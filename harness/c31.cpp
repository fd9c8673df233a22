// Socket service: one notification per request, when the descriptor is ready.
#include "sockets.hpp"

using namespace fly::net;

namespace {
struct Turn final : Net
{
    std::mutex lock;
    Event quiet; // select is entered, or everything posted has run
    std::atomic<uint32_t> granted {0}, entered {0};
    // readiness answers of the current turn, per descriptor and direction; 2: the call fails
    unsigned answers = 0;
    bool everything = false; // no turns any more: all is ready at once
    std::vector<int> want[2], reported[2];
    std::vector<int> *heard = nullptr;

    void selecting(const std::vector<int> &w, const std::vector<int> &r) override
    {
        check();
        want[0] = w;
        want[1] = r;
        if (everything)
            return;
        uint32_t turn = entered.fetch_add(1) + 1;
        quiet.hit();
        for (uint32_t v; (v = granted.load()) < turn;)
            fs_futex_wait(&granted, v, false, 0);
    }
    int ready(int fd, bool write) override
    {
        if (everything)
            return 1;
        if (answers == 256)
            return -1;
        return (answers >> (2 * (fd - first) + write)) & 1;
    }
    void selected(int status) override
    {
        for (int k = 0; k < 2; ++k)
        {
            reported[k].clear();
            if (status > 0)
                for (int fd : want[k])
                    if (ready(fd, k == 0))
                        reported[k].push_back(fd);
        }
    }
    // every descriptor reported ready was heard of
    void check()
    {
        for (auto &k : reported)
            for (int fd : k)
                fs_assert(std::count(gone.begin(), gone.end(), fd) || heard_of(k, fd), "a ready descriptor's request is notified at once");
        notified[0].clear();
        notified[1].clear();
        reported[0].clear();
        reported[1].clear();
    }
    bool heard_of(std::vector<int> &k, int fd)
    {
        auto &n = notified[&k == &reported[1]];
        return std::count(n.begin(), n.end(), fd) == 1;
    }
    std::vector<int> notified[2], gone;
    void notify(int fd, bool write)
    {
        auto &k = reported[write ? 0 : 1];
        fs_assert(std::count(k.begin(), k.end(), fd) == 1, "a request is notified only when its descriptor was reported ready");
        fs_assert(!heard_of(k, fd), "one request is notified for each report");
        notified[write ? 0 : 1].push_back(fd);
    }
};
struct Request
{
    int socket, fd;
    bool write;
    std::atomic<int> notified {0};
    bool removed = false;
};
struct World
{
    std::unique_ptr<Turn> net = std::make_unique<Turn>();
    std::shared_ptr<fly::task::TaskManager> tasks;
    std::shared_ptr<fly::task::SequencedTaskRunner> runner;
    std::shared_ptr<SocketService> service;
    std::shared_ptr<UdpSocket<V4>> sockets[2];
    std::vector<std::shared_ptr<Request>> requests;
    std::atomic<uint32_t> flushed {0};
    uint32_t posted = 0;

    World()
    {
        g_net = net.get();
        tasks = fly::task::TaskManager::create(1);
        runner = fly::task::SequencedTaskRunner::create(tasks);
        service = SocketService::create(runner, std::make_shared<Settings>(4));
        for (auto &s : sockets)
            s = service->create_socket<UdpSocket<V4>>();
    }
    bool selecting() { return net->entered.load() > net->granted.load(); }
    // until the service waits in select or has nothing left to do
    void settle()
    {
        ++posted;
        runner->post_task(FROM_HERE, [this]() {
            flushed.fetch_add(1);
            net->quiet.hit();
        });
        for (;;)
        {
            uint32_t seen = net->quiet.n.load();
            if (selecting() || flushed.load() == posted)
                return;
            net->quiet.until(seen + 1);
        }
    }
    void ask(int i, bool write)
    {
        auto r = std::make_shared<Request>();
        r->socket = i;
        r->fd = sockets[i]->handle();
        r->write = write;
        requests.push_back(r);
        auto cb = [this, r](std::shared_ptr<UdpSocket<V4>> s) {
            fs_assert(s == sockets[r->socket], "the notification is for the socket asked about");
            r->notified.fetch_add(1);
            if (r->fd >= 0 && !std::count(net->gone.begin(), net->gone.end(), r->fd)) // requests of a socket that is not open fail at once
                net->notify(r->fd, r->write);
        };
        if (write)
            service->notify_when_writable(sockets[i], std::move(cb));
        else
            service->notify_when_readable(sockets[i], std::move(cb));
        settle();
    }
    void grant(unsigned answers)
    {
        net->answers = answers;
        net->granted.fetch_add(1);
        fs_futex_wake(&net->granted);
        settle();
    }
    // until the removal was processed
    void remove(int i, bool close)
    {
        if (close)
        {
            net->gone.push_back(sockets[i]->handle());
            sockets[i]->close();
            fs_assert(!sockets[i]->is_open() && !net->is_open(net->gone.back()), "closed");
        }
        else
            service->remove_socket(sockets[i]->handle());
        settle();
        uint32_t until = posted;
        while (flushed.load() < until && selecting())
            grant(0);
        for (auto &r : requests)
            if (r->socket == i && r->fd >= 0 && !r->notified.load())
                r->removed = true; // and is never notified
    }
    void finish()
    {
        if (selecting())
        {
            net->everything = true;
            grant(255);
        }
        // each poll serves one request per descriptor
        for (unsigned i = 0; i < 12; ++i)
        {
            auto e = std::make_shared<Event>();
            runner->post_task(FROM_HERE, [e]() { e->hit(); });
            e->until(1);
        }
        for (auto &r : requests)
            fs_assert(r->notified.load() == (r->removed ? 0 : 1), "a request is notified once, unless its socket was removed before");
        fs_reach(std::any_of(requests.begin(), requests.end(), [](auto &r) { return r->removed; }) ? "removed" : "all");
        for (auto &s : sockets)
            s.reset();
        fs_assert(net->live() == 0, "nothing stays open");
        fs_assert(tasks->stop(), "stopped");
        service.reset();
        runner.reset();
        tasks.reset();
        fs_reach("done");
    }
};
} // namespace

// n steps: requests, readiness of every combination, failures of the call, removals
FS_ENTRY c31_history()
{
    auto w = std::make_unique<World>();
    unsigned n = unsigned(fs_param("n", 4));
    w->ask(0, fs_param("first", 0) != 0);
    for (unsigned i = 1; i < n; ++i)
    {
        unsigned op = fs_choose(7, "step");
        if (op < 4)
            w->ask(int(op & 1), op >> 1);
        else if (op == 4)
        {
            fs_assume(w->selecting());
            unsigned answers = 0;
            for (int k = 0; k < 2; ++k)
                for (int fd : w->net->want[k])
                    if (w->net->is_open(fd))
                        answers |= fs_choose(2, "ready") << (2 * (fd - g_first) + (k == 0));
            w->grant(answers);
        }
        else if (op == 5)
        {
            fs_assume(w->selecting());
            w->grant(256);
        }
        else
        {
            unsigned k = fs_choose(3, "removed");
            fs_assume(k < 2 || w->sockets[1]->is_open());
            w->remove(int(k & 1 || k == 2), k == 2);
        }
    }
    w->finish();
}
