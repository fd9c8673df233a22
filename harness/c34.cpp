// ConcurrentQueue and ConcurrentStack under every interleaving of a few threads.
#include "fly/types/concurrency/concurrent_queue.hpp"
#include "fly/types/concurrency/concurrent_stack.hpp"

#include "vh.h"
#include <memory>
#include <vector>

using namespace std::chrono_literals;

namespace {
typedef std::unique_ptr<int> Item;
typedef fly::detail::ConcurrentContainer<Item, std::queue<Item>> QBase;

template <class C>
struct Shared
{
    C c;
    std::vector<int> got[3];
    int timedOut[3] = {0, 0, 0};
    unsigned items = 0, pops[3] = {0, 0, 0};
};
template <class C>
struct Arg
{
    Shared<C> *s;
    unsigned id;
};
template <class C>
void produce(void *p)
{
    auto *a = static_cast<Arg<C> *>(p);
    for (unsigned i = 0; i < a->s->items; ++i)
        a->s->c.push(std::make_unique<int>(int(a->id * 10 + i)));
}
template <class C>
void consume(void *p)
{
    auto *a = static_cast<Arg<C> *>(p);
    for (unsigned i = 0; i < a->s->pops[a->id]; ++i)
    {
        Item it;
        a->s->c.pop(it);
        fs_assert(it != nullptr, "a pop delivers an item that was pushed");
        a->s->got[a->id].push_back(*it);
    }
}
template <class C>
void consumeTimed(void *p)
{
    auto *a = static_cast<Arg<C> *>(p);
    for (unsigned i = 0; i < a->s->pops[a->id]; ++i)
    {
        Item it;
        auto before = std::chrono::steady_clock::now();
        bool ok = a->s->c.pop(it, 10ms);
        fs_assert(ok == (it != nullptr), "a timed pop says whether it delivered an item");
        if (ok)
            a->s->got[a->id].push_back(*it);
        else
        {
            fs_assert(std::chrono::steady_clock::now() - before >= 10ms, "a timed pop gives up no earlier than its duration");
            a->s->timedOut[a->id]++;
        }
    }
}
template <class C>
void check(Shared<C> &s, unsigned producers, bool fifo)
{
    int seen[3][4] = {};
    unsigned total = 0;
    for (auto &g : s.got)
    {
        int last[3] = {-1, -1, -1};
        for (int v : g)
        {
            seen[v / 10][v % 10]++;
            total++;
            if (fifo)
            {
                fs_assert(v % 10 > last[v / 10], "items of one producer are delivered in the order they were pushed");
                last[v / 10] = v % 10;
            }
        }
    }
    unsigned left = unsigned(s.c.size());
    fs_assert(s.c.empty() == (left == 0), "empty and size agree");
    fs_assert(left + total == producers * s.items, "no item is lost or invented");
    while (!s.c.empty())
    {
        Item it;
        s.c.pop(it);
        seen[*it / 10][*it % 10]++;
    }
    for (unsigned p = 0; p < producers; ++p)
        for (unsigned i = 0; i < s.items; ++i)
            fs_assert(seen[p][i] == 1, "every item is delivered exactly once");
    fs_observe(total);
    for (auto &g : s.got)
        for (int v : g)
            fs_observe(uint64_t(v));
}
template <class C>
void run(bool fifo, bool timed)
{
    unsigned producers = unsigned(fs_param("p", 1)), consumers = unsigned(fs_param("c", 2)), items = unsigned(fs_param("k", 2)), pops = unsigned(fs_param("pops", 1));
    auto s = std::make_unique<Shared<C>>();
    s->items = items;
    std::vector<std::unique_ptr<Arg<C>>> args;
    std::vector<uint64_t> t;
    for (unsigned i = 0; i < consumers; ++i)
    {
        s->pops[i] = pops;
        args.push_back(std::make_unique<Arg<C>>(Arg<C> {s.get(), i}));
        t.push_back(fs_thread_create(timed ? consumeTimed<C> : consume<C>, args.back().get()));
    }
    for (unsigned i = 1; i < producers; ++i)
    {
        args.push_back(std::make_unique<Arg<C>>(Arg<C> {s.get(), i}));
        t.push_back(fs_thread_create(produce<C>, args.back().get()));
    }
    Arg<C> mine {s.get(), 0};
    produce<C>(&mine);
    fs_assert(s->c.size() <= producers * items, "size never exceeds the number of items pushed");
    for (auto id : t)
        fs_thread_join(id);
    check(*s, producers, fifo);
    fs_reach("done");
}
} // namespace

FS_ENTRY c34_blocking()
{
    if (fs_param("stack", 0))
        run<fly::ConcurrentStack<Item>>(false, false);
    else
        run<fly::ConcurrentQueue<Item>>(true, false);
}
FS_ENTRY c34_timed()
{
    if (fs_param("stack", 0))
        run<fly::ConcurrentStack<Item>>(false, true);
    else
        run<fly::ConcurrentQueue<Item>>(true, true);
}
// every sequence of operations on one thread against a reference
template <class C>
void sequence(bool fifo)
{
    unsigned n = unsigned(fs_param("n", 6));
    C c;
    std::vector<int> ref;
    int next = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned op = fs_choose(3, "op");
        if (op == 0)
        {
            c.push(std::make_unique<int>(next));
            ref.push_back(next++);
        }
        else if (op == 1 && !ref.empty())
        {
            Item it;
            c.pop(it);
            fs_assert(it && *it == (fifo ? ref.front() : ref.back()), fifo ? "a queue delivers the oldest item" : "a stack delivers the newest item");
            ref.erase(fifo ? ref.begin() : ref.end() - 1);
            fs_reach("popped");
        }
        else if (op == 2 && !ref.empty())
        {
            Item it;
            bool ok = c.pop(it, 10ms);
            fs_assert(ok && it && *it == (fifo ? ref.front() : ref.back()), "a timed pop delivers the next item when there is one");
            ref.erase(fifo ? ref.begin() : ref.end() - 1);
        }
        fs_assert(c.size() == ref.size() && c.empty() == ref.empty(), "size and empty tell the number of items");
    }
}
FS_ENTRY c34_sequence()
{
    if (fs_param("stack", 0))
        sequence<fly::ConcurrentStack<Item>>(false);
    else
        sequence<fly::ConcurrentQueue<Item>>(true);
}
