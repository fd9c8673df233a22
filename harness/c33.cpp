// Parallel task runner, delays, owners, stop and start.
#include "task.hpp"

using namespace fly::task;
using namespace std::chrono_literals;

namespace {
struct World
{
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<ParallelTaskRunner> runner;
    Event done;
    std::atomic<int> ran[8] {};
    std::atomic<bool> stopped {false};
    uint32_t sum = 0;

    void body(int i)
    {
        fs_assert(!stopped.load(), "no task runs after the manager was stopped");
        fs_assert(ran[i].fetch_add(1) == 0, "a task runs only once");
    }
};
void start(World &w)
{
    w.manager = TaskManager::create(uint32_t(fs_param("w", 1)));
    fs_assert(w.manager != nullptr, "a new manager starts");
    w.runner = ParallelTaskRunner::create(w.manager);
}
void stop(World &w)
{
    fs_assert(w.manager->stop(), "stopping a running manager reports success");
    w.stopped.store(true);
    fs_assert(!w.manager->stop(), "stopping a stopped manager reports that nothing changed");
    fs_reach("done");
}
struct Poster
{
    World *w;
    int first, k;
};
void post(void *p)
{
    auto *a = static_cast<Poster *>(p);
    for (int i = a->first; i < a->first + a->k; ++i)
    {
        World *w = a->w;
        fs_assert(w->runner->post_task(FROM_HERE, [w, i]() {
            w->body(i);
            w->done.hit();
        }), "a task is accepted while the manager lives");
    }
}
} // namespace

// k tasks from each of p threads
FS_ENTRY c33_parallel()
{
    auto w = std::make_unique<World>();
    int p = int(fs_param("p", 1)), k = int(fs_param("k", 2));
    start(*w);
    auto second = std::make_unique<Poster>(Poster {w.get(), k, k}), first = std::make_unique<Poster>(Poster {w.get(), 0, k});
    uint64_t t = p > 1 ? fs_thread_create(post, second.get()) : 0;
    post(first.get());
    if (t)
        fs_thread_join(t);
    w->done.until(uint32_t(p * k));
    stop(*w);
    for (int i = 0; i < p * k; ++i)
        fs_assert(w->ran[i].load() == 1, "every task runs exactly once");
}
// what is posted while the manager runs is visible to the task, what the task did is visible to its reply
FS_ENTRY c33_reply()
{
    auto w = std::make_unique<World>();
    start(*w);
    World *s = w.get();
    uint32_t value = fs_u32("value");
    bool owned = fs_param("owned", 0) != 0, delayed = fs_param("delayed", 0) != 0;
    auto task = [s, value]() -> std::shared_ptr<uint32_t> {
        s->body(0);
        s->sum = value;
        return std::make_shared<uint32_t>(value ^ 0x55);
    };
    auto reply = [s, value](std::shared_ptr<uint32_t> const &result) {
        fs_assert(result && *result == (value ^ 0x55), "a reply receives its task's result");
        fs_assert(s->sum == value, "a reply sees what its task did");
        s->body(1);
        s->done.hit();
    };
    std::shared_ptr<int> owner = std::make_shared<int>(7);
    std::weak_ptr<int> weak = owner;
    auto ownedTask = [task](std::shared_ptr<int> o) mutable {
        fs_assert(o && *o == 7, "a task receives its owner");
        return task();
    };
    auto ownedReply = [reply](std::shared_ptr<uint32_t> const &r, std::shared_ptr<int> o) {
        fs_assert(o && *o == 7, "a reply receives its owner");
        reply(r);
    };
    auto before = std::chrono::steady_clock::now();
    bool ok;
    if (!owned && !delayed)
        ok = w->runner->post_task_with_reply(FROM_HERE, task, reply);
    else if (!owned)
        ok = w->runner->post_task_with_delay_and_reply(FROM_HERE, 5ms, task, reply);
    else if (!delayed)
        ok = w->runner->post_task_with_reply(FROM_HERE, weak, ownedTask, ownedReply);
    else
        ok = w->runner->post_task_with_delay_and_reply(FROM_HERE, weak, 5ms, ownedTask, ownedReply);
    fs_assert(ok, "a task is accepted while the manager lives");
    w->done.until(1);
    if (delayed)
        fs_assert(std::chrono::steady_clock::now() - before >= 5ms, "a delayed task does not run before its delay");
    stop(*w);
    fs_assert(w->ran[0].load() == 1 && w->ran[1].load() == 1, "a task and its reply run exactly once");
}
// delayed tasks
FS_ENTRY c33_delay()
{
    auto w = std::make_unique<World>();
    start(*w);
    World *s = w.get();
    int k = int(fs_param("k", 1));
    static const std::chrono::milliseconds delays[] = {12ms, 5ms, 25ms, 0ms};
    int base = int(fs_param("base", 0));
    for (int i = 0; i < k; ++i)
    {
        auto delay = delays[(base + i) % 4];
        static const uint64_t pauses[] = {0, 5500000, 4999999, 300000};
        fs_clock_advance(pauses[fs_choose(i ? 2 : 4, "pause")]);
        auto before = std::chrono::steady_clock::now();
        auto task = [s, i, delay, before]() {
            fs_assert(std::chrono::steady_clock::now() - before >= delay, "a delayed task does not run before its delay");
            s->body(i);
            s->done.hit();
        };
        fs_assert(w->runner->post_task_with_delay(FROM_HERE, delay, std::move(task)), "a task is accepted while the manager lives");
    }
    w->done.until(uint32_t(k));
    stop(*w);
    for (int i = 0; i < k; ++i)
        fs_assert(w->ran[i].load() == 1, "every delayed task runs exactly once");
}
// tasks of an owner that may be destroyed before they run
FS_ENTRY c33_owner()
{
    struct Owner
    {
        std::atomic<bool> *gone;
        int data = 41;
        ~Owner()
        {
            data = 0;
            gone->store(true);
        }
    };
    auto w = std::make_unique<World>();
    start(*w);
    World *s = w.get();
    auto gone = std::make_unique<std::atomic<bool>>(false);
    auto owner = std::make_shared<Owner>();
    owner->gone = gone.get();
    std::weak_ptr<Owner> weak = owner;
    auto *flag = gone.get();
    bool delayed = fs_param("delayed", 0) != 0, early = fs_param("early", 0) != 0;
    if (early)
        owner.reset();
    auto task = [s, flag](std::shared_ptr<Owner> o) {
        fs_assert(o != nullptr && o->data == 41, "a task runs only with its owner");
        fs_assert(!flag->load(), "an owner lives while its task runs");
        s->body(0);
        fs_assert(!flag->load(), "an owner lives while its task runs");
    };
    fs_assert(delayed ? w->runner->post_task_with_delay(FROM_HERE, weak, 5ms, task) : w->runner->post_task(FROM_HERE, weak, task), "a task is accepted while the manager lives");
    // a task posted later shows when the first has been dealt with (one worker: in order)
    auto last = [s]() { s->done.hit(); };
    if (delayed)
        w->runner->post_task_with_delay(FROM_HERE, 15ms, last);
    else
        w->runner->post_task(FROM_HERE, last);
    owner.reset();
    w->done.until(1);
    stop(*w);
    fs_assert(flag->load(), "the task manager does not keep an owner alive");
    fs_assert(w->ran[0].load() <= (early ? 0 : 1), "a task whose owner is gone does not run");
    fs_observe(uint64_t(w->ran[0].load()));
    fs_reach(w->ran[0].load() ? "ran" : "skipped");
}
// stop while tasks wait; start again
FS_ENTRY c33_stop()
{
    auto w = std::make_unique<World>();
    start(*w);
    World *s = w.get();
    int k = int(fs_param("k", 2));
    bool again = fs_param("again", 0) != 0, delayed = fs_param("delayed", 0) != 0;
    fs_assert(!w->manager->start(), "starting a running manager reports that nothing changed");
    for (int i = 0; i < k; ++i)
        if (delayed)
            w->runner->post_task_with_delay(FROM_HERE, 1ms, [s, i]() { s->body(i); });
        else
            w->runner->post_task(FROM_HERE, [s, i]() { s->body(i); });
    stop(*w);
    int before = 0;
    for (int i = 0; i < k; ++i)
        before += w->ran[i].load();
    fs_observe(uint64_t(before));
    fs_reach(before == k ? "all" : "some");
    if (again)
    {
        w->stopped.store(false);
        fs_assert(w->manager->start(), "starting a stopped manager reports success");
        fs_assert(!w->manager->start(), "starting a running manager reports that nothing changed");
        w->runner->post_task(FROM_HERE, [s]() {
            s->body(7);
            s->done.hit();
        });
        w->done.until(1);
        stop(*w);
        fs_assert(w->ran[7].load() == 1, "a task posted after a restart runs exactly once");
    }
    w->runner->post_task(FROM_HERE, [s]() { s->body(6); });
    // the queues are released while no thread of the manager is left
    w->manager.reset();
    fs_assert(!w->runner->post_task(FROM_HERE, [s]() { s->body(6); }), "a task is refused once the manager is gone");
    fs_assert(w->ran[6].load() == 0, "no task runs after the manager was stopped");
}
// two threads stop the manager
FS_ENTRY c33_two_stops()
{
    auto w = std::make_unique<World>();
    start(*w);
    struct Other
    {
        World *w;
        bool result = false;
    };
    auto o = std::make_unique<Other>(Other {w.get()});
    uint64_t t = fs_thread_create(
        [](void *p) {
            auto *o = static_cast<Other *>(p);
            o->result = o->w->manager->stop();
        },
        o.get());
    bool mine = w->manager->stop();
    fs_thread_join(t);
    fs_assert(mine != o->result, "exactly one of two calls stops the manager");
    fs_reach("done");
}
// runners that are destroyed before their tasks run
FS_ENTRY c33_runner_gone()
{
    auto w = std::make_unique<World>();
    start(*w);
    World *s = w.get();
    bool delayed = fs_param("delayed", 0) != 0;
    {
        auto other = ParallelTaskRunner::create(w->manager);
        if (delayed)
            other->post_task_with_delay(FROM_HERE, 1ms, [s]() { s->body(0); });
        else
            other->post_task(FROM_HERE, [s]() { s->body(0); });
    }
    w->runner->post_task_with_delay(FROM_HERE, 2ms, [s]() {
        s->body(1);
        s->done.hit();
    });
    w->done.until(1);
    stop(*w);
    fs_assert(w->ran[1].load() == 1 && w->ran[0].load() <= 1, "every task runs at most once");
}
