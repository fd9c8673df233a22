// Sequenced task runner: every interleaving of posting threads, workers and the timer within the bounds.
#include "task.hpp"

using namespace fly::task;

namespace {
struct World
{
    std::shared_ptr<TaskManager> manager;
    std::shared_ptr<SequencedTaskRunner> runner;
    Event done;
    std::atomic<int> running {0};
    // not atomic on purpose: tasks of one sequence never overlap and each sees what earlier ones did
    int order[8] = {};
    int count = 0;
    int next[3] = {};
    bool stopped = false;
    int sum = 0, replies = 0;

    void body(int poster, int index)
    {
        fs_assert(running.exchange(1) == 0, "no two tasks of a sequence run at the same time");
        fs_assert(!stopped, "no task runs after the manager was stopped");
        fs_assert(next[poster] == index, "tasks of a sequence run in the order they were posted");
        next[poster]++;
        order[count++] = poster * 10 + index;
        fs_assert(running.exchange(0) == 1, "no two tasks of a sequence run at the same time");
    }
};
struct Poster
{
    World *w;
    int id;
    int k;
};
void post(void *p)
{
    auto *a = static_cast<Poster *>(p);
    for (int i = 0; i < a->k; ++i)
    {
        World *w = a->w;
        int id = a->id;
        bool ok = w->runner->post_task(FROM_HERE, [w, id, i]() {
            w->body(id, i);
            w->done.hit();
        });
        fs_assert(ok, "a task is accepted while the manager lives");
    }
}
void start(World &w)
{
    w.manager = TaskManager::create(uint32_t(fs_param("w", 1)));
    fs_assert(w.manager != nullptr, "a new manager starts");
    w.runner = SequencedTaskRunner::create(w.manager);
}
void finish(World &w, uint32_t n)
{
    w.done.until(n);
    fs_assert(w.manager->stop(), "stopping a running manager reports success");
    w.stopped = true;
    for (int i = 0; i < w.count; ++i)
        fs_observe(uint64_t(w.order[i]));
    fs_reach("done");
}
} // namespace

// k tasks from each of p threads
FS_ENTRY c32_order()
{
    auto w = std::make_unique<World>();
    int p = int(fs_param("p", 1)), k = int(fs_param("k", 2));
    start(*w);
    auto second = std::make_unique<Poster>(Poster {w.get(), 1, k}), first = std::make_unique<Poster>(Poster {w.get(), 0, k});
    uint64_t t = p > 1 ? fs_thread_create(post, second.get()) : 0;
    post(first.get());
    if (t)
        fs_thread_join(t);
    finish(*w, uint32_t(p * k));
    fs_assert(w->count == p * k, "every task runs exactly once");
}
// a task's result goes to its reply, once, after the task and in sequence
FS_ENTRY c32_reply()
{
    auto w = std::make_unique<World>();
    start(*w);
    World *s = w.get();
    int k = int(fs_param("k", 1));
    for (int i = 0; i < k; ++i)
    {
        s->runner->post_task_with_reply(
            FROM_HERE,
            [s, i]() -> int {
                s->body(0, i);
                return 100 + i;
            },
            [s, i](int result) {
                fs_assert(result == 100 + i, "a reply receives its task's result");
                fs_assert(s->next[0] > i, "a reply runs after its task");
                s->body(1, i);
                s->replies++;
                s->done.hit();
            });
    }
    finish(*w, uint32_t(k));
    fs_assert(w->replies == k && w->count == 2 * k, "every task and every reply runs exactly once");
}
// a task that posts to its own sequence
FS_ENTRY c32_nested()
{
    auto w = std::make_unique<World>();
    start(*w);
    World *s = w.get();
    s->runner->post_task(FROM_HERE, [s]() {
        s->runner->post_task(FROM_HERE, [s]() {
            s->body(1, 0);
            s->done.hit();
        });
        s->body(0, 0);
        s->done.hit();
    });
    s->runner->post_task(FROM_HERE, [s]() {
        s->body(0, 1);
        s->done.hit();
    });
    finish(*w, 3);
    fs_assert(w->count == 3, "every task runs exactly once");
}
