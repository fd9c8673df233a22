// Loggers: what reaches the sink.
#include "logging.hpp"
#include "task.hpp"

using namespace fly::logger;

namespace {
void write(Logger &l, unsigned level, Trace trace, const std::string &message, int form)
{
    if (form == 0)
        switch (level)
        {
            case 0: l.debug(std::move(trace), "{}", message); break;
            case 1: l.info(std::move(trace), "{}", message); break;
            case 2: l.warn(std::move(trace), "{}", message); break;
            default: l.error(std::move(trace), "{}", message); break;
        }
    else
        switch (level)
        {
            case 0: l.debug("{}", message); break;
            case 1: l.info("{}", message); break;
            case 2: l.warn("{}", message); break;
            default: l.error("{}", message); break;
        }
}
} // namespace

// one thread, any levels, any message, any limit; the sink may refuse any record
FS_ENTRY c36_sync()
{
    auto rec = std::make_unique<Records>();
    unsigned n = unsigned(fs_param("n", 2)), len = unsigned(fs_param("len", 2));
    rec->failAt = int(fs_choose(n + 1, "failAt"));
    uint32_t limit = uint32_t(fs_choose(len + 2, "limit"));
    auto logger = Logger::create("l", std::make_shared<Config>(limit), std::make_unique<Recorder>(rec.get()));
    fs_assert(logger != nullptr && rec->initialized == 1, "a logger initializes its sink once");
    static const char *files[] = {"file.cpp", "other.cpp"};
    std::vector<std::string> messages;
    std::vector<unsigned> levels;
    std::vector<uint32_t> lines;
    double last = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned level = fs_choose(4, "level");
        std::string message = vh::bytes(len, "m");
        uint32_t line = fs_u32("line");
        fs_clock_advance(1500001);
        int form = int(fs_param("form", 0));
        write(*logger, level, Trace {files[i & 1], "function", line}, message, form);
        bool accepted = int(i) <= rec->failAt;
        fs_assert(rec->logs.size() == (accepted ? i + 1 : size_t(rec->failAt + 1)), "every record is delivered once, none after the sink refused one");
        if (!accepted)
        {
            fs_reach("stopped");
            continue;
        }
        const Log &l = rec->logs.back();
        fs_assert(l.m_index == i, "records are numbered in order");
        fs_assert(unsigned(l.m_level) == level, "a record carries its level");
        fs_assert(vh::same(l.m_message, message.substr(0, limit)), "a record carries its message, cut to the limit");
        if (form == 0)
            fs_assert(l.m_trace.m_file == files[i & 1] && l.m_trace.m_function == "function" && l.m_trace.m_line == line, "a record carries its trace");
        else
            fs_assert(l.m_trace.m_file.empty() && l.m_trace.m_line == 0, "a record without a trace carries none");
        fs_assert(l.m_time >= last && l.m_time == std::chrono::duration<double, std::milli>(std::chrono::nanoseconds(1500001 * (i + 1))).count(), "a record carries the time since the logger was created");
        last = l.m_time;
        fs_reach("delivered");
    }
    logger.reset();
    fs_assert(rec->destroyed == 1, "a logger destroys its sink");
}
// threads that share a synchronous logger
FS_ENTRY c36_threads()
{
    struct World
    {
        Records rec;
        std::shared_ptr<Logger> logger;
        int k;
    };
    struct Arg
    {
        World *w;
        unsigned id;
    };
    auto w = std::make_unique<World>();
    w->k = int(fs_param("k", 2));
    w->logger = Logger::create("l", std::make_shared<Config>(64), std::make_unique<Recorder>(&w->rec));
    auto body = [](void *p) {
        auto *a = static_cast<Arg *>(p);
        for (int i = 0; i < a->w->k; ++i)
            a->w->logger->info(Trace {"f", "g", a->id}, "{}", i);
    };
    auto first = std::make_unique<Arg>(Arg {w.get(), 0}), second = std::make_unique<Arg>(Arg {w.get(), 1});
    uint64_t t = fs_thread_create(body, second.get());
    body(first.get());
    fs_thread_join(t);
    auto &logs = w->rec.logs;
    fs_assert(int(logs.size()) == 2 * w->k, "every record is delivered exactly once");
    int next[2] = {0, 0};
    for (size_t i = 0; i < logs.size(); ++i)
    {
        for (size_t j = 0; j < i; ++j)
            fs_assert(logs[i].m_index != logs[j].m_index, "no two records have the same number");
        fs_assert(logs[i].m_index < logs.size(), "records are numbered consecutively");
        int &n = next[logs[i].m_trace.m_line];
        fs_assert(logs[i].m_message == std::to_string(n), "records of one thread are delivered in order");
        ++n;
        fs_observe(logs[i].m_trace.m_line);
    }
    fs_reach("done");
}
// an asynchronous logger used by p threads
FS_ENTRY c36_async()
{
    struct World
    {
        Records rec;
        Event done;
        std::shared_ptr<fly::task::TaskManager> manager;
        std::shared_ptr<fly::task::SequencedTaskRunner> runner;
        std::shared_ptr<Logger> logger;
        int k;
        std::chrono::steady_clock::time_point start, from[2][3], to[2][3];
    };
    struct Arg
    {
        World *w;
        unsigned id;
    };
    auto w = std::make_unique<World>();
    int p = int(fs_param("p", 1));
    w->k = int(fs_param("k", 2));
    w->rec.failAt = int(fs_param("failAt", -1));
    w->manager = fly::task::TaskManager::create(uint32_t(fs_param("w", 1)));
    w->runner = fly::task::SequencedTaskRunner::create(w->manager);
    fs_clock_advance(1000);
    w->start = std::chrono::steady_clock::now();
    w->logger = Logger::create("l", w->runner, std::make_shared<Config>(64), std::make_unique<Recorder>(&w->rec));
    auto body = [](void *p) {
        auto *a = static_cast<Arg *>(p);
        for (int i = 0; i < a->w->k; ++i)
        {
            a->w->from[a->id][i] = std::chrono::steady_clock::now();
            a->w->logger->info(Trace {"f", "g", a->id}, "{}", i);
            a->w->to[a->id][i] = std::chrono::steady_clock::now();
            fs_clock_advance(1000);
        }
    };
    auto first = std::make_unique<Arg>(Arg {w.get(), 0}), second = std::make_unique<Arg>(Arg {w.get(), 1});
    uint64_t t = p > 1 ? fs_thread_create(body, second.get()) : 0;
    body(first.get());
    if (t)
        fs_thread_join(t);
    World *s = w.get();
    w->runner->post_task(FROM_HERE, [s]() { s->done.hit(); });
    w->done.until(1);
    w->manager->stop();
    auto &logs = w->rec.logs;
    int expected = w->rec.failAt >= 0 ? w->rec.failAt + 1 : p * w->k;
    fs_assert(int(logs.size()) == expected, "every record is delivered exactly once, none after the sink refused one");
    int next[2] = {0, 0};
    double last[2] = {0, 0};
    for (size_t i = 0; i < logs.size(); ++i)
    {
        fs_assert(logs[i].m_index == i, "records are numbered in order of delivery");
        int &n = next[logs[i].m_trace.m_line];
        fs_assert(logs[i].m_message == std::to_string(n), "records of one thread are delivered in order");
        std::chrono::duration<double, std::milli> from = w->from[logs[i].m_trace.m_line][n] - w->start, to = w->to[logs[i].m_trace.m_line][n] - w->start;
        fs_assert(logs[i].m_time >= from.count() && logs[i].m_time <= to.count(), "a record carries the time it was made, not the time it was delivered");
        ++n;
        fs_assert(logs[i].m_time >= last[logs[i].m_trace.m_line], "times of one thread's records never decrease");
        last[logs[i].m_trace.m_line] = logs[i].m_time;
        fs_observe(logs[i].m_trace.m_line);
    }
    fs_reach("done");
}
