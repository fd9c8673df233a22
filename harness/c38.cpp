// Named loggers: registration and lookup.
#include "logging.hpp"
#include "task.hpp"

using fly::logger::Logger;

namespace {
std::shared_ptr<Logger> make(const std::string &name, Records *r)
{
    return Logger::create(name, std::make_shared<Config>(256), std::make_unique<Recorder>(r));
}
} // namespace

// every sequence of creations, destructions and lookups over two names
FS_ENTRY c38_sequence()
{
    auto rec = std::make_unique<Records>();
    unsigned n = unsigned(fs_param("n", 4));
    // one name has a symbolic character, it may equal the other
    char a = 'x', b = char(fs_u8("b"));
    std::string names[2] = {std::string("n") + a, std::string("n") + b};
    if (fs_param("reserved", 0))
        names[0] = "_libfly_default_"; // what the initial default logger is called; it is not registered
    bool same = names[0] == names[1];
    std::shared_ptr<Logger> live[2];
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned op = fs_choose(6, "op"), k = op & 1;
        bool taken = live[k] || (same && live[1 - k]);
        if (op < 2)
        {
            auto l = make(names[k], rec.get());
            fs_assert((l != nullptr) == !taken, "a logger is created exactly when no live logger has its name");
            if (l)
                live[k] = l;
            fs_reach(l ? "created" : "refused");
        }
        else if (op < 4)
            live[k].reset();
        else
        {
            rec->refuse = true; // a logger whose sink cannot be initialized
            fs_assert(make(names[k], rec.get()) == nullptr, "a logger that cannot be initialized is not created");
            rec->refuse = false;
        }
        for (unsigned j = 0; j < 2; ++j)
        {
            auto expected = live[j] ? live[j] : same ? live[1 - j] : nullptr;
            fs_assert(Logger::get(names[j]) == expected, "lookup finds exactly the live logger of that name");
        }
        fs_assert(Logger::get("other") == nullptr, "lookup of an unknown name finds nothing");
        if (live[0] && live[1])
            fs_assert(live[0]->name() == names[0] && live[1]->name() == names[1], "a logger has the name it was created with");
    }
}
// the default logger
FS_ENTRY c38_default()
{
    auto rec = std::make_unique<Records>(), other = std::make_unique<Records>();
    Logger *initial = Logger::get_default_logger();
    fs_assert(initial != nullptr, "there is a default logger from the start");
    Logger *now = initial;
    std::shared_ptr<Logger> keep[2] = {make("a", rec.get()), make("b", other.get())};
    Logger *raw[2] = {keep[0].get(), keep[1].get()};
    for (int i = 0; i < 3; ++i)
    {
        unsigned op = fs_choose(5, "op");
        if (op < 2 && keep[op])
        {
            Logger::set_default_logger(keep[op]);
            now = raw[op];
        }
        else if (op == 2)
        {
            Logger::set_default_logger(nullptr);
            now = initial;
        }
        else if (op >= 3)
            keep[op - 3].reset(); // the default logger is retained
        fs_assert(Logger::get_default_logger() == now, "the default logger is the one set, or the initial one when reset");
        fs_assert((Logger::get("a") != nullptr) == (keep[0] || now == raw[0]), "the default logger stays alive until it is replaced");
        fs_assert((Logger::get("b") != nullptr) == (keep[1] || now == raw[1]), "the default logger stays alive until it is replaced");
    }
    size_t before = rec->logs.size() + other->logs.size();
    LOGW("message {}", 5);
    size_t added = rec->logs.size() + other->logs.size() - before;
    fs_assert(added == (now == initial ? 0 : 1), "log macros use the default logger");
    Logger::set_default_logger(nullptr);
    fs_reach("done");
}
// threads that create, look up and destroy loggers of one name
FS_ENTRY c38_threads()
{
    struct Shared
    {
        Records rec[3];
        std::atomic<int> live {0};
    };
    struct Arg
    {
        Shared *s;
        int id;
        bool made = false;
    };
    auto s = std::make_unique<Shared>();
    auto body = [](void *p) {
        auto *a = static_cast<Arg *>(p);
        auto l = make("name", &a->s->rec[a->id]);
        a->made = l != nullptr;
        if (l)
        {
            fs_assert(a->s->live.fetch_add(1) == 0, "at most one logger of a name lives at a time");
            fs_assert(Logger::get("name") == l, "lookup finds the live logger of that name");
            a->s->live.fetch_sub(1);
        }
        else
        {
            auto other = Logger::get("name");
            fs_assert(other == nullptr || other->name() == "name", "lookup finds a logger of that name or none");
        }
    };
    int n = int(fs_param("t", 2));
    std::unique_ptr<Arg> args[3];
    uint64_t t[3] = {};
    Logger::get_default_logger();
    for (int i = 0; i < n; ++i)
        args[i] = std::make_unique<Arg>(Arg {s.get(), i});
    for (int i = 1; i < n; ++i)
        t[i] = fs_thread_create(body, args[i].get());
    body(args[0].get());
    for (int i = 1; i < n; ++i)
        fs_thread_join(t[i]);
    int made = 0;
    for (int i = 0; i < n; ++i)
        made += args[i]->made;
    fs_assert(made >= 1, "one of the threads creates the logger");
    fs_observe(uint64_t(made));
    fs_assert(Logger::get("name") == nullptr, "a destroyed logger is not found");
    auto again = make("name", &s->rec[0]);
    fs_assert(again != nullptr, "the name of a destroyed logger is free");
    fs_reach(made > 1 ? "several" : "one");
}
