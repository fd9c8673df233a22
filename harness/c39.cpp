// Path monitor: registrations, events, watches, concurrent use.
#include "inotify.hpp"

using fly::path::PathEvent;

namespace {
struct Monitor final : fly::path::PathMonitorImpl
{
    Monitor() : PathMonitorImpl(nullptr, nullptr) {}
    using PathMonitorImpl::poll;
    using PathMonitorImpl::is_valid;
};
struct Seen
{
    int id;
    std::string path;
    PathEvent event;
};
struct World
{
    std::unique_ptr<Kernel> kernel = std::make_unique<Kernel>();
    std::string root = vf_root(), dir[2] = {root + "/a", root + "/b"};
    std::vector<Seen> seen;
    Event events;

    World()
    {
        g_kernel = kernel.get();
        vf_mkdir(dir[0].c_str());
        vf_mkdir(dir[1].c_str());
    }
    fly::path::PathMonitor::PathEventCallback record(int id)
    {
        return [this, id](std::filesystem::path p, PathEvent e) {
            seen.push_back({id, p.string(), e});
            events.hit();
        };
    }
};
// what a mask of the kernel means
uint32_t mask(unsigned v)
{
    return (1u << (v & 15)) | (v & 16 ? uint32_t(IN_ISDIR) : 0u);
}
PathEvent meaning(unsigned v)
{
    uint32_t m = 1u << (v & 15);
    if (m & (IN_CREATE | IN_MOVED_TO))
        return PathEvent::Created;
    if (m & (IN_DELETE | IN_MOVED_FROM))
        return PathEvent::Deleted;
    return m & IN_MODIFY ? PathEvent::Changed : PathEvent::None;
}
// what is registered
struct Spec
{
    struct Dir
    {
        int path = -1;
        std::map<std::string, int> files;
        bool watched() const { return path >= 0 || !files.empty(); }
    };
    Dir dir[2];
};
void expect(World &w, size_t at, int id, const std::string &path, PathEvent e)
{
    fs_assert(w.seen.size() > at, "a change is reported");
    fs_assert(w.seen[at].id == id, "a change goes to the file's callback, else to the directory's, the latest one registered");
    fs_assert(w.seen[at].path == path, "a change is reported with the path of the file");
    fs_assert(w.seen[at].event == e, "a change is reported as what it is");
}
// every name in every directory, in watches live and gone
void probe(World &w, Monitor &m, Spec &spec, unsigned v)
{
    static const char *names[] = {"f", "g", "other"};
    w.seen.clear();
    std::string batch;
    for (size_t i = 0; i <= w.kernel->watches.size(); ++i)
        for (const char *name : names)
            batch += event(int(i) + 1, mask(v), name);
    w.kernel->push(batch);
    m.poll(std::chrono::milliseconds(0));
    size_t at = 0;
    for (size_t i = 0; i < w.kernel->watches.size(); ++i)
    {
        auto &watch = w.kernel->watches[i];
        if (!watch.live)
            continue;
        auto &d = spec.dir[watch.path == w.dir[1]];
        for (const char *name : names)
        {
            auto it = d.files.find(name);
            int id = it != d.files.end() ? it->second : d.path;
            if (id >= 0 && meaning(v) != PathEvent::None)
                expect(w, at++, id, watch.path + "/" + name, meaning(v));
        }
    }
    fs_assert(w.seen.size() == at, "nothing but the changes of what is registered is reported, each once");
    if (at)
        fs_reach("reported");
}
void watches(World &w, Spec &spec)
{
    for (int i = 0; i < 2; ++i)
        fs_assert((w.kernel->number(w.dir[i]) != -1) == spec.dir[i].watched(), "a directory is watched exactly while something in it is registered");
    fs_assert(w.kernel->live() == spec.dir[0].watched() + spec.dir[1].watched(), "no other watch is held");
}
} // namespace

// any history of n registrations and removals, then every kind of event in every directory
FS_ENTRY c39_history()
{
    auto w = std::make_unique<World>();
    auto m = std::make_unique<Monitor>();
    fs_assert(m->is_valid(), "a monitor is created");
    unsigned n = unsigned(fs_param("n", 3)), first = unsigned(fs_param("first", 99));
    Spec spec;
    vf_put((w->dir[0] + "/f").c_str(), "", 0);
    for (unsigned i = 0; i < n; ++i)
    {
        static const char *names[] = {"op0", "op1", "op2", "op3", "op4", "op5"};
        unsigned op = i == 0 && first < 12 ? first : fs_choose(12, names[i]);
        int id = int(i);
        auto &a = spec.dir[0], &b = spec.dir[1];
        std::filesystem::path da(w->dir[0]), db(w->dir[1]);
        auto file = [&](Spec::Dir &s, const std::filesystem::path &d, const char *name, bool add) {
            if (add)
            {
                fs_assert(m->add_file(d / name, w->record(id)), "a file in a directory can be registered");
                s.files[name] = id;
            }
            else
                fs_assert(m->remove_file(d / name) == (s.files.erase(name) > 0), "removing a file reports whether it was registered");
        };
        switch (op)
        {
            case 0: fs_assert(m->add_path(da, w->record(id)), "a directory can be registered"); a.path = id; break;
            case 1: fs_assert(m->add_path(db, w->record(id)), "a directory can be registered"); b.path = id; break;
            case 2: fs_assert(m->remove_path(da) == a.watched(), "removing a directory reports whether it was registered"); a = {}; break;
            case 3: file(a, da, "f", true); break;
            case 4: file(a, da, "g", true); break;
            case 5: file(b, db, "f", true); break;
            case 6: file(a, da, "f", false); break;
            case 7: file(a, da, "g", false); break;
            case 8: file(b, db, "f", false); break;
            case 9: m->remove_all_paths(); a = b = {}; break;
            case 10: // refused
                fs_assert(!m->add_path(da, nullptr) && !m->add_file(db / "g", nullptr), "a registration without a callback is refused");
                fs_assert(!m->add_path(da / "f", w->record(id)) && !m->add_file(db, w->record(id)), "only directories are registered as directories, only files as files");
                fs_assert(!m->add_path(da / "x", w->record(id)) && !m->add_file(da / "x" / "f", w->record(id)), "what does not exist is refused");
                break;
            default: // the kernel refuses the watch
                w->kernel->refuse_watch = true;
                fs_assert(m->add_file(da / "g", w->record(id)) == a.watched(), "a registration fails when the directory cannot be watched");
                if (a.watched())
                    a.files["g"] = id;
                fs_assert(m->add_path(db, w->record(id)) == b.watched(), "a registration fails when the directory cannot be watched");
                if (b.watched())
                    b.path = id;
                w->kernel->refuse_watch = false;
                break;
        }
        watches(*w, spec);
    }
    unsigned v = fs_u8("mask");
    fs_assume(v < 32 && (v & 15) < 13);
    probe(*w, *m, spec, v);
    m.reset();
    fs_assert(w->kernel->live() == 0, "every watch is released when the monitor goes away");
    fs_assert(!w->kernel->open, "the descriptor is closed when the monitor goes away");
    fs_reach("done");
}
// k events of any kind about any watch and any name, cut into reads at any event
FS_ENTRY c39_batch()
{
    auto w = std::make_unique<World>();
    auto m = std::make_unique<Monitor>();
    std::filesystem::path da(w->dir[0]), db(w->dir[1]);
    fs_assert(m->add_path(da, w->record(0)) && m->add_file(da / "f", w->record(1)) && m->add_file(db / "a-rather-long-name", w->record(2)), "registered");
    unsigned k = unsigned(fs_param("k", 2));
    static const char *names[] = {"", "f", "a-rather-long-name", "fifteen-letters"};
    std::string batch;
    struct Exp
    {
        int id;
        std::string path;
        PathEvent e;
    };
    std::vector<Exp> want;
    for (unsigned i = 0; i < k; ++i)
    {
        unsigned v = fs_u8("event"), name = fs_choose(4, "name"), wd = fs_choose(3, "watch") + 1; // 3: not one of ours
        fs_assume(v < 32);
        batch += event(int(wd), mask(v), names[name]);
        if (fs_choose(2, "cut"))
        {
            w->kernel->push(batch);
            batch.clear();
        }
        int id = wd == 1 ? (name == 1 ? 1 : 0) : wd == 2 && name == 2 ? 2 : -1;
        if (id >= 0 && name > 0 && meaning(v) != PathEvent::None)
            want.push_back({id, w->dir[wd - 1] + "/" + names[name], meaning(v)});
    }
    if (!batch.empty())
        w->kernel->push(batch);
    m->poll(std::chrono::milliseconds(10));
    fs_assert(w->seen.size() == want.size(), "every change is reported once and nothing else");
    for (size_t i = 0; i < want.size(); ++i)
        expect(*w, i, want[i].id, want[i].path, want[i].e);
    fs_assert(w->kernel->batches.empty(), "everything the kernel reported is read");
    w->seen.clear();
    m->poll(std::chrono::milliseconds(0));
    fs_assert(w->seen.empty(), "a change is reported once");
    fs_reach(want.empty() ? "none" : "some");
}
// a read that fills the buffer
FS_ENTRY c39_full()
{
    auto w = std::make_unique<World>();
    auto m = std::make_unique<Monitor>();
    fs_assert(m->add_path(w->dir[0], w->record(0)), "registered");
    std::string name(fs_param("n", 255), 'n'), batch;
    size_t count = 0;
    for (std::string e = event(1, IN_CREATE, name.c_str()); batch.size() + e.size() <= 4096; ++count)
        batch += e;
    w->kernel->push(batch);
    w->kernel->push(event(1, IN_DELETE, "last"));
    m->poll(std::chrono::milliseconds(0));
    fs_assert(w->seen.size() == count + 1, "every change is reported once");
    for (size_t i = 0; i < count; ++i)
        expect(*w, i, 0, w->dir[0] + "/" + name, PathEvent::Created);
    expect(*w, count, 0, w->dir[0] + "/last", PathEvent::Deleted);
    fs_reach("done");
}
// the kernel has no descriptor to give
FS_ENTRY c39_none()
{
    auto w = std::make_unique<World>();
    w->kernel->refuse_init = true;
    fs_assert(fly::path::PathMonitor::create(nullptr, nullptr) == nullptr, "no monitor without a descriptor");
    fs_reach("done");
}

namespace {
struct Racer
{
    World *w;
    Monitor *m;
    int kind;
    bool result = false, gone = false;
};
void race(void *p)
{
    auto *r = static_cast<Racer *>(p);
    std::filesystem::path da(r->w->dir[0]);
    switch (r->kind)
    {
        case 0: r->result = r->m->add_file(da / "g", r->w->record(1)); break;
        case 1: r->result = r->m->add_path(da, r->w->record(1)); break;
        case 2: r->m->poll(std::chrono::milliseconds(0)); break;
        default: r->result = r->m->remove_path(da); break;
    }
}
} // namespace
// a file is removed while another thread registers something in the same directory
FS_ENTRY c39_race()
{
    auto w = std::make_unique<World>();
    auto m = std::make_unique<Monitor>();
    std::filesystem::path da(w->dir[0]);
    fs_assert(m->add_file(da / "f", w->record(0)), "registered");
    auto r = std::make_unique<Racer>(Racer {w.get(), m.get(), int(fs_param("kind", 0))});
    uint64_t t = fs_thread_create(race, r.get());
    bool removed = m->remove_file(da / "f");
    fs_thread_join(t);
    fs_assert(removed, "removing a registered file succeeds");
    fs_assert(r->result, "a registration succeeds");
    Spec spec;
    if (r->kind == 0)
        spec.dir[0].files["g"] = 1;
    else
        spec.dir[0].path = 1;
    watches(*w, spec);
    probe(*w, *m, spec, 8);
    m.reset();
    fs_assert(w->kernel->live() == 0 && !w->kernel->open, "everything is released");
    fs_reach("done");
}
// an event arrives while the directory is removed or registered anew
FS_ENTRY c39_arrive()
{
    auto w = std::make_unique<World>();
    auto m = std::make_unique<Monitor>();
    std::filesystem::path da(w->dir[0]);
    fs_assert(m->add_path(da, w->record(0)), "registered");
    w->kernel->push(event(1, IN_MODIFY, "f") + event(1, IN_MODIFY, "g"));
    w->kernel->push(event(1, IN_DELETE, "f"));
    auto r = std::make_unique<Racer>(Racer {w.get(), m.get(), 2});
    uint64_t t = fs_thread_create(race, r.get());
    bool remove = fs_param("remove", 1) != 0;
    if (remove)
    {
        fs_assert(m->remove_path(da), "removed");
        size_t n = w->seen.size();
        fs_assert(n == 0 || n == 3, "a directory is removed between batches");
        r->gone = true;
        fs_thread_join(t);
        fs_assert(w->seen.size() == n, "nothing is reported once the removal has returned");
    }
    else
    {
        fs_assert(m->add_file(da / "g", w->record(1)), "registered");
        fs_thread_join(t);
        fs_assert(w->seen.size() == 3, "every change is reported once");
        fs_assert(w->seen[0].id == 0 && w->seen[2].id == 0 && w->seen[1].path == w->dir[0] + "/g", "a change goes to the registered callback");
    }
    fs_reach("done");
}
namespace {
struct Soon final : fly::path::PathConfig
{
    Soon() { m_default_poll_interval = 5; }
};
} // namespace
// the monitor runs on its task runner until it is dropped
FS_ENTRY c39_loop()
{
    auto w = std::make_unique<World>();
    auto manager = fly::task::TaskManager::create(1);
    fs_assert(manager != nullptr, "a manager starts");
    auto m = fly::path::PathMonitor::create(fly::task::SequencedTaskRunner::create(manager), std::make_shared<Soon>());
    fs_assert(m != nullptr, "a monitor starts");
    fs_assert(m->add_path(w->dir[0], w->record(0)), "registered");
    w->kernel->push(event(1, IN_CREATE, "f"));
    w->events.until(1);
    if (fs_param("twice", 1))
    {
        w->kernel->push(event(1, IN_DELETE, "f"));
        w->events.until(2);
    }
    std::weak_ptr<fly::path::PathMonitor> weak = m;
    m.reset();
    w->kernel->closed.until(1); // a dropped monitor goes away by itself
    fs_assert(manager->stop(), "stopped");
    manager.reset();
    fs_assert(weak.expired(), "nothing keeps a dropped monitor alive");
    fs_assert(w->seen.size() == (fs_param("twice", 1) ? 2u : 1u), "every change is reported once");
    expect(*w, 0, 0, w->dir[0] + "/f", PathEvent::Created);
    fs_assert(w->kernel->live() == 0 && !w->kernel->open, "everything is released");
    fs_reach("done");
}
