// Configuration: lookups with defaults, updates from a file, dropping the manager.
#include "fly/config/config.hpp"
#include "fly/config/config_manager.hpp"
#include "fly/types/json/json.hpp"
#include "fly/types/json/json_exception.hpp"

#include "inotify.hpp"

using fly::Json;
using namespace fly::config;

namespace {
struct Conf : Config
{
    static constexpr const char *identifier = "sec";
    using Config::get_value;
    void set(const Json &v) { update(v); }
};
struct Other final : Config
{
    static constexpr const char *identifier = "other";
    using Config::get_value;
};
struct Clash final : Config
{
    static constexpr const char *identifier = "sec";
    using Config::get_value;
};
// values of every kind
Json any(unsigned kind)
{
    uint8_t b = fs_u8("b");
    switch (kind)
    {
        case 0: return nullptr;
        case 1: return bool(b & 1);
        case 2: return int64_t(b) - 130;
        case 3: return 0xffffffffffffff00ull + b;
        case 4: return fs_choose(2, "fraction") ? 0.25 : 12.0;
        case 5: return std::string(1, char('0' + b % 10)) + "7";
        case 6: return "on";
        case 7: return fly::json_array_type {Json(b & 7), Json(2)};
        case 8: return fly::json_object_type {{"k", Json(b & 7)}};
        default: return "";
    }
}
template <class T> void lookup(const Conf &c, const Json &held, bool there, const T &def)
{
    T want = def;
    bool converted = false;
    if (there)
        try
        {
            want = T(held);
            converted = true;
        }
        catch (const fly::JsonException &)
        {
        }
    T got = c.get_value<T>("key", def);
    fs_assert(got == want, "a lookup gives the configured value, or the default when it is absent or cannot be converted");
    fs_reach(converted ? "configured" : "default");
}
template <class T> void value(const T &def)
{
    auto c = std::make_unique<Conf>();
    fs_assert(c->get_value<T>("key", def) == def, "before anything is configured every lookup gives its default");
    Json v = any(unsigned(fs_param("kind", 0)));
    unsigned where = fs_choose(5, "where");
    switch (where)
    {
        case 0: c->set(fly::json_object_type {{"key", v}}); break;
        case 1: c->set(fly::json_object_type {{"key", v}, {"kez", Json(1)}, {"", Json(2)}}); break;
        case 2: c->set(fly::json_object_type {{"kez", v}}); break;
        case 3: c->set(fly::json_object_type {}); break;
        default: c->set(v); break;
    }
    lookup<T>(*c, v, where < 2, def);
    // a later update replaces everything
    c->set(fly::json_object_type {{"kez", v}});
    fs_assert(c->get_value<T>("key", def) == def, "an update replaces all values");
}
// what the file says about one section
struct Section
{
    int n = -1;
    std::string name = "none";
};
struct World
{
    std::unique_ptr<Kernel> kernel = std::make_unique<Kernel>();
    std::string dir = std::string(vf_root()) + "/conf", file = dir + "/file";
    std::shared_ptr<fly::task::TaskManager> tasks;
    std::shared_ptr<fly::task::SequencedTaskRunner> runner;
    std::shared_ptr<ConfigManager> manager;
    uint32_t pushed = 0;
    bool ini = fs_param("ini", 0) != 0;

    World()
    {
        g_kernel = kernel.get();
        vf_mkdir(dir.c_str());
        tasks = fly::task::TaskManager::create(1);
        runner = fly::task::SequencedTaskRunner::create(tasks);
        manager = ConfigManager::create(runner, ini ? ConfigFileType::Ini : ConfigFileType::Json, file);
        fs_assert(manager != nullptr, "a configuration manager starts");
    }
    // the file becomes variant k
    void write(unsigned k, Section &sec, Section &other)
    {
        static const char *json[] = {R"({"sec":{"n":17,"name":"x"},"other":{"n":3}})", R"({"other":{"name":"y"},"sec":{"n":25}})", "{}", R"({"sec":5,"other":{"n":4}})", R"({"sec":{"n":1})", "[1, 2]", " "};
        static const char *inis[] = {"[sec]\nn=17\nname=x\n[other]\nn=3\n", "[other]\nname=y\n[sec]\nn=25\n", "[empty]\n", "[other]\nn=4\n", "[sec\nn=1\n", "n=1\n", ""};
        sec = other = Section {};
        if (k == 7)
            vf_remove(file.c_str());
        else
        {
            const char *text = ini ? inis[k] : json[k];
            vf_put(file.c_str(), text, strlen(text));
        }
        switch (k)
        {
            case 0: sec.n = 17; sec.name = "x"; other.n = 3; break;
            case 1: sec.n = 25; other.name = "y"; break;
            case 3: other.n = 4; break;
        }
        changed(k == 7 ? IN_DELETE : IN_MODIFY);
    }
    void changed(uint32_t mask)
    {
        kernel->push(event(1, mask, "file"));
        ++pushed;
    }
    template <class C> static void check(const C &c, const Section &s)
    {
        fs_assert(c.template get_value<int>("n", -1) == s.n, "a lookup gives what the file says, or the default");
        fs_assert(c.template get_value<std::string>("name", "none") == s.name, "a lookup gives what the file says, or the default");
    }
    void finish()
    {
        std::weak_ptr<ConfigManager> weak = manager;
        manager.reset();
        fs_assert(tasks->stop(), "stopped");
        runner.reset();
        tasks.reset();
        fs_assert(weak.expired() && kernel->live() == 0 && !kernel->open, "nothing is left of a dropped manager");
        fs_reach("done");
    }
};
} // namespace

FS_ENTRY c35_i8() { value<int8_t>(-3); }
FS_ENTRY c35_u16() { value<uint16_t>(65535); }
FS_ENTRY c35_i64() { value<int64_t>(INT64_MIN); }
FS_ENTRY c35_u64() { value<uint64_t>(7); }
FS_ENTRY c35_bool() { value<bool>(fs_choose(2, "default")); }
FS_ENTRY c35_double() { value<double>(0.5); }
FS_ENTRY c35_string() { value<std::string>("fallback"); }
FS_ENTRY c35_vector() { value<std::vector<int>>({9}); }

// the file changes k times; configurations exist before the change or are created after it
FS_ENTRY c35_file()
{
    auto w = std::make_unique<World>();
    unsigned k = unsigned(fs_param("k", 2));
    auto sec = w->manager->create_config<Conf>();
    std::shared_ptr<Other> other;
    fs_assert(sec != nullptr, "a configuration is created");
    fs_assert(w->manager->create_config<Clash>() == nullptr, "a name stands for one kind of configuration");
    Section s, o;
    w->check(*sec, s);
    for (unsigned i = 0; i < k; ++i)
    {
        unsigned v = fs_choose(8, i ? "second" : "first");
        w->write(v, s, o);
        w->kernel->settle(w->pushed);
        w->check(*sec, s);
        if (i == 0 ? fs_choose(2, "other") : !other)
            other = w->manager->create_config<Other>();
        if (other)
            w->check(*other, o);
    }
    fs_assert(w->manager->create_config<Conf>() == sec, "a configuration is created once");
    w->check(*sec, s);
    auto before = w->manager->prune();
    other.reset();
    fs_assert(w->manager->prune() == before - 1, "a dropped configuration is forgotten");
    w->finish();
}

namespace {
struct Reader
{
    World *w;
    Conf *c;
    int n[2];
    std::string name;
};
void reading(void *p)
{
    auto *r = static_cast<Reader *>(p);
    r->n[0] = r->c->get_value<int>("n", -1);
    r->name = r->c->get_value<std::string>("name", "none");
    r->n[1] = r->c->get_value<int>("n", -1);
}
} // namespace
// lookups while the file's new values arrive
FS_ENTRY c35_reading()
{
    auto w = std::make_unique<World>();
    auto sec = w->manager->create_config<Conf>();
    Section s, o;
    auto r = std::make_unique<Reader>(Reader {w.get(), sec.get(), {0, 0}, ""});
    uint64_t t = fs_thread_create(reading, r.get());
    w->write(0, s, o);
    w->kernel->settle(w->pushed);
    fs_thread_join(t);
    w->check(*sec, s);
    fs_assert(r->n[0] == -1 || r->n[0] == 17, "a lookup gives the old value or the new one");
    fs_assert(r->name == "none" || r->name == "x", "a lookup gives the old value or the new one");
    fs_assert(r->n[1] == -1 || r->n[1] == 17, "a lookup gives the old value or the new one");
    fs_assert(r->n[0] == -1 || (r->name == "x" && r->n[1] == 17), "once a new value was seen the others are seen as well");
    fs_assert(r->name == "none" || r->n[1] == 17, "once a new value was seen the others are seen as well");
    fs_reach(r->n[0] == 17 ? "new" : r->n[1] == 17 ? "between" : "old");
    w->finish();
}
namespace {
struct Creator
{
    ConfigManager *m;
    std::shared_ptr<Other> other;
    int n;
};
void creating(void *p)
{
    auto *c = static_cast<Creator *>(p);
    c->other = c->m->create_config<Other>();
    c->n = c->other->get_value<int>("n", -1);
    c->m->prune();
}
} // namespace
// configurations are created and forgotten while the file's new values arrive
FS_ENTRY c35_creating()
{
    auto w = std::make_unique<World>();
    auto sec = w->manager->create_config<Conf>();
    Section s, o;
    auto c = std::make_unique<Creator>(Creator {w->manager.get(), nullptr, 0});
    uint64_t t = fs_thread_create(creating, c.get());
    w->write(0, s, o);
    w->kernel->settle(w->pushed);
    fs_thread_join(t);
    w->check(*sec, s);
    w->check(*c->other, o);
    fs_assert(c->n == -1 || c->n == 3, "a lookup gives the old value or the new one");
    fs_reach(c->n == 3 ? "new" : "old");
    w->finish();
}
// the manager is dropped while a change of the file is being reported
FS_ENTRY c35_drop()
{
    auto w = std::make_unique<World>();
    Section s, o;
    w->write(0, s, o);
    fs_yield(); // at any moment
    w->manager.reset();
    w->kernel->closed.until(1); // it goes away by itself
    w->finish();
}
