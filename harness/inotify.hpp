// The kernel's side of inotify, played by the harness.
#pragma once
#include "fly/path/nix/path_monitor_impl.hpp"
#include "fly/path/path_config.hpp"

#include "models.h"
#include "task.hpp"
#include <cerrno>
#include <cstring>
#include <deque>
#include <map>
#include <mutex>
#include <poll.h>
#include <string>
#include <sys/inotify.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>

namespace {
constexpr int g_fd = 1000;
// one event as the kernel lays it out
std::string event(int wd, uint32_t mask, const char *name)
{
    inotify_event e {};
    size_t n = strlen(name);
    e.wd = wd;
    e.mask = mask;
    e.len = n ? uint32_t((n + 16) / 16 * 16) : 0; // terminated and padded
    std::string s(reinterpret_cast<const char *>(&e), sizeof e);
    if (n)
        s.append(name, n).append(e.len - n, '\0');
    return s;
}
// the kernel
struct Kernel
{
    struct Watch
    {
        std::string path;
        bool live;
    };
    bool refuse_init = false, refuse_watch = false, open = false;
    std::vector<Watch> watches; // number: place + 1
    std::deque<std::string> batches; // guarded
    std::mutex guard;
    std::atomic<uint32_t> pending {0};
    std::atomic<uint32_t> taken {0}; // batches read
    Event closed;
    std::atomic<uint32_t> settled {0}; // batches read before the latest call of poll

    int number(const std::string &path)
    {
        for (size_t i = 0; i < watches.size(); ++i)
            if (watches[i].live && watches[i].path == path)
                return int(i) + 1;
        return -1;
    }
    int live()
    {
        int n = 0;
        for (auto &w : watches)
            n += w.live;
        return n;
    }
    void push(std::string batch)
    {
        std::lock_guard<std::mutex> lock(guard);
        batches.push_back(std::move(batch));
        pending.store(uint32_t(batches.size()));
        fs_futex_wake(&pending);
    }
    // until everything pushed so far (n batches in all) was read in an earlier poll
    void settle(uint32_t n)
    {
        for (uint32_t v; (v = settled.load()) < n;)
            fs_futex_wait(&settled, v, false, 0);
    }
    bool pop(std::string &batch)
    {
        std::lock_guard<std::mutex> lock(guard);
        if (batches.empty())
            return false;
        batch = std::move(batches.front());
        batches.pop_front();
        pending.store(uint32_t(batches.size()));
        taken.fetch_add(1);
        return true;
    }
};
Kernel *g_kernel;
} // namespace

extern "C" {
int inotify_init1(int) noexcept
{
    if (g_kernel->refuse_init)
        return -1;
    fs_assert(!g_kernel->open, "one descriptor per monitor");
    g_kernel->open = true;
    return g_fd;
}
int inotify_add_watch(int fd, const char *path, uint32_t mask) noexcept
{
    fs_assert(fd == g_fd && g_kernel->open, "watches are added to the monitor's own descriptor");
    fs_assert((mask & (IN_CREATE | IN_DELETE | IN_MODIFY | IN_MOVED_FROM | IN_MOVED_TO)) == (IN_CREATE | IN_DELETE | IN_MODIFY | IN_MOVED_FROM | IN_MOVED_TO), "every kind of change is watched");
    if (g_kernel->refuse_watch)
        return -1;
    int n = g_kernel->number(path);
    if (n == -1)
    {
        g_kernel->watches.push_back({path, true});
        n = int(g_kernel->watches.size());
    }
    return n;
}
int inotify_rm_watch(int fd, int wd) noexcept
{
    fs_assert(fd == g_fd && g_kernel->open, "watches are released on the monitor's own descriptor");
    fs_assert(wd >= 1 && size_t(wd) <= g_kernel->watches.size() && g_kernel->watches[size_t(wd) - 1].live, "only the monitor's own watches are released");
    g_kernel->watches[size_t(wd) - 1].live = false;
    g_kernel->push(event(wd, IN_IGNORED, ""));
    return 0;
}
int poll(struct pollfd *p, nfds_t n, int timeout)
{
    fs_assert(n == 1 && p->fd == g_fd && g_kernel->open, "the monitor's own descriptor is polled");
    p->revents = 0;
    g_kernel->settled.store(g_kernel->taken.load());
    fs_futex_wake(&g_kernel->settled);
    if (g_kernel->pending.load() == 0 && timeout > 0)
        fs_futex_wait(&g_kernel->pending, 0, true, fs_clock_advance(0) + uint64_t(timeout) * 1000000);
    if (g_kernel->pending.load() == 0)
        return 0;
    p->revents = POLLIN;
    return 1;
}
ssize_t read(int fd, void *to, size_t n)
{
    if (fd != g_fd)
        return syscall(SYS_read, fd, to, n);
    std::string b;
    if (!g_kernel->pop(b))
    {
        errno = EAGAIN;
        return -1;
    }
    fs_assert(n >= b.size(), "the buffer holds what the kernel reports");
    memcpy(to, b.data(), b.size());
    return ssize_t(b.size());
}
int close(int fd)
{
    if (fd != g_fd)
        return int(syscall(SYS_close, fd));
    fs_assert(g_kernel->open, "the descriptor is closed once");
    g_kernel->open = false;
    g_kernel->closed.hit();
    return 0;
}
}
