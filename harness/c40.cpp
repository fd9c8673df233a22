// System monitor: what each reading of the system's counters does to the reported figures.
#include "fly/system/nix/system_monitor_impl.hpp"
#include "fly/system/system_config.hpp"
#include "fly/task/task_runner.hpp"

#include "models.h"
#include "vh.h"
#include <cmath>
#include <memory>
#include <string>
#include <sys/sysinfo.h>
#include <sys/times.h>

namespace {
// what the operating system reports
struct Os
{
    tms t {};
    clock_t now = 0;
    struct sysinfo info {};
    int result = 0;
} g_os;
struct Monitor final : fly::system::SystemMonitorImpl
{
    Monitor() : SystemMonitorImpl(nullptr, nullptr) {}
    using SystemMonitorImpl::update_process_cpu_usage;
    using SystemMonitorImpl::update_process_memory_usage;
    using SystemMonitorImpl::update_system_cpu_count;
    using SystemMonitorImpl::update_system_cpu_usage;
    using SystemMonitorImpl::update_system_memory_usage;
};
void put(const char *path, const std::string &s)
{
    vf_put(path, s.data(), s.size());
}
void sane(double v, const char *what)
{
    fs_assert(v >= 0.0 && v <= 100.0, what);
}
} // namespace
extern "C" {
clock_t times(struct tms *t) noexcept
{
    *t = g_os.t;
    return g_os.now;
}
int sysinfo(struct sysinfo *i) noexcept
{
    if (g_os.result == 0)
        *i = g_os.info;
    return g_os.result;
}
}

// two readings of /proc/stat, the counters of the second anywhere around those of the first
FS_ENTRY c40_cpu()
{
    auto m = std::make_unique<Monitor>();
    unsigned form = unsigned(fs_param("form", 0));
    static const char *first[] = {"cpu  51 52 53 54 9 9 9\n", "cpu  0 0 0 0\n", "cpu 51 2 3 4000000000000\ncpu0 1 1 1 1\n"};
    put("/proc/stat", first[form]);
    m->update_system_cpu_usage();
    double before = m->get_system_cpu_usage();
    sane(before, "the system's processor usage is within 0 and 100");
    // two of the four counters move at a time, each by 16 amounts
    unsigned v = fs_u8("v"), pair = fs_choose(6, "pair");
    static const int which[6][2] = {{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}};
    static const uint64_t base[3][4] = {{51, 52, 53, 54}, {0, 0, 0, 0}, {51, 2, 3, 4000000000000}};
    std::string line = "cpu ";
    uint64_t active = 0, total = 0;
    bool back = false;
    for (int i = 0; i < 4; ++i)
    {
        unsigned d = 0;
        if (i == which[pair][0])
            d = v & 15;
        if (i == which[pair][1])
            d = v >> 4;
        // 0 to 14 more, 15: one less
        uint64_t b = base[form][i], hi = b / 100 * 100;
        uint64_t low = b % 100 + (d == 15 ? 0 : d);
        bool less = d == 15 && b > 0;
        if (less)
            low -= 1;
        back |= less;
        uint64_t now = hi + low;
        line += ' ';
        if (hi)
            line += std::to_string(hi / 100);
        line += char('0' + low / 10);
        line += char('0' + low % 10);
        if (i < 3)
            active += now - b;
        total += now - b;
    }
    put("/proc/stat", line + " 1 2 3\ncpu0 1 2 3 4\n");
    m->update_system_cpu_usage();
    double after = m->get_system_cpu_usage();
    sane(after, "the system's processor usage is within 0 and 100");
    if (!back && total > 0)
    {
        fs_assert(after == 100.0 * double(active) / double(total), "the system's processor usage is the share of active time since the last reading");
        fs_reach("measured");
    }
    else
    {
        fs_assert(after == before, "a reading in which no time has passed, or that goes back, keeps the previous value");
        fs_reach("kept");
    }
    // a malformed reading changes nothing, not even what the next one is compared with
    static const char *bad[] = {"", "cp", "cpu 99 99 99\ncpu0 1 1 1 1\n", "intr 1 2 3 4\n", "cpu 99 99 x 99\n"};
    put("/proc/stat", bad[fs_choose(5, "bad")]);
    m->update_system_cpu_usage();
    fs_assert(m->get_system_cpu_usage() == after, "a malformed reading keeps the previous value");
    put("/proc/stat", line + "\n");
    m->update_system_cpu_usage();
    fs_assert(m->get_system_cpu_usage() == after, "a reading in which no time has passed keeps the previous value");
}
// any byte anywhere in the second reading
FS_ENTRY c40_damaged()
{
    auto m = std::make_unique<Monitor>();
    put("/proc/stat", "cpu  5 5 5 5\n");
    m->update_system_cpu_usage();
    std::string line = "cpu  6 77 8 9 1\n";
    unsigned byte = fs_u8("byte");
    fs_assume(byte != '-'); // the kernel's counters have no sign
    line[fs_choose(unsigned(line.size()), "at")] = char(byte);
    put("/proc/stat", line);
    m->update_system_cpu_usage();
    sane(m->get_system_cpu_usage(), "the system's processor usage is within 0 and 100");
    fs_reach("read");
}
// the number of processors
FS_ENTRY c40_count()
{
    auto m = std::make_unique<Monitor>();
    fs_assert(m->get_system_cpu_count() == 0, "nothing is known before the first reading");
    unsigned n = unsigned(fs_param("n", 3)), expected = 0;
    std::string text = fs_choose(2, "total") ? "cpu  1 2 3 4\n" : "";
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned k = fs_choose(4, "kind");
        if (k == 0)
        {
            text += "cpu" + std::to_string(i * 7) + " 1 2 3 4\n";
            ++expected;
        }
        else
            text += k == 1 ? "intr 5 cpu0\n" : k == 2 ? "\n" : "cp\n";
    }
    put("/proc/stat", text);
    m->update_system_cpu_count();
    fs_assert(m->get_system_cpu_count() == expected, "every processor is counted once");
    put("/proc/stat", "cpu  1 2 3 4\n");
    m->update_system_cpu_count();
    fs_assert(m->get_system_cpu_count() == expected, "a malformed reading keeps the previous value");
    vf_remove("/proc/stat");
    m->update_system_cpu_count();
    m->update_system_cpu_usage();
    fs_assert(m->get_system_cpu_count() == expected && m->get_system_cpu_usage() == 0.0, "a missing file keeps the previous values");
    fs_reach(expected ? "some" : "none");
}
// processor time of the process
FS_ENTRY c40_process()
{
    auto m = std::make_unique<Monitor>();
    unsigned cpus = unsigned(fs_param("cpus", 2));
    std::string text = "cpu  1 2 3 4\n";
    for (unsigned i = 0; i < cpus; ++i)
        text += "cpu" + std::to_string(i) + " 1 2 3 4\n";
    put("/proc/stat", text);
    m->update_system_cpu_count();
    g_os.now = 1000;
    g_os.t.tms_utime = 40;
    g_os.t.tms_stime = 50;
    m->update_process_cpu_usage();
    double before = m->get_process_cpu_usage();
    sane(before, "the process's processor usage is within 0 and 100");
    unsigned v = fs_u8("v");
    clock_t time = clock_t(v & 7), user = clock_t((v >> 3) & 3), sys = clock_t((v >> 5) & 3);
    bool back = v & 0x80, failed = fs_choose(2, "failed");
    fs_assume(user + sys <= time * clock_t(cpus)); // the process cannot use more than every processor
    g_os.now = failed ? -1 : back ? 1000 - time : 1000 + time;
    g_os.t.tms_utime += user;
    g_os.t.tms_stime += sys;
    m->update_process_cpu_usage();
    double after = m->get_process_cpu_usage();
    sane(after, "the process's processor usage is within 0 and 100");
    if (!failed && !back && time > 0)
    {
        fs_assert(after == 100.0 * double(user + sys) / double(time) / double(cpus), "the process's processor usage is its share of the time since the last reading");
        fs_reach("measured");
    }
    else
    {
        fs_assert(after == before, "a reading in which no time has passed, or that failed, keeps the previous value");
        fs_reach("kept");
    }
}
// memory of the system
FS_ENTRY c40_memory()
{
    auto m = std::make_unique<Monitor>();
    uint64_t total = fs_u64("total"), free = fs_u64("free");
    unsigned unit = fs_choose(2, "unit") ? 4096 : 1;
    fs_assume(total < (1ull << 50) && free <= total);
    g_os.info.totalram = total;
    g_os.info.freeram = free;
    g_os.info.mem_unit = unit;
    m->update_system_memory_usage();
    fs_assert(m->get_total_system_memory() == total * unit, "the total is what the system reports");
    fs_assert(m->get_system_memory_usage() == (total - free) * unit, "memory in use is the total without the free memory");
    fs_assert(m->get_system_memory_usage() <= m->get_total_system_memory(), "memory in use never exceeds the total");
    uint64_t used = m->get_system_memory_usage();
    g_os.result = -1;
    g_os.info.totalram = 1;
    m->update_system_memory_usage();
    fs_assert(m->get_total_system_memory() == total * unit && m->get_system_memory_usage() == used, "a failed reading keeps the previous values");
    fs_reach("read");
}
// memory of the process
FS_ENTRY c40_resident()
{
    auto m = std::make_unique<Monitor>();
    unsigned k = fs_choose(4, "place");
    unsigned d = vh::digit("d") - '0';
    static const char *before[] = {"", "Name: x\nVmRSSx: 5 kB\n", "Name:\tVmRSS: 3 kB\nVmPeak:     9999 kB\n", "\n\n"};
    std::string line = std::string(before[k]) + "VmRSS:\t   12" + char('0' + d) + "4 kB\n";
    put("/proc/self/status", line + (fs_choose(2, "tail") ? "RssAnon: 77 kB\nVmData: 6 kB\n" : ""));
    m->update_process_memory_usage();
    uint64_t expected = (1204 + 10 * d) * uint64_t(1024);
    fs_assert(m->get_process_memory_usage() == expected, "the process's memory is what the system reports, in bytes");
    static const char *bad[] = {"", "VmRSS: x kB\n", "Name: a\n", "VmRSS:"};
    put("/proc/self/status", bad[fs_choose(4, "bad")]);
    m->update_process_memory_usage();
    fs_assert(m->get_process_memory_usage() == expected, "a malformed reading keeps the previous value");
    vf_remove("/proc/self/status");
    m->update_process_memory_usage();
    fs_assert(m->get_process_memory_usage() == expected, "a missing file keeps the previous value");
    fs_reach("read");
}
