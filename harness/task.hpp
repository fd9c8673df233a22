// Shared by the task checks: waiting for events without busy loops.
#pragma once
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"

#include "vh.h"
#include <atomic>
#include <memory>

extern "C" {
uint64_t fs_futex_wait(const void *addr, uint32_t val, bool timed, uint64_t deadline_ns);
void fs_futex_wake(const void *addr);
}
struct Event
{
    std::atomic<uint32_t> n {0};
    void hit()
    {
        n.fetch_add(1);
        fs_futex_wake(&n);
    }
    void until(uint32_t k)
    {
        for (uint32_t v; (v = n.load()) < k;)
            fs_futex_wait(&n, v, false, 0);
    }
};
