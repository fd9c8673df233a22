// Shared by the logger checks.
#pragma once
#include "fly/logger/log.hpp"
#include "fly/logger/logger.hpp"
#include "fly/logger/logger_config.hpp"
#include "fly/logger/sink.hpp"

#include "vh.h"
#include <memory>
#include <mutex>
#include <string>
#include <vector>

struct Config : fly::logger::LoggerConfig
{
    Config(uint32_t message, uintmax_t file = 1 << 20, bool compress = false)
    {
        m_default_max_message_size = message;
        m_default_max_log_file_size = file;
        m_default_compress_log_files = compress;
    }
};
struct Records
{
    std::mutex m;
    std::vector<fly::logger::Log> logs;
    int initialized = 0, destroyed = 0;
    int failAt = -1; // streaming this record fails
    bool refuse = false; // initialization fails
};
struct Recorder : fly::logger::Sink
{
    Records *r;
    explicit Recorder(Records *r) : r(r) {}
    ~Recorder() override { r->destroyed++; }
    bool initialize() override
    {
        r->initialized++;
        return !r->refuse;
    }
    bool stream(fly::logger::Log &&log) override
    {
        std::lock_guard<std::mutex> l(r->m);
        r->logs.push_back(std::move(log));
        return int(r->logs.size()) - 1 != r->failAt;
    }
};
