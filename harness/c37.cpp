// The file sink: rotation, compression, failing disks.
#include "fly/coders/coder_config.hpp"
#include "fly/coders/huffman/huffman_decoder.hpp"
#include "fly/logger/detail/file_sink.hpp"

#include "logging.hpp"
#include "models.h"

#include <map>

using namespace fly::logger;

namespace {
struct Coder : fly::coders::CoderConfig
{
    explicit Coder(bool works) { m_default_huffman_encoder_max_code_length = works ? 11 : 100; }
};
struct Files
{
    std::map<unsigned, std::string> plain, packed; // by the number in the file name
};
std::string content(const std::string &path)
{
    static char buf[4096];
    size_t n = vf_get(path.c_str(), buf, sizeof(buf));
    fs_assert(n <= sizeof(buf), "a log file can be read");
    return std::string(buf, n);
}
Files list()
{
    Files f;
    for (size_t i = 0; i < vf_count(); ++i)
    {
        std::string path = vf_name(i), name = path.substr(path.rfind('/') + 1);
        fs_assert(name.starts_with("Log_"), "log files are called Log_...");
        unsigned number = unsigned(name[4] - '0');
        bool enc = name.ends_with(".log.enc");
        fs_assert(enc || name.ends_with(".log"), "log files are called .log or .log.enc");
        auto &m = enc ? f.packed : f.plain;
        fs_assert(!m.contains(number), "every log file has its own number");
        m[number] = path;
    }
    return f;
}
Log record(unsigned index, Level level, Trace trace, const std::string &message)
{
    Log l(std::move(trace), std::string(message), 100);
    l.m_index = index;
    l.m_level = level;
    l.m_time = 0;
    return l;
}
std::string text(unsigned index, Level level, const std::string &trace, const std::string &message)
{
    return std::to_string(index) + '\x1f' + char(level) + '\x1f' + "0" + '\x1f' + trace + '\x1f' + message + '\x1e';
}
} // namespace

// n records of different lengths, every size limit
FS_ENTRY c37_rotate()
{
    unsigned n = unsigned(fs_param("n", 3)), mode = unsigned(fs_param("mode", 0)); // 1: compress, 2: compression fails
    unsigned limit = fs_u8("limit");
    auto sink = std::make_unique<detail::FileSink>(std::make_shared<Config>(100, limit, mode != 0), std::make_shared<Coder>(mode != 2), vf_root());
    fs_assert(sink->initialize(), "the sink opens its first file");
    std::vector<std::string> files {""};
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned kind = fs_choose(3, "kind");
        std::string message(kind == 0 ? 0 : kind == 1 ? 9 : 40, char('a' + i));
        if (mode == 0 && kind == 1)
            message[3] = char(fs_choose(2, "byte") ? 0xc3 : 0x1e);
        Level level = Level(i % 4);
        Trace trace;
        std::string traced;
        if (kind == 2)
        {
            trace = Trace {"file.cpp", "fn", 42};
            traced = "file.cpp:fn:42";
        }
        fs_assert(sink->stream(record(i, level, std::move(trace), message)), "a record is written");
        files.back() += text(i, level, traced, message);
        if (files.back().size() > limit)
        {
            files.push_back("");
            fs_reach("rotated");
        }
        else
            fs_reach("appended");
        // what was accepted is on disk at once
        Files now = list();
        fs_assert(now.plain.contains(unsigned(files.size())), "a new file is started exactly when the current one exceeds the limit");
        fs_assert(!now.plain.contains(unsigned(files.size()) + 1), "a new file is started exactly when the current one exceeds the limit");
        fs_assert(content(now.plain[unsigned(files.size())]) == files.back(), "a record is in the current file when it was accepted");
    }
    sink.reset();
    Files now = list();
    for (unsigned i = 1; i <= files.size(); ++i)
    {
        bool packed = mode == 1 && i < files.size();
        if (!packed)
        {
            fs_assert(now.plain.contains(i), "a log file that was not compressed stays");
            fs_assert(content(now.plain[i]) == files[i - 1], "every record is written once, in order");
        }
        else
        {
            fs_assert(now.packed.contains(i) && !now.plain.contains(i), "a compressed log file replaces the original");
            fly::coders::HuffmanDecoder decoder;
            std::string decoded;
            fs_assert(decoder.decode_string(content(now.packed[i]), decoded) && decoded == files[i - 1], "a compressed log file holds the original records");
            fs_reach("packed");
        }
    }
}
// the disk fills up: what the sink accepted is on disk, and it stops after a failure
FS_ENTRY c37_full()
{
    unsigned n = unsigned(fs_param("n", 3)), space = fs_choose(40, "space");
    auto sink = std::make_unique<detail::FileSink>(std::make_shared<Config>(100, 1000, false), std::make_shared<Coder>(true), vf_root());
    fs_assert(sink->initialize(), "the sink opens its first file");
    vf_limit_writes(int(space));
    std::string expected;
    bool failed = false;
    for (unsigned i = 0; i < n; ++i)
    {
        std::string message(i + 2, char('a' + i)), t = text(i, Level::Info, "", message);
        bool fits = !failed && expected.size() + t.size() <= space;
        bool ok = sink->stream(record(i, Level::Info, Trace {}, message));
        fs_assert(ok == fits, "a record is reported as written exactly when it is");
        failed |= !ok;
        if (ok)
            expected += t;
        fs_reach(ok ? "written" : "failed");
    }
    Files now = list();
    fs_assert(now.plain.size() == 1 && content(now.plain[1]).substr(0, expected.size()) == expected, "what was accepted is on disk");
}
// a directory that does not exist
FS_ENTRY c37_nodir()
{
    detail::FileSink sink(std::make_shared<Config>(100), std::make_shared<Coder>(true), std::string(vf_root()) + "/missing/dir");
    fs_assert(!sink.initialize(), "a sink that cannot open its file is not initialized");
    fs_assert(!sink.stream(record(0, Level::Info, Trace {}, "x")), "a sink without a file accepts nothing");
    fs_reach("refused");
}
