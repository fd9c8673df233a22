// The repository's logger header with its log points silenced: arguments are still evaluated.
#pragma once
#include_next "fly/logger/logger.hpp"
#undef LOGD
#undef LOGI
#undef LOGW
#undef LOGS
#undef LOGE
namespace fs_quiet { template <typename... A> inline void eat(A &&...) {} }
#define LOGD(format, ...) do { fs_quiet::eat(__VA_ARGS__); } while (0)
#define LOGI(format, ...) do { fs_quiet::eat(__VA_ARGS__); } while (0)
#define LOGW(format, ...) do { fs_quiet::eat(__VA_ARGS__); } while (0)
#define LOGS(format, ...) do { fs_quiet::eat(__VA_ARGS__); } while (0)
#define LOGE(format, ...) do { fs_quiet::eat(__VA_ARGS__); } while (0)
