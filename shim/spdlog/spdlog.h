// Stand-in for the spdlog 0.x interface used by the programs: log messages are dropped.
#ifndef VERIF_MINI_SPDLOG_HPP_
#define VERIF_MINI_SPDLOG_HPP_
#include <fstream>
#include <memory>
#include <string>
namespace spdlog
{
    namespace sinks
    {
        struct sink {
            virtual ~sink() = default;
        };
        struct stderr_sink_mt : sink {
        };
        struct simple_file_sink_mt : sink {
            explicit simple_file_sink_mt(const std::string&, bool = false) {}
        };
    } // namespace sinks
    using sink_ptr = std::shared_ptr<sinks::sink>;
    struct logger {
        template <typename It>
        logger(const std::string&, It, It)
        {
        }
#define VERIF_LEVEL(name)                                                                          \
    template <typename T, typename... Ts>                                                          \
    void name(const T&, const Ts&...)                                                              \
    {                                                                                              \
    }
        VERIF_LEVEL(trace)
        VERIF_LEVEL(debug)
        VERIF_LEVEL(info)
        VERIF_LEVEL(warn)
        VERIF_LEVEL(error)
        VERIF_LEVEL(critical)
#undef VERIF_LEVEL
        void flush() {}
    };
} // namespace spdlog
#endif
