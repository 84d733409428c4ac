#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
class ServiceStats : public FunctionStats
{
public:
    explicit ServiceStats(const std::string &name, bool = false)
        : FunctionStats(name)
    {}
};
} // namespace kpsr
