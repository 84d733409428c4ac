#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
class PublicationStats : public FunctionStats
{
public:
    PublicationStats(const std::string &eventName, const std::string &type, bool = false)
        : FunctionStats(eventName)
        , type(type)
    {}
    std::string type;
    std::atomic<long> _totalEventAllocations{0};
    std::atomic<long> totalDiscardedEvents{0};
};
} // namespace kpsr
