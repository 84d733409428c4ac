#pragma once
#include <klepsydra/sdk/function_stats.h>
namespace kpsr {
class SubscriptionStats : public FunctionStats
{
public:
    SubscriptionStats(const std::string &subscriberName,
                      const std::string &listenerName,
                      const std::string &type,
                      bool withContainer = false)
        : FunctionStats(subscriberName + "_" + listenerName)
        , subscriberName(subscriberName)
        , listenerName(listenerName)
        , type(type)
        , withContainer(withContainer)
    {}
    std::string subscriberName, listenerName, type;
    bool withContainer;
    std::atomic<unsigned long long> totalEnqueuedTimeInNs{0};
    std::atomic<long> totalDiscardedEvents{0};
};
} // namespace kpsr
