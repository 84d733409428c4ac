// Stand-in for the Klepsydra SDK, which is not part of this repository (see DESIGN.md): the plainest
// implementation of the interface kpsr-core uses. Counters are atomic; "started" is kept for checks.
#pragma once
#include <atomic>
#include <string>
namespace kpsr {
class FunctionStats
{
public:
    explicit FunctionStats(const std::string &name)
        : name(name)
    {}
    virtual ~FunctionStats() {}
    void start() { starts++, started = true; }
    void stop() { stops++, started = false; }
    void startProcessMeasure() { inProgress++; }
    void stopProcessMeasure()
    {
        inProgress--;
        totalProcessed++;
    }
    std::string name;
    std::atomic<unsigned long long> totalProcessed{0};
    std::atomic<unsigned long long> totalProcessingTimeInNanoSecs{0};
    std::atomic<int> inProgress{0}, starts{0}, stops{0};
    std::atomic<bool> started{false};
};
} // namespace kpsr
