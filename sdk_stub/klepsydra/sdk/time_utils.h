#pragma once
#include <chrono>
namespace kpsr {
struct TimeUtils
{
    static long getCurrentNanoseconds()
    {
        return std::chrono::duration_cast<std::chrono::nanoseconds>(
                   std::chrono::system_clock::now().time_since_epoch())
            .count();
    }
    static long long unsigned int getCurrentNanosecondsAsLlu()
    {
        return (long long unsigned int) getCurrentNanoseconds();
    }
    static long getCurrentMilliseconds() { return getCurrentNanoseconds() / 1000000; }
    static long long unsigned int getCurrentMillisecondsAsLlu()
    {
        return (long long unsigned int) getCurrentMilliseconds();
    }
};
} // namespace kpsr
