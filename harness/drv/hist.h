// Recording of concurrent histories (calls and returns) for the TLA+ trace specifications.
#pragma once
#include "../sim/ksim.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/types.h>
#include <thread>
#include <unordered_map>
#include <utility>
#include <vector>

namespace hist {
inline bool &stamped()
{
    static bool b = false;
    return b;
}
inline std::string stamp()
{
    if (!stamped())
        return "";
    return ",\"ts\":" + std::to_string(ksim::now() / 100);
}
inline std::string arr(const std::vector<long> &v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) {
        if (i)
            s += ',';
        s += std::to_string(v[i]);
    }
    return s + "]";
}
inline void call(const char *op, const std::vector<long> &a)
{
    ksim::log(std::string("\"e\":\"call\",\"t\":") + std::to_string(ksim::tid()) + ",\"o\":\"" + op
              + "\",\"a\":" + arr(a) + stamp());
}
inline void ret(const std::vector<long> &r, const char *x = "")
{
    ksim::log(std::string("\"e\":\"ret\",\"t\":") + std::to_string(ksim::tid()) + ",\"r\":" + arr(r)
              + ",\"x\":\"" + x + "\"" + stamp());
}
// an observation made in the current thread
inline void obs(const char *e, const std::vector<long> &a)
{
    ksim::log(std::string("\"e\":\"") + e + "\",\"t\":" + std::to_string(ksim::tid())
              + ",\"a\":" + arr(a) + stamp());
}
inline void cfg(const std::string &fields)
{
    ksim::log("\"e\":\"cfg\"," + fields);
}
template<class F> void op(const char *name, const std::vector<long> &a, F f)
{
    call(name, a);
    std::vector<long> r;
    try {
        r = f();
    } catch (const std::exception &ex) {
        ret({}, "exception");
        return;
    }
    ret(r);
}
// run bodies in parallel and join them
template<class F> void parallel(int n, F f)
{
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
        ts.emplace_back([&f, i] { f(i); });
    for (auto &t : ts)
        t.join();
}
} // namespace hist
