// ksim: a controlled scheduler for the *unmodified* kpsr-core sources.
//
// The code under test is compiled with -fsanitize=thread but linked against this runtime instead of
// libtsan: every atomic operation, every plain memory access and every blocking call (pthread, futex,
// sleep, clock) becomes a scheduling point that ksim controls.  Exactly one thread runs at a time.
#pragma once
#include <cstdint>
#include <functional>
#include <string>

namespace ksim {
struct Params
{
    uint64_t seed = 1;
    std::string scen;
    int variant = 0;
};

bool active();
int tid();                       // simulated thread id, 0 = main of the scenario
uint64_t rnd(uint64_t n);        // data randomness, independent of the schedule
bool chance(int percent);
void point();                    // an explicit scheduling point
void log(const std::string &ev); // append one event: the inside of a JSON object, without braces
int64_t now();                   // virtual time, ns
void noPreempt(bool on);         // suspend preemption (harness bookkeeping only)
bool weak();                     // is this run exploring weak memory order
void finish();                   // end the run now (as if the scenario returned)
// event payloads, with visibility tracking: a read that does not happen-after the latest write may
// return an older value in weak-memory runs.
void payloadWrite(const void *addr, int64_t v);
int64_t payloadRead(const void *addr);
// Fail the run: log an event the specifications never accept.
void impossible(const std::string &what);
// spin until cond, giving way to other threads and to time
// time only passes while every thread waits: a thread is never late by more than a few steps
void prompt(bool on);
void setHorizon(int adversarial, int fair);

int driverMain(int argc, char **argv, const std::function<void(const Params &)> &scenario);
} // namespace ksim
