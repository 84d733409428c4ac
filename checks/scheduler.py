from kv import *

def c22(chk):
    d = Driver("sched", sdk=True,
               repo_srcs=["high_performance/modules/high_performance/src/event_loop_scheduler.cpp",
                          "core/modules/mem_mdlw/src/basic_scheduler.cpp"])
    chk.mc("scheduler", "Tasks")
    sim_suite(chk, d, "basic", "scheduler", "SchedulerTrace", 8000)
    sim_suite(chk, d, "loop", "scheduler", "SchedulerTrace", 4000)

CHECKS = {"C22": c22}
