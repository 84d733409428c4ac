from kv import *

SRC = ["high_performance/modules/high_performance/src/event_loop_scheduler.cpp",
       "core/modules/mem_mdlw/src/basic_scheduler.cpp"]
def drv():
    return Driver("loop", sdk=True, repo_srcs=SRC)

def c14(chk):
    d = drv()
    chk.mc("eventloop", "Loop")
    sim_suite(chk, d, "deliver", "eventloop", "EventLoopTrace", 1200)
    sim_suite(chk, d, "deliver", "eventloop", "EventLoopTrace", 500, weakpct=100, label="deliver-weak")
    sim_suite(chk, d, "life", "eventloop", "EventLoopTrace", 1000)

def c15(chk):
    d = drv()
    chk.mc("eventloop", "Loop")
    sim_suite(chk, d, "full", "eventloop", "EventLoopTrace", 2500)
    sim_suite(chk, d, "crowd", "eventloop", "EventLoopTrace", 1000)
    sim_suite(chk, d, "crowd", "eventloop", "EventLoopTrace", 300, weakpct=100, label="crowd-weak")

def c16(chk):
    d = drv()
    chk.mc("eventloop", "Loop")
    if tier() == "thorough":
        chk.mc("eventloop", "Loop", "LoopDeep")
    sim_suite(chk, d, "life", "eventloop", "EventLoopTrace", 4000)
    sim_suite(chk, d, "full", "eventloop", "EventLoopTrace", 800)
    sim_suite(chk, d, "ring", "eventloop", "EventLoopTrace", 1500)

def c17(chk):
    d = Driver("mux", sdk=True)
    chk.mc("mux", "MuxDesign")
    sim_suite(chk, d, "rounds", "mux", "MuxTrace", 4000)
    sim_suite(chk, d, "rounds", "mux", "MuxTrace", 1500, weakpct=100, label="rounds-weak")

CHECKS = {"C14": c14, "C15": c15, "C16": c16, "C17": c17}
