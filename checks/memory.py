from kv import *

def drv():
    return Driver("mem", sdk=True, repo_srcs=["core/modules/mem_mdlw/src/in_memory_queue_poller.cpp"],
                  libs=["-lspdlog", "-lfmt"])

def c12(chk):
    d = drv()
    chk.mc("memory", "Poller", "Poller0")
    chk.mc("memory", "Poller", "Poller1")
    sim_suite(chk, d, "deliver", "memory", "MemoryTrace", 2000)
    sim_suite(chk, d, "deliver", "memory", "MemoryTrace", 1000, weakpct=100, label="deliver-weak")
    sim_suite(chk, d, "flood", "memory", "MemoryTrace", 500)

def c13(chk):
    d = drv()
    chk.mc("memory", "Poller", "Poller0")
    sim_suite(chk, d, "life", "memory", "MemoryTrace", 4000)
    sim_suite(chk, d, "deliver", "memory", "MemoryTrace", 1000)

CHECKS = {"C12": c12, "C13": c13}
