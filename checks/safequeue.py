from kv import *

def drv():
    return Driver("safequeue")

def c10(chk):
    d = drv()
    chk.mc("safequeue", "QueueCv", "QueueCvForce")
    sim_suite(chk, d, "conc", "safequeue", "SafeQueueTrace", 2400)
    sim_suite(chk, d, "seq", "safequeue", "SafeQueueTrace", 800, spd=1)
    sim_suite(chk, d, "swap", "safequeue", "SafeQueueTrace", 1200)

def c11(chk):
    d = drv()
    chk.mc("safequeue", "QueueCv")
    chk.mc("safequeue", "QueueCv", "QueueCvCap")
    if tier() == "thorough":
        chk.mc("safequeue", "QueueCv", "QueueCvDeep")
    sim_suite(chk, d, "block", "safequeue", "SafeQueueTrace", 4800, spur=1)
    sim_suite(chk, d, "bulk", "safequeue", "SafeQueueTrace", 2000)
    sim_suite(chk, d, "timed", "safequeue", "SafeQueueTrace", 2400, spur=1)

CHECKS = {"C10": c10, "C11": c11}
