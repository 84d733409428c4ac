from kv import *

def drv():
    return Driver("stack")

def c08(chk):
    d = drv()
    chk.mc("stack", "LockFree")
    chk.mc("stack", "LockFree", "LockFree3")
    sim_suite(chk, d, "stack", "stack", "StackTrace", 2800)
    sim_suite(chk, d, "stack", "stack", "StackTrace", 1500, weakpct=100, label="stack-weak")
    sim_suite(chk, d, "stackseq", "stack", "StackTrace", 800, spd=1)

def c09(chk):
    d = drv()
    chk.mc("stack", "PoolEnd")
    sim_suite(chk, d, "pool", "stack", "StackTrace", 2000)
    sim_suite(chk, d, "poolseq", "stack", "StackTrace", 800, spd=1)
    sim_suite(chk, d, "poolafter", "stack", "StackTrace", 1000)
    sim_suite(chk, d, "poolend", "stack", "StackTrace", 2400)

CHECKS = {"C08": c08, "C09": c09}
