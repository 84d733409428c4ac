from kv import *

def drv():
    return Driver("emitter", sdk=True)

def c18(chk):
    d = drv()
    for k in range(3):
        chk.mc("emitter", "EmitterMC", "EmitterMC%d" % k)
    sim_suite(chk, d, "seq", "emitter", "EmitterTrace", 1500, spd=1)

def c19(chk):
    d = drv()
    chk.mc("emitter", "SafeEmitter")
    sim_suite(chk, d, "conc", "emitter", "EmitterTrace", 1500, thorough_runs=10000)
    sim_suite(chk, d, "seq", "emitter", "EmitterTrace", 300, spd=1)

CHECKS = {"C18": c18, "C19": c19}
