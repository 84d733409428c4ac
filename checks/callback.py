from kv import *

def drv():
    return Driver("callback", sdk=True)

def c21(chk):
    d = drv()
    chk.mc("callback", "Handler")
    sim_suite(chk, d, "seq", "callback", "CallbackTrace", 800, spd=1)
    sim_suite(chk, d, "conc", "callback", "CallbackTrace", 1500)

CHECKS = {"C21": c21}
