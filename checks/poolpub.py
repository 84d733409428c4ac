from kv import *

def c20(chk):
    d = Driver("poolpub", sdk=True)
    chk.mc("poolpub", "PoolPubMC")
    sim_suite(chk, d, "seq", "poolpub", "PoolPubTrace", 2500, spd=1)
    sim_suite(chk, d, "emitter", "poolpub", "PoolPubTrace", 1000, spd=1)
    sim_suite(chk, d, "conc", "poolpub", "PoolPubTrace", 2500, spd=2, weakpct=40)

CHECKS = {"C20": c20}
