from kv import *

def c29(chk):
    d = Driver("cache", sdk=True)
    chk.mc("cache", "CacheMC")
    sim_suite(chk, d, "seq", "cache", "CacheTrace", 3000, spd=1)
    sim_suite(chk, d, "threads", "cache", "CacheTrace", 4000, spd=3)

CHECKS = {"C29": c29}
