from kv import *

R = ["core/modules/mem_mdlw/src/in_memory_queue_poller.cpp"]

def c30(chk):
    d = Driver("svc", sdk=True, repo_srcs=R)
    chk.mc("service", "ServiceMC")
    sim_suite(chk, d, "seq", "service", "ServiceTrace", 3000, spd=1)
    sim_suite(chk, d, "threads", "service", "ServiceTrace", 3000, spd=2)

def c31(chk):
    d = Driver("chan", sdk=True, repo_srcs=R)
    chk.mc("channel", "ChannelMC")
    sim_suite(chk, d, "seq", "channel", "ChannelTrace", 3000, spd=1)
    sim_suite(chk, d, "threads", "channel", "ChannelTrace", 3000, spd=2)
    sim_suite(chk, d, "pipe", "channel", "ChannelTrace", 3000, spd=2)

CHECKS = {"C30": c30, "C31": c31}
