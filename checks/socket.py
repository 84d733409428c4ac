from kv import *

def drv():
    return Driver("socket", sdk=True, repo_srcs=["core/modules/socket_mdlw/src/*.cpp"])

def c26(chk):
    chk.mc("socket", "StreamMC")
    sim_suite(chk, drv(), "streams", "socket", "SocketTrace", 6000, spd=1)

def c27(chk):
    chk.mc("socket", "Owners")
    sim_suite(chk, drv(), "owners", "socket", "SocketTrace", 6000, spd=1)

CHECKS = {"C26": c26, "C27": c27}
