from kv import *

def drv():
    return Driver("fsm", sdk=True, repo_srcs=["state_machine/modules/state_machine/src/*.cpp",
                                              "state_machine/modules/json_conf/src/*.cpp"])

def c24(chk):
    chk.mc("fsm", "FsmMC")
    sim_suite(chk, drv(), "machines", "fsm", "FsmTrace", 6000, spd=1)

def c25(chk):
    chk.mc("fsm", "FsmMC")
    sim_suite(chk, drv(), "listeners", "fsm", "FsmTrace", 8000, spd=1)

CHECKS = {"C24": c24, "C25": c25}
