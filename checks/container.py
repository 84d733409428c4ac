from kv import *

def c23(chk):
    d = Driver("container", sdk=True, repo_srcs=["core/modules/core/src/core_container.cpp"])
    chk.mc("container", "ContainerMC")
    sim_suite(chk, d, "seq", "container", "ContainerTrace", 2000, spd=1)
    sim_suite(chk, d, "parts", "container", "ContainerTrace", 1500, spd=1)
    sim_suite(chk, d, "conc", "container", "ContainerTrace", 3000, spd=3)

CHECKS = {"C23": c23}
