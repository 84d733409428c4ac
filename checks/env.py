from kv import *

def c28(chk):
    d = Driver("env", sdk=True, repo_srcs=["core/modules/core/src/configuration_environment.cpp",
                                           "core/modules/core/src/prop_file_environment.cpp",
                                           "core/modules/mem_mdlw/src/mem_env.cpp"])
    chk.mc("env", "EnvMC")
    sim_suite(chk, d, "seq", "env", "EnvTrace", 4000, spd=1)
    sim_suite(chk, d, "threads", "env", "EnvTrace", 3500, spd=2)
    sim_suite(chk, d, "dyn", "env", "EnvTrace", 1500, spd=1)

CHECKS = {"C28": c28}
