from kv import *

R = ["core/modules/zmq_mdlw/src/zmq_env.cpp", "core/modules/core/src/configuration_environment.cpp"]

def c32(chk):
    d = Driver("zmq", sdk=True, repo_srcs=R)
    chk.mc("zmq", "ZmqMC")
    sim_suite(chk, d, "seq", "zmq", "ZmqTrace", 3000, spd=1)
    sim_suite(chk, d, "threads", "zmq", "ZmqTrace", 2500, spd=2)

def c33(chk):
    d = Driver("zmq", sdk=True, repo_srcs=R)
    chk.mc("env", "ZmqEnvMC")
    sim_suite(chk, d, "env", "env", "ZmqEnvTrace", 1500, spd=1)
    sim_suite(chk, d, "envthreads", "env", "ZmqEnvTrace", 700, spd=2)

CHECKS = {"C32": c32, "C33": c33}
