from kv import *

def drv():
    return Driver("disruptor")

def suite(chk, d, scen, runs, **kw):
    sim_suite(chk, d, scen, "disruptor", "RingTrace", runs, **kw)
    if tier() == "thorough":      # and every schedule with few preemptions, for several cases
        for ds in range(1, 7):
            k = dict(kw)
            k.update(mode="systematic", pb=3, ds=ds, label="%s/sys%d" % (kw.get("label", scen), ds), maxsec=40)
            k.pop("weakpct", None)
            sim_suite(chk, d, scen, "disruptor", "RingTrace", 6000, thorough_runs=6000, **k)

def c01(chk):
    """Exhaustive step-by-step model of the multi-producer claim protocol, and recorded histories of
    the real sequencers validated against the ring specification."""
    d = drv()
    chk.mc("disruptor", "Sequencer")
    if tier() == "thorough":
        chk.mc("disruptor", "Sequencer", "SequencerDeep")
    suite(chk, d, "claim", 2800)
    suite(chk, d, "claimseq", 1600, spd=1)

def c02(chk):
    d = drv()
    chk.mc("disruptor", "Sequencer", "SequencerLive")
    suite(chk, d, "claimseq", 1600, spd=1)
    suite(chk, d, "claim", 1600, weakpct=60, label="claim-weak")
    suite(chk, d, "procs", 1600)

def c03(chk):
    d = drv()
    chk.mc("disruptor", "Sequencer")
    suite(chk, d, "procs", 2800)
    suite(chk, d, "procs", 2000, weakpct=100, label="procs-weak")

def c04(chk):
    d = drv()
    for s in ("blocking", "lite", "busy"):
        chk.mc("disruptor", "Waiting", "Waiting_" + s)
    suite(chk, d, "wait", 2600, spur=1)
    suite(chk, d, "wait", 1800, weakpct=100, label="wait-weak")
    suite(chk, d, "waittmo", 1200, spur=1)
    suite(chk, d, "waitphased", 1200, weakpct=30)

def c05(chk):
    d = drv()
    suite(chk, d, "topo", 2200)
    suite(chk, d, "topo", 1800, weakpct=100, label="topo-weak")
    suite(chk, d, "query", 800, spd=1)

def c06(chk):
    d = drv()
    chk.mc("disruptor", "Waiting", "Waiting_blocking")
    chk.mc("disruptor", "Waiting", "Waiting_busy")
    suite(chk, d, "life", 3200, spur=1)
    suite(chk, d, "life", 1600, weakpct=100, label="life-weak")
    suite(chk, d, "noop", 1400, spur=1)

def c07(chk):
    d = drv()
    suite(chk, d, "query", 4000, spd=1)
    suite(chk, d, "seqops", 1200)

CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07}
