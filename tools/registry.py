"""What decides each property: design models (TLC, exhaustive) and trace
specifications bound to driver programs running the real code."""
def T(driver, spec, quick, thorough, args=(), **k):
    return dict(driver=driver, spec=spec, quick=quick, thorough=thorough, args=list(args), **k)
def M(mod, cfg=None, thorough=None, **k):
    return dict(mod=mod, cfg=cfg or mod + ".cfg", thorough_cfg=thorough, **k)

def U(mode, spec, quick=2000, thorough=40000):
    return T("d_unit", spec, quick, thorough, ["--mode", mode])
def C(mode, quick=900, thorough=9000):
    return T("d_coll", "CollectionsTrace", quick, thorough, ["--mode", mode])

def D(mode, spec, quick=900, thorough=9000):
    return T("d_grp", spec, quick, thorough, ["--mode", mode])

def H(mode, quick=500, thorough=9000):
    return T("d_rdma", "RemoteMemTrace", quick, thorough, ["--mode", mode])

PROPS = {
  "M01": dict(mc=[M("MCActiveMsg")], traces=[T("d_msg", "ActiveMsgTrace", 900, 9000)]),
  "M02": dict(mc=[M("MCActiveMsg")], traces=[T("d_msg", "ActiveMsgTrace", 900, 9000, ["--bcast"])]),
  "T01": dict(mc=[M("MCWave", thorough="MCWaveDeep.cfg"), M("MCDS", thorough="MCDSDeep.cfg")], traces=[T("d_term", "TerminationTrace", 700, 9000)]),
  "T02": dict(mc=[M("MCWave", "MCWaveLive.cfg", thorough="MCWaveLive3.cfg"), M("MCDS")], traces=[T("d_term", "TerminationTrace", 700, 9000, ["--actact"])]),
  "T03": dict(mc=[M("MCTerm", thorough="MCTermDeep.cfg")], traces=[T("d_term", "TerminationTrace", 700, 9000, ["--nest"])]),
  "T05": dict(mc=[M("MCInterval")], traces=[U("iset", "IntSetTrace"), U("ewin", "EpochWindowTrace")]),
  "G02": dict(traces=[U("region", "RegionTrace")]),
  "M03": dict(traces=[U("pool", "PoolTrace")]),
  "B01": dict(traces=[U("bits", "BitFieldsTrace")]),
  "P02": dict(traces=[U("pipe", "PipeSignalTrace")]),
  "S01": dict(traces=[T("d_rt", "SchedulerTrace", 900, 9000, ["--mode", "sched"])]),
  "L02": dict(traces=[T("d_rt", "PhasesTrace", 600, 9000, ["--mode", "phase"])]),
  "A01": dict(traces=[T("d_rt", "AsyncOpsTrace", 900, 9000, ["--mode", "async"])]),
  "L03": dict(traces=[T("d_model", "PredictionsTrace", 2500, 20000)]),
  "V01": dict(traces=[T("d_conf", "ComponentsTrace", 6000, 60000, ["--mode", "comp"])]),
  "V02": dict(traces=[T("d_conf", "LifetimesTrace", 500, 5000, ["--mode", "life"])]),
  "V03": dict(traces=[T("d_conf", "OptionsTrace", 3000, 30000, ["--mode", "args"])]),
  "S02": dict(traces=[U("ult", "ThreadsTrace")]),
  "S03": dict(traces=[U("timer", "TimerTrace")]),
  "I01": dict(traces=[U("index", "DenseIndexTrace")]),
  "L04": dict(traces=[U("lbdata", "ElementLoadTrace")]),
  "U01": dict(traces=[U("util", "ContainersTrace")]),
  "C01": dict(traces=[C("make")]),
  "C02": dict(mc=[M("MCLocation", thorough="MCLocationDeep.cfg")], traces=[C("send")]),
  "C03": dict(traces=[C("bcast")]),
  "C04": dict(mc=[M("MCMembership", thorough="MCMembershipDeep.cfg")], traces=[C("dyn")]),
  "C05": dict(traces=[C("ckpt", 800)]),
  "R02": dict(traces=[C("red")]),
  "L01": dict(traces=[C("lb")]),
  "G01": dict(traces=[D("grp", "DeliveryTrace")]),
  "O01": dict(traces=[D("obj", "DeliveryTrace")]),
  "P01": dict(traces=[D("cb", "DeliveryTrace")]),
  "R05": dict(traces=[D("scat", "DeliveryTrace")]),
  "R01": dict(traces=[D("red", "ReductionsTrace")]),
  "R03": dict(traces=[D("bar", "BarriersTrace")]),
  "M04": dict(traces=[T("d_chain", "ChainsTrace", 700, 9000)]),
  "H01": dict(traces=[H("node"), H("set")]),
  "H02": dict(traces=[H("col", 700)]),
  "R04": dict(traces=[D("scope", "ScopesTrace")]),
}
NOT_APPLICABLE = {}
