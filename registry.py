"""Which specification units decide which property."""

UNITS = {
    "theta": dict(fam="theta", trace="Trace_Theta", mc=[("MC_Theta", "MC_Theta.cfg")],
                  sim=dict(module="MC_Theta", cfg="Sim_Theta.cfg", num=1000, depth=20), nosim=("C28", "C30"), nomc=("C30",)),
    "tuple": dict(fam="tuple", trace="Trace_Tuple", mc=[("MC_Tuple", "MC_Tuple.cfg")],
                  sim=dict(module="MC_Tuple", cfg="Sim_Tuple.cfg", num=1000, depth=20), nosim=("C28", "C30"), nomc=("C30",)),
    "hll": dict(fam="hll", trace="Trace_Hll", mc=[("MC_Hll", "MC_Hll.cfg")],
                sim=dict(module="MC_Hll", cfg="Sim_Hll.cfg", num=400, depth=20), nosim=("C28", "C30"), nomc=("C30",)),
    "cpc": dict(fam="cpc", trace="Trace_Cpc", mc=[("MC_Cpc", "MC_Cpc.cfg")],
                sim=dict(module="MC_Cpc", cfg="Sim_Cpc.cfg", num=400, depth=20), nosim=("C28", "C30"), nomc=("C30",)),
    "kll": dict(fam="kll", trace="Trace_Quant", mc=[("MC_Kll", "MC_Kll.cfg")],
                sim=dict(module="MC_Kll", cfg="Sim_Kll.cfg", num=400, depth=30), nosim=("C28", "C30"), nomc=("C30",)),
    "req": dict(fam="req", trace="Trace_Quant", mc=[("MC_Req", "MC_Req.cfg"), ("MC_Req", "MC_ReqL.cfg")],
                sim=dict(module="MC_Req", cfg="Sim_Req.cfg", num=400, depth=30), nosim=("C28", "C30"), nomc=("C30",)),
    "tdig": dict(fam="tdig", trace="Trace_Tdigest", mc=[("MC_Tdigest", "MC_Tdigest.cfg")],
                 sim=dict(module="MC_Tdigest", cfg="Sim_Tdigest.cfg", num=400, depth=20), nosim=("C28", "C30"), nomc=("C30",)),
    "freq": dict(fam="freq", trace="Trace_Freq", mc=[("MC_Freq", "MC_Freq.cfg")],
                 sim=dict(module="MC_Freq", cfg="Sim_Freq.cfg", num=120, depth=30), nosim=("C28", "C30"), nomc=("C30",)),
    "cms": dict(fam="cms", trace="Trace_Cms", mc=[("MC_Cms", "MC_Cms.cfg")],
                sim=dict(module="MC_Cms", cfg="Sim_Cms.cfg", num=400, depth=20), nosim=("C28", "C30"), nomc=("C30",)),
    "bloom": dict(fam="bloom", trace="Trace_Bloom", mc=[("MC_Bloom", "MC_Bloom.cfg")],
                  sim=dict(module="MC_Bloom", cfg="Sim_Bloom.cfg", num=100, depth=20), nosim=("C28", "C30"), nomc=("C30",)),
    "resv": dict(fam="resv", trace="Trace_Reservoir", mc=[("MC_Reservoir", "MC_Reservoir.cfg")],
                 sim=dict(module="MC_Reservoir", cfg="Sim_Reservoir.cfg", num=150, depth=28), nosim=("C28", "C30"), nomc=("C30",)),
    "vopt": dict(fam="vopt", trace="Trace_VarOpt", mc=[("MC_VarOpt", "MC_VarOpt.cfg")],
                 sim=dict(module="MC_VarOpt", cfg="Sim_VarOpt.cfg", num=150, depth=24), nosim=("C28", "C30"), nomc=("C30",)),
    "layout": dict(fam="layout", trace="Trace_Layout", mc=[("MC_Layout", "MC_Layout.cfg")]),
    "params": dict(fam="params", trace="Trace_Params", mc=[("MC_Params", "MC_Params.cfg")]),
    "image": dict(fam="image", trace="Trace_Image", mc=[("MC_Image", "MC_Image.cfg")]),
}

PROPS = {
    "C01": dict(units=["theta"]),
    "C02": dict(units=["theta"]),
    "C03": dict(units=["theta"]),
    "C04": dict(units=["tuple"]),
    "C05": dict(units=["tuple"]),
    "C06": dict(units=["tuple"]),
    "C07": dict(units=["hll"]),
    "C08": dict(units=["hll"]),
    "C09": dict(units=["hll"]),
    "C10": dict(units=["cpc"]),
    "C11": dict(units=["cpc"]),
    "C12": dict(units=["cpc"]),
    "C13": dict(units=["kll"]),
    "C14": dict(units=["req"]),
    "C15": dict(units=["kll", "req"]),
    "C16": dict(units=["kll"]),
    "C17": dict(units=["tdig"]),
    "C18": dict(units=["tdig"]),
    "C19": dict(units=["freq"]),
    "C20": dict(units=["freq"]),
    "C21": dict(units=["cms"]),
    "C22": dict(units=["bloom"]),
    "C23": dict(units=["bloom"]),
    "C24": dict(units=["resv"]),
    "C25": dict(units=["vopt"]),
    "C26": dict(units=["vopt"]),
    "C27": dict(units=["resv", "vopt"]),
    "C28": dict(units=["theta", "tuple", "hll", "cpc"]),
    "C29": dict(units=["image"], level="fault_enumeration"),
    "C30": dict(units=["theta", "tuple", "hll", "cpc", "kll", "req", "tdig", "freq", "cms", "bloom", "resv", "vopt"], mc=[("MC_Iso", "MC_Iso.cfg")]),
    "C31": dict(units=["layout"]),
    "C32": dict(units=["params"]),
}
