"""The bounded instances of spec/Camera.tla (through spec/MC.tla) that TLC checks, per property.

(statuses, controls, ext status, ext control, operations, calls, ticks, faults, exts, invariants)
"""
ALL_INV = ["C20_Legal", "C07_Faults", "C02_Registers", "C06_Acknowledge", "C08_Synchronize", "C03_Configuration",
           "C03_Images", "C05_Origins", "C06_Untouched", "C07_NoTrace", "C09_Session", "DeviceInv"]


def inst(ops, calls, ticks, faults, exts, inv=ALL_INV, st="SomeStatuses", ct="TwoControls", es="ExtS", ec="ExtC",
         models="AllModels", early="FALSE", spec="Spec", props=(), endless="FALSE",
         module="MC", more=()):
    return dict(module=module, more=more, ops=ops, calls=calls, ticks=ticks, faults=faults, exts=exts, inv=inv, st=st, ct=ct, es=es, ec=ec,
                models=models, early=early, spec=spec, props=props, endless=endless)


IMG = ["C05_Origins", "C03_Images", "C06_Acknowledge", "C06_Untouched", "C20_Legal"]
REG = ["C02_Registers", "C20_Legal", "C07_Faults", "C03_Configuration"]
SYN = ["C08_Synchronize", "C20_Legal", "C07_Faults"]
SES = ["C09_Session", "C07_NoTrace"]
FLT = ["C07_Faults", "C07_NoTrace", "C03_Configuration", "C06_Acknowledge", "C09_Session"]
LIVE = inst("SyncOps", 2, 1, 0, 0, inv=[], st="AllStatuses", ct="AllControls", es="NoWords", ec="NoWords",
            spec="LiveSpec", props=["SyncReturns"], endless="TRUE")
STEP = inst("StepOps", 4, 3, 0, 0, inv=["Coherent", "C08_Synchronize", "C05_Origins"], st="StepStatuses", ct="StepControls",
            es="NoWords", ec="NoWords")
# the defect that was fixed must show in the model
EARLY = inst("CfgOps", 3, 0, 1, 0, inv=["C03_Configuration"], early="TRUE")

def poll(ops, calls, ticks, faults, inv=("Ordered", "Filled"), props=("Refines",), spec="PSpec", throwing="FALSE", polite="TRUE", cost=False):
    """An instance of spec/PollMC.tla."""
    return inst(ops, calls, ticks, faults, 0, inv=list(inv), st="AllStatuses", ct="PollControls", es="NoWords", ec="NoWords",
                spec=spec, props=props, module="PollMC",
                more=["Throwing = " + throwing, "Polite = " + polite] + (["CallCost <- Free"] if cost else []))


def forever(ops, ticks, faults, exts, inv, colours=True, **kw):
    """Histories of any length: the budgets are for each call anew, frames have one of two colours."""
    return inst(ops, 1, ticks, faults, exts, inv=inv, more=["CallCost <- Free", "Next_left <- Full"] + (["FrameNames <- TwoColours"] if colours else []), **kw)


ACCESS = ["RefinesAccess"]
def ready(calls, ticks, faults, polite="TRUE"):
    """An instance of spec/ReadyMC.tla."""
    return inst("PollOps", calls, ticks, faults, 0, inv=[], props=["RefinesReady"], module="ReadyMC", spec="RSpec", st="NoFlag",
                ct="ReadyControls", es="NoWords", ec="NoWords", more=["Polite = " + polite])


QUICK = {
    "C02": [("registers", inst("RegOps", 2, 1, 1, 2, inv=REG, st="AllStatuses", ct="AllControls")),
            ("registers refine Access.tla", inst("RegOps", 2, 0, 1, 1, inv=[], props=ACCESS, module="AccessMC"))],
    "C03": [("configuration", inst("CfgOps", 3, 0, 1, 1, inv=["C03_Configuration", "C03_Images"])),
            ("configuration, any history", forever("CfgOps", 0, 0, 1, ["C03_Configuration", "C03_Images"])),
            ("configuration refines Access.tla, any history",
             forever("AccOps", 0, 1, 1, [], props=ACCESS, module="AccessMC", colours=False, es="NoWords"))],
    "C04": [("images", inst("ImageOnly", 2, 1, 0, 1, inv=IMG))],
    "C05": [("images", inst("ImageOnly", 2, 2, 0, 1, inv=IMG)), ("step mode", STEP)],
    "C06": [("ready", inst("ReadyOps", 2, 2, 1, 1, inv=["C06_Acknowledge", "C06_Untouched"])), ("ready refines Ready.tla", ready(4, 3, 1))],
    "C07": [("faults", inst("FewOps", 2, 1, 2, 1, inv=FLT))],
    "C08": [("synchronize", inst("SyncOps", 3, 2, 1, 1, inv=SYN, st="AllStatuses", ct="AllControls")), ("liveness", LIVE),
            ("synchronize, any history", forever("SyncOps", 1, 1, 1, SYN))],
    "C09": [("sessions", inst("SessOps", 3, 1, 1, 0, inv=SES, ct="TwoControls")), ("sessions, any history", forever("SessOps", 0, 1, 0, SES))],
    "C20": [("transfers", inst("AllOps", 2, 1, 1, 1, inv=["C20_Legal"]))],
    "C22": [("images", inst("ImageOnly", 2, 1, 0, 1, inv=IMG))],
    "C27": [("polling", poll("PollOps", 4, 3, 1)), ("polling refines Ready.tla", ready(4, 3, 2)), ("throwing frames away", poll("ThrowOps", 4, 2, 1, inv=["Ordered"], throwing="TRUE")),
            ("liveness", poll("OnlyPoll", 1, 1, 1, spec="PLive", props=["Refines", "AllShown"], cost=True))],
}
THOROUGH = {
    "C02": [("registers", inst("RegOps", 3, 1, 1, 1, inv=REG, st="AllStatuses", ct="AllControls")),
            ("registers, any history", forever("RegOps", 0, 1, 0, REG)), ("registers changed by others, any history", forever("RegOps", 0, 0, 1, REG)),
            ("registers refine Access.tla, any history", forever("RegOps", 0, 1, 1, [], props=ACCESS, module="AccessMC", colours=False, es="NoWords"))],
    "C03": [("configuration", inst("CfgOps", 4, 0, 2, 1, inv=["C03_Configuration", "C03_Images"])),
            ("configuration, any history", forever("CfgOps", 0, 1, 0, ["C03_Configuration", "C03_Images"])),
            ("configuration changed by others, any history", forever("CfgOps", 0, 0, 1, ["C03_Configuration", "C03_Images"])),
            ("configuration refines Access.tla, any history", forever("AccOps", 0, 1, 1, [], props=ACCESS, module="AccessMC", colours=False)),
            ("images refine Access.tla, any history", forever("CfgOps", 0, 1, 0, [], props=ACCESS, module="AccessMC")), ("all", inst("AllOps", 2, 2, 1, 1))],
    "C04": [("images", inst("ImageOnly", 3, 2, 0, 1, inv=IMG))],
    "C05": [("images", inst("ImageOnly", 3, 2, 0, 1, inv=IMG)), ("step mode", STEP)],
    "C06": [("ready", inst("ReadyOps", 3, 2, 1, 1, inv=["C06_Acknowledge", "C06_Untouched"])),
            ("ready, any history", forever("ReadyOps", 1, 0, 0, ["C06_Acknowledge", "C06_Untouched"])), ("ready refines Ready.tla", ready(6, 5, 3))],
    "C07": [("faults", inst("FewOps", 3, 1, 2, 0, inv=FLT)), ("faults, any history", forever("FewOps", 0, 1, 0, FLT)), ("all", inst("AllOps", 2, 2, 1, 1))],
    "C08": [("synchronize", inst("SyncOps", 4, 3, 1, 1, inv=SYN, st="AllStatuses", ct="AllControls")), ("liveness", LIVE),
            ("synchronize, any history", forever("SyncOps", 1, 1, 1, SYN, st="AllStatuses", ct="AllControls"))],
    "C09": [("sessions", inst("SessOps", 5, 1, 1, 0, inv=SES, ct="TwoControls")), ("sessions with others", inst("SessOps", 3, 1, 1, 1, inv=SES, ct="TwoControls")), ("sessions, any history", forever("SessOps", 0, 1, 0, SES))],
    "C20": [("transfers", inst("AllOps", 2, 2, 1, 1))],
    "C22": [("images", inst("ImageOnly", 3, 1, 0, 1, inv=IMG))],
    "C27": [("polling", poll("PollOps", 6, 4, 2)), ("polling refines Ready.tla", ready(6, 5, 3)), ("throwing frames away", poll("ThrowOps", 5, 3, 1, inv=["Ordered"], throwing="TRUE")),
            ("liveness", poll("OnlyPoll", 1, 3, 2, spec="PLive", props=["Refines", "AllShown"], cost=True))],
}
# must be violated: the model reaches what the properties talk about, and has teeth
REACH = {
    "C03": [("cache before write", EARLY, "C03_Configuration"),
            ("cache before write, any history", forever("CfgOps", 0, 1, 0, ["C03_Configuration"], early="TRUE"), "C03_Configuration"),
            ("cache before write does not refine Access.tla", dict(EARLY, inv=[], props=ACCESS, module="AccessMC"), "temporal")],
    "C05": [("torn image", inst("ImageOnly", 2, 2, 0, 0, inv=["NeverTorn"]), "NeverTorn")],
    "C06": [("frame lost between reading and acknowledging", inst("ReadyOps", 2, 2, 0, 0, inv=["NeverLost"]), "NeverLost"),
            ("caller too slow for Ready.tla", ready(3, 3, 1, polite="FALSE"), "temporal")],
    "C08": [("synchronize returns", inst("SyncOps", 2, 2, 0, 0, inv=["NeverSync"]), "NeverSync"),
            ("camera that stops", dict(LIVE, spec="LazySpec"), "temporal")],
    "C27": [("both subpages", poll("OnlyPoll", 3, 2, 0, inv=["NeverFilled"], props=()), "NeverFilled"),
            ("caller too slow", poll("OnlyPoll", 2, 2, 0, polite="FALSE"), "temporal"),
            ("caller who stops", poll("OnlyPoll", 1, 1, 0, spec="PLazy", props=["AllShown"], cost=True), "temporal")],
}
# proofs by Apalache: (init, invariants, steps, holds[, constants])
ACCESS_PROOF = ("Access", [("Init", "IndInv", 0, True), ("IndInv", "IndInv,OneField", 1, True), ("Init", "AlwaysCurrent", 3, False)])
READY_PROOF = ("Ready", [("Init", "IndInv", 0, True, "ConstInit"), ("IndInv", "IndInv,Step", 1, True, "ConstInit"), ("Init", "Once", 5, False, "RudeInit")])
PROOFS = {"C02": ACCESS_PROOF, "C03": ACCESS_PROOF, "C06": READY_PROOF, "C27": READY_PROOF}


def cfg(i):
    out = ["SPECIFICATION %s" % i["spec"], "CONSTANTS", "  Models <- %s" % i["models"], "  Statuses <- %s" % i["st"],
           "  Controls <- %s" % i["ct"], "  ExtStatus <- %s" % i["es"], "  ExtControl <- %s" % i["ec"],
           "  OpArgs <- %s" % i["ops"], "  MaxCalls = %d" % i["calls"], "  MaxTicks = %d" % i["ticks"],
           "  MaxFaults = %d" % i["faults"], "  MaxExt = %d" % i["exts"], "  CacheEarly = %s" % i["early"],
           "  Endless = %s" % i["endless"]] + ["  " + x for x in i["more"]] + ["CHECK_DEADLOCK FALSE"]
    if i["inv"]:
        out += ["INVARIANTS"] + ["  " + x for x in i["inv"]]
    if i["props"]:
        out += ["PROPERTIES"] + ["  " + x for x in i["props"]]
    return "\n".join(out) + "\n"
