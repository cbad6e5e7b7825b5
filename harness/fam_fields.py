"""C25 (field sets), C26 (mesh files), C28 (random fields), C29 (flow simulation)."""
from common import *

CLAUSES = {"C25": {"OuterFields", "OutsideRegions", "FieldValues", "FieldShape", "Answers"},
           "C26": {"Nodes", "Elements", "PhysicalNames", "ElementData", "FileText", "Answers"},
           "C28": {"RealLength", "CoincidentPoints", "LogPositive", "SeedDetermines", "NewRealization", "NoVariance",
                   "FieldMean", "FieldDeviation", "FieldCorrelation", "BaseAnswers", "BaseValues", "CovarianceMatrix", "Decomposition", "RangeOfPositive", "KozenyCarman", "Answers"}}


def run(chk, pid, ops, num, depth, salt=0):
    cfg = "CONSTANTS Depth=%d Ops={%s}\nSPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % (depth, ",".join('"%s"' % o for o in ops))
    r = generate("FieldsGen", cfg, num=num, depth=depth + 1, seed=SEED * 19 + salt)
    chk.add_model(r)
    return replay(chk, "drv_fields.py", r.progs, "FieldsTrace", relevant=lambda b, ep: CLAUSES[pid], timeout=pick(300, 2000), batch=pick(400, 1500))


def c25(chk):
    chk.add_model(model_check("FieldsMC", "CONSTANTS MaxOps=%d\nSPECIFICATION Spec\nINVARIANTS FreshDraws Outside Named Dependent OnlyOuter\nCHECK_DEADLOCK FALSE\n" % pick(5, 6), workers=6, timeout=1500), "Fields")
    run(chk, "C25", ["set"], pick(400, 6000), 12, 1)


def c26(chk):
    chk.add_model(model_check("MeshFileMC", "SPECIFICATION Spec\nINVARIANTS ReadsBack CutSeen\nCHECK_DEADLOCK FALSE\n", workers=6), "MeshFile")
    run(chk, "C26", ["mesh", "data", "dtime", "file"], pick(500, 4000), 10, 2)


def c28(chk):
    chk.add_model(model_check("RandomFieldMC", "CONSTANTS MaxOps=%d\nSPECIFICATION Spec\nINVARIANTS Belongs Repeats NewOnes\nCHECK_DEADLOCK FALSE\n" % pick(4, 5), workers=6, timeout=1500), "RandomField")
    run(chk, "C28", ["real"], pick(60, 600), 10, 3)
    run(chk, "C28", ["base", "cov", "law"], pick(120, 1000), 10, 4)
    run(chk, "C28", ["stat"], pick(16, 200), 3, 5)


FLOW = {"ExtractedElements", "RegionMap", "Runs", "RunInput", "FieldsOfElements", "OneRealization", "NoVariance", "SeedDetermines", "SeedMatters",
        "FailureShown", "FlowResults", "LevelDescription", "Substituted", "UsedParameters", "Answers"}


def c29(chk):
    chk.add_model(model_check("FlowMC", "CONSTANTS MaxCrash=2\nSPECIFICATION Spec\nINVARIANTS OwnFields OwnResult FailsIff RunCount FineKept\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", workers=2), "Flow")
    for ops, num, salt in ((["flow"], pick(64, 1000), 6), (["extract", "subst"], pick(64, 1000), 7)):
        cfg = "CONSTANTS Depth=6 Ops={%s}\nSPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n" % ",".join('"%s"' % o for o in ops)
        r = generate("FlowGen", cfg, num=num, depth=7, seed=SEED * 23 + salt)
        chk.add_model(r)
        replay(chk, "drv_flow.py", r.progs, "FlowTrace", relevant=lambda b, ep: FLOW, timeout=pick(300, 2000), batch=pick(100, 800))


CHECKS = {"C25": c25, "C26": c26, "C28": c28, "C29": c29}
