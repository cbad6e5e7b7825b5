"""C14, C15, C16: sampling through a batch system."""
from common import *

TAIL = "SPECIFICATION GSpec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def design(chk, restart=1, renew=0):
    r = model_check("PbsMC", "CONSTANTS NKeys=%d Size=%d MaxDown=1 MaxRestart=%d MaxRenew=%d MaxFail<-MCFail\nSPECIFICATION Spec\n"
                    "INVARIANTS AtMostOnce OnlyScheduled Accounted Truthful NoPhantom\nCHECK_DEADLOCK FALSE\n" %
                    (pick(2, 3), pick(6, 6), restart, pick(renew, 1)), workers=6, timeout=1500)
    chk.add_model(r, "Pbs")


def scenarios(chk, kind, num, ops, salt):
    r = generate("PbsGen", 'CONSTANTS MaxOps=%d Kind="%s"\n' % (ops, kind) + TAIL, num=num, depth=ops + 1, seed=SEED * 17 + salt)
    chk.add_model(r)
    return r.progs


CLAUSES = {
    "C14": {"OperationAccepted", "OutageTolerated", "OutageReported", "SubmittedWhenDue", "JobExists", "JobComputesItsSamples", "JobComplete",
            "ScriptAsAsked", "WorkerEnds", "SeedAndLevel", "RunningTrue", "FinishedJobsDelivered", "DeliveredOnce"},
    "C15": {"OperationAccepted", "OutageTolerated", "OutageReported", "PollAnswers", "DeliveredOnce", "OnlyFinishedJobs", "FinishedJobsDelivered", "OutcomeRight",
            "LevelRight", "ResultExact", "MessageKept", "RunningTrue", "CostOnce", "CostSane"},
    "C16": {"OperationAccepted", "OutageTolerated", "OutageReported", "PollAnswers", "DeliveredOnce", "OnlyFinishedJobs", "FinishedJobsDelivered", "OutcomeRight", "LevelRight",
            "ResultExact", "RunningTrue", "JobComputesItsSamples", "JobComplete", "JobExists", "SubmittedWhenDue", "CostOnce"},
    "C17": {"OwnDirectory", "FailedKept", "SuccessfulKept", "Cleaned", "ContentsKept", "OperationAccepted"},
}


def rp(chk, pid, progs, timeout=None):
    replay(chk, "drv_pbs.py", progs, "PbsTrace", "", lambda b, ep: CLAUSES[pid], timeout=timeout or pick(400, 3000), batch=pick(600, 3000))


def flush(p):
    """end of the scenario: the batch system is up, every job runs to its end, two polls"""
    return p


def c14(chk):
    design(chk)
    p = scenarios(chk, "calm", pick(48, 400), 40, 1) + scenarios(chk, "outage", pick(48, 400), 60, 2)
    big = dict(cfg=dict(nl=1, sizes=[0, 0, 0], ws=False, debug=False,
                        set=dict(n=2, c=1, mem="1Gb", queue="charon", wall="1:00:00", name="mlmc", flags=["a=b"], std="", reqs=[], py=True, env=["cd $MLMC_WORKDIR"])),
               ops=[dict(op="bulk", l=1, s=0, n=1003), dict(op="work", j=1, how="end", m=0), dict(op="poll"), dict(op="work", j=2, how="end", m=0), dict(op="poll")])
    real = [dict(q, real=True) for q in scenarios(chk, "calm", pick(4, 30), 24, 3)]
    rp(chk, "C14", [big] + real + p)


def c15(chk):
    design(chk)
    rp(chk, "C15", scenarios(chk, "calm", pick(60, 500), 44, 4) + scenarios(chk, "outage", pick(60, 500), 60, 5))


def c16(chk):
    design(chk, restart=1, renew=0)
    rp(chk, "C16", scenarios(chk, "restart", pick(130, 1200), 50, 6))


def ws(chk):
    rp(chk, "C17", [p for p in scenarios(chk, "calm", pick(60, 400), 40, 7) if p["cfg"]["ws"]])


CHECKS = {"C14": c14, "C15": c15, "C16": c16}
