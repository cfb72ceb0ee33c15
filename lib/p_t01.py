import vp

TECHNIQUE = 'TLA+ model of driver, workers and queues checked with TLC; histories of the real executor and batch loop under controlled schedules and on real threads checked against the specification'
NOTE = 'The model covers every interleaving at queue-operation grain with small thread and example counts. The real executor, queues and batch loop run (with recording stand-ins for examples and weights) under thousands of chosen schedules and on real threads; each recorded history must be one the specification admits.'

PROGS = ["e1:swsw:00", "e1:ss:00", "e1:ssss:0000", "e2:ssssww:0020", "e1:s:0", "e2::", "e1:sspspw:012", "e2:sswsw:301", "e1:sssssspp:040000",
         "b1:123:010", "b2:12,3:000", "b2:123,12:010", "b1:1234,12:0001", "b2:12345,123:00020", "b1:12,12,1:00", "b1:,1:0", "b2:1234,34:3000"]
MORE = ["b3:1234567,12:0000001", "b1:1234567,765:0000400", "e3:ssssssww:000000", "e1:sspsspsspsspww:00000000", "b2:123456,56,1:100000"]


def cfg(n, ex, failing, mode, batches, maxsub, live):
    return """SPECIFICATION Spec
CONSTANTS N = %d
 Examples = {%s}
 Failing = {%s}
 Mode = "%s"
 Batches <- %s
 MaxSubmit = %d
INVARIANTS Bounded Once NothingLeft StopsFit BatchesApart
PROPERTIES %s
""" % (n, ", ".join(map(str, ex)), ", ".join(map(str, failing)), mode, batches, maxsub, live)


def run(ck):
    vp.build(["vh_exec", "vh_exec_rt"])
    cases = [(1, [1, 2, 3], [], "free", "B0", 5, "Ends"), (2, [1, 2, 3], [], "free", "B0", 4, "Ends"),
             (1, [1, 2, 3, 4], [3], "loop", "B1", 0, "LoopEnds"),
             (2, [1, 2, 3, 4, 5], [1, 5], "loop", "B2", 0, "LoopEnds"),
             (1, [1, 2, 3, 4, 5], [2, 4], "loop", "B3", 0, "LoopEnds")]
    if ck.thorough:
        cases += [(2, [1, 2, 3, 4, 5, 6], [], "free", "B0", 7, "Ends"), (3, [1, 2, 3, 4], [], "free", "B0", 5, "Ends"),
                  (3, [1, 2, 3, 4, 5, 6, 7], [4], "loop", "B4", 0, "LoopEnds")]
    for c in cases:
        r = vp.model_check("MC_Executor", cfg(*c))
        ck.model("MC_Executor", r, "%d threads, examples %s, failing %s, %s driver, batches %s, %d submissions" % tuple(c[:6]))
    f = ck.path("sched.ndjson")
    progs = PROGS + (MORE if ck.thorough else [])
    o = vp.harness("vh_exec", ["exec_sched", f, ck.seed, 20000 if ck.thorough else 1500] + progs, timeout=800)
    execs, hist = o.split()
    ck.validate_cases("schedules", "T_Executor", file=f, note="%d executions of the real code under chosen schedules, %d distinct histories"
                      % (int(execs), int(hist)))
    if ck.viol:
        return  # threads would hang for real
    f = ck.path("stress.ndjson")
    vp.harness("vh_exec_rt", ["exec_stress", f, ck.seed, 2000 if ck.thorough else 150], timeout=300)
    ck.validate_cases("threads", "T_Executor", file=f, note="the real code on real threads")
    ck.assumptions.append("examples, example readers and the weight vector are stand-ins; controlled schedules switch threads at queue operations and inside examples")
