import vp

TECHNIQUE = 'TLA+ model of the queue, TLC-generated/controlled schedules of the real queue checked against it'
NOTE = 'Exhaustive for the specification at small bounds; the real queue is run under thousands of scheduler-chosen interleavings (switch points at lock operations) and on real threads, and every recorded history must be a linearisation the specification admits. Assumes data races between lock operations show only in the real-thread runs.'

PROGS = ["1:oo|ww", "2:oo|w|w", "1:o|o|wp", "2:ooo|wpw", "1:o|w|p", "3:o1o1o1|ps|s", "2:ow|ow", "2:oo!|w|ws",
         "1:oo|w|w|p", "2:o|o|w|w"]
MORE = ["2:ooo|oo|www|ww", "3:oooo|wwp|pw", "1:ooo|www|p", "2:oop|oow|w", "3:o2o2oo|wpp|s"]


def run(ck):
    vp.build(["vh_util"])
    cfgs = [("1", '{"1", "2"}', '{"3", "4"}', '{}', 1), ("2", '{"1", "2"}', '{"3"}', '{"4"}', 2),
            ("1", '{"1"}', '{"3", "4"}', '{"5"}', 2)]
    if ck.thorough:
        cfgs.append(("2", '{"1", "2"}', '{"3", "4"}', '{"5"}', 2))
    for cap, p, w, q, per in cfgs:
        r = vp.model_check("MC_Queue", """SPECIFICATION Spec
CONSTANTS Cap = %s
 Producers = %s
 Waiters = %s
 Pollers = %s
 PerThread = %d
INVARIANTS Bounded Fifo Once Atomic NoLostWakeup
""" % (cap, p, w, q, per))
        ck.model("MC_Queue", r, "capacity %s, producers %s, waiters %s, pollers %s, %d operations each" % (cap, p, w, q, per))
    f = ck.path("sched.ndjson")
    progs = PROGS + (MORE if ck.thorough else [])
    o = vp.harness("vh_util", ["queue_sched", f, ck.seed, 60000 if ck.thorough else 3000] + progs)
    execs, hist, _ = o.split()
    ck.validate_cases("schedules", "T_Queue", file=f, note="%d executions of the real queue under chosen schedules, %d distinct histories"
                      % (int(execs), int(hist)))
    f = ck.path("stress.ndjson")
    vp.harness("vh_util", ["queue_stress", f, ck.seed, 400 if ck.thorough else 60])
    ck.validate_cases("threads", "T_Queue", file=f, note="real threads")
    ck.assumptions.append("controlled schedules switch threads at lock, unlock, wait and notify only; unlocked accesses are left to the real-thread runs")
