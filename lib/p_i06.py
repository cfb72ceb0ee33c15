import hashlib, os, random, shutil
import gen_args, p_i01, vp

TECHNIQUE = 'TLA+ specification of option layers (Options.tla) checked with TLC; the settings the real parser gives for random command lines and configuration files, and runs of the real program, are validated against it'
NOTE = 'All options, in every way to write them, on the command line, in a named, installed or user configuration file and in configuration files that name others; all settings are compared. One option in a command line or file decides the kind of output (their order among themselves is not constrained). Bad options, values and files must be refused by the program without output. Empty configuration files, and blank space inside numbers, are not constrained.'

SENT = "すもももももももものうち\nsをする\n\n# c\nもも\n"
BAD = [["--beam="], ["--beam=x"], ["--beam=99999999999"], ["--beam=3x"], ["--bem=3"], ["-x"], ["--juman=3"], ["--format=zzz"],
       ["--auto-nbest=1:2"], ["--auto-nbest="], ["--auto-nbest=1:2:99999999999"], ["--lattice"], ["-s"], ["-s", "x"], ["-o", "{d}/none/x"],
       ["{d}/nofile"], ["ok.txt", "--config={d}/none"], ["--config={d}/bad.cfg"], ["--config={d}/bad2.cfg"], ["--config={d}/none.cfg"],
       ["--rnn-model={d}/none"], ["--rnn-model={d}/ok.txt"], ["--feature-weight-rnn=x"], ["--global-beam", "--juman"], ["--model={d}/none"],
       ["--model={d}/ok.txt"], ["-j", "--model="], ["--config={d}/cfgmodel.cfg"], ["--segment", "--beam=5 5"], ["-o", "{d}"]]
GOOD = [[], ["-j"], ["-M"], ["-F"], ["--segment"], ["--segment", "--segment-separator=/"], ["-s3"], ["-L", "2"], ["--lattice=4"], ["--format=morph"],
        ["--beam=3"], ["--beam", "1"], ["--global-beam=0"], ["--global-beam=4"], ["--right-check=2", "--right-beam=3"], ["--auto-nbest=1:2:5"],
        ["--dic-subset"], ["--partial-input", "--segment"], ["--log-level=0"], ["--", "{d}/ok.txt"], ["--beam=40"]]


def program(ck):
    cli = p_i01.Cli(ck)
    d = cli.dir
    home = os.path.join(d, ".config/jumanpp")
    os.makedirs(home, exist_ok=True)
    user = os.path.join(home, "jumandic.config")
    prefix = os.path.join(vp.BUILD, "prefix")
    inst = os.path.join(prefix, "jumandic.config")

    def put(fn, text):
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        open(fn, "w").write(text)
    put(d + "/ok.txt", SENT)
    put(d + "/bad.cfg", "--segment\n--bem=3\n")
    put(d + "/bad2.cfg", "--beam=x\n")
    put(d + "/cfgmodel.cfg", "--model=gone.model\n")
    sub = lambda a: [x.replace("{d}", d) for x in a]
    obs = []

    def runs(args, bad, model=True):
        p = cli.run(sub(args), SENT.encode(), model=model, err=True)
        obs.append(dict(s=dict(kind="run", args=args), bad=bad, rc=p.returncode, out=len(p.stdout), err=len(p.stderr)))
    try:
        for a in BAD:
            runs(a, True, model=not any(x.startswith("--model") or "cfgmodel" in x for x in a))
        runs([], True, model=False)
        for a in GOOD:
            runs(a, False)
        # errors in the default files
        for fn in (user, inst):
            for t, bad in (("--bem=3\n", True), ("--beam=x\n", True), ("--segment\n", False), ("\n  --segment", False), ("--format=zz", True)):
                put(fn, t)
                runs(["--beam=2"], bad)
            os.unlink(fn)
        # layers
        rnd = random.Random(ck.seed)
        keys = {"beam": ["1", "2", "7"], "global-beam": ["0", "2", "6"], "right-beam": ["1", "5"], "right-check": ["1", "3"],
                "type": ["--juman", "--morph", "--full-morph", "--segment", "--lattice=1", "--lattice=3", "--dic-subset", "--format=juman"],
                "segment-separator": ["/", "--", "_"]}

        def pick():
            return {k: rnd.choice(v) for k, v in keys.items() if rnd.random() < .6}

        def text(m):
            return [v if k == "type" else "--%s=%s" % (k, v) for k, v in m.items()]
        for i in range(60 if ck.thorough else 24):
            where = rnd.choice(["named", "user", "inst", "both"])
            low, top = pick(), pick()
            body = "\n".join(text(low)) + "\n"
            # the model is next to the file, and named there
            if rnd.random() < .3 and where == "named":
                body += "--model=%s\n" % os.path.basename(cli.model)
                mod = False
            else:
                mod = True
            args = text(top)
            if where == "named":
                put(d + "/cfg/layer.cfg", body)
                shutil.copy(cli.model, d + "/cfg/" + os.path.basename(cli.model))
                args.insert(rnd.randint(0, len(args)), "--config=" + d + "/cfg/layer.cfg")
            elif where == "user":
                put(user, body)
            else:
                put(inst, body)
                if where == "both":
                    put(user, "--segment\n--beam=1\n--bem=3\n")
            to = rnd.random() < .3
            if to:
                args += ["-o", d + "/out.txt"]
            p = cli.run(args, SENT.encode(), model=mod)
            o1 = open(d + "/out.txt", "rb").read() if to and os.path.exists(d + "/out.txt") else p.stdout
            for fn in (user, inst):
                if os.path.exists(fn):
                    os.unlink(fn)
            both = dict(low, **top)
            # a list of N paths in the file does not show in another format, but makes the beam larger
            flat = text(both)
            if low.get("type", "").startswith("--lattice") and not both["type"].startswith("--lattice"):
                n = int(low["type"].split("=")[1])
                flat = [x for x in flat if not x.startswith("--beam")] + ["--beam=%d" % max(n, int(both.get("beam", 5)))]
            q = cli.run(flat, SENT.encode())
            sha = lambda b: hashlib.sha256(b).hexdigest()
            obs.append(dict(s=dict(kind="same", where=where, low=text(low), top=text(top)), rc=p.returncode, rc2=q.returncode, out1=sha(o1), out2=sha(q.stdout)))
    finally:
        for fn in (user, inst):
            if os.path.exists(fn):
                os.unlink(fn)
    ck.validate_cases("program", "T_Options", cases=obs, note="%d runs of the program" % len(obs))


def run(ck):
    r = vp.model_check("MC_Options", """SPECIFICATION Spec
CONSTANTS MaxItems = %d
INVARIANTS Independent First Enough Keeps
""" % (3 if ck.thorough else 2))
    ck.model("MC_Options", r, "two layers of up to %d items" % (3 if ck.thorough else 2))
    vp.build(["vh_jumandic", "jumanpp_v2"])
    d = ck.path("dir")
    os.makedirs(d, exist_ok=True)
    f, out = ck.path("job"), ck.path("obs.ndjson")
    n = 20000 if ck.thorough else 3000
    gen_args.job(f, d, ck.seed, n)
    vp.harness("vh_jumandic", ["jargs", f, out], timeout=600)
    ck.validate_cases("options", "T_Options", file=out, note="%d sets of options" % n)
    program(ck)
