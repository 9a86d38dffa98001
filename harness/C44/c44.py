#vf:note The scripts of workflow/ and the publisher run as programs, one run after another, on one bucket and one collection, with a request or the generator failing at a symbolic point of each run. The generator (Rust) is a model: a filter covers its run; a delta covers what came after the revocation set it was given, or everything without one.
import datetime
import os
import sys
import tempfile
import types
import vfpy as vf
import remote

B = "crlite_filters"
COLL = "cert-revocations"


def script(name, argv, **inject):
    """run a script of workflow/ as a program, on real files"""
    remote.stubs()
    sym = vf.symbolic()
    sys.modules["__init__"] = vf.load("workflow", vf.REPO + "/workflow/__init__.py", sym, None, True)
    old, tmp, sub = sys.argv, tempfile.tempdir, sys.modules.get("subprocess")
    cred = os.environ.get("GOOGLE_APPLICATION_CREDENTIALS")
    sys.argv = [name] + argv
    tempfile.tempdir = str(vf.realdir())
    os.environ["GOOGLE_APPLICATION_CREDENTIALS"] = "x"
    sys.modules["subprocess"] = types.SimpleNamespace(run=generate, check_call=lambda c, **k: generate(c, check=True), CalledProcessError=Failed)
    try:
        return vf.run(vf.load, "__main__x", vf.REPO + "/workflow/" + name, sym, dict(inject, __name__="__main__"), True)
    finally:
        sys.argv, tempfile.tempdir = old, tmp
        sys.modules.pop("subprocess")
        if sub is not None:
            sys.modules["subprocess"] = sub
        if cred is None:
            os.environ.pop("GOOGLE_APPLICATION_CREDENTIALS")


class Failed(Exception):
    "subprocess.CalledProcessError"


def generate(cmd, check=False, **k):
    """the generator: what it writes says which run it is of, and relative to what"""
    cmd = [str(c) for c in cmd]
    opt = {cmd[i]: cmd[i + 1] for i in range(1, len(cmd) - 1) if cmd[i].startswith("--")}
    out = opt["--outdir"]
    os.makedirs(out, exist_ok=True)
    number = os.path.basename(os.path.dirname(opt["--known"]))
    if os.path.dirname(opt["--known"]) != os.path.dirname(opt["--revoked"]) or os.path.dirname(opt["--known"]) != os.path.dirname(opt["--ct-logs-json"]):
        raise Failed("data of different runs")
    base = ""
    if "--prev-revset" in opt:
        with open(opt["--prev-revset"]) as f:
            base = f.read()
        if not base.startswith("revset ") or not base.endswith("."):
            base = ""      # not a revocation set: the generator goes without
        else:
            base = base[7:-1]
    reasons, dreasons = opt.get("--reason-set", "all"), opt.get("--delta-reason-set", opt.get("--reason-set", "all"))
    kind = opt.get("--filter-type", "cascade")
    W = remote.W
    files = {"filter": f"{kind} {reasons} {number}", "revset.bin": f"revset {number}.", "filter.delta": f"{kind} {dreasons} {base}+{number}"}
    for n, c in files.items():
        if W.op("generate"):
            if check:
                raise Failed("the generator failed")
            return types.SimpleNamespace(returncode=1)
        with open(os.path.join(out, n), "w") as f:
            f.write(c)
    return types.SimpleNamespace(returncode=0)


def pipeline(w, base, upto=9):
    """one run of crlite-generate.sh; it stops at the first command that fails"""
    printed = []
    base.mkdir()
    how, rv = script("0-allocate_identifier", ["--path", str(base), "--filter-bucket", B], print=lambda *a: printed.append(str(a[0])))
    if how != "ok":
        return None, how
    d = printed[0]
    for n in ("enrolled.json", "ct-logs.json"):
        with open(os.path.join(d, n), "w") as f:
            f.write("{}")
    for cmd in (["1-upload_data_to_storage", d, "--filter-bucket", B],
                ["2-generate_mlbf", d, "--filter-bucket", B, "--statsd-host", "h", "--reason-set", "all", "--filter-type", "clubcard"],
                ["2-generate_mlbf", d, "--filter-bucket", B, "--statsd-host", "h", "--reason-set", "priority", "--filter-type", "clubcard"],
                ["3-upload_mlbf_to_storage", d, "--filter-bucket", B]):
        how, rv = script(cmd[0], cmd[1:])
        if how != "ok":
            return os.path.basename(d), how
    return os.path.basename(d), "ok"


def covered(rs, runs, what):
    """the number of the last run a client knows everything about after fetching the channel: its full filter, then the deltas of the chain"""
    full = [r for r in rs if not r["incremental"]]
    if len(full) != 1 or "attachment" not in full[0]:
        return None
    kind, reasons, number = text(full[0]).split(" ")
    vf.check((kind, reasons) == what, "the channel carries filters of its kind")
    at = runs.index(number)
    cur, left = full[0], [r for r in rs if r["incremental"]]
    while left:
        nxt = [r for r in left if remote.same(r["parent"], cur["id"])]
        if len(nxt) != 1 or "attachment" not in nxt[0]:
            return None
        cur = nxt[0]
        left.remove(cur)
        kind, reasons, change = text(cur).split(" ")
        vf.check((kind, reasons) == what, "the channel carries filters of its kind")
        base, number = change.split("+")
        vf.check(base == "" or runs.index(base) <= at, "a delta says everything that happened since the update before it")
        at = max(at, runs.index(number))
    return at


def text(rec):
    c = rec["attachment"]["content"]
    return (c if isinstance(c, bytes) else bytes(c)).decode()


def VF_C44_runs():
    """generation, upload and publication, run after run"""
    main = remote.load()
    w = remote.World()
    w.status[COLL] = "signed"
    names = []      # of the runs, in order

    def seen(n):
        d = n.split("/")[0]
        if (B, d) not in w.dirs:
            w.dirs.append((B, d))
    w.on_upload = seen
    cs = [c for c in main.CHANNELS if c.enabled]
    kinds = {"clubcard-all": ("clubcard", "all"), "clubcard-priority": ("clubcard", "priority")}
    rounds = 3 if vf.tier() == "quick" else 4
    last = {c.slug: -1 for c in cs}
    for i in range(rounds):
        w.fail_at, w.ops, w.failed = -1, 0, None
        if i > 0:
            w.fail_at = vf.integer("failing operation", -1, 60)
            w.fail_kind = "outage" if vf.flag("an outage") else "once"
        name, how = pipeline(w, vf.realdir() / f"p{i}")
        vf.observe("run", [name, how])
        vf.check(how == "ok" or w.failed is not None, "without a failure a run is generated and stored")
        if name is not None and name not in names:
            names.append(name)
        vf.clock().now += datetime.timedelta(hours=6 if i == 0 else 24)
        w.fail_at, w.failed, w.fail_kind = -1, None, "once"
        stored = w.exists(B, f"{name}/completed") if name else False
        if i < rounds - 1 and not vf.flag("published"):
            continue
        for c in cs:
            args = types.SimpleNamespace(noop=False, download_path=vf.path_of(f"dl{i}"), filter_bucket=B)
            if not vf.symbolic():
                args.download_path.mkdir(exist_ok=True)
            before = list(w.records(COLL))
            client = main.PublisherClient(server_url="https://x/v1/", auth=None, bucket="b", retry=5)
            phow, rv = vf.run(main.publish_crlite, args=args, rw_client=client, channel=c)
            vf.observe("published", [phow, type(rv).__name__ if phow != "ok" else ""])
            vf.check(phow == "ok", "without a failure the publisher does its job")
            rs = [r for r in w.records(COLL) if r["channel"] == c.slug]
            if not rs:
                vf.check(last[c.slug] < 0 and not stored, "a stored run is published")
                continue
            at = covered(rs, names, kinds[c.dir])
            vf.observe("covered", at)
            vf.check(at is not None, "the channel is a full filter and a chain of deltas")
            vf.check(at >= last[c.slug], "a client never goes back to an earlier run")
            vf.check(not stored or names[at] == name, "a client that fetched the channel knows about every change up to the last run")
            last[c.slug] = at


def VF_C44_options():
    """one call of the generator's script with any options"""
    w = remote.World()
    pick = lambda what, xs: xs[vf.choose(what, len(xs))]
    reasons = pick("reasons", [None, "all", "specified", "priority"])
    dreasons = pick("reasons of the delta", [None, "all", "specified", "priority"])
    kind = pick("kind", [None, "cascade", "clubcard"])
    stored = vf.flag("a set is stored")
    if stored:
        w.put(B, "latest/revset.bin", b"revset 20260101-0.")
    w.fail_at = vf.integer("failing operation", -1, 8)
    w.fail_kind = "outage" if vf.flag("an outage") else "once"
    d = vf.realdir() / "20260102-0"
    d.mkdir()
    argv = [str(d), "--filter-bucket", B]
    for o, v in (("--reason-set", reasons), ("--delta-reason-set", dreasons), ("--filter-type", kind)):
        argv += [o, v] if v else []
    how, rv = script("2-generate_mlbf", argv)
    reasons = reasons or "all"
    dreasons, kind = dreasons or reasons, kind or "cascade"
    out = d / (f"clubcard-{reasons}" if kind == "clubcard" else "mlbf" if reasons == "all" else f"mlbf-{reasons}")
    got = {n: (out / n).read_text() for n in ("filter", "filter.delta", "revset.bin") if (out / n).exists()}
    vf.observe("outcome", how)
    vf.observe("files", sorted(str(p.relative_to(d)) for p in d.rglob("*") if p.is_file()))
    vf.check(how == "ok" or w.failed is not None, "without a failure a run is generated and stored")
    if how == "ok":
        vf.check(w.failed != "generate", "a failure of the generator is reported")
        vf.check(len(got) == 3, "the files are where the upload looks for them")
        vf.check(got["filter"] == f"{kind} {reasons} 20260102-0", "the filter has the kind and reasons it was asked for")
        base = "20260101-0" if stored and w.failed is None else ""
        vf.check(got["filter.delta"] in (f"{kind} {dreasons} {base}+20260102-0", f"{kind} {dreasons} +20260102-0") and
                 (w.failed is not None or got["filter.delta"].split(" ")[2] == f"{base}+20260102-0"),
                 "the delta is relative to the set that was stored, if there was one")
