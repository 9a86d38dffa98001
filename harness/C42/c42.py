#vf:note The scripts run as programs: the allocation on up to three runs of any date within three days and index below 1000, listed in any order; the uploads on every subset of six files (real scratch files) with any request failing, once or lasting.
import sys
import vfpy as vf
import remote

B = "crlite_filters"
FILES = ["clubcard-all/filter", "clubcard-all/filter.delta", "clubcard-all/revset.bin", "clubcard-priority/filter", "clubcard-priority/filter.delta",
         "clubcard-priority/sub/more"]


def script(name, argv, **inject):
    """run a script of workflow/ as a program"""
    remote.stubs()
    sym = vf.symbolic()
    sys.modules["__init__"] = vf.load("workflow", vf.REPO + "/workflow/__init__.py", sym)
    real = inject.pop("realpaths", False)
    old = sys.argv
    sys.argv = [name] + argv
    try:
        return vf.run(vf.load, "__main__x", vf.REPO + "/workflow/" + name, sym, dict(inject, __name__="__main__"), real)
    finally:
        sys.argv = old


def VF_C42_allocate():
    """any runs of earlier days and of today, in any order"""
    w = remote.World()
    n = vf.choose("runs", 4)
    ids = []
    for i in range(n):
        date = vf.integer("date", 20251230, 20260101)
        idx, text = vf.decimal("index", 1000)
        for d, x, _ in ids:
            vf.assume(vf.Or(vf.Not(d == date), vf.Not(x == idx)))
        ids.append((date, idx, vf.digits(date, 8) + "-" + text))
        w.dirs.append((B, ids[-1][2]))
    if vf.flag("other directories"):
        w.dirs.append((B, "latest"))
        w.dirs.append(("other", "20260101-999"))
    printed = []
    base = vf.path_of("processing")
    if not vf.symbolic():
        base.mkdir()
    how, rv = script("0-allocate_identifier", ["--path", str(base) if not vf.symbolic() else base.text(), "--filter-bucket", B], print=lambda *a: printed.append(a[0]))
    vf.observe("outcome", [how, type(rv).__name__ if how != "ok" else ""])
    vf.check(how == "ok" and len(printed) == 1, "a run identifier is allocated")
    path = printed[0]
    name = path.name
    vf.observe("identifier", name)
    parts = name.split("-")
    vf.check(len(parts) == 2 and parts[0] == "20260101", "the identifier begins with today's date")
    idx = (vf.VInt if vf.symbolic() else int)(parts[1])
    for d, x, t in ids:
        vf.check(vf.Or(d < 20260101, x < idx), "the new identifier is later than every run of the bucket")
    vf.check((path / "timestamp").read_text() == "2026-01-01T00:00:00", "the run's time is recorded")


def upload(name, w, d, noop):
    return script(name, [str(d), "--filter-bucket", B] + (["--noop"] if noop else []), realpaths=True)


def tree():
    d = vf.realdir() / "20260101-0"
    d.mkdir()
    return d


def put(d, f):
    p = d / f
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_bytes(b"content of " + f.encode())


def held(w, name):
    for b, n, c, _ in w.objects:
        if b == B and n == name:
            return c
    return None


def fail(w):
    w.fail_at = vf.integer("failing request", -1, 100)
    w.fail_kind = "outage" if vf.flag("an outage") else "once"


def VF_C42_complete():
    """the filters of a run are uploaded, a request fails"""
    w = remote.World()
    d = tree()
    have = []
    for f in FILES:
        if vf.flag("file"):
            put(d, f)
            have.append(f)
    noop = vf.flag("dry run")
    fail(w)
    ok = []

    def on(name):
        if name == d.name + "/completed":
            ok.append(all(held(w, f"{d.name}/{f}") == b"content of " + f.encode() for f in have))
    w.on_upload = on
    how, rv = upload("3-upload_mlbf_to_storage", w, d, noop)
    vf.observe("outcome", how)
    vf.observe("objects", sorted(n for _, n, _, _ in w.objects))
    for x in ok:
        vf.check(x, "a run is marked complete only when all its files are in the bucket")
        vf.check("clubcard-all/filter" in have, "a run without a filter is never marked complete")
    if noop:
        vf.check(not w.objects, "a dry run uploads nothing")
        return
    if "clubcard-all/filter" not in have:
        vf.check(how != "ok" and not w.objects, "a run without a filter is refused")
        return
    if how == "ok":
        vf.check(len(ok) == 1, "an upload that succeeds marks the run complete")
        for f in have:
            vf.check(held(w, f"{d.name}/{f}") == b"content of " + f.encode(), "an upload that succeeds has uploaded every file")
            if f.startswith("clubcard-all/"):
                vf.check(held(w, "latest/" + f[13:]) == b"content of " + f.encode(), "the latest filter is kept for the next run")
    else:
        vf.check(w.failed is not None, "without a failure everything is uploaded")


def VF_C42_data():
    """the data of a run are uploaded, a request fails"""
    w = remote.World()
    d = tree()
    have = []
    for f in ["timestamp", "enrolled.json", "ct-logs.json", "known/a", "revoked/b", "log/x/y"]:
        if vf.flag("file"):
            put(d, f)
            have.append(f)
    if vf.flag("a link"):
        (d / "link").symlink_to("/etc/hostname")
    noop = vf.flag("dry run")
    fail(w)
    how, rv = upload("1-upload_data_to_storage", w, d, noop)
    vf.observe("outcome", how)
    vf.observe("objects", sorted(n for _, n, _, _ in w.objects))
    vf.check(held(w, d.name + "/completed") is None, "data alone do not make a run complete")
    vf.check(held(w, d.name + "/link") is None, "links are not followed")
    if noop:
        vf.check(not w.objects, "a dry run uploads nothing")
    elif how == "ok":
        for f in have:
            vf.check(held(w, f"{d.name}/{f}") == b"content of " + f.encode(), "an upload that succeeds has uploaded every file")
    else:
        vf.check(w.failed is not None, "without a failure everything is uploaded")
