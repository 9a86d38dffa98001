#vf:note The publisher and workflow/__init__.py run on up to four runs with any date, index below 100, time, and absent or present files, listed in any order, and up to two records (four in histories) of any kind: full or delta, any parent, attached or not. Remote Settings and the bucket are models. Outside: records no version of the publisher writes (a delta on top of a later run, file names of another form).
import sys
import types
import vfpy as vf
import remote

COLL = "cert-revocations"
DAY = 86400


class Run:
    pass


def slugs(main):
    return {c.slug: c for c in main.CHANNELS}


def make_runs(w, n, *, last_complete=None, ordered=True, flaws=True, maxidx=100, name="run"):
    """n runs with increasing identifiers, their files in the bucket or not"""
    runs = []
    date = None
    for i in range(n):
        r = Run()
        r.date = vf.integer(name + " date", 20250101, 20251231)
        r.idx, it = vf.decimal(name + " index", maxidx)
        r.id = vf.digits(r.date, 8) + "-" + it
        r.ts = vf.integer(name + " time", 1735689600, 1767225599)
        for q in runs[-1:]:
            vf.assume(vf.Or(q.date < r.date, vf.And(q.date == r.date, q.idx < r.idx)))
            if ordered:
                vf.assume(q.ts < r.ts)
        r.completed = vf.boolean(name + " completed") if flaws else True
        r.flt = vf.boolean(name + " filter") if flaws else True
        r.delta = vf.boolean(name + " delta") if flaws else True
        r.ctlogs = vf.boolean(name + " ctlogs") if flaws else True
        runs.append(r)
    return runs


def upload(w, main, r, wait=0):
    """the files of run r; `completed` appears after `wait` seconds"""
    b = "crlite_filters"
    w.dirs.append((b, r.id))
    for d in {c.dir for c in main.CHANNELS}:
        w.put(b, r.id + f"/{d}/filter", content(f"filter:{d}:", r), r.flt)
        w.put(b, r.id + f"/{d}/filter.delta", content(f"delta:{d}:", r), r.delta)
    w.put(b, r.id + "/ct-logs.json", b"{}", r.ctlogs)
    w.put(b, r.id + "/timestamp", stamp(r.ts), getattr(r, "stamped", True))
    done = r.completed
    w.put(b, r.id + "/completed", b"", (lambda: vf.And(done, vf.clock().slept >= wait)) if wait != 0 else done)


class Content:
    """the bytes of a run's file"""


def content(kind, r):
    if vf.symbolic():
        return vf.SBytes(vf.W(kind + r.id))
    return (kind + r.id).encode()


def stamp(ts):
    t = vf.instant(ts)
    return vf.SBytes(t) if vf.symbolic() else t.encode()


def record(w, main, ch, r, full, parent=None, attached=True, id=None):
    """a record as the publisher writes it"""
    name = iso(r.ts) + ("Z-full" if full else "Z-diff")
    rec = {"details": {"name": name}, "incremental": not full, "effectiveTimestamp": r.ts * 1000,
           "id": id or w.newid(), "channel": ch.slug, "filter_expression": expression(ch), "last_modified": 1,
           "__permissions": {"read": ["system.Everyone"]}}
    if full:
        rec["coverage"] = []
        rec["enrolledIssuers"] = []
    else:
        rec["parent"] = parent
    if attached:
        rec["attachment"] = {"filename": r.id + "-" + ch.slug + (".filter" if full else ".filter.delta"),
                             "content": content(("filter:" if full else "delta:") + ch.dir + ":", r), "mimetype": ch.mimetype,
                             "location": "a/x", "hash": "0" * 64, "size": 0}
    rec["__run"] = r
    return rec


def iso(ts):
    t = vf.aware(ts)
    return t.isoformat(timespec="seconds")


def expression(ch):
    return f"env.version|versionCompare('{ch.supported_version}.!') >= 0 && '{ch.slug}' == 'security.pki.crlite_channel'|preferenceValue('none')"


def args(noop=False):
    return types.SimpleNamespace(noop=noop, download_path=vf.path_of("dl"), filter_bucket="crlite_filters")


def of(w, ch):
    return [r for r in w.records(COLL) if r.get("channel", "default") == ch.slug]


def ids(rs):
    return [r["id"] for r in rs]


def same_list(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def order(main, rs, when):
    """the records as a chain from the full filter, or None; asserts nothing"""
    if any("attachment" not in r or ("parent" not in r and r["incremental"]) for r in rs):
        return None
    fulls = [r for r in rs if not r["incremental"]]
    if len(fulls) != 1:
        return None
    out = [fulls[0]]
    rest = [r for r in rs if r["incremental"]]
    while rest:
        nxt = [r for r in rest if remote.same(r["parent"], out[-1]["id"])]
        if len(nxt) != 1:
            return None
        out.append(nxt[0])
        rest = [r for r in rest if r is not nxt[0]]
    return out


def run_of(rec, runs):
    """the run whose identifier the record's file name bears"""
    fn = rec["attachment"]["filename"]
    for r in runs:
        for suffix in (".filter", ".filter.delta"):
            if remote.same(fn, r.id + "-" + rec["channel"] + suffix):
                return r
    for r in runs:
        if fn.startswith(r.id + "-"):
            return r
    return None


def check_new(main, ch, rec, r, full, parent):
    vf.check(remote.same(rec["attachment"]["filename"], r.id + "-" + ch.slug + (".filter" if full else "." + ch.delta_filename)),
             "the attachment is named after its run and channel")
    vf.check(rec["attachment"]["content"] == content(("filter:" if full else "delta:") + ch.dir + ":", r),
             "the attachment is the file of its run and channel")
    vf.check(rec["attachment"]["mimetype"] == ch.mimetype, "the attachment has the channel's type")
    vf.check(rec["details"]["name"] == iso(r.ts) + ("Z-full" if full else "Z-diff"), "the record is named after the run's time")
    vf.check(rec["effectiveTimestamp"] == r.ts * 1000, "the record takes effect at the run's time")
    vf.check(rec["channel"] == ch.slug, "the record belongs to the channel")
    vf.check(rec["filter_expression"] == expression(ch), "the record is meant for clients that chose the channel")
    vf.check(rec.get("__permissions") == {"read": ["system.Everyone"]}, "everyone may read the record")
    if not full:
        vf.check(remote.same(rec["parent"], parent["id"]), "a delta's parent is the record before it")
    rec["__run"] = r


def fits(main, ch, before, runs):
    """the records are a chain the runs can be put on top of"""
    chain = order(main, before, "before")
    if not chain or any("__run" not in r for r in chain):
        return False
    old = [r["__run"] for r in chain]
    if any(not any(a is b for b in runs) for a in old):
        return False
    cs = [vf.And(later(b, a), a.ts < b.ts) for a, b in zip(old, old[1:])]
    due = [r for r in runs if later(r, old[-1])]
    cs += [a.ts <= b.ts for a, b in zip([old[-1]] + due, due)]
    cs += [vf.And(r.completed, r.delta, r.flt, r.ctlogs) for r in due]
    cs.append(runs[-1].ts - old[0].ts < ch.max_filter_age_days * DAY)
    return vf.And(*cs)


def verify(w, main, ch, runs, before, how):
    """after a run without failures whose most recent run was ready"""
    rs = of(w, ch)
    newest = runs[-1]
    chain = order(main, rs, how)
    vf.check(chain is not None, "the channel is one full filter and a chain of deltas, all attached")
    head = chain[-1]
    vf.check(remote.same(head["attachment"]["filename"].rsplit("-", 1)[0], newest.id), "the chain ends at the most recent run")
    old = [r for r in chain if any(r is b for b in before)]
    new = [r for r in chain if not any(r is b for b in before)]
    kept = same_list(chain[:len(old)], old)
    vf.check(kept, "new deltas come after the old records")
    if old:
        vf.check(len(old) == len([b for b in before if b.get("channel", "default") == ch.slug]), "old records are kept all or not at all")
    prev = old[-1] if old else None
    if not old:
        vf.check(vf.Not(fits(main, ch, [b for b in before if b.get("channel", "default") == ch.slug], runs)),
                 "a channel is replaced only if something does not fit together")
        vf.check(len(new) == 1 and not new[0]["incremental"], "a full filter starts a new chain")
        check_new(main, ch, new[0], newest, True, None)
    else:
        last = old[-1]["__run"]
        due = [r for r in runs if later(r, last)]
        vf.check(len(new) == len(due), "there is a delta for every run since the last update")
        for rec, r in zip(new, due):
            check_new(main, ch, rec, r, False, prev)
            prev = rec
            vf.check(vf.And(r.completed, r.delta, r.flt, r.ctlogs), "only complete runs are published")
    vf.check(newest.completed, "only a completed run is published")
    if len(chain) > 1:
        first = chain[0]["__run"]
        vf.check(newest.ts - first.ts < ch.max_filter_age_days * DAY, "a full filter that is too old is replaced")
    for a, b in zip(chain, chain[1:]):
        vf.check(a["effectiveTimestamp"] <= b["effectiveTimestamp"], "the updates of a chain are in the order of time")
    return chain


def chan(main, k=2):
    cs = [c for c in main.CHANNELS if c.enabled][:k]
    return cs[vf.choose("channel", len(cs))]


def setup(ch_other=True):
    main = remote.load()
    w = remote.World()
    w.status[COLL] = "signed"
    return main, w


def VF_C35_records():
    """any records, any runs"""
    main, w = setup()
    ch = chan(main, 1)
    n = 1 + vf.choose("runs", 2)
    runs = make_runs(w, n, maxidx=100)
    for r in (reversed(runs) if vf.tier() == "quick" or vf.choose("listing", 2) else runs):
        upload(w, main, r)
    lost = make_runs(w, 1, name="lost")[0]
    for r in runs:
        vf.assume(vf.Or(vf.Not(r.date == lost.date), vf.Not(r.idx == lost.idx)))
    k = vf.choose("records", 3)
    idl = [w.newid() for _ in range(k)]
    for i in range(k):
        c = vf.choose("record of", n + 1)
        r = (runs + [lost])[c]
        full = bool(vf.choose("record full", 2))
        parent = (idl + [vf.opaque(77)])[vf.choose("parent", k + 1)] if not full else None
        w.records(COLL).append(record(w, main, ch, r, full, parent, bool(vf.choose("attached", 2)), idl[i]))
    chain = order(main, w.records(COLL), "before") or []
    for a, b in zip(chain, chain[1:]):
        # the publisher never publishes an earlier run on top of a later one
        a, b = a["__run"], b["__run"]
        vf.assume(vf.And(later(b, a), b.ts > a.ts))
    go(main, w, ch, runs)


def later(a, b):
    return vf.Or(a.date > b.date, vf.And(a.date == b.date, a.idx > b.idx))


def go(main, w, ch, runs, noop=False, wait=0, faulty=False):
    """one run of the publisher and what must hold after it"""
    before = list(w.records(COLL))
    reviews = []
    w.on_review = lambda c: reviews.append((c, list(w.records(c))))
    how, rv = vf.run(main.publish_crlite, args=args(noop), rw_client=remote.client(main), channel=ch)
    after = w.records(COLL)
    vf.observe("outcome", [how, rv if how == "ok" else type(rv).__name__])
    vf.observe("after", [[r["details"]["name"], r.get("attachment", {}).get("filename"), r["channel"]] for r in after])
    vf.observe("reviews", len(reviews))
    same = same_list(before, after)
    others = [r for r in before if r.get("channel", "default") != ch.slug]
    vf.check(same_list(others, [r for r in after if r.get("channel", "default") != ch.slug]), "other channels are left alone")
    newest = runs[-1] if runs else None
    if how == "raised":
        vf.check(not reviews, "a failed run asks for no review")
        if w.failed is None:
            vf.check(newest is not None and not newest.flt, "a run whose files are there is published")
            vf.check(same, "what cannot be replaced is not removed")
        return how
    if newest is None or not newest.completed or (wait > 300):
        vf.check(same and not reviews, "nothing is published before the most recent run is complete")
        return how
    if noop:
        vf.check(same and not reviews, "a dry run changes nothing")
        return how
    vf.check(vf.clock().slept >= wait, "nothing is published before the most recent run is complete")
    for c, rs in reviews:
        vf.check(c == COLL and same_list(rs, after), "the review is asked for when the collection is as it shall be")
    vf.check(len(reviews) == (0 if same else 1), "a review is asked for exactly when something changed")
    verify(w, main, ch, runs, before, "after")
    return how


def chain_of(w, main, ch, rs):
    """records of a full filter and deltas for the given runs"""
    prev = None
    for i, r in enumerate(rs):
        rec = record(w, main, ch, r, i == 0, prev and prev["id"])
        w.records(COLL).append(rec)
        prev = rec


def VF_C35_shape():
    """three records (thorough: four) of runs in order, with any parents"""
    main, w = setup()
    ch = chan(main, 1)
    k = 3 if vf.tier() == "quick" else 4
    runs = make_runs(w, k + 1, flaws=False, maxidx=10)
    for r in runs:
        upload(w, main, r)
    idl = [w.newid() for _ in range(k)]
    for i in range(k):
        full = vf.choose("record full", 2)
        parent = (idl + [vf.opaque(77)])[vf.choose("parent", k + 1)] if not full else None
        w.records(COLL).append(record(w, main, ch, runs[i], full, parent, True, idl[i]))
    chain = order(main, w.records(COLL), "before") or []
    for a, b in zip(chain, chain[1:]):
        vf.assume(later(b["__run"], a["__run"]))
    how = go(main, w, ch, runs)
    vf.check(how == "ok", "the publisher does its job")


def VF_C35_order():
    """published runs and new ones whose times need not be in order; a wrong listing order"""
    main, w = setup()
    ch = chan(main)
    old, new = 1 + vf.choose("published", 2), vf.choose("new", 3)
    runs = make_runs(w, old + new, ordered=False, flaws=False)
    for a, b in zip(runs[:old], runs[1:old]):
        vf.assume(a.ts < b.ts)
    listing = list(runs)
    if vf.choose("listing", 2):
        listing.reverse()
    for r in listing:
        upload(w, main, r)
    w.dirs.append(("crlite_filters", "other"))
    w.dirs.append(("elsewhere", "20991231-0"))
    chain_of(w, main, ch, runs[:old])
    go(main, w, ch, runs)


def VF_C35_history():
    """the publisher run after run on what it left itself, two channels; runs are added, incomplete, or lost"""
    main, w = setup()
    cs = [c for c in main.CHANNELS if c.enabled][:2]
    rounds = 3 if vf.tier() == "quick" else 4
    runs = make_runs(w, rounds + 1, flaws=False, maxidx=10)
    have = 0
    for i in range(rounds):
        lose = i == rounds - 1 and vf.flag("older runs are lost")
        n = vf.choose("new runs", 3 if i == 1 else 2)
        n = min(n, len(runs) - have)
        for r in runs[have:have + n]:
            r.completed = True if i == 0 else vf.boolean("completed")
            r.delta = vf.boolean("delta")
        have += n
        w.objects, w.dirs = [], []
        for r in runs[:have]:
            if lose and r is not runs[have - 1]:
                r.gone = True
            if not getattr(r, "gone", False):
                upload(w, main, r)
        present = [r for r in runs[:have] if not getattr(r, "gone", False)]
        for ch in cs:
            how = go(main, w, ch, present, noop=(i == 1 and vf.flag("dry run")))
            vf.check(how == "ok", "the publisher does its job")


def VF_C35_faults():
    """a request fails at any point; the next run puts things right"""
    main, w = setup()
    ch, other = [c for c in main.CHANNELS if c.enabled][:2]
    old = vf.choose("published", 3)
    new = 1 + vf.choose("new", 2)
    runs = make_runs(w, old + new, flaws=False, maxidx=10)
    for r in runs:
        upload(w, main, r)
    if vf.flag("a run has no delta"):
        runs[-1].delta = False
        w.objects, w.dirs = [], []
        for r in runs:
            upload(w, main, r)
    chain_of(w, main, other, runs[:1])
    chain_of(w, main, ch, runs[:old])
    w.fail_at = vf.integer("failing request", 0, 400)
    w.fail_kind = "kinto" if vf.flag("an error from the server") else "reset"
    how = go(main, w, ch, runs)
    if w.failed is None:
        vf.check(how == "ok", "without a failure the publisher does its job")
        return
    vf.observe("failed", w.failed)
    vf.check(how == "raised", "a failure is reported")
    for r in of(w, ch):
        if "__run" not in r:
            for q in runs:
                if remote.same(r["details"]["name"][:25], iso(q.ts)) or bool(r["details"]["name"][:25] == iso(q.ts)):
                    r["__run"] = q
    how = go(main, w, ch, runs)
    vf.check(how == "ok", "the run after a failed one puts things right")


def VF_C35_wait():
    """the most recent run is completed while the publisher waits, or later"""
    main, w = setup()
    ch = chan(main)
    runs = make_runs(w, 2, flaws=False)
    upload(w, main, runs[0])
    wait = vf.integer("completed after", 0, 900)
    upload(w, main, runs[1], wait)
    if vf.flag("published before"):
        chain_of(w, main, ch, runs[:1])
    how = go(main, w, ch, runs, wait=wait)
    vf.check(how == "ok", "waiting is no failure")


def VF_C35_empty():
    """no runs at all"""
    main, w = setup()
    ch = chan(main)
    n = vf.choose("published", 3)
    runs = make_runs(w, n, flaws=False)
    chain_of(w, main, ch, runs)
    if vf.flag("other directories"):
        w.dirs.append(("crlite_filters", "config"))
    how = go(main, w, ch, [])
    vf.check(how == "ok", "an empty bucket is no failure")


def VF_C35_main():
    """the whole program: enabled channels are published, records of disabled ones are removed"""
    main, w = setup()
    on = [c for c in main.CHANNELS if c.enabled]
    off = [c for c in main.CHANNELS if not c.enabled]
    fails = vf.flag("a request fails")
    n = 1 if fails and vf.tier() == "quick" else 1 + vf.choose("runs", 2)
    runs = make_runs(w, n, flaws=False, maxidx=10)
    for r in runs:
        upload(w, main, r)
        w.put("crlite_filters", r.id + "/enrolled.json", b"[]")
    for c in on:
        chain_of(w, main, c, runs[:vf.choose("published", n + 1)])
    for c in off:
        for i in range(vf.choose("records of an unused channel", 2 if fails else 3)):
            w.records(COLL).append(record(w, main, c, runs[0], i == 0 and vf.flag("full"), vf.opaque(5), vf.flag("attached")))
    noop = vf.flag("dry run")
    before = list(w.records(COLL))
    w.get["https://www.gstatic.com/ct/log_list/v3/log_list.json"] = remote.Response(200, js={"operators": []})
    if fails:
        w.fail_at = vf.integer("failing request", 0, 400)
    argv = sys.argv
    sys.argv = ["main.py", "--download-path", str(vf.path_of("dl"))] + (["--noop"] if noop else [])
    reviews = []
    w.on_review = lambda c: reviews.append((c, list(w.records(c))))
    try:
        how, rv = vf.run(main.main)
    finally:
        sys.argv = argv
    after = w.records(COLL)
    vf.observe("outcome", [how, type(rv).__name__])
    vf.observe("after", [[r["details"]["name"], r.get("attachment", {}).get("filename"), r["channel"]] for r in after])
    if noop:
        vf.check(same_list(before, after) and not reviews, "a dry run changes nothing")
        vf.check(how == "ok" or w.failed is not None, "without a failure the publisher does its job")
        return
    for c, rs in reviews:
        # whatever is offered for review is whole for at least the channel just published
        vf.check(c != COLL or any(order(main, [r for r in rs if r["channel"] == x.slug], "") for x in on), "a review offers a whole channel")
    if how == "raised":
        vf.check(w.failed is not None, "without a failure the publisher does its job")
        return
    for c in off:
        vf.check(not of(w, c), "records of channels no longer in use are removed")
    for c in on:
        verify(w, main, c, runs, before, "after")
