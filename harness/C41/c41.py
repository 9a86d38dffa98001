#vf:note Lists and collections of up to two logs (thorough: three) of two operators whose texts and delays are symbolic, in every state, tiled or not, with one field that has changed since; log identifiers are real hashes.
import base64
import hashlib
import types
import vfpy as vf
import remote

COLL = "ct-logs"
URL = "https://www.gstatic.com/ct/log_list/v3/log_list.json"
STATES = ["usable", "qualified", "readonly", "retired", "pending", "rejected"]
ADMISSIBLE = {"usable", "qualified", "readonly", "retired"}
FIELDS = ["description", "key", "url", "mmd", "admissible", "operator", "tiled"]


def key(n):
    return base64.b64encode(b"key%d" % n).decode()


def logid(n):
    return base64.b64encode(hashlib.sha256(b"key%d" % n).digest()).decode()


def world():
    main = remote.load()
    w = remote.World()
    w.status[COLL] = "signed"
    return main, w


def upstream(w, n, listed, bad=0):
    """the list as Google publishes it -> {log id: fields the collection shall have}"""
    ops = [{"name": vf.opaque(vf.integer("operator", 0, 9)), "logs": [], "tiled_logs": []} for _ in range(2)]
    want = {}
    for i in range(n):
        if not listed[i]:
            continue
        op = ops[i % 2]
        tiled = vf.flag("tiled")
        st = STATES[vf.choose("state", len(STATES)) if i == 0 else 4 * vf.choose("state", 2)]
        l = {"description": vf.opaque(vf.integer("description", 0, 9)), "key": key(i), "log_id": logid(i), "mmd": vf.integer("mmd", 0, 10**6),
             "state": {st: {"timestamp": "2020-01-01T00:00:00Z"}}, "dns": "x"}
        u = vf.opaque(vf.integer("url", 0, 9))
        if tiled:
            l["submission_url"] = vf.opaque(55)
            l["monitoring_url"] = u
        else:
            l["url"] = u
        if bad == 1 and i == 0:
            l["log_id"] = logid(7)
        op["tiled_logs" if tiled else "logs"].append(l)
        if bad == 2 and i == 0:
            ops[1]["logs"].append(dict(l))
        want[l["log_id"]] = {"description": l["description"], "key": l["key"], "url": u, "mmd": l["mmd"], "admissible": st in ADMISSIBLE,
                             "operator": op["name"], "tiled": tiled}
    w.get[URL] = remote.Response(200, js={"version": "1", "operators": ops})
    return want


def known(w, i, want, like):
    """a record the publisher wrote earlier: like the current list, or with one field that has changed since"""
    w.fresh += 1
    r = {"id": f"r{w.fresh}", "last_modified": 1, "schema": 1, "logID": logid(i), "crlite_enrolled": vf.boolean("enrolled in CRLite")}
    cur = want.get(logid(i))
    if cur is None:
        cur = {"description": "d", "key": key(i), "url": "u", "mmd": 1, "admissible": True, "operator": "o", "tiled": False}
    r.update(cur)
    if like:
        f = vf.choose("changed field", len(FIELDS) + 1)
        if f == len(FIELDS):
            del r["tiled"]  # written before the field existed
        elif FIELDS[f] == "mmd":
            r["mmd"] = vf.integer("mmd", 0, 10**6)
        elif FIELDS[f] in ("admissible", "tiled"):
            r[FIELDS[f]] = vf.flag("then")
        elif FIELDS[f] == "key":
            pass
        else:
            r[FIELDS[f]] = vf.opaque(vf.integer(FIELDS[f], 0, 9))
    r["__was"] = True
    return r


def as_wanted(rs, want):
    if len(rs) != len(want):
        return False
    cs = []
    for r in rs:
        x = want.get(r["logID"])
        if x is None or sum(1 for q in rs if q["logID"] == r["logID"]) != 1:
            return False
        for f in FIELDS:
            if f not in r:
                return False
            cs.append(r[f] == x[f])
    return vf.And(*cs) if cs else True


def go(main, w, want, noop=False, bad=0):
    before = list(w.records(COLL))
    due = w.status.get(COLL) == "work-in-progress"
    enrolled = {r["logID"]: r["crlite_enrolled"] for r in before}
    reviews = []
    w.on_review = lambda c: reviews.append((c, as_wanted(w.records(COLL), want)))
    writes = []
    base = w.touch
    w.touch = lambda c: (writes.append(c), base(c))[1]
    how, rv = vf.run(main.publish_ctlogs, args=types.SimpleNamespace(noop=noop), rw_client=remote.client(main))
    w.touch = base
    after = w.records(COLL)
    vf.observe("outcome", [how, type(rv).__name__])
    vf.observe("after", sorted([[r["logID"], r["crlite_enrolled"]] + [r.get(f) for f in FIELDS] for r in after], key=lambda x: x[0]))
    vf.observe("reviews", len(reviews))
    for r in after:
        if r["logID"] in enrolled:
            vf.check(r["crlite_enrolled"] == enrolled[r["logID"]], "whether a log is enrolled in CRLite is left to the reviewers")
    for l in enrolled:
        if l in want:
            vf.check(any(r["logID"] == l for r in after), "a log on Google's list is never removed")
    if noop:
        vf.check(not writes and not reviews, "a dry run changes nothing")
        return how
    if bad:
        vf.check(how == "raised" and not writes and not reviews, "a list with wrong or repeated log IDs is refused")
        return how
    if w.failed is None:
        vf.check(how == "ok", "without a failure the publisher does its job")
    if how == "raised":
        vf.check(not reviews, "a failed run asks for no review")
        return how
    if w.failed is None:
        vf.check(as_wanted(after, want), "the collection mirrors Google's list")
        for r in after:
            if "__was" not in r:
                vf.check(r["logID"] in enrolled or r.get("__permissions") == {"read": ["system.Everyone"]}, "everyone may read the record")
        for c, x in reviews:
            vf.check(vf.And(c == COLL, x), "the review is asked for when the collection is as it shall be")
        vf.check(len(reviews) == (1 if writes or due else 0), "a review is asked for exactly when something changed")
    return how


def state(main, w, n, most, bad=0, full=None):
    listed = [vf.flag("listed") for _ in range(n)]
    want = upstream(w, n, listed, bad)
    k = 0
    for i in range(n):
        if vf.flag("known"):
            k += 1
            w.records(COLL).append(known(w, i, want, k == 1))
    return want


def VF_C41_sync():
    """any list, any collection the publisher may have left"""
    main, w = world()
    n = 2 if vf.tier() == "quick" else 3
    want = state(main, w, n, n)
    fresh = [r for r in want if not any(q["logID"] == r for q in w.records(COLL))]
    before = list(w.records(COLL))
    copies = [remote.copy(r) for r in before]
    go(main, w, want, noop=vf.flag("dry run"))
    for r, c in zip(before, copies):
        # what was right already is not written again
        if r["logID"] in want and "tiled" in c:
            same = vf.And(*[c[f] == want[r["logID"]][f] for f in FIELDS])
            if not any(r is x for x in w.records(COLL)):
                vf.check(vf.Not(same), "only logs whose data changed are rewritten")


def VF_C41_refused():
    """lists whose log IDs are not the hashes of the keys, or not unique; a collection with a log twice"""
    main, w = world()
    bad = 1 + vf.choose("flaw", 2)
    want = upstream(w, 2, [True, vf.flag("listed")], bad)
    for i in range(2):
        if vf.flag("known"):
            w.records(COLL).append(known(w, i, want, i == 0))
    go(main, w, want, bad=bad, noop=False)


def VF_C41_twice():
    """a collection with the same log twice is refused"""
    main, w = world()
    want = upstream(w, 2, [vf.flag("listed"), vf.flag("listed")])
    a = known(w, 0, want, True)
    b = known(w, 0, want, False)
    b["crlite_enrolled"] = a["crlite_enrolled"]
    w.records(COLL).extend([a, b])
    go(main, w, want, bad=3)


def VF_C41_faults():
    """a request fails; the next run puts things right"""
    main, w = world()
    want = state(main, w, 2, 1)
    w.fail_at = vf.integer("failing request", 0, 400)
    w.fail_kind = "kinto" if vf.flag("an error from the server") else "reset"
    how = go(main, w, want)
    if w.failed is None:
        return
    vf.observe("failed", w.failed)
    how = go(main, w, want)
    vf.check(how == "ok", "the run after a failed one puts things right")
