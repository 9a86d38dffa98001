#vf:note The sign-off tool runs as a program, and the publisher's request for a review as a call, on collections of every status, with a request failing at a symbolic point.
import sys
import types
import vfpy as vf
import remote

STATUS = ["signed", "work-in-progress", "to-review", "to-sign", "to-rollback", "", None]
NAMES = {"cert-revocations": "cert-revocations", "intermediates": "intermediates"}


def VF_C43_signoff():
    remote.stubs()
    w = remote.World()
    remote.mod("statsd", StatsClient=lambda *a, **k: types.SimpleNamespace(incr=lambda *a: None))
    asked = ["cert-revocations", "intermediates", "ct-logs", "main"][vf.choose("collection", 4)]
    for c in ("cert-revocations", "intermediates", "ct-logs"):
        s = STATUS[vf.choose("status", len(STATUS))] if c == asked else "to-review"
        w.status[c] = s
    was = dict(w.status)
    noop = vf.flag("dry run")
    w.fail_at = vf.integer("failing request", -1, 10)
    old = sys.argv
    sys.argv = ["crlite-signoff-tool.py", asked] + (["--noop"] if noop else [])
    try:
        how, rv = vf.run(vf.load, "__main__x", vf.REPO + "/containers/scripts/crlite-signoff-tool.py", vf.symbolic(), {"__name__": "__main__"})
    finally:
        sys.argv = old
    now = w.status
    vf.observe("outcome", how)
    vf.observe("status", [now[c] for c in sorted(now)])
    for c in now:
        if c != asked or noop or asked not in NAMES:
            vf.check(now[c] == was[c], "no other collection is touched, and none by a dry run")
        elif now[c] != was[c]:
            vf.check(was[c] == "to-review" and now[c] == "to-sign", "only a collection that is up for review is signed")
    if asked not in NAMES:
        vf.check(how != "ok", "only the two collections can be signed")
    elif not noop:
        if how == "ok":
            vf.check(w.failed is None and now[asked] == ("to-sign" if was[asked] == "to-review" else was[asked]), "a sign-off that succeeds has signed what was up for review")
        else:
            vf.check(w.failed is not None or was[asked] is None, "without a failure the sign-off succeeds")
            vf.check(now[asked] == was[asked], "a sign-off that fails has signed nothing")


def VF_C43_review():
    """the publisher offers a collection for review exactly when it has unreviewed changes"""
    main = remote.load()
    w = remote.World()
    asked = ["cert-revocations", "intermediates", "ct-logs"][vf.choose("collection", 3)]
    for c in ("cert-revocations", "intermediates", "ct-logs"):
        w.status[c] = STATUS[vf.choose("status", len(STATUS))] if c == asked else STATUS[vf.choose("status of the others", 4)]
    was = dict(w.status)
    w.fail_at = vf.integer("failing request", -1, 4)
    client = main.PublisherClient(server_url="", auth=None, bucket="b", retry=5)
    how, rv = vf.run(client.request_review_of_collection, collection=asked)
    now = w.status
    vf.observe("outcome", how)
    vf.observe("status", [now[c] for c in sorted(now)])
    for c in now:
        if c != asked:
            vf.check(now[c] == was[c], "a review concerns the collection it was asked for")
    due = was[asked] == "work-in-progress"
    vf.check(now[asked] == was[asked] or (due and now[asked] == "to-review"), "only unreviewed changes are offered for review")
    if how == "ok":
        vf.check(not due or now[asked] == "to-review", "unreviewed changes are offered for review")
    else:
        vf.check(w.failed is not None or was[asked] is None, "without a failure the request for a review succeeds")
