#vf:note Enrolled lists of up to three entries and collections of up to two records (thorough: three) over three certificates, two of one subject and key, and broken variants of their entries, records and attachments. X.509 parsing is a model, hashes and base64 are real. Outside: attachments that cannot be fetched at all.
import base64
import hashlib
import json
import sys
import types
import vfpy as vf
import remote

COLL = "intermediates"


class Key:
    def __init__(self, spki):
        self.spki = spki

    def public_bytes(self, encoding=None, format=None):
        return self.spki


class Cert:
    """what the model of the X.509 parser makes of a PEM text"""

    def __init__(self, der):
        self.der = der
        # two certificates of one subject and key: certificate 0 and its renewal 1
        n = der[-1] - 48
        who = b"A" if n in (0, 1) else b"C"
        self.subject = types.SimpleNamespace(rfc4514_string=lambda: "CN=" + who.decode())
        self.spki = b"spki" + who

    def public_bytes(self, encoding=None):
        return self.der

    def public_key(self):
        return Key(self.spki)

    @property
    def not_valid_after(self):
        return vf._dt.datetime(2025, 6, 1)


def pem(n):
    return "-----BEGIN CERTIFICATE-----\n" + base64.b64encode(b"cert%d" % n).decode() + "\n-----END CERTIFICATE-----\n"


def x509(data, backend=None):
    t = data.decode() if isinstance(data, bytes) else data
    b = base64.b64decode(t.split("-----")[2])
    if not b.startswith(b"cert"):
        raise ValueError("cannot parse")
    return Cert(b)


def b64(b):
    return base64.b64encode(b).decode()


def sha(b):
    return hashlib.sha256(b).digest()


def entry(n, kind):
    """an entry of enrolled.json"""
    c = Cert(b"cert%d" % n)
    e = {"pubKeyHash": base64.urlsafe_b64encode(sha(c.spki)).decode(), "subject": c.subject.rfc4514_string(), "pem": pem(n), "subjectDN": "x", "uniqueID": "u"}
    if kind == 1:
        e["pubKeyHash"] = base64.urlsafe_b64encode(sha(b"another")).decode()
    elif kind == 2:
        e["pem"] = "-----BEGIN CERTIFICATE-----\nZ2FyYmFnZQ==\n-----END CERTIFICATE-----\n"
    elif kind == 3:
        e["pubKeyHash"] = "AAAA"
    return e


def hashof(content):
    b = content if isinstance(content, bytes) else content.encode()
    return hashlib.sha256(b).hexdigest()


def rec(w, n, kind):
    """a record of the collection"""
    p = pem(n)
    w.fresh += 1
    loc = f"b/{w.fresh}"
    r = {"id": f"r{w.fresh}", "derHash": b64(sha(b"cert%d" % n)), "last_modified": 1, "schema": 1,
         "attachment": {"filename": "f.pem", "size": len(p), "location": loc, "mimetype": "text/plain", "hash": hashof(p)}}
    w.get["https://attachments/" + loc] = remote.Response(200, text=p)
    if kind == 1:
        r["derHash"] = b64(sha(b"another"))
    elif kind == 2:
        del r["attachment"]  # the upload of the attachment was interrupted
    elif kind == 3:
        del r["derHash"]
    elif kind == 4:
        w.get["https://attachments/" + loc] = remote.Response(200, text="-----BEGIN CERTIFICATE-----\nZ2FyYmFnZQ==\n-----END CERTIFICATE-----\n")
    return r


def world():
    main = remote.load()
    w = remote.World()
    w.x509 = x509
    w.hash = hashof
    w.status[COLL] = "signed"
    return main, w


def put_enrolled(w, entries):
    js = json.dumps(entries)
    w.dirs = [("crlite_filters", "20250101-0"), ("crlite_filters", "20250101-1")]
    w.objects = []
    w.put("crlite_filters", "20250101-0/enrolled.json", json.dumps([entry(2, 0)]).encode())
    w.put("crlite_filters", "20250101-1/enrolled.json", js.encode())


def certs(w):
    """the certificates the collection holds, as clients see them"""
    out = []
    for r in w.records(COLL):
        if "attachment" not in r:
            out.append("no attachment")
            continue
        resp = w.get["https://attachments/" + r["attachment"]["location"]]
        t = resp.text if isinstance(resp.text, str) else resp.text.decode()
        for n in range(4):
            if t == pem(n):
                out.append(n if r.get("derHash") == b64(sha(b"cert%d" % n)) else "wrong derHash")
                break
        else:
            out.append("garbage")
    return sorted(out, key=str)


def go(main, w, want, noop=False):
    before = list(w.records(COLL))
    due = w.status.get(COLL) == "work-in-progress"
    reviews = []
    w.on_review = lambda c: reviews.append((c, certs(w)))
    a = types.SimpleNamespace(noop=noop, download_path=vf.path_of("dl"), filter_bucket="crlite_filters", enrolled_json=None)
    how, rv = vf.run(main.publish_intermediates, args=a, rw_client=remote.client(main))
    got = certs(w)
    vf.observe("outcome", [how, type(rv).__name__])
    vf.observe("after", got)
    changed = not (len(before) == len(w.records(COLL)) and all(x is y for x, y in zip(before, w.records(COLL))))
    if how == "raised":
        vf.check(not reviews, "a failed run asks for no review")
        vf.check(w.failed is not None, "without a failure the publisher does its job")
        return how
    if noop:
        vf.check(not changed and not reviews, "a dry run changes nothing")
        return how
    for c, x in reviews:
        vf.check(c == COLL and x == want, "only the enrolled list is put to review")
    vf.check(len(reviews) == (1 if changed or due else 0), "a review is asked for exactly when something changed")
    vf.check(got == want, "the collection holds exactly the enrolled certificates, each once")
    return how


def locals_(n):
    es, want = [], set()
    for i in range(n):
        k = vf.choose("enrolled", 3)
        kind = vf.choose("entry", 4) if i == 0 else 0
        es.append(entry(k, kind))
        if kind == 0:
            want.add(k)
    return es, sorted(want, key=str)


def VF_C40_sync():
    """any enrolled list, any collection"""
    main, w = world()
    es, want = locals_(vf.choose("entries", 4))
    for i in range(vf.choose("records", 4 if vf.tier() == "thorough" else 3)):
        w.records(COLL).append(rec(w, vf.choose("record of", 3), vf.choose("record", 5)))
    put_enrolled(w, es)
    go(main, w, want, noop=vf.flag("dry run"))


def VF_C40_faults():
    """a request fails; the next run puts things right"""
    main, w = world()
    es, want = locals_(1 + vf.choose("entries", 2))
    for i in range(vf.choose("records", 3)):
        w.records(COLL).append(rec(w, vf.choose("record of", 3), 2 * vf.choose("record", 2)))
    put_enrolled(w, es)
    w.fail_at = vf.integer("failing request", 0, 400)
    w.fail_kind = "kinto" if vf.flag("an error from the server") else "reset"
    how = go(main, w, want)
    if w.failed is None:
        return
    vf.observe("failed", w.failed)
    how = go(main, w, want)
    vf.check(how == "ok", "the run after a failed one puts things right")


def VF_C40_history():
    """the enrolled list changes from run to run"""
    main, w = world()
    for i in range(3):
        es, want = [], []
        for k in range(3):
            if vf.flag("enrolled"):
                es.append(entry(k, 0))
                want.append(k)
        put_enrolled(w, es)
        go(main, w, want)
