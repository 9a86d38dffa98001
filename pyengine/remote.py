"""Models of what moz_kinto_publisher talks to: Remote Settings (kinto_http, requests), Google Cloud Storage, glog,
X.509 parsing. The real main.py, settings.py and workflow/__init__.py run on top of them."""
import sys, types
import vfpy as vf

W = None  # the current World


class KintoException(Exception):
    pass


class GoogleAPIError(Exception):
    pass


class GoogleAPICallError(GoogleAPIError):
    pass


class NotFound(GoogleAPICallError):
    pass


class RequestError(OSError):
    "requests.exceptions.RequestException, which derives from OSError"


class ConnectionError_(RequestError):
    "what the storage client's transport raises when the server cannot be reached"


class HTTPError(RequestError):
    pass


def copy(x):
    if isinstance(x, dict):
        return {k: copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [copy(v) for v in x]
    return x


def same(a, b):
    """certainly the same text"""
    return str.__eq__(str.__str__(a), str.__str__(b)) is True if isinstance(a, str) and isinstance(b, str) else False


class World:
    def __init__(self):
        global W
        W = self
        self.collections = {}   # name -> list of records
        self.status = {}        # name -> review status
        self.objects = []       # [bucket, name, content, condition]; the condition is a value or a function
        self.dirs = []          # (bucket, name) of further directories
        self.get = {}           # URL -> response of requests.get
        self.fail_at = -1       # the operation that fails, counted from 0; may be symbolic
        self.fail_kind = "kinto"
        self.fail_only = None   # names of operations that can fail
        self.ops = 0
        self.failed = None
        self.log = []
        self.fresh = 0
        self.on_review = None
        self.on_upload = None
        self.clock = 0

    def op(self, name, mutating=True):
        """one request; fails if it is the chosen one"""
        if self.fail_only is None or name in self.fail_only:
            n = self.ops
            self.ops += 1
            if self.failed is None and self.fail_at == n:
                self.failed = name
                return True
            if self.failed and self.fail_kind == "outage":
                return True
        self.log.append(name)
        return False

    def records(self, c):
        return self.collections.setdefault(c, [])

    def touch(self, c):
        self.status[c] = "work-in-progress"
        self.clock += 1
        return self.clock

    def newid(self):
        self.fresh += 1
        return vf.opaque(9000 + self.fresh)

    def find(self, c, id):
        for r in self.records(c):
            if same(r["id"], id):
                return r
        for r in self.records(c):
            if r["id"] == id:
                return r
        return None

    def put(self, bucket, name, content, cond=True):
        self.objects.append([bucket, name, content, cond])

    def exists(self, bucket, name):
        xs = []
        for b, n, c, cond in self.objects:
            if b != bucket:
                continue
            cond = cond() if callable(cond) else cond
            if same(n, name):
                return cond
            xs.append(vf.And(n == name, cond))
        return vf.Or(*xs)

    def content(self, bucket, name):
        for b, n, c, cond in self.objects:
            if b == bucket and same(n, name):
                return c
        for b, n, c, cond in self.objects:
            if b == bucket and n == name:
                return c
        raise NotFound(name)


class Client:
    def __init__(self, *, server_url=None, session=None, auth=None, bucket="default", collection=None, retry=0, **k):
        self.bucket_name, self.collection_name = bucket, collection
        self.session = types.SimpleNamespace(server_url=server_url, auth=auth)

    def _fail(self, name):
        if W.op(name):
            raise KintoException("503 Service Unavailable")

    def server_info(self):
        return {"capabilities": {"attachments": {"base_url": "https://attachments/"}}}

    def get_records(self, *, collection=None, bucket=None, **k):
        self._fail("get_records")
        return [{k: v for k, v in copy(r).items() if not k.startswith("__")} for r in reversed(W.records(collection))]

    def create_record(self, *, data, id=None, collection=None, bucket=None, permissions=None, **k):
        self._fail("create_record")
        r = copy(data)
        r["id"] = id or r.get("id") or W.newid()
        r["last_modified"] = W.touch(collection)
        r["__permissions"] = permissions
        W.records(collection).append(r)
        out = copy(r)
        out.pop("__permissions")
        return {"data": out, "permissions": permissions or {}}

    def update_record(self, *, id=None, data=None, collection=None, bucket=None, permissions=None, **k):
        self._fail("update_record")
        id = id or data.get("id")
        old = W.find(collection, id)
        if old is None:
            raise KintoException("404 Not Found")
        r = copy(data)
        r["id"] = old["id"]
        r["last_modified"] = W.touch(collection)
        r["__permissions"] = old.get("__permissions")
        rs = W.records(collection)
        rs[[x is old for x in rs].index(True)] = r
        return {"data": copy(r)}

    def delete_record(self, *, id, collection=None, bucket=None, **k):
        self._fail("delete_record")
        old = W.find(collection, id)
        if old is None:
            raise KintoException("404 Not Found")
        W.touch(collection)
        W.collections[collection] = [x for x in W.records(collection) if x is not old]
        return {"id": id, "deleted": True}

    def get_collection(self, *, id=None, bucket=None, **k):
        self._fail("get_collection")
        return {"data": {"id": id, "status": W.status.get(id, "signed")}}

    def patch_collection(self, *, id=None, collection=None, bucket=None, changes=None, data=None, original=None, **k):
        self._fail("patch_collection")
        cid = id or collection or (original or {}).get("id") or self.collection_name
        for n, v in (changes.changes if changes else data or {}).items():
            if n == "status":
                W.status[cid] = v
                if v == "to-review" and W.on_review:
                    W.on_review(cid)
        return {"data": {"id": cid, "status": W.status.get(cid)}}


class BasicPatch:
    def __init__(self, data=None, permissions=None):
        self.changes = data


class Response:
    def __init__(self, status, content=b"", js=None, text=None):
        self.status_code, self.content, self._js, self.text = status, content, js, text
        self.ok = status < 400

    def json(self):
        return copy(self._js)

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(f"{self.status_code}")


def post(url, files=None, auth=None, **k):
    if W.op("attach"):
        if W.fail_kind == "kinto":
            return Response(500, b"server error")
        raise ConnectionError_("connection reset")
    parts = url.split("/")
    # .../buckets/B/collections/C/records/R/attachment
    if not (parts[-1] == "attachment" and parts[-3] == "records" and parts[-5] == "collections" and parts[-7] == "buckets"):
        return Response(404, b"not found")
    c, rid = parts[-4], parts[-2]
    r = W.find(c, rid)
    if r is None:
        return Response(404, b"no such record")
    (field, (name, content, mime)), = files
    W.touch(c)
    W.fresh += 1
    r["attachment"] = {"filename": name, "content": content, "mimetype": mime, "location": f"a/{W.fresh}", "hash": W.hash(content) if hasattr(W, "hash") else "0" * 64,
                       "size": 0}
    W.get[f"https://attachments/a/{W.fresh}"] = Response(200, text=content, content=content)
    return Response(200)


def get(url, **k):
    if W.op("http_get"):
        raise ConnectionError_("connection reset")
    r = W.get.get(url)
    return r if r is not None else Response(404)


class GClient:
    _connection = types.SimpleNamespace(api_request=None)

    def get_bucket(self, name):
        if W.op("get_bucket"):
            raise ConnectionError_("storage unreachable")
        b = types.SimpleNamespace(name=name)
        b.blob = lambda n, **k: Blob(n, b)
        b.get_blob = lambda n, **k: Blob(n, b) if W.exists(name, n) else None
        return b

    bucket = get_bucket


class Blob:
    public_url = "gs://object"

    def __init__(self, name, bucket=None, **k):
        self.name, self.bucket = name, bucket.name

    def exists(self, *a, **k):
        if W.op("blob_exists"):
            raise ConnectionError_("storage unreachable")
        return W.exists(self.bucket, self.name)

    def _get(self):
        if W.op("blob_get"):
            raise ConnectionError_("storage unreachable")
        if not W.exists(self.bucket, self.name):
            raise NotFound(self.name)
        return W.content(self.bucket, self.name)

    def download_as_string(self, *a, **k):
        return self._get()

    download_as_bytes = download_as_string

    def download_to_file(self, f, *a, **k):
        f.write(self._get())

    def download_to_filename(self, p, *a, **k):
        c = self._get()
        with (vf.v_open if vf.symbolic() else open)(p, "wb") as f:
            f.write(c)


    def _put(self, name, c):
        if W.op(name):
            raise ConnectionError_("storage unreachable")
        W.objects = [o for o in W.objects if o[:2] != [self.bucket, self.name]]
        W.put(self.bucket, self.name, c)
        if W.on_upload:
            W.on_upload(self.name)

    def upload_from_filename(self, p, **k):
        with open(p, "rb") as f:
            self._put("upload", f.read())

    def upload_from_file(self, f, **k):
        self._put("upload", f.read())

    def upload_from_string(self, t, **k):
        self._put("upload_string", t.encode() if isinstance(t, str) else t)


class Retry:
    """repeats a call that fails, for a while: an outage that lasts is an error"""

    def __init__(self, *a, **k):
        pass

    def __call__(self, f):
        def g(*a, **k):
            try:
                return f(*a, **k)
            except ConnectionError_:
                if W.fail_kind == "outage":
                    raise
                return f(*a, **k)
        return g


def HTTPIterator(client=None, api_request=None, path=None, items_key=None, item_to_value=None, extra_params=None, **k):
    if W.op("list"):
        raise ConnectionError_("storage unreachable")
    bucket = path.split("/")[2]
    out = []
    for b, n in W.dirs:
        if b == bucket:
            out.append(item_to_value(None, n + "/"))
    return iter(out)


class Parser(types.SimpleNamespace):
    pass


def mod(name, **k):
    m = types.ModuleType(name)
    m.__dict__.update(k)
    sys.modules[name] = m
    parent, _, child = name.rpartition(".")
    if parent:
        setattr(sys.modules[parent], child, m)
    return m


class HTTPBasicAuth:
    def __init__(self, u, p):
        pass


def _quiet(*a, **k):
    pass


def config(n, default=None, **k):
    return default


def stubs():
    mod("kinto_http", Client=Client)
    mod("kinto_http.exceptions", KintoException=KintoException)
    mod("kinto_http.patch_type", BasicPatch=BasicPatch)
    mod("glog", **{n: _quiet for n in ("info", "debug", "warning", "warn", "error", "fatal", "exception", "setLevel", "critical")})
    names = dict(RequestException=RequestError, ConnectionError=ConnectionError_, HTTPError=HTTPError)
    mod("requests", post=post, get=get, **names)
    mod("requests.auth", HTTPBasicAuth=HTTPBasicAuth)
    mod("requests.exceptions", **names)
    mod("decouple", config=config)
    mod("google")
    mod("google.api_core")
    mod("google.api_core.exceptions", NotFound=NotFound, GoogleAPIError=GoogleAPIError, GoogleAPICallError=GoogleAPICallError)
    mod("google.api_core.page_iterator", HTTPIterator=HTTPIterator)
    mod("google.api_core.retry", Retry=Retry)
    mod("google.cloud")
    mod("google.cloud.storage", Client=GClient, Blob=Blob)
    mod("google.cloud.storage.blob", Blob=Blob)
    mod("cryptography")
    mod("cryptography.x509", Certificate=object, load_pem_x509_certificate=lambda *a: W.x509(*a))
    mod("cryptography.hazmat")
    mod("cryptography.hazmat.backends", default_backend=lambda: None)
    mod("cryptography.hazmat.primitives")
    mod("cryptography.hazmat.primitives.serialization", Encoding=types.SimpleNamespace(DER="der", PEM="pem"),
        PublicFormat=types.SimpleNamespace(SubjectPublicKeyInfo="spki"))


def load():
    """-> the real main module on top of the models"""
    stubs()
    sym = vf.symbolic()
    vf.load("workflow", vf.REPO + "/workflow/__init__.py", sym)
    vf.load("settings", vf.REPO + "/moz_kinto_publisher/settings.py", sym)
    return vf.load("main", vf.REPO + "/moz_kinto_publisher/main.py", sym)


def client(main):
    s = sys.modules["settings"]
    return main.PublisherClient(server_url="https://rs/v1/", auth=None, bucket=s.KINTO_BUCKET, retry=5)
