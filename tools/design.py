#!/usr/bin/env python3
"""Writes the per-property table of DESIGN.md (between the markers) from the texts here, the bounds in the
harnesses and properties.jsonl."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("subtree verifier Consume/CheckClaim on leaves of symbolic content; claimed root symbolic or computed.",
        "recursive RFC 6962 MTH over an uninterpreted, injective SHA-256", "lower and upper leaf values, wrong count, tampering of any leaf, root of wrong length"),
"C02": ("consistencyProofToSubtrees on symbolic 64-bit sizes.", "the RFC's PROOF recursion, and for large sizes its arithmetic definition", "proof length off by one either way"),
"C03": ("whole jobs of LogWorker (plan, proof, download, verify, publish) against a modelled log.", "the set of entries the log served in that run plus the starting range", ""),
"C04": ("whole jobs and histories of jobs of TiledLogWorker.", "the entries passed to the storage queue, in order", "the sunlight client is a model that yields entries in order or stops with an error"),
"C05": ("NewLogWorker + Run up to the first request for symbolic positions, and runs to completion on small logs.", "interval arithmetic on the stored range and the tree size", ""),
"C06": ("CoverageCutoff, NewCoverageCutoffMap, IsCovered on symbolic 64-bit values.", "exact arithmetic without the overflow", ""),
"C07": ("insertCTWorker with the real database and RedisCache.", "set of members Redis holds whenever a state is set", ""),
"C08": ("main() of ct-fetch and the refresh.", "the last word on each log in the lists", ""),
"C09": ("both workers and the database writer.", "the fields the harness gave to certificates and entries", ""),
"C10": ("NewMember, AsSerial, IsCovered on symbolic bytes.", "the inputs; injectivity by two symbolic copies", ""),
"C11": ("Commit over the file system and Redis models, a crash or fault at a symbolic operation, then the next run.", "covered serials must be in cache or storage after recovery", ""),
"C12": ("Commit with lock missing, lost or expired, epochs apart, storage read-only, faults.", "storage and cache byte for byte as before", ""),
"C13": ("NewCertDatabase/EnsureCacheIsConsistent for symbolic epochs and positions.", "the positions in storage's file", ""),
"C14": ("Commit on stored lists and cache entries of symbolic serials; Dedup.", "multiset union; parser of the documented format in the harness", ""),
"C15": ("Commit at a symbolic time.", "the calendar computed from the label's text", ""),
"C16": ("ExpDate constructors and IsExpiredAt on symbolic instants.", "integer calendar arithmetic", ""),
"C17": ("AcquireCommitLock/HasCommitLock/ReleaseCommitLock by 2-3 clients; scheduling and elapsed time symbolic.", "at most one believer", ""),
"C18": ("RedisCache set operations.", "mathematical sets", ""),
"C19": ("StoreLogState/LoadLogState/Migrate.", "the stored state; two URLs compared as texts", ""),
"C20": ("the aggregator's download and aggregation of an issuer with several CRLs.", "per CRL the outcome given to it: all valid and read, or no list", ""),
"C21": ("loadAndCheckSignatureOfCRL etc. on CRLs with symbolic signer, dates and distribution points.", "who signed what, which names were given", ""),
"C22": ("DownloadAndVerifyFileSync with crash, fault, cancel.", "destination is the old file or a verified new one", ""),
"C23": ("DownloadFileSync against HTTP servers.", "the server's file", ""),
"C24": ("makeFilenameFromUrl, pairs of symbolic URLs.", "path containment; URL identity up to order and encoding of query parameters", ""),
"C25": ("NewReason / list decoding on symbolic DER.", "a TLV decoder in the harness", ""),
"C26": ("InsertIssuer, Merge, LoadFromDisk in any order.", "union of URLs", ""),
"C27": ("LoadFromDisk on generated reports.", "the report's rows as the harness made them", ""),
"C28": ("decodeCrls.", "the URLs the field was composed of", ""),
"C29": ("SaveIssuersList/LoadEnrolledIssuers.", "the inserted certificates", ""),
"C30": ("Serial and Issuer encodings; TBS serial extraction.", "bytes; hex grammar; DER grammar", ""),
"C31": ("conf* and CTConfig.Init.", "precedence environment > file > default, harness parsers", ""),
"C32": ("main() of aggregate-known.", "the stored lists of enrolled issuers with unexpired labels", ""),
"C33": ("auditor and whole aggregator runs.", "one entry per CRL outcome", "race detection on"),
"C34": ("Commit with several bins, workers interleaved.", "every covered serial stored, error iff a bin failed", "kMoveSerialsBatchSize is 2 in the check"),
"C35": ("publish_crlite and main() of the publisher on symbolic run identifiers, times, file and record states, and a request that fails at a symbolic position.", "the chain the records must form, and the runs of the bucket", "executed by pyengine/vfpy.py; loss of runs, dry runs, waiting for an unfinished run, two channels"),
"C40": ("publish_intermediates on enrolled lists and collections with broken entries, a request failing at a symbolic position.", "the set of enrolled certificates", "X.509 parsing is a model"),
"C41": ("publish_ctlogs on log lists and collections of symbolic texts and delays, a request failing at a symbolic position.", "the list as the harness made it", ""),
"C42": ("the scripts 0-allocate_identifier, 1-upload_data_to_storage and 3-upload_mlbf_to_storage as programs.", "the listing; the files of the run", "uploads use real scratch files"),
"C43": ("crlite-signoff-tool.py as a program, the publisher's request for a review.", "status before and after", ""),
"C44": ("the four scripts of workflow/ and the publisher as programs, on one bucket and collection.", "what the full filter and the deltas add up to", "the generator (Rust) is a model that says what a delta is relative to"),
"C37": ("whole programs and pairs of methods with happens-before tracking.", "conflicting accesses without an order", "confirmed by go's -race on the replayed schedule"),
"C38": ("main() of five programs with a fault or a signal at a symbolic operation.", "exit status 0 implies complete output", ""),
"C39": ("main() of ct-fetch with its health handler.", "time since the last finished round or entry taken", "sums of nanoseconds are decided by cvc5 (integers), z3 giving up"),
}
T.update(json.load(open(here + '/tools/design_extra.json')) if os.path.exists(here + '/tools/design_extra.json') else {})
NA = {}
exec(open(here + '/tools/na.py').read())
out = []
for l in open(here + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out.append(f"### {i} {p['title']}")
    if i in NA:
        out.append(f"Not applicable: {NA[i]}\n")
        continue
    what, oracle, rest = T[i]
    entries, notes, bounds = [], [], []
    for f in sorted(x for x in os.listdir(f'{here}/harness/{i}') if x[-3:] in ('.go', '.py')):
        s = open(f'{here}/harness/{i}/{f}').read()
        entries += re.findall(r'^(?:func|def) (VF_%s_\w+)' % i, s, re.M)
        notes += re.findall(r'^(?://|#)vf:note (.*)$', s, re.M)
        bounds += re.findall(r'vf\.Bound\("([^"]*)", ([^,]*), ([^)]*\)?)\)', s)
        bounds += re.findall(r'bound\("([^"]*)", ([^,]*), ([^)]*\)?)\)', s)
    out.append(f"*Encoded*: {what} *Oracle*: {oracle}." + (f" *Remarks*: {rest}." if rest else ''))
    if notes: out.append(' '.join(notes))
    out.append('*Entries*: ' + ', '.join(e.split('_', 2)[2] for e in entries) + '.' + (' *Bounds* (quick/thorough): ' + '; '.join(f'{a} {b}/{c}' for a, b, c in dict.fromkeys(bounds)) + '.' if bounds else ' Bounds: those of the inputs named above.'))
    out.append('')
d = open(here + '/DESIGN.md').read()
a, b = d.index('<!-- table -->'), d.index('<!-- end of table -->')
open(here + '/DESIGN.md', 'w').write(d[:a] + '<!-- table -->\n' + '\n'.join(out) + '\n' + d[b:])
