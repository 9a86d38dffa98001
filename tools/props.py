#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))
R = "go/cmd/ct-fetch/rfc6962.go"; T = "go/cmd/ct-fetch/tiled.go"; F = "go/cmd/ct-fetch/ct-fetch.go"
S = "go/storage/certdatabase.go"; RC = "go/storage/rediscache.go"; ST = "go/storage/types.go"; TY = "go/types.go"
A = "go/cmd/aggregate-crls/aggregate-crls.go"; AU = "go/cmd/aggregate-crls/crl-auditor.go"
D = "go/downloader/downloader.go"; DV = "go/downloader/verifying-downloader.go"; RP = "go/rootprogram/issuers.go"
CF = "go/config/config.go"; K = "go/cmd/aggregate-known/aggregate-known.go"

p("C01", "Log entries are accepted only if they hash to the advertised Merkle subtree",
  "The verifier for a range of an RFC 6962 CT log accepts a sequence of leaves if and only if it was given exactly as many leaves as the range holds and their RFC 6962 Merkle tree hash (leaf prefix 0x00, node prefix 0x01, largest power-of-two split) equals the claimed subtree hash. A missing, extra, duplicated, reordered or altered leaf is always rejected, and an honest sequence is never rejected.",
  ["inputs"], "every first/last index pair and every leaf sequence up to the bound, every claimed hash",
  "tests use one random tree and a few fixed tampered cases; the stack-merge rule must be right for every size and every position of a defect",
  [R], [("subtree verifier Consume/CheckClaim", R)], observe=["result of the verifier's claim check"])
p("C02", "Consistency proofs are split into exactly the subtrees RFC 6962 defines",
  "For every pair of tree sizes 0 < old < new, the hashes of an RFC 6962 consistency proof are attributed to exactly the subtrees that the RFC's PROOF algorithm emits, in order, and the attributed ranges tile the new tree so that every new entry is covered by a proof hash. A proof with too few or too many hashes is rejected, never silently truncated.",
  ["inputs"], "every old size and new size (64-bit), every proof length",
  "the decomposition is index arithmetic over two 64-bit sizes; tests sample a few sizes",
  [R], [("consistencyProofToSubtrees, subtree midpoint/size arithmetic", R)])
p("C03", "RFC 6962 log state only ever covers downloaded, verified, contiguous entries",
  "Whenever the ingester publishes a new position for an RFC 6962 log, every entry between the published minimum and maximum index has been downloaded, verified against the log's signed tree head and handed on for storage, whatever mix of initial, update and backfill work, download errors, gaps and bad proofs occurred. The maximum index never exceeds the signed tree, the newest timestamp is never later than the newest covered entry or, when everything is covered, the signed tree head's, and a failed verification publishes nothing new.",
  ["inputs", "histories", "fault_sequences"], "every starting log state, signed tree size, batch size, fault position and work order within the bounds",
  "tests cover happy-path single runs with a cooperative fake log; the guarantee is about every starting state and every fault position",
  [R, F], [("LogWorker.Run / updateState contiguity check", R), ("NewLogWorker", R)],
  [("log state", "min/max entry and timestamp published for a log", "go/types.go CTLogState")], ["log states sent to the storage queue"])
p("C04", "Tiled log state only ever covers entries already read in order",
  "For a tiled (static-ct) log, every published log state covers exactly the prefix of entries that were read in index order and handed on for storage before it, with a maximum timestamp no later than the latest such entry or, when every entry of the checkpoint is covered, the checkpoint's own timestamp. The maximum index never exceeds the checkpoint's tree. A read error or a cancelled run never publishes a position past the last entry handed on.",
  ["inputs", "fault_sequences", "histories"], "every starting state, checkpoint size, batch size and error position within the bounds",
  "no test runs the tiled worker with errors at arbitrary positions or arbitrary resume states",
  [T, F], [("TiledLogWorker.Run / updateState", T)], observe=["log states sent to the storage queue"])
p("C05", "Planned download ranges are non-empty, inside the tree, and adjacent to coverage",
  "For every stored log state that lies inside the signed tree, the work chosen for an RFC 6962 log requests only indices inside the signed tree, at most one batch (a first batch may be up to three entries longer, to end on a usable boundary), and, unless starting from nothing, adjacent to what is already covered, so that coverage can always grow without a gap; when everything is covered nothing is requested.",
  ["inputs", "histories"], "every min/max entry and tree size (64-bit) and batch size, each work order",
  "integer boundary behaviour (tree sizes 0..3, batch larger than the tree, min index 0) over 64-bit values",
  [R], [("NewLogWorker, LogWorker.Run range arithmetic", R)], observe=["get-entries and consistency-proof requests"])
p("C06", "A certificate is reported covered only if its log entry is provably merged",
  "The coverage cutoff of a log is the newest ingested timestamp minus the log's maximum merge delay, never later, and is zero when it cannot be computed. A cached certificate entry counts as covered only if it is a legacy entry without log information, or its log is known and its timestamp is no later than that log's cutoff.",
  ["inputs"], "every 64-bit timestamp, merge delay, and cached entry",
  "overflow and underflow of 64-bit arithmetic and boundary equality are not sampled",
  [TY, ST], [("CTLogState.CoverageCutoff, NewCoverageCutoffMap", TY), ("CertificateLogEntry / IsCovered", ST)])
p("C07", "Log progress is saved only after all its certificates are stored",
  "The database writer saves a log position only after every certificate queued before it has been stored successfully, in order, for every batch size and every pattern of storage failures, retries and cancellation; an abandoned batch never leads to a saved position that includes it.",
  ["histories", "fault_sequences", "schedules"], "every sequence of queued entries and log states, every failing store/save call and cancellation point, every batch size within the bounds",
  "no test injects storage failures or cancellation into the writer",
  [F], [("insertCTWorker / tryUpdate", F)], observe=["order of insertions and log-state saves in the cache"])
p("C08", "Exactly the enrolled logs are fetched",
  "ct-fetch fetches exactly the enrolled logs: those its configuration or a refresh of the remote settings marks as enrolled, until a later refresh marks them as not enrolled (a log the refresh does not mention stays as it is). Each enrolled log has exactly one downloader at a time, also after it is taken off the list and put back, under any schedule; a run that ends on its own has run a download job for every log enrolled by then; a failed or malformed refresh leaves the set unchanged.",
  ["histories", "inputs", "fault_sequences"], "every sequence of refreshed lists within the bounds",
  "tests do not exercise sequences of enrol/unenrol/refresh with failures",
  [F], [("EnrolledLogs.UpdateFromRemoteSettings/Enroll/Unenroll", F)])
p("C09", "Stored certificates are attributed to the right issuer, log and expiry",
  "Every unexpired log entry with an issuer is stored exactly once under its own serial, the expiry hour of its certificate, its log's identity and its entry timestamp, and under the public key of the certificate that really issued it, looking through a dedicated precertificate signing certificate; entries without an issuer are never stored, nor, unless configured otherwise, entries already expired (one that expires within the current hour may count as expired).",
  ["inputs"], "every entry kind (certificate, precertificate, with or without signing certificate), chain length, expiry and timestamp within the bounds",
  "tests use a handful of recorded entries",
  [R, T, TY], [("storeLogEntry (both workers)", R), ("IsPreIssuer", TY)])
p("C10", "Cached certificate entries decode to what was recorded",
  "Decoding a cached certificate entry returns exactly the timestamp, log identity and serial it was encoded from, for every serial; entries in the legacy format (a bare serial shorter than 40 bytes) decode to that serial and are never confused with a log entry of another certificate.",
  ["inputs"], "every timestamp, log id and serial up to the length bound; every byte string as cache content",
  "byte layout must round-trip for every value; tests use fixed examples",
  [ST], [("NewSetMember/AsSerial", ST)])
p("C11", "A crash or fault during commit never loses a covered serial",
  "At every crash point and for every storage fault during a commit, each serial that was cached and covered is afterwards still in the cache or in the known-serials storage, previously stored unexpired serials stay stored, and the published coverage file never describes coverage whose serials are not in storage. After a restart (which checks cache consistency) re-running commit completes the job.",
  ["crash_points", "fault_sequences", "inputs"], "every crash point and single fault during the commit sequence, every small cache and storage content",
  "tests run commit to completion with a mock cache; none stops it half way",
  [S, RC], [("Commit, moveOneBinOfCachedSerialsToStorage, renameio atomic replace", S)],
  [("known/<expiry>/<issuer>", "stored serial lists", S), ("ct-logs.json, epoch", "published coverage and epoch", S)],
  ["file system and cache contents after a crash"])
p("C12", "Commit without its preconditions changes nothing",
  "A commit attempted on a read-only database, without holding the commit lock, or when cache and storage epochs disagree fails and leaves both the cache and the storage exactly as they were; a commit without faults records the cache's epoch in storage and advances the cache's epoch by one, and one that reports success despite a fault leaves the epochs consistent.",
  ["inputs", "histories", "configurations"], "every lock holder/token, pair of epochs and read-only setting within the bounds",
  "tests check a few of these combinations with the mock cache only",
  [S, RC], [("Commit guard checks", S), ("HasCommitLock", RC)])
p("C13", "Cache and storage are resynchronised from storage after cache loss",
  "Opening the database succeeds without touching the cache exactly when the cache epoch directly follows the storage epoch (or both are new); otherwise the cache's log positions are replaced by those of the last committed storage and its epoch set to follow it, so no log is ever ahead of what is stored or cached.",
  ["inputs", "histories", "fault_sequences"], "every pair of epochs, stored coverage file and stale cached log state within the bounds",
  "tests sample few epoch pairs; overflow and stale-state cleanup are not covered",
  [S, RC], [("EnsureCacheIsConsistent", S), ("Restore", RC)])
p("C14", "Moving serials to storage merges and deduplicates without corruption",
  "After serials of an issuer and expiry are moved to storage, the stored list holds each previously stored and each newly moved serial exactly once and nothing else, for every serial length and content, and reading it back returns the same serials; a file that is truncated or not a serial list is reported, not misread (an empty file reads as an empty list).",
  ["inputs", "histories"], "every pair of serial multisets up to the size bound, every serial byte content, every file content up to the bound",
  "tests use a few fixed serials",
  [S, TY], [("WriteSerialList/ReadSerialsFromStorage", S), ("SerialList.Dedup", TY)])
p("C15", "Exactly the expired serial lists are deleted from storage",
  "Removing expired serials deletes the lists of an expiry date if and only if that date has passed at the given time, a label naming a date or an hour passing when that day or hour ends (to the millisecond); unexpired lists are untouched.",
  ["inputs"], "every current time and expiry label within the bounds, every mix of directories",
  "boundaries between hour and day labels and the current time are not sampled",
  [S, TY], [("removeExpiredSerialsFromStorage", S), ("ExpDate.IsExpiredAt", TY)])
p("C16", "Expiry labels round-trip and never expire a certificate early",
  "An expiry label derived from a certificate's notAfter parses back to the same label; the parsed label is reported unexpired at every instant within the hour (or day) it names, and expired at every instant after it (to the millisecond).",
  ["inputs"], "every notAfter and query instant in the supported year range; every label string up to the bound",
  "tests sample a few dates; the truncation and millisecond arithmetic must be right at each boundary",
  [TY], [("NewExpDateFromTime, NewExpDate, IsExpiredAt", TY)])
p("C17", "At most one process holds the commit lock",
  "Two clients of the same cache never both believe they hold the commit lock, for every interleaving of acquire, check and release with lock expiry; a client releases only a lock it holds itself.",
  ["schedules", "histories"], "every interleaving of cache commands of two clients and every lock-expiry instant within the bounds",
  "tests run a single client sequentially",
  [RC], [("AcquireCommitLock/ReleaseCommitLock/HasCommitLock", RC)])
p("C18", "Cache set operations insert and remove exactly the named members",
  "Inserting a batch of certificates into the cache adds each to the set of its own issuer and expiry, with that set expiring no later than the certificates do and not before the hour in which they do, and removing a list of members removes exactly those members whatever the list length, leaving others untouched; any failed cache command is reported.",
  ["inputs", "fault_sequences"], "every list length around the batching boundaries, every member content, every failing command",
  "tests use short lists; the batching boundary and error propagation are not sampled",
  [RC, S], [("SetInsertMany/SetRemove", RC)])
p("C19", "Log progress round-trips through the cache for every log URL form",
  "Saving a log's position and loading it again returns the same position for every spelling of the log's URL that differs only in surrounding slashes or scheme, positions stored under the previous key format are still found, and a log never stored loads as a zero position with its own URL.",
  ["inputs", "histories"], "every 64-bit field value, every trailing/leading slash form, every prior stored state (old key, new key, both, none)",
  "tests sample a single URL form",
  [S, RC, TY], [("GetLogState/SaveLogState", S), ("Migrate/StoreLogState/LoadLogState", RC)])
p("C20", "An issuer's revoked list is complete and exact, or not published at all",
  "For each enrolled issuer that discloses CRLs, a completed run of the aggregator writes a revoked-certificate list if and only if every CRL the issuer discloses was obtained (from its server or, failing that, a verified earlier download) and read in full, and then the list contains exactly the union of the revoked serials of those CRLs with their reasons; if any CRL failed, or a list cannot be written in full, none is published for that issuer or the run fails.",
  ["inputs", "fault_sequences"], "every combination of CRL outcomes (missing, unparseable, wrong signer, expired, valid) and revoked contents within the bounds",
  "tests cover individual outcomes, not combinations over several CRLs and issuers",
  [A], [("aggregateCRLWorker, processCRL, verifyCRL", A)], observe=["files in the revoked directory", "returned issuer/CRL audit"])
p("C21", "Only CRLs signed by the issuer and matching its URL are used",
  "A CRL contributes revocations for an issuer only if its signature verifies under that issuer's key and it was parsed in full; CRLs with the wrong signer or unreadable contents are rejected. For an issuer with partitioned CRLs, a CRL whose issuing distribution point does not name the URL it was fetched from, or names another of the issuer's CRLs, is reported in the audit (it is still used).",
  ["inputs"], "every combination of signer, parse result and distribution-point content within the bounds",
  "tests use a few recorded CRLs",
  [A], [("loadAndCheckSignatureOfCRL, loadAndCheckIssuingDistributionPointOfCRL, verifyCRL", A)])
p("C22", "A downloaded file replaces the old one only if it verifies",
  "After a verified download the destination holds either the newly downloaded content that passed verification, or, when the download or its verification failed, its previous content, and success is reported only if what is at the destination passes verification; no temporary file is left behind (unless the process dies or the file cannot be removed; the next run then copes with it).",
  ["fault_sequences", "inputs", "crash_points"], "every outcome of the server, verification, file system faults and prior file state within the bounds",
  "tests use a local server with a few outcomes",
  [DV, D], [("DownloadAndVerifyFileSync", DV)])
p("C23", "A finished download is byte-for-byte the server's file",
  "When a download reports success the local file equals the content the server offers, also after interrupted transfers, retries, a cancelled run, and resumption from a partial or stale local file (if that content does not change meanwhile and the server delivers what it announces or breaks the connection); failures are retried no more often than configured.",
  ["fault_sequences", "histories", "inputs"], "every interruption pattern, server support for ranges, and prior local file within the bounds",
  "tests cover one interruption pattern",
  [D], [("determineAction/download/DownloadFileSync", D)])
p("C24", "CRL downloads never collide or escape the output directory",
  "The local file name chosen for a CRL stays inside the CRL directory of its issuer, and two CRL URLs that differ in more than the order and encoding of their query parameters never share a file, for every URL.",
  ["inputs"], "every pair of URLs up to the length bound",
  "tests use a few benign URLs",
  [A], [("makeFilenameFromUrl / normalizedUrlString", A)])
p("C25", "Revocation reasons are preserved and malformed reasons are reported",
  "The reason recorded for a revoked certificate is the one in its CRL entry's reason extension, zero when absent; repeated, out-of-range or malformed reasons are reported as errors and never recorded as another reason; the written list pairs each serial with its own reason.",
  ["inputs"], "every extension list and every extension content up to the length bound",
  "tests use fixed encodings",
  [TY, A], [("RevokedCertificateWithRawSerial.Reason/SerialAndReason", TY), ("StoreRevokedCertificateList", A)])
p("C26", "Merged issuers keep every CRL URL whatever the input order",
  "The set of CRL URLs recorded for an issuer's key is the union over all its certificates of the disclosed URLs, whether partitioned or full, and this, its partition flag and enrolment do not depend on the order in which certificates are processed.",
  ["inputs", "schedules"], "every assignment of certificates to keys and CRL sets and every processing order within the bounds",
  "map iteration order varies between runs; tests see one order with one certificate per key",
  [RP, TY], [("InsertIssuer/LoadFromDisk", RP), ("IssuerCrlMap.Merge", TY)])
p("C27", "Only trusted, unrevoked issuers are enrolled from the CA database report",
  "From a CA database report, exactly the intermediates that are not marked revoked and that chain, at load time and for TLS servers, through unrevoked intermediates to an included unrevoked root are enrolled, each with its own CRLs; a report without the needed columns or with short rows does not load, and a certificate that cannot be read enrols nobody and affects no other row. A load leaves only what the report it read says, and a report older than twelve hours is not used without asking for a newer one.",
  ["inputs", "fault_sequences"], "every small report of roots and intermediates with every revocation status and chain outcome",
  "tests use one recorded report",
  [RP], [("LoadFromDisk/loadCertificatesFromRecords", RP)])
p("C28", "CRL disclosure fields are decoded faithfully",
  "The CRL URLs taken from a CA database record are exactly the HTTP(S) URLs its full-CRL field and its JSON array (or a plain list) disclose; other schemes and blanks are dropped, and no field is turned into a different URL. An issuer counts as partitioned exactly if its array lists a CRL.",
  ["inputs"], "every field content up to the length bound over the field's alphabet",
  "tests use a few fixed fields",
  [RP], [("decodeCrls", RP)])
p("C29", "Enrolled issuers survive a save/load round trip",
  "Saving the enrolled issuers and loading them again yields the same set of issuers, each with the same subject, key identity, certificates and partition flag; a save that fails is reported, and a truncated or damaged list does not load, so later stages never work on other issuers than those enrolled.",
  ["inputs", "histories"], "every small set of issuers and field contents within the bounds",
  "tests check one set",
  [RP], [("SaveIssuersList/LoadEnrolledIssuers", RP)])
p("C30", "Serial numbers and issuer identities round-trip through every encoding",
  "A serial number keeps its exact bytes (including leading zeros and sign bytes) through its hexadecimal, JSON and binary encodings, an issuer identity through its text encodings, and malformed JSON or issuer text is rejected with an error, never with a crash or another value.",
  ["inputs"], "every byte string and every encoded text up to the length bound",
  "tests use fixed examples",
  [TY], [("Serial JSON/hex, Issuer/SPKI id encodings, NewSerialFromHex", TY)])
p("C31", "Configuration sources are applied in the documented precedence",
  "Every configuration value is taken from the environment if set there and valid, otherwise from the configuration file, otherwise the default; an unset or unparseable source never changes the value of another option.",
  ["configurations", "inputs"], "every combination of sources per option and every value text up to the bound",
  "tests cover a few options one at a time",
  [CF], [("confInt/confUint64/confBool/confString, CTConfig.Init", CF)])
p("C32", "The exported known-serials list is exactly the stored unexpired serials",
  "For every enrolled issuer the known-certificates export lists exactly the serials that storage holds for that issuer under unexpired dates, each in the file of that issuer, whatever the number of workers; serials of other issuers or expired dates never appear.",
  ["inputs", "schedules"], "every small storage content, enrolment and time; every worker interleaving within the bounds",
  "no test exists for the exporter",
  [K, S], [("aggregator.findWork / knownWorker.run", K)])
p("C33", "Audit entries record every CRL failure once",
  "Every CRL that could not be fetched, parsed or validated is recorded once in the audit report with its issuer, URL and kind of failure, and every processed one with its number of revocations, also when workers report concurrently; an issuer left without a list always has a failure on record, and the report written parses back to the same entries.",
  ["schedules", "fault_sequences"], "every interleaving of concurrent reports and combination of failures within the bounds",
  "tests report sequentially",
  [AU], [("CrlAuditor", AU)])
p("C34", "Concurrent moves to storage lose nothing",
  "Moving many issuer/expiry bins to storage concurrently stores every covered serial of every bin and reports an error if any bin failed, whatever the interleaving of the workers and the number of bins relative to the batch size.",
  ["schedules", "fault_sequences", "inputs"], "every worker interleaving and failing bin within the bounds; bin counts around the batch boundary",
  "tests use one or two bins",
  [S], [("moveCachedSerialsToStorage", S)])
p("C35", "The published filter and deltas of a channel always lead to the most recent run",
  "After a successful run of the publisher, each enabled channel holds exactly one full filter and one chain of deltas on top of it, in the order of time, with no run left out since the last update and the most recent complete run at its end; every record carries the file, name and time of its run. Whenever the records, the runs or their data do not fit together, or the full filter has reached its age limit, the channel is replaced by a full filter of the most recent run, and only then. Nothing is published before that run is complete, by a dry run, or of another channel; records of channels out of use are removed. A run that fails asks for no review, and the next one puts things right.",
  ["inputs", "histories", "fault_sequences"], "every identifier, time and state of runs and records within the bounds, every history of runs, and a failure of any request",
  "the tests use fixed run identifiers twelve hours apart and no request fails in them",
  ["moz_kinto_publisher/main.py"], [("crlite_verify_record_consistency, crlite_determine_publish, publish_crlite, main", "moz_kinto_publisher/main.py"), ("get_run_identifiers, download_and_retry_from_google_cloud", "workflow/__init__.py")], observe=["records of the collection", "review requests"])
p("C36", "The filter generator counts and classifies every known serial",
  "Every known unrevoked serial and every revoked serial of an enrolled issuer is included in the filter construction with the right membership, and reasons selected to be skipped are treated as not revoked, so the filter answers exactly for all known certificates.",
  ["inputs"], "every small set of known and revoked lists and each reason set",
  "tests sample a few lists",
  ["rust-create-cascade/src/main.rs"], [("known/revoked iterators, reason sets, revset delta", "rust-create-cascade/src/main.rs")])
p("C37", "Goroutines share memory only under synchronisation",
  "No two goroutines of a program access the same memory, one of them writing, without synchronisation between the accesses: the downloaders, the refresh of the log list, the database writer and the health service of ct-fetch, the workers and the audit report of aggregate-crls, the workers of aggregate-known, and the concurrent moves of a commit.",
  ["schedules"], "every explored schedule of whole runs, and every pair of methods of the shared objects",
  "the tests run these parts in one goroutine, and a race shows only under particular schedules",
  [F, A, K, S, AU, RP], [("EnrolledLogs, LogSyncEngine", F), ("CrlAuditor", AU), ("moveCachedSerialsToStorage", S), ("knownWorker.run", K)])
p("C38", "A program that reports success has done its job, even when interrupted",
  "Whenever aggregate-crls, aggregate-known, commit, get-mozilla-issuers or ct-fetch ends with a successful status, also after a termination signal, a full disk, or an unreachable server or storage in the middle of the run, its output is whole: every revoked list, known list, commit epoch or issuer list it should have written is there with its full content, and saved log positions cover only stored certificates. A failed run leaves no serial lost and no lock that keeps later runs from finishing the job.",
  ["fault_sequences", "crash_points", "schedules"], "every operation at which a run fails or is interrupted, once or from then on, and every interleaving within the bounds",
  "tests call functions one at a time and never run the programs, let alone with a signal or a fault in the middle",
  [A, K, "go/cmd/commit/commit.go", "go/cmd/get-mozilla-issuers/get-mozilla-issuers.go", F],
  [("main, signal handling", A), ("main, signal handling", K), ("main", "go/cmd/commit/commit.go"), ("main", "go/cmd/get-mozilla-issuers/get-mozilla-issuers.go"), ("main, SyncLog", F)],
  observe=["exit status", "files and storage after the run"])
p("C39", "The health endpoint tells a working ingester from a stuck one",
  "A request to the health endpoint of ct-fetch is answered 503 until the ingester has first made progress, then 200 if it last made progress within twice the polling delay, and 500 otherwise. A finished round of a log's downloader and an entry taken for storage are progress, the latter at least every half minute; a round that fails, a log that hangs and a storage that fails or blocks are not.",
  ["schedules", "inputs", "fault_sequences"], "every time of last progress and of the request, every polling delay, every point of a failure within the bounds",
  "no test runs the health service",
  [F], [("main: health handler", F), ("LogSyncEngine.insertCTWorker/RegisterUpdate", F)], observe=["HTTP status of /health"])
p("C40", "The intermediates collection holds exactly the enrolled issuers",
  "After a successful run of the publisher, the intermediates collection holds one record for every certificate of the most recent run's enrolled list, with that certificate attached and its hash, and no other record: removed issuers, duplicates and broken records are gone. Only then is a review asked for; a run in which any of this fails says so, asks for no review, and the next run puts it right. A dry run changes nothing.",
  ["inputs", "histories", "fault_sequences"], "every enrolled list and collection within the bounds, broken entries included, and a failure of any request",
  "the tests load one example list and the live collection",
  ["moz_kinto_publisher/main.py"], [("publish_intermediates, load_remote_intermediates, Intermediate", "moz_kinto_publisher/main.py")], observe=["records and attachments of the collection", "review requests"])
p("C41", "The ct-logs collection mirrors Google's log list and keeps the enrolment",
  "After a successful run of the publisher, the ct-logs collection holds one record for every log of Google's list, tiled or not, with its current description, key, URL, delay, operator and admissibility, and no other; whether a log is enrolled in CRLite is never altered by the publisher, and a log on the list is never removed. A list with repeated or wrong log IDs is refused without any change, and a review is asked for exactly when something changed. A dry run changes nothing, and what a failed request prevented is done by the next run.",
  ["inputs", "fault_sequences"], "every list and collection within the bounds, and a failure of any request",
  "the only test needs the live list and starts from an empty collection",
  ["moz_kinto_publisher/main.py"], [("publish_ctlogs", "moz_kinto_publisher/main.py")], observe=["records of the collection", "review requests"])
p("C42", "Run identifiers are fresh, and a run is marked complete only when it is",
  "The identifier given to a new run begins with its date and is later than every run in the bucket, in whatever order these are listed and however many there were that day. An upload marks the run complete only when every filter, delta and other file of the run is in the bucket; a run without a filter is refused, an upload that reports success has uploaded everything, and a dry run uploads nothing.",
  ["inputs", "fault_sequences"], "every listing within the bounds; every set of files and a failure of any request, once or lasting",
  "the scripts have no tests",
  ["workflow/0-allocate_identifier", "workflow/1-upload_data_to_storage", "workflow/3-upload_mlbf_to_storage", "workflow/__init__.py"],
  [("allocation", "workflow/0-allocate_identifier"), ("get_run_identifiers, normalize_identifier", "workflow/__init__.py"), ("main", "workflow/3-upload_mlbf_to_storage"), ("main", "workflow/1-upload_data_to_storage")], observe=["objects in the bucket", "exit status"])
p("C43", "Review and sign-off take only what is due",
  "The publisher offers for review the collection it is asked for, exactly if that has unreviewed changes (work-in-progress), and touches no other status or collection. The sign-off tool moves the collection it was asked for, and no other, from to-review to to-sign and from no other status; it does nothing in a dry run, refuses unknown collections, and reports success exactly when there was nothing to sign or it has been signed.",
  ["inputs", "fault_sequences"], "every status, collection and failure of a request",
  "neither has tests",
  ["containers/scripts/crlite-signoff-tool.py", "moz_kinto_publisher/main.py"], [("PublisherClient.request_review_of_collection", "moz_kinto_publisher/main.py"), ("sign_collection", "containers/scripts/crlite-signoff-tool.py")], observe=["status of the collections", "exit status"])
p("C44", "A published channel misses no change up to the last run, whatever failed",
  "Run after run, with any request or generator failing in any of them: the full filter and deltas that the publisher leaves in a channel add up to the last stored run. Every delta was generated against the revocation set of a run no later than the update before it, so that nothing revoked in between, in a run that failed or was never published, is missing; a channel carries filters of its own kind and reasons; a client never goes back to an earlier run; and without a failure every run is generated, stored and published.",
  ["histories", "fault_sequences", "crash_points"], "every sequence of three (thorough: four) runs, each with a failure at any point, published or not in between",
  "no test runs more than one of the programs, or makes one fail",
  ["workflow/2-generate_mlbf", "workflow/3-upload_mlbf_to_storage", "workflow/1-upload_data_to_storage", "workflow/0-allocate_identifier", "workflow/__init__.py", "moz_kinto_publisher/main.py"],
  [("main", "workflow/2-generate_mlbf"), ("main", "workflow/3-upload_mlbf_to_storage"), ("crlite_determine_publish, crlite_verify_run_id_consistency, publish_crlite", "moz_kinto_publisher/main.py")], observe=["records of the collection", "what each delta is relative to"])
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
