From 10d8df4c8aa63ad3df2981d8138cc21a3984a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 01/23] fix: release the commit lock atomically

A lock that expired between the ownership check and the deletion could be
acquired by another process, whose lock was then deleted.
---
 go/storage/rediscache.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index e2b1665..1c4fb68 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -29,6 +29,15 @@ const NO_EXPIRATION time.Duration = 0
 const COMMIT_LOCK_KEY string = "lock::commit"
 const COMMIT_LOCK_EXPIRATION time.Duration = 4 * time.Hour
 
+// Deletes the commit lock if it is held by the caller. The comparison and the
+// deletion have to be one atomic step: the lock could otherwise expire, and be
+// acquired by another process, in between.
+const RELEASE_COMMIT_LOCK_SCRIPT string = `
+if redis.call("get", KEYS[1]) == ARGV[1] then
+	return redis.call("del", KEYS[1])
+end
+return 0`
+
 const EPOCH_KEY string = "epoch"
 
 type RedisCache struct {
@@ -289,9 +298,9 @@ func (ec *RedisCache) AcquireCommitLock() (*string, error) {
 }
 
 func (ec *RedisCache) ReleaseCommitLock(aToken string) {
-	hasLock, err := ec.HasCommitLock(aToken)
-	if err == nil && hasLock {
-		ec.client.Del(COMMIT_LOCK_KEY)
+	err := ec.client.Eval(RELEASE_COMMIT_LOCK_SCRIPT, []string{COMMIT_LOCK_KEY}, aToken).Err()
+	if err != nil {
+		glog.Warningf("Couldn't release commit lock: %s", err)
 	}
 }
 
-- 
2.43.0


From 744339b7db56ab64db667098fbcf75f62039c5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 02/23] fix: do not overflow the coverage cutoff for large
 merge delays

---
 go/types.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go/types.go b/go/types.go
index 8475b85..1991e56 100644
--- a/go/types.go
+++ b/go/types.go
@@ -164,14 +164,14 @@ func (o *CTLogState) KeyID() ([32]byte, error) {
 }
 
 func (o *CTLogState) CoverageCutoff() uint64 {
-	// MMD is in seconds whereas timestamp is in milliseconds
-	msMMD := o.MMD * uint64(time.Second.Milliseconds())
-
-	if o.MaxTimestamp < msMMD {
+	// MMD is in seconds whereas timestamp is in milliseconds. Compare in
+	// seconds first, as the conversion of the MMD can overflow.
+	msPerSecond := uint64(time.Second.Milliseconds())
+	if o.MaxTimestamp/msPerSecond < o.MMD {
 		return 0
 	}
 
-	return o.MaxTimestamp - msMMD
+	return o.MaxTimestamp - o.MMD*msPerSecond
 }
 
 type CoverageCutoffMap map[[32]byte]uint64
-- 
2.43.0


From c30f2a5ef5bf49ac0ac1cc792ee038b273805950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 03/23] fix: report a failure to flush a serial list

---
 go/storage/certdatabase.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index b9d7a98..0034433 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -32,7 +32,6 @@ func serialListExpiryLine(aExpDate types.ExpDate) string {
 
 func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer, aSerials []types.Serial) error {
 	writer := bufio.NewWriter(w)
-	defer writer.Flush()
 
 	// Write the expiry date for this collection of serial numbers as a unix
 	// timestamp encoded as a zero-padded 16 digit hex string. The expiry
@@ -56,7 +55,8 @@ func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer,
 		}
 	}
 
-	return nil
+	// The list is only complete if the buffered data was written, too.
+	return writer.Flush()
 }
 
 type CertDatabase struct {
-- 
2.43.0


From ba773dd41528d5af42074b04d2f5d9cb92d4a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 04/23] fix: do not advance the cache epoch when the storage
 epoch was not written

---
 go/storage/certdatabase.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 0034433..755f4ed 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -619,7 +619,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		glog.Warningf("Failed to increment epochs: %s", err)
 		return nil
 	}
-	writer.Flush()
+	err = writer.Flush()
+	if err != nil {
+		glog.Warningf("Failed to increment epochs: %s", err)
+		return nil
+	}
 
 	err = db.cache.NextEpoch()
 	if err != nil {
-- 
2.43.0


From f0d9b7a193133fec68aedb546e964bd523315383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 05/23] fix: list every bin of cached serials once

---
 go/storage/certdatabase.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 755f4ed..0d25fa9 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -118,7 +118,15 @@ func (db *CertDatabase) GetIssuerAndDatesFromChannel(reader <-chan string) ([]ty
 	// We gather these by issuer to obtain a list of the form
 	//    [(issuer 1, [date 1, date 2, ...]), (issuer 2, [...]), ...].
 	issuerMap := make(map[string]types.IssuerDate)
+	seen := make(map[string]struct{})
 	for entry := range reader {
+		// Redis' scan methods may list a key more than once. Every bin must
+		// be listed once, because bins are processed concurrently.
+		if _, ok := seen[entry]; ok {
+			continue
+		}
+		seen[entry] = struct{}{}
+
 		parts := strings.Split(entry, "::")
 		if len(parts) != 3 {
 			return []types.IssuerDate{}, fmt.Errorf("Unexpected key format: %s", entry)
-- 
2.43.0


From 282d90dd90685587846d491b2bbb3655cae92b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 06/23] fix: do not continue with an incomplete list of cached
 keys

---
 go/storage/certdatabase.go | 30 +++++++++++++++++++++---------
 go/storage/rediscache.go   | 12 ++++++++----
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 0d25fa9..dd0e912 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -163,14 +163,22 @@ func (db *CertDatabase) GetIssuerAndDatesFromCache() ([]types.IssuerDate, error)
 	// The cache stores sets of serial numbers in bins that are keyed by strings
 	// of the form "serials::<date>::<issuer id>".
 	allChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.KeysToChan("serials::*", allChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list from cache")
-		}
+		errChan <- db.cache.KeysToChan("serials::*", allChan)
 	}()
 
-	return db.GetIssuerAndDatesFromChannel(allChan)
+	issuerList, err := db.GetIssuerAndDatesFromChannel(allChan)
+	if err != nil {
+		return issuerList, err
+	}
+
+	// The channel is closed on failure, too, so the list is only complete if
+	// there was no error.
+	if err := <-errChan; err != nil {
+		return []types.IssuerDate{}, fmt.Errorf("Couldn't list from cache: %w", err)
+	}
+	return issuerList, nil
 }
 
 func (db *CertDatabase) GetIssuerAndDatesFromStorage() ([]types.IssuerDate, error) {
@@ -680,16 +688,20 @@ func (db *CertDatabase) List(k *SerialCacheKey) map[string]struct{} {
 	uniqueEntries := make(map[string]struct{})
 
 	strChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := db.cache.SetToChan(k.ID(), strChan)
-		if err != nil {
-			glog.Fatalf("Error obtaining list of known certificates: %v", err)
-		}
+		errChan <- db.cache.SetToChan(k.ID(), strChan)
 	}()
 
 	for str := range strChan {
 		uniqueEntries[str] = struct{}{}
 	}
 
+	// The channel is closed on failure, too, so do not go on with a list that
+	// might be incomplete.
+	if err := <-errChan; err != nil {
+		glog.Fatalf("Error obtaining list of known certificates: %v", err)
+	}
+
 	return uniqueEntries
 }
diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index 1c4fb68..956feed 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -258,11 +258,9 @@ func (ec *RedisCache) LoadLogState(shortUrl string) (*types.CTLogState, error) {
 func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 	ctLogList := make([]types.CTLogState, 0)
 	keyChan := make(chan string)
+	errChan := make(chan error, 1)
 	go func() {
-		err := ec.KeysToChan("log::*", keyChan)
-		if err != nil {
-			glog.Fatalf("Couldn't list CT logs from cache: %s", err)
-		}
+		errChan <- ec.KeysToChan("log::*", keyChan)
 	}()
 
 	for entry := range keyChan {
@@ -277,6 +275,12 @@ func (ec *RedisCache) LoadAllLogStates() ([]types.CTLogState, error) {
 		}
 	}
 
+	// The channel is closed on failure, too, so the list is only complete if
+	// there was no error.
+	if err := <-errChan; err != nil {
+		return nil, fmt.Errorf("Couldn't list CT logs from cache: %w", err)
+	}
+
 	return ctLogList, nil
 }
 
-- 
2.43.0


From 5159f5d88aa0cbe1c5f2a08dfad37cddc7888c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 07/23] fix: rfc6962 backlogs of up to three entries could
 never be verified

---
 go/cmd/ct-fetch/rfc6962.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index bf5acfe..1de35fc 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -325,6 +325,11 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		} else {
 			firstIndex = lw.STH.TreeSize - lw.JobSize
 		}
+		if firstIndex <= 3 {
+			// We could not verify a backlog of three or fewer entries
+			// (see the comment on |oldSize| below).
+			firstIndex = 0
+		}
 		lastIndex = lw.STH.TreeSize - 1
 		glog.Infof("[%s] Running Init job %d %d", lw.Name(), firstIndex, lastIndex)
 	case Update:
@@ -400,6 +405,12 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// 0 or 1). We ensured newSize > 3 when we assigned this
 		// worker its job, so we can use oldSize = 3.
 		oldSize = 3
+		if newSize == 2 || newSize == 3 {
+			// A Backfill job that was interrupted left us with two or
+			// three entries to download. They are terms of the proof
+			// between the trees of size 3 and 4.
+			newSize = 4
+		}
 	}
 	proof, err := lw.Client.GetSTHConsistency(ctx, oldSize, newSize)
 	if err != nil {
-- 
2.43.0


From adcf8647a19f8f219a37ac218e9db215b5da835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 08/23] fix: rfc6962 an empty log state is not coverage of
 entry 0

---
 go/cmd/ct-fetch/rfc6962.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index 1de35fc..5b4393d 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -359,7 +359,10 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
+		//
+		// (The MaxEntry of a log that we have not downloaded from yet
+		// does not mean that we have seen entry 0.)
+		if !lw.LogState.LastUpdateTime.IsZero() && lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
 			err := lw.updateState(ctx, nil, lw.LogState.MinEntry, lw.STH.Timestamp, entryChan)
 			if err != nil {
 				glog.Errorf("[%s] Failed to update log state: %s", lw.Name(), err)
-- 
2.43.0


From 9d1766b90d7862c4dbd43c40a6c56f7928e40d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 09/23] fix: tiled logs entry 0 was published as covered
 without being read

---
 go/cmd/ct-fetch/tiled.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index 86a6139..c6be73a 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -22,6 +22,7 @@ type TiledLogWorker struct {
 	Checkpoint   torchwood.Checkpoint
 	SthTimestamp uint64
 	LogState     *types.CTLogState
+	NextEntry    uint64
 	LogKeyId     [32]byte
 	IssuerMap    *map[string]*types.Certificate
 	WorkOrder    LogWorkerTask
@@ -80,6 +81,12 @@ func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta
 		sthTimestamp = uint64(noteTimestamp)
 	}
 
+	// On first contact with a log we have not even seen entry 0.
+	nextEntry := uint64(0)
+	if !logObj.LastUpdateTime.IsZero() {
+		nextEntry = logObj.MaxEntry + 1
+	}
+
 	// Determine what the worker should do.
 	var task LogWorkerTask
 	if fetchErr != nil {
@@ -95,7 +102,7 @@ func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta
 		} else if time.Since(logObj.LastUpdateTime) < 10*time.Minute {
 			// There are few new entries, and we updated recently.
 			task = Sleep
-		} else if logObj.MaxEntry+1 < uint64(checkpoint.Tree.N) {
+		} else if nextEntry < uint64(checkpoint.Tree.N) {
 			// There is at least one new entry and we haven't
 			// downloaded anything recently.
 			task = ForceUpdate
@@ -107,6 +114,7 @@ func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta
 	return &TiledLogWorker{
 		Client:       client,
 		LogState:     logObj,
+		NextEntry:    nextEntry,
 		LogKeyId:     logKeyId,
 		LogMeta:      ctLogMeta,
 		Checkpoint:   checkpoint,
@@ -268,7 +276,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
+		if lw.NextEntry > 0 && lw.NextEntry == uint64(lw.Checkpoint.Tree.N) {
 			maxTimestamp = lw.SthTimestamp
 			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
 			if err != nil {
@@ -292,13 +300,14 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 	//   - (false, nil): intermittent error, the TileLogWorker should sleep.
 	//   - (false, err): fatal error, log ingestion should halt.
 	readLogEntries := func() (bool, error) {
-		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(maxEntry+1)) {
+		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(lw.NextEntry)) {
 			keepGoing, err := lw.storeLogEntry(ctx, entry, entryChan)
 			if !(keepGoing && err == nil) {
 				return keepGoing, err
 			}
 
 			maxEntry = uint64(i)
+			lw.NextEntry = maxEntry + 1
 			minTimestamp = uint64Min(minTimestamp, uint64(entry.Timestamp))
 			maxTimestamp = uint64Max(maxTimestamp, uint64(entry.Timestamp))
 
@@ -311,13 +320,15 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 			}
 		}
 
-		err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
-		if err != nil {
-			glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
-			return false, err
+		if lw.NextEntry > 0 {
+			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
+			if err != nil {
+				glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
+				return false, err
+			}
 		}
 
-		err = lw.Client.Err()
+		err := lw.Client.Err()
 		if err != nil {
 			glog.Errorf("[%s] : Sunlight client error %s", lw.Name(), err)
 			return false, nil
-- 
2.43.0


From bebb1379b43e8946a06ebc1bf6adf2d7c70a1c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 10/23] fix: ct-fetch: wait for downloaders and the database
 thread that have yet to start

Wait could return, and close entryChan, while the goroutine of an enrolled
log had not reached DownloaderWaitGroup.Add: the program then exited
successfully without fetching the log, or a downloader panicked sending on
the closed channel.
---
 go/cmd/ct-fetch/ct-fetch.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index f2d6c71..f0cc138 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -87,12 +87,27 @@ func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
 }
 
 func (ld *LogSyncEngine) StartDatabaseThread(ctx context.Context) {
+	ld.ThreadWaitGroup.Add(1)
 	go ld.insertCTWorker(ctx)
 }
 
+// Starts a downloader for every log that gets enrolled. The enrollment itself
+// counts as a downloader, so that Wait does not return while the downloader of
+// an enrolled log has yet to start.
+func (ld *LogSyncEngine) StartDownloaderThreads(ctx context.Context, enrolledLogs *EnrolledLogs) {
+	ld.DownloaderWaitGroup.Add(1)
+	go func() {
+		defer ld.DownloaderWaitGroup.Done()
+		for ctLog := range enrolledLogs.NewChan {
+			glog.Infof("[%s] Starting download.", ctLog.URL)
+			ld.DownloaderWaitGroup.Add(1)
+			go ld.SyncLog(ctx, enrolledLogs, ctLog)
+		}
+	}()
+}
+
 // Blocking function, run from a thread
 func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
-	ld.DownloaderWaitGroup.Add(1)
 	defer ld.DownloaderWaitGroup.Done()
 
 	if err := ld.database.Migrate(&logMeta); err != nil {
@@ -215,7 +230,6 @@ func (ld *LogSyncEngine) tryUpdate(queue []storage.SetMemberWithExpiry, logState
 }
 
 func (ld *LogSyncEngine) insertCTWorker(ctx context.Context) {
-	ld.ThreadWaitGroup.Add(1)
 	defer ld.ThreadWaitGroup.Done()
 
 	healthStatusPeriod := time.Duration(15000+rand.Int63n(15000)) * time.Millisecond
@@ -464,12 +478,7 @@ func main() {
 	syncEngine.StartDatabaseThread(ctx)
 
 	// Sync with logs as they are enrolled
-	go func() {
-		for ctLog := range enrolledLogs.NewChan {
-			glog.Infof("[%s] Starting download.", ctLog.URL)
-			go syncEngine.SyncLog(ctx, enrolledLogs, ctLog)
-		}
-	}()
+	syncEngine.StartDownloaderThreads(ctx, enrolledLogs)
 
 	// Enroll logs from local settings
 	if *ctconfig.CTLogMetadata != "" {
-- 
2.43.0


From c604ba3bcc9898d56dd9403b75c8dc2c13f67595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:36 +0000
Subject: [PATCH 11/23] fix: ct-fetch: one downloader per log

A log that was unenrolled and enrolled again while its downloader slept had
two downloaders from then on, each overwriting the progress saved by the
other.
---
 go/cmd/ct-fetch/ct-fetch.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index f0cc138..52ea3bc 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -73,6 +73,8 @@ type LogSyncEngine struct {
 	entryChan           chan LogSyncMessage
 	lastUpdateTime      time.Time
 	lastUpdateMutex     *sync.RWMutex
+	downloaders         map[string]*sync.Mutex // LogID -> mutex held by the log's downloader
+	downloadersMutex    *sync.Mutex
 }
 
 func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
@@ -83,9 +85,23 @@ func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
 		entryChan:           make(chan LogSyncMessage, 1024*16),
 		lastUpdateTime:      time.Time{},
 		lastUpdateMutex:     &sync.RWMutex{},
+		downloaders:         make(map[string]*sync.Mutex),
+		downloadersMutex:    &sync.Mutex{},
 	}
 }
 
+// Returns the mutex that the downloader of a log has to hold.
+func (ld *LogSyncEngine) downloaderMutex(logID string) *sync.Mutex {
+	ld.downloadersMutex.Lock()
+	defer ld.downloadersMutex.Unlock()
+	mutex, prs := ld.downloaders[logID]
+	if !prs {
+		mutex = new(sync.Mutex)
+		ld.downloaders[logID] = mutex
+	}
+	return mutex
+}
+
 func (ld *LogSyncEngine) StartDatabaseThread(ctx context.Context) {
 	ld.ThreadWaitGroup.Add(1)
 	go ld.insertCTWorker(ctx)
@@ -110,6 +126,12 @@ func (ld *LogSyncEngine) StartDownloaderThreads(ctx context.Context, enrolledLog
 func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
 	defer ld.DownloaderWaitGroup.Done()
 
+	// A log that was unenrolled and enrolled again may still have a downloader
+	// that has not noticed. Two of them would overwrite each other's progress.
+	mutex := ld.downloaderMutex(logMeta.LogID)
+	mutex.Lock()
+	defer mutex.Unlock()
+
 	if err := ld.database.Migrate(&logMeta); err != nil {
 		return err
 	}
@@ -122,7 +144,7 @@ func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs
 	issuerMap := map[string]*types.Certificate{}
 
 	for {
-		if !enrolledLogs.IsEnrolled(logMeta.LogID) {
+		if !enrolledLogs.IsEnrolledAs(logMeta) {
 			return nil
 		}
 
@@ -354,6 +376,15 @@ func (el *EnrolledLogs) IsEnrolled(logID string) bool {
 	return prs
 }
 
+// Like IsEnrolled, but false if the log was enrolled again with other metadata.
+func (el *EnrolledLogs) IsEnrolledAs(ctLog types.CTLogMetadata) bool {
+	el.mutex.RLock()
+	defer el.mutex.RUnlock()
+
+	enrolled, prs := el.metadata[ctLog.LogID]
+	return prs && enrolled == ctLog
+}
+
 func (el *EnrolledLogs) updateFromRemoteSettingsOnce() error {
 	remoteSettingsURL, err := url.Parse(*ctconfig.RemoteSettingsURL)
 	if err != nil {
-- 
2.43.0


From eb7cc585a5620723b603f7caefd1032411f620c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 12/23] fix: report a cancelled download as failed

DownloadFileSync returned nil when its context was done, even if no attempt
had succeeded, so a missing or partial file counted as downloaded.
---
 go/downloader/downloader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/downloader/downloader.go b/go/downloader/downloader.go
index 5078e1f..b1aee4e 100644
--- a/go/downloader/downloader.go
+++ b/go/downloader/downloader.go
@@ -184,7 +184,7 @@ func DownloadFileSync(ctx context.Context, crlUrl url.URL,
 		select {
 		case <-ctx.Done():
 			glog.Infof("Signal caught, stopping threads at next opportunity.")
-			return nil
+			return ctx.Err()
 		default:
 			err = download(ctx, crlUrl, path, timeout)
 			if err == nil {
-- 
2.43.0


From 56fa02e20f541900695444d214a69e17d847590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 13/23] fix: ignore the headers of a failed HEAD request

The length and date of an error page were taken for those of the file, so a
partial local file of that length counted as up to date.
---
 go/downloader/downloader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/downloader/downloader.go b/go/downloader/downloader.go
index b1aee4e..ee221dd 100644
--- a/go/downloader/downloader.go
+++ b/go/downloader/downloader.go
@@ -51,6 +51,10 @@ func determineAction(client *http.Client, crlUrl url.URL, path string) (Download
 	if err != nil {
 		return Create, szOnDisk, 0
 	}
+	if resp.StatusCode != http.StatusOK {
+		glog.V(1).Infof("[%s] CREATE: Non-OK status: %s", crlUrl.String(), resp.Status)
+		return Create, szOnDisk, 0
+	}
 
 	eTag := resp.Header.Get("Etag")
 	lastMod, err := http.ParseTime(resp.Header.Get("Last-Modified"))
-- 
2.43.0


From 2c224cad4305085645bab7ef243847cae26a21a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 14/23] fix: report a failed write of a revoked serials file

The last buffered part of the file was flushed by a deferred call whose error
was dropped, so a full disk left a truncated list that counted as complete.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 97d6201..23468fa 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -471,7 +471,6 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 	defer fd.Close()
 
 	writer := bufio.NewWriter(fd)
-	defer writer.Flush()
 
 	for _, s := range serials {
 		select {
@@ -492,7 +491,7 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 			}
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func checkPathArg(strObj string, confOptionName string, ctconfig *config.CTConfig) {
-- 
2.43.0


From 6052f01ceffe42a7b40af015657ae00423545018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 15/23] fix: audit every reason for which a CRL is left out

A CRL whose directory, final rename or status failed on disk was left out
without an entry in the audit report.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 2 ++
 go/downloader/verifying-downloader.go   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 23468fa..0179ee4 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -94,6 +94,7 @@ func (ae *AggregateEngine) crlFetchWorkerProcessOne(ctx context.Context, crlUrl
 	err := os.MkdirAll(filepath.Join(*crlpath, issuer.ID()), permModeDir)
 	if err != nil {
 		glog.Warningf("Couldn't make directory: %s", err)
+		ae.auditor.FailedProcessLocal(&issuer, &crlUrl, filepath.Join(*crlpath, issuer.ID()), err)
 		return "", err
 	}
 
@@ -125,6 +126,7 @@ func (ae *AggregateEngine) crlFetchWorkerProcessOne(ctx context.Context, crlUrl
 	if err != nil {
 		glog.Errorf("[%s] Unexpected error on local file, will not be populating the "+
 			"revocations: %s", crlUrlStr, err)
+		ae.auditor.FailedProcessLocal(&issuer, &crlUrl, finalPath, err)
 		return "", err
 	}
 
diff --git a/go/downloader/verifying-downloader.go b/go/downloader/verifying-downloader.go
index 84187e3..671a63b 100644
--- a/go/downloader/verifying-downloader.go
+++ b/go/downloader/verifying-downloader.go
@@ -65,6 +65,7 @@ func DownloadAndVerifyFileSync(ctx context.Context, verifyFunc DownloadVerifier,
 
 	renameErr := os.Rename(tmpPath, finalPath)
 	if renameErr != nil {
+		auditor.FailedDownload(identifier, &crlUrl, dlTracer, renameErr)
 		glog.Errorf("[%s] Couldn't rename %s to %s: %s", identifier.ID(), tmpPath, finalPath, renameErr)
 
 		return attemptFallbackToExistingFile(renameErr)
-- 
2.43.0


From da55b4eccbe3fc0f1c188bfad9f60c5f5b3338e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:25 +0000
Subject: [PATCH 16/23] fix: do not drop malformed query parts when naming CRL
 files

CRL URLs that differ only in parts of the query that do not parse were
normalized to the same URL, and could share a file.
---
 go/cmd/aggregate-crls/aggregate-crls.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 0179ee4..bb4c12d 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -50,8 +50,13 @@ var (
 
 func normalizedUrlString(u *url.URL) string {
 	if u.RawQuery != "" {
+		// A query that does not parse would lose its malformed parts
+		query, err := url.ParseQuery(u.RawQuery)
+		if err != nil {
+			return u.String()
+		}
 		normalized := *u
-		normalized.RawQuery = normalized.Query().Encode()
+		normalized.RawQuery = query.Encode()
 		return normalized.String()
 	}
 	return u.String()
-- 
2.43.0


From c4d2cfea357725b8af5f26a9942313537fe84a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 17/23] fix: an issuer's partitioned CRL flag must not depend
 on certificate order

If an issuer has several certificates, only the flag of the one that happened
to be inserted first (in map iteration order) was recorded.
---
 go/rootprogram/issuers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 7383ca6..189e4f0 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -470,6 +470,9 @@ func (mi *MozIssuers) InsertIssuer(aCert *ctx509.Certificate, aCrls []string, aU
 	v, exists := mi.issuerMap[issuer.ID()]
 	if exists {
 		v.certs = append(v.certs, ic)
+		// The CRLs of all of the issuer's certificates are merged, so if any
+		// certificate uses partitioned CRLs then the issuer does.
+		v.usesPartitionedCrls = v.usesPartitionedCrls || aUsesPartitionedCrls
 		mi.issuerMap[issuer.ID()] = v
 		return issuer
 	}
-- 
2.43.0


From 6196eb225dc0666ca80262ceeeee0d7ec34c57cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 18/23] fix: decode the JSON array of partitioned CRLs as JSON

Splitting the array at commas turns a URL that contains a comma into a
different URL.
---
 go/rootprogram/issuers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 189e4f0..b68aabf 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -422,8 +422,12 @@ func decodeCrls(fullCrlStr string, partCrlJson string) ([]string, bool, error) {
 		}
 	}
 
-	partCrlJson = strings.Trim(strings.TrimSpace(partCrlJson), "[]")
-	partCrls := strings.Split(partCrlJson, ",")
+	var partCrls []string
+	if err := json.Unmarshal([]byte(partCrlJson), &partCrls); err != nil {
+		// Not a JSON array of strings, treat it as a plain list.
+		partCrlJson = strings.Trim(strings.TrimSpace(partCrlJson), "[]")
+		partCrls = strings.Split(partCrlJson, ",")
+	}
 	for _, crl := range partCrls {
 		crl = strings.Trim(strings.TrimSpace(crl), `"`)
 		if crl == "" {
-- 
2.43.0


From 5a930380004291e9f32ef45d0f63cdca6e872e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:18 +0000
Subject: [PATCH 19/23] fix: report an enrolled issuers list that could not be
 written

The encoder's error was shadowed and lost.
---
 go/rootprogram/issuers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index b68aabf..60d57bc 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -337,6 +337,8 @@ func (mi *MozIssuers) SaveIssuersList(filePath string) error {
 
 	if err := enc.Encode(issuers); err != nil {
 		glog.Errorf("Error marshaling enrolled issuer %s: %s", filePath, err)
+		fd.Close()
+		return err
 	}
 
 	if err = fd.Close(); err != nil {
-- 
2.43.0


From f82335c4fae4311b1d8787f6a790394e1bcc466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:59 +0000
Subject: [PATCH 20/23] fix: an interrupted aggregate-crls must not report
 success

---
 go/cmd/aggregate-crls/aggregate-crls.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index bb4c12d..197d854 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -563,11 +563,18 @@ func main() {
 
 	crlPaths, count := ae.downloadCRLs(ctx, mozIssuers)
 
-	if ctx.Err() != nil {
-		return
+	// The lists of an interrupted run are incomplete. We want the error to
+	// bubble up to a non-zero return code for the process.
+	if err := ctx.Err(); err != nil {
+		glog.Fatalf("Interrupted while downloading CRLs: %s", err)
 	}
 
 	ae.aggregateCRLs(ctx, count, crlPaths)
+
+	if err := ctx.Err(); err != nil {
+		glog.Fatalf("Interrupted while aggregating CRLs: %s", err)
+	}
+
 	if err := mozIssuers.SaveIssuersList(*enrolledpath); err != nil {
 		glog.Fatalf("Unable to save the crlite-informed intermediate issuers to %s: %s", *enrolledpath, err)
 	}
-- 
2.43.0


From 645aa4e51c4d4d96ba70e36001b8ae3ecc6c6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:26 +0000
Subject: [PATCH 21/23] fix: the publisher takes a filter's age from its
 earliest run, also after ten runs in a day

The run identifiers were compared as texts, so that "20250101-10" came
before "20250101-9" and the age of a full filter could be taken from a
later run.
---
 moz_kinto_publisher/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 6dc3824..aa3ee7d 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -967,7 +967,9 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
         return default
 
     # If the full filter is too old, publish a full filter.
-    earliest_timestamp = run_db.get_run_timestamp(min(record_run_ids))
+    earliest_timestamp = run_db.get_run_timestamp(
+        min(record_run_ids, key=workflow.normalize_identifier)
+    )
     new_timestamp = run_db.get_run_timestamp(new_run_id)
     if new_timestamp - earliest_timestamp >= timedelta(
         days=channel.max_filter_age_days
-- 
2.43.0


From 31fdddbf9425560cca3848d2f8fe46a38ef9b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:26 +0000
Subject: [PATCH 22/23] fix: the publisher does not put an older update on top
 of a newer one

The consistency check compared the times of the new runs with each other,
but not with the latest published record, so a run with a later identifier
and an earlier time was published as a delta of a newer record.
---
 moz_kinto_publisher/main.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index aa3ee7d..d9effd2 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -966,6 +966,13 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
         log.error("Failed to verify run ID consistency: %s", se)
         return default
 
+    # The new runs should also be newer than the latest existing record.
+    if new_run_ids and run_db.get_run_timestamp(
+        new_run_ids[0]
+    ) < run_db.get_run_timestamp(record_run_ids[-1]):
+        log.error("New runs are older than the existing records.")
+        return default
+
     # If the full filter is too old, publish a full filter.
     earliest_timestamp = run_db.get_run_timestamp(
         min(record_run_ids, key=workflow.normalize_identifier)
-- 
2.43.0


From 18b8f686252436bacfc41e057a371b44856cb04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:13 +0000
Subject: [PATCH 23/23] fix: name the output directory after the default reason
 set

---
 workflow/2-generate_mlbf | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workflow/2-generate_mlbf b/workflow/2-generate_mlbf
index ebc0a60..04ac3dd 100755
--- a/workflow/2-generate_mlbf
+++ b/workflow/2-generate_mlbf
@@ -70,7 +70,7 @@ def main():
     elif filter_type == "cascade":
         outdir = os.path.join(runIdPath, f"mlbf-{args.reason_set}")
     else:
-        outdir = os.path.join(runIdPath, f"{args.filter_type}-{args.reason_set}")
+        outdir = os.path.join(runIdPath, f"{filter_type}-{reason_set}")
 
     cmdline += [
         "--outdir",
-- 
2.43.0

