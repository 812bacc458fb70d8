From 5e768c4b3502c96df56b3d9d9e093013ab226f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:07 +0000
Subject: [PATCH 01/22] fix: answer 503 when the sequencer queue stays full

A submission blocked without any timeout while the queue to the first stage
was full, for as long as the storage backend was stuck.
---
 internal/ctsubmit/logic.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 757712b..9096f4e 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -173,7 +173,12 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// This channel is buffered so it doesn't block if an attempt is made to send
 		// after the timeout fires.
 		returnPath := make(chan sunlight.LogEntry, 1)
-		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}
+		select {
+		case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
+		// If the later stages are stuck, the channel fills up and the send blocks.
+		case <-time.After(5 * time.Second):
+			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out sending to sequencer")
+		}
 
 		// If we recieve something here, that means that the entry has been both sequenced
 		// and uploaded with a newly signed STH, so we can issue a SCT.
-- 
2.43.0


From aeb201fc35f73815a20be31a872bfc726ca85a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 02/22] fix: finish a publication before releasing the lock on
 Ctrl-C

The interrupt handler released the Consul lock while the second stage could be
in the middle of writing, and until the process heard that its lock was gone
it went on writing, while another instance already loaded the log.
---
 internal/ctsubmit/config.go | 9 +++++++++
 internal/ctsubmit/logic.go  | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index b2267cb..4a04b54 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -11,6 +11,7 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -96,6 +97,7 @@ type stageTwoData struct {
 	maskSize         int
 	checkpointOrigin string
 	treeSize         uint64
+	publishing       *sync.Mutex
 
 	signingKey *ecdsa.PrivateKey
 }
@@ -104,6 +106,9 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 	var lock *consul.Lock
 	var gc GlobalConfig
 
+	// Held by the second stage while it writes to the bucket
+	publishing := &sync.Mutex{}
+
 	{
 		lockpath := kvpath + "/lock"
 		configpath := kvpath + "/config"
@@ -147,6 +152,9 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		go func(interruptChan chan os.Signal, lock *consul.Lock) {
 			<-interruptChan
 			log.Println("Interrupted, releasing lock")
+			// Once the lock is released, another instance may load the log, so let a
+			// write in progress finish and don't start another one.
+			publishing.Lock()
 			lock.Unlock()
 		}(interruptChan, lock)
 
@@ -372,6 +380,7 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			maskSize:         gc.MaskSize,
 			checkpointOrigin: gc.Name,
 			treeSize:         sth.TreeSize,
+			publishing:       publishing,
 
 			signingKey: key,
 		}
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 9096f4e..17e3fcb 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -293,6 +293,9 @@ func (d *stageTwoData) stageTwo(
 				return fmt.Errorf("stage two: stageTwoRx channel closed")
 			}
 
+			// Stays locked if this fails, as nothing more may be written after that.
+			d.publishing.Lock()
+
 			// ** Upload the data tiles **
 			newHashes := make(map[int64]tlog.Hash)
 			// The newHashes map is a reference type, so adding elements to
@@ -458,6 +461,8 @@ func (d *stageTwoData) stageTwo(
 				entry.returnPath <- entry.entry
 			}
 
+			d.publishing.Unlock()
+
 		case <-ctx.Done():
 			return fmt.Errorf("stage two: context finished")
 		}
-- 
2.43.0


From 6cefc46b3a0cc9fd37949c0e94fb674c5fd1c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 03/22] fix: report a key file that is not PEM instead of
 crashing

---
 internal/ctsubmit/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 4a04b54..0616213 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -188,6 +188,9 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			return nil, fmt.Errorf("unable to read key: %v", err)
 		}
 		keyBlock, _ := pem.Decode(keyPEM)
+		if keyBlock == nil {
+			return nil, fmt.Errorf("unable to decode key: no PEM block found")
+		}
 
 		key, err = x509.ParseECPrivateKey(keyBlock.Bytes)
 		if err != nil {
-- 
2.43.0


From fbfd69393ed8a505a9fd618f907000ab60e84055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:36 +0000
Subject: [PATCH 04/22] fix: verify the signature of the STH the log continues
 from

---
 internal/ctsubmit/config.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 0616213..68604a0 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -243,6 +243,15 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal STH: %v", err)
 		}
+
+		// The log continues from this STH, so make sure that it is really one of ours
+		verifier, err := ct.NewSignatureVerifier(key.Public())
+		if err != nil {
+			return nil, fmt.Errorf("unable to create STH verifier: %v", err)
+		}
+		if err := verifier.VerifySTHSignature(sth); err != nil {
+			return nil, fmt.Errorf("unable to verify STH signature: %v", err)
+		}
 	}
 
 	// Stage zero setup
-- 
2.43.0


From 13495f1ff7f7d37431baeef0cbdaa8679b76db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:38 +0000
Subject: [PATCH 05/22] fix: verify the data tile the log continues from

---
 internal/ctsubmit/config.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 68604a0..46c3b61 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -1,6 +1,7 @@
 package ctsubmit
 
 import (
+	"bytes"
 	"context"
 	"crypto/ecdsa"
 	"crypto/sha256"
@@ -378,10 +379,11 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			if err != nil {
 				return nil, fmt.Errorf("unable to fetch data tile: %v", err)
 			}
+			if err := verifyDataTile(dataTileBytes, edgeTiles[0]); err != nil {
+				return nil, fmt.Errorf("unable to verify data tile: %v", err)
+			}
 			dataTile.Bytes = dataTileBytes
 			edgeTiles[-1] = dataTile
-
-			// TODO: verify the data tile against the L0 tile
 		}
 
 		stageTwo = stageTwoData{
@@ -409,3 +411,23 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		stageTwoData:  stageTwo,
 	}, nil
 }
+
+// verifyDataTile checks that the entries in a data tile are the ones that the
+// matching, already verified, level zero tile holds the hashes of.
+func verifyDataTile(data []byte, l0 tileWithBytes) error {
+	for i := 0; i < l0.Tile.W; i++ {
+		entry, rest, err := sunlight.ReadTileLeaf(data)
+		if err != nil {
+			return err
+		}
+		hash := tlog.RecordHash(entry.MerkleTreeLeaf())
+		if !bytes.Equal(hash[:], l0.Bytes[i*tlog.HashSize:(i+1)*tlog.HashSize]) {
+			return fmt.Errorf("entry %d does not match the tree", i)
+		}
+		data = rest
+	}
+	if len(data) != 0 {
+		return fmt.Errorf("%d trailing bytes", len(data))
+	}
+	return nil
+}
-- 
2.43.0


From 413fcea134ef1d0c1695f11590c700fb6856836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 06/22] fix: reject a precertificate whose final issuer is not
 in the chain

---
 internal/ctsubmit/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 17e3fcb..e275acc 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -140,9 +140,15 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// Preissuer means that the intermediate that issued the precert is only valid
 		// for issuing precertificates.
 		var preIssuer *x509.Certificate
+		if len(chain) < 2 {
+			return nil, http.StatusBadRequest, fmt.Errorf("chain does not contain the issuer of the precertificate")
+		}
 		issuer := chain[1]
 		if ct.IsPreIssuer(chain[1]) {
 			preIssuer = chain[1]
+			if len(chain) < 3 {
+				return nil, http.StatusBadRequest, fmt.Errorf("chain does not contain the issuer of the precertificate signing certificate")
+			}
 			issuer = chain[2]
 		}
 
-- 
2.43.0


From 4ea3051b9efdb3110defc319e1a691f349226c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 07/22] fix: don't answer with the SCT of the same
 precertificate under another issuer

---
 internal/ctsubmit/logic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index e275acc..d083961 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -11,6 +11,7 @@ import (
 	"maps"
 	"math/rand"
 	"net/http"
+	"slices"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -160,6 +161,12 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 		entry.Certificate = tbsCertficiate
 		entry.IssuerKeyHash = sha256.Sum256(issuer.RawSubjectPublicKeyInfo)
+
+		// The same precertificate results in another entry if the precertificate signing
+		// certificate is submitted with another issuer, so tell these apart when deduplicating.
+		if preIssuer != nil {
+			entry.CertificateFp = sha256.Sum256(slices.Concat(entry.CertificateFp[:], entry.IssuerKeyHash[:], entry.Certificate))
+		}
 	}
 
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
-- 
2.43.0


From 3209e78aafb4c06880410f66484f48c5abb0ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 08/22] fix: reject a data tile entry with part of a
 fingerprint

---
 internal/sunlight/tile_ol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/sunlight/tile_ol.go b/internal/sunlight/tile_ol.go
index 207d758..eb13ce4 100644
--- a/internal/sunlight/tile_ol.go
+++ b/internal/sunlight/tile_ol.go
@@ -174,6 +174,9 @@ func ReadTileLeaf(tile []byte) (e *LogEntry, rest []byte, err error) {
 	if !s.ReadUint16(&fingerprintBytes) {
 		return nil, s, fmt.Errorf("invalid data tile precert_entry")
 	}
+	if fingerprintBytes%32 != 0 {
+		return nil, s, fmt.Errorf("invalid data tile: %d bytes of fingerprints", fingerprintBytes)
+	}
 	var fingerprintCount = fingerprintBytes / 32
 	// then, try to read out that many fingerprints
 	e.ChainFp = make([][32]byte, 0, fingerprintCount)
-- 
2.43.0


From 29dc03afbfa806fa899b56129506929e25c49dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 09/22] fix: read tiles with the width they have in the
 published tree

Proofs for tree sizes other than the published one and get-entry-and-proof
asked for partial tiles that do not exist, and a tile left behind by an
unfinished publication was preferred over the published one.
---
 internal/ctmonitor/fetch.go | 32 ++++++++++++++++++++-----------
 internal/ctmonitor/logic.go | 38 +++++++++++--------------------------
 2 files changed, 32 insertions(+), 38 deletions(-)

diff --git a/internal/ctmonitor/fetch.go b/internal/ctmonitor/fetch.go
index 7829100..c9ee9a5 100644
--- a/internal/ctmonitor/fetch.go
+++ b/internal/ctmonitor/fetch.go
@@ -6,6 +6,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"errors"
+	"fmt"
 
 	ct "github.com/google/certificate-transparency-go"
 	"golang.org/x/mod/sumdb/tlog"
@@ -44,19 +45,28 @@ func (f *Fetch) getSth(ctx context.Context) (ct.SignedTreeHead, error) {
 	return sth, nil
 }
 
-func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile) ([]byte, error) {
-	fallbackWidth := tile.W
-	tile.W = sunlight.TileWidth
-	resp, notfound, err := f.s.Get(ctx, sunlight.Path(tile))
-	// In case the tile is not found, try to fetch the partial tile
-	if notfound {
-		if fallbackWidth != sunlight.TileWidth {
-			tile.W = fallbackWidth
-			return f.get(ctx, sunlight.Path(tile))
-		}
+// getTile fetches a tile as it is in the published tree of the given size.
+//
+// The width follows from that size alone. A full tile may also exist in its
+// place, but it may have been left behind by a publication that never finished,
+// so it is only used if the tile itself is not there (any more).
+func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile, treeSize int64) (tlog.Tile, []byte, error) {
+	hashes := treeSize
+	if tile.L > 0 {
+		hashes >>= tile.L * sunlight.TileHeight
 	}
-	return resp, err
+	width := min(hashes-tile.N*sunlight.TileWidth, sunlight.TileWidth)
+	if width <= 0 {
+		return tile, nil, fmt.Errorf("tile %s is not in the tree of size %d", sunlight.Path(tile), treeSize)
+	}
+	tile.W = int(width)
 
+	resp, notfound, err := f.s.Get(ctx, sunlight.Path(tile))
+	if notfound && tile.W != sunlight.TileWidth {
+		tile.W = sunlight.TileWidth
+		resp, err = f.get(ctx, sunlight.Path(tile))
+	}
+	return tile, resp, err
 }
 
 // TODO: refactor the duplicate definitions of this stanza in this file and bucket.go
diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b2eccfc..93da308 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -74,23 +74,14 @@ func wrapper(wrapped func(ctx context.Context, reqBody io.ReadCloser, query url.
 	}
 }
 
-func hashreader(ctx context.Context, f Fetch, fallbackTreeSize int64) tlog.HashReaderFunc {
-	// Tree size is 1 greater than the index of the last entry
-	finalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, fallbackTreeSize-1))
+func hashreader(ctx context.Context, f Fetch, publishedTreeSize int64) tlog.HashReaderFunc {
 	// TODO: add some sort of cache here, this function is bound to be called a few times for the same tiles
 	return func(indexes []int64) ([]tlog.Hash, error) {
 		hashes := make([]tlog.Hash, 0, len(indexes))
 		for _, index := range indexes {
-			tile := tlog.TileForIndex(sunlight.TileHeight, index)
-			// Special case the final tile to get the correct width
-			if tile.N == finalTile.N {
-				tile.W = finalTile.W
-			}
-			// This function will always first try and get the full width tile,
-			// and then fall back to the width actually specified in the tile.
-			data, err := f.getTile(ctx, tile)
+			tile, data, err := f.getTile(ctx, tlog.TileForIndex(sunlight.TileHeight, index), publishedTreeSize)
 			if err != nil {
-				return nil, fmt.Errorf("failed to fetch tile %s: %w (fallback %s)", sunlight.Path(tile), err, sunlight.Path(finalTile))
+				return nil, fmt.Errorf("failed to fetch tile %s: %w", sunlight.Path(tile), err)
 			}
 			hash, err := tlog.HashFromTile(tile, data, index)
 			if err != nil {
@@ -161,7 +152,7 @@ func (f Fetch) get_sth_consistency(ctx context.Context, reqBody io.ReadCloser, q
 	// However, as per the spec, in this case, an empty proof should be returned
 	// TODO: this fails if the size of the first tree is greater than the actual number of records in the tree
 	if first >= 1 {
-		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, second))
+		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, int64(sth.TreeSize)))
 		if err != nil {
 			return nil, 523, err
 		}
@@ -229,7 +220,7 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		log.Println(err)
 		return nil, 511, err
@@ -304,15 +295,9 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 	dataTiles := make([]tileWithBytes, 0)
 
-	sthFinalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, int64(sth.TreeSize)-1))
-	// Special case the final tile to ensure we always fetch a tile that exists
-	if lastTile.N == sthFinalTile.N {
-		lastTile.W = sthFinalTile.W
-	}
-
 	// In this case, the last tile is the same as the first tile so we only need to fetch one tile
 	if firstTile.N == lastTile.N {
-		data, err := f.getTile(ctx, lastTile)
+		lastTile, data, err := f.getTile(ctx, lastTile, int64(sth.TreeSize))
 		if err != nil {
 			return nil, 513, err
 		}
@@ -321,8 +306,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 		{
 			// If the index of the last tile is greater than the index of the first tile,
 			// it means the first tile is complete
-			firstTile.W = 256
-			data, err := f.getTile(ctx, firstTile)
+			firstTile, data, err := f.getTile(ctx, firstTile, int64(sth.TreeSize))
 			if err != nil {
 				return nil, 514, err
 			}
@@ -340,7 +324,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 					W: 256,
 				}
 
-				data, err := f.getTile(ctx, tile)
+				tile, data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
 				if err != nil {
 					return nil, 515, err
 				}
@@ -351,7 +335,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 		{
 			// Finally, fetch the last tile
-			data, err := f.getTile(ctx, lastTile)
+			lastTile, data, err := f.getTile(ctx, lastTile, int64(sth.TreeSize))
 			if err != nil {
 				return nil, 516, err
 			}
@@ -475,7 +459,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	tile.L = -1
 
 	// TODO: add a cache
-	data, err := f.getTile(ctx, tile)
+	_, data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
 	if err != nil {
 		return nil, 500, err
 	}
@@ -527,7 +511,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		return nil, 500, err
 	}
-- 
2.43.0


From db075c65718e0c2dd64ed89841328785b5669363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 10/22] fix: answer get-entries from beyond the tree with an
 error

It answered with 200 and no entries, crashed, or asked for impossible tiles.
---
 internal/ctmonitor/logic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 93da308..b51ed82 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -283,6 +283,9 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 	if err != nil {
 		return nil, 521, err
 	}
+	if start >= int64(sth.TreeSize) {
+		return nil, 400, fmt.Errorf("start is out of range")
+	}
 	if end >= int64(sth.TreeSize) {
 		end = int64(sth.TreeSize) - 1
 	}
-- 
2.43.0


From 84211e63a69a036e55a41e1411aa066a5a3c13d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 11/22] fix: answer get-proof-by-hash only for the hash that
 was asked for

A hash sharing its first half with a leaf, or that of an entry that was never
published, got the proof of another leaf.
---
 internal/ctmonitor/logic.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b51ed82..0b44596 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -1,6 +1,7 @@
 package ctmonitor
 
 import (
+	"bytes"
 	"context"
 	"encoding/base64"
 	"encoding/json"
@@ -219,8 +220,19 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 		return nil, 400, fmt.Errorf("index out of range")
 	}
 
+	// The record only holds half of the hash, and may have been left behind by
+	// a publication that never finished
+	hashReader := hashreader(ctx, f, int64(sth.TreeSize))
+	leafHashes, err := hashReader.ReadHashes([]int64{tlog.StoredHashIndex(0, index)})
+	if err != nil {
+		return nil, 511, err
+	}
+	if !bytes.Equal(leafHashes[0][:], hash) {
+		return nil, 404, fmt.Errorf("record not found")
+	}
+
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
+	proof, err := tlog.ProveRecord(treeSize, index, hashReader)
 	if err != nil {
 		log.Println(err)
 		return nil, 511, err
-- 
2.43.0


From e5ce25966416bbe7ea54cbeef95dce27c7d756e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 12/22] fix: close the responses of the tile backend

Every missing tile or failed read leaked a connection.
---
 internal/ctmonitor/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctmonitor/storage.go b/internal/ctmonitor/storage.go
index 132c483..406204b 100644
--- a/internal/ctmonitor/storage.go
+++ b/internal/ctmonitor/storage.go
@@ -28,6 +28,7 @@ func (f *UrlStorage) Get(ctx context.Context, key string) (data []byte, notfound
 	if err != nil {
 		return nil, false, err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != 200 {
 		if resp.StatusCode == 404 {
 			return nil, true, errors.New(resp.Status)
-- 
2.43.0


From 992c05667e936df715dae8782448a5733df9c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:33 +0000
Subject: [PATCH 13/22] fix: answer get-entries with an error when the tile
 data has a gap

Clients take the entries for consecutive ones; an empty or truncated data tile
made them skip some.
---
 internal/ctmonitor/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 0b44596..35991e4 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -368,11 +368,17 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 				return nil, 517, err
 			}
 			if entry.LeafIndex >= uint64(start) && entry.LeafIndex <= uint64(end) {
+				if entry.LeafIndex != uint64(start)+uint64(len(entries)) {
+					return nil, 517, fmt.Errorf("entry %d is out of place", entry.LeafIndex)
+				}
 				entries = append(entries, entry)
 			}
 			rest = nextRest
 		}
 	}
+	if int64(len(entries)) != end-start+1 {
+		return nil, 517, fmt.Errorf("found %d entries from %d to %d", len(entries), start, end)
+	}
 
 	ctLeafEntries := make([]ct.LeafEntry, 0, len(entries))
 
-- 
2.43.0


From 9fb55a554ba555b6c666c5994cc33abb27665c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 14/22] fix: verify the signature itself of RSA tree heads

---
 internal/sunlight/checkpoint_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index 08a1a58..c50b40f 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -221,7 +221,7 @@ func NewRFC6962Verifier(name string, key crypto.PublicKey, tf func(uint64)) (not
 			if sigAlg != 1 {
 				return false
 			}
-			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], sig) == nil
+			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], signature) == nil
 		case *ecdsa.PublicKey:
 			if sigAlg != 3 {
 				return false
-- 
2.43.0


From f54852c3af726a8d638a3f438370121f957293a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 15/22] fix: never answer get-entries with an empty list

---
 internal/ctmonitor/logic.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index 35991e4..ee9af67 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -422,6 +422,12 @@ outerloop:
 		ctLeafEntries = append(ctLeafEntries, leafEntry)
 	}
 
+	// An empty list would say that there are no such entries. What was fetched
+	// so far is cached, so asking again gets further.
+	if len(ctLeafEntries) == 0 {
+		return nil, 503, fmt.Errorf("request limit reached before the first entry was complete")
+	}
+
 	response := ct.GetEntriesResponse{
 		Entries: ctLeafEntries,
 	}
-- 
2.43.0


From 54f7f781616f345771e14c8fbf6556090a5986f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 16/22] fix: report missing objects as such in local edge runs

---
 internal/ctmonitor/fastly.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ctmonitor/fastly.go b/internal/ctmonitor/fastly.go
index 75c3c5b..2badceb 100644
--- a/internal/ctmonitor/fastly.go
+++ b/internal/ctmonitor/fastly.go
@@ -206,6 +206,9 @@ func (f *FastlyStorage) Get(ctx context.Context, key string) (data []byte, notfo
 	} else {
 		entry, err := cacheFunc()
 		if err != nil {
+			if notFound {
+				return nil, true, err
+			}
 			return nil, false, err
 		}
 		reader = entry.Body
-- 
2.43.0


From dcee322b3c5e6974f4a6f950ca43ff33f64284dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 17/22] fix: start with the roots that setup accepts

---
 internal/ctsubmit/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 46c3b61..63a3455 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -283,7 +283,7 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		r := x509util.NewPEMCertPool()
 		for _, certBytes := range res.Certificates {
 			cert, err := x509.ParseCertificate(certBytes)
-			if err != nil {
+			if x509.IsFatal(err) {
 				return nil, fmt.Errorf("unable to parse certificate: %v", err)
 			}
 			r.AddCert(cert)
-- 
2.43.0


From 0c1e24388157c41defbfec9a56b72a9e25834ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 18/22] fix: verify tree heads of keys on any curve on start

---
 internal/ctsubmit/config.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 63a3455..9c95976 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -16,6 +16,7 @@ import (
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
+	"github.com/google/certificate-transparency-go/tls"
 	"github.com/google/certificate-transparency-go/x509"
 	"github.com/google/certificate-transparency-go/x509util"
 	consul "github.com/hashicorp/consul/api"
@@ -246,11 +247,11 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		}
 
 		// The log continues from this STH, so make sure that it is really one of ours
-		verifier, err := ct.NewSignatureVerifier(key.Public())
+		signed, err := ct.SerializeSTHSignatureInput(sth)
 		if err != nil {
-			return nil, fmt.Errorf("unable to create STH verifier: %v", err)
+			return nil, fmt.Errorf("unable to verify STH signature: %v", err)
 		}
-		if err := verifier.VerifySTHSignature(sth); err != nil {
+		if err := tls.VerifySignature(key.Public(), signed, tls.DigitallySigned(sth.TreeHeadSignature)); err != nil {
 			return nil, fmt.Errorf("unable to verify STH signature: %v", err)
 		}
 	}
-- 
2.43.0


From a3fbd916d526f7451e71f85b059b2fe115e77e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 19/22] fix: replace files of the log in one step

---
 internal/ctsubmit/storage.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/storage.go b/internal/ctsubmit/storage.go
index a6e2ee7..d860bf5 100644
--- a/internal/ctsubmit/storage.go
+++ b/internal/ctsubmit/storage.go
@@ -114,7 +114,7 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 	filePath := f.root + "/" + key
 
 	// Attempt to write the file
-	err := os.WriteFile(filePath, data, 0644)
+	err := writeFile(filePath, data)
 	if err == nil {
 		// No error, file written successfully
 		return nil
@@ -132,13 +132,36 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 		}
 
 		// Retry writing the file after creating directories
-		return os.WriteFile(filePath, data, 0644)
+		return writeFile(filePath, data)
 	}
 
 	// Return the original error if it's not related to missing directories
 	return err
 }
 
+// writeFile replaces the file in one step. A reader, or a log that is started
+// after a crash, sees either the previous content or all of the new one.
+func writeFile(filePath string, data []byte) error {
+	tmp, err := os.CreateTemp(filepath.Dir(filePath), ".tmp-*")
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), filePath)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+	return err
+}
+
 func (f *FsStorage) Exists(ctx context.Context, key string) (bool, error) {
 	filePath := f.root + "/" + key
 
-- 
2.43.0


From b6353921a9bfdfba054d4441243d457648680457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 20/22] fix: fail setup properly if the signing key is not PEM

---
 internal/ctsetup/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ctsetup/main.go b/internal/ctsetup/main.go
index b47b771..acbc10d 100644
--- a/internal/ctsetup/main.go
+++ b/internal/ctsetup/main.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"encoding/json"
 	"encoding/pem"
+	"fmt"
 	"log"
 	"os"
 	"time"
@@ -96,6 +97,9 @@ func uploadEmptySth(ctx context.Context, signingKey string, gc ctsubmit.GlobalCo
 		return err
 	}
 	keyBlock, _ := pem.Decode(keyPEM)
+	if keyBlock == nil {
+		return fmt.Errorf("no PEM block found in %s", signingKey)
+	}
 
 	// keyDecrypted, err := x509.DecryptPEMBlock(keyBlock, []byte("dirk"))
 	// if err != nil {
-- 
2.43.0


From 5f7cc2796b508b1677467d53373aacffb0a56c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 21/22] fix: stop when the Consul lock can't be confirmed

The monitor of the lock only notices its loss when Consul answers. When
Consul stops answering, the session expires after its TTL and another
instance takes over, while this one went on writing to the bucket.
---
 internal/ctsubmit/config.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 9c95976..aedfd80 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -144,6 +144,35 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			log.Fatal("Consul lock lost, exiting now!")
 		}(eStopChan)
 
+		// If Consul stops answering, the channel doesn't tell that the lock is lost,
+		// which it is once the session expires, 15 seconds after it was last renewed.
+		// The session is renewed every 7.5 seconds, so if the lock can't be confirmed
+		// for 7 seconds, stop before another instance may take over.
+		go func() {
+			var session string
+			confirmed := time.Now()
+			for {
+				start := time.Now()
+				confirmCtx, cancel := context.WithDeadline(ctx, confirmed.Add(7*time.Second))
+				opts := &consul.QueryOptions{RequireConsistent: true}
+				pair, _, err := client.KV().Get(lockpath, opts.WithContext(confirmCtx))
+				cancel()
+
+				if err == nil {
+					if session == "" && pair != nil {
+						session = pair.Session
+					}
+					if pair == nil || session == "" || pair.Session != session {
+						log.Fatal("Consul lock lost, exiting now!")
+					}
+					confirmed = start
+				} else if time.Since(confirmed) >= 6*time.Second {
+					log.Fatalf("Unable to confirm the Consul lock, exiting now: %v", err)
+				}
+				time.Sleep(time.Second)
+			}
+		}()
+
 		// If the program recieves a Ctrl-C, release the lock
 		// This will cause the lock loss handler to fire
 		// Not really the best place to handle this, but
-- 
2.43.0


From c1b13c35094499f62bb5385c94286a8209925677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 22/22] fix: don't sequence a certificate again that is about
 to be published

When a submission timed out and the certificate was submitted again before
the first one was published, it was logged twice, and later submissions got
another SCT than the one that was answered.
---
 internal/ctsubmit/config.go |  2 ++
 internal/ctsubmit/logic.go  | 31 ++++++++++++++++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index aedfd80..0df63e2 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -79,6 +79,7 @@ type stageZeroData struct {
 	logID         [32]byte
 	bucket        Bucket
 	maskSize      int
+	inFlight      *sync.Map // certificate fingerprint to a channel that is closed once it is published
 
 	signingKey *ecdsa.PrivateKey
 }
@@ -340,6 +341,7 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			logID:         logIDArray,
 			bucket:        bucket,
 			maskSize:      gc.MaskSize,
+			inFlight:      &sync.Map{},
 
 			signingKey: key,
 		}
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index d083961..7a4ba4c 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -169,6 +169,26 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		}
 	}
 
+	// A certificate that is submitted again before it is published is not in the dedupe map
+	// yet, so wait for the earlier submission instead of sequencing it a second time.
+	inFlight := make(chan struct{})
+	timeout := time.After(5 * time.Second)
+	for {
+		earlier, ok := d.inFlight.LoadOrStore(entry.CertificateFp, inFlight)
+		if !ok {
+			break
+		}
+		select {
+		case <-earlier.(chan struct{}):
+		case <-timeout:
+			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for an earlier submission")
+		}
+	}
+	landed := func() {
+		d.inFlight.Delete(entry.CertificateFp)
+		close(inFlight)
+	}
+
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
 	// This is done by hashing the certificate fingerprint and checking if it exists in the dedupe map
 	dedupeKey := [16]byte(entry.CertificateFp[:16])
@@ -179,6 +199,7 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 	if err == nil {
 		// If we recieved a valid cache hit, then the certificate is a duplicate
 		completeEntry = entry.Sequence(dedupeVal.leafIndex, dedupeVal.timestamp)
+		landed()
 	} else {
 		// Otherwise, we need to send it to the sequencer
 
@@ -190,13 +211,21 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
 		// If the later stages are stuck, the channel fills up and the send blocks.
 		case <-time.After(5 * time.Second):
+			landed()
 			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out sending to sequencer")
 		}
 
+		// The entry stays in flight until it is published, even if this times out before that.
+		published := make(chan sunlight.LogEntry, 1)
+		go func() {
+			published <- <-returnPath
+			landed()
+		}()
+
 		// If we recieve something here, that means that the entry has been both sequenced
 		// and uploaded with a newly signed STH, so we can issue a SCT.
 		select {
-		case completeEntry = <-returnPath:
+		case completeEntry = <-published:
 		// Nominally, this should complete in under 2 seconds.
 		case <-time.After(5 * time.Second):
 			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for sequencer")
-- 
2.43.0

