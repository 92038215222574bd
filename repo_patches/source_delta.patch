From 69a1e511c797687c3a0789df60123224c21aed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:20 +0000
Subject: [PATCH 01/38] fix: do not shift out the WOTS+ checksum if it fills
 its bytes exactly

For w=256 (any n) and for w=4 with n=16 the checksum chains take up a whole
number of bytes.  The checksum was then shifted left by 8 bits instead of 0,
so that (part of) it was cut off and advancing the chains of a signature
could yield the signature of another digest.
---
 wots.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wots.go b/wots.go
index 8e09f79..b537884 100644
--- a/wots.go
+++ b/wots.go
@@ -32,7 +32,9 @@ func (ctx *Context) wotsChainLengths(msg []byte) []uint8 {
 	for i := 0; i < int(ctx.wotsLen1); i++ {
 		csum += uint32(ctx.p.WotsW) - 1 - uint32(ret[i])
 	}
-	csum = csum << (8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8))
+	// Left align the checksum within its bytes.  Note that there is nothing
+	// to shift if the checksum chains fill their bytes exactly.
+	csum = csum << ((8 - ((ctx.wotsLen2 * uint32(ctx.wotsLogW)) % 8)) % 8)
 
 	// put checksum in buffer
 	ctx.toBaseW(
-- 
2.43.0


From 69049a9e07fb4f4c78454606a4bd57c6ae60d691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:21 +0000
Subject: [PATCH 02/38] fix: do not use the fourway hashes with the NIST PRF
 construction

The fourway implementation of f hardcodes the prefixes of the RFC.  Thus
XMSS[MT] instances with SHAKE, n=16,32 and the NIST construction were
computed differently on systems with AVX2.
---
 api.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 28f434c..70e2b68 100644
--- a/api.go
+++ b/api.go
@@ -692,7 +692,9 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		ctx.prefixLen = 4
 	}
 
-	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) {
+	// The fourway hashes only implement the prefixes of the RFC.
+	if ctx.p.Func == SHAKE && (ctx.p.N == 32 || ctx.p.N == 16) &&
+		ctx.p.Prf == RFC {
 		ctx.x4Available = f1600x4.Available
 	}
 
-- 
2.43.0


From 7b4119be4f03aa1f1301f185edae751ffcf59346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 03/38] fix: refuse to open a container if its lock can't be
 acquired

Errors of TryLock() other than the temporary ones were ignored, in which
case the container was opened without holding the lock.
---
 container.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/container.go b/container.go
index a878742..310e28f 100644
--- a/container.go
+++ b/container.go
@@ -155,6 +155,9 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		err2.locked = true
 		return nil, err2
 	}
+	if err != nil {
+		return nil, wrapErrorf(err, "Failed to lock %s", path)
+	}
 
 	// Check if the container exists
 	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
-- 
2.43.0


From 6aa7ec0f65dfe42e254e5cc1ae7413c484675656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:12 +0000
Subject: [PATCH 04/38] fix: release the lock if opening or loading a container
 fails

---
 api.go       | 14 ++++++++++++--
 container.go | 24 +++++++++++++++++++-----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/api.go b/api.go
index 70e2b68..94decfe 100644
--- a/api.go
+++ b/api.go
@@ -419,7 +419,12 @@ func (ctx *Context) Derive(path string, pubSeed, skSeed, skPrf []byte) (
 	if err != nil {
 		return nil, nil, err
 	}
-	return ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	sk, pk, err := ctx.DeriveInto(ctr, pubSeed, skSeed, skPrf)
+	if err != nil {
+		ctr.Close()
+		return nil, nil, err
+	}
+	return sk, pk, nil
 }
 
 // Derives an XMSS[MT] public/private keypair from the given seeds
@@ -725,7 +730,12 @@ func LoadPrivateKey(path string) (
 	if err != nil {
 		return nil, nil, 0, err
 	}
-	return LoadPrivateKeyFrom(ctr)
+	sk, pk, lostSigs, err = LoadPrivateKeyFrom(ctr)
+	if err != nil {
+		ctr.Close()
+		return nil, nil, 0, err
+	}
+	return
 }
 
 // Loads the private key from the given private key container.
diff --git a/container.go b/container.go
index 310e28f..3853c7f 100644
--- a/container.go
+++ b/container.go
@@ -132,6 +132,7 @@ const (
 func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	var ctr fsContainer
 	var err error
+	opened := false
 
 	ctr.path, err = filepath.Abs(path)
 	if err != nil {
@@ -159,26 +160,34 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		return nil, wrapErrorf(err, "Failed to lock %s", path)
 	}
 
+	// Do not keep the lock if we fail to open the container.
+	defer func() {
+		if !opened {
+			ctr.Close()
+		}
+	}()
+
 	// Check if the container exists
 	if _, err = os.Stat(ctr.path); os.IsNotExist(err) {
+		opened = true
 		return &ctr, nil
 	}
 
 	// Open the container.
 	file, err := os.Open(ctr.path)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to open keyfile %s", path)
+		return nil, wrapErrorf(err, "Failed to open keyfile %s", path)
 	}
 	defer file.Close()
 
 	var keyHeader fsKeyHeader
 	err = binary.Read(file, binary.BigEndian, &keyHeader)
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read keyfile header")
+		return nil, wrapErrorf(err, "Failed to read keyfile header")
 	}
 
 	if FS_CONTAINER_KEY_MAGIC != hex.EncodeToString(keyHeader.Magic[:]) {
-		return &ctr, wrapErrorf(err, "Keyfile has invalid magic")
+		return nil, wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
 	ctr.params = keyHeader.Params
@@ -187,12 +196,17 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	ctr.borrowed = keyHeader.Borrowed
 	_, err = io.ReadAtLeast(file, ctr.privateKey, ctr.params.PrivateKeySize())
 	if err != nil {
-		return &ctr, wrapErrorf(err, "Failed to read private key")
+		return nil, wrapErrorf(err, "Failed to read private key")
 	}
 
 	ctr.initialized = true
 
-	return &ctr, ctr.openCache()
+	if err := ctr.openCache(); err != nil {
+		return nil, err
+	}
+
+	opened = true
+	return &ctr, nil
 }
 
 func (ctr *fsContainer) openCache() Error {
-- 
2.43.0


From cba83c86419ea6e5abe8ef62ad3cc4b1bc0b369b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 05/38] fix: do not open a container twice in the same process

The lockfile can be locked again by the process that already holds it, so
that two private keys could be opened on the same file and would sign with
the same signature sequence numbers.  Similarly, do not release the lock of
another container when closing a container for a second time.
---
 container.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/container.go b/container.go
index 3853c7f..2aa474e 100644
--- a/container.go
+++ b/container.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"sync"
 
 	"github.com/bwesterb/byteswriter"
 	"github.com/edsrzf/mmap-go"
@@ -128,6 +129,31 @@ const (
 	FS_CONTAINER_CACHE_MAGIC2 = "5a11d7cf4a1f6314"
 )
 
+var (
+	// Set of the paths of the filesystem containers which are currently opened
+	// by this process.  The lockfile only protects against other processes.
+	openedFSContainers    = make(map[string]bool)
+	openedFSContainersMux sync.Mutex
+)
+
+// Registers the path as opened by this process.  Returns false if it already is.
+func registerFSContainer(path string) bool {
+	openedFSContainersMux.Lock()
+	defer openedFSContainersMux.Unlock()
+	if openedFSContainers[path] {
+		return false
+	}
+	openedFSContainers[path] = true
+	return true
+}
+
+// Reverts registerFSContainer.
+func unregisterFSContainer(path string) {
+	openedFSContainersMux.Lock()
+	defer openedFSContainersMux.Unlock()
+	delete(openedFSContainers, path)
+}
+
 // Returns a PrivateKeyContainer backed by the filesystem.
 func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	var ctr fsContainer
@@ -148,7 +174,16 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 			"Failed to create lockfile %s", lockFilePath)
 	}
 
+	if !registerFSContainer(ctr.path) {
+		err2 := errorf("%s is locked", path)
+		err2.locked = true
+		return nil, err2
+	}
+
 	err = ctr.flock.TryLock()
+	if err != nil {
+		unregisterFSContainer(ctr.path)
+	}
 	if _, ok := err.(interface {
 		Temporary() bool
 	}); ok {
@@ -732,6 +767,9 @@ func (ctr *fsContainer) closeCache() (err error) {
 
 func (ctr *fsContainer) Close() Error {
 	var err error
+	if ctr.closed {
+		return errorf("Container is closed")
+	}
 	if err2 := ctr.closeCache(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not close cache"))
@@ -740,6 +778,7 @@ func (ctr *fsContainer) Close() Error {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not release file lock"))
 	}
+	unregisterFSContainer(ctr.path)
 	ctr.closed = true
 	ctr.initialized = false
 
-- 
2.43.0


From 4a8c476fbdfc747117a9c1bdf3db3622d6213d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 06/38] fix: resolve symbolic links before locking a container

---
 container.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/container.go b/container.go
index 2aa474e..0ae6528 100644
--- a/container.go
+++ b/container.go
@@ -166,6 +166,15 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 			"Could not turn %s into an absolute path", path)
 	}
 
+	// Resolve symbolic links, so that the container has one lock (and so that
+	// we don't replace a link by a copy when writing) however it is reached.
+	if realPath, err := filepath.EvalSymlinks(ctr.path); err == nil {
+		ctr.path = realPath
+	} else if realDir, err := filepath.EvalSymlinks(
+		filepath.Dir(ctr.path)); err == nil {
+		ctr.path = filepath.Join(realDir, filepath.Base(ctr.path))
+	}
+
 	// Acquire lock
 	lockFilePath := ctr.path + ".lock"
 	ctr.flock, err = lockfile.New(lockFilePath)
-- 
2.43.0


From 68d84f7dff86de8bf52da8d5590db6ec8b39e760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 07/38] fix: wait for pending Signs and precomputation before
 closing the container

Close() waited for the precomputation holding the lock the latter needs to
finish and closed the container while it was still in use.
---
 api.go  | 33 ++++++++++++++++++++++-----------
 core.go |  6 ++++++
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/api.go b/api.go
index 94decfe..ed089c0 100644
--- a/api.go
+++ b/api.go
@@ -76,7 +76,12 @@ type PrivateKey struct {
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
-	wg   sync.WaitGroup // used to join all background workers when Close()ing
+	wg   sync.WaitGroup // used to join all Sign()s and background workers
+
+	// Set when the private key is being Close()d.  From then on there are
+	// no new users of the container.
+	closing bool
+
 	// subTreeReady[sta] is true if and only if the sub tree with the given
 	// address is allocated and filled.
 	subTreeReady map[SubTreeAddress]bool
@@ -585,23 +590,26 @@ func (sk *PrivateKey) SignFrom(msg io.Reader) (*Signature, Error) {
 
 // Close the underlying container
 func (sk *PrivateKey) Close() Error {
+	sk.mux.Lock()
+	sk.closing = true
+	sk.mux.Unlock()
+
+	// There might be a background goroutine generating a subtree
+	// when EnableSubTreePrecomputation() was called.  So wait for that
+	// and for the pending calls to Sign().  They need sk.mux to finish.
+	sk.wg.Wait()
+
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.borrowed > 0 {
 		sk.borrowed = 0
 		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
+			sk.closing = false
 			return err
 		}
 	}
-	err := sk.ctr.Close()
-	sk.cond.Broadcast()
-
-	// There might be a background goroutine generating a subtree
-	// when EnableSubTreePrecomputation() was called.  So wait for that.
-	sk.wg.Wait()
-
-	return err
+	return sk.ctr.Close()
 }
 
 // Return new context for the given XMSS[MT] oid (and nil if it's unknown).
@@ -862,10 +870,13 @@ func (sk *PrivateKey) EnableSubTreePrecomputation() {
 		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
 	}
 	_, nextTreeExists := sk.subTreeReady[nextSta]
+	needed := !nextTreeExists && !sk.closing
+	if needed {
+		sk.wg.Add(1)
+	}
 	sk.mux.Unlock()
 
-	if !nextTreeExists {
-		sk.wg.Add(1)
+	if needed {
 		go func() {
 			sk.getSubTree(sk.ctx.newScratchPad(), nextSta)
 			sk.wg.Done()
diff --git a/core.go b/core.go
index bd607cf..b8419ef 100644
--- a/core.go
+++ b/core.go
@@ -416,6 +416,10 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 
+	if sk.closing {
+		return 0, errorf("Private key is closed")
+	}
+
 	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
@@ -434,6 +438,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	}
 
 	sk.seqNo += 1
+	sk.wg.Add(1) // see retireSeqNo()
 
 	// Check if we need to precompute a subtree
 	if sk.precomputeNextSubTree &&
@@ -549,6 +554,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 //
 // See PrivateKey.UnretiredSeqNos()
 func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
+	defer sk.wg.Done()
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.leastSeqNoInUse != seqNo {
-- 
2.43.0


From d0c2e13a10875496e855845cfd395c2c6b118843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:23 +0000
Subject: [PATCH 08/38] fix: keep the lock while checking a cached subtree for
 corruption

The lock was released before the stored checksum was read, so that it could be
stale (or the subtree dropped) by the time the checksum was compared.  Then a
subtree would be corrected while another thread is already signing with it.
---
 core.go | 58 +++++++++++++++++----------------------------------------
 1 file changed, 17 insertions(+), 41 deletions(-)

diff --git a/core.go b/core.go
index b8419ef..9efd359 100644
--- a/core.go
+++ b/core.go
@@ -283,56 +283,32 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		parentTreeReady = sk.subTreeReady[parentSta] &&
 			sk.subTreeChecked[parentSta]
 	}
-	sk.mux.Unlock()
-
-	treeBuf := buf[:sk.ctx.p.BareSubTreeSize()]
-	mtDeref := merkleTreeFromBuf(treeBuf, sk.ctx.treeHeight+1, sk.ctx.p.N)
-	mt = &mtDeref
-	wotsSig = buf[sk.ctx.p.BareSubTreeSize() : sk.ctx.p.BareSubTreeSize()+int(sk.ctx.p.WotsSignatureSize())]
-
-	if alreadyDone {
-		if !justCheckTheChecksum {
-			return
-		}
 
+	if justCheckTheChecksum {
 		log.Logf("Checking integrity of subtree %v ...", sta)
 
 		// The tree seems ready, but we just need to check whether it
-		// hasn't been corrupted.
+		// hasn't been corrupted.  We keep the lock, so that no other thread
+		// is correcting (or dropping) the tree in the meantime.
 		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-
-		sk.mux.Lock()
-		intact := storedCheckSum == xxhash.Sum64(buf[:len(buf)-8])
-		if intact {
+		if storedCheckSum == xxhash.Sum64(buf[:len(buf)-8]) {
 			sk.subTreeChecked[sta] = true
-			sk.mux.Unlock()
-			return
+		} else {
+			// Mark the subtree not-ready
+			log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
+			sk.subTreeReady[sta] = false
+			alreadyDone = false
 		}
+	}
+	sk.mux.Unlock()
 
-		// The tree seems corrupted.  Another thread might have reached the
-		// same conclusion, so we should check whether another thread is already
-		// correcting the problem for us.
-		if !sk.subTreeReady[sta] {
-			// There is another thread correcting the issue.  Lets wait
-			// for it.
-			log.Logf("Subtree %v is corrupted.  Another thread seems to be "+
-				"correcting the problem.  Waiting ...", sta)
-			for {
-				sk.cond.Wait()
-				if sk.subTreeReady[sta] {
-					log.Logf(" ... the subtree has been corrected.")
-					sk.mux.Unlock()
-					return
-				}
-
-				log.Logf(" ... not corrected, yet.")
-			}
-		}
+	treeBuf := buf[:sk.ctx.p.BareSubTreeSize()]
+	mtDeref := merkleTreeFromBuf(treeBuf, sk.ctx.treeHeight+1, sk.ctx.p.N)
+	mt = &mtDeref
+	wotsSig = buf[sk.ctx.p.BareSubTreeSize() : sk.ctx.p.BareSubTreeSize()+int(sk.ctx.p.WotsSignatureSize())]
 
-		// Mark the subtree not-ready
-		log.Logf("Subtree %v is corrupted.  Correcting it ...", sta)
-		sk.subTreeReady[sta] = false
-		sk.mux.Unlock()
+	if alreadyDone {
+		return
 	}
 
 	sk.ctx.genSubTreeInto(pad, sk.skSeed, sk.ph, sta, mtDeref)
-- 
2.43.0


From 57110f36f5411e1a88e0057321bd35e1bd9639e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 09/38] fix: recover from a failed generation of a subtree

The container still has the subtree in that case, so that the next attempt to
use it panicked.
---
 core.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core.go b/core.go
index 9efd359..cb90753 100644
--- a/core.go
+++ b/core.go
@@ -269,11 +269,8 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 			continue
 		}
 
-		if exists {
-			panic("This should not be possible")
-		}
-
-		// The sub tree does not yet exist.  We will have to fill it.
+		// The sub tree does not yet exist (or is left over from an earlier
+		// failed attempt).  We will have to fill it.
 		sk.subTreeReady[sta] = false
 		sk.subTreeChecked[sta] = true
 		break
-- 
2.43.0


From 2205a067d01594ef1b459bece099ec044996abaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:24 +0000
Subject: [PATCH 10/38] fix: do not drop a subtree that is still being
 generated

---
 core.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core.go b/core.go
index cb90753..5cdc410 100644
--- a/core.go
+++ b/core.go
@@ -563,6 +563,11 @@ func (sk *PrivateKey) incLeastSeqNoInUse() {
 			Layer: sta.Layer,
 			Tree:  sta.Tree - 1,
 		}
+		if ready, ok := sk.subTreeReady[staToDrop]; ok && !ready {
+			// All Sign()s that needed this subtree failed, but a background
+			// worker is still writing to it.
+			continue
+		}
 		log.Logf("Dropping cached subtree %v ...", staToDrop)
 		if err := sk.ctr.DropSubTree(staToDrop); err != nil {
 			log.Logf("  failed to drop subtree %v: %v", staToDrop, err)
-- 
2.43.0


From d9f0cb4e02d91222fa62b4a3bf4035b10cd68706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 11/38] fix: bind the checksum of a cached subtree to its
 address

After a crash in the generation of a subtree in a buffer that was used before,
the buffer contains the new address with the old subtree and its checksum.
---
 core.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core.go b/core.go
index 5cdc410..cf78201 100644
--- a/core.go
+++ b/core.go
@@ -229,6 +229,15 @@ func (ctx *Context) subTreePathForSeqNo(seqNo SignatureSeqNo) (
 	return
 }
 
+// Computes the checksum of a cached subtree.  It covers the address, as after
+// a crash the buffer might still contain the subtree it was used for before.
+func subTreeChecksum(sta SubTreeAddress, data []byte) uint64 {
+	h := xxhash.New()
+	binary.Write(h, binary.BigEndian, &sta)
+	h.Write(data)
+	return h.Sum64()
+}
+
 // Returns the given subtree, either by loading it from the cache,
 // or generating it.
 func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
@@ -288,7 +297,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		// hasn't been corrupted.  We keep the lock, so that no other thread
 		// is correcting (or dropping) the tree in the meantime.
 		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-		if storedCheckSum == xxhash.Sum64(buf[:len(buf)-8]) {
+		if storedCheckSum == subTreeChecksum(sta, buf[:len(buf)-8]) {
 			sk.subTreeChecked[sta] = true
 		} else {
 			// Mark the subtree not-ready
@@ -325,7 +334,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	// Called when we were sucessful in the end.
 	succeed := func() {
 		binary.BigEndian.PutUint64(buf[len(buf)-8:],
-			xxhash.Sum64(buf[:len(buf)-8]))
+			subTreeChecksum(sta, buf[:len(buf)-8]))
 
 		sk.mux.Lock()
 		sk.subTreeReady[sta] = true
-- 
2.43.0


From ac3c90c7f6067b4751255c66b4694cd69c269f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 12/38] fix: open a container with a missing or damaged subtree
 cache

The private key itself is intact in that case (for instance because of a crash
just after it was created) and the cache can be regenerated.
---
 container.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index 0ae6528..3367bd0 100644
--- a/container.go
+++ b/container.go
@@ -245,8 +245,11 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 
 	ctr.initialized = true
 
+	// The cache can always be regenerated, so we'll do without if it's missing
+	// or damaged.  See PrivateKeyContainer.CacheInitialized().
 	if err := ctr.openCache(); err != nil {
-		return nil, err
+		log.Logf("Ignoring subtree cache of %s: %v", path, err)
+		ctr.closeCache()
 	}
 
 	opened = true
-- 
2.43.0


From 6babc3684a19e2bccde199c0d1b4727f580579d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:42 +0000
Subject: [PATCH 13/38] fix: check the alignment and size of the subtree cache
 when opening it

A zero alignment caused a division by zero (instead of being interpreted
as 4096), an alignment smaller than the header overlap of the header with the
first subtree, and a truncated file a SIGBUS when using the missing subtrees.
---
 container.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/container.go b/container.go
index 3367bd0..a08018e 100644
--- a/container.go
+++ b/container.go
@@ -297,11 +297,28 @@ func (ctr *fsContainer) openCache() Error {
 		}
 
 		ctr.subTreeAlignment = int(header.SubTreeAlignment)
+		if ctr.subTreeAlignment == 0 {
+			ctr.subTreeAlignment = 4096
+		}
+		if ctr.subTreeAlignment%4096 != 0 {
+			return errorf("Invalid alignment of cached subtrees: %d",
+				ctr.subTreeAlignment)
+		}
 	}
 
 	ctr.pageSize = os.Getpagesize()
 	ctr.allocatedSubTrees = header.AllocatedSubTrees
 
+	// We can't mmap beyond the end of the file.
+	info, err := ctr.cacheFile.Stat()
+	if err != nil {
+		return wrapErrorf(err, "Failed to stat cache file")
+	}
+	if info.Size() < int64(ctr.subTreeOffset(ctr.allocatedSubTrees)) &&
+		ctr.allocatedSubTrees != 0 {
+		return errorf("Cache file is truncated")
+	}
+
 	// Read subtrees
 	var idx uint32
 	for idx = 0; idx < ctr.allocatedSubTrees; idx++ {
-- 
2.43.0


From 6e7256866c8b272def83512194af90708611baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 14/38] fix: keep the cache file open if updating its header
 fails

Otherwise all later allocations of subtrees failed as well.
---
 container.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/container.go b/container.go
index a08018e..cf8ae38 100644
--- a/container.go
+++ b/container.go
@@ -428,6 +428,7 @@ func (ctr *fsContainer) ResetCache() Error {
 	}
 
 	if err = ctr.writeCacheHeader(); err != nil {
+		ctr.closeCache()
 		return err
 	}
 	ctr.cacheInitialized = true
@@ -450,7 +451,6 @@ func (ctr *fsContainer) writeCacheHeader() Error {
 	copy(cacheHeader.Magic[:], magic)
 	err = binary.Write(ctr.cacheFile, binary.BigEndian, &cacheHeader)
 	if err != nil {
-		ctr.cacheFile.Close()
 		return wrapErrorf(err, "failed to write to cache file")
 	}
 	return nil
-- 
2.43.0


From f0a5be4028bd85141cff4d50d158c2d77df7db95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 15/38] fix: remove the cache of the old key before writing a
 new key

When crashing in between, the new key would be used with the subtrees (and thus
the root) of the old one.  Also, do not use a container which failed to reset.
---
 container.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/container.go b/container.go
index cf8ae38..44c976b 100644
--- a/container.go
+++ b/container.go
@@ -625,11 +625,17 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 	// Even if closing the cache fails, we will try to write the key file.
 	closeCacheErr := ctr.closeCache()
 
+	// Remove the old cache before writing the new key: if we would crash in
+	// between, then the subtrees of the old key would be used for the new one.
+	if err := ctr.removeCache(); err != nil {
+		return err
+	}
+
 	ctr.params = params
 	ctr.privateKey = privateKey
 	ctr.seqNo = 0
 	ctr.borrowed = 0
-	ctr.cacheInitialized = false
+	ctr.initialized = false // if we fail, we don't know which key is stored.
 
 	if err := ctr.writeKeyFile(); err != nil {
 		return err
@@ -666,6 +672,18 @@ func (ctr *fsContainer) BorrowSeqNos(amount uint32) (SignatureSeqNo, Error) {
 	return ctr.seqNo - SignatureSeqNo(amount), nil
 }
 
+// Removes the (closed) cache file from disk.
+func (ctr *fsContainer) removeCache() Error {
+	err := os.Remove(ctr.path + ".cache")
+	if os.IsNotExist(err) {
+		return nil
+	}
+	if err != nil {
+		return wrapErrorf(err, "failed to remove old cache file")
+	}
+	return ctr.syncDir()
+}
+
 // Write key file to disk
 func (ctr *fsContainer) writeKeyFile() Error {
 	var err error
@@ -718,6 +736,11 @@ func (ctr *fsContainer) writeKeyFile() Error {
 	// (4) Sync the parent directory.  If this fails we have no way of knowing
 	// whether  the changes have been written out to disk.  We will assume that
 	// it did not, so that we won't reuse signatures.
+	return ctr.syncDir()
+}
+
+// Sync the directory of the key file.
+func (ctr *fsContainer) syncDir() Error {
 	dirName := filepath.Dir(ctr.path)
 	dir, err := os.Open(dirName)
 	if err != nil {
-- 
2.43.0


From e49335a7e33ce31a1c0e19032b07c6e04fa23aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:28 +0000
Subject: [PATCH 16/38] fix: check the parameters in a keyfile before using
 them

For instance, D=0 caused a division by zero.
---
 container.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/container.go b/container.go
index 44c976b..dfaa3bf 100644
--- a/container.go
+++ b/container.go
@@ -234,6 +234,10 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		return nil, wrapErrorf(err, "Keyfile has invalid magic")
 	}
 
+	if _, err := NewContext(keyHeader.Params); err != nil {
+		return nil, wrapErrorf(err, "Keyfile has invalid parameters")
+	}
+
 	ctr.params = keyHeader.Params
 	ctr.privateKey = make([]byte, ctr.params.PrivateKeySize())
 	ctr.seqNo = keyHeader.SeqNo
-- 
2.43.0


From 5e236a550d631bbed1e2d4509b02eadcb6d555b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 17/38] fix: keep the record of reserved signatures when
 reducing their number

BorrowExactly() recorded the reduced reservation in the container as if it
had been used, so that no lost signatures were reported after a crash.  Also,
if recording it failed, then signatures were still made from the reservation,
although it might not be recorded anymore.
---
 api.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/api.go b/api.go
index ed089c0..6bc640b 100644
--- a/api.go
+++ b/api.go
@@ -496,12 +496,15 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	}
 
 	if sk.borrowed > amount {
-		err := sk.ctr.SetSeqNo(sk.seqNo + SignatureSeqNo(amount))
-		if err != nil {
+		// Return what we borrowed.  We can't use it if this fails, as then we
+		// don't know whether the container still has it as borrowed.
+		sk.borrowed = 0
+		if err := sk.ctr.SetSeqNo(sk.seqNo); err != nil {
 			return err
 		}
-		sk.borrowed = amount
-		return nil
+		if amount == 0 {
+			return nil
+		}
 	}
 
 	// sk.borrowed < amount
-- 
2.43.0


From de5903a6a28f64e8ec4319b3c6d39ef3d3d1e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 18/38] fix: keep the container in step with DangerousSetSeqNo

A reservation made before or after moving the sequence number was used without
the container knowing about it, so that after a crash or Close() the same
sequence numbers were used again.
---
 api.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 6bc640b..c4e7318 100644
--- a/api.go
+++ b/api.go
@@ -508,6 +508,9 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	}
 
 	// sk.borrowed < amount
+	if err := sk.reconcileSeqNo(); err != nil {
+		return err
+	}
 	_, err := sk.ctr.BorrowSeqNos(amount - sk.borrowed)
 	if err != nil {
 		return err
@@ -516,6 +519,20 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	return nil
 }
 
+// After DangerousSetSeqNo(), ensures that the container is at our sequence
+// number (plus what we borrowed).  Requires sk.mux lock.
+func (sk *PrivateKey) reconcileSeqNo() Error {
+	seqNo, _, err := sk.ctr.GetSeqNo()
+	if err != nil {
+		return err
+	}
+	if seqNo == sk.seqNo+SignatureSeqNo(sk.borrowed) {
+		return nil
+	}
+	sk.borrowed = 0
+	return sk.ctr.SetSeqNo(sk.seqNo)
+}
+
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
@@ -604,7 +621,10 @@ func (sk *PrivateKey) Close() Error {
 
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
-	if sk.borrowed > 0 {
+	// Besides returning what we borrowed, the container might also be behind
+	// because of DangerousSetSeqNo().
+	ctrSeqNo, _, err := sk.ctr.GetSeqNo()
+	if sk.borrowed > 0 || (err == nil && ctrSeqNo != sk.seqNo) {
 		sk.borrowed = 0
 		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
@@ -839,6 +859,7 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	sk.seqNo = seqNo
+	sk.borrowed = 0 // the reservation is not for these sequence numbers
 
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
-- 
2.43.0


From c3ca6b630fbd6b3e12363e4160368443113c3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 19/38] fix: do not overflow the number of borrowed signatures

---
 container.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/container.go b/container.go
index dfaa3bf..d0f8fba 100644
--- a/container.go
+++ b/container.go
@@ -663,6 +663,10 @@ func (ctr *fsContainer) BorrowSeqNos(amount uint32) (SignatureSeqNo, Error) {
 		return 0, errorf("Container is not initialized")
 	}
 
+	if ctr.borrowed+amount < amount {
+		return 0, errorf("Can't borrow that many signatures")
+	}
+
 	ctr.borrowed += amount
 	ctr.seqNo += SignatureSeqNo(amount)
 
-- 
2.43.0


From 9ec724c996910af04c54464b5145ecff905e39ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 20/38] fix: do not sign past the end of the key after
 DangerousSetSeqNo

---
 core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.go b/core.go
index cf78201..b704f0d 100644
--- a/core.go
+++ b/core.go
@@ -402,7 +402,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 		return 0, errorf("Private key is closed")
 	}
 
-	if uint64(sk.seqNo) == sk.ctx.p.MaxSignatureSeqNo() {
+	if uint64(sk.seqNo) >= sk.ctx.p.MaxSignatureSeqNo() {
 		return 0, errorf("No unused signatures left")
 	}
 
-- 
2.43.0


From e16a166af93ede60bac4fc1dc9c064bf38c722f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 21/38] fix: do not truncate retired sequence numbers to 32
 bits

If the Sign()s around a multiple of 2^32 finish out of order, then the order
in the heap of retired numbers is wrong, and no number would be retired and no
subtree dropped anymore.
---
 api.go  |  4 ++--
 core.go |  6 +++---
 misc.go | 19 +++++++++++++++++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/api.go b/api.go
index c4e7318..3385b5e 100644
--- a/api.go
+++ b/api.go
@@ -72,7 +72,7 @@ type PrivateKey struct {
 
 	// Heap of retired seqNo's larger than lesatSeqNoInUse.
 	// See PrivateKey.retireSeqNo().
-	retiredSeqNos *uint32Heap
+	retiredSeqNos *seqNoHeap
 
 	mux  sync.Mutex
 	cond *sync.Cond     // signalled when a subtree is generated
@@ -863,7 +863,7 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 	// We might forget to drop some cached subtrees, but that is probably
 	// the least of our worries now.
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	sk.retiredSeqNos = &emptyHeap
 	heap.Init(sk.retiredSeqNos)
 	sk.leastSeqNoInUse = seqNo
diff --git a/core.go b/core.go
index b704f0d..2bb2000 100644
--- a/core.go
+++ b/core.go
@@ -506,7 +506,7 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	ret.cond = sync.NewCond(&ret.mux)
 	ret.subTreeReady = make(map[SubTreeAddress]bool)
 	ret.subTreeChecked = make(map[SubTreeAddress]bool)
-	emptyHeap := uint32Heap([]uint32{})
+	emptyHeap := seqNoHeap([]SignatureSeqNo{})
 	ret.retiredSeqNos = &emptyHeap
 	heap.Init(ret.retiredSeqNos)
 	ret.leastSeqNoInUse = seqNo
@@ -540,7 +540,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
 	if sk.leastSeqNoInUse != seqNo {
-		heap.Push(sk.retiredSeqNos, uint32(seqNo))
+		heap.Push(sk.retiredSeqNos, seqNo)
 		return
 	}
 
@@ -548,7 +548,7 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	// the leastSeqNoInUse counter by using seqNos in retiredSeqNos.
 	sk.incLeastSeqNoInUse()
 	for sk.retiredSeqNos.Len() != 0 &&
-		sk.retiredSeqNos.Min() == uint32(sk.leastSeqNoInUse) {
+		sk.retiredSeqNos.Min() == sk.leastSeqNoInUse {
 		heap.Pop(sk.retiredSeqNos)
 		sk.incLeastSeqNoInUse()
 	}
diff --git a/misc.go b/misc.go
index dd4988c..91ce421 100644
--- a/misc.go
+++ b/misc.go
@@ -94,6 +94,25 @@ func SetLogger(logger Logger) {
 	log = logger
 }
 
+// Priority queue of signature sequence numbers
+type seqNoHeap []SignatureSeqNo
+
+func (h seqNoHeap) Min() SignatureSeqNo { return h[0] }
+func (h seqNoHeap) Len() int            { return len(h) }
+func (h seqNoHeap) Less(i, j int) bool  { return h[i] < h[j] }
+func (h seqNoHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
+func (h *seqNoHeap) Push(x interface{}) {
+	*h = append(*h, x.(SignatureSeqNo))
+}
+
+func (h *seqNoHeap) Pop() interface{} {
+	old := *h
+	n := len(old)
+	x := old[n-1]
+	*h = old[0 : n-1]
+	return x
+}
+
 // Priority queue of uint32s
 type uint32Heap []uint32
 
-- 
2.43.0


From d483504cf2ef831374c28aa8486c12546b5599bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 22/38] fix: read the state of a private key with its lock held

---
 api.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/api.go b/api.go
index 3385b5e..6383ed7 100644
--- a/api.go
+++ b/api.go
@@ -536,6 +536,8 @@ func (sk *PrivateKey) reconcileSeqNo() Error {
 // Returns the number of signature sequence numbers borrowed from the container.
 // See BorrowExactly() or PrivateKeyContainer.BorrowSeqNos()
 func (sk *PrivateKey) BorrowedSeqNos() uint32 {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.borrowed
 }
 
@@ -848,6 +850,8 @@ func (sk *PrivateKey) UnretiredSeqNos() uint32 {
 
 // Returns the number of subtrees that are cached
 func (sk *PrivateKey) CachedSubTrees() int {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return len(sk.subTreeReady)
 }
 
@@ -871,6 +875,8 @@ func (sk *PrivateKey) DangerousSetSeqNo(seqNo SignatureSeqNo) {
 
 // Returns the signature sequence used next.
 func (sk *PrivateKey) SeqNo() SignatureSeqNo {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
 	return sk.seqNo
 }
 
-- 
2.43.0


From 7750845cb61024371a27e4929f276a16ec5446b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 23/38] fix: ignore retirement of numbers that
 DangerousSetSeqNo moved past

Otherwise they remain in the heap of retired numbers forever and no subtree
would be dropped anymore.
---
 core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core.go b/core.go
index 2bb2000..49dd4cd 100644
--- a/core.go
+++ b/core.go
@@ -539,6 +539,9 @@ func (sk *PrivateKey) retireSeqNo(seqNo SignatureSeqNo) {
 	defer sk.wg.Done()
 	sk.mux.Lock()
 	defer sk.mux.Unlock()
+	if seqNo < sk.leastSeqNoInUse {
+		return // DangerousSetSeqNo() already moved past it
+	}
 	if sk.leastSeqNoInUse != seqNo {
 		heap.Push(sk.retiredSeqNos, seqNo)
 		return
-- 
2.43.0


From 044eb55554fce264f45d9c97e678618799168310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 24/38] fix: check the length of serialized signatures and
 public keys

Too short ones caused a panic, and too long ones were accepted.
---
 api.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/api.go b/api.go
index 6383ed7..4b8170c 100644
--- a/api.go
+++ b/api.go
@@ -278,14 +278,22 @@ func (sig *Signature) MarshalBinary() ([]byte, error) {
 // Initializes the Signature as stored by MarshalBinary.
 func (sig *Signature) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Signature is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	sig.ctx, err = NewContext(params)
+	ctx, err := NewContext(params)
 	if err != nil {
 		return err
 	}
+	if uint64(len(buf)) != 4+uint64(ctx.sigBytes) {
+		return errorf("Signature should be %d bytes long (instead of %d)",
+			4+uint64(ctx.sigBytes), len(buf))
+	}
+	sig.ctx = ctx
 	sig.seqNo = SignatureSeqNo(decodeUint64(buf[4 : 4+sig.ctx.indexBytes]))
 	sig.drv = make([]byte, params.N)
 	sig.sigs = make([]subTreeSig, params.D)
@@ -375,14 +383,22 @@ func (pk *PublicKey) MarshalBinary() ([]byte, error) {
 // Initializes the PublicKey as was stored by MarshalBinary.
 func (pk *PublicKey) UnmarshalBinary(buf []byte) error {
 	var params Params
+	if len(buf) < 4 {
+		return errorf("Public key is too short")
+	}
 	err := params.UnmarshalBinary(buf[:4])
 	if err != nil {
 		return err
 	}
-	pk.ctx, err = NewContext(params)
+	ctx, err := NewContext(params)
 	if err != nil {
 		return err
 	}
+	if len(buf) != 4+int(ctx.pkBytes) {
+		return errorf("Public key should be %d bytes long (instead of %d)",
+			4+ctx.pkBytes, len(buf))
+	}
+	pk.ctx = ctx
 	pk.root = make([]byte, params.N)
 	pk.pubSeed = make([]byte, params.N)
 	copy(pk.root, buf[4:4+params.N])
-- 
2.43.0


From 1fff17f6ec6e70e4a380515c084734931e7b01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 25/38] fix: refuse signatures with other parameters than those
 of the public key

Depending on the parameters, they'd cause a panic or were accepted.
---
 api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/api.go b/api.go
index 4b8170c..966b0cc 100644
--- a/api.go
+++ b/api.go
@@ -202,6 +202,11 @@ func (pk *PublicKey) Verify(sig *Signature, msg []byte) (bool, Error) {
 // Reads a message from the io.Reader and verifies whether the provided
 // signature is valid for this public key and message.
 func (pk *PublicKey) VerifyFrom(sig *Signature, msg io.Reader) (bool, Error) {
+	if sig.ctx.p != pk.ctx.p {
+		return false, errorf(
+			"Signature is for %s, but public key for %s", sig.ctx.p, pk.ctx.p)
+	}
+
 	pad := pk.ctx.newScratchPad()
 	curHash := make([]byte, sig.ctx.p.N)
 
-- 
2.43.0


From 8487ba0ad0808b079906442c3608235ab51248f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:42 +0000
Subject: [PATCH 26/38] fix: do not create contexts for unsupported parameters

An unknown hash function caused a nil dereference, and for FullHeight=0 or
large subtrees the various sizes and indices overflow.
---
 api.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/api.go b/api.go
index 966b0cc..483173f 100644
--- a/api.go
+++ b/api.go
@@ -716,6 +716,18 @@ func NewContext(params Params) (ctx *Context, err Error) {
 		return nil, errorf("Only N=16,24,32,64 are supported")
 	}
 
+	if params.Func > SHAKE256 {
+		return nil, errorf("Unknown hash function")
+	}
+
+	if params.Prf > NIST {
+		return nil, errorf("Unknown Prf")
+	}
+
+	if params.FullHeight == 0 || params.FullHeight > 63 {
+		return nil, errorf("FullHeight should be between 1 and 63")
+	}
+
 	if params.D == 0 {
 		return nil, errorf("D can't be zero")
 	}
@@ -726,6 +738,11 @@ func NewContext(params Params) (ctx *Context, err Error) {
 
 	ctx.treeHeight = params.FullHeight / params.D
 
+	if ctx.treeHeight > 30 ||
+		uint64(params.N)<<(ctx.treeHeight+1) > 0xffffffff {
+		return nil, errorf("Subtrees are too high")
+	}
+
 	if params.WotsW != 4 && params.WotsW != 16 && params.WotsW != 256 {
 		return nil, errorf("Only WotsW=4,16,256 is supported")
 	}
-- 
2.43.0


From 4cc65192100443c6bd18fd85fe8c2c8ce8f9ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 27/38] fix: do not encode or decode invalid parameters

N=0 overflowed into the rest of the encoding, unknown hash functions were
accepted, and a hash length that is not a multiple of eight was rounded down.
---
 params.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/params.go b/params.go
index f3e9ea5..2d5e724 100644
--- a/params.go
+++ b/params.go
@@ -193,8 +193,8 @@ func (params *Params) WriteInto(buf []byte) error {
 	var val uint32
 	var wCode uint32
 	var prfCode uint32
-	if params.N%8 != 0 {
-		return errorf("N is not divisable by 8")
+	if params.N%8 != 0 || params.N == 0 {
+		return errorf("N is not a positive multiple of 8")
 	}
 	if params.N > 128 {
 		return errorf("N is too large")
@@ -271,6 +271,9 @@ func (params *Params) UnmarshalBinary(buf []byte) error {
 	}
 	params.N = (comprN + 1) * 8
 	params.Func = HashFunc((val >> 14) & ((1 << 2) - 1))
+	if params.Func > SHAKE256 {
+		return errorf("Unsupported hash function in compressed parameters")
+	}
 	params.FullHeight = (val >> 6) & ((1 << 6) - 1)
 	params.D = val & ((1 << 6) - 1)
 	return nil
@@ -400,6 +403,9 @@ func parseParamsFromName(name string) (*Params, Error) {
 	if n < 0 || int64(n) > int64(1)<<32 {
 		return nil, errorf("N out of bounds")
 	}
+	if n%8 != 0 {
+		return nil, errorf("N should be a multiple of 8")
+	}
 	ret.N = uint32(n) / 8
 
 	if ret.N == 24 {
-- 
2.43.0


From 6058782fe9b66d08a572d441e310ea9c063a7074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:56 +0000
Subject: [PATCH 28/38] fix: do not report lost signatures after a proper Close

If all reserved signatures were used, then the reservation was not cleared.
---
 api.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/api.go b/api.go
index 483173f..5156782 100644
--- a/api.go
+++ b/api.go
@@ -66,6 +66,9 @@ type PrivateKey struct {
 	// See PrivateKeyContainer.Borrow()
 	borrowed uint32
 
+	// Whether we ever reserved signatures from the container.
+	hasBorrowed bool
+
 	// The least signature sequence number that might still be in use
 	// by a Sign() operation.
 	leastSeqNoInUse SignatureSeqNo
@@ -532,6 +535,7 @@ func (sk *PrivateKey) borrowExactly(amount uint32) Error {
 	if err := sk.reconcileSeqNo(); err != nil {
 		return err
 	}
+	sk.hasBorrowed = true
 	_, err := sk.ctr.BorrowSeqNos(amount - sk.borrowed)
 	if err != nil {
 		return err
@@ -647,13 +651,14 @@ func (sk *PrivateKey) Close() Error {
 	// Besides returning what we borrowed, the container might also be behind
 	// because of DangerousSetSeqNo().
 	ctrSeqNo, _, err := sk.ctr.GetSeqNo()
-	if sk.borrowed > 0 || (err == nil && ctrSeqNo != sk.seqNo) {
+	if sk.hasBorrowed || (err == nil && ctrSeqNo != sk.seqNo) {
 		sk.borrowed = 0
 		err := sk.ctr.SetSeqNo(sk.seqNo)
 		if err != nil {
 			sk.closing = false
 			return err
 		}
+		sk.hasBorrowed = false
 	}
 	return sk.ctr.Close()
 }
-- 
2.43.0


From 6b322cad14b5ad737c782c24ff460417226f72ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:07 +0000
Subject: [PATCH 29/38] fix: drop precomputed subtrees which were retired in
 the meantime

---
 api.go  |  1 +
 core.go | 45 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/api.go b/api.go
index 5156782..9939ced 100644
--- a/api.go
+++ b/api.go
@@ -952,6 +952,7 @@ func (sk *PrivateKey) EnableSubTreePrecomputation() {
 	if needed {
 		go func() {
 			sk.getSubTree(sk.ctx.newScratchPad(), nextSta)
+			sk.dropRetiredSubTrees(nextSta)
 			sk.wg.Done()
 		}()
 	}
diff --git a/core.go b/core.go
index 49dd4cd..b12d5f5 100644
--- a/core.go
+++ b/core.go
@@ -429,6 +429,7 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 		go func(sta SubTreeAddress) {
 			log.Logf("Precomputing subtree %v", sta)
 			sk.getSubTree(sk.ctx.newScratchPad(), sta)
+			sk.dropRetiredSubTrees(sta)
 			log.Logf("Finished precomputing subtree %v", sta)
 			sk.wg.Done()
 		}(SubTreeAddress{
@@ -575,17 +576,39 @@ func (sk *PrivateKey) incLeastSeqNoInUse() {
 			Layer: sta.Layer,
 			Tree:  sta.Tree - 1,
 		}
-		if ready, ok := sk.subTreeReady[staToDrop]; ok && !ready {
-			// All Sign()s that needed this subtree failed, but a background
-			// worker is still writing to it.
-			continue
-		}
-		log.Logf("Dropping cached subtree %v ...", staToDrop)
-		if err := sk.ctr.DropSubTree(staToDrop); err != nil {
-			log.Logf("  failed to drop subtree %v: %v", staToDrop, err)
-		} else {
-			delete(sk.subTreeReady, staToDrop)
-			delete(sk.subTreeChecked, staToDrop)
+		sk.dropSubTree(staToDrop)
+	}
+}
+
+// Drops the given subtree from the cache.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) dropSubTree(sta SubTreeAddress) {
+	if ready, ok := sk.subTreeReady[sta]; ok && !ready {
+		// All Sign()s that needed this subtree failed, but a background
+		// worker is still writing to it.  It will drop the subtree.
+		return
+	}
+	log.Logf("Dropping cached subtree %v ...", sta)
+	if err := sk.ctr.DropSubTree(sta); err != nil {
+		log.Logf("  failed to drop subtree %v: %v", sta, err)
+	} else {
+		delete(sk.subTreeReady, sta)
+		delete(sk.subTreeChecked, sta)
+	}
+}
+
+// Drops the given precomputed subtree and its ancestors, if all signatures
+// under them were retired while the background worker was busy.
+func (sk *PrivateKey) dropRetiredSubTrees(sta SubTreeAddress) {
+	sk.mux.Lock()
+	defer sk.mux.Unlock()
+	for ; sta.Layer < sk.ctx.p.D; sta.Layer++ {
+		lastSeqNo := (sta.Tree+1)<<((sta.Layer+1)*sk.ctx.treeHeight) - 1
+		if lastSeqNo >= uint64(sk.leastSeqNoInUse) {
+			break
 		}
+		sk.dropSubTree(sta)
+		sta.Tree >>= sk.ctx.treeHeight
 	}
 }
-- 
2.43.0


From 77c29efa5b0c59015b1b62b858e9d9719ab6dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 30/38] fix: bind the checksum of a cached subtree to the key

If the directory could not be synced when a key was replaced, then a power loss
may bring the old key back next to the cache of the new one.
---
 api.go  |  3 +++
 core.go | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/api.go b/api.go
index 9939ced..61dd2ba 100644
--- a/api.go
+++ b/api.go
@@ -93,6 +93,9 @@ type PrivateKey struct {
 	// from the private key container.
 	subTreeChecked map[SubTreeAddress]bool
 
+	// Identifies the key in the checksums of its cached subtrees.
+	cacheId []byte
+
 	// If true, will precompute a subtree in advance
 	precomputeNextSubTree bool
 }
diff --git a/core.go b/core.go
index b12d5f5..c363116 100644
--- a/core.go
+++ b/core.go
@@ -6,6 +6,7 @@ import (
 	"github.com/cespare/xxhash"
 
 	"container/heap"
+	"crypto/sha256"
 	"encoding/binary"
 	"runtime"
 	"sync"
@@ -231,8 +232,10 @@ func (ctx *Context) subTreePathForSeqNo(seqNo SignatureSeqNo) (
 
 // Computes the checksum of a cached subtree.  It covers the address, as after
 // a crash the buffer might still contain the subtree it was used for before.
-func subTreeChecksum(sta SubTreeAddress, data []byte) uint64 {
+// Similarly it covers the key, as the cache might be that of another key.
+func (sk *PrivateKey) subTreeChecksum(sta SubTreeAddress, data []byte) uint64 {
 	h := xxhash.New()
+	h.Write(sk.cacheId)
 	binary.Write(h, binary.BigEndian, &sta)
 	h.Write(data)
 	return h.Sum64()
@@ -297,7 +300,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 		// hasn't been corrupted.  We keep the lock, so that no other thread
 		// is correcting (or dropping) the tree in the meantime.
 		storedCheckSum := binary.BigEndian.Uint64(buf[len(buf)-8:])
-		if storedCheckSum == subTreeChecksum(sta, buf[:len(buf)-8]) {
+		if storedCheckSum == sk.subTreeChecksum(sta, buf[:len(buf)-8]) {
 			sk.subTreeChecked[sta] = true
 		} else {
 			// Mark the subtree not-ready
@@ -334,7 +337,7 @@ func (sk *PrivateKey) getSubTree(pad scratchPad, sta SubTreeAddress) (
 	// Called when we were sucessful in the end.
 	succeed := func() {
 		binary.BigEndian.PutUint64(buf[len(buf)-8:],
-			subTreeChecksum(sta, buf[:len(buf)-8]))
+			sk.subTreeChecksum(sta, buf[:len(buf)-8]))
 
 		sk.mux.Lock()
 		sk.subTreeReady[sta] = true
@@ -512,6 +515,12 @@ func (ctx *Context) newPrivateKey(pad scratchPad, pubSeed, skSeed, skPrf []byte,
 	heap.Init(ret.retiredSeqNos)
 	ret.leastSeqNoInUse = seqNo
 
+	h := sha256.New()
+	binary.Write(h, binary.BigEndian, &ctx.p)
+	h.Write(skSeed)
+	h.Write(pubSeed)
+	ret.cacheId = h.Sum(nil)
+
 	// Register the cached subtrees
 	stas, err := ctr.ListSubTrees()
 	if err != nil {
-- 
2.43.0


From 816019877faab43aa1bfbcd50c5cb11331ee3898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 31/38] fix: serialize the takeover of stale lockfiles

If two processes find the same stale lockfile, then one might remove the fresh
lockfile of the other, and both open the key.  Also, an attempt to open a key
while it is being closed failed with an error which isn't Locked().
---
 container.go   | 29 +++++++++++++++++++++++++++++
 flock_other.go | 10 ++++++++++
 flock_unix.go  | 24 ++++++++++++++++++++++++
 3 files changed, 63 insertions(+)
 create mode 100644 flock_other.go
 create mode 100644 flock_unix.go

diff --git a/container.go b/container.go
index d0f8fba..9581b51 100644
--- a/container.go
+++ b/container.go
@@ -154,6 +154,23 @@ func unregisterFSContainer(path string) {
 	delete(openedFSContainers, path)
 }
 
+// Locks the directory of the container while the lockfile is acquired or
+// released.  Otherwise, if two processes find the same stale lockfile, one might
+// remove the new lockfile of the other.
+func (ctr *fsContainer) lockDir() (unlock func(), err error) {
+	dir, err := os.Open(filepath.Dir(ctr.path))
+	if err != nil {
+		return nil, err
+	}
+	if err = flockFile(dir); err != nil {
+		dir.Close()
+		return nil, err
+	}
+	return func() {
+		dir.Close() // also releases the lock
+	}, nil
+}
+
 // Returns a PrivateKeyContainer backed by the filesystem.
 func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 	var ctr fsContainer
@@ -189,7 +206,13 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		return nil, err2
 	}
 
+	unlockDir, err := ctr.lockDir()
+	if err != nil {
+		unregisterFSContainer(ctr.path)
+		return nil, wrapErrorf(err, "Failed to lock %s", path)
+	}
 	err = ctr.flock.TryLock()
+	unlockDir()
 	if err != nil {
 		unregisterFSContainer(ctr.path)
 	}
@@ -834,10 +857,16 @@ func (ctr *fsContainer) Close() Error {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not close cache"))
 	}
+	unlockDir, err2 := ctr.lockDir()
+	if err2 != nil {
+		// It's still safe to remove our own lockfile.
+		unlockDir = func() {}
+	}
 	if err2 := ctr.flock.Unlock(); err2 != nil {
 		err = multierror.Append(err, wrapErrorf(err2,
 			"Could not release file lock"))
 	}
+	unlockDir()
 	unregisterFSContainer(ctr.path)
 	ctr.closed = true
 	ctr.initialized = false
diff --git a/flock_other.go b/flock_other.go
new file mode 100644
index 0000000..7474239
--- /dev/null
+++ b/flock_other.go
@@ -0,0 +1,10 @@
+//go:build !darwin && !dragonfly && !freebsd && !linux && !netbsd && !openbsd
+// +build !darwin,!dragonfly,!freebsd,!linux,!netbsd,!openbsd
+
+package xmssmt
+
+import "os"
+
+func flockFile(file *os.File) error {
+	return nil
+}
diff --git a/flock_unix.go b/flock_unix.go
new file mode 100644
index 0000000..28c6289
--- /dev/null
+++ b/flock_unix.go
@@ -0,0 +1,24 @@
+//go:build darwin || dragonfly || freebsd || linux || netbsd || openbsd
+// +build darwin dragonfly freebsd linux netbsd openbsd
+
+package xmssmt
+
+import (
+	"os"
+	"syscall"
+)
+
+// Acquires an advisory lock on the file, which is released when it is closed.
+// Does nothing if the filesystem does not support it.
+func flockFile(file *os.File) error {
+	for {
+		err := syscall.Flock(int(file.Fd()), syscall.LOCK_EX)
+		switch err {
+		case syscall.EINTR:
+			continue
+		case syscall.ENOSYS, syscall.EOPNOTSUPP, syscall.EBADF, syscall.EINVAL:
+			return nil
+		}
+		return err
+	}
+}
-- 
2.43.0


From 03eeadae1c7e22f73f86f33e7d925ff001d751b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:51 +0000
Subject: [PATCH 32/38] fix: do not leave a lockfile behind if acquiring it
 fails halfway

---
 container.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/container.go b/container.go
index 9581b51..a1ab57b 100644
--- a/container.go
+++ b/container.go
@@ -212,6 +212,10 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 		return nil, wrapErrorf(err, "Failed to lock %s", path)
 	}
 	err = ctr.flock.TryLock()
+	if err != nil && err != lockfile.ErrBusy {
+		// The lockfile might have been put in place anyway.
+		ctr.flock.Unlock()
+	}
 	unlockDir()
 	if err != nil {
 		unregisterFSContainer(ctr.path)
-- 
2.43.0


From 076c3232f475634e7a9140e8fa8784ebd063743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:04 +0000
Subject: [PATCH 33/38] fix: do not open a key if its path can't be resolved

It would be locked under another name.
---
 container.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/container.go b/container.go
index a1ab57b..7e5b108 100644
--- a/container.go
+++ b/container.go
@@ -185,11 +185,18 @@ func OpenFSPrivateKeyContainer(path string) (PrivateKeyContainer, Error) {
 
 	// Resolve symbolic links, so that the container has one lock (and so that
 	// we don't replace a link by a copy when writing) however it is reached.
-	if realPath, err := filepath.EvalSymlinks(ctr.path); err == nil {
+	realPath, err := filepath.EvalSymlinks(ctr.path)
+	if err == nil {
 		ctr.path = realPath
-	} else if realDir, err := filepath.EvalSymlinks(
-		filepath.Dir(ctr.path)); err == nil {
-		ctr.path = filepath.Join(realDir, filepath.Base(ctr.path))
+	} else if os.IsNotExist(err) {
+		var realDir string
+		realDir, err = filepath.EvalSymlinks(filepath.Dir(ctr.path))
+		if err == nil {
+			ctr.path = filepath.Join(realDir, filepath.Base(ctr.path))
+		}
+	}
+	if err != nil {
+		return nil, wrapErrorf(err, "Could not resolve %s", path)
 	}
 
 	// Acquire lock
-- 
2.43.0


From 48f6ddd938481541318310ab0b3dae913abb8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 34/38] fix: copy the seeds a key is derived from

The key kept the slices of the caller: overwriting them after Derive() (as one
does with secrets) changed the public key and made it sign with other seeds.
---
 api.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/api.go b/api.go
index 61dd2ba..6b7687c 100644
--- a/api.go
+++ b/api.go
@@ -469,6 +469,11 @@ func (ctx *Context) DeriveInto(ctr PrivateKeyContainer,
 			"skPrf, skSeed and pubSeed should have length %d", ctx.p.N)
 	}
 
+	// The caller is free to overwrite its seeds later on.
+	pubSeed = append([]byte(nil), pubSeed...)
+	skSeed = append([]byte(nil), skSeed...)
+	skPrf = append([]byte(nil), skPrf...)
+
 	concatSk := make([]byte, 3*ctx.p.N)
 	copy(concatSk, skSeed)
 	copy(concatSk[ctx.p.N:], skPrf)
-- 
2.43.0


From 52f432c954988a975ce394be8c7bdc9809774ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:59 +0000
Subject: [PATCH 35/38] fix: do not share the private key and parameters of a
 container with callers

Changing the slice passed to Reset() or returned by GetPrivateKey() changed what
the container stores the next time it writes the key file.
---
 container.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/container.go b/container.go
index 7e5b108..8825571 100644
--- a/container.go
+++ b/container.go
@@ -427,7 +427,8 @@ func (ctr *fsContainer) Initialized() *Params {
 	if !ctr.initialized {
 		return nil
 	}
-	return &ctr.params
+	params := ctr.params
+	return &params
 }
 
 func (ctr *fsContainer) ResetCache() Error {
@@ -670,7 +671,7 @@ func (ctr *fsContainer) Reset(privateKey []byte, params Params) Error {
 	}
 
 	ctr.params = params
-	ctr.privateKey = privateKey
+	ctr.privateKey = append([]byte(nil), privateKey...)
 	ctr.seqNo = 0
 	ctr.borrowed = 0
 	ctr.initialized = false // if we fail, we don't know which key is stored.
@@ -835,7 +836,7 @@ func (ctr *fsContainer) GetPrivateKey() ([]byte, Error) {
 	if !ctr.initialized {
 		return nil, errorf("Container is not initialized")
 	}
-	return ctr.privateKey, nil
+	return append([]byte(nil), ctr.privateKey...), nil
 }
 
 func (ctr *fsContainer) closeCache() (err error) {
-- 
2.43.0


From 09c8254c55dee27ad1cd4b850abcbe67b5940a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 36/38] fix: do not precompute subtrees beyond the end of the
 key

---
 api.go  |  7 ++-----
 core.go | 18 +++++++++++++-----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/api.go b/api.go
index 6b7687c..d570074 100644
--- a/api.go
+++ b/api.go
@@ -946,12 +946,9 @@ func (sk *PrivateKey) EnableSubTreePrecomputation() {
 	sk.precomputeNextSubTree = true
 
 	// ensure the next subtree is computed
-	nextSta := SubTreeAddress{
-		Layer: 0,
-		Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
-	}
+	nextSta, ok := sk.subTreeToPrecompute()
 	_, nextTreeExists := sk.subTreeReady[nextSta]
-	needed := !nextTreeExists && !sk.closing
+	needed := ok && !nextTreeExists && !sk.closing
 	if needed {
 		sk.wg.Add(1)
 	}
diff --git a/core.go b/core.go
index c363116..8840a95 100644
--- a/core.go
+++ b/core.go
@@ -426,7 +426,8 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 	sk.wg.Add(1) // see retireSeqNo()
 
 	// Check if we need to precompute a subtree
-	if sk.precomputeNextSubTree &&
+	nextSta, ok := sk.subTreeToPrecompute()
+	if ok && sk.precomputeNextSubTree &&
 		(uint64(sk.seqNo)&((1<<sk.ctx.treeHeight)-1) == 0) {
 		sk.wg.Add(1)
 		go func(sta SubTreeAddress) {
@@ -435,15 +436,22 @@ func (sk *PrivateKey) getSeqNo() (SignatureSeqNo, Error) {
 			sk.dropRetiredSubTrees(sta)
 			log.Logf("Finished precomputing subtree %v", sta)
 			sk.wg.Done()
-		}(SubTreeAddress{
-			Layer: 0,
-			Tree:  (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1,
-		})
+		}(nextSta)
 	}
 
 	return sk.seqNo - 1, nil
 }
 
+// Returns the bottom subtree after the one of the next signature, which is
+// to be precomputed.  There is none after the last.
+//
+// NOTE Assumes a lock on sk.mux.
+func (sk *PrivateKey) subTreeToPrecompute() (sta SubTreeAddress, ok bool) {
+	sta.Tree = (uint64(sk.seqNo) >> sk.ctx.treeHeight) + 1
+	ok = sta.Tree>>(sk.ctx.p.FullHeight-sk.ctx.treeHeight) == 0
+	return
+}
+
 func (pad scratchPad) fBuf() []byte {
 	return pad.buf[:3*pad.n]
 }
-- 
2.43.0


From 750f6db975eb4cb322b371c13e6fab5ed5abf732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 37/38] fix: forget subtrees the container dropped although it
 failed

---
 core.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core.go b/core.go
index 8840a95..b9381d8 100644
--- a/core.go
+++ b/core.go
@@ -607,9 +607,11 @@ func (sk *PrivateKey) dropSubTree(sta SubTreeAddress) {
 		return
 	}
 	log.Logf("Dropping cached subtree %v ...", sta)
-	if err := sk.ctr.DropSubTree(sta); err != nil {
+	err := sk.ctr.DropSubTree(sta)
+	if err != nil {
 		log.Logf("  failed to drop subtree %v: %v", sta, err)
-	} else {
+	}
+	if err == nil || !sk.ctr.HasSubTree(sta) { // it might be gone nevertheless
 		delete(sk.subTreeReady, sta)
 		delete(sk.subTreeChecked, sta)
 	}
-- 
2.43.0


From d7fcf65d00b888825fe978238473135dc088b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:07 +0000
Subject: [PATCH 38/38] fix: do not lose slots of the cache if allocating them
 fails

---
 container.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/container.go b/container.go
index 8825571..cccfd6b 100644
--- a/container.go
+++ b/container.go
@@ -556,21 +556,22 @@ func (ctr *fsContainer) GetSubTree(address SubTreeAddress) (
 		idx = heap.Pop(ctr.cacheFreeIdx).(uint32)
 	} else {
 		idx = ctr.allocatedSubTrees
-		ctr.allocatedSubTrees += 1
-		err2 = ctr.cacheFile.Truncate(int64(
-			ctr.subTreeOffset(ctr.allocatedSubTrees)))
+		err2 = ctr.cacheFile.Truncate(int64(ctr.subTreeOffset(idx + 1)))
 		if err2 != nil {
 			return nil, false, wrapErrorf(err2,
 				"Failed to allocate space for subtree")
 		}
+		ctr.allocatedSubTrees += 1
 		err = ctr.writeCacheHeader()
 		if err != nil {
+			ctr.allocatedSubTrees -= 1
 			return nil, false, err
 		}
 	}
 
 	buf, err2 := ctr.mmapSubTree(idx)
 	if err2 != nil {
+		heap.Push(ctr.cacheFreeIdx, idx)
 		return nil, false, wrapErrorf(err2, "Failed to mmap subtree from cache")
 	}
 
-- 
2.43.0

