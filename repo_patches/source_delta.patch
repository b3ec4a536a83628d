From 3c70708c286aad3885e3feec74cd660d3d43e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:14 +0000
Subject: [PATCH 01/81] fix: keep the DHT ring consistent when removing its
 head or its only entry

Removing the lowest of three or more entries left the old head linked behind
the tail, and removing any identifier from a one-entry ring emptied it.
---
 common/pkg/dhtring/dhtring.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index cf498f2..5ab8f68 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -152,8 +152,10 @@ func (r *Ring) Remove(hex string) {
 		return
 	}
 	if r.size == 1 {
-		r.head = nil
-		r.size = 0
+		if r.head.val == hex {
+			r.head = nil
+			r.size = 0
+		}
 		return
 	}
 	if r.size == 2 {
@@ -175,14 +177,16 @@ func (r *Ring) Remove(hex string) {
 	}
 	if r.head.val == hex {
 		oldHead := r.head
+		tail := oldHead.prv
 		// first becomes the head
-		r.head = r.head.next
-		// tail links to the new head
-		oldHead.prv = r.head
+		r.head = oldHead.next
+		// link tail and the new head to each other
+		tail.next = r.head
+		r.head.prv = tail
 		// update distances
-		tailToNewHeadDistance := getDist(r.head.prv.key, r.head.key)
+		tailToNewHeadDistance := getDist(tail.key, r.head.key)
 		r.head.distPrv = tailToNewHeadDistance
-		r.head.prv.distNext = tailToNewHeadDistance
+		tail.distNext = tailToNewHeadDistance
 		// help GC
 		oldHead = nil
 		r.size--
-- 
2.43.0


From fc6684f2d46321690660097597a9de0682053779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:46 +0000
Subject: [PATCH 02/81] fix: closest-entries query when asking for all entries
 or excluding a non-member

Asking for more entries than the ring holds left out the head, excluding an
identifier from a one-entry ring returned nothing even if it was not that
entry, and the last remaining entry was always listed on the clockwise side.
---
 common/pkg/dhtring/dhtring.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 5ab8f68..298b165 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -235,7 +235,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
-	if num == 0 || r.size == 0 || (exclude != "" && r.size == 1) {
+	if num == 0 || r.size == 0 {
 		return res, nil
 	}
 	// Consider exclusion
@@ -246,17 +246,13 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 			defer r.Insert(exclude)
 		}
 	}
-	if num > r.size {
-		if r.head.val == hex {
-			res = append(res, r.head.val)
-		}
-		current := r.head.next
-		for current != nil && current.val != r.head.val {
-			res = append(res, current.val)
-			current = current.next
-		}
+	if r.size == 0 {
+		// The excluded entry was the only one
 		return res, nil
 	}
+	if num > r.size {
+		num = r.size
+	}
 	// Insert & Search & Remove
 	before := r.size
 	r.Insert(hex)
@@ -288,9 +284,13 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 	distToNext.Add(distToNext, current.distNext)
 	for {
 		// If prv and next is the same thing
-		// Add it and return
+		// Add it on the side it is closer from and return
 		if prv.val == next.val {
-			res = append(res, prv.val)
+			if distToPrv.Cmp(distToNext) <= 0 {
+				res = append([]string{prv.val}, res...)
+			} else {
+				res = append(res, prv.val)
+			}
 			break
 		}
 		// fmt.Printf("\n\nprv %v\ndist to prv %v\nnext %v\ndist to next %v\n\n", prv.val, distToPrv, next.val, distToNext)
-- 
2.43.0


From 2de6930d48c4eaeba44bd3858f8a195735b10be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 03/81] fix: range query over a single identifier

GetWithinRange with equal bounds walked the whole ring (listing the bound twice,
or although absent) and dereferenced a nil link on an empty or one-entry ring.
---
 common/pkg/dhtring/dhtring.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 298b165..9bce5ae 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -320,6 +320,13 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 		return nil, errors.New("invalid input")
 	}
 	res := make([]string, 0)
+	if startHex == endHex {
+		// The range is a single entry
+		if r.get(startHex) != nil {
+			res = append(res, startHex)
+		}
+		return res, nil
+	}
 	var startNode *ringNode
 	var endNode *ringNode
 	addStart := false
-- 
2.43.0


From cf95d937deaba048e2ebd60c840de482a48d50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 04/81] fix: offer lookup by digest ignored expiry and read
 group offers without their lock

---
 common/pkg/fcroffermgr/offer_manager.go | 21 +++------------------
 common/pkg/fcroffermgr/offer_storage.go | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_manager.go b/common/pkg/fcroffermgr/offer_manager.go
index 9d89fdc..8f090b9 100644
--- a/common/pkg/fcroffermgr/offer_manager.go
+++ b/common/pkg/fcroffermgr/offer_manager.go
@@ -111,24 +111,9 @@ func (mgr *FCROfferMgr) GetOffers(cid *cid.ContentID) ([]cidoffer.CIDOffer, bool
 // GetOfferByDigest allows a gateway to be able to respond to a query to search for an offer by the offer digest
 func (mgr *FCROfferMgr) GetOfferByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (result *cidoffer.CIDOffer, exist bool) {
 	// first, look in DHT offers
-	mgr.dhtOffers.lock.RLock()
-	defer mgr.dhtOffers.lock.RUnlock()
-	for _, digestAndOffer := range mgr.dhtOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
+	if result, exist = mgr.dhtOffers.getByDigest(digest); exist {
+		return result, true
 	}
 	// look in Group offers
-	for _, digestAndOffer := range mgr.groupOffers.cidMap {
-		digestAndOffer.lock.RLock()
-		result, exist = digestAndOffer.dMap[digest]
-		digestAndOffer.lock.RUnlock()
-		if exist {
-			return result, true
-		}
-	}
-	return nil, false
+	return mgr.groupOffers.getByDigest(digest)
 }
diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index f9010dd..a96900c 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -136,3 +136,22 @@ func (o *offerStorage) get(cid *cid.ContentID) []cidoffer.CIDOffer {
 	o.lock.RUnlock()
 	return res
 }
+
+// getByDigest returns the offer with the given digest, if it is stored and not yet expired.
+func (o *offerStorage) getByDigest(digest [cidoffer.CIDOfferDigestSize]byte) (*cidoffer.CIDOffer, bool) {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
+	for _, digestMap := range o.cidMap {
+		digestMap.lock.RLock()
+		offer, exists := digestMap.dMap[digest]
+		digestMap.lock.RUnlock()
+		if exists {
+			if offer.HasExpired() {
+				return nil, false
+			}
+			res := *offer
+			return &res, true
+		}
+	}
+	return nil, false
+}
-- 
2.43.0


From 4fa2da03b441ac5b1d11287800fcb797e35065f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 05/81] fix: concurrently stored offers for the same new CID
 were lost

---
 common/pkg/fcroffermgr/offer_storage.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index a96900c..eeab4bb 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -53,9 +53,10 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 	}
 	testCIDStr := testCIDs[0].ToString()
 	digest := newOffer.GetMessageDigest()
-	o.lock.RLock()
+	// The offer is looked up and stored in one step, or concurrent calls overwrite each other's entries.
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	digestMap, exists := o.cidMap[testCIDStr]
-	o.lock.RUnlock()
 	if exists {
 		digestMap.lock.RLock()
 		_, exists = digestMap.dMap[digest]
@@ -72,18 +73,14 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 
 	for _, contentID := range newOffer.GetCIDs() {
 		cidStr := contentID.ToString()
-		o.lock.RLock()
 		digestMap, exists = o.cidMap[cidStr]
-		o.lock.RUnlock()
 		if !exists {
 			// Need a new entry in cid map
-			o.lock.Lock()
 			digestMap = &digestOffer{
 				dMap: make(map[[cidoffer.CIDOfferDigestSize]byte]*cidoffer.CIDOffer),
 				lock: sync.RWMutex{},
 			}
 			o.cidMap[cidStr] = digestMap
-			o.lock.Unlock()
 		}
 		// Add offer to digest map
 		digestMap.lock.Lock()
-- 
2.43.0


From 156946c95137dbe821cfe91882b2678fd6383b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:34 +0000
Subject: [PATCH 06/81] fix: stored offers changed with the caller's variable
 (a DHT batch was stored as copies of its last offer)

---
 common/pkg/fcroffermgr/offer_storage.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcroffermgr/offer_storage.go b/common/pkg/fcroffermgr/offer_storage.go
index eeab4bb..43486bf 100644
--- a/common/pkg/fcroffermgr/offer_storage.go
+++ b/common/pkg/fcroffermgr/offer_storage.go
@@ -71,6 +71,8 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 		return errors.New("offers: Attempt to add an expired offer")
 	}
 
+	// Keep a copy, the caller may reuse its variable for another offer.
+	stored := *newOffer
 	for _, contentID := range newOffer.GetCIDs() {
 		cidStr := contentID.ToString()
 		digestMap, exists = o.cidMap[cidStr]
@@ -84,7 +86,7 @@ func (o *offerStorage) add(newOffer *cidoffer.CIDOffer) error {
 		}
 		// Add offer to digest map
 		digestMap.lock.Lock()
-		digestMap.dMap[digest] = newOffer
+		digestMap.dMap[digest] = &stored
 		digestMap.lock.Unlock()
 	}
 	return nil
-- 
2.43.0


From 356ca8069e8d4483c12894aef245c9935b35961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 07/81] fix: the DHT ring was edited by concurrent queries
 without a lock

---
 common/pkg/dhtring/dhtring.go | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/common/pkg/dhtring/dhtring.go b/common/pkg/dhtring/dhtring.go
index 9bce5ae..0d03584 100644
--- a/common/pkg/dhtring/dhtring.go
+++ b/common/pkg/dhtring/dhtring.go
@@ -22,6 +22,7 @@ import (
 	"errors"
 	"fmt"
 	"math/big"
+	"sync"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 )
@@ -40,6 +41,8 @@ type ringNode struct {
 
 // Ring is a struct to store the DHT Ring to store 32-bytes hex
 type Ring struct {
+	// lock is held during every public operation: queries edit the ring temporarily
+	lock sync.Mutex
 	head *ringNode
 	size int
 }
@@ -54,6 +57,12 @@ func CreateRing() *Ring {
 
 // Insert inserts a hex string into the ring
 func (r *Ring) Insert(hex string) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.insert(hex)
+}
+
+func (r *Ring) insert(hex string) {
 	if !validateInput(hex) {
 		logging.Error("Ring invalid hex: %v", hex)
 		return
@@ -144,6 +153,12 @@ func (r *Ring) Insert(hex string) {
 
 // Remove inserts a given hex string out of the ring
 func (r *Ring) Remove(hex string) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
+	r.remove(hex)
+}
+
+func (r *Ring) remove(hex string) {
 	if !validateInput(hex) {
 		logging.Error("Ring invalid hex: %v", hex)
 		return
@@ -230,6 +245,8 @@ func (r *Ring) Remove(hex string) {
 
 // GetClosest gets the closest hexes close to the given hex
 func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	if !validateInput(hex) || (exclude != "" && !validateInput(exclude)) {
 		logging.Error("Ring invalid hex: %v %v", hex, exclude)
 		return nil, errors.New("invalid input")
@@ -241,9 +258,9 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 	// Consider exclusion
 	if exclude != "" {
 		before := r.size
-		r.Remove(exclude)
+		r.remove(exclude)
 		if r.size != before {
-			defer r.Insert(exclude)
+			defer r.insert(exclude)
 		}
 	}
 	if r.size == 0 {
@@ -255,7 +272,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 	}
 	// Insert & Search & Remove
 	before := r.size
-	r.Insert(hex)
+	r.insert(hex)
 	if r.size == before {
 		// This already exists
 		res = append(res, hex)
@@ -264,7 +281,7 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 			return res, nil
 		}
 	} else {
-		defer r.Remove(hex)
+		defer r.remove(hex)
 	}
 	// Now search
 	current := r.head
@@ -315,6 +332,8 @@ func (r *Ring) GetClosest(hex string, num int, exclude string) ([]string, error)
 
 // GetWithinRange gets all entries within a range
 func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error) {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	if !validateInput(startHex) || !validateInput(endHex) {
 		logging.Error("Ring invalid hex: %v %v", startHex, endHex)
 		return nil, errors.New("invalid input")
@@ -335,24 +354,24 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 		startNode = temp
 		addStart = true
 	} else {
-		r.Insert(startHex)
+		r.insert(startHex)
 		startNode = r.get(startHex)
 		if startNode == nil {
 			return res, errors.New("internal error")
 		}
-		defer r.Remove(startHex)
+		defer r.remove(startHex)
 	}
 
 	if temp := r.get(endHex); temp != nil {
 		endNode = temp
 		addEnd = true
 	} else {
-		r.Insert(endHex)
+		r.insert(endHex)
 		endNode = r.get(endHex)
 		if endNode == nil {
 			return res, errors.New("internal error")
 		}
-		defer r.Remove(endHex)
+		defer r.remove(endHex)
 	}
 
 	if addStart {
@@ -374,11 +393,15 @@ func (r *Ring) GetWithinRange(startHex string, endHex string) ([]string, error)
 
 // Size gets the size of the ring
 func (r *Ring) Size() int {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	return r.size
 }
 
 // Dump is for debugging use ONLY
 func (r *Ring) Dump() {
+	r.lock.Lock()
+	defer r.lock.Unlock()
 	fmt.Printf("\nSize: %v [\n", r.size)
 	if r.head == nil {
 		fmt.Println("]")
-- 
2.43.0


From 3b51c7d09dc1ef2bdb77b32888fd799eb3b06736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 08/81] fix: gateway offer expiry depended on the local time
 zone and hid offers with a far expiry

---
 common/pkg/offermgr/offer_manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index dbd8eca..85c04bc 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -112,7 +112,7 @@ func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CID
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o join content c on o.digest=c.digest 
 		where c.content_id=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
 }
@@ -124,7 +124,7 @@ func (mgr *FCROfferMgr) selectOffersRange(maxOffers int, cidMin *cid.ContentID,
 		from offer o, (select distinct digest from content 
 				where content_id>=? and content_id<=?) c
 		where o.digest=c.digest
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, maxOffers, cidMin.ToString(), cidMax.ToString())
 }
@@ -135,7 +135,7 @@ func (mgr *FCROfferMgr) selectOffersDigest(digest []byte) (*cidoffer.CIDOffer, b
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
 		from offer o
 		where o.digest=?
-		and datetime(o.expiry, 'unixepoch') > datetime('now', 'utc')`
+		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	offers, exist := mgr.selectOffers(sqlSelectOffer, 1, hex.EncodeToString(digest))
 	if !exist {
-- 
2.43.0


From af6cb6e54f7aaca15e74d9222b744a61117ad80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:44 +0000
Subject: [PATCH 09/81] fix: an offer listing a CID twice was returned twice

---
 common/pkg/offermgr/offer_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index 85c04bc..fe6ae96 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -110,8 +110,8 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 func (mgr *FCROfferMgr) selectOffersSingle(c *cid.ContentID) (res []cidoffer.CIDOffer, find bool) {
 	sqlSelectOffer :=
 		`select o.digest, o.provider_id, o.expiry, o.price, o.qos, o.signature
-		from offer o join content c on o.digest=c.digest 
-		where c.content_id=?
+		from offer o
+		where o.digest in (select digest from content where content_id=?)
 		and o.expiry > cast(strftime('%s', 'now') as integer)`
 
 	return mgr.selectOffers(sqlSelectOffer, -1, c.ToString())
-- 
2.43.0


From f2b53d66525a8460a96c0819d908188754f6c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 10/81] fix: every limited offer lookup leaked a database
 connection

---
 common/pkg/offermgr/offer_manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index fe6ae96..e0a7d04 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -150,6 +150,8 @@ func (mgr *FCROfferMgr) selectOffers(sqlSelectOffer string, maxOffers int, param
 	if err != nil {
 		return
 	}
+	// Rows left open keep their database connection
+	defer offerRows.Close()
 	var cnt int
 	sqlSelectContent := `select content_id from content where digest=? order by content_no`
 	for offerRows.Next() {
-- 
2.43.0


From 250248d2eb8637cb987077e01573bda139b3dda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:46 +0000
Subject: [PATCH 11/81] fix: an offer whose storing was interrupted stayed with
 part of its CIDs

---
 common/pkg/offermgr/offer_manager.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index e0a7d04..d5e383b 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -89,7 +89,13 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 		where not exists (select 1 from content where content_no = ? and digest = ?)`
 	digestArr := offer.GetMessageDigest()
 	digestHex := hex.EncodeToString(digestArr[:])
-	_, err = mgr.db.Exec(sqlInsertOffer, digestHex,
+	// An offer is stored with all of its CIDs or not at all
+	tx, err := mgr.db.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+	_, err = tx.Exec(sqlInsertOffer, digestHex,
 		offer.GetProviderID().ToString(),
 		offer.GetExpiry(),
 		offer.GetPrice(),
@@ -100,10 +106,13 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 	}
 	i := 0
 	for _, contentID := range offer.GetCIDs() {
-		_, err = mgr.db.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		_, err = tx.Exec(sqlInsertContent, contentID.ToString(), i, digestHex, i, digestHex)
+		if err != nil {
+			return err
+		}
 		i++
 	}
-	return err
+	return tx.Commit()
 }
 
 // selectOffersSingle retrieves offers by a CID
-- 
2.43.0


From 3b44bd86005a0fcadf3b357c845de73258ad2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 12/81] fix: a channel deposit shared memory with the amount
 the caller passed to top up

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 582bf80..dcebcbe 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -167,7 +167,7 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Create new channel
 		mgr.outboundChs[recipient] = &channelState{
 			addr:       decodedReturn.RobustAddress,
-			balance:    *amount,
+			balance:    *new(big.Int).Set(amount),
 			redeemed:   *big.NewInt(0),
 			lock:       sync.RWMutex{},
 			laneStates: make(map[uint64]*laneState),
-- 
2.43.0


From b894e4cef4af1496ca474431e3b1bc96856af1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 13/81] fix: concurrent first top-ups for a recipient opened
 two channels and lost a deposit

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index dcebcbe..4674ed7 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -135,6 +135,11 @@ func (mgr *FCRPaymentMgr) Topup(recipient string, amount *big.Int) error {
 		// Need to create a channel
 		mgr.outboundChsLock.RUnlock()
 		mgr.outboundChsLock.Lock()
+		if _, ok = mgr.outboundChs[recipient]; ok {
+			// Another top up has created the channel in the meantime
+			mgr.outboundChsLock.Unlock()
+			return mgr.Topup(recipient, amount)
+		}
 		defer mgr.outboundChsLock.Unlock()
 		builder := paych.Message(actors.Version4, *mgr.address)
 		msg, err := builder.Create(recipientAddr, lotusbig.NewFromGo(amount))
-- 
2.43.0


From 412791cd7daffc90ed3e1ea358262f478a7289a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 14/81] fix: concurrent first vouchers on a channel were each
 credited

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 4674ed7..833be0a 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -317,6 +317,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		// Need to create a entry in local storage
 		mgr.inboundChsLock.RUnlock()
 		mgr.inboundChsLock.Lock()
+		if _, ok = mgr.inboundChs[channel]; ok {
+			// Another voucher has created the entry in the meantime
+			mgr.inboundChsLock.Unlock()
+			return mgr.Receive(channel, voucher)
+		}
 		defer mgr.inboundChsLock.Unlock()
 		cs = &channelState{
 			addr:       channelAddr,
-- 
2.43.0


From 811a331524b1d45f1cda12c05590f8f28d439032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 15/81] fix: a voucher was credited again under any other
 channel of its payer

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 833be0a..25de402 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -292,6 +292,9 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if err != nil {
 		return nil, fmt.Errorf("receive voucher method failed, error decoding voucher: %s", err.Error())
 	}
+	if sv.ChannelAddr != channelAddr {
+		return nil, fmt.Errorf("receive voucher method failed, voucher is for channel %s instead of %s", sv.ChannelAddr.String(), channelAddr.String())
+	}
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
-- 
2.43.0


From 817e5f0928886b1aa4b790d59b862b8b6e101012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 16/81] fix: a voucher was credited again under another
 spelling of its channel address

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 25de402..80db929 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -313,7 +313,8 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		return nil, errors.New("receive voucher method failed, not a paych state")
 	}
 
-	// Get channel state from local storage
+	// Get channel state from local storage, an address can be written in more than one way
+	channel = channelAddr.String()
 	mgr.inboundChsLock.RLock()
 	cs, ok := mgr.inboundChs[channel]
 	if !ok {
-- 
2.43.0


From 3fd9fa236dfb2f9f3d13738b1303123c053dc495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 17/81] fix: a voucher presented for an actor that is not a
 payment channel crashed the payee

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 80db929..3c4714e 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -350,7 +350,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify recipient
-	to, err := address.NewFromString(paychState["To"].(string))
+	toStr, ok := paychState["To"].(string)
+	if !ok {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
+	to, err := address.NewFromString(toStr)
 	if err != nil {
 		return nil, err
 	}
@@ -363,7 +367,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	}
 
 	// Verify signature
-	f, err := address.NewFromString(paychState["From"].(string))
+	fromStr, ok := paychState["From"].(string)
+	if !ok {
+		return nil, errors.New("receive voucher method failed, not a paych state")
+	}
+	f, err := address.NewFromString(fromStr)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2fc510f6d7643ac2644eaa9dd79e3024a087d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:08 +0000
Subject: [PATCH 18/81] fix: vouchers older than one with the largest nonce
 were credited

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 3c4714e..9544f6e 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -27,6 +27,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"math"
 	"math/big"
 	"net/http"
 	"sync"
@@ -399,7 +400,7 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 		}
 		cs.laneStates[sv.Lane] = ls
 	}
-	if ls.nonce > sv.Nonce {
+	if ls.nonce > sv.Nonce || sv.Nonce == math.MaxUint64 {
 		// Nonce not match.
 		return nil, errors.New("nonce is smaller than local stored value")
 	}
-- 
2.43.0


From 11144863478228b788cd0f9f1dceca9b396ee545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:32 +0000
Subject: [PATCH 19/81] fix: looking up an unknown provider left the provider
 map locked for ever

---
 common/pkg/fcrregistermgr/register_manager.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index ca404b5..ec2588d 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -201,18 +201,13 @@ func (mgr *FCRRegisterMgr) GetProvider(id *nodeid.NodeID) register.ProviderRegis
 		return nil
 	}
 	mgr.registeredProvidersMapLock.RLock()
+	defer mgr.registeredProvidersMapLock.RUnlock()
+	// TODO: Do we call refresh here, if can't find a provider?
+	// mgr.Refresh()
 	provider, ok := mgr.registeredProvidersMap[id.ToString()]
 	if !ok {
-		mgr.registeredProvidersMapLock.RUnlock()
-		// TODO: Do we call refresh here, if can't find a provider?
-		// mgr.Refresh()
-		mgr.registeredProvidersMapLock.RLock()
-		provider, ok = mgr.registeredProvidersMap[id.ToString()]
-		if !ok {
-			return nil
-		}
+		return nil
 	}
-	defer mgr.registeredProvidersMapLock.RUnlock()
 	return provider
 }
 
-- 
2.43.0


From 6dd046b3a3d0b08368709a24e2391fe6ff6c43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:32 +0000
Subject: [PATCH 20/81] fix: a refresh concurrent with another returned before
 the registry was read

---
 common/pkg/fcrregistermgr/register_manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index ec2588d..57899c2 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -56,6 +56,9 @@ type FCRRegisterMgr struct {
 	gatewayRefreshCh   chan bool
 	providerRefreshCh  chan bool
 
+	// refreshLock serialises forced refreshes
+	refreshLock sync.Mutex
+
 	// registeredGatewaysMap stores mapping from gateway id (big int in string repr) to its registration info
 	registeredGatewaysMap     map[string]register.GatewayRegistrar
 	registeredGatewaysMapLock sync.RWMutex
@@ -151,6 +154,9 @@ func (mgr *FCRRegisterMgr) Refresh() {
 	if !mgr.start {
 		return
 	}
+	// The channels carry both requests and completions: one caller at a time
+	mgr.refreshLock.Lock()
+	defer mgr.refreshLock.Unlock()
 	if mgr.gatewayDiscv {
 		mgr.gatewayRefreshCh <- true
 		<-mgr.gatewayRefreshCh
-- 
2.43.0


From 8423db5369b079577b42b80ad2baac069e95c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:32 +0000
Subject: [PATCH 21/81] fix: a CID range query concurrent with a newly listed
 gateway deadlocked the register manager

---
 common/pkg/fcrregistermgr/register_manager.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/common/pkg/fcrregistermgr/register_manager.go b/common/pkg/fcrregistermgr/register_manager.go
index 57899c2..e1dbf47 100644
--- a/common/pkg/fcrregistermgr/register_manager.go
+++ b/common/pkg/fcrregistermgr/register_manager.go
@@ -297,9 +297,6 @@ func (mgr *FCRRegisterMgr) pullProvidersFromRegisterSrv() []register.ProviderReg
 
 // GetGatewayCIDRange gets the cid max and cid min of this gateway at start up
 func (mgr *FCRRegisterMgr) GetGatewayCIDRange(gatewayID *nodeid.NodeID) (*cid.ContentID, *cid.ContentID, error) {
-	mgr.closestGatewaysIDsLock.RLock()
-	defer mgr.closestGatewaysIDsLock.RUnlock()
-
 	cID, err := cid.NewContentIDFromHexString(gatewayID.ToString())
 	if err != nil {
 		return nil, nil, err
-- 
2.43.0


From 43e4d6620c403c1609104fc7ec198406c28417f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 22/81] fix: malformed identifiers in messages and offers were
 decoded to missing ids, crashing the node that used them

---
 common/pkg/cid/cid.go                             |  9 ++++++---
 common/pkg/cidoffer/cidoffer.go                   | 11 +++++++++--
 common/pkg/cidoffer/subcidoffer.go                | 10 ++++++++--
 .../client_dht_discover_offer_request.go          | 11 +++++++++--
 .../client_dht_discover_offer_response.go         | 11 +++++++++--
 .../fcrmessages/client_dht_discover_request.go    |  5 ++++-
 .../fcrmessages/client_dht_discover_request_v2.go |  5 ++++-
 .../fcrmessages/client_dht_discover_response.go   | 10 +++++++++-
 .../client_dht_discover_response_v2.go            | 10 +++++++++-
 .../fcrmessages/client_dht_offer_ack_request.go   | 10 ++++++++--
 .../fcrmessages/client_dht_offer_ack_response.go  | 10 ++++++++--
 .../fcrmessages/client_establishment_request.go   |  5 ++++-
 .../fcrmessages/client_establishment_response.go  |  5 ++++-
 .../client_standard_discover_offer_request.go     |  5 ++++-
 .../client_standard_discover_offer_response.go    |  5 ++++-
 .../client_standard_discover_request.go           |  5 ++++-
 .../client_standard_discover_request_v2.go        |  5 ++++-
 .../client_standard_discover_response.go          |  5 ++++-
 .../client_standard_discover_response_v2.go       |  5 ++++-
 .../gateway_dht_discover_offer_request.go         |  5 ++++-
 .../gateway_dht_discover_offer_response.go        |  5 ++++-
 .../fcrmessages/gateway_dht_discover_request.go   | 10 ++++++++--
 .../gateway_dht_discover_request_v2.go            | 10 ++++++++--
 .../fcrmessages/gateway_dht_discover_response.go  |  5 ++++-
 .../gateway_dht_discover_response_v2.go           |  5 ++++-
 .../fcrmessages/gateway_list_dht_offer_request.go | 15 ++++++++++++---
 ..._provider_group_cid_offer_supported_request.go |  5 ++++-
 common/pkg/fcrmessages/gateway_ping_request.go    |  5 ++++-
 .../gatewayadmin_get_reputation_request.go        |  5 ++++-
 .../gatewayadmin_get_reputation_response.go       |  5 ++++-
 .../gatewayadmin_initialise_key_request.go        |  5 ++++-
 .../gatewayadmin_initialise_key_request_v2.go     |  5 ++++-
 .../gatewayadmin_set_reputation_request.go        |  5 ++++-
 .../gatewayadmin_set_reputation_response.go       |  5 ++++-
 ...dmin_update_group_cid_offer_support_request.go | 11 +++++++++--
 .../provider_publish_dht_offer_request.go         |  5 ++++-
 .../provider_publish_group_offer_request.go       |  5 ++++-
 .../provider_publish_group_offer_response.go      |  5 ++++-
 .../provideradmin_get_published_offer_request.go  |  6 +++++-
 .../provideradmin_initialise_key_request.go       |  5 ++++-
 .../provideradmin_initialise_key_request_v2.go    |  5 ++++-
 .../provideradmin_publish_dht_offer_request.go    |  6 +++++-
 .../provideradmin_publish_group_offer_request.go  |  6 +++++-
 common/pkg/nodeid/nodeid.go                       |  9 ++++++---
 44 files changed, 241 insertions(+), 59 deletions(-)

diff --git a/common/pkg/cid/cid.go b/common/pkg/cid/cid.go
index 0c3d086..5b93453 100644
--- a/common/pkg/cid/cid.go
+++ b/common/pkg/cid/cid.go
@@ -135,11 +135,14 @@ func MapCIDToString(cids []ContentID) []string {
 }
 
 // Map - used to returns a new slice containing CIDs as string values
-func MapStringToCID(cids []string) []ContentID {
+func MapStringToCID(cids []string) ([]ContentID, error) {
 	results := make([]ContentID, len(cids))
 	for i, v := range cids {
-		contentID, _ := NewContentIDFromHexString(v)
+		contentID, err := NewContentIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *contentID
 	}
-	return results
+	return results, nil
 }
diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index ddb0a83..75c744f 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -231,9 +231,16 @@ func (c *CIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	cids, err := cid.MapStringToCID(cJson.CIDs)
+	if err != nil {
+		return err
+	}
 	c.providerID = nodeID
-	c.cids = cid.MapStringToCID(cJson.CIDs)
+	c.cids = cids
 	c.price = cJson.Price
 	c.expiry = cJson.Expiry
 	c.qos = cJson.QoS
diff --git a/common/pkg/cidoffer/subcidoffer.go b/common/pkg/cidoffer/subcidoffer.go
index 478e057..60735fb 100644
--- a/common/pkg/cidoffer/subcidoffer.go
+++ b/common/pkg/cidoffer/subcidoffer.go
@@ -167,9 +167,15 @@ func (c *SubCIDOffer) UnmarshalJSON(p []byte) error {
 	if err != nil {
 		return err
 	}
-	providerID, _ := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	providerID, err := nodeid.NewNodeIDFromHexString(cJson.ProviderID)
+	if err != nil {
+		return err
+	}
+	subCID, err := cid.NewContentIDFromHexString(cJson.SubCID)
+	if err != nil {
+		return err
+	}
 	c.providerID = providerID
-	subCID, _ := cid.NewContentIDFromHexString(cJson.SubCID)
 	c.subCID = subCID
 	c.merkleRoot = cJson.MerkleRoot
 	c.merkleProof = &cJson.MerkleProof
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_request.go b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
index ed7bd33..7c9699a 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_request.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, msg.GatewaysDigests, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.PaychAddr, msg.Voucher, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, "", "", err
+	}
+	return contentID, msg.Nonce, msg.GatewaysDigests, gatewayIDs, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_offer_response.go b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
index d1f12b9..2ab080e 100644
--- a/common/pkg/fcrmessages/client_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_offer_response.go
@@ -74,6 +74,13 @@ func DecodeClientDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	return contentID, msg.Nonce, nodeid.MapStringToNodeID(msg.GatewayIDs), msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, 0, nil, nil, false, "", err
+	}
+	return contentID, msg.Nonce, gatewayIDs, msg.Response, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request.go b/common/pkg/fcrmessages/client_dht_discover_request.go
index 21e2a47..8ca0ac7 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_request_v2.go b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
index 589c47f..85b2df5 100644
--- a/common/pkg/fcrmessages/client_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_request_v2.go
@@ -77,6 +77,9 @@ func DecodeClientDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, false, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, 0, false, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.NumDHT, msg.IncrementalResults, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response.go b/common/pkg/fcrmessages/client_dht_discover_response.go
index f0086b8..e373c5f 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_discover_response_v2.go b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
index a1ecace..acec4cb 100644
--- a/common/pkg/fcrmessages/client_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_dht_discover_response_v2.go
@@ -73,5 +73,13 @@ func DecodeClientDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, 0, false, "", err
 	}
-	return nodeid.MapStringToNodeID(msg.Contacted), msg.Response, nodeid.MapStringToNodeID(msg.UnContactable), msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
+	contacted, err := nodeid.MapStringToNodeID(msg.Contacted)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	unContactable, err := nodeid.MapStringToNodeID(msg.UnContactable)
+	if err != nil {
+		return nil, nil, nil, 0, false, "", err
+	}
+	return contacted, msg.Response, unContactable, msg.Nonce, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_request.go b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
index ee27eb7..bf9acca 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_request.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_request.go
@@ -58,7 +58,13 @@ func DecodeClientDHTOfferAckRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
 	return contentID, nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/client_dht_offer_ack_response.go b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
index 91d7953..d957d0b 100644
--- a/common/pkg/fcrmessages/client_dht_offer_ack_response.go
+++ b/common/pkg/fcrmessages/client_dht_offer_ack_response.go
@@ -70,7 +70,13 @@ func DecodeClientDHTOfferAckResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, false, nil, nil, err
+	}
 	return contentID, nodeID, msg.Found, &msg.PublishDHTOfferRequest, &msg.PublishDHTOfferResponse, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_request.go b/common/pkg/fcrmessages/client_establishment_request.go
index 3fd9a1b..7f73f91 100644
--- a/common/pkg/fcrmessages/client_establishment_request.go
+++ b/common/pkg/fcrmessages/client_establishment_request.go
@@ -61,6 +61,9 @@ func DecodeClientEstablishmentRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", 0, err
 	}
-	clientID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	clientID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, "", 0, err
+	}
 	return clientID, msg.Challenge, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/client_establishment_response.go b/common/pkg/fcrmessages/client_establishment_response.go
index 8183799..f701485 100644
--- a/common/pkg/fcrmessages/client_establishment_response.go
+++ b/common/pkg/fcrmessages/client_establishment_response.go
@@ -57,6 +57,9 @@ func DecodeClientEstablishmentResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	gatewayID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	gatewayID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, "", err
+	}
 	return gatewayID, msg.Challenge, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_request.go b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
index 5311b79..ca69461 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_request.go
@@ -73,6 +73,9 @@ func DecodeClientStandardDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_offer_response.go b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
index 54959dc..6fb6bfb 100644
--- a/common/pkg/fcrmessages/client_standard_discover_offer_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeClientStandardDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request.go b/common/pkg/fcrmessages/client_standard_discover_request.go
index 2e73878..0e8e823 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_request_v2.go b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
index a5051ab..14d1e5e 100644
--- a/common/pkg/fcrmessages/client_standard_discover_request_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_request_v2.go
@@ -69,6 +69,9 @@ func DecodeClientStandardDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, 0, "", "", err
+	}
 	return contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response.go b/common/pkg/fcrmessages/client_standard_discover_response.go
index 6ea21d8..9bcbfb5 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response.go
@@ -70,6 +70,9 @@ func DecodeClientStandardDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/client_standard_discover_response_v2.go b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
index d0d17a0..f4718cd 100644
--- a/common/pkg/fcrmessages/client_standard_discover_response_v2.go
+++ b/common/pkg/fcrmessages/client_standard_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeClientStandardDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
index 73f38a0..7efed41 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_request.go
@@ -69,6 +69,9 @@ func DecodeGatewayDHTDiscoverOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, []string{}, "", "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, []string{}, "", "", err
+	}
 	return contentID, msg.Nonce, msg.OfferDigests, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
index fd2c52f..9fd63f6 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_offer_response.go
@@ -78,6 +78,9 @@ func DecodeGatewayDHTDiscoverOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request.go b/common/pkg/fcrmessages/gateway_dht_discover_request.go
index 90899ea..7df8b71 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
index 2c5b5d4..c3dcda2 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_request_v2.go
@@ -74,7 +74,13 @@ func DecodeGatewayDHTDiscoverRequestV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, 0, 0, "", "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, nil, 0, 0, "", "", err
+	}
 	return nodeID, contentID, msg.Nonce, msg.TTL, msg.PaychAddr, msg.Voucher, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response.go b/common/pkg/fcrmessages/gateway_dht_discover_response.go
index 0d89a65..69c751f 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response.go
@@ -70,6 +70,9 @@ func DecodeGatewayDHTDiscoverResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOffers, msg.FundedPaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
index 53a5fdb..2675f6a 100644
--- a/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
+++ b/common/pkg/fcrmessages/gateway_dht_discover_response_v2.go
@@ -77,6 +77,9 @@ func DecodeGatewayDHTDiscoverResponseV2(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, nil, nil, false, "", err
 	}
-	contentID, _ := cid.NewContentIDFromHexString(msg.PieceCID)
+	contentID, err := cid.NewContentIDFromHexString(msg.PieceCID)
+	if err != nil {
+		return nil, 0, false, nil, nil, false, "", err
+	}
 	return contentID, msg.Nonce, msg.Found, msg.SubCIDOfferDigests, msg.FundedPaymentChannel, msg.PaymentRequired, msg.PaymentChannel, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
index 0d2758a..ec59e68 100644
--- a/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
+++ b/common/pkg/fcrmessages/gateway_list_dht_offer_request.go
@@ -79,8 +79,17 @@ func DecodeGatewayListDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, "", "", "", nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	contentIDMin, _ := cid.NewContentIDFromHexString(msg.CIDMin)
-	contentIDMax, _ := cid.NewContentIDFromHexString(msg.CIDMax)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMin, err := cid.NewContentIDFromHexString(msg.CIDMin)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
+	contentIDMax, err := cid.NewContentIDFromHexString(msg.CIDMax)
+	if err != nil {
+		return nil, nil, nil, "", "", "", nil, err
+	}
 	return nodeID, contentIDMin, contentIDMax, msg.BlockHash, msg.TransactionReceipt, msg.MerkleRoot, &msg.MerkleProof, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
index 7d1f718..af74455 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_request.go
@@ -54,6 +54,9 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(fcrMsg *FCRMessage)
 	if err != nil {
 		return nil, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, false, err
+	}
 	return nodeID, msg.GroupCIDOfferSupported, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_request.go b/common/pkg/fcrmessages/gateway_ping_request.go
index 94e20bc..e000d43 100644
--- a/common/pkg/fcrmessages/gateway_ping_request.go
+++ b/common/pkg/fcrmessages/gateway_ping_request.go
@@ -62,6 +62,9 @@ func DecodeGatewayPingRequest(fcrMsg *FCRMessage) (
 		return nil, 0, 0, fmt.Errorf("invalid message: %s", err)
 	}
 
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, 0, 0, err
+	}
 	return nodeID, msg.Nonce, msg.TTL, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
index e3e9ee0..1435889 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_request.go
@@ -53,6 +53,9 @@ func DecodeGatewayAdminGetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, err
+	}
 	return nodeID, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
index 5d5a1ea..a3c9673 100644
--- a/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_get_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminGetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	contentID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	contentID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return contentID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
index 1704a38..9390921 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeGatewayAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
index 7186925..440d5e4 100644
--- a/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/gatewayadmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeGatewayAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
index 52cb4e0..4f61e7b 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_request.go
@@ -57,6 +57,9 @@ func DecodeGatewayAdminSetReputationRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, err
+	}
 	return nodeID, msg.Reputation, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
index 069f216..bdf47b2 100644
--- a/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
+++ b/common/pkg/fcrmessages/gatewayadmin_set_reputation_response.go
@@ -61,6 +61,9 @@ func DecodeGatewayAdminSetReputationResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, false, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ClientID)
+	if err != nil {
+		return nil, 0, false, err
+	}
 	return nodeID, msg.Reputation, msg.Exists, nil
 }
diff --git a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
index d7223a1..1519f5d 100644
--- a/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
+++ b/common/pkg/fcrmessages/gatewayadmin_update_group_cid_offer_support_request.go
@@ -54,6 +54,13 @@ func DecodeUpdateGatewayGroupCIDOfferSupportRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewayID)
-	return nodeID, nodeid.MapStringToNodeID(msg.ProviderIDs), nil
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewayID)
+	if err != nil {
+		return nil, nil, err
+	}
+	providerIDs, err := nodeid.MapStringToNodeID(msg.ProviderIDs)
+	if err != nil {
+		return nil, nil, err
+	}
+	return nodeID, providerIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
index 9a3efaa..8f8def6 100644
--- a/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_dht_offer_request.go
@@ -70,6 +70,9 @@ func DecodeProviderPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 			return nil, 0, nil, errors.New("offers contain group offer")
 		}
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, msg.Offers, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index b14f6d4..3496a4d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -62,6 +62,9 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, 0, nil, err
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_response.go b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
index a2f48a6..5ecb290 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_response.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_response.go
@@ -57,6 +57,9 @@ func DecodeProviderPublishGroupOfferResponse(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, "", err
 	}
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.GatewaydID)
+	if err != nil {
+		return nil, "", err
+	}
 	return nodeID, msg.Digest, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
index bdf7387..6c5a3a7 100644
--- a/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_get_published_offer_request.go
@@ -53,5 +53,9 @@ func DecodeProviderAdminGetPublishedOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, err
 	}
-	return nodeid.MapStringToNodeID(msg.GatewayIDs), nil
+	gatewayIDs, err := nodeid.MapStringToNodeID(msg.GatewayIDs)
+	if err != nil {
+		return nil, err
+	}
+	return gatewayIDs, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
index 2d57645..e5edb44 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request.go
@@ -67,6 +67,9 @@ func DecodeProviderAdminInitialiseKeyRequest(fcrMsg *FCRMessage) (
 		return nil, nil, nil, errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, err
+	}
 	return nodeID, privKey, privKeyVer, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
index 1ffd7e4..dcb7033 100644
--- a/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
+++ b/common/pkg/fcrmessages/provideradmin_initialise_key_request_v2.go
@@ -80,6 +80,9 @@ func DecodeProviderAdminInitialiseKeyRequestV2(fcrMsg *FCRMessage) (
 		return nil, nil, nil, "", "", "", errors.New("fail to decode private key")
 	}
 	privKeyVer := fcrcrypto.DecodeKeyVersion(msg.PrivateKeyVersion)
-	nodeID, _ := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	nodeID, err := nodeid.NewNodeIDFromHexString(msg.ProviderID)
+	if err != nil {
+		return nil, nil, nil, "", "", "", err
+	}
 	return nodeID, privKey, privKeyVer, msg.WalletPrivateKey, msg.LotusAP, msg.LotusAuthToken, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
index c0fc29b..c262df3 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_dht_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishDHTOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, nil, nil, nil, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, nil, nil, nil, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
index eb20a25..5a09d9f 100644
--- a/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provideradmin_publish_group_offer_request.go
@@ -65,5 +65,9 @@ func DecodeProviderAdminPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, 0, 0, err
 	}
-	return cid.MapStringToCID(msg.CIDs), msg.Price, msg.Expiry, msg.QoS, nil
+	cids, err := cid.MapStringToCID(msg.CIDs)
+	if err != nil {
+		return nil, 0, 0, 0, err
+	}
+	return cids, msg.Price, msg.Expiry, msg.QoS, nil
 }
diff --git a/common/pkg/nodeid/nodeid.go b/common/pkg/nodeid/nodeid.go
index c0d6a7c..5ddc341 100644
--- a/common/pkg/nodeid/nodeid.go
+++ b/common/pkg/nodeid/nodeid.go
@@ -179,11 +179,14 @@ func MapNodeIDToString(cids []NodeID) []string {
 }
 
 // Map - used to returns a new slice containing CIDs as string values
-func MapStringToNodeID(cids []string) []NodeID {
+func MapStringToNodeID(cids []string) ([]NodeID, error) {
 	results := make([]NodeID, len(cids))
 	for i, v := range cids {
-		nodeID, _ := NewNodeIDFromHexString(v)
+		nodeID, err := NewNodeIDFromHexString(v)
+		if err != nil {
+			return nil, err
+		}
 		results[i] = *nodeID
 	}
-	return results
+	return results, nil
 }
-- 
2.43.0


From 3808e9b215590b10b1929272be57f945dfd1f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 23/81] fix: a failed verification erased the message's
 signature

---
 common/pkg/fcrmessages/fcrmessage.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/common/pkg/fcrmessages/fcrmessage.go b/common/pkg/fcrmessages/fcrmessage.go
index d7929d6..daa5219 100644
--- a/common/pkg/fcrmessages/fcrmessage.go
+++ b/common/pkg/fcrmessages/fcrmessage.go
@@ -103,22 +103,17 @@ func (fcrMsg *FCRMessage) Sign(privKey *fcrcrypto.KeyPair, keyVer *fcrcrypto.Key
 
 // Verify is used to verify the offer with a given public key.
 func (fcrMsg *FCRMessage) Verify(pubKey *fcrcrypto.KeyPair) error {
-	// Clear signature
-	sig := fcrMsg.signature
-	fcrMsg.signature = ""
 	raw, err := fcrMsg.MarshalToSign()
 	if err != nil {
 		return fmt.Errorf("failed to marshal message during verification, error: %s", err.Error())
 	}
-	res, err := fcrcrypto.VerifyMessage(pubKey, sig, raw)
+	res, err := fcrcrypto.VerifyMessage(pubKey, fcrMsg.signature, raw)
 	if err != nil {
 		return fmt.Errorf("failed to verify message, error: %s", err.Error())
 	}
 	if !res {
 		return errors.New("message does not pass signature verification")
 	}
-	// Recover signature
-	fcrMsg.signature = sig
 	return nil
 }
 
-- 
2.43.0


From a96946dd80de11fd427e86f4d7c07805bb737367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 24/81] fix: extracting the key version of an empty or short
 signature panicked

---
 common/pkg/fcrcrypto/msg_signing.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/common/pkg/fcrcrypto/msg_signing.go b/common/pkg/fcrcrypto/msg_signing.go
index 2fce9ef..30d506e 100644
--- a/common/pkg/fcrcrypto/msg_signing.go
+++ b/common/pkg/fcrcrypto/msg_signing.go
@@ -52,6 +52,13 @@ func ExtractKeyVersionFromMessage(signature string) (*KeyVersion, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(sigBytes) == 0 {
+		// An unsigned message carries no key version
+		return DecodeKeyVersion(0), nil
+	}
+	if len(sigBytes) < sigOfsKeyVersionEnd {
+		return nil, errors.New("signature is too short to hold a key version")
+	}
 	return DecodeKeyVersionFromBytes(sigBytes[sigOfsKeyVersionStart:sigOfsKeyVersionEnd])
 }
 
-- 
2.43.0


From dfb2e2c9fd73f33a613ca1bbea2a3b1249a2dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 25/81] fix: decoding an empty key, as a register entry may
 hold, panicked

---
 common/pkg/fcrcrypto/keypair_retrieval.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/pkg/fcrcrypto/keypair_retrieval.go b/common/pkg/fcrcrypto/keypair_retrieval.go
index 4adbf66..eb0e997 100644
--- a/common/pkg/fcrcrypto/keypair_retrieval.go
+++ b/common/pkg/fcrcrypto/keypair_retrieval.go
@@ -19,6 +19,7 @@ import (
 	"bytes"
 	"encoding/hex"
 	"encoding/json"
+	"errors"
 	"fmt"
 )
 
@@ -63,6 +64,10 @@ func DecodePrivateKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) == 0 {
+		return nil, errors.New("empty private key")
+	}
+
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
@@ -112,6 +117,10 @@ func DecodePublicKey(encoded string) (*KeyPair, error) {
 		return nil, err
 	}
 
+	if len(algKeyBytes) == 0 {
+		return nil, errors.New("empty public key")
+	}
+
 	alg := algKeyBytes[0]
 	switch alg {
 	case SigAlgEcdsaSecP256K1Blake2b:
-- 
2.43.0


From dfc7c844951743f6891b31a371ef2edbcc53b422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 26/81] fix: a Merkle proof with fewer sides than path entries
 crashed its verifier

---
 common/pkg/fcrmerkletree/proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrmerkletree/proof.go b/common/pkg/fcrmerkletree/proof.go
index 7224178..6d4304d 100644
--- a/common/pkg/fcrmerkletree/proof.go
+++ b/common/pkg/fcrmerkletree/proof.go
@@ -36,6 +36,9 @@ type FCRMerkleProof struct {
 
 // VerifyContent is used to verify a given content and a given root matches the proof.
 func (mp *FCRMerkleProof) VerifyContent(content merkletree.Content, root string) bool {
+	if len(mp.path) != len(mp.index) {
+		return false
+	}
 	currentHash, _ := content.CalculateHash()
 	for i, path := range mp.path {
 		hashFunc := sha256.New()
-- 
2.43.0


From de9e90761c3c4081f9356d20804610cbd89c5ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 27/81] fix: a Merkle root verified as member of its own tree
 with an empty proof

---
 common/pkg/fcrmerkletree/proof.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrmerkletree/proof.go b/common/pkg/fcrmerkletree/proof.go
index 6d4304d..d4c51a1 100644
--- a/common/pkg/fcrmerkletree/proof.go
+++ b/common/pkg/fcrmerkletree/proof.go
@@ -36,7 +36,8 @@ type FCRMerkleProof struct {
 
 // VerifyContent is used to verify a given content and a given root matches the proof.
 func (mp *FCRMerkleProof) VerifyContent(content merkletree.Content, root string) bool {
-	if len(mp.path) != len(mp.index) {
+	// A leaf is never the root: even a single leaf is paired with itself
+	if len(mp.path) == 0 || len(mp.path) != len(mp.index) {
 		return false
 	}
 	currentHash, _ := content.CalculateHash()
-- 
2.43.0


From fd6ef3779beae5cf3e9bbab20c6be9c94518aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:45 +0000
Subject: [PATCH 28/81] fix: a sub-offer was generated for a CID that is not in
 the offer

---
 common/pkg/cidoffer/cidoffer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/cidoffer/cidoffer.go b/common/pkg/cidoffer/cidoffer.go
index 75c744f..20e37d8 100644
--- a/common/pkg/cidoffer/cidoffer.go
+++ b/common/pkg/cidoffer/cidoffer.go
@@ -178,6 +178,9 @@ func (c *CIDOffer) GenerateSubCIDOffer(cid *cid.ContentID) (*SubCIDOffer, error)
 	if err != nil {
 		return nil, err
 	}
+	if !proof.VerifyContent(cid, c.merkleRoot) {
+		return nil, errors.New("the CID is not in the offer")
+	}
 	return NewSubCIDOffer(c.providerID, cid, c.merkleRoot, proof, c.price, c.expiry, c.qos, c.signature), nil
 }
 
-- 
2.43.0


From 942dc89f256ef843821198e07f97485c998a1530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 29/81] fix: a group publication without an offer decoded to
 one without a provider, crashing its user

---
 common/pkg/fcrmessages/provider_publish_group_offer_request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/fcrmessages/provider_publish_group_offer_request.go b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
index 3496a4d..129dd7d 100644
--- a/common/pkg/fcrmessages/provider_publish_group_offer_request.go
+++ b/common/pkg/fcrmessages/provider_publish_group_offer_request.go
@@ -66,5 +66,8 @@ func DecodeProviderPublishGroupOfferRequest(fcrMsg *FCRMessage) (
 	if err != nil {
 		return nil, 0, nil, err
 	}
+	if msg.Offer.GetProviderID() == nil {
+		return nil, 0, nil, errors.New("message has no offer")
+	}
 	return nodeID, msg.Nonce, &msg.Offer, nil
 }
-- 
2.43.0


From d1e21f6e4a9915d044c4f3f78d6f87d3d651ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 30/81] fix: a refused group offer notice and a failed ping
 were decoded as successes

---
 ...ateway_notify_provider_group_cid_offer_supported_response.go | 2 +-
 common/pkg/fcrmessages/gateway_ping_response.go                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
index cc987cd..a25b7c5 100644
--- a/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
+++ b/common/pkg/fcrmessages/gateway_notify_provider_group_cid_offer_supported_response.go
@@ -48,5 +48,5 @@ func DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(fcrMsg *FCRMessage)
 	if err != nil {
 		return false, err
 	}
-	return true, nil
+	return msg.Acknowledged, nil
 }
diff --git a/common/pkg/fcrmessages/gateway_ping_response.go b/common/pkg/fcrmessages/gateway_ping_response.go
index 668d209..1562003 100644
--- a/common/pkg/fcrmessages/gateway_ping_response.go
+++ b/common/pkg/fcrmessages/gateway_ping_response.go
@@ -60,5 +60,5 @@ func DecodeGatewayPingResponse(fcrMsg *FCRMessage) (
 		return 0, false, err
 	}
 
-	return msg.Nonce, true, nil
+	return msg.Nonce, msg.IsAlive, nil
 }
-- 
2.43.0


From b7567539cf1407928203a121ba42559151a1d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 31/81] fix: concurrent establishment no longer resets a
 client's reputation

---
 gateway/internal/reputation/reputation.go       |  9 +++------
 gateway/internal/reputation/reputation_store.go | 11 +++++++++++
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/gateway/internal/reputation/reputation.go b/gateway/internal/reputation/reputation.go
index 1239798..993304f 100644
--- a/gateway/internal/reputation/reputation.go
+++ b/gateway/internal/reputation/reputation.go
@@ -56,9 +56,9 @@ func GetSingleInstance() *Reputation {
 	return instance
 }
 
-// establishClientReputation initialises the reputation of a Retrieval Client
+// establishClientReputation initialises the reputation of a Retrieval Client that has none yet
 func (r *Reputation) establishClientReputation(clientNodeID *nodeid.NodeID) {
-	r.setClientReputation(clientNodeID, clientInitialReputation)
+	r.initClientReputation(clientNodeID, clientInitialReputation)
 }
 
 // SetClientReputation sets the reputation of a Retrieval Client
@@ -82,10 +82,7 @@ func (r *Reputation) GetClientReputation(clientNodeID *nodeid.NodeID) (val int64
 // Establishment Challenge being received. The reputation is created for the Retrival
 // Client if the client doesn't have a reputation yet
 func (r *Reputation) ClientEstablishmentChallenge(clientNodeID *nodeid.NodeID) int64 {
-	_, exists := r.getClientReputation(clientNodeID)
-	if !exists {
-		r.establishClientReputation(clientNodeID)
-	}
+	r.establishClientReputation(clientNodeID)
 	return r.changeClientReputation(clientNodeID, clientEstablishmentChallenge)
 }
 
diff --git a/gateway/internal/reputation/reputation_store.go b/gateway/internal/reputation/reputation_store.go
index 895a5d4..c06fb9c 100644
--- a/gateway/internal/reputation/reputation_store.go
+++ b/gateway/internal/reputation/reputation_store.go
@@ -24,6 +24,17 @@ func (r *Reputation) setClientReputation(clientNodeID *nodeid.NodeID, val int64)
 	r.clientsMapLock.Unlock()
 }
 
+// initClientReputation sets the reputation of a client that has none, in one step: a concurrent
+// call must not reset what has been recorded in the meantime.
+func (r *Reputation) initClientReputation(clientNodeID *nodeid.NodeID, val int64) {
+	clientNodeIDStr := clientNodeID.ToString()
+	r.clientsMapLock.Lock()
+	if _, exists := r.clients[clientNodeIDStr]; !exists {
+		r.clients[clientNodeIDStr] = val
+	}
+	r.clientsMapLock.Unlock()
+}
+
 func (r *Reputation) changeClientReputation(clientNodeID *nodeid.NodeID, amount int64) int64 {
 	clientNodeIDStr := clientNodeID.ToString()
 	var val int64
-- 
2.43.0


From 2d96e1859a2d8b0cd73e84e2b15112d9684a966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 32/81] fix: a failed exchange's connection is given up before
 anyone else can use it

---
 common/pkg/fcrp2pserver/pool.go   | 40 +++++++-------
 common/pkg/fcrp2pserver/server.go | 89 ++++++++++++++++++-------------
 2 files changed, 71 insertions(+), 58 deletions(-)

diff --git a/common/pkg/fcrp2pserver/pool.go b/common/pkg/fcrp2pserver/pool.go
index 937a64d..e70688e 100644
--- a/common/pkg/fcrp2pserver/pool.go
+++ b/common/pkg/fcrp2pserver/pool.go
@@ -40,9 +40,11 @@ const (
 // communicationChannel holds the connection for sending outgoing TCP requests.
 // lock is used to ensure only one thread can access the tcp connection at any time.
 // conn is the net connection for sending outgoing TCP requests.
+// closed is set once the connection has been given up, it is protected by lock.
 type communicationChannel struct {
-	lock sync.RWMutex
-	conn net.Conn
+	lock   sync.RWMutex
+	conn   net.Conn
+	closed bool
 }
 
 // communicationPool holds the node address map and active node connections.
@@ -142,32 +144,30 @@ func (c *communicationPool) getProviderConn(id *nodeid.NodeID) (*communicationCh
 	return comm, nil
 }
 
-// removeActiveGateway remove a given gateway, and close the connection.
-func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID) {
+// removeActiveGateway removes a given connection to a given gateway, and closes it. The caller holds the connection's lock.
+func (c *communicationPool) removeActiveGateway(id *nodeid.NodeID, comm *communicationChannel) {
+	comm.close()
 	c.activeGatewaysLock.Lock()
 	defer c.activeGatewaysLock.Unlock()
-	comm := c.activeGateways[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			panic(err)
-		}
+	if c.activeGateways[id.ToString()] == comm {
 		delete(c.activeGateways, id.ToString())
 	}
 }
 
-// removeActiveProvider remove a given provider, and close the connection.
-func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID) {
+// removeActiveProvider removes a given connection to a given provider, and closes it. The caller holds the connection's lock.
+func (c *communicationPool) removeActiveProvider(id *nodeid.NodeID, comm *communicationChannel) {
+	comm.close()
 	c.activeProvidersLock.Lock()
 	defer c.activeProvidersLock.Unlock()
-	comm := c.activeProviders[id.ToString()]
-	if comm != nil {
-		comm.lock.Lock()
-		defer comm.lock.Unlock()
-		if err := comm.conn.Close(); err != nil {
-			panic(err)
-		}
+	if c.activeProviders[id.ToString()] == comm {
 		delete(c.activeProviders, id.ToString())
 	}
 }
+
+// close closes the connection. The caller holds the connection's lock.
+func (comm *communicationChannel) close() {
+	comm.closed = true
+	if err := comm.conn.Close(); err != nil {
+		logging.Error("P2P server has error closing connection: %s", err.Error())
+	}
+}
diff --git a/common/pkg/fcrp2pserver/server.go b/common/pkg/fcrp2pserver/server.go
index a387795..ad8f866 100644
--- a/common/pkg/fcrp2pserver/server.go
+++ b/common/pkg/fcrp2pserver/server.go
@@ -169,23 +169,16 @@ func (s *FCRP2PServer) RequestGatewayFromGateway(id *nodeid.NodeID, msgType int3
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getGatewayConn(id, accessFromGateway)
-	if err != nil {
-		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
-		return nil, err
-	}
-	comm.lock.Lock()
-	// Call requester to request
-	writer := &FCRServerWriter{conn: comm.conn}
-	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
-	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
-		return nil, err
-	}
-	return response, err
+	return s.request(
+		func() (*communicationChannel, error) {
+			comm, err := s.pool.getGatewayConn(id, accessFromGateway)
+			if err != nil {
+				logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
+			}
+			return comm, err
+		},
+		func(comm *communicationChannel) { s.pool.removeActiveGateway(id, comm) },
+		requester, args...)
 }
 
 // RequestGatewayFromProvider uses a given requester to send a request to a given gateway from provider.
@@ -197,23 +190,16 @@ func (s *FCRP2PServer) RequestGatewayFromProvider(id *nodeid.NodeID, msgType int
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getGatewayConn(id, accessFromProvider)
-	if err != nil {
-		logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
-		return nil, err
-	}
-	comm.lock.Lock()
-	// Call requester to request
-	writer := &FCRServerWriter{conn: comm.conn}
-	reader := &FCRServerReader{conn: comm.conn}
-	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
-	if err != nil {
-		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveGateway(id)
-		return nil, err
-	}
-	return response, err
+	return s.request(
+		func() (*communicationChannel, error) {
+			comm, err := s.pool.getGatewayConn(id, accessFromProvider)
+			if err != nil {
+				logging.Error("P2P Server has error get gateway connection to %s: %s", id.ToString(), err.Error())
+			}
+			return comm, err
+		},
+		func(comm *communicationChannel) { s.pool.removeActiveGateway(id, comm) },
+		requester, args...)
 }
 
 // RequestProvider uses a given requester to send a request to a given provider. (Only possible from gateway)
@@ -225,20 +211,47 @@ func (s *FCRP2PServer) RequestProvider(id *nodeid.NodeID, msgType int32, args ..
 	if requester == nil {
 		return nil, errors.New("no available requester found for given type")
 	}
-	comm, err := s.pool.getProviderConn(id)
+	return s.request(
+		func() (*communicationChannel, error) {
+			comm, err := s.pool.getProviderConn(id)
+			if err != nil {
+				logging.Error("P2P Server has error get provider connection to %s: %s", id.ToString(), err.Error())
+			}
+			return comm, err
+		},
+		func(comm *communicationChannel) { s.pool.removeActiveProvider(id, comm) },
+		requester, args...)
+}
+
+// request calls a requester on a connection. The connection is given up before anyone else can use it if the requester fails:
+// the response to the failed request may still arrive on it.
+func (s *FCRP2PServer) request(
+	connect func() (*communicationChannel, error),
+	remove func(comm *communicationChannel),
+	requester func(reader *FCRServerReader, writer *FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error),
+	args ...interface{}) (*fcrmessages.FCRMessage, error) {
+	comm, err := connect()
 	if err != nil {
-		logging.Error("P2P Server has error get provider connection to %s: %s", id.ToString(), err.Error())
 		return nil, err
 	}
 	comm.lock.Lock()
+	for comm.closed {
+		// Given up while waiting for it, connect again
+		comm.lock.Unlock()
+		comm, err = connect()
+		if err != nil {
+			return nil, err
+		}
+		comm.lock.Lock()
+	}
+	defer comm.lock.Unlock()
 	// Call requester to request
 	writer := &FCRServerWriter{conn: comm.conn}
 	reader := &FCRServerReader{conn: comm.conn}
 	response, err := requester(reader, writer, args...)
-	comm.lock.Unlock()
 	if err != nil {
 		// Error that couldn't ignore, remove the connection.
-		s.pool.removeActiveProvider(id)
+		remove(comm)
 		return nil, err
 	}
 	return response, err
-- 
2.43.0


From 31419131030d9943d3aecee57f5d7ab34e4d582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:47 +0000
Subject: [PATCH 33/81] fix: messages sent right after another one were lost

---
 common/pkg/fcrp2pserver/tcp_comms.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 57a16a4..4daaae7 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -33,15 +33,13 @@ func isTimeoutError(err error) bool {
 
 // readTCPMessage read the tcp message from a given connection.
 func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessage, error) {
-	// Initialise a reader
-	reader := bufio.NewReader(conn)
-	// Read the length
+	// Read the length. Nothing after the message is read ahead, it would be lost with the reader.
 	length := make([]byte, 4)
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err := io.ReadFull(reader, length)
+	_, err := io.ReadFull(conn, length)
 	if err != nil {
 		return nil, err
 	}
@@ -51,7 +49,7 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err = io.ReadFull(reader, data)
+	_, err = io.ReadFull(conn, data)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c14eadbf77e8bda6e8bac0fdda5e31e7c3d97b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 34/81] fix: the rest of a message that stalled was read as
 further messages

---
 common/pkg/fcrp2pserver/tcp_comms.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index 4daaae7..d2f4627 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -18,6 +18,7 @@ package fcrp2pserver
 import (
 	"bufio"
 	"encoding/binary"
+	"errors"
 	"io"
 	"net"
 	"time"
@@ -25,6 +26,10 @@ import (
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
 )
 
+// errPartialMessage is the error of a message of which only a part arrived in time. The rest of it may still arrive,
+// so nothing more can be read from its connection.
+var errPartialMessage = errors.New("timeout in the middle of a message")
+
 // isTimeoutError checks if the given error is a timeout error
 func isTimeoutError(err error) bool {
 	neterr, ok := err.(net.Error)
@@ -39,7 +44,17 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err := io.ReadFull(conn, length)
+	n, err := io.ReadFull(conn, length)
+	if n > 0 && isTimeoutError(err) {
+		// The message has begun, there is time for the rest of the length
+		if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
+			panic(err)
+		}
+		_, err = io.ReadFull(conn, length[n:])
+		if isTimeoutError(err) {
+			return nil, errPartialMessage
+		}
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -51,6 +66,9 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	}
 	_, err = io.ReadFull(conn, data)
 	if err != nil {
+		if isTimeoutError(err) {
+			return nil, errPartialMessage
+		}
 		return nil, err
 	}
 	return fcrmessages.FCRMsgFromBytes(data)
-- 
2.43.0


From e23a44e955e8476ab14cd621ba4912c345ba2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:04 +0000
Subject: [PATCH 35/81] fix: the length a peer claims for a message could
 exhaust the memory

---
 common/pkg/fcrp2pserver/tcp_comms.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/common/pkg/fcrp2pserver/tcp_comms.go b/common/pkg/fcrp2pserver/tcp_comms.go
index d2f4627..3aaad75 100644
--- a/common/pkg/fcrp2pserver/tcp_comms.go
+++ b/common/pkg/fcrp2pserver/tcp_comms.go
@@ -17,6 +17,7 @@ package fcrp2pserver
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"io"
@@ -58,20 +59,20 @@ func readTCPMessage(conn net.Conn, timeout time.Duration) (*fcrmessages.FCRMessa
 	if err != nil {
 		return nil, err
 	}
-	// Read the data
-	data := make([]byte, int(binary.BigEndian.Uint32(length)))
+	// Read the data. The length is only a claim of the sender, memory is used as data arrives.
+	data := bytes.Buffer{}
 	// Set timeout
 	if err := conn.SetDeadline(time.Now().Add(timeout)); err != nil {
 		panic(err)
 	}
-	_, err = io.ReadFull(conn, data)
+	_, err = io.CopyN(&data, conn, int64(binary.BigEndian.Uint32(length)))
 	if err != nil {
 		if isTimeoutError(err) {
 			return nil, errPartialMessage
 		}
 		return nil, err
 	}
-	return fcrmessages.FCRMsgFromBytes(data)
+	return fcrmessages.FCRMsgFromBytes(data.Bytes())
 }
 
 // sendTCPMessage sends a tcp message to a given connection.
-- 
2.43.0


From 4c20194d28139c487f54ad8f98b539c6e2851ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 36/81] fix: gateway refuses requests from peers and providers
 until it is initialised

The handlers signed with a nil key and took the whole process down.
---
 gateway/internal/api/gatewayapi/dht_discover_handler.go      | 5 +++++
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go   | 5 +++++
 .../internal/api/gatewayapi/dht_discover_offer_handler.go    | 5 +++++
 .../internal/api/providerapi/publish_dht_offer_handler.go    | 5 +++++
 .../internal/api/providerapi/publish_group_offer_handler.go  | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler.go b/gateway/internal/api/gatewayapi/dht_discover_handler.go
index 3d00290..7356ad4 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler.go
@@ -35,6 +35,11 @@ func HandleGatewayDHTDiscoverRequest(_ *fcrp2pserver.FCRServerReader, writer *fc
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, pieceCID, nonce, ttl, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 7226c8f..216fc18 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -30,6 +30,11 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, pieceCID, nonce, ttl, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverRequestV2(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 4dc3451..ee6cc44 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -30,6 +30,11 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// TODO, Need to have an id
 	pieceCID, nonce, offerDigests, paymentChannelAddress, voucher, err := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(request)
 	if err != nil {
diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 8d8de38..02d7c10 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -33,6 +33,11 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	providerID, nonce, offers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 016016a..420c6dc 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -29,6 +29,11 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	// Get the core structure
 	c := core.GetSingleInstance()
 
+	if c.GatewayPrivateKey == nil {
+		logging.Error("This gateway hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	// TODO Add nonce, it looks like nonce is not needed
 	providerID, _, offer, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(request)
 	if err != nil {
-- 
2.43.0


From bac26ee5a15c408413a0f8571fec5520a90594ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 37/81] fix: gateway without a payment manager refuses paid
 requests from peers

A gateway initialised without a wallet crashed on the first one.
---
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go   | 5 +++++
 .../internal/api/gatewayapi/dht_discover_offer_handler.go    | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 216fc18..7be5d60 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -64,6 +64,11 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
+	if c.PaymentMgr == nil {
+		logging.Error("This gateway hasn't been initialised with a payment manager")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	amount, err := c.PaymentMgr.Receive(paymentChannelAddress, voucher)
 	if err != nil {
 		logging.Error("Payment manager receive error " + err.Error())
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index ee6cc44..a06dfe4 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -60,6 +60,11 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	// 	return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	// }
 
+	if c.PaymentMgr == nil {
+		logging.Error("This gateway hasn't been initialised with a payment manager")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	amount, err := c.PaymentMgr.Receive(paymentChannelAddress, voucher)
 	if err != nil {
 		logging.Error("Internal error in payment manager Receive.")
-- 
2.43.0


From 17fab7d4dac09d1195a52a8483ec644e9116a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:34 +0000
Subject: [PATCH 38/81] fix: a refused gateway initialisation leaves the
 gateway as it was

The keys were replaced and the payment manager dropped before the wallet was found to be unusable.
---
 .../internal/api/adminapi/initialise_key_handler_v2.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gateway/internal/api/adminapi/initialise_key_handler_v2.go b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
index 22e3eeb..3bab996 100644
--- a/gateway/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/gateway/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,10 +39,7 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
-	c.GatewayID = nodeID
-	c.GatewayPrivateKey = privKey
-	c.GatewayPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
@@ -50,6 +47,11 @@ func HandleGatewayAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *fc
 		return
 	}
 
+	c.GatewayID = nodeID
+	c.GatewayPrivateKey = privKey
+	c.GatewayPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+
 	// Construct message
 	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
 	if err != nil {
-- 
2.43.0


From 95d8ef2561d0dab84e825c33eb8b0c7ba5bd201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 39/81] fix: answering a peer does not raise the price of an
 offer

The price was multiplied in place by the number of offers asked for.
---
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index a06dfe4..9a380e0 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -72,7 +72,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	}
 
 	lenOffers := big.NewInt(int64(len(offerDigests)))
-	expectedAmount := c.Settings.OfferPrice.Mul(c.Settings.OfferPrice, lenOffers)
+	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
 	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
 	fundedPaymentChannel := make([]bool, len(offerDigests))
-- 
2.43.0


From 662d1877a984841f43f80f64715d0c9a5be9d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 40/81] fix: asking for an offer the gateway does not hold is
 answered without it

An unknown digest dereferenced a nil offer, which killed the gateway when a
peer asked; an offer for another CID came back as an empty entry.
---
 .../clientapi/standard_discover_offer_handler.go | 15 +++++++++------
 .../api/gatewayapi/dht_discover_offer_handler.go | 16 ++++++++++------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/gateway/internal/api/clientapi/standard_discover_offer_handler.go b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
index c2bed7d..bd2b78e 100644
--- a/gateway/internal/api/clientapi/standard_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/standard_discover_offer_handler.go
@@ -54,22 +54,25 @@ func HandleClientStandardDiscoverOfferRequest(writer rest.ResponseWriter, reques
 	expectedAmount.Mul(c.Settings.OfferPrice, expectedAmount)
 	if err == nil && receive.Cmp(expectedAmount) >= 0 {
 		// Success - Search for offers
-		subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-		fundedPaymentChannel := make([]bool, len(offerDigests))
+		subOffers := make([]cidoffer.SubCIDOffer, 0)
+		fundedPaymentChannel := make([]bool, 0)
 		found := false
 
-		for i, digest := range offerDigests {
+		for _, digest := range offerDigests {
 			d := cidoffer.DecodeMessageDigest(digest)
 			offer, exist := c.OffersMgr.GetOfferByDigest(d)
-			fundedPaymentChannel[i] = exist
-			found = exist
+			if !exist {
+				continue
+			}
 
 			cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 			if err != nil {
 				continue
 			}
 
-			subOffers[i] = *cidOffer
+			subOffers = append(subOffers, *cidOffer)
+			fundedPaymentChannel = append(fundedPaymentChannel, true)
+			found = true
 		}
 
 		// Construct response
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index 9a380e0..b38e16a 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -74,21 +74,25 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	lenOffers := big.NewInt(int64(len(offerDigests)))
 	expectedAmount := new(big.Int).Mul(c.Settings.OfferPrice, lenOffers)
 
-	subOffers := make([]cidoffer.SubCIDOffer, len(offerDigests))
-	fundedPaymentChannel := make([]bool, len(offerDigests))
-	const found = true
+	subOffers := make([]cidoffer.SubCIDOffer, 0)
+	fundedPaymentChannel := make([]bool, 0)
+	found := false
 
-	for i, digest := range offerDigests {
+	for _, digest := range offerDigests {
 		d := cidoffer.DecodeMessageDigest(digest)
 		offer, exist := c.OffersMgr.GetOfferByDigest(d)
-		fundedPaymentChannel[i] = exist
+		if !exist {
+			continue
+		}
 
 		cidOffer, err := offer.GenerateSubCIDOffer(pieceCID)
 		if err != nil {
 			continue
 		}
 
-		subOffers[i] = *cidOffer
+		subOffers = append(subOffers, *cidOffer)
+		fundedPaymentChannel = append(fundedPaymentChannel, true)
+		found = true
 	}
 	var response *fcrmessages.FCRMessage
 	var encodingErr error
-- 
2.43.0


From 4df9ec78bf912c54b0c0a2d1023900648965086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:32 +0000
Subject: [PATCH 41/81] fix: a peer that pays too little gets no offers

The answer asked for payment and carried the offers all the same.
---
 gateway/internal/api/gatewayapi/dht_discover_handler_v2.go    | 2 +-
 gateway/internal/api/gatewayapi/dht_discover_offer_handler.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
index 7be5d60..f35f8e8 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_handler_v2.go
@@ -91,7 +91,7 @@ func HandleGatewayDHTDiscoverRequestV2(_ *fcrp2pserver.FCRServerReader, writer *
 		// not good - payment required
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + c.Settings.SearchPrice.String())
 		// Construct response with payment required
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, nil, nil, true, paymentChannelAddress)
 	} else {
 		// all good - Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(pieceCID, nonce, exists, subCIDOfferDigests, fundedPaymentChannel, false, "")
diff --git a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
index b38e16a..73b934f 100644
--- a/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/gatewayapi/dht_discover_offer_handler.go
@@ -98,7 +98,7 @@ func HandleGatewayDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, writer *fcrp2
 	var encodingErr error
 	if amount.Cmp(expectedAmount) < 0 {
 		logging.Error("Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String())
-		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, true, paymentChannelAddress)
+		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, false, nil, nil, true, paymentChannelAddress)
 	} else {
 		// Construct response
 		response, encodingErr = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(pieceCID, nonce, found, subOffers, fundedPaymentChannel, false, "")
-- 
2.43.0


From 73234dc3d01a1a0c8b53d86b2fdd38f9d221f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 42/81] fix: a client that pays too little for a search gets
 none

The gateway reported insufficient funds and then searched, paid its peers and
answered anyway.
---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go    | 1 +
 gateway/internal/api/clientapi/dht_discover_offer_handler.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 3930f07..159801d 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -71,6 +71,7 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmount.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	// Construct response
diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 120961c..7f45932 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -58,6 +58,7 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		s := "Insufficient Funds, received " + amount.String() + ", expected: " + expectedAmt.String()
 		logging.Error(s)
 		rest.Error(w, s, http.StatusInternalServerError)
+		return
 	}
 
 	contactedGateways := make([]nodeid.NodeID, 0)
-- 
2.43.0


From aee62899067f05ce994a90db82b530cb2842ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 43/81] fix: a paid search of a negative number of gateways is
 refused

Its price was negative, and the gateway paid for a search of every near peer.
---
 gateway/internal/api/clientapi/dht_discover_handler_v2.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_handler_v2.go b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
index 159801d..b4c8da0 100644
--- a/gateway/internal/api/clientapi/dht_discover_handler_v2.go
+++ b/gateway/internal/api/clientapi/dht_discover_handler_v2.go
@@ -49,6 +49,12 @@ func HandleClientDHTCIDDiscoverRequestV2(w rest.ResponseWriter, request *fcrmess
 		// Message expired.
 		return
 	}
+	if numDHT < 0 {
+		s := "Negative number of gateways to contact."
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
 	// Get a list of gatewayIDs to contact
 	gateways, err := c.RegisterMgr.GetGatewaysNearCID(cid, int(numDHT), c.GatewayID)
 	if err != nil {
-- 
2.43.0


From ec8cacc233f2356ee27d95ead3063b7f1af66b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:43 +0000
Subject: [PATCH 44/81] fix: relaying an offer request pays the price of the
 offers after a top-up

The first payment to a peer was one search price whatever was asked for.
---
 .../api/clientapi/dht_discover_offer_handler.go      | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index 7f45932..cebe5d5 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -77,17 +77,11 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 			return
 		}
 		if topup {
-			if err := c.PaymentMgr.Topup(targetGateway.GetAddress(), c.Settings.TopupAmount); err != nil {
-				s := "Fail to top up."
-				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
-				return
-			}
-			paychAddr, voucher, topup, err = c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, c.Settings.SearchPrice)
+			paychAddr, voucher, err = topupAndPay(c, targetGateway.GetAddress(), defaultPaymentLane, toPay)
 			if err != nil {
-				s := "Fail to pay recipient."
+				s := "Internal error: Failure to topup the gateway: " + targetGateway.GetAddress()
 				logging.Error(s + err.Error())
-				rest.Error(w, s, http.StatusBadRequest)
+				rest.Error(w, s, http.StatusInternalServerError)
 				return
 			}
 		}
-- 
2.43.0


From fd795ac0d4ab3ee6a13058ec1b0bdee0271c9223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 45/81] fix: relaying an offer request copes with unknown
 gateways and missing digest lists

Both made the handler panic after it had taken the client's payment and paid
the gateways before them.
---
 .../api/clientapi/dht_discover_offer_handler.go      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gateway/internal/api/clientapi/dht_discover_offer_handler.go b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
index cebe5d5..4c9158a 100644
--- a/gateway/internal/api/clientapi/dht_discover_offer_handler.go
+++ b/gateway/internal/api/clientapi/dht_discover_offer_handler.go
@@ -40,6 +40,13 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 		return
 	}
 
+	if len(allGatewaysOfferDigests) != len(targetGatewayIDs) {
+		s := "The number of digest lists and of target gateways differ."
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	// Check amount
 	amount, err := c.PaymentMgr.Receive(paymentChannel, voucher)
 	if err != nil {
@@ -67,6 +74,11 @@ func HandleClientDHTDiscoverOfferRequest(w rest.ResponseWriter, request *fcrmess
 	for idx, targetGatewayID := range targetGatewayIDs {
 		thisGatewayOfferDigests := allGatewaysOfferDigests[idx]
 		targetGateway := c.RegisterMgr.GetGateway(&targetGatewayID)
+		if targetGateway == nil {
+			logging.Info("Uncontactable: no registered gateway %s", targetGatewayID.ToString())
+			unContactable = append(unContactable, targetGatewayID)
+			continue
+		}
 		// Pay this gateway
 		toPay := new(big.Int).Mul(big.NewInt(int64(len(thisGatewayOfferDigests))), c.Settings.OfferPrice)
 		paychAddr, voucher, topup, err := c.PaymentMgr.Pay(targetGateway.GetAddress(), 0, toPay)
-- 
2.43.0


From fbd97ecce95b3a2be70918161ad952ee481da9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 46/81] fix: a provider cannot publish offers in another
 provider's name

Signed with the publisher's key, such an offer was stored, was no good to any
client, and kept out the genuine offer, which has the same digest.
---
 gateway/internal/api/providerapi/publish_dht_offer_handler.go | 4 ++++
 .../internal/api/providerapi/publish_group_offer_handler.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/gateway/internal/api/providerapi/publish_dht_offer_handler.go b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
index 02d7c10..4f2b58e 100644
--- a/gateway/internal/api/providerapi/publish_dht_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_dht_offer_handler.go
@@ -63,6 +63,10 @@ func HandleProviderPublishDHTOfferRequest(_ *fcrp2pserver.FCRServerReader, write
 
 	// Verify the offer one by one
 	for _, offer := range offers {
+		if offer.GetProviderID().ToString() != providerID.ToString() {
+			logging.Warn("Provider %s publishes an offer of another provider", providerID.ToString())
+			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+		}
 		if offer.Verify(pubKey) != nil {
 			logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 			return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
diff --git a/gateway/internal/api/providerapi/publish_group_offer_handler.go b/gateway/internal/api/providerapi/publish_group_offer_handler.go
index 420c6dc..05cc527 100644
--- a/gateway/internal/api/providerapi/publish_group_offer_handler.go
+++ b/gateway/internal/api/providerapi/publish_group_offer_handler.go
@@ -59,6 +59,10 @@ func HandleProviderPublishGroupOfferRequest(_ *fcrp2pserver.FCRServerReader, wri
 	}
 
 	// Verify the offer
+	if offer.GetProviderID().ToString() != providerID.ToString() {
+		logging.Warn("Provider %s publishes an offer of another provider", providerID.ToString())
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
 	if offer.Verify(pubKey) != nil {
 		logging.Warn("Fail to verify the offer from %s", providerID.ToString())
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
-- 
2.43.0


From c45523cce306aa646f613cbeccd10964d0e0173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:21 +0000
Subject: [PATCH 47/81] fix: a gateway acknowledges listed offers only when it
 has stored them

Messages with a bad offer in them were acknowledged like the others.
---
 .../api/gatewayapi/list_dht_offer_requester.go   | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
index d0775f8..2eddcc9 100644
--- a/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
+++ b/gateway/internal/api/gatewayapi/list_dht_offer_requester.go
@@ -104,23 +104,33 @@ func RequestListCIDOffer(reader *fcrp2pserver.FCRServerReader, writer *fcrp2pser
 			logging.Error("Fail to verify the sub message")
 			continue
 		}
-		_, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&cidOfferMsg)
+		msgProviderID, nonce, cidOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&cidOfferMsg)
 		if err != nil {
 			logging.Error("Fail to decode message")
 			continue
 		}
-		// Verify the offers
+		if msgProviderID.ToString() != providerID.ToString() {
+			logging.Error("Sub message of another provider")
+			continue
+		}
+		// Verify and store the offers, only a message whose offers are all stored is acknowledged
+		stored := true
 		for _, cidOffer := range cidOffers {
-			if cidOffer.Verify(pubKey) != nil {
+			if cidOffer.GetProviderID().ToString() != providerID.ToString() || cidOffer.Verify(pubKey) != nil {
 				logging.Error("Fail to verify the offer")
+				stored = false
 				continue
 			}
 			// Store the offer
 			if c.OffersMgr.AddDHTOffer(&cidOffer) != nil {
 				logging.Error("Fail to store the offer")
+				stored = false
 				continue
 			}
 		}
+		if !stored {
+			continue
+		}
 
 		// Sign the offer message
 		sig, err := fcrcrypto.SignMessage(c.GatewayPrivateKey, c.GatewayPrivateKeyVersion, cidOfferMsg.GetMessageBody())
-- 
2.43.0


From 94e0bdb2d54bba7c5e036a6f2926e7611de38fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 48/81] fix: the gateway answers a group offer support request
 with its own response

It sent the response of the key initialisation, which the gateway admin does
not decode, and accepted the request before it was initialised.
---
 gateway/internal/api/adminapi/set_group_cid_support.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index f9f0382..62671fb 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -31,6 +31,14 @@ import (
 // HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest handles updating state of the Gateway, namely if it supports group CID offers
 func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseWriter, request *fcrmessages.FCRMessage) {
 	c := core.GetSingleInstance()
+
+	if c.GatewayPrivateKey == nil {
+		s := "This gateway hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	_, providerIDs, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
@@ -42,7 +50,7 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
 	c.GroupCIDOfferSupportedForProviders = providerIDs
 
 	// Construct message
-	response, err := fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)
+	response, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)
 	if err != nil {
 		s := "Internal error: Fail to encode message."
 		logging.Error(s + err.Error())
-- 
2.43.0


From 2c267a86eef0c2e6facf12ed26fe24a8a174ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:54 +0000
Subject: [PATCH 49/81] fix: providers are told whether the gateway supports
 their group offers

The notification was sent as a request for a list of offers with arguments
that requester refuses, so no provider was ever told anything.
---
 .../api/adminapi/set_group_cid_support.go     | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/gateway/internal/api/adminapi/set_group_cid_support.go b/gateway/internal/api/adminapi/set_group_cid_support.go
index 62671fb..5399994 100644
--- a/gateway/internal/api/adminapi/set_group_cid_support.go
+++ b/gateway/internal/api/adminapi/set_group_cid_support.go
@@ -71,25 +71,31 @@ func HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest(w rest.ResponseW
     logging.Error("can't write JSON during HandleGatewayAdminUpdateGatewayGroupCIDOfferSupportRequest %s", err.Error())
   }
 
-	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer, c.GatewayID)
+	notifyProvidersOnSupportedGroupCIDOffer(c.RegisterMgr.GetAllProviders(), c.P2PServer, providerIDs)
 }
 
-func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer, callerGatewayId *nodeid.NodeID) {
+func notifyProvidersOnSupportedGroupCIDOffer(providers []register.ProviderRegistrar, p2pServer *fcrp2pserver.FCRP2PServer, supported []nodeid.NodeID) {
 	for _, pvd := range providers {
 		providerID, err := nodeid.NewNodeIDFromHexString(pvd.GetNodeID())
 		if err != nil {
 			logging.Error("Error in generating node id")
 			continue
 		}
-		const thisGatewaySupportsGroupCIDOffer = true
-    go notifyProvider(p2pServer, providerID, fcrmessages.GatewayListDHTOfferRequestType, callerGatewayId, thisGatewaySupportsGroupCIDOffer)
+		thisGatewaySupportsGroupCIDOffer := false
+		for _, id := range supported {
+			if id.ToString() == providerID.ToString() {
+				thisGatewaySupportsGroupCIDOffer = true
+			}
+		}
+		go notifyProvider(p2pServer, providerID, fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, thisGatewaySupportsGroupCIDOffer)
 	}
 }
 
-func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, gatewayID *nodeid.NodeID, thisGatewaySupportsGroupCIDOffer bool) {
-  providerResponse, err := p2pServer.RequestProvider(providerID, msgType, gatewayID, thisGatewaySupportsGroupCIDOffer)
-  if err != nil {
-    logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID)
-  }
-  logging.Info("Provider response: %v", providerResponse)
+func notifyProvider(p2pServer *fcrp2pserver.FCRP2PServer, providerID *nodeid.NodeID, msgType int32, thisGatewaySupportsGroupCIDOffer bool) {
+	providerResponse, err := p2pServer.RequestProvider(providerID, msgType, thisGatewaySupportsGroupCIDOffer)
+	if err != nil {
+		logging.Error("error notifying provider, method: %d; provider id: %s", msgType, providerID.ToString())
+		return
+	}
+	logging.Info("Provider response: %v", providerResponse)
 }
-- 
2.43.0


From ce31755fe856f120e1c5b6e2d22f978a319a62a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 50/81] fix: provider refuses requests from gateways and
 clients until it is initialised

The handlers signed with a nil key; those of the gateway port took the whole process down.
---
 provider/internal/api/clientapi/dht_offer_ack_handler.go   | 7 +++++++
 provider/internal/api/gatewayapi/list_dht_offer_handler.go | 5 +++++
 .../api/gatewayapi/notify_group_cid_offer_supported.go     | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/provider/internal/api/clientapi/dht_offer_ack_handler.go b/provider/internal/api/clientapi/dht_offer_ack_handler.go
index 1c8d379..a41182e 100644
--- a/provider/internal/api/clientapi/dht_offer_ack_handler.go
+++ b/provider/internal/api/clientapi/dht_offer_ack_handler.go
@@ -35,6 +35,13 @@ func HandleClientDHTOfferAckRequest(w rest.ResponseWriter, request *fcrmessages.
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		s := "This provider hasn't been initialised by the admin"
+		logging.Error(s)
+		rest.Error(w, s, http.StatusBadRequest)
+		return
+	}
+
 	cid, gatewayID, err := fcrmessages.DecodeClientDHTOfferAckRequest(request)
 	if err != nil {
 		s := "Fail to decode message."
diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index fdf3bc2..dd6d495 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -34,6 +34,11 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, cidMin, cidMax, registrationBlock, registrationTransactionReceipt, registrationMerkleRoot, registrationMerkleProof, err := fcrmessages.DecodeGatewayListDHTOfferRequest(request)
 	if err != nil {
 		// Reply with invalid message
diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 9624ece..1908d5c 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -28,6 +28,11 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 	// Get core structure
 	c := core.GetSingleInstance()
 
+	if c.ProviderPrivateKey == nil {
+		logging.Error("This provider hasn't been initialised by the admin")
+		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
+	}
+
 	gatewayID, groupCIDOfferSupported, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(request)
 	if err != nil {
 		// Reply with invalid message
-- 
2.43.0


From 661463f0155cc05fc72f5b47680f54058bfa94d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 51/81] fix: a refused provider initialisation leaves the
 provider as it was

The keys were replaced before the wallet was found to be unusable.
---
 .../internal/api/adminapi/initialise_key_handler_v2.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/provider/internal/api/adminapi/initialise_key_handler_v2.go b/provider/internal/api/adminapi/initialise_key_handler_v2.go
index 37831b1..c813b56 100644
--- a/provider/internal/api/adminapi/initialise_key_handler_v2.go
+++ b/provider/internal/api/adminapi/initialise_key_handler_v2.go
@@ -39,10 +39,7 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
-	c.ProviderID = nodeID
-	c.ProviderPrivateKey = privKey
-	c.ProviderPrivateKeyVersion = privKeyVer
-	c.PaymentMgr, err = fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
+	paymentMgr, err := fcrpaymentmgr.NewFCRPaymentMgr(walletPrivKey, lotusAP, lotusAuth)
 	if err != nil {
 		s := "Fail to initialize payment manager."
 		logging.Error(s + err.Error())
@@ -50,6 +47,11 @@ func HandleProviderAdminInitialiseKeyRequestV2(w rest.ResponseWriter, request *f
 		return
 	}
 
+	c.ProviderID = nodeID
+	c.ProviderPrivateKey = privKey
+	c.ProviderPrivateKeyVersion = privKeyVer
+	c.PaymentMgr = paymentMgr
+
 	// Construct messaqe
 	response, err := fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)
 	if err != nil {
-- 
2.43.0


From a2d7e0f303162f7d701e36b3cf35ddaf9e5d1114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 52/81] fix: the first acknowledgement for a CID through a
 listing is recorded

Writing to the missing inner map panicked with the map's lock held.
---
 provider/internal/api/gatewayapi/list_dht_offer_handler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index dd6d495..6fa8d04 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -155,7 +155,12 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		}
 		c.AcknowledgementMapLock.Lock()
 		for _, sentOffer := range sentOffers {
-			c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()][gatewayID.ToString()] = core.DHTAcknowledgement{
+			cidMap, ok := c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()]
+			if !ok {
+				cidMap = make(map[string]core.DHTAcknowledgement)
+				c.AcknowledgementMap[sentOffer.GetCIDs()[0].ToString()] = cidMap
+			}
+			cidMap[gatewayID.ToString()] = core.DHTAcknowledgement{
 				Msg:    msgs[i],
 				MsgAck: acknowledgement,
 			}
-- 
2.43.0


From 7cbcfc16ea42dd143d9420c711f305bbbb8c8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 53/81] fix: a gateway that acknowledges only some listed
 messages has these recorded

One missing or wrong acknowledgement discarded those that followed it, and a missing one all of them.
---
 .../api/gatewayapi/list_dht_offer_handler.go  | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/provider/internal/api/gatewayapi/list_dht_offer_handler.go b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
index 6fa8d04..6fff27d 100644
--- a/provider/internal/api/gatewayapi/list_dht_offer_handler.go
+++ b/provider/internal/api/gatewayapi/list_dht_offer_handler.go
@@ -132,21 +132,27 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 	}
 
 	acknowledgements, err := fcrmessages.DecodeGatewayListDHTOfferAck(acks)
-	if len(acknowledgements) != len(msgs) {
-		return errors.New("invalid response")
+	if err != nil {
+		return err
 	}
-	for i, acknowledgement := range acknowledgements {
+	invalid := false
+	for _, acknowledgement := range acknowledgements {
 		// TODO: Check nonce.
 		_, signature, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(&acknowledgement)
 		if err != nil {
-			return err
+			invalid = true
+			continue
 		}
-		ok, err := fcrcrypto.VerifyMessage(pubKey, signature, msgs[i].GetMessageBody())
-		if err != nil {
-			return err
+		// Find the message it acknowledges: the gateway may not have acknowledged every one
+		i := 0
+		for ; i < len(msgs); i++ {
+			if ok, err := fcrcrypto.VerifyMessage(pubKey, signature, msgs[i].GetMessageBody()); err == nil && ok {
+				break
+			}
 		}
-		if !ok {
-			return errors.New("verification failed")
+		if i == len(msgs) {
+			invalid = true
+			continue
 		}
 		// It's okay, add to acknowledgements map
 		_, _, sentOffers, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[i])
@@ -167,5 +173,8 @@ func HandleGatewayListDHTOfferRequest(reader *fcrp2pserver.FCRServerReader, writ
 		}
 		c.AcknowledgementMapLock.Unlock()
 	}
+	if invalid {
+		return errors.New("verification failed")
+	}
 	return nil
 }
-- 
2.43.0


From 76a11e333af55de79550a2fd98d226e2ffc6e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 54/81] fix: a DHT offer is published to the gateways near its
 own CID only

Every gateway near any CID of a batch got the whole batch, once for each CID it is near to.
---
 .../api/adminapi/publish_dht_offer_handler.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/provider/internal/api/adminapi/publish_dht_offer_handler.go b/provider/internal/api/adminapi/publish_dht_offer_handler.go
index 33d94ca..d842995 100644
--- a/provider/internal/api/adminapi/publish_dht_offer_handler.go
+++ b/provider/internal/api/adminapi/publish_dht_offer_handler.go
@@ -82,7 +82,10 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
     }
 	}
 
-	for _, contendID := range cids {
+	// Each offer goes to the gateways near its cid, every gateway gets its offers at once
+	gatewayIDs := make([]*nodeid.NodeID, 0)
+	gatewayOffers := make(map[string][]cidoffer.CIDOffer)
+	for i, contendID := range cids {
 		gateways, err := c.RegisterMgr.GetGatewaysNearCID(&contendID, 16, nil)
 		if err != nil {
 			s := "Internal error: Fail to get gateways near the given cid."
@@ -91,7 +94,6 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 			return
 		}
 		for _, gw := range gateways {
-			logging.Info("Published to: %v", gw.GetNodeID())
 			gatewayID, err := nodeid.NewNodeIDFromHexString(gw.GetNodeID())
 			if err != nil {
 				s := "Fail to generate node id."
@@ -99,10 +101,17 @@ func HandleProviderAdminPublishDHTOfferRequest(w rest.ResponseWriter, request *f
 				rest.Error(w, s, http.StatusBadRequest)
 				return
 			}
-			_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishDHTOfferRequestType, offers, gatewayID)
-			if err != nil {
-				logging.Error("Error in publishing dht offer to %s: %s", gatewayID.ToString(), err.Error())
+			if _, ok := gatewayOffers[gatewayID.ToString()]; !ok {
+				gatewayIDs = append(gatewayIDs, gatewayID)
 			}
+			gatewayOffers[gatewayID.ToString()] = append(gatewayOffers[gatewayID.ToString()], offers[i])
+		}
+	}
+	for _, gatewayID := range gatewayIDs {
+		logging.Info("Published to: %v", gatewayID.ToString())
+		_, err = c.P2PServer.RequestGatewayFromProvider(gatewayID, fcrmessages.ProviderPublishDHTOfferRequestType, gatewayOffers[gatewayID.ToString()], gatewayID)
+		if err != nil {
+			logging.Error("Error in publishing dht offer to %s: %s", gatewayID.ToString(), err.Error())
 		}
 	}
 
-- 
2.43.0


From 83f6824816c8925f5f30bb5e2d78c5f26df3db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 55/81] fix: provider keeps track of the gateways that support
 group offers

The list was changed in a copy, and identifiers were compared in a way that never finds one.
---
 .../notify_group_cid_offer_supported.go       | 19 ++++++++++++-------
 provider/internal/core/core.go                |  3 ++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
index 1908d5c..d9ad796 100644
--- a/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
+++ b/provider/internal/api/gatewayapi/notify_group_cid_offer_supported.go
@@ -20,7 +20,6 @@ import (
 	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
-	"github.com/ConsenSys/fc-retrieval/common/pkg/slice"
 	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
 )
 
@@ -57,7 +56,9 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 		return writer.WriteInvalidMessage(c.Settings.TCPInactivityTimeout)
 	}
 
-	updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Lock()
+	c.GroupOfferGatewayIDs = updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported, c.GroupOfferGatewayIDs, gatewayID)
+	c.GroupOfferGatewayIDsLock.Unlock()
 
 	// Construct response
 	response, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportResponse(true)
@@ -79,10 +80,13 @@ func HandleGatewayNotifyProviderGroupCIDOfferSupportRequest(_ *fcrp2pserver.FCRS
 }
 
 // updateGatewaysSupportingGroupCIDOffer changes locally stored collection of Gateway IDs supporting Group CID Offer
-func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) {
-	exists, foundIndex, err := slice.Exists(savedGateways, gatewayID)
-	if err != nil {
-		logging.Error("Error while searching for existing gatewayID %v", gatewayID)
+func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGateways []nodeid.NodeID, gatewayID *nodeid.NodeID) []nodeid.NodeID {
+	exists, foundIndex := false, -1
+	for i := range savedGateways {
+		if savedGateways[i].ToString() == gatewayID.ToString() {
+			exists, foundIndex = true, i
+			break
+		}
 	}
 
 	if groupCIDOfferSupported {
@@ -90,7 +94,7 @@ func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGat
 			// add new
 			savedGateways = append(savedGateways, *gatewayID)
 		}
-		return
+		return savedGateways
 	}
 
 	// groupCIDOfferSupported == false
@@ -100,4 +104,5 @@ func updateGatewaysSupportingGroupCIDOffer(groupCIDOfferSupported bool, savedGat
 		savedGateways[foundIndex] = savedGateways[len(savedGateways)-1]
 		savedGateways = savedGateways[:len(savedGateways)-1]
 	}
+	return savedGateways
 }
diff --git a/provider/internal/core/core.go b/provider/internal/core/core.go
index 42cd484..33fc68d 100644
--- a/provider/internal/core/core.go
+++ b/provider/internal/core/core.go
@@ -88,7 +88,8 @@ type Core struct {
 	AcknowledgementMapLock sync.RWMutex
 
 	// List of Gateways that allow group CID offer to be published
-	GroupOfferGatewayIDs []nodeid.NodeID
+	GroupOfferGatewayIDs     []nodeid.NodeID
+	GroupOfferGatewayIDsLock sync.Mutex
 }
 
 // Single instance of the provider
-- 
2.43.0


From ea1273862f675f231d77203084d6e25fefe773d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 56/81] fix: standard discovery hands over only the offers that
 verify

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 3002ad8..baf512c 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -305,6 +305,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		logging.Warn("GatewayStdDiscovery error. Gateway: %s, Error: %s", gw.GetNodeID(), err)
 		return make([]cidoffer.SubCIDOffer, 0), errors.New("error in requesting standard discovery")
 	}
+	validOffers := make([]cidoffer.SubCIDOffer, 0)
 	// Verify the offer one by one
 	for _, offer := range offers {
 		// Get provider's pubkey
@@ -335,8 +336,9 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 		}
 		// Offer pass verification
 		logging.Info("Offer pass every verification, added to result")
+		validOffers = append(validOffers, offer)
 	}
-	return offers, nil
+	return validOffers, nil
 }
 
 // FindOffersDHTDiscovery finds offer using dht discovery from given gateways
-- 
2.43.0


From 43a78df84007e2bfc68d9125c2aa2d0c565dd729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 57/81] fix: the client takes offers for the CID it asked for
 only

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index baf512c..db295ff 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -329,6 +329,11 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscovery(contentID *cid.Con
 			logging.Error("Offer signature fail to verify 4, with error: " + fmt.Sprintf("%v", err))
 			continue
 		}
+		// Verify the offer is for the CID asked for
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is not for the CID asked for.")
+			continue
+		}
 		// Now Verify the merkle proof
 		if offer.VerifyMerkleProof() != nil {
 			logging.Error("Merkle proof verification failed.")
@@ -413,6 +418,11 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscovery(contentID *cid.ContentI
 				logging.Error("Offer signature fail to verify 5, with error: " + fmt.Sprintf("%v", err))
 				continue
 			}
+			// Verify the offer is for the CID asked for
+			if offer.GetSubCID().ToString() != contentID.ToString() {
+				logging.Error("Offer is not for the CID asked for.")
+				continue
+			}
 			// Now Verify the merkle proof
 			if offer.VerifyMerkleProof() != nil {
 				logging.Error("Merkle proof verification failed.")
@@ -750,6 +760,11 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 			logging.Error("Offer signature fail to verify 2, with error: " + fmt.Sprintf("%v", err))
 			continue
 		}
+		// Verify the offer is for the CID asked for
+		if offer.GetSubCID().ToString() != contentID.ToString() {
+			logging.Error("Offer is not for the CID asked for.")
+			continue
+		}
 		// Now Verify the merkle proof
 		if offer.VerifyMerkleProof() != nil {
 			logging.Error("Merkle proof verification failed.")
-- 
2.43.0


From 0766e6d560a4a26c7ee7c71a6d567fdc8a97aa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 58/81] fix: paid DHT discovery goes on after a gateway without
 offers

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index db295ff..09c92d7 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -526,7 +526,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
 		}
 		if !found {
-			return offersMap, nil
+			continue
 		}
 		// comply with given offers number limit
 		if addedSubOffersCount+len(offerDigests) > offersNumberLimit {
-- 
2.43.0


From 45a8d89946e4747e84264f28965d069171576e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 59/81] fix: the client asks each gateway for the offers of its
 own digests

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 09c92d7..8d48e40 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -494,6 +494,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 
 	var addedSubOffersCount int
 	var offersDigestsFromAllGateways [][]string
+	var offeringGateways []nodeid.NodeID
 	for i := 0; i < len(contactedGateways); i++ {
 		contactedGatewayID := contactedGateways[i]
 		resp := contactedResp[i]
@@ -534,6 +535,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		}
 
 		offersDigestsFromAllGateways = append(offersDigestsFromAllGateways, offerDigests)
+		offeringGateways = append(offeringGateways, contactedGatewayID)
 		addedSubOffersCount += len(offerDigests)
 
 		if addedSubOffersCount >= offersNumberLimit {
@@ -563,7 +565,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	logging.Info("Successful initial payment for DHT offers discovery, payment channel: %s, voucher: %s", paymentChannel, voucher)
 
-	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, contactedGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
+	allGatewaysOffers, discoverError := c.clientApi.RequestDHTOfferDiscover(entryGateway, offeringGateways, contentID, nonce, offersDigestsFromAllGateways, paymentChannel, voucher)
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
-- 
2.43.0


From e970b225aa0bd1c79e9d60113400be006ec96024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 60/81] fix: paid DHT discovery pays the configured search
 price

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 8d48e40..3721e5e 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -452,7 +452,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, errors.New("given gatewayID is not in active nodes map")
 	}
 
-	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), big.NewInt(defaultSearchPrice))
+	initialRequestPaymentAmount := new(big.Int).Mul(big.NewInt(numDHT), c.Settings.searchPrice)
 	paymentChannel, voucher, needTopup, err := c.PaymentMgr().Pay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 	if err != nil {
 		return nil, fmt.Errorf("Unable to make payment for initial DHT offers discovery, error: %s ", err.Error())
-- 
2.43.0


From 25a8755429e0c00012eb40b4dd097ab51332802e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 61/81] fix: repeated paid DHT discovery tops up the channel to
 the gateway and pays in full

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 3721e5e..44d395c 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -474,7 +474,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 		return nil, fmt.Errorf("error in requesting dht discovery: %s", discoverErr.Error())
 	}
 	if paymentRequired {
-		paymentChannel, voucher, err = c.topupAndPay(paymentChannel, defaultPaymentLane, c.Settings.searchPrice)
+		paymentChannel, voucher, err = c.topupAndPay(entryGateway.GetAddress(), defaultPaymentLane, initialRequestPaymentAmount)
 		if err != nil {
 			return nil, fmt.Errorf("topup error while requesting DHT discovery: %s", err.Error())
 		}
-- 
2.43.0


From 635a193bfb1f84d37aba696d7690cccdde244d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 62/81] fix: paid DHT discovery does not mix up the offers of
 the gateways

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 44d395c..cbbe51c 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -569,7 +569,8 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
-	for _, entry := range allGatewaysOffers {
+	for i := range allGatewaysOffers {
+		entry := &allGatewaysOffers[i]
 		offersMap[entry.GatewayID.ToString()] = &entry.SubOffers
 	}
 
-- 
2.43.0


From cf3fafde8e3bc100e681fa1049c07677e3e63373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 63/81] fix: answers to a DHT offer request must be to that
 request

---
 client/pkg/api/clientapi/dht_discover_offer_requester.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/client/pkg/api/clientapi/dht_discover_offer_requester.go b/client/pkg/api/clientapi/dht_discover_offer_requester.go
index 2046265..fc86c6e 100644
--- a/client/pkg/api/clientapi/dht_discover_offer_requester.go
+++ b/client/pkg/api/clientapi/dht_discover_offer_requester.go
@@ -70,10 +70,16 @@ func (c *Client) RequestDHTOfferDiscover(
 		return nil, errors.New("verification failed")
 	}
 
-	_, _, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
+	cID, nonceRecv, gatewayIDs, fcrMessages, paymentRequiredCl, paymentChannelAddrToTopupCl, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(response)
 	if err != nil {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response %s", err.Error())
 	}
+	if cID.ToString() != contentID.ToString() {
+		return nil, errors.New("CID Mismatch")
+	}
+	if nonce != nonceRecv {
+		return nil, errors.New("nonce mismatch")
+	}
 	if len(gatewayIDs) != len(fcrMessages) {
 		return nil, fmt.Errorf("error decoding client DHT discover offer response, lengths of gateway IDs = %d and FCR messages = %d do not match", len(gatewayIDs), len(fcrMessages))
 	}
-- 
2.43.0


From 540f035d588e547c6fdf001409fbf74ae9ec667f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 64/81] fix: paid DHT discovery verifies who the offers come
 from

---
 .../api/clientapi/dht_discover_offer_requester.go |  7 ++++++-
 client/pkg/fcrclient/filecoin_retrieval_client.go | 15 +++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/client/pkg/api/clientapi/dht_discover_offer_requester.go b/client/pkg/api/clientapi/dht_discover_offer_requester.go
index fc86c6e..85034b9 100644
--- a/client/pkg/api/clientapi/dht_discover_offer_requester.go
+++ b/client/pkg/api/clientapi/dht_discover_offer_requester.go
@@ -36,6 +36,8 @@ import (
 type GatewaySubOffers struct {
 	GatewayID *nodeid.NodeID         `json:"gateway_id"`
 	SubOffers []cidoffer.SubCIDOffer `json:"sub_cid_offers"`
+	// Response - the answer of the Gateway that the Sub-Offers are from
+	Response *fcrmessages.FCRMessage `json:"response"`
 }
 
 func (c *Client) RequestDHTOfferDiscover(
@@ -87,10 +89,12 @@ func (c *Client) RequestDHTOfferDiscover(
 		return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopupCl)
 	}
 	var result []GatewaySubOffers
-	for idx, fcrMessage := range fcrMessages {
+	for idx := range fcrMessages {
+		fcrMessage := fcrMessages[idx]
 		_, _, found, subCIDOffers, _, paymentRequired, paymentChannelAddrToTopup, decodeErr := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(&fcrMessage)
 		if decodeErr != nil {
 			logging.Error("error decoding gateway DHT discover offer response %s", decodeErr.Error())
+			continue
 		}
 		if paymentRequired {
 			return nil, fmt.Errorf("payment required, in order to proceed topup your balance for payment channel address: %s", paymentChannelAddrToTopup)
@@ -100,6 +104,7 @@ func (c *Client) RequestDHTOfferDiscover(
 			gatewaysSubOffers := GatewaySubOffers{
 				GatewayID: &gatewayIDs[idx],
 				SubOffers: subCIDOffers,
+				Response:  &fcrMessage,
 			}
 			result = append(result, gatewaysSubOffers)
 		}
diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index cbbe51c..6f8d07b 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -571,6 +571,21 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	}
 	for i := range allGatewaysOffers {
 		entry := &allGatewaysOffers[i]
+		// Verify the sub response
+		gateway := c.registerMgr.GetGateway(entry.GatewayID)
+		if gateway == nil || !validateGatewayInfo(gateway) {
+			logging.Error("Gateway register info not valid.")
+			continue
+		}
+		pubKey, err := gateway.GetSigningKey()
+		if err != nil {
+			logging.Error("Fail to obtain public key.")
+			continue
+		}
+		if entry.Response.Verify(pubKey) != nil {
+			logging.Error("Fail to verify sub response.")
+			continue
+		}
 		offersMap[entry.GatewayID.ToString()] = &entry.SubOffers
 	}
 
-- 
2.43.0


From fe074e23ff5c0f24a3168ee174c4e630ec913041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 65/81] fix: paid DHT discovery hands over only the offers that
 verify

---
 .../fcrclient/filecoin_retrieval_client.go    | 30 ++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 6f8d07b..b81a9b0 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -586,12 +586,40 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 			logging.Error("Fail to verify sub response.")
 			continue
 		}
-		offersMap[entry.GatewayID.ToString()] = &entry.SubOffers
+		// Verify the offer one by one
+		validOffers := make([]cidoffer.SubCIDOffer, 0)
+		for _, offer := range entry.SubOffers {
+			if err := c.verifyOffer(&offer, contentID); err != nil {
+				logging.Error("Offer fail to verify: %v", err)
+				continue
+			}
+			validOffers = append(validOffers, offer)
+		}
+		offersMap[entry.GatewayID.ToString()] = &validOffers
 	}
 
 	return offersMap, nil
 }
 
+// verifyOffer checks that an offer is signed by the registered provider it names, and is for the given CID
+func (c *FilecoinRetrievalClient) verifyOffer(offer *cidoffer.SubCIDOffer, contentID *cid.ContentID) error {
+	provider := c.registerMgr.GetProvider(offer.GetProviderID())
+	if provider == nil || !validateProviderInfo(provider) {
+		return errors.New("provider register info not valid")
+	}
+	pubKey, err := provider.GetSigningKey()
+	if err != nil {
+		return err
+	}
+	if err := offer.Verify(pubKey); err != nil {
+		return err
+	}
+	if offer.GetSubCID().ToString() != contentID.ToString() {
+		return errors.New("offer is not for the CID asked for")
+	}
+	return offer.VerifyMerkleProof()
+}
+
 // FindDHTOfferAck finds offer ack for a cid, gateway pair
 func (c *FilecoinRetrievalClient) FindDHTOfferAck(contentID *cid.ContentID, gatewayID *nodeid.NodeID, providerID *nodeid.NodeID) (bool, error) {
 	provider := c.registerMgr.GetProvider(providerID)
-- 
2.43.0


From 274e68a757636a7a1433a50d646554f255be4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 66/81] fix: paid DHT discovery hands over no more offers than
 asked for

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index b81a9b0..ea340a6 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -569,6 +569,7 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 	if discoverError != nil {
 		return nil, fmt.Errorf("error getting sub-offers from their digests: %s", discoverError)
 	}
+	offersCount := 0
 	for i := range allGatewaysOffers {
 		entry := &allGatewaysOffers[i]
 		// Verify the sub response
@@ -593,7 +594,11 @@ func (c *FilecoinRetrievalClient) FindOffersDHTDiscoveryV2(contentID *cid.Conten
 				logging.Error("Offer fail to verify: %v", err)
 				continue
 			}
+			if offersCount >= offersNumberLimit {
+				break
+			}
 			validOffers = append(validOffers, offer)
+			offersCount++
 		}
 		offersMap[entry.GatewayID.ToString()] = &validOffers
 	}
-- 
2.43.0


From 1796df22937ae22dafbd131f91eeac538a4c2d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 67/81] fix: paid standard discovery starts the payment manager

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index ea340a6..8054ce4 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -719,7 +719,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	cidOffers := make([]cidoffer.SubCIDOffer, 0)
 
 	// It will call the payment manager to pay for the initial request
-	paychAddr, voucher, topup, err := c.paymentMgr.Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
+	paychAddr, voucher, topup, err := c.PaymentMgr().Pay(gw.GetAddress(), 0, c.Settings.searchPrice)
 	logging.Debug("1 gw.GetAddress()=%+v paychAddr=%+v, voucher=%+v, topup=%+v", gw.GetAddress(), paychAddr, voucher, topup)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
@@ -768,7 +768,7 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	lenOffers := new(big.Int).SetInt64(int64(len(offerDigests)))
 	expectedAmount := lenOffers.Mul(lenOffers, c.Settings.offerPrice)
 
-	paychAddr, voucher, topup, err = c.paymentMgr.Pay(gw.GetAddress(), 0, expectedAmount)
+	paychAddr, voucher, topup, err = c.PaymentMgr().Pay(gw.GetAddress(), 0, expectedAmount)
 	if err != nil {
 		return cidOffers, fmt.Errorf("error paying expected amount to gateway ID: %s; error:%s", gw.GetNodeID(), err.Error())
 	}
-- 
2.43.0


From 87bba94c08b5ed7b254bc64f77d79ccffa639cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 68/81] fix: paid standard discovery reports that the offer
 request failed

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 8054ce4..793020d 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -782,6 +782,9 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 	}
 
 	offers, err := c.clientApi.RequestStandardDiscoverOffer(gw, contentID, rand.Int63(), time.Now().Unix()+c.Settings.EstablishmentTTL(), offerDigests, paychAddr, voucher)
+	if err != nil {
+		return cidOffers, fmt.Errorf("error getting offers from gateway: %s;  error: %s", gw.GetNodeID(), err.Error())
+	}
 
 	var validOffers []cidoffer.SubCIDOffer
 	// Verify the offer one by one
-- 
2.43.0


From 36f9175565542f354557fc0647ae06c7e3e3815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:04 +0000
Subject: [PATCH 69/81] fix: paid standard discovery hands over no more offers
 than asked for

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 793020d..1bdd60b 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -827,10 +827,10 @@ func (c *FilecoinRetrievalClient) FindOffersStandardDiscoveryV2(contentID *cid.C
 		// Offer pass verification
 		logging.Info("Offer pass every verification, added to result")
 
-		validOffers = append(validOffers, offer)
-		if len(validOffers) == maxOffers {
+		if len(validOffers) >= maxOffers {
 			break
 		}
+		validOffers = append(validOffers, offer)
 	}
 
 	return validOffers, nil
-- 
2.43.0


From bd680a04f506ff93d75f58010f615c6312913e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 70/81] fix: FindGateways gives no gateway when asked for none

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index 1bdd60b..fd3add6 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -112,11 +112,11 @@ func (c *FilecoinRetrievalClient) FindGateways(location string, maxNumToLocate i
 				logging.Error("Error in generating node id, skipping: %v", info.GetNodeID())
 				continue
 			}
-			res = append(res, nodeID)
-			count++
 			if count >= maxNumToLocate {
 				break
 			}
+			res = append(res, nodeID)
+			count++
 		}
 	}
 	return res, nil
-- 
2.43.0


From f2f450005073271916363c09d7a04e857ff4631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 71/81] fix: a gateway removed while it is being established
 does not become active

---
 client/pkg/fcrclient/filecoin_retrieval_client.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/client/pkg/fcrclient/filecoin_retrieval_client.go b/client/pkg/fcrclient/filecoin_retrieval_client.go
index fd3add6..58b7bc7 100644
--- a/client/pkg/fcrclient/filecoin_retrieval_client.go
+++ b/client/pkg/fcrclient/filecoin_retrieval_client.go
@@ -235,11 +235,17 @@ func (c *FilecoinRetrievalClient) AddActiveGateways(gwNodeIDs []*nodeid.NodeID)
 			logging.Error("Error in initial establishment: %v", err.Error())
 			continue
 		}
-		// It is success
+		// It is success, unless the gateway is no longer to be used
+		c.GatewaysToUseLock.RLock()
 		c.ActiveGatewaysLock.Lock()
-		c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+		_, toUse := c.GatewaysToUse[gwToAddID.ToString()]
+		_, exist = c.ActiveGateways[gwToAddID.ToString()]
+		if toUse && !exist {
+			c.ActiveGateways[gwToAddID.ToString()] = gatewayRegistrar
+			numAdded++
+		}
 		c.ActiveGatewaysLock.Unlock()
-		numAdded++
+		c.GatewaysToUseLock.RUnlock()
 	}
 	return numAdded
 }
-- 
2.43.0


From 75385f5812d3b784b6caf9993f6cbf522bafd212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 72/81] fix: a gateway registration the store refuses is
 answered by an error, as a provider's is

---
 register/internal/handlers/gateways_handler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 924ab8e..ebc9d80 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -28,8 +28,9 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
-		log.Error("Unable to set Redis value")
-		panic(err)
+		msg := "Unable to set Redis value"
+		log.Error("%s, error in AddGatewayRegister: %s", msg, err.Error())
+		return op.NewAddGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
 	log.Info("register created a gateway record with ID: %s", params.Register.NodeID)
-- 
2.43.0


From 9efe8b5f376f843151f1301614ad7b98941ed7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:02 +0000
Subject: [PATCH 73/81] fix: deleting the registrations of a kind removes all
 of them at once

---
 register/internal/handlers/gateways_handler.go  | 17 +++++------------
 register/internal/handlers/providers_handler.go | 15 ++++-----------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index ebc9d80..64d158e 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -110,21 +110,14 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 
 	ctx := context.Background()
 
-	registers, err := rdb.HGetAll(ctx, registerTypeGateway).Result()
-	if err != nil {
-		msg := "Unable to get Redis value"
+	// all entries go at once, a registration made meanwhile is either before or after
+	if err := rdb.Del(ctx, registerTypeGateway).Err(); err != nil {
+		msg := "Unable to delete Redis value"
 		log.Error("%s, error: %s", msg, err.Error())
-		return op.NewGetGatewayRegistersByIDDefault(404).WithPayload(&models.Error{Message: &msg})
+		return op.NewDeleteGatewayRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
-	for index := range registers {
-		log.Info("register deleted a gateway record with ID: %s", index)
-		err := rdb.HDel(ctx, registerTypeGateway, index).Err()
-		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
-		}
-	}
+	log.Info("register deleted all gateway records")
 
 	payload := models.Ack{Status: "success", Message: "All Gateways have been deleted"}
 	return op.NewDeleteGatewayRegisterOK().WithPayload(&payload)
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 62b7c0e..3458215 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -111,21 +111,14 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 
 	ctx := context.Background()
 
-	registers, err := rdb.HGetAll(ctx, registerTypeProvider).Result()
-	if err != nil {
-		msg := "Unable to get Redis value"
+	// all entries go at once, a registration made meanwhile is either before or after
+	if err := rdb.Del(ctx, registerTypeProvider).Err(); err != nil {
+		msg := "Unable to delete Redis value"
 		log.Error("%s, error: %s", msg, err.Error())
 		return op.NewDeleteProviderRegisterDefault(404).WithPayload(&models.Error{Message: &msg})
 	}
 
-	for index := range registers {
-		log.Info("register deleted a provider record with ID: %s", index)
-		err := rdb.HDel(ctx, registerTypeProvider, index).Err()
-		if err != nil {
-			log.Error("Unable to set Redis value")
-			panic(err)
-		}
-	}
+	log.Info("register deleted all provider records")
 
 	payload := models.Ack{Status: "success", Message: "All Providers have been deleted"}
 	return op.NewDeleteProviderRegisterOK().WithPayload(&payload)
-- 
2.43.0


From 18d326d7c65475f113932944b0638a017f5f4252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 74/81] fix: a registration that cannot be looked up is not
 reported as absent

---
 register/internal/handlers/gateways_handler.go  | 5 +++++
 register/internal/handlers/providers_handler.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 64d158e..4baeff5 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -83,6 +83,11 @@ func GetGatewayRegisterByID(params op.GetGatewayRegistersByIDParams) middleware.
 	})
 
 	gatewayRegister, err := rdb.HGet(ctx, "gateway", registerID).Result()
+	if err != nil && err != redis.Nil {
+		msg := "Unable to get Redis value"
+		log.Error("%s, error in GetGatewayRegisterByID: %s", msg, err.Error())
+		return op.NewGetGatewayRegistersByIDDefault(500).WithPayload(&models.Error{Message: &msg})
+	}
 	if err != nil {
 		msg := "Register not found"
 		log.Error(msg)
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index 3458215..bcc931b 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -82,6 +82,11 @@ func GetProviderRegisterByID(params op.GetProviderRegistersByIDParams) middlewar
 	})
 
 	register, err := rdb.HGet(ctx, "provider", registerID).Result()
+	if err != nil && err != redis.Nil {
+		msg := "Unable to get Redis value"
+		log.Error("%s, error in GetProviderRegisterByID: %s", msg, err.Error())
+		return op.NewGetProviderRegistersByIDDefault(500).WithPayload(&models.Error{Message: &msg})
+	}
 	if err != nil {
 		msg := "Register not found"
 		log.Error(msg)
-- 
2.43.0


From 5ca7d46d1edae53dab5eb907a14df295271b8d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 75/81] fix: the register closes its store connection after
 each request

---
 register/internal/handlers/gateways_handler.go  | 4 ++++
 register/internal/handlers/providers_handler.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/register/internal/handlers/gateways_handler.go b/register/internal/handlers/gateways_handler.go
index 4baeff5..80bf97a 100644
--- a/register/internal/handlers/gateways_handler.go
+++ b/register/internal/handlers/gateways_handler.go
@@ -25,6 +25,7 @@ func AddGatewayRegister(params op.AddGatewayRegisterParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "gateway", register.NodeID, register).Err()
 	if err != nil {
@@ -47,6 +48,7 @@ func GetGatewayRegisters(_ op.GetGatewayRegistersParams) middleware.Responder {
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegisters, err := rdb.HGetAll(ctx, "gateway").Result()
 	if err != nil {
@@ -81,6 +83,7 @@ func GetGatewayRegisterByID(params op.GetGatewayRegistersByIDParams) middleware.
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	gatewayRegister, err := rdb.HGet(ctx, "gateway", registerID).Result()
 	if err != nil && err != redis.Nil {
@@ -112,6 +115,7 @@ func DeleteGatewayRegisters(_ op.DeleteGatewayRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
diff --git a/register/internal/handlers/providers_handler.go b/register/internal/handlers/providers_handler.go
index bcc931b..0fe8695 100644
--- a/register/internal/handlers/providers_handler.go
+++ b/register/internal/handlers/providers_handler.go
@@ -25,6 +25,7 @@ func AddProviderRegister(params op.AddProviderRegisterParams) middleware.Respond
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	err := rdb.HSet(ctx, "provider", register.NodeID, register).Err()
 	if err != nil {
@@ -48,6 +49,7 @@ func GetProviderRegisters(_ op.GetProviderRegistersParams) middleware.Responder
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	providerRegisters, err := rdb.HGetAll(ctx, "provider").Result()
 	if err != nil {
@@ -80,6 +82,7 @@ func GetProviderRegisterByID(params op.GetProviderRegistersByIDParams) middlewar
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	register, err := rdb.HGet(ctx, "provider", registerID).Result()
 	if err != nil && err != redis.Nil {
@@ -113,6 +116,7 @@ func DeleteProviderRegisters(_ op.DeleteProviderRegisterParams) middleware.Respo
 		Password: apiconfig.GetString("REDIS_PASSWORD"),
 		DB:       0, // use default DB
 	})
+	defer rdb.Close()
 
 	ctx := context.Background()
 
-- 
2.43.0


From 3b8e8b40a45e6f279a2a46d3fccfa2b0211ad153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:07 +0000
Subject: [PATCH 76/81] fix: a registration the register refuses is not
 reported as done

---
 common/pkg/request/request.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/pkg/request/request.go b/common/pkg/request/request.go
index 6e2c209..221de40 100644
--- a/common/pkg/request/request.go
+++ b/common/pkg/request/request.go
@@ -92,6 +92,9 @@ func (c *HttpCommunicator) SendJSON(url string, data interface{}) error {
 	if err := r.Body.Close(); err != nil {
 		return err
 	}
+	if r.StatusCode < 200 || r.StatusCode > 299 {
+		return fmt.Errorf("SendJSON error, %s was answered with status %s", url, r.Status)
+	}
 	return nil
 }
 
-- 
2.43.0


From 625d441de5be92f5bcc93ac2f354e4945090f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 77/81] fix: a voucher that takes back other lanes or is
 conditional is credited as if it paid its amount

---
 common/pkg/fcrpaymentmgr/payment_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/pkg/fcrpaymentmgr/payment_manager.go b/common/pkg/fcrpaymentmgr/payment_manager.go
index 9544f6e..a76468f 100644
--- a/common/pkg/fcrpaymentmgr/payment_manager.go
+++ b/common/pkg/fcrpaymentmgr/payment_manager.go
@@ -296,6 +296,11 @@ func (mgr *FCRPaymentMgr) Receive(channel string, voucher string) (*big.Int, err
 	if sv.ChannelAddr != channelAddr {
 		return nil, fmt.Errorf("receive voucher method failed, voucher is for channel %s instead of %s", sv.ChannelAddr.String(), channelAddr.String())
 	}
+	// Only a voucher that can be redeemed as it is pays its amount: one that merges other lanes takes back what they
+	// paid, one with a time lock, a secret or an extra condition may never be redeemable.
+	if len(sv.Merges) > 0 || sv.TimeLockMin != 0 || sv.TimeLockMax != 0 || len(sv.SecretPreimage) > 0 || sv.Extra != nil {
+		return nil, errors.New("receive voucher method failed, voucher is not payable unconditionally")
+	}
 	// Get API
 	api, closer, err := getLotusAPI(mgr.authToken, mgr.lotusAPIAddr)
 	if err != nil {
-- 
2.43.0


From 2234a812717f8b1361b028f2b2d1db1f0e7330a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:13 +0000
Subject: [PATCH 78/81] fix: gateways could not store offers with a price or
 quality of service of 2^63 and more

---
 common/pkg/offermgr/offer_manager.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/pkg/offermgr/offer_manager.go b/common/pkg/offermgr/offer_manager.go
index d5e383b..2155f3c 100644
--- a/common/pkg/offermgr/offer_manager.go
+++ b/common/pkg/offermgr/offer_manager.go
@@ -3,6 +3,7 @@ package offermgr
 
 import (
 	"encoding/hex"
+	"strconv"
 
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
 	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
@@ -98,8 +99,9 @@ func (mgr *FCROfferMgr) insertOffer(offer *cidoffer.CIDOffer) (err error) {
 	_, err = tx.Exec(sqlInsertOffer, digestHex,
 		offer.GetProviderID().ToString(),
 		offer.GetExpiry(),
-		offer.GetPrice(),
-		offer.GetQoS(),
+		// As text: the database driver takes no integers of 2^63 and more
+		strconv.FormatUint(offer.GetPrice(), 10),
+		strconv.FormatUint(offer.GetQoS(), 10),
 		offer.GetSignature(), digestHex)
 	if err != nil {
 		return err
-- 
2.43.0


From 5271ca6eef649c40a989de1f5fbea4c2491ad07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 79/81] fix: random numbers drawn at once could come out the
 same or crash

---
 common/pkg/fcrcrypto/prng.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/pkg/fcrcrypto/prng.go b/common/pkg/fcrcrypto/prng.go
index 1f40490..079b6ea 100644
--- a/common/pkg/fcrcrypto/prng.go
+++ b/common/pkg/fcrcrypto/prng.go
@@ -22,6 +22,7 @@ import (
 	"io"
 	"math/big"
 	"net"
+	"sync"
 	"time"
 
 	"github.com/davidlazar/go-crypto/drbg"
@@ -46,6 +47,8 @@ type Random interface {
 
 // RandomImpl holds the underlying DRBG and the PRF state.
 type randomImpl struct {
+	// mu guards all of the state: generators are shared by many goroutines.
+	mu         sync.Mutex
 	drbg       *drbg.DRBG
 	prfHasher  hash.Hash
 	prfState   []byte
@@ -71,6 +74,9 @@ func NewPRNG(securityDomain []byte) Random {
 
 // ReadBytes reads random values into b
 func (r *randomImpl) ReadBytes(b []byte) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	lengthPerIteration := len(r.prfState)
 	lenOutput := len(b)
 
@@ -115,6 +121,9 @@ func (r *randomImpl) Read(b []byte) (n int, err error) {
 
 // Reseed adds seed material to the PRNG.
 func (r *randomImpl) Reseed(seed []byte) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+
 	r.drbg.Reseed(seed)
 
 	// Combine the current state of the PRF and the seed.
-- 
2.43.0


From 90fe76be1aeff7ad452d99ebf2f02804649d448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 80/81] fix: random number generators made at once could be
 missing from the reseeding pool

---
 common/pkg/fcrcrypto/prng_pool.go    | 13 +++++++++++++
 common/pkg/fcrcrypto/prng_private.go |  4 ++--
 common/pkg/fcrcrypto/prng_public.go  |  2 +-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/common/pkg/fcrcrypto/prng_pool.go b/common/pkg/fcrcrypto/prng_pool.go
index 5ac9f24..c451f89 100644
--- a/common/pkg/fcrcrypto/prng_pool.go
+++ b/common/pkg/fcrcrypto/prng_pool.go
@@ -15,8 +15,19 @@ package fcrcrypto
  * SPDX-License-Identifier: Apache-2.0
  */
 
+import (
+	"sync"
+)
+
 // Array of PRNGs that will be reseeded by the global quick reseed.
 var prngPool []Random
+var prngPoolLock sync.Mutex
+
+func addToPRNGPool(prng Random) {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
+	prngPool = append(prngPool, prng)
+}
 
 // PRNGEntropyKick is called when an application event occurs that an attacker
 // on a computer on the network can not observe. For example, when a message
@@ -24,6 +35,8 @@ var prngPool []Random
 // or even micro second when a message is serviced. However, they are unlikely
 // to know the timing down to the nearest nano second.
 func PRNGEntropyKick() {
+	prngPoolLock.Lock()
+	defer prngPoolLock.Unlock()
 	for _, prng := range prngPool {
 		prng.QuickReseedKick()
 	}
diff --git a/common/pkg/fcrcrypto/prng_private.go b/common/pkg/fcrcrypto/prng_private.go
index 2e2cb42..83e14be 100644
--- a/common/pkg/fcrcrypto/prng_private.go
+++ b/common/pkg/fcrcrypto/prng_private.go
@@ -39,7 +39,7 @@ var doOnce1 sync.Once
 func GetPrivatePRNG() Random {
 	doOnce1.Do(func() {
 		privatePRNG = NewPRNG([]byte("private"))
-		prngPool = append(prngPool, privatePRNG)
+		addToPRNGPool(privatePRNG)
 	})
 	return privatePRNG
 }
@@ -49,6 +49,6 @@ func GetPrivatePRNG() Random {
 // guarentee security domain separation.
 func NewPrivatePRNG(securityDomain []byte) Random {
 	aPRNG := NewPRNG(securityDomain)
-	prngPool = append(prngPool, aPRNG)
+	addToPRNGPool(aPRNG)
 	return aPRNG
 }
diff --git a/common/pkg/fcrcrypto/prng_public.go b/common/pkg/fcrcrypto/prng_public.go
index d1d265c..1b28871 100644
--- a/common/pkg/fcrcrypto/prng_public.go
+++ b/common/pkg/fcrcrypto/prng_public.go
@@ -36,7 +36,7 @@ var doOnce sync.Once
 func GetPublicPRNG() Random {
 	doOnce.Do(func() {
 		publicPRNG = NewPRNG([]byte("public"))
-		prngPool = append(prngPool, publicPRNG)
+		addToPRNGPool(publicPRNG)
 	})
 	return publicPRNG
 }
-- 
2.43.0


From 5ddd33bd921e87845f12d1e7862adfd7dd115621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 81/81] fix: a new random number generator wrote behind the
 name it was given

---
 common/pkg/fcrcrypto/prng.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/pkg/fcrcrypto/prng.go b/common/pkg/fcrcrypto/prng.go
index 079b6ea..9d24585 100644
--- a/common/pkg/fcrcrypto/prng.go
+++ b/common/pkg/fcrcrypto/prng.go
@@ -59,7 +59,7 @@ type randomImpl struct {
 // personalisation string, so identical instances on identical hardware should have
 // differently seeded PRNGs.
 func NewPRNG(securityDomain []byte) Random {
-	personalizationString := securityDomain
+	personalizationString := append([]byte{}, securityDomain...)
 	personalizationString = append(personalizationString, getMACAddr()...)
 	personalizationString = append(personalizationString, nanotime()...)
 
-- 
2.43.0

