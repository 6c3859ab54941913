From 97387dd0cde64490acf81fdabd550a971c871326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 01/27] fix: exclude concurrent readers while cloning the
 indexes

Cloning a btree replaces the original's copy-on-write context, so two
concurrent Reads under the shared lock raced on it.
---
 internal/database/database.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index ac22379..039b8d4 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -79,8 +79,9 @@ func NewIndexDatabase(degree int, attrsSize int, identsSize int) (db Database) {
 }
 
 func (db *indexDatabase) Read() (snapshot Snapshot) {
-	db.lock.RLock()
-	defer db.lock.RUnlock()
+	// Cloning an index changes it, so readers must exclude each other as well as writers.
+	db.lock.Lock()
+	defer db.lock.Unlock()
 	snapshot = db.read()
 	return
 }
-- 
2.43.0


From 29281eac9cddb2247a441148aab678f213b5a0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 02/27] fix: never write into the caller's claims slice

---
 internal/database/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 039b8d4..eb5a2e8 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -4,6 +4,7 @@ package database
 import (
 	"log"
 	"maps"
+	"slices"
 	"sync"
 
 	"github.com/dball/destructive/internal/index"
@@ -107,7 +108,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
 	identDeletes := map[ID]Ident{}
-	claims := req.Claims
+	// The caller retains ownership of its claims, including any spare capacity.
+	claims := slices.Clip(req.Claims)
 	if len(req.Retractions) != 0 {
 		ids := make(map[ID]Void, len(req.Retractions))
 		for _, retraction := range req.Retractions {
-- 
2.43.0


From 2297f8d150eed97000a4ec75b6863fa8a1929353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 03/27] fix: give snapshots their own attribute types

---
 internal/database/database.go | 12 +++++++++++-
 internal/index/index.go       |  7 +++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index eb5a2e8..bc0f724 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -340,6 +340,17 @@ CLAIMS:
 				}
 			}
 		}
+		if len(attrChanges) != 0 {
+			// The indexes of extant snapshots are reading the old types without holding the lock.
+			attrTypes := maps.Clone(db.attrTypes)
+			for id, attr := range attrChanges {
+				attrTypes[id] = attr.Type
+			}
+			eav.Retype(attrTypes)
+			aev.Retype(attrTypes)
+			ave.Retype(attrTypes)
+			db.attrTypes = attrTypes
+		}
 		db.eav = eav
 		db.aev = aev
 		db.ave = ave
@@ -353,7 +364,6 @@ CLAIMS:
 			db.idents[attr.Ident] = id
 			db.attrsByID[id] = attr
 			db.attrsByIdent[attr.Ident] = attr
-			db.attrTypes[id] = attr.Type
 			if attr.Cardinality == sys.AttrCardinalityMany {
 				db.attrCardManies[id] = Void{}
 			}
diff --git a/internal/index/index.go b/internal/index/index.go
index b202605..8acf2b6 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -84,6 +84,9 @@ type Index interface {
 	// Clone returns a copy of the index. Both instances are hereafter safe to change without affecting
 	// the other.
 	Clone() (clone Index)
+	// Retype replaces the attribute types without affecting any clones. The index will hereafter
+	// read the given types, so they must not change.
+	Retype(attrTypes map[ID]ID)
 }
 
 // CompositeIndex is an index of indexes of the discrete types.
@@ -515,3 +518,7 @@ func (idx *CompositeIndex) Clone() (clone Index) {
 	}
 	return
 }
+
+func (idx *CompositeIndex) Retype(attrTypes map[ID]ID) {
+	idx.attrTypes = attrTypes
+}
-- 
2.43.0


From be18b4829839aa8c3789847d024400228a325ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 04/27] fix: find negative and NaN floats in the indexes

---
 internal/database/snapshot.go |  9 ++++++++-
 internal/index/compare.go     | 21 +++++++--------------
 internal/index/index.go       | 21 ++++++++++++---------
 3 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 224227d..46da567 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -1,6 +1,7 @@
 package database
 
 import (
+	"cmp"
 	"iter"
 	"time"
 
@@ -123,13 +124,19 @@ func filterByV(seq iter.Seq[Datum], v Value) iter.Seq[Datum] {
 
 // valuesEqual compares two values with the same instant semantics the indexes use:
 // Inst values are equal when they denote the same millisecond, matching how they are
-// stored and compared in the int tree. All other value types compare by ==.
+// stored and compared in the int tree, and a NaN Float equals itself. All other value
+// types compare by ==.
 func valuesEqual(a Value, b Value) bool {
 	ai, aok := a.(Inst)
 	bi, bok := b.(Inst)
 	if aok && bok {
 		return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
 	}
+	af, aok := a.(Float)
+	bf, bok := b.(Float)
+	if aok && bok {
+		return cmp.Compare(af, bf) == 0
+	}
 	return a == b
 }
 
diff --git a/internal/index/compare.go b/internal/index/compare.go
index fa853b0..49992f2 100644
--- a/internal/index/compare.go
+++ b/internal/index/compare.go
@@ -15,7 +15,7 @@ func LessEAV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.A > d2.A:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
@@ -26,9 +26,9 @@ func LessAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 		less = true
 	case d1.A > d2.A:
 		less = false
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	default:
 		less = d1.E < d2.E
@@ -47,16 +47,16 @@ func LessAEV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.E > d2.E:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
 
 func LessVAE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	switch {
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	case d1.A < d2.A:
 		less = true
@@ -143,14 +143,7 @@ func CompareAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 }
 
 func CompareV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
-	switch {
-	case d1.V < d2.V:
-		diff = -1
-	case d1.V > d2.V:
-		diff = 1
-	default:
-		diff = 0
-	}
+	diff = cmp.Compare(d1.V, d2.V)
 	return
 }
 
diff --git a/internal/index/index.go b/internal/index/index.go
index 8acf2b6..aa3e266 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -154,6 +154,9 @@ var instValuer TypeValuer[int64] = TypeValuer[int64]{
 	devaluer: func(value Value) (v int64) { return time.Time(value.(Inst)).UnixMilli() },
 }
 
+// minFloat is the least float64 value in index order, in which NaN precedes -Inf.
+var minFloat = math.NaN()
+
 func (idx *CompositeIndex) Find(datum Datum) (extant bool) {
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
@@ -313,11 +316,11 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			seq = idx.floats.Select(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -394,11 +397,11 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			match, extant = idx.floats.First(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -474,11 +477,11 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A})
+			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			count = idx.floats.Count(CompareAV[float64], TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
-- 
2.43.0


From a0c049b8a40f994d632c6c32f00b943228b5eb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 05/27] fix: retain the datum when an equal instant is asserted
 anew

---
 internal/database/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index bc0f724..4c59334 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -313,7 +313,7 @@ CLAIMS:
 					// if this is cardinality one, we must replace extant datum if ea but not v
 					d, ok := eav.First(index.EA, *datum)
 					if ok {
-						if d.V == datum.V {
+						if valuesEqual(d.V, datum.V) {
 							continue
 						} else {
 							eav.Delete(d)
-- 
2.43.0


From 85984d38e6e54db06b04332355ac591fbd7b1685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 06/27] fix: reject lookup refs with values inconsistent with
 their attributes

---
 internal/database/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 4c59334..e54b303 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -487,10 +487,12 @@ func (db *indexDatabase) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = db.idents[a]
+	case LookupRef:
+		datum.A = db.resolveLookupRef(a)
 	default:
 		return
 	}
-	if db.attrUniques[datum.A] == 0 {
+	if db.attrUniques[datum.A] == 0 || !sys.ValidValue(db.attrTypes[datum.A], datum.V) {
 		return
 	}
 	match, ok := db.ave.First(index.AV, datum)
-- 
2.43.0


From 0d3c3d67a340b86f81b61cf5e1ce9ecddeab9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 07/27] fix: match no datums when a queried claim does not
 resolve

---
 internal/database/snapshot.go | 73 +++++++++++++++++++++++++++++++----
 1 file changed, 65 insertions(+), 8 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 46da567..27f9103 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/dball/destructive/internal/index"
+	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
 )
 
@@ -76,7 +77,10 @@ func (snapshot *indexSnapshot) selectWith(a access, match Datum) (datums iter.Se
 
 // Select returns the datums matching the claim.
 func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return func(yield func(Datum) bool) {}
+	}
 	return snapshot.selectWith(snapshot.access(match), match)
 }
 
@@ -84,7 +88,10 @@ func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
 // exact existence check against eav (a btree lookup, no allocation); other shapes
 // fall back to testing whether the access path yields anything.
 func (snapshot *indexSnapshot) Has(claim Claim) bool {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return false
+	}
 	if match.E != 0 && match.A != 0 && match.V != nil {
 		return snapshot.eav.Find(match)
 	}
@@ -98,7 +105,10 @@ func (snapshot *indexSnapshot) Has(claim Claim) bool {
 // directly through the typed indexes (which tally without materializing values);
 // value-filtered and unconstrained shapes are counted by enumeration.
 func (snapshot *indexSnapshot) Count(claim Claim) (count int) {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return
+	}
 	a := snapshot.access(match)
 	if a.all || a.filterV != nil {
 		for range snapshot.selectWith(a, match) {
@@ -157,10 +167,13 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 		datum.A = a
 	case Ident:
 		datum.A = snapshot.idents[a]
+	case LookupRef:
+		datum.A = snapshot.resolveLookupRef(a)
 	default:
 		return
 	}
-	if snapshot.attrs[datum.A].Unique == 0 {
+	attr := snapshot.attrs[datum.A]
+	if attr.Unique == 0 || !sys.ValidValue(attr.Type, datum.V) {
 		return
 	}
 	match, ok := snapshot.ave.First(index.AV, datum)
@@ -170,24 +183,68 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 	return
 }
 
-func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum) {
+// resolveClaim resolves the claim's refs to the datum fields to match. This is not ok if
+// no datums could possibly match, e.g. if any of the refs do not resolve.
+func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum, ok bool) {
 	switch e := claim.E.(type) {
+	case nil:
 	case ID:
 		match.E = e
 	case Ident:
 		match.E = snapshot.idents[e]
+		if match.E == 0 {
+			return
+		}
 	case LookupRef:
 		match.E = snapshot.resolveLookupRef(e)
+		if match.E == 0 {
+			return
+		}
+	default:
+		return
 	}
 	switch a := claim.A.(type) {
+	case nil:
 	case ID:
 		match.A = a
 	case Ident:
 		match.A = snapshot.idents[a]
+		if match.A == 0 {
+			return
+		}
+	case LookupRef:
+		match.A = snapshot.resolveLookupRef(a)
+		if match.A == 0 {
+			return
+		}
+	default:
+		return
 	}
-	value, ok := claim.V.(Value)
-	if ok {
-		match.V = value
+	switch v := claim.V.(type) {
+	case nil:
+	case Ident:
+		id := snapshot.idents[v]
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case LookupRef:
+		id := snapshot.resolveLookupRef(v)
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case Value:
+		match.V = v
+	default:
+		return
+	}
+	if match.A != 0 {
+		attr, extant := snapshot.attrs[match.A]
+		if !extant || (match.V != nil && !sys.ValidValue(attr.Type, match.V)) {
+			return
+		}
 	}
+	ok = true
 	return
 }
-- 
2.43.0


From 4d556172ea2659051088c33330e08d0b1afceda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 08/27] fix: resolve tempids before enforcing attribute
 invariants

---
 internal/database/database.go | 78 ++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index e54b303..bce955d 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -149,33 +149,62 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	res.ID = db.allocateID()
 	res.TempIDs = map[TempID]ID{}
 	data := make([]*Datum, 0, len(claims))
+	// TempIDs may have been assigned IDs that subsequently resolve to identity
+	// unique datum ids, so we rewrite them if so.
+	resolve := func(id ID) ID {
+		for rewrites[id] != 0 {
+			id = rewrites[id]
+		}
+		return id
+	}
 CLAIMS:
 	for _, claim := range claims {
 		datum := db.evaluateClaim(&res, &claim)
 		if res.Error != nil {
 			break
 		}
+		data = append(data, datum)
 		if !claim.Retract {
 			unique := db.attrUniques[datum.A]
 			if unique != 0 {
 				d, ok := db.ave.First(index.AV, *datum)
 				if ok {
+					_, temp := claim.E.(TempID)
 					switch unique {
 					case sys.AttrUniqueIdentity:
-						_, ok := rewrites[datum.E]
-						if ok {
+						e := resolve(datum.E)
+						switch {
+						case e == d.E:
+						case e > res.ID:
+							rewrites[e] = d.E
+						default:
 							res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
 							break CLAIMS
-						} else {
-							rewrites[datum.E] = d.E
 						}
 					case sys.AttrUniqueValue:
-						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
-						break CLAIMS
+						if temp || datum.E != d.E {
+							res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+							break CLAIMS
+						}
 					}
 				}
 			}
 		}
+	}
+	for tempid, id := range res.TempIDs {
+		res.TempIDs[tempid] = resolve(id)
+	}
+INVARIANTS:
+	for i, datum := range data {
+		if res.Error != nil {
+			break
+		}
+		claim := claims[i]
+		datum.E = resolve(datum.E)
+		_, temp := claim.V.(TempID)
+		if temp {
+			datum.V = resolve(datum.V.(ID))
+		}
 		// Enforce system invariants and maintain database caches.
 		switch datum.A {
 		case sys.DbIdent:
@@ -186,15 +215,15 @@ CLAIMS:
 				switch {
 				case claim.Retract:
 					res.Error = NewError("database.write.attrIdentRetractDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				case ident != attr.Ident:
 					res.Error = NewError("database.write.attrIdentChangeDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 			} else {
 				if !sys.ValidUserIdent(String(ident)) {
 					res.Error = NewError("database.write.invalidUserIdent", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 				if claim.Retract {
 					identDeletes[datum.E] = ident
@@ -206,13 +235,13 @@ CLAIMS:
 			typ := datum.V.(ID)
 			if claim.Retract {
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
-				break CLAIMS
+				break INVARIANTS
 			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Type != typ {
 					res.Error = NewError("database.write.attrTypeChangeDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 			} else {
 				attr = attrChanges[datum.E]
@@ -224,13 +253,13 @@ CLAIMS:
 			card := datum.V.(ID)
 			if claim.Retract {
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
-				break CLAIMS
+				break INVARIANTS
 			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Cardinality != card {
 					res.Error = NewError("database.write.attrCardinalityChangeDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 			} else {
 				attr = attrChanges[datum.E]
@@ -242,13 +271,13 @@ CLAIMS:
 			unique := datum.V.(ID)
 			if claim.Retract {
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
-				break CLAIMS
+				break INVARIANTS
 			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Unique != unique {
 					res.Error = NewError("database.write.attrUniqueChangeDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 			} else {
 				attr = attrChanges[datum.E]
@@ -257,7 +286,6 @@ CLAIMS:
 				attrChanges[datum.E] = attr
 			}
 		}
-		data = append(data, datum)
 	}
 	for id, attr := range attrChanges {
 		ident, ok := identCreates[id]
@@ -289,24 +317,6 @@ CLAIMS:
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
-			// TempIDs may have been assigned IDs that subsequently resolved to identity
-			// unique datum ids, so we rewrite them if so.
-			tempid, ok := claim.E.(TempID)
-			if ok {
-				id, ok := rewrites[datum.E]
-				if ok {
-					datum.E = id
-					res.TempIDs[tempid] = id
-				}
-			}
-			tempid, ok = claim.V.(TempID)
-			if ok {
-				id, ok := rewrites[datum.V.(ID)]
-				if ok {
-					datum.V = id
-					res.TempIDs[tempid] = id
-				}
-			}
 			if !claim.Retract {
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
-- 
2.43.0


From bb66e7899d37319b7e59f68613c211dfa4fa20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 09/27] fix: enforce uniqueness among the claims of a request

---
 internal/database/database.go | 114 ++++++++++++++++++++--------------
 1 file changed, 66 insertions(+), 48 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index bce955d..80701b8 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -157,6 +157,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 		}
 		return id
 	}
+	// These are the datums with identity values, both extant and claimed heretofore.
+	identities := db.ave.Clone()
 CLAIMS:
 	for _, claim := range claims {
 		datum := db.evaluateClaim(&res, &claim)
@@ -167,25 +169,33 @@ CLAIMS:
 		if !claim.Retract {
 			unique := db.attrUniques[datum.A]
 			if unique != 0 {
-				d, ok := db.ave.First(index.AV, *datum)
-				if ok {
-					_, temp := claim.E.(TempID)
-					switch unique {
-					case sys.AttrUniqueIdentity:
-						e := resolve(datum.E)
-						switch {
-						case e == d.E:
-						case e > res.ID:
-							rewrites[e] = d.E
-						default:
-							res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
-							break CLAIMS
-						}
-					case sys.AttrUniqueValue:
-						if temp || datum.E != d.E {
-							res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
-							break CLAIMS
-						}
+				_, temp := claim.E.(TempID)
+				switch unique {
+				case sys.AttrUniqueIdentity:
+					d, ok := identities.First(index.AV, *datum)
+					if !ok {
+						identities.Insert(*datum)
+						break
+					}
+					e, extant := resolve(datum.E), resolve(d.E)
+					switch {
+					case e == extant:
+					case e > res.ID:
+						rewrites[e] = extant
+					case extant > res.ID:
+						rewrites[extant] = e
+					case temp:
+						res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
+						break CLAIMS
+					default:
+						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+						break CLAIMS
+					}
+				case sys.AttrUniqueValue:
+					d, ok := db.ave.First(index.AV, *datum)
+					if ok && (temp || datum.E != d.E) {
+						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+						break CLAIMS
 					}
 				}
 			}
@@ -335,12 +345,18 @@ INVARIANTS:
 						}
 					}
 				}
-				eav.Insert(*datum)
-				aev.Insert(*datum)
 				_, ok = db.attrUniques[datum.A]
 				if ok {
+					// The claims may collide with each other.
+					d, ok := ave.First(index.AV, *datum)
+					if ok && d.E != datum.E {
+						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+						break
+					}
 					ave.Insert(*datum)
 				}
+				eav.Insert(*datum)
+				aev.Insert(*datum)
 			} else {
 				eav.Delete(*datum)
 				aev.Delete(*datum)
@@ -350,35 +366,37 @@ INVARIANTS:
 				}
 			}
 		}
-		if len(attrChanges) != 0 {
-			// The indexes of extant snapshots are reading the old types without holding the lock.
-			attrTypes := maps.Clone(db.attrTypes)
-			for id, attr := range attrChanges {
-				attrTypes[id] = attr.Type
+		if res.Error == nil {
+			if len(attrChanges) != 0 {
+				// The indexes of extant snapshots are reading the old types without holding the lock.
+				attrTypes := maps.Clone(db.attrTypes)
+				for id, attr := range attrChanges {
+					attrTypes[id] = attr.Type
+				}
+				eav.Retype(attrTypes)
+				aev.Retype(attrTypes)
+				ave.Retype(attrTypes)
+				db.attrTypes = attrTypes
 			}
-			eav.Retype(attrTypes)
-			aev.Retype(attrTypes)
-			ave.Retype(attrTypes)
-			db.attrTypes = attrTypes
-		}
-		db.eav = eav
-		db.aev = aev
-		db.ave = ave
-		for _, ident := range identDeletes {
-			delete(db.idents, ident)
-		}
-		for id, ident := range identCreates {
-			db.idents[ident] = id
-		}
-		for id, attr := range attrChanges {
-			db.idents[attr.Ident] = id
-			db.attrsByID[id] = attr
-			db.attrsByIdent[attr.Ident] = attr
-			if attr.Cardinality == sys.AttrCardinalityMany {
-				db.attrCardManies[id] = Void{}
+			db.eav = eav
+			db.aev = aev
+			db.ave = ave
+			for _, ident := range identDeletes {
+				delete(db.idents, ident)
 			}
-			if attr.Unique != 0 {
-				db.attrUniques[id] = attr.Unique
+			for id, ident := range identCreates {
+				db.idents[ident] = id
+			}
+			for id, attr := range attrChanges {
+				db.idents[attr.Ident] = id
+				db.attrsByID[id] = attr
+				db.attrsByIdent[attr.Ident] = attr
+				if attr.Cardinality == sys.AttrCardinalityMany {
+					db.attrCardManies[id] = Void{}
+				}
+				if attr.Unique != 0 {
+					db.attrUniques[id] = attr.Unique
+				}
 			}
 		}
 	}
-- 
2.43.0


From 6d63734a345b3bd15af97bbd9401c8429598aae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 10/27] fix: reject multiple values for cardinality one
 attributes

---
 internal/database/database.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 80701b8..2f687fe 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -324,15 +324,24 @@ INVARIANTS:
 		aev := db.aev.Clone()
 		// Could defer this clone until we know we need it
 		ave := db.ave.Clone()
+		// These are the values claimed by this request for cardinality one attributes.
+		type ea struct{ e, a ID }
+		scalars := map[ea]Value{}
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
 			if !claim.Retract {
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
+					v, ok := scalars[ea{datum.E, datum.A}]
+					if ok && !valuesEqual(v, datum.V) {
+						res.Error = NewError("database.write.cardinalityOneConflict", "datum", datum, "v", v)
+						break
+					}
+					scalars[ea{datum.E, datum.A}] = datum.V
 					// if this is cardinality one, we must replace extant datum if ea but not v
-					d, ok := eav.First(index.EA, *datum)
-					if ok {
+					d, extant := eav.First(index.EA, *datum)
+					if extant {
 						if valuesEqual(d.V, datum.V) {
 							continue
 						} else {
-- 
2.43.0


From 574a4e4ef0b0e82170e7d46f5c4bb3cc91317826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 11/27] fix: maintain the idents from the datums actually
 changed

---
 internal/database/database.go | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 2f687fe..f390fbc 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -107,7 +107,6 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
-	identDeletes := map[ID]Ident{}
 	// The caller retains ownership of its claims, including any spare capacity.
 	claims := slices.Clip(req.Claims)
 	if len(req.Retractions) != 0 {
@@ -235,9 +234,7 @@ INVARIANTS:
 					res.Error = NewError("database.write.invalidUserIdent", "datum", datum)
 					break INVARIANTS
 				}
-				if claim.Retract {
-					identDeletes[datum.E] = ident
-				} else {
+				if !claim.Retract {
 					identCreates[datum.E] = ident
 				}
 			}
@@ -327,6 +324,7 @@ INVARIANTS:
 		// These are the values claimed by this request for cardinality one attributes.
 		type ea struct{ e, a ID }
 		scalars := map[ea]Value{}
+		idents := maps.Clone(db.idents)
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
@@ -347,6 +345,9 @@ INVARIANTS:
 						} else {
 							eav.Delete(d)
 							aev.Delete(d)
+							if datum.A == sys.DbIdent {
+								delete(idents, Ident(d.V.(String)))
+							}
 							_, ok := db.attrUniques[datum.A]
 							if ok {
 								ave.Delete(d)
@@ -366,15 +367,27 @@ INVARIANTS:
 				}
 				eav.Insert(*datum)
 				aev.Insert(*datum)
+				if datum.A == sys.DbIdent {
+					idents[Ident(datum.V.(String))] = datum.E
+				}
 			} else {
-				eav.Delete(*datum)
+				extant := eav.Delete(*datum)
 				aev.Delete(*datum)
+				if extant && datum.A == sys.DbIdent {
+					delete(idents, Ident(datum.V.(String)))
+				}
 				_, ok := db.attrUniques[datum.A]
 				if ok {
 					ave.Delete(*datum)
 				}
 			}
 		}
+		for id, attr := range attrChanges {
+			if idents[attr.Ident] != id && res.Error == nil {
+				// The request also retracted the ident.
+				res.Error = NewError("database.write.attrRequiresIdent", "attr", attr)
+			}
+		}
 		if res.Error == nil {
 			if len(attrChanges) != 0 {
 				// The indexes of extant snapshots are reading the old types without holding the lock.
@@ -390,14 +403,8 @@ INVARIANTS:
 			db.eav = eav
 			db.aev = aev
 			db.ave = ave
-			for _, ident := range identDeletes {
-				delete(db.idents, ident)
-			}
-			for id, ident := range identCreates {
-				db.idents[ident] = id
-			}
+			db.idents = idents
 			for id, attr := range attrChanges {
-				db.idents[attr.Ident] = id
 				db.attrsByID[id] = attr
 				db.attrsByIdent[attr.Ident] = attr
 				if attr.Cardinality == sys.AttrCardinalityMany {
-- 
2.43.0


From 63e0c96c6bb1481c594bae6a39ad323f89735665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 12/27] fix: reject claims about the system entities

---
 internal/database/database.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index f390fbc..27c1719 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -214,6 +214,10 @@ INVARIANTS:
 		if temp {
 			datum.V = resolve(datum.V.(ID))
 		}
+		if datum.E < sys.FirstUserID {
+			res.Error = NewError("database.write.reservedE", "datum", datum)
+			break
+		}
 		// Enforce system invariants and maintain database caches.
 		switch datum.A {
 		case sys.DbIdent:
-- 
2.43.0


From 236d1e47312b490b247913a13b4ba1db9fee3fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 13/27] fix: reject references to ids that have not been issued

---
 internal/database/database.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 27c1719..e3b8069 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -509,7 +509,8 @@ func (db *indexDatabase) evaluateClaim(res *Response, claim *Claim) (datum *Datu
 	default:
 		ok := false
 		datum.V, ok = v.(Value)
-		if !ok {
+		ref, isRef := v.(ID)
+		if !ok || (isRef && (ref == 0 || ref >= res.ID)) {
 			res.Error = NewError("database.write.invalidV", "v", v)
 		}
 	}
-- 
2.43.0


From d5433a8b279249d285093460bb5b1a101f5e9997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 14/27] fix: respond to a rejected retraction with the
 rejecting snapshot

---
 internal/database/database.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index e3b8069..5321db4 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -126,11 +126,13 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 				switch {
 				case refID == 0:
 					res.Error = NewError("database.write.invalidE", "retraction", retraction, "ref", ref)
+					res.Snapshot = db.read()
 					return
 				case id == 0:
 					id = refID
 				case id != refID:
 					res.Error = NewError("database.write.inconsistentE", "retraction", retraction, "ref", ref, "id", id)
+					res.Snapshot = db.read()
 					return
 				}
 			}
-- 
2.43.0


From 6cde75b1563a3f8a5723b40ec264101e4cd59925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 15/27] fix: reject retractions without constraints

---
 internal/database/database.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 5321db4..37bf212 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -136,6 +136,11 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 					return
 				}
 			}
+			if id == 0 {
+				res.Error = NewError("database.write.invalidE", "retraction", retraction)
+				res.Snapshot = db.read()
+				return
+			}
 			ids[id] = Void{}
 		}
 		for id := range ids {
-- 
2.43.0


From 473b4b1a9ba1bc33c1014a18ee2c3ae4bef8e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 16/27] fix: apply the schema and data of a struct request
 atomically

---
 internal/database/database.go | 57 ++++++++++++++++++++++++++---------
 internal/types/txn.go         |  4 +++
 pkg/database/impl.go          | 20 ++++++------
 3 files changed, 57 insertions(+), 24 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 37bf212..e27f92f 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -12,7 +12,9 @@ import (
 	. "github.com/dball/destructive/internal/types"
 )
 
-type indexDatabase struct {
+// state is the mutable state of a database. Changing it replaces the indexes and maps, so a
+// copy of the state is unaffected.
+type state struct {
 	eav index.Index
 	aev index.Index
 	ave index.Index
@@ -23,10 +25,13 @@ type indexDatabase struct {
 	attrUniques    map[ID]ID
 	attrCardManies map[ID]Void
 	idents         map[Ident]ID
+	nextID         ID
+}
 
+type indexDatabase struct {
+	state
 	lock   sync.RWMutex
 	logger log.Logger
-	nextID ID
 }
 
 var _ Database = (*indexDatabase)(nil)
@@ -64,17 +69,19 @@ func NewIndexDatabase(degree int, attrsSize int, identsSize int) (db Database) {
 		}
 	}
 	db = &indexDatabase{
-		eav:            eav,
-		aev:            aev,
-		ave:            ave,
-		attrsByID:      attrsByID,
-		attrsByIdent:   attrsByIdent,
-		attrTypes:      attrTypes,
-		attrUniques:    attrUniques,
-		attrCardManies: attrCardManies,
-		idents:         idents,
-		nextID:         sys.FirstUserID,
-		logger:         *log.Default(),
+		state: state{
+			eav:            eav,
+			aev:            aev,
+			ave:            ave,
+			attrsByID:      attrsByID,
+			attrsByIdent:   attrsByIdent,
+			attrTypes:      attrTypes,
+			attrUniques:    attrUniques,
+			attrCardManies: attrCardManies,
+			idents:         idents,
+			nextID:         sys.FirstUserID,
+		},
+		logger: *log.Default(),
 	}
 	return
 }
@@ -102,9 +109,25 @@ func (db *indexDatabase) read() (snapshot Snapshot) {
 }
 
 func (db *indexDatabase) Write(req Request) (res Response) {
-	rewrites := map[ID]ID{}
 	db.lock.Lock()
 	defer db.lock.Unlock()
+	before := db.state
+	if len(req.Schema) != 0 {
+		res = db.write(Request{Claims: req.Schema})
+		if res.Error != nil {
+			return
+		}
+	}
+	res = db.write(req)
+	if res.Error != nil && len(req.Schema) != 0 {
+		db.state = before
+		res.Snapshot = db.read()
+	}
+	return
+}
+
+func (db *indexDatabase) write(req Request) (res Response) {
+	rewrites := map[ID]ID{}
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
 	// The caller retains ownership of its claims, including any spare capacity.
@@ -415,6 +438,12 @@ INVARIANTS:
 			db.aev = aev
 			db.ave = ave
 			db.idents = idents
+			if len(attrChanges) != 0 {
+				db.attrsByID = maps.Clone(db.attrsByID)
+				db.attrsByIdent = maps.Clone(db.attrsByIdent)
+				db.attrCardManies = maps.Clone(db.attrCardManies)
+				db.attrUniques = maps.Clone(db.attrUniques)
+			}
 			for id, attr := range attrChanges {
 				db.attrsByID[id] = attr
 				db.attrsByIdent[attr.Ident] = attr
diff --git a/internal/types/txn.go b/internal/types/txn.go
index ecfa16a..b8cf7e6 100644
--- a/internal/types/txn.go
+++ b/internal/types/txn.go
@@ -51,6 +51,10 @@ type Retraction struct {
 
 // Request is a set of claims and constraints on their temporary ids.
 type Request struct {
+	// The list of schema claims, if any. These are applied before the other claims, which may
+	// therefore refer to the attributes they declare, but only if the entire request is applied.
+	// Their tempids are independent of the tempids of the other claims.
+	Schema []Claim
 	// The list of claims.
 	Claims []Claim
 	// The list of retractions.
diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 434916b..183aee2 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -2,6 +2,7 @@ package database
 
 import (
 	"reflect"
+	"strconv"
 
 	"github.com/dball/destructive/internal/database"
 	"github.com/dball/destructive/internal/structs/models"
@@ -56,7 +57,8 @@ func (db *localDatabase) Read() *Snapshot {
 }
 
 func (db *localDatabase) Write(req Request) (res Response) {
-	for _, assertion := range req.Assertions {
+	var schema []types.Claim
+	for i, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
 		if typ.Kind() == reflect.Pointer {
 			typ = typ.Elem()
@@ -68,15 +70,12 @@ func (db *localDatabase) Write(req Request) (res Response) {
 			res.Error = err
 			return
 		}
-		// TODO holy non-atomicity, batman. Probably we should accumulate
-		// all claims and at least write them all in one batch?
-		// For the subsequent data claims, perhaps the internal db write
-		// should accommodate a separate "ddl" claims form and handle
-		// a total reversion if the data claims have an error?
-		ires := db.db.Write(types.Request{Claims: claims})
-		if ires.Error != nil {
-			res.Error = ires.Error
-			return
+		for _, claim := range claims {
+			tempid, ok := claim.E.(types.TempID)
+			if ok {
+				claim.E = types.TempID(strconv.Itoa(i)) + "/" + tempid
+			}
+			schema = append(schema, claim)
 		}
 	}
 	ireq, ids, err := shredder.NewShredder(db.analyzer).Shred(shredder.Document{
@@ -87,6 +86,7 @@ func (db *localDatabase) Write(req Request) (res Response) {
 		res.Error = err
 		return
 	}
+	ireq.Schema = schema
 	ires := db.db.Write(ireq)
 	if ires.Error != nil {
 		res.Error = ires.Error
-- 
2.43.0


From e6abd2516871185a5d086fff1ec0da321dcff44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 17/27] fix: respond to a rejected struct request with a
 snapshot

---
 pkg/database/impl.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 183aee2..6b41f39 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -57,6 +57,11 @@ func (db *localDatabase) Read() *Snapshot {
 }
 
 func (db *localDatabase) Write(req Request) (res Response) {
+	defer func() {
+		if res.Snap == nil {
+			res.Snap = db.Read()
+		}
+	}()
 	var schema []types.Claim
 	for i, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
@@ -88,14 +93,14 @@ func (db *localDatabase) Write(req Request) (res Response) {
 	}
 	ireq.Schema = schema
 	ires := db.db.Write(ireq)
-	if ires.Error != nil {
-		res.Error = ires.Error
-		return
-	}
 	res.Snap = &Snapshot{
 		snap:     ires.Snapshot,
 		analyzer: db.analyzer,
 	}
+	if ires.Error != nil {
+		res.Error = ires.Error
+		return
+	}
 	n := len(req.Assertions)
 	res.IDs = make([]uint64, 0, n)
 	for i := range n {
-- 
2.43.0


From b368e5ec971005a38d8b0f6c9a8c81b5c3c38307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 18/27] fix: reject nil assertions and retractions

---
 internal/structs/models/models.go     | 2 +-
 internal/structs/shredder/shredder.go | 8 ++++++++
 pkg/database/impl.go                  | 2 +-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index d0c55f7..8b22fde 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -98,7 +98,7 @@ func (attr AttrFieldModel) IsPointer() bool {
 
 // Analyze builds a struct model for the given struct type.
 func Analyze(typ reflect.Type) (model StructModel, err error) {
-	if typ.Kind() != reflect.Struct {
+	if typ == nil || typ.Kind() != reflect.Struct {
 		err = NewError("models.notStruct", "type", typ)
 		return
 	}
diff --git a/internal/structs/shredder/shredder.go b/internal/structs/shredder/shredder.go
index 6edbcc7..2e91b2a 100644
--- a/internal/structs/shredder/shredder.go
+++ b/internal/structs/shredder/shredder.go
@@ -104,6 +104,10 @@ func (s *shredder) Shred(doc Document) (req Request, ids []ERef, err error) {
 
 func (s *shredder) assert(confetti *confetti, x any) (e TempID, claims []Claim, err error) {
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var fields reflect.Value
 	var id ID
 	switch typ.Kind() {
@@ -226,6 +230,10 @@ func (s *shredder) retract(confetti *confetti, x any) (retraction *Retraction, e
 	constraints := map[IDRef]Void{}
 	var fields reflect.Value
 	typ := reflect.TypeOf(x)
+	if typ == nil {
+		err = NewError("shredder.nilStruct")
+		return
+	}
 	var e ID
 	switch typ.Kind() {
 	case reflect.Struct:
diff --git a/pkg/database/impl.go b/pkg/database/impl.go
index 6b41f39..27d533e 100644
--- a/pkg/database/impl.go
+++ b/pkg/database/impl.go
@@ -65,7 +65,7 @@ func (db *localDatabase) Write(req Request) (res Response) {
 	var schema []types.Claim
 	for i, assertion := range req.Assertions {
 		typ := reflect.TypeOf(assertion)
-		if typ.Kind() == reflect.Pointer {
+		if typ != nil && typ.Kind() == reflect.Pointer {
 			typ = typ.Elem()
 		}
 		// TODO we should keep a registry of types whose attrs
-- 
2.43.0


From 1e3a2f6ac5bf7b15140e4af906dae5d32d82200e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 19/27] fix: cache the models of valid types only, safely for
 concurrent use

---
 internal/structs/models/models.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 8b22fde..57f4834 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -4,6 +4,7 @@ package models
 import (
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
@@ -15,21 +16,22 @@ type Analyzer interface {
 	Analyze(typ reflect.Type) (model StructModel, err error)
 }
 
+// cachingAnalyzer is safe for concurrent use.
 type cachingAnalyzer struct {
-	types map[reflect.Type]*StructModel
+	types sync.Map
 }
 
 var _ Analyzer = (*cachingAnalyzer)(nil)
 
 func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, err error) {
-	mp := analyzer.types[typ]
-	if mp != nil {
-		model = *mp
+	mp, ok := analyzer.types.Load(typ)
+	if ok {
+		model = mp.(StructModel)
 		return
 	}
 	model, err = Analyze(typ)
-	if err != nil {
-		analyzer.types[typ] = &model
+	if err == nil {
+		analyzer.types.Store(typ, model)
 	}
 	return
 }
-- 
2.43.0


From 74614380b4a0013b092908404a7b6a81abe436a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 20/27] fix: ignore struct fields without attr tags

---
 internal/structs/models/models.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 57f4834..c4f8be4 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -114,6 +114,10 @@ func Analyze(typ reflect.Type) (model StructModel, err error) {
 			err = fieldErr
 			return
 		}
+		if attr.FieldType == nil {
+			// The field has no attr tag.
+			continue
+		}
 		attr.Index = i
 		attrFields = append(attrFields, attr)
 	}
-- 
2.43.0


From a5d18c8f6dab8721c0c7830079b26239636774fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 21/27] fix: convert collection values and keys to their field
 types

---
 internal/structs/assemblers/assemblers.go | 91 ++++++++++++++++++-----
 1 file changed, 74 insertions(+), 17 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 6809759..786a44c 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -111,6 +111,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			// Here's where we could be accumulating stats of attr hit rates for e types, sort of.
 			continue
 		}
+		if !sys.ValidValue(attr.Type, datum.V) {
+			err = NewError("assembler.inconsistentType", "datum", datum, "ident", ident, "type", attr.FieldType)
+			return
+		}
 		field := value.Field(attr.Index)
 		if attr.IsPointer() {
 			// TODO who owns the vs anyway? If they're not copied at some point,
@@ -120,16 +124,16 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 				// TODO does this count as a copy for the purpose of ensuring the
 				// outer pointer doesn't change the Fact value?
 				fv := string(v)
-				field.Set(reflect.ValueOf(&fv))
+				field.Set(reflect.ValueOf(&fv).Convert(field.Type()))
 			case Int:
 				fv := int(v)
-				field.Set(reflect.ValueOf(&fv))
+				field.Set(reflect.ValueOf(&fv).Convert(field.Type()))
 			case Bool:
 				fv := bool(v)
-				field.Set(reflect.ValueOf(&fv))
+				field.Set(reflect.ValueOf(&fv).Convert(field.Type()))
 			case Float:
 				fv := float64(v)
-				field.Set(reflect.ValueOf(&fv))
+				field.Set(reflect.ValueOf(&fv).Convert(field.Type()))
 			case Inst:
 				fv := time.Time(v)
 				field.Set(reflect.ValueOf(&fv))
@@ -180,7 +184,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
-					as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
+					err = as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
+					if err != nil {
+						return
+					}
 				case attr.IsSlice():
 					var slice reflect.Value
 					if field.IsNil() {
@@ -196,13 +203,20 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
-						as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
+						err = as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
+						if err != nil {
+							return
+						}
 					} else {
 						// Since we have exactly two facts to find, we can reasonably just go right to them,
 						// though we may want to mark the entity id as processed now.
-						scalar := as.findValue(v, attr.CollValue)
-						i := int(as.findValue(v, Ident("sys/db/rank")).(int64))
-						slice.Index(i).Set(reflect.ValueOf(scalar))
+						scalar, ok := convert(as.findValue(v, attr.CollValue), slice.Type().Elem())
+						i, ranked := as.findRank(v, slice)
+						if !ok || !ranked {
+							err = NewError("assembler.invalidSliceValue", "datum", datum, "type", attr.FieldType)
+							return
+						}
+						slice.Index(i).Set(scalar)
 					}
 				default:
 					pointer, ok := as.pointers[v]
@@ -232,14 +246,20 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	maes, ok := as.mapsAwaitingEntries[id]
 	if ok {
 		for _, mae := range maes {
-			as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
+			err = as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
+			if err != nil {
+				return
+			}
 		}
 		delete(as.mapsAwaitingEntries, id)
 	}
 	saes, ok := as.slicesAwaitingEntries[id]
 	if ok {
 		for _, sae := range saes {
-			as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer, true)
+			err = as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer, true)
+			if err != nil {
+				return
+			}
 		}
 		delete(as.slicesAwaitingEntries, id)
 	}
@@ -271,18 +291,50 @@ func (as *assembler) findValue(e ID, a Ident) (v any) {
 	return
 }
 
-func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) {
+// findRank finds the position of the entity in the slice, if it has a valid rank.
+func (as *assembler) findRank(e ID, slice reflect.Value) (i int, ok bool) {
+	rank, ok := as.findValue(e, Ident("sys/db/rank")).(int64)
+	i = int(rank)
+	ok = ok && i >= 0 && i < slice.Len()
+	return
+}
+
+// convert converts a found value to the given type, if that is of the same sort.
+func convert(found any, typ reflect.Type) (value reflect.Value, ok bool) {
+	value = reflect.ValueOf(found)
+	switch found.(type) {
+	case int64:
+		ok = typ.Kind() >= reflect.Int && typ.Kind() <= reflect.Int64
+	case nil:
+	default:
+		ok = typ.Kind() == value.Kind() && value.CanConvert(typ)
+	}
+	if ok {
+		value = value.Convert(typ)
+	}
+	return
+}
+
+func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) (err error) {
 	if immediate {
 		// findValue is the only way of finding the key value when it's not present on the value struct,
 		// though is plausibly much less efficient when that is the case. It might be useful to optimize
 		// that common case by constructing a more robust (cached) model of a struct's attributes that
 		// allows lookup by ident and use that to lookup the field value by index here.
-		key := as.findValue(id, mapKey)
+		var found any = uint64(id)
+		if mapKey != sys.DbId {
+			found = as.findValue(id, mapKey)
+		}
+		key, ok := convert(found, m.Type().Key())
+		if !ok {
+			err = NewError("assembler.invalidMapKey", "id", id, "key", found, "type", m.Type())
+			return
+		}
 		value := pointer
 		if !mapHasPointers {
 			value = pointer.Elem()
 		}
-		m.SetMapIndex(reflect.ValueOf(key), value)
+		m.SetMapIndex(key, value)
 		return
 	}
 	mae := mapAwaitingEntry{mapKey, m, pointer, mapHasPointers}
@@ -293,13 +345,17 @@ func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointe
 		maes = append(maes, mae)
 		as.mapsAwaitingEntries[id] = maes
 	}
+	return
 }
 
-func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) {
+func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) (err error) {
 	if immediate {
 		value := pointer.Elem()
-		index := as.findValue(id, Ident("sys/db/rank"))
-		i := int(index.(int64))
+		i, ok := as.findRank(id, slice)
+		if !ok {
+			err = NewError("assembler.invalidSliceValue", "id", id, "type", slice.Type())
+			return
+		}
 		slice.Index(i).Set(value)
 		return
 	}
@@ -311,6 +367,7 @@ func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id I
 		saes = append(saes, sae)
 		as.slicesAwaitingEntries[id] = saes
 	}
+	return
 }
 
 func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
-- 
2.43.0


From b4145df37c97ab332d6a0efd29c50859eb54d9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 22/27] fix: copy entities by value only once they are
 completely realized

---
 internal/structs/assemblers/assemblers.go | 169 +++++++++++++---------
 1 file changed, 98 insertions(+), 71 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 786a44c..2c0e000 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -2,7 +2,11 @@
 package assemblers
 
 import (
+	"cmp"
+	"iter"
+	"maps"
 	"reflect"
+	"slices"
 	"time"
 
 	"github.com/dball/destructive/internal/structs/models"
@@ -17,6 +21,11 @@ type mapAwaitingEntry struct {
 	mapHasPointers bool
 }
 
+type fieldAwaitingValue struct {
+	field   reflect.Value
+	pointer reflect.Value
+}
+
 type sliceAwaitingEntry struct {
 	collValue Ident
 	slice     reflect.Value
@@ -36,6 +45,8 @@ type assembler struct {
 	pointers map[ID]reflect.Value
 	// unprocessed are (not nil) pointers to unrealized entities
 	unprocessed map[ID]reflect.Value
+	// fieldsAwaitingValues are struct fields of entities awaiting copies of referent entities to be realized
+	fieldsAwaitingValues map[ID][]fieldAwaitingValue
 	// mapsAwaitingEntries are maps in entity struct fields awaiting referent entities to be realized
 	mapsAwaitingEntries map[ID][]mapAwaitingEntry
 	// slicesAwaitingEntries are slices in entity struct fields awaiting referent entities to be realized
@@ -49,6 +60,7 @@ func NewAssembler(analyzer models.Analyzer, snapshot Snapshot) (as *assembler) {
 		instances:             map[ID]reflect.Value{},
 		pointers:              map[ID]reflect.Value{},
 		unprocessed:           map[ID]reflect.Value{},
+		fieldsAwaitingValues:  map[ID][]fieldAwaitingValue{},
 		mapsAwaitingEntries:   map[ID][]mapAwaitingEntry{},
 		slicesAwaitingEntries: map[ID][]sliceAwaitingEntry{},
 	}
@@ -184,10 +196,8 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
-					err = as.addEntityToMap(attr.MapKey, m, v, pointer, mapHasPointers, ok)
-					if err != nil {
-						return
-					}
+					mae := mapAwaitingEntry{attr.MapKey, m, pointer, mapHasPointers}
+					as.mapsAwaitingEntries[v] = append(as.mapsAwaitingEntries[v], mae)
 				case attr.IsSlice():
 					var slice reflect.Value
 					if field.IsNil() {
@@ -203,10 +213,8 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
-						err = as.addEntityToSlice(attr.CollValue, slice, v, pointer, ok)
-						if err != nil {
-							return
-						}
+						sae := sliceAwaitingEntry{attr.CollValue, slice, pointer}
+						as.slicesAwaitingEntries[v] = append(as.slicesAwaitingEntries[v], sae)
 					} else {
 						// Since we have exactly two facts to find, we can reasonably just go right to them,
 						// though we may want to mark the entity id as processed now.
@@ -221,7 +229,8 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 				default:
 					pointer, ok := as.pointers[v]
 					if ok {
-						field.Set(pointer.Elem())
+						fav := fieldAwaitingValue{field, pointer}
+						as.fieldsAwaitingValues[v] = append(as.fieldsAwaitingValues[v], fav)
 					} else {
 						pointer = field.Addr()
 						as.pointers[v] = pointer
@@ -243,26 +252,6 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 		field := value.Field(attr.Index)
 		field.SetUint(uint64(id))
 	}
-	maes, ok := as.mapsAwaitingEntries[id]
-	if ok {
-		for _, mae := range maes {
-			err = as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers, true)
-			if err != nil {
-				return
-			}
-		}
-		delete(as.mapsAwaitingEntries, id)
-	}
-	saes, ok := as.slicesAwaitingEntries[id]
-	if ok {
-		for _, sae := range saes {
-			err = as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer, true)
-			if err != nil {
-				return
-			}
-		}
-		delete(as.slicesAwaitingEntries, id)
-	}
 	as.instances[id] = ptr
 	return
 }
@@ -315,57 +304,92 @@ func convert(found any, typ reflect.Type) (value reflect.Value, ok bool) {
 	return
 }
 
-func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool, immediate bool) (err error) {
-	if immediate {
-		// findValue is the only way of finding the key value when it's not present on the value struct,
-		// though is plausibly much less efficient when that is the case. It might be useful to optimize
-		// that common case by constructing a more robust (cached) model of a struct's attributes that
-		// allows lookup by ident and use that to lookup the field value by index here.
-		var found any = uint64(id)
-		if mapKey != sys.DbId {
-			found = as.findValue(id, mapKey)
-		}
-		key, ok := convert(found, m.Type().Key())
-		if !ok {
-			err = NewError("assembler.invalidMapKey", "id", id, "key", found, "type", m.Type())
-			return
-		}
-		value := pointer
-		if !mapHasPointers {
-			value = pointer.Elem()
-		}
-		m.SetMapIndex(key, value)
+func (as *assembler) addEntityToMap(mapKey Ident, m reflect.Value, id ID, pointer reflect.Value, mapHasPointers bool) (err error) {
+	// findValue is the only way of finding the key value when it's not present on the value struct,
+	// though is plausibly much less efficient when that is the case. It might be useful to optimize
+	// that common case by constructing a more robust (cached) model of a struct's attributes that
+	// allows lookup by ident and use that to lookup the field value by index here.
+	var found any = uint64(id)
+	if mapKey != sys.DbId {
+		found = as.findValue(id, mapKey)
+	}
+	key, ok := convert(found, m.Type().Key())
+	if !ok {
+		err = NewError("assembler.invalidMapKey", "id", id, "key", found, "type", m.Type())
 		return
 	}
-	mae := mapAwaitingEntry{mapKey, m, pointer, mapHasPointers}
-	maes, ok := as.mapsAwaitingEntries[id]
+	value := pointer
+	if !mapHasPointers {
+		value = pointer.Elem()
+	}
+	m.SetMapIndex(key, value)
+	return
+}
+
+func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value) (err error) {
+	value := pointer.Elem()
+	i, ok := as.findRank(id, slice)
 	if !ok {
-		as.mapsAwaitingEntries[id] = []mapAwaitingEntry{mae}
-	} else {
-		maes = append(maes, mae)
-		as.mapsAwaitingEntries[id] = maes
+		err = NewError("assembler.invalidSliceValue", "id", id, "type", slice.Type())
+		return
 	}
+	slice.Index(i).Set(value)
 	return
 }
 
-func (as *assembler) addEntityToSlice(collValue Ident, slice reflect.Value, id ID, pointer reflect.Value, immediate bool) (err error) {
-	if immediate {
-		value := pointer.Elem()
-		i, ok := as.findRank(id, slice)
-		if !ok {
-			err = NewError("assembler.invalidSliceValue", "id", id, "type", slice.Type())
-			return
+// copyAll copies the realized entities by value into the fields, maps, and slices that await them.
+func (as *assembler) copyAll() (err error) {
+	// Entities must be copied into the struct fields of other entities before those are themselves
+	// copied, so we proceed from the least deeply nested types.
+	ids := as.realized(maps.Keys(as.fieldsAwaitingValues))
+	slices.SortStableFunc(ids, func(a ID, b ID) int {
+		return cmp.Compare(depth(as.pointers[a].Type().Elem()), depth(as.pointers[b].Type().Elem()))
+	})
+	for _, id := range ids {
+		for _, fav := range as.fieldsAwaitingValues[id] {
+			fav.field.Set(fav.pointer.Elem())
 		}
-		slice.Index(i).Set(value)
-		return
 	}
-	sae := sliceAwaitingEntry{collValue, slice, pointer}
-	saes, ok := as.slicesAwaitingEntries[id]
-	if !ok {
-		as.slicesAwaitingEntries[id] = []sliceAwaitingEntry{sae}
-	} else {
-		saes = append(saes, sae)
-		as.slicesAwaitingEntries[id] = saes
+	for _, id := range as.realized(maps.Keys(as.mapsAwaitingEntries)) {
+		for _, mae := range as.mapsAwaitingEntries[id] {
+			err = as.addEntityToMap(mae.mapKey, mae.m, id, mae.pointer, mae.mapHasPointers)
+			if err != nil {
+				return
+			}
+		}
+	}
+	for _, id := range as.realized(maps.Keys(as.slicesAwaitingEntries)) {
+		for _, sae := range as.slicesAwaitingEntries[id] {
+			err = as.addEntityToSlice(sae.collValue, sae.slice, id, sae.pointer)
+			if err != nil {
+				return
+			}
+		}
+	}
+	clear(as.fieldsAwaitingValues)
+	clear(as.mapsAwaitingEntries)
+	clear(as.slicesAwaitingEntries)
+	return
+}
+
+// realized returns the ids of the entities that were found in the snapshot, in order.
+func (as *assembler) realized(ids iter.Seq[ID]) (realized []ID) {
+	for id := range ids {
+		if as.instances[id].IsValid() {
+			realized = append(realized, id)
+		}
+	}
+	slices.Sort(realized)
+	return
+}
+
+// depth returns how deeply structs are nested by value within the struct type.
+func depth(typ reflect.Type) (deepest int) {
+	for i := range typ.NumField() {
+		field := typ.Field(i).Type
+		if field.Kind() == reflect.Struct {
+			deepest = max(deepest, depth(field)+1)
+		}
 	}
 	return
 }
@@ -381,6 +405,9 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 	if !ok {
 		as.allocate(id, reflect.TypeFor[*T]())
 		err = as.assembleAll()
+		if err == nil {
+			err = as.copyAll()
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From c6872b3bd4ef1bf753803e5acfca0a65b5fd0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 23/27] fix: report conflicting struct types for an entity when
 assembling

---
 internal/structs/assemblers/assemblers.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 2c0e000..7643e39 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -152,6 +152,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			case ID:
 				pointer, ok := as.pointers[v]
 				if ok {
+					if pointer.Type() != field.Type() {
+						err = NewError("assembler.typeConflictForID", "id", v, "extant", pointer.Type(), "type", field.Type())
+						return
+					}
 					field.Set(pointer)
 				} else {
 					pointer := as.allocate(v, field.Type())
@@ -196,6 +200,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 					if !ok {
 						pointer = as.allocate(v, reflect.PointerTo(mapValueType))
 					}
+					if pointer.Type().Elem() != mapValueType {
+						err = NewError("assembler.typeConflictForID", "id", v, "extant", pointer.Type(), "type", m.Type())
+						return
+					}
 					mae := mapAwaitingEntry{attr.MapKey, m, pointer, mapHasPointers}
 					as.mapsAwaitingEntries[v] = append(as.mapsAwaitingEntries[v], mae)
 				case attr.IsSlice():
@@ -213,6 +221,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 						if !ok {
 							pointer = as.allocate(v, reflect.PointerTo(sliceValueType))
 						}
+						if pointer.Type().Elem() != sliceValueType {
+							err = NewError("assembler.typeConflictForID", "id", v, "extant", pointer.Type(), "type", slice.Type())
+							return
+						}
 						sae := sliceAwaitingEntry{attr.CollValue, slice, pointer}
 						as.slicesAwaitingEntries[v] = append(as.slicesAwaitingEntries[v], sae)
 					} else {
@@ -229,6 +241,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 				default:
 					pointer, ok := as.pointers[v]
 					if ok {
+						if pointer.Type().Elem() != field.Type() {
+							err = NewError("assembler.typeConflictForID", "id", v, "extant", pointer.Type(), "type", field.Type())
+							return
+						}
 						fav := fieldAwaitingValue{field, pointer}
 						as.fieldsAwaitingValues[v] = append(as.fieldsAwaitingValues[v], fav)
 					} else {
-- 
2.43.0


From c765b474ca45292d954a02c08236d9da76b344a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 24/27] fix: resolve the idents of the kinds of uniqueness

---
 internal/sys/sys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/sys/sys.go b/internal/sys/sys.go
index 3379624..bf4bb45 100644
--- a/internal/sys/sys.go
+++ b/internal/sys/sys.go
@@ -78,6 +78,8 @@ var Attrs map[ID]Attr = map[ID]Attr{
 var Idents map[Ident]ID = map[Ident]ID{
 	Ident("sys/db/ident"):                DbIdent,
 	Ident("sys/attr/unique"):             AttrUnique,
+	Ident("sys/attr/unique/identity"):    AttrUniqueIdentity,
+	Ident("sys/attr/unique/value"):       AttrUniqueValue,
 	Ident("sys/tx/at"):                   TxAt,
 	Ident("sys/attr/type"):               AttrType,
 	Ident("sys/attr/type/ref"):           AttrTypeRef,
-- 
2.43.0


From 1394f064e12036e52c20a2663456edce8d8f0ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:28 +0000
Subject: [PATCH 25/27] fix: report unexported and invalid id fields as errors

---
 internal/structs/assemblers/assemblers.go |  8 +++++
 internal/structs/shredder/field.go        | 39 +++++++++++++++++++----
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index 7643e39..a103ff9 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -128,6 +128,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 			return
 		}
 		field := value.Field(attr.Index)
+		if !field.CanSet() {
+			err = NewError("assembler.unexportedField", "ident", ident, "type", attr.FieldType)
+			return
+		}
 		if attr.IsPointer() {
 			// TODO who owns the vs anyway? If they're not copied at some point,
 			// exposing value pointers opens the door to database corruption.
@@ -266,6 +270,10 @@ func (as *assembler) assemble(id ID, ptr reflect.Value) (err error) {
 	attr, ok := model.Attr(Ident(sys.DbId))
 	if ok {
 		field := value.Field(attr.Index)
+		if !field.CanSet() || field.Kind() != reflect.Uint64 {
+			err = NewError("assembler.invalidIdField", "type", attr.FieldType)
+			return
+		}
 		field.SetUint(uint64(id))
 	}
 	as.instances[id] = ptr
diff --git a/internal/structs/shredder/field.go b/internal/structs/shredder/field.go
index aa3d286..6f3721c 100644
--- a/internal/structs/shredder/field.go
+++ b/internal/structs/shredder/field.go
@@ -23,6 +23,9 @@ func scalarValue(v reflect.Value) (Value, bool) {
 	case reflect.Float64:
 		return Float(v.Float()), true
 	case reflect.Struct:
+		if !v.CanInterface() {
+			return nil, false
+		}
 		if t, ok := v.Interface().(time.Time); ok {
 			return Inst(t), true
 		}
@@ -30,13 +33,25 @@ func scalarValue(v reflect.Value) (Value, bool) {
 	return nil, false
 }
 
+// refValue returns the value of a struct or pointer raw for ref resolution, unless it was
+// reached by way of an unexported field.
+func refValue(v reflect.Value) (val any, err error) {
+	if !v.CanInterface() {
+		err = NewError("shredder.unexportedField", "type", v.Type())
+		return
+	}
+	val = v.Interface()
+	return
+}
+
 // elementValue converts a collection element: scalars become their system Value;
 // everything else (struct or pointer refs) is returned raw for ref resolution.
-func elementValue(v reflect.Value) any {
+func elementValue(v reflect.Value) (val any, err error) {
 	if sv, ok := scalarValue(v); ok {
-		return sv
+		val = sv
+		return
 	}
-	return v.Interface()
+	return refValue(v)
 }
 
 func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fieldValue reflect.Value) (val any, err error) {
@@ -47,7 +62,7 @@ func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fi
 		if sv, ok := scalarValue(fieldValue); ok {
 			val = sv
 		} else {
-			val = fieldValue.Interface()
+			val, err = refValue(fieldValue)
 		}
 	case reflect.Map:
 		var vals values
@@ -58,14 +73,24 @@ func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fi
 			// b. the field appears therein
 			// c. the key and struct field value agree
 			// these may not obtain, revisit after we add more cardinality many field values
-			vals = append(vals, elementValue(iter.Value()))
+			var v any
+			v, err = elementValue(iter.Value())
+			if err != nil {
+				return
+			}
+			vals = append(vals, v)
 		}
 		val = vals
 	case reflect.Slice:
 		var vals values
 		n := fieldValue.Len()
 		for i := range n {
-			vals = append(vals, elementValue(fieldValue.Index(i)))
+			var v any
+			v, err = elementValue(fieldValue.Index(i))
+			if err != nil {
+				return
+			}
+			vals = append(vals, v)
 		}
 		val = vals
 	case reflect.Pointer:
@@ -82,7 +107,7 @@ func getFieldValue(pointers map[reflect.Value]TempID, fieldType reflect.Type, fi
 		if tempid, ok := pointers[ptr]; ok {
 			val = tempid
 		} else {
-			val = ptr.Interface()
+			val, err = refValue(ptr)
 		}
 	default:
 		err = NewError("shredder.invalidFieldType", "type", fieldType)
-- 
2.43.0


From fb35e4e5fafd4c549446832fbe242a68857941f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:18 +0000
Subject: [PATCH 26/27] fix: find nothing for the zero id

Finding the zero id assembled a struct from every datum in the database.
---
 internal/structs/assemblers/assemblers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/structs/assemblers/assemblers.go b/internal/structs/assemblers/assemblers.go
index a103ff9..3c3b4b4 100644
--- a/internal/structs/assemblers/assemblers.go
+++ b/internal/structs/assemblers/assemblers.go
@@ -425,6 +425,10 @@ func Assemble[T any](as *assembler, id ID) (entity *T, err error) {
 		err = modelErr
 		return
 	}
+	if id == 0 {
+		// A claim of the zero id would match every datum.
+		return
+	}
 	instance, ok := as.instances[id]
 	if !ok {
 		as.allocate(id, reflect.TypeFor[*T]())
-- 
2.43.0


From d22e147a546c790e0ea802e2f91c255fc10951dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:16 +0000
Subject: [PATCH 27/27] fix: refuse instants which cannot be stored

Instants are stored as milliseconds since the epoch. Those too far from it overflowed, and were
accepted and read back as other instants.
---
 internal/database/snapshot.go | 3 ++-
 internal/sys/sys.go           | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 27f9103..48fcd65 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -140,7 +140,8 @@ func valuesEqual(a Value, b Value) bool {
 	ai, aok := a.(Inst)
 	bi, bok := b.(Inst)
 	if aok && bok {
-		return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
+		at, bt := time.Time(ai), time.Time(bi)
+		return at.Unix() == bt.Unix() && at.UnixMilli() == bt.UnixMilli()
 	}
 	af, aok := a.(Float)
 	bf, bok := b.(Float)
diff --git a/internal/sys/sys.go b/internal/sys/sys.go
index bf4bb45..1d8e08e 100644
--- a/internal/sys/sys.go
+++ b/internal/sys/sys.go
@@ -107,7 +107,13 @@ func ValidValue(typ ID, value Value) (ok bool) {
 	case AttrTypeBool:
 		_, ok = value.(Bool)
 	case AttrTypeInst:
-		_, ok = value.(Inst)
+		var inst Inst
+		inst, ok = value.(Inst)
+		if ok {
+			// Instants are stored as milliseconds, which overflow in the far past and future.
+			t := time.Time(inst)
+			ok = time.UnixMilli(t.UnixMilli()).Unix() == t.Unix()
+		}
 	case AttrTypeFloat:
 		_, ok = value.(Float)
 	}
-- 
2.43.0

