From 0f3a65f0d0285581d0ba3eee119b420718767618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 01/43] fix: keys of the trust anchors belong to the key of
 cached trust trees and chains

---
 trustresolver.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 5523cde..573492e 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -147,17 +147,15 @@ type TrustResolver struct {
 }
 
 func (r TrustResolver) hash() ([]byte, error) {
-	tas := make([]string, len(r.TrustAnchors))
-	for i, ta := range r.TrustAnchors {
-		tas[i] = ta.EntityID
-	}
+	// The keys of the trust anchors are part of the hash, since they decide
+	// about which trust chains are valid
 	var forSerialization = struct {
 		StartingEntity string
-		TAs            []string
+		TAs            []TrustAnchor
 		Types          []string
 	}{
 		StartingEntity: r.StartingEntity,
-		TAs:            tas,
+		TAs:            r.TrustAnchors,
 		Types:          r.Types,
 	}
 	data, err := msgpack.Marshal(forSerialization)
-- 
2.43.0


From 5163c40c757fe209105f362a002c135c46ea6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 02/43] fix: cache trust trees and chains until the earliest
 expiration and only if complete

---
 cache/cache.go   |  4 ++++
 trustresolver.go | 48 ++++++++++++++++++++++++++++++++++++------------
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index 635d577..773f116 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -93,6 +93,10 @@ func EntityStmtCacheKey(subID, issID string) string {
 
 // Set caches a value for the given key and duration in the cache
 func Set(key string, value any, duration time.Duration) error {
+	if duration <= 0 {
+		// The value is already expired; the backends have different (or no) notions of this
+		return nil
+	}
 	return cacheCache.Set(key, value, duration)
 }
 
diff --git a/trustresolver.go b/trustresolver.go
index 573492e..d41a61a 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -265,13 +265,17 @@ func (r TrustResolver) cacheGetTrustChains() (
 }
 
 func (r TrustResolver) cacheSetTrustChains(chains TrustChains) error {
+	if r.trustTree.incomplete {
+		// do not remember a result that lacks something only because it could not be obtained now
+		return nil
+	}
 	hash, err := r.hash()
 	if err != nil {
 		return err
 	}
 	return cache.Set(
 		cache.Key(cache.KeyTrustTreeChains, string(hash)), chains,
-		unixtime.Until(r.trustTree.expiresAt),
+		unixtime.Until(r.trustTree.ExpiresAt),
 	)
 }
 
@@ -288,35 +292,50 @@ func (r *TrustResolver) cacheGetTrustTree() (
 	return
 }
 func (r TrustResolver) cacheSetTrustTree() error {
+	if r.trustTree.incomplete {
+		// do not remember a result that lacks something only because it could not be obtained now
+		return nil
+	}
 	hash, err := r.hash()
 	if err != nil {
 		return err
 	}
 	return cache.Set(
 		cache.Key(cache.KeyTrustTree, string(hash)), r.trustTree,
-		unixtime.Until(r.trustTree.expiresAt),
+		unixtime.Until(r.trustTree.ExpiresAt),
 	)
 }
 
 // trustTree is a type for holding EntityStatements in a tree
 type trustTree struct {
-	Entity              *EntityStatement
-	Subordinate         *EntityStatement
-	Authorities         []trustTree
+	Entity      *EntityStatement
+	Subordinate *EntityStatement
+	Authorities []trustTree
+	// ExpiresAt is the earliest expiration of all the statements that were considered when building the tree
+	ExpiresAt unixtime.Unixtime
+	// incomplete indicates that a statement could not be obtained or was not usable when building the tree
+	incomplete          bool
 	signaturesVerified  bool
-	expiresAt           unixtime.Unixtime
 	depth               int
 	includedEntityTypes *strset.Set
 	subordinateIDs      *strset.Set
 }
 
+// noteExpiration takes the expiration of a statement into account for the expiration of the tree
+func (t *trustTree) noteExpiration(exp unixtime.Unixtime) {
+	if exp.IsZero() {
+		return
+	}
+	if t.ExpiresAt.IsZero() || exp.Before(t.ExpiresAt.Time) {
+		t.ExpiresAt = exp
+	}
+}
+
 func (t *trustTree) resolve(anchors TrustAnchors) {
 	if t.Entity == nil {
 		return
 	}
-	if t.Entity.ExpiresAt.Before(t.expiresAt.Time) {
-		t.expiresAt = t.Entity.ExpiresAt
-	}
+	t.noteExpiration(t.Entity.ExpiresAt)
 	if utils.SliceContains(t.Entity.Issuer, anchors.EntityIDs()) {
 		return
 	}
@@ -330,11 +349,14 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 		}
 		aStmt, err := GetEntityConfiguration(aID)
 		if err != nil {
+			t.incomplete = true
 			continue
 		}
 		if !utils.Equal(aStmt.Issuer, aStmt.Subject, aID) || !aStmt.TimeValid() {
+			t.incomplete = true
 			continue
 		}
+		t.noteExpiration(aStmt.ExpiresAt)
 		if aStmt.Metadata == nil || aStmt.Metadata.FederationEntity == nil || aStmt.Metadata.FederationEntity.
 			FederationFetchEndpoint == "" {
 			continue
@@ -343,17 +365,17 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			aStmt.Metadata.FederationEntity.FederationFetchEndpoint, t.Entity.Issuer, aID,
 		)
 		if err != nil {
+			t.incomplete = true
 			continue
 		}
 		if subordinateStmt.Issuer != aID || subordinateStmt.Subject != t.Entity.Issuer || !subordinateStmt.TimeValid() {
+			t.incomplete = true
 			continue
 		}
+		t.noteExpiration(subordinateStmt.ExpiresAt)
 		if !t.checkConstraints(subordinateStmt.Constraints) {
 			continue
 		}
-		if subordinateStmt.ExpiresAt.Before(t.expiresAt.Time) {
-			t.expiresAt = subordinateStmt.ExpiresAt
-		}
 		entityTypes := t.includedEntityTypes.Copy()
 		entityTypes.Add(aStmt.Metadata.GuessEntityTypes()...)
 		subordinates := t.subordinateIDs.Copy()
@@ -366,6 +388,8 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			subordinateIDs:      subordinates,
 		}
 		tt.resolve(anchors)
+		t.noteExpiration(tt.ExpiresAt)
+		t.incomplete = t.incomplete || tt.incomplete
 		t.Authorities[i] = tt
 	}
 }
-- 
2.43.0


From 1125bbe645c8de196820e54a1a4c2359f2e8c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 03/43] fix: check the entity configuration of the starting
 entity when resolving

---
 trustresolver.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index d41a61a..52404a4 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -210,12 +210,19 @@ func (r *TrustResolver) Resolve() {
 	if err != nil {
 		return
 	}
-	if len(r.Types) > 0 {
-		utils.NilAllExceptByTag(starting.Metadata, r.Types)
+	if !utils.Equal(starting.Issuer, starting.Subject, r.StartingEntity) || !starting.TimeValid() {
+		return
+	}
+	entityTypes := strset.New()
+	if starting.Metadata != nil {
+		if len(r.Types) > 0 {
+			utils.NilAllExceptByTag(starting.Metadata, r.Types)
+		}
+		entityTypes.Add(starting.Metadata.GuessEntityTypes()...)
 	}
 	r.trustTree = trustTree{
 		Entity:              starting,
-		includedEntityTypes: strset.New(starting.Metadata.GuessEntityTypes()...),
+		includedEntityTypes: entityTypes,
 		subordinateIDs:      strset.New(starting.Subject),
 	}
 	r.trustTree.resolve(r.TrustAnchors)
-- 
2.43.0


From 72af29425ab00fbeaf907d4c46bc1dadbb1a81f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 04/43] fix: only return trust chains that end at a trust
 anchor with verified keys

---
 trustresolver.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 52404a4..142919a 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -233,7 +233,11 @@ func (r *TrustResolver) Resolve() {
 
 // VerifySignatures verifies the signatures of the internal trust tree
 func (r *TrustResolver) VerifySignatures() {
-	r.trustTree.verifySignatures(r.TrustAnchors)
+	if !r.trustTree.verifySignatures(r.TrustAnchors) {
+		// There is no verified path to any of the trust anchors
+		r.trustTree = trustTree{}
+		return
+	}
 	if err := r.cacheSetTrustTree(); err != nil {
 		internal.Log(err.Error())
 	}
@@ -252,6 +256,10 @@ func (r TrustResolver) Chains() (chains TrustChains) {
 	if chains == nil {
 		return nil
 	}
+	if !r.trustTree.signaturesVerified {
+		// chains that are not verified must never be obtained from the cache
+		return chains
+	}
 	if err = r.cacheSetTrustChains(chains); err != nil {
 		internal.Log(err.Error())
 	}
@@ -318,6 +326,8 @@ type trustTree struct {
 	Entity      *EntityStatement
 	Subordinate *EntityStatement
 	Authorities []trustTree
+	// IsAnchor indicates that Entity is one of the trust anchors; all trust chains end there
+	IsAnchor bool
 	// ExpiresAt is the earliest expiration of all the statements that were considered when building the tree
 	ExpiresAt unixtime.Unixtime
 	// incomplete indicates that a statement could not be obtained or was not usable when building the tree
@@ -344,6 +354,7 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 	}
 	t.noteExpiration(t.Entity.ExpiresAt)
 	if utils.SliceContains(t.Entity.Issuer, anchors.EntityIDs()) {
+		t.IsAnchor = true
 		return
 	}
 	if len(t.Entity.AuthorityHints) > 0 {
@@ -465,18 +476,22 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 	if t.signaturesVerified {
 		return true
 	}
-	if t.Subordinate != nil {
+	if t.IsAnchor {
 		for _, ta := range anchors {
-			if utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject, t.Subordinate.Issuer) {
-				// t is about a TA
-				jwks := ta.JWKS
-				if jwks.Set == nil {
-					jwks = t.Entity.JWKS
-				}
-				t.signaturesVerified = t.Entity.Verify(jwks) && t.Subordinate.Verify(jwks)
-				return t.signaturesVerified
+			if !utils.Equal(ta.EntityID, t.Entity.Issuer, t.Entity.Subject) {
+				continue
+			}
+			// t is about a TA
+			jwks := ta.JWKS
+			if jwks.Set == nil {
+				jwks = t.Entity.JWKS
+			}
+			if t.Entity.Verify(jwks) && (t.Subordinate == nil || t.Subordinate.Verify(jwks)) {
+				t.signaturesVerified = true
+				break
 			}
 		}
+		return t.signaturesVerified
 	}
 	iValid := 0
 	for _, tt := range t.Authorities {
@@ -500,11 +515,11 @@ func (t *trustTree) verifySignatures(anchors TrustAnchors) bool {
 }
 
 func (t trustTree) chains() (chains []TrustChain) {
-	if t.Authorities == nil {
+	if t.IsAnchor {
+		if t.Entity == nil {
+			return nil
+		}
 		if t.Subordinate == nil {
-			if t.Entity == nil {
-				return nil
-			}
 			return []TrustChain{
 				{
 					t.Entity,
-- 
2.43.0


From eb3cdd90e008715688e12530f9a1308faf993cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:30 +0000
Subject: [PATCH 05/43] fix: do not return trust chains twice for repeated
 authority hints

---
 trustresolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index 142919a..ebeadd5 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -365,6 +365,10 @@ func (t *trustTree) resolve(anchors TrustAnchors) {
 			// loop prevention
 			continue
 		}
+		if slices.Contains(t.Entity.AuthorityHints[:i], aID) {
+			// an authority that is listed more than once does not give more trust chains
+			continue
+		}
 		aStmt, err := GetEntityConfiguration(aID)
 		if err != nil {
 			t.incomplete = true
-- 
2.43.0


From b7ab34819de44e918639789544b89e1e2fa5a5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 06/43] fix: do not use trust trees and chains that could not
 be decoded from the cache

---
 trustresolver.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trustresolver.go b/trustresolver.go
index ebeadd5..c5dd127 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -199,6 +199,7 @@ func (r *TrustResolver) ResolveToValidChainsWithoutVerifyingMetadata() TrustChai
 func (r *TrustResolver) Resolve() {
 	if found, err := r.cacheGetTrustTree(); err != nil {
 		internal.Log(err.Error())
+		r.trustTree = trustTree{}
 	} else if found {
 		internal.Log("Obtained trust tree from cache")
 		return
@@ -247,6 +248,7 @@ func (r *TrustResolver) VerifySignatures() {
 func (r TrustResolver) Chains() (chains TrustChains) {
 	chains, set, err := r.cacheGetTrustChains()
 	if err != nil {
+		set = false
 		internal.Log(err.Error())
 	}
 	if set {
-- 
2.43.0


From edeaf644c81848a7b0448aa2d085e2bf6c79a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 07/43] fix: do not hand out trust chains with statements that
 expired in the meantime

---
 trustresolver.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index c5dd127..3dffeb3 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -188,13 +188,26 @@ func (r *TrustResolver) ResolveToValidChainsWithoutVerifyingMetadata() TrustChai
 	}
 	if set {
 		internal.Log("Obtained trust chains from cache")
-		return chains
+		return chains.Filter(trustChainsFilterTimeValid)
 	}
 	r.Resolve()
 	r.VerifySignatures()
 	return r.Chains()
 }
 
+// trustChainsFilterTimeValid filters TrustChains to the ones whose statements are all valid right now;
+// statements can expire while the (potentially slow) resolution is still going on
+var trustChainsFilterTimeValid = NewTrustChainsFilterFromCheckerFnc(
+	func(chain TrustChain) bool {
+		for _, stmt := range chain {
+			if !stmt.TimeValid() {
+				return false
+			}
+		}
+		return true
+	},
+)
+
 // Resolve starts the trust chain resolution process, building an internal trust tree
 func (r *TrustResolver) Resolve() {
 	if found, err := r.cacheGetTrustTree(); err != nil {
@@ -252,9 +265,9 @@ func (r TrustResolver) Chains() (chains TrustChains) {
 		internal.Log(err.Error())
 	}
 	if set {
-		return chains
+		return chains.Filter(trustChainsFilterTimeValid)
 	}
-	chains = r.trustTree.chains()
+	chains = TrustChains(r.trustTree.chains()).Filter(trustChainsFilterTimeValid)
 	if chains == nil {
 		return nil
 	}
-- 
2.43.0


From 4d84a4ca63aacb4ebe2041c78e2ca1d37a63af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 08/43] fix: keep scores and chains together when sorting trust
 chains

---
 trustchainfilter.go | 47 ++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/trustchainfilter.go b/trustchainfilter.go
index f253fce..18fec6e 100644
--- a/trustchainfilter.go
+++ b/trustchainfilter.go
@@ -20,32 +20,47 @@ func (c TrustChains) Filter(filter ...TrustChainsFilter) TrustChains {
 
 // SortAsc sorts multiple TrustChains ascending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortAsc(scorer TrustChainScoringFnc) TrustChains {
-	scores := make([]int, len(c))
-	for i, tc := range c {
-		scores[i] = scorer(tc)
-	}
-
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] < scores[j] // skipcq: GO-W4009
-		},
-	)
+	sort.Stable(newScoredTrustChains(c, scorer))
 	return c
 }
 
 // SortDesc sorts multiple TrustChains descending by using the passed TrustChainScoringFnc
 func (c TrustChains) SortDesc(scorer TrustChainScoringFnc) TrustChains {
+	sort.Stable(sort.Reverse(newScoredTrustChains(c, scorer)))
+	return c
+}
+
+// scoredTrustChains is a type for sorting TrustChains together with their scores
+type scoredTrustChains struct {
+	chains TrustChains
+	scores []int
+}
+
+func newScoredTrustChains(c TrustChains, scorer TrustChainScoringFnc) scoredTrustChains {
 	scores := make([]int, len(c))
 	for i, tc := range c {
 		scores[i] = scorer(tc)
 	}
+	return scoredTrustChains{
+		chains: c,
+		scores: scores,
+	}
+}
 
-	sort.Slice(
-		c, func(i, j int) bool {
-			return scores[i] > scores[j] // skipcq: GO-W4009
-		},
-	)
-	return c
+// Len implements the sort.Interface interface
+func (s scoredTrustChains) Len() int {
+	return len(s.chains)
+}
+
+// Less implements the sort.Interface interface
+func (s scoredTrustChains) Less(i, j int) bool {
+	return s.scores[i] < s.scores[j]
+}
+
+// Swap implements the sort.Interface interface
+func (s scoredTrustChains) Swap(i, j int) {
+	s.chains[i], s.chains[j] = s.chains[j], s.chains[i]
+	s.scores[i], s.scores[j] = s.scores[j], s.scores[i]
 }
 
 // TrustChainScoringFnc a function type that takes a TrustChain and calculates a score for the chain.
-- 
2.43.0


From eeee0e9ff0ae4cd6727b348f0425cfc760ef53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 09/43] fix: refresh cached statements after, not before, the
 elapsed lifetime factor

---
 trustresolver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 3dffeb3..8d2339e 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -602,8 +602,9 @@ func getEntityStatementOrConfiguration(
 		internal.Log("Obtained entity statement from cache")
 		go func() {
 			remainingLifetime := time.Until(stmt.ExpiresAt.Time)
+			elapsedLifetime := time.Since(stmt.IssuedAt.Time)
 			totalLifetime := stmt.ExpiresAt.Sub(stmt.IssuedAt.Time)
-			if remainingLifetime <= ResolverCacheGracePeriod && float64(remainingLifetime)/float64(totalLifetime) > ResolverCacheLifetimeElapsedGraceFactor {
+			if remainingLifetime <= ResolverCacheGracePeriod && float64(elapsedLifetime)/float64(totalLifetime) >= ResolverCacheLifetimeElapsedGraceFactor {
 				internal.Log("Within grace period, refreshing entity statement")
 				_, err := obtainAndSetEntityStatementOrConfiguration(
 					subID,
-- 
2.43.0


From 4bbc264607b0a6e76faebf5a28ad23844289cd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 10/43] fix: do not cache statements that are not valid or
 about another entity

---
 trustresolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trustresolver.go b/trustresolver.go
index 8d2339e..26523ce 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -629,7 +629,10 @@ func obtainAndSetEntityStatementOrConfiguration(
 		return nil, err
 	}
 	internal.Log("Obtained entity statement from http")
-	entityStmtCacheSet(subID, issID, stmt)
+	// Only a usable statement might replace one that is already cached
+	if stmt.Issuer == issID && stmt.Subject == subID && stmt.TimeValid() {
+		entityStmtCacheSet(subID, issID, stmt)
+	}
 	return stmt, nil
 }
 
-- 
2.43.0


From 3f43372f33c617635a7643499c46ff2745a4980d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 11/43] fix: decode metadata policies for unknown entity types

---
 metadataPolicy.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index e79c97b..27b8f5e 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -51,11 +51,15 @@ func (m *MetadataPolicies) UnmarshalJSON(data []byte) error {
 	// Be careful not to set mm.Extra if there was no extra in the JSON, so that
 	// we don't set the field to an empty map when we want it to be nil.
 	if len(extra) > 0 {
+		var raw map[string]json.RawMessage
+		if err = json.Unmarshal(data, &raw); err != nil {
+			return errors.WithStack(err)
+		}
 		policyMap := make(map[string]MetadataPolicy)
-		for k, v := range extra {
-			policy, ok := v.(MetadataPolicy)
-			if !ok {
-				return errors.Errorf("non MetadataPolicy in metadata policies")
+		for k := range extra {
+			var policy MetadataPolicy
+			if err = json.Unmarshal(raw[k], &policy); err != nil {
+				return errors.Wrapf(err, "non MetadataPolicy for '%s' in metadata policies", k)
 			}
 
 			policyMap[k] = policy
-- 
2.43.0


From 15a889b24a5931ec83dd696652c47d6b1dfd3bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:37 +0000
Subject: [PATCH 12/43] fix: keep and verify all operators when combining
 metadata policies

---
 metadataPolicy.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index 27b8f5e..1f004b5 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -181,7 +181,7 @@ func combineMetadataPolicy(parent, sub MetadataPolicy, pathInfo string) (Metadat
 		return parent, nil
 	}
 	if len(parent) == 0 {
-		return sub, nil
+		return sub, sub.Verify(pathInfo)
 	}
 	out := make(MetadataPolicy)
 	for k, pv := range parent {
@@ -217,7 +217,7 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 		if !ok {
 			// return nil, errors.Errorf("unknown policy operator '%s'; cannot combine these policies", op)
 			// We already checked that this is not a crit operator, so it is just ignored
-			return nil, nil
+			continue
 		}
 		combined, err := operator.Merge(av, bv, pathInfo)
 		if err != nil {
@@ -226,7 +226,7 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 		out[op] = combined
 	}
 	for op, bv := range b {
-		if _, found := out[op]; found {
+		if _, found := a[op]; found {
 			continue
 		}
 		out[op] = bv
-- 
2.43.0


From 9a00e9e320e8ee4a0450dad8b0d5adaeb91b4d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:42 +0000
Subject: [PATCH 13/43] fix: do not panic on or change policy values of
 unexpected types

---
 internal/utils/slices.go | 106 ++++++++++++++++++---------------------
 policyverifiers.go       |   3 ++
 2 files changed, 51 insertions(+), 58 deletions(-)

diff --git a/internal/utils/slices.go b/internal/utils/slices.go
index f18a91d..eb8d082 100644
--- a/internal/utils/slices.go
+++ b/internal/utils/slices.go
@@ -21,59 +21,45 @@ func RemoveFromSlice[C comparable](slice []C, v C) []C {
 	return result
 }
 
-// ReflectSliceCast casts a slice to another type using reflection
+// ReflectSliceCast casts a slice to another type using reflection. If the
+// elements of the slice cannot be cast to the new type, the original slice is
+// returned.
 func ReflectSliceCast(slice, newType any) any {
-	if !IsSlice(slice) {
+	if !IsSlice(slice) || !IsSlice(newType) {
 		return slice
 	}
 	typeType := reflect.TypeOf(newType)
+	elemType := typeType.Elem()
 	sliceV := reflect.ValueOf(slice)
 	out := reflect.MakeSlice(typeType, sliceV.Len(), sliceV.Len())
 	for i := 0; i < sliceV.Len(); i++ {
-		vv := sliceV.Index(i)
-		var v reflect.Value
-		// This is stupid and has faults, but I did not find a better way
-		switch typeType.Elem().Kind() {
-		case reflect.Bool:
-			v = reflect.ValueOf(vv.Interface().(bool))
-		case reflect.Int:
-			v = reflect.ValueOf(vv.Interface().(int))
-		case reflect.Int8:
-			v = reflect.ValueOf(vv.Interface().(int8))
-		case reflect.Int16:
-			v = reflect.ValueOf(vv.Interface().(int16))
-		case reflect.Int32:
-			v = reflect.ValueOf(vv.Interface().(int32))
-		case reflect.Int64:
-			v = reflect.ValueOf(vv.Interface().(int64))
-		case reflect.Uint:
-			v = reflect.ValueOf(vv.Interface().(uint))
-		case reflect.Uint8:
-			v = reflect.ValueOf(vv.Interface().(uint8))
-		case reflect.Uint16:
-			v = reflect.ValueOf(vv.Interface().(uint16))
-		case reflect.Uint32:
-			v = reflect.ValueOf(vv.Interface().(uint32))
-		case reflect.Uint64:
-			v = reflect.ValueOf(vv.Interface().(uint64))
-		case reflect.Uintptr:
-			v = reflect.ValueOf(vv.Interface().(*uint))
-		case reflect.Float32:
-			v = reflect.ValueOf(vv.Interface().(float32))
-		case reflect.Float64:
-			v = reflect.ValueOf(vv.Interface().(float64))
-		case reflect.Interface:
-			v = vv
-		case reflect.String:
-			v = reflect.ValueOf(vv.Interface().(string))
+		v := sliceV.Index(i)
+		if v.Kind() == reflect.Interface && elemType.Kind() != reflect.Interface {
+			v = v.Elem()
+		}
+		switch {
+		case !v.IsValid():
+			return slice
+		case v.Type().AssignableTo(elemType):
+		case v.Kind() == elemType.Kind() && v.Type().ConvertibleTo(elemType):
+			v = v.Convert(elemType)
 		default:
-			v = vv.Convert(typeType.Elem())
+			return slice
 		}
 		out.Index(i).Set(v)
 	}
 	return out.Interface()
 }
 
+// sliceValue returns the reflect.Value of the slicified value; nil is treated as
+// an empty slice
+func sliceValue(in any) reflect.Value {
+	if in == nil {
+		return reflect.ValueOf([]any{})
+	}
+	return reflect.ValueOf(Slicify(in))
+}
+
 // ReflectSliceContains checks if a slice contains a value using reflection
 func ReflectSliceContains(v, slice any) bool {
 	if !IsSlice(slice) {
@@ -88,22 +74,28 @@ func ReflectSliceContains(v, slice any) bool {
 	return false
 }
 
-// ReflectUnion uses reflection to compute the union of two slices
+// ReflectUnion uses reflection to compute the union of two slices; neither of
+// the passed slices is changed
 func ReflectUnion(a, b any) any {
-	as := Slicify(a)
-	bs := Slicify(b)
-	out := reflect.ValueOf(as)
-	bV := reflect.ValueOf(bs)
+	aV := sliceValue(a)
+	bV := sliceValue(b)
 	if bV.Len() == 0 {
-		return out.Interface()
+		return aV.Interface()
 	}
-	if out.Len() == 0 || out.Index(0).Type() != bV.Index(0).Type() {
-		bs = ReflectSliceCast(bs, as)
-		bV = reflect.ValueOf(bs)
+	if a != nil && aV.Type() != bV.Type() {
+		bV = reflect.ValueOf(ReflectSliceCast(bV.Interface(), aV.Interface()))
 	}
-	if out.Len() == 0 {
+	if aV.Len() == 0 {
 		return bV.Interface()
 	}
+	outType := aV.Type()
+	if aV.Type() != bV.Type() {
+		outType = reflect.TypeOf([]any{})
+	}
+	out := reflect.MakeSlice(outType, 0, aV.Len()+bV.Len())
+	for i := 0; i < aV.Len(); i++ {
+		out = reflect.Append(out, aV.Index(i))
+	}
 	for i := 0; i < bV.Len(); i++ {
 		v := bV.Index(i)
 		if !ReflectSliceContains(v.Interface(), out.Interface()) {
@@ -115,13 +107,12 @@ func ReflectUnion(a, b any) any {
 
 // ReflectIntersect uses reflection to compute the intersection of two slices
 func ReflectIntersect(a, b any) any {
-	as := Slicify(a)
-	bs := Slicify(b)
-	aV := reflect.ValueOf(as)
-	if aV.Type() != reflect.ValueOf(bs).Type() {
-		bs = ReflectSliceCast(bs, as)
+	aV := sliceValue(a)
+	bs := sliceValue(b).Interface()
+	if aV.Type() != reflect.TypeOf(bs) {
+		bs = ReflectSliceCast(bs, aV.Interface())
 	}
-	out := reflect.New(reflect.TypeOf(as)).Elem()
+	out := reflect.New(aV.Type()).Elem()
 	for i := 0; i < aV.Len(); i++ {
 		v := aV.Index(i)
 		if ReflectSliceContains(v.Interface(), bs) {
@@ -133,9 +124,8 @@ func ReflectIntersect(a, b any) any {
 
 // ReflectIsSubsetOf uses reflection to check if a slice is a subset of another
 func ReflectIsSubsetOf(is, of any) bool {
-	is = Slicify(is)
-	of = Slicify(of)
-	isV := reflect.ValueOf(is)
+	isV := sliceValue(is)
+	of = sliceValue(of).Interface()
 	for i := 0; i < isV.Len(); i++ {
 		v := isV.Index(i)
 		if !ReflectSliceContains(v.Interface(), of) {
diff --git a/policyverifiers.go b/policyverifiers.go
index c57f1dd..4bbb1ba 100644
--- a/policyverifiers.go
+++ b/policyverifiers.go
@@ -150,6 +150,9 @@ func policyVerifyAddInOneOf(p MetadataPolicyEntry, pathInfo string) error {
 		return nil
 	}
 	addVs := utils.Slicify(addV)
+	if addVs == nil || reflect.ValueOf(addVs).Len() == 0 {
+		return nil
+	}
 	if reflect.ValueOf(addVs).Len() > 1 {
 		return errors.Errorf(
 			"cannot have multiple values in '%s' operator in combination with '%s' operator for '%s' policy",
-- 
2.43.0


From 0c3d0405f7d41451bc4ca8ea0f2ef3dfcb22285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 14/43] fix: apply metadata policies to all claims and without
 type confusion

---
 metadata.go | 118 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 106 insertions(+), 12 deletions(-)

diff --git a/metadata.go b/metadata.go
index a9bf786..80ebf49 100644
--- a/metadata.go
+++ b/metadata.go
@@ -8,6 +8,8 @@ import (
 	"unsafe"
 
 	"github.com/pkg/errors"
+
+	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // Metadata is a type for holding the different metadata types
@@ -277,42 +279,134 @@ func applyPolicy(metadata any, policy MetadataPolicy, ownTag string) (any, error
 		return metadata, nil
 	}
 	v := reflect.ValueOf(metadata)
+	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
+		claims, ok := metadata.(map[string]any)
+		if !ok {
+			return nil, errors.Errorf("cannot apply metadata policy to '%s': not a JSON object", ownTag)
+		}
+		return applyPolicyToClaims(claims, policy, nil, ownTag)
+	}
 	t := v.Elem().Type()
 
 	wasSetField := v.Elem().FieldByName("wasSet")
 	wasSet := *(*map[string]bool)(unsafe.Pointer(wasSetField.UnsafeAddr())) // skipcq:  GSC-G103
+	explicitClaims := make(map[string]bool)
 	for i := 0; i < t.NumField(); i++ {
 		j, ok := t.Field(i).Tag.Lookup("json")
-		if !ok {
+		if !ok || j == "-" {
 			continue
 		}
 		j = strings.TrimSuffix(j, ",omitempty")
+		explicitClaims[j] = true
 		p, ok := policy[j]
 		if !ok {
 			continue
 		}
 		f := reflect.Indirect(v).Field(i)
-		value, err := p.ApplyTo(f.Interface(), wasSet[t.Field(i).Name], fmt.Sprintf("%s.%s", ownTag, j))
+		pathInfo := fmt.Sprintf("%s.%s", ownTag, j)
+		// The policy is applied to the JSON representation of the value, because
+		// the values in the policy also come from JSON
+		claim, err := toJSONValue(f.Interface())
 		if err != nil {
 			return nil, err
 		}
-		rV := reflect.ValueOf(value)
-		if t.Field(i).Name == "Scope" && rV.IsValid() && rV.Kind() == reflect.Slice {
-			strSlice, ok := value.([]string)
-			if ok {
-				rV = reflect.ValueOf(strings.Join(strSlice, " "))
-			}
+		value, err := p.ApplyTo(claim, wasSet[t.Field(i).Name], pathInfo)
+		if err != nil {
+			return nil, err
 		}
-		if rV.IsValid() {
-			f.Set(rV)
-		} else {
-			f.SetZero()
+		if t.Field(i).Name == "Scope" && utils.IsSlice(value) {
+			value = joinStrings(value)
+		}
+		result := reflect.New(f.Type())
+		if f.Kind() == reflect.Slice {
+			value = utils.Slicify(value)
+		}
+		if value != nil {
+			data, err := json.Marshal(value)
+			if err != nil {
+				return nil, errors.WithStack(err)
+			}
+			if err = json.Unmarshal(data, result.Interface()); err != nil {
+				return nil, errors.Wrapf(err, "metadata policy gives an invalid value for '%s'", pathInfo)
+			}
 		}
+		f.Set(result.Elem())
+	}
+
+	extraField := v.Elem().FieldByName("Extra")
+	if !extraField.IsValid() {
+		return metadata, nil
+	}
+	extra, ok := extraField.Interface().(map[string]any)
+	if !ok {
+		return metadata, nil
+	}
+	extra, err := applyPolicyToClaims(extra, policy, explicitClaims, ownTag)
+	if err != nil {
+		return nil, err
 	}
+	if len(extra) == 0 {
+		extra = nil
+	}
+	extraField.Set(reflect.ValueOf(extra))
 
 	return metadata, nil
 }
 
+// applyPolicyToClaims applies the policy to the passed claims and returns the
+// resulting claims; the passed claims are not changed. Policies for claims in
+// ignore are ignored.
+func applyPolicyToClaims(
+	claims map[string]any, policy MetadataPolicy, ignore map[string]bool, ownTag string,
+) (map[string]any, error) {
+	out := make(map[string]any, len(claims))
+	for k, v := range claims {
+		out[k] = v
+	}
+	for k, p := range policy {
+		if ignore[k] {
+			continue
+		}
+		claim, err := toJSONValue(claims[k])
+		if err != nil {
+			return nil, err
+		}
+		value, err := p.ApplyTo(claim, claim != nil, fmt.Sprintf("%s.%s", ownTag, k))
+		if err != nil {
+			return nil, err
+		}
+		if value == nil {
+			delete(out, k)
+			continue
+		}
+		out[k] = value
+	}
+	return out, nil
+}
+
+func toJSONValue(v any) (value any, err error) {
+	data, err := json.Marshal(v)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	return value, errors.WithStack(json.Unmarshal(data, &value))
+}
+
+// joinStrings joins a slice of strings with spaces; everything else is returned
+// unchanged
+func joinStrings(value any) any {
+	values := reflect.ValueOf(value)
+	strs := make([]string, values.Len())
+	for i := range strs {
+		s, ok := values.Index(i).Interface().(string)
+		if !ok {
+			return value
+		}
+		strs[i] = s
+	}
+	return strings.Join(strs, " ")
+}
+
 // FindEntityMetadata finds metadata for the specified entity type in the
 // metadata and decodes it into the provided metadata object.
 func (m *Metadata) FindEntityMetadata(entityType string, metadata any) error {
-- 
2.43.0


From fb2bb210097b23cdd48f577d35c3fd5d39d0e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 15/43] fix: metadata from the cache has the same claims set as
 before caching

---
 entitystatement.go | 22 ++++++++++++++++++++++
 metadata.go        | 21 +++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/entitystatement.go b/entitystatement.go
index 816bbe3..bbaf93f 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -60,6 +60,28 @@ func (e *EntityStatement) UnmarshalMsgpack(data []byte) error {
 	}
 	e.EntityStatementPayload = ee.Payload
 	e.jwtMsg = &ee.JWTMsg
+	return e.restoreMetadata()
+}
+
+// restoreMetadata restores the metadata from the jwt, because the encoded
+// payload does not tell which of the claims with a zero value were set. Entity
+// types that are not part of the encoded payload are not restored.
+func (e *EntityStatement) restoreMetadata() error {
+	if e.Metadata == nil || e.jwtMsg.Message == nil {
+		return nil
+	}
+	var payload struct {
+		Metadata *Metadata `json:"metadata"`
+	}
+	if err := json.Unmarshal(e.jwtMsg.Payload(), &payload); err != nil {
+		return errors.WithStack(err)
+	}
+	if payload.Metadata == nil {
+		return nil
+	}
+	entityTypes := append(e.Metadata.GuessEntityTypes(), utils.MapKeys(e.Metadata.Extra)...)
+	utils.NilAllExceptByTag(payload.Metadata, entityTypes)
+	e.Metadata = payload.Metadata
 	return nil
 }
 
diff --git a/metadata.go b/metadata.go
index 80ebf49..9a42e83 100644
--- a/metadata.go
+++ b/metadata.go
@@ -8,6 +8,7 @@ import (
 	"unsafe"
 
 	"github.com/pkg/errors"
+	"github.com/vmihailenco/msgpack/v5"
 
 	"github.com/go-oidfed/lib/internal/utils"
 )
@@ -209,6 +210,26 @@ func (m *Metadata) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// MarshalMsgpack implements the msgpack.Marshaler interface. The metadata is
+// encoded as JSON, so that claims that are not set are not set after decoding.
+func (m Metadata) MarshalMsgpack() ([]byte, error) {
+	data, err := json.Marshal(m)
+	if err != nil {
+		return nil, errors.WithStack(err)
+	}
+	msgpackData, err := msgpack.Marshal(data)
+	return msgpackData, errors.WithStack(err)
+}
+
+// UnmarshalMsgpack implements the msgpack.Unmarshaler interface
+func (m *Metadata) UnmarshalMsgpack(data []byte) error {
+	var jsonData []byte
+	if err := msgpack.Unmarshal(data, &jsonData); err != nil {
+		return errors.WithStack(err)
+	}
+	return errors.WithStack(json.Unmarshal(jsonData, m))
+}
+
 type policyApplicable interface {
 	ApplyPolicy(policy MetadataPolicy) (any, error)
 }
-- 
2.43.0


From d12002cd56e4ab9b7ff9688cfc17e1036760b4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 16/43] fix: entity types unknown to this module are entity
 types, too

---
 entitystatement.go | 3 +--
 metadata.go        | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/entitystatement.go b/entitystatement.go
index bbaf93f..f0a5372 100644
--- a/entitystatement.go
+++ b/entitystatement.go
@@ -79,8 +79,7 @@ func (e *EntityStatement) restoreMetadata() error {
 	if payload.Metadata == nil {
 		return nil
 	}
-	entityTypes := append(e.Metadata.GuessEntityTypes(), utils.MapKeys(e.Metadata.Extra)...)
-	utils.NilAllExceptByTag(payload.Metadata, entityTypes)
+	utils.NilAllExceptByTag(payload.Metadata, e.Metadata.GuessEntityTypes())
 	e.Metadata = payload.Metadata
 	return nil
 }
diff --git a/metadata.go b/metadata.go
index 9a42e83..b43475c 100644
--- a/metadata.go
+++ b/metadata.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"slices"
 	"strings"
 	"unsafe"
 
@@ -43,7 +44,9 @@ func (m Metadata) GuessEntityTypes() (entityTypes []string) {
 			entityTypes = append(entityTypes, jsonTag)
 		}
 	}
-	return
+	extraTypes := utils.MapKeys(m.Extra)
+	slices.Sort(extraTypes)
+	return append(entityTypes, extraTypes...)
 }
 
 // GuessDisplayName implements the DisplayNameGuesser interface
-- 
2.43.0


From 860d70d15ae2090159edf2c8ca7034ea2f757d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 17/43] fix: maintain the trust marks of the entity
 configuration reliably

---
 trustmark_refresher.go | 124 ++++++++++++++++++++++++++++++-----------
 1 file changed, 91 insertions(+), 33 deletions(-)

diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index e33741e..0c74bde 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -1,10 +1,11 @@
 package oidfed
 
 import (
+	"math"
 	"net/url"
+	"sync"
 	"time"
 
-	"github.com/lestrrat-go/jwx/v3/jwt"
 	"github.com/pkg/errors"
 
 	"github.com/go-oidfed/lib/internal"
@@ -23,8 +24,10 @@ type EntityConfigurationTrustMarkConfig struct {
 	Refresh              bool                       `yaml:"refresh"`
 	MinLifetime          unixtime.DurationInSeconds `yaml:"min_lifetime"`
 	RefreshGracePeriod   unixtime.DurationInSeconds `yaml:"refresh_grace_period"`
+	mutex                sync.Mutex                 // protects JWT and the following three fields
 	expiration           unixtime.Unixtime
 	lastTried            unixtime.Unixtime
+	refreshing           chan struct{} // set while a refresh is in progress
 	sub                  string
 	ownTrustMarkEndpoint string
 	ownTrustMarkIssuer   *TrustMarkIssuer
@@ -45,22 +48,24 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	}
 
 	if c.JWT != "" {
-		parsed, err := jwt.Parse([]byte(c.JWT))
+		mark, err := ParseTrustMark([]byte(c.JWT))
 		if err != nil {
 			return err
 		}
-		exp, _ := parsed.Expiration()
-		c.expiration = unixtime.Unixtime{Time: exp}
-		c.TrustMarkIssuer, _ = parsed.Issuer()
-		internal.Logf("Extracted trust mark issuer: %s", c.TrustMarkIssuer)
-		err = parsed.Get("trust_mark_type", &c.TrustMarkType)
-		if err != nil {
-			return errors.Wrap(err, "trustmark id not found in JWT")
+		if mark.TrustMarkType == "" {
+			return errors.New("trustmark id not found in JWT")
 		}
+		if mark.Subject != sub {
+			return errors.Errorf("trust mark JWT was not issued to '%s'", sub)
+		}
+		c.setTrustMark(c.JWT, mark.ExpiresAt)
+		c.TrustMarkIssuer = mark.Issuer
+		internal.Logf("Extracted trust mark issuer: %s", c.TrustMarkIssuer)
+		c.TrustMarkType = mark.TrustMarkType
 		internal.Logf("Extracted trust mark id: %s\n", c.TrustMarkType)
-		return nil
+	} else {
+		c.Refresh = true
 	}
-	c.Refresh = true
 	if c.SelfIssued {
 		c.SelfIssuanceSpec.TrustMarkType = c.TrustMarkType
 		c.ownTrustMarkIssuer = NewTrustMarkIssuer(
@@ -78,41 +83,93 @@ func (c *EntityConfigurationTrustMarkConfig) Verify(
 	return nil
 }
 
+// setTrustMark sets the current trust mark jwt and its expiration
+func (c *EntityConfigurationTrustMarkConfig) setTrustMark(trustMarkJWT string, exp *unixtime.Unixtime) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	c.JWT = trustMarkJWT
+	if exp != nil {
+		c.expiration = *exp
+	} else {
+		c.expiration = unixtime.Unixtime{}
+	}
+}
+
+// current returns the current trust mark jwt and how long it can still be used; if there is no usable trust mark the
+// remaining lifetime is not positive
+func (c *EntityConfigurationTrustMarkConfig) current() (string, time.Duration) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.JWT == "" {
+		return "", 0
+	}
+	if c.expiration.IsZero() {
+		// does not expire
+		return c.JWT, math.MaxInt64
+	}
+	return c.JWT, unixtime.Until(c.expiration)
+}
+
 // TrustMarkJWT returns a trust mark jwt for the linked trust mark,
 // if needed the trust mark is refreshed using the trust mark issuer's trust mark endpoint
 func (c *EntityConfigurationTrustMarkConfig) TrustMarkJWT() (string, error) {
+	trustMarkJWT, remaining := c.current()
 	if !c.Refresh {
-		return c.JWT, nil
+		if remaining <= 0 {
+			return "", errors.New("trust mark expired")
+		}
+		return trustMarkJWT, nil
 	}
-	if c.JWT != "" && unixtime.Until(c.expiration) > c.MinLifetime.Duration {
-		if unixtime.Until(c.expiration) < c.RefreshGracePeriod.Duration {
-			go c.refresh()
+	if remaining > c.MinLifetime.Duration {
+		if remaining < c.RefreshGracePeriod.Duration {
+			go c.refresh(false)
 		}
-		return c.JWT, nil
+		return trustMarkJWT, nil
+	}
+	err := c.refresh(true)
+	trustMarkJWT, remaining = c.current()
+	if remaining > 0 {
+		return trustMarkJWT, nil
 	}
-	err := c.refresh()
-	return c.JWT, err
+	if err == nil {
+		err = errors.New("trust mark expired")
+	}
+	return "", err
 }
 
-// refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint
-func (c *EntityConfigurationTrustMarkConfig) refresh() error {
-	if time.Since(c.lastTried.Time) < time.Minute {
+// refresh refreshes the trust mark at the trust mark issuer's trust mark endpoint. If a refresh is already in progress
+// and the trust mark is needed, the end of that refresh is awaited.
+func (c *EntityConfigurationTrustMarkConfig) refresh(needed bool) error {
+	c.mutex.Lock()
+	if refreshing := c.refreshing; refreshing != nil {
+		c.mutex.Unlock()
+		if needed {
+			<-refreshing
+		}
+		return nil
+	}
+	if time.Since(c.lastTried.Time) < time.Minute && !(c.SelfIssued && needed) {
 		// Only try once a minute to obtain a new trust mark
+		c.mutex.Unlock()
 		return errors.New("only trying to refresh trust mark once a minute")
 	}
 	c.lastTried = unixtime.Now()
+	done := make(chan struct{})
+	c.refreshing = done
+	c.mutex.Unlock()
+	defer func() {
+		c.mutex.Lock()
+		c.refreshing = nil
+		c.mutex.Unlock()
+		close(done)
+	}()
+
 	if c.SelfIssued {
 		tmi, err := c.ownTrustMarkIssuer.IssueTrustMark(c.TrustMarkType, c.sub)
 		if err != nil {
 			return err
 		}
-		c.JWT = tmi.TrustMarkJWT
-		exp := tmi.trustmark.ExpiresAt
-		if exp != nil {
-			c.expiration = *exp
-		} else {
-			c.expiration = unixtime.Unixtime{}
-		}
+		c.setTrustMark(tmi.TrustMarkJWT, tmi.trustmark.ExpiresAt)
 		return nil
 	}
 
@@ -144,11 +201,12 @@ func (c *EntityConfigurationTrustMarkConfig) refresh() error {
 	if err != nil {
 		return err
 	}
-	c.JWT = string(tm.jwtMsg.RawJWT)
-	if tm.ExpiresAt != nil {
-		c.expiration = *tm.ExpiresAt
-	} else {
-		c.expiration = unixtime.Unixtime{}
+	if tm.Subject != c.sub || tm.TrustMarkType != c.TrustMarkType {
+		return errors.New("trust mark issuer returned a trust mark for another subject or type")
+	}
+	if err = unixtime.VerifyTime(&tm.IssuedAt, tm.ExpiresAt); err != nil {
+		return errors.Wrap(err, "trust mark issuer returned an unusable trust mark")
 	}
+	c.setTrustMark(string(tm.jwtMsg.RawJWT), tm.ExpiresAt)
 	return nil
 }
-- 
2.43.0


From c7ff3099475ef0b4feefa4a3f9c9c56e879f5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 18/43] fix: custom lifetime of trust mark delegations is
 respected without default lifetime

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index 5714f3d..f0a4cef 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -563,7 +563,7 @@ func (tmo TrustMarkOwner) DelegationJWT(trustMarkType, sub string, lifetime ...t
 	if len(lifetime) > 0 {
 		lf = lifetime[0]
 	}
-	if spec.DelegationLifetime != 0 {
+	if lf != 0 {
 		delegation.ExpiresAt = &unixtime.Unixtime{Time: now.Add(lf)}
 	}
 	return tmo.TrustMarkDelegationSigner.JWT(delegation)
-- 
2.43.0


From 8d775d214b9b0341aea5e89ec98f6d503beeb9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 19/43] fix: do not panic on trust mark issuers without keys

---
 trustmark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trustmark.go b/trustmark.go
index f0a4cef..792024f 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -249,7 +249,7 @@ func getTrustMarkIssuerJWKS(
 		err = errors.Wrap(err, "error while parsing trust mark issuer entity statement")
 		return
 	}
-	if tmi == nil || tmi.JWKS.Len() == 0 {
+	if tmi == nil || tmi.JWKS.Set == nil || tmi.JWKS.Len() == 0 {
 		err = errors.New("no jwks found for trust mark issuer")
 		return
 	}
-- 
2.43.0


From a5bf5998c22c01b73134eef25b5c48289847a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 20/43] fix: error responses and unusable subordinate listings
 are errors

---
 discovery.go          | 11 +++++++----
 internal/http/http.go | 19 +++++++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4554f91..534d375 100644
--- a/discovery.go
+++ b/discovery.go
@@ -578,18 +578,21 @@ func fetchList(listEndpoint string) ([]string, error) {
 }
 
 func httpFetchList(listEndpoint string) ([]string, error) {
-	resp, errRes, err := http.Get(listEndpoint, nil, &[]string{})
+	resp, errRes, err := http.Get(listEndpoint, nil, nil)
 	if err != nil {
 		return nil, err
 	}
 	if errRes != nil {
 		return nil, errRes.Err()
 	}
-	entities, ok := resp.Result().(*[]string)
-	if !ok || entities == nil {
+	var entities []string
+	if err = json.Unmarshal(resp.Body(), &entities); err != nil {
+		return nil, errors.WithStack(err)
+	}
+	if entities == nil {
 		return nil, errors.New("unexpected response type")
 	}
-	return *entities, nil
+	return entities, nil
 }
 
 func getMetadataForCollectedEntity(e *CollectedEntity, trustAnchors []string) *Metadata {
diff --git a/internal/http/http.go b/internal/http/http.go
index 8d3c404..3a91804 100644
--- a/internal/http/http.go
+++ b/internal/http/http.go
@@ -42,14 +42,26 @@ func Do() *resty.Client {
 	return client
 }
 
+// errorResponse returns the HttpError for a response that is not successful
+func errorResponse(resp *resty.Response) *HttpError {
+	errRes, ok := resp.Error().(*HttpError)
+	if (!ok || errRes == nil || errRes.Error == "") && !resp.IsSuccess() {
+		errRes = &HttpError{Error: resp.Status()}
+	}
+	if errRes == nil || errRes.Error == "" {
+		return nil
+	}
+	errRes.Status = resp.StatusCode()
+	return errRes
+}
+
 // Get performs a http GET request and parses the response into the given interface{}
 func Get(url string, params url.Values, res interface{}) (*resty.Response, *HttpError, error) {
 	resp, err := client.R().SetQueryParamsFromValues(params).SetError(&HttpError{}).SetResult(res).Get(url)
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
@@ -61,8 +73,7 @@ func Post(url string, req interface{}, res interface{}) (*resty.Response, *HttpE
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
-	if errRes, ok := resp.Error().(*HttpError); ok && errRes != nil && errRes.Error != "" {
-		errRes.Status = resp.RawResponse.StatusCode
+	if errRes := errorResponse(resp); errRes != nil {
 		return nil, errRes, nil
 	}
 	return resp, nil, nil
-- 
2.43.0


From 23792a89789af3939816d52a0d5541bc17dfffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:23 +0000
Subject: [PATCH 21/43] fix: only usable resolve responses for the requested
 subject decide

---
 metadata_resolver.go | 18 +++++++++++++++---
 trustresolver.go     | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/metadata_resolver.go b/metadata_resolver.go
index 6cac3b0..cd83794 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -11,6 +11,7 @@ import (
 	"github.com/go-oidfed/lib/internal/http"
 	"github.com/go-oidfed/lib/internal/jwx"
 	"github.com/go-oidfed/lib/oidfedconst"
+	"github.com/go-oidfed/lib/unixtime"
 )
 
 // MetadataResolver is type for resolving the metadata from a StartingEntity to
@@ -132,9 +133,20 @@ func (r SimpleRemoteMetadataResolver) ResolveResponse(req apimodel.ResolveReques
 		}
 		return nil, resolveStatus, nil
 	}
-	resolveStatus = resolveStatusValid
 	rres, err := ParseResolveResponse(res.Body())
-	return rres, resolveStatus, err
+	if err != nil {
+		return nil, resolveStatus, err
+	}
+	if rres.Subject != req.Subject {
+		return nil, resolveStatus, errors.Errorf("resolve response is about '%s'", rres.Subject)
+	}
+	if err = unixtime.VerifyTime(&rres.IssuedAt, &rres.ExpiresAt); err != nil {
+		return nil, resolveStatus, errors.Wrap(err, "resolve response")
+	}
+	if rres.Metadata == nil {
+		return nil, resolveStatus, errors.New("resolve response has no metadata")
+	}
+	return rres, resolveStatusValid, nil
 }
 
 // Resolve implements the MetadataResolver interface
@@ -168,7 +180,7 @@ func (r SimpleRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveReques
 	_, resStatus, err := r.ResolveResponse(req)
 	if err != nil {
 		internal.Log(err.Error())
-		return false, true
+		return false, false
 	}
 	switch resStatus {
 	case resolveStatusValid, resolveStatusOnlyValidTrustChain:
diff --git a/trustresolver.go b/trustresolver.go
index 26523ce..fee99b1 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -77,6 +77,40 @@ func (r ResolveResponse) MarshalJSON() ([]byte, error) {
 	return extraMarshalHelper(append(payload[:len(payload)-1], additional...), r.Extra)
 }
 
+// UnmarshalJSON implements the json.Unmarshaler interface.
+// It also unmarshalls additional fields into the Extra claim.
+func (r *ResolveResponse) UnmarshalJSON(data []byte) error {
+	var claims struct {
+		Issuer    string            `json:"iss"`
+		Subject   string            `json:"sub"`
+		IssuedAt  unixtime.Unixtime `json:"iat"`
+		ExpiresAt unixtime.Unixtime `json:"exp"`
+		Audience  string            `json:"aud,omitempty"`
+	}
+	if err := json.Unmarshal(data, &claims); err != nil {
+		return err
+	}
+	var payload ResolveResponsePayload
+	if err := json.Unmarshal(data, &payload); err != nil {
+		return err
+	}
+	for _, claim := range []string{"iss", "sub", "iat", "exp", "aud"} {
+		delete(payload.Extra, claim)
+	}
+	if len(payload.Extra) == 0 {
+		payload.Extra = nil
+	}
+	*r = ResolveResponse{
+		Issuer:                 claims.Issuer,
+		Subject:                claims.Subject,
+		IssuedAt:               claims.IssuedAt,
+		ExpiresAt:              claims.ExpiresAt,
+		Audience:               claims.Audience,
+		ResolveResponsePayload: payload,
+	}
+	return nil
+}
+
 // ResolveResponsePayload holds the actual payload of a resolve response
 type ResolveResponsePayload struct {
 	Metadata   *Metadata              `json:"metadata,omitempty"`
-- 
2.43.0


From 9098e6c79a9a378077a707aa0a96906b331eedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:27 +0000
Subject: [PATCH 22/43] fix: pass the name query on to entity collection
 endpoints

---
 apimodel/collection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apimodel/collection.go b/apimodel/collection.go
index 40614c6..73b6d93 100644
--- a/apimodel/collection.go
+++ b/apimodel/collection.go
@@ -7,6 +7,6 @@ type EntityCollectionRequest struct {
 	TrustMarkTypes []string `json:"trust_mark_type" form:"trust_mark_type" query:"trust_mark_type" url:"trust_mark_type"`
 	TrustAnchor    string   `json:"trust_anchor" form:"trust_anchor" query:"trust_anchor" url:"trust_anchor"`
 	EntityTypes    []string `json:"entity_type" form:"entity_type" query:"entity_type" url:"entity_type"`
-	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query"`
+	NameQuery      string   `json:"name_query" form:"name_query" query:"name_query" url:"name_query"`
 	Claims         []string `json:"claims" form:"claims" query:"claims" url:"claims"`
 }
-- 
2.43.0


From b29e674ff1626119c349e1e24947ea147d99632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 23/43] fix: no data race between concurrent verifications of
 the same trust mark

---
 trustmark.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/trustmark.go b/trustmark.go
index 792024f..8002c11 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -109,11 +109,8 @@ func (tm *TrustMarkInfo) UnmarshalJSON(data []byte) error {
 // TrustMark returns the TrustMark for this TrustMarkInfo
 func (tm *TrustMarkInfo) TrustMark() (*TrustMark, error) {
 	if tm.trustmark == nil || tm.trustmark.jwtMsg == nil {
-		t, err := ParseTrustMark([]byte(tm.TrustMarkJWT))
-		if err != nil {
-			return nil, err
-		}
-		tm.trustmark = t
+		// The result is not stored, because verifications may be done concurrently
+		return ParseTrustMark([]byte(tm.TrustMarkJWT))
 	}
 	return tm.trustmark, nil
 }
@@ -205,14 +202,14 @@ func parseDelegationJWT(delegationJWT []byte) (*DelegationJWT, error) {
 
 // Delegation returns the DelegationJWT (if any) for this TrustMark
 func (tm *TrustMark) Delegation() (*DelegationJWT, error) {
-	var err error
 	if tm.delegation == nil {
 		if tm.DelegationJWT == "" {
 			return nil, nil
 		}
-		tm.delegation, err = parseDelegationJWT([]byte(tm.DelegationJWT))
+		// The result is not stored, because verifications may be done concurrently
+		return parseDelegationJWT([]byte(tm.DelegationJWT))
 	}
-	return tm.delegation, err
+	return tm.delegation, nil
 }
 
 func getTrustMarkIssuerJWKS(
-- 
2.43.0


From 8aaa9ad4534a1f852cabc4fcbae1861c81c9b1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 24/43] fix: only trust marks issued to the entity itself count

---
 discovery.go         |  9 +++++----
 metadata_resolver.go |  2 +-
 trustmark.go         | 20 ++++++++++++++++++++
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/discovery.go b/discovery.go
index 534d375..39e08bf 100644
--- a/discovery.go
+++ b/discovery.go
@@ -308,6 +308,7 @@ func (d *SimpleEntityCollector) collect(
 
 							et := entityConfig.Metadata.GuessEntityTypes()
 							displayNames := entityConfig.Metadata.GuessDisplayNames()
+							trustMarks := entityConfig.TrustMarks.issuedTo(subordinateID)
 
 							includeEntity := true
 							if req.EntityTypes != nil && len(arrays.Intersect(et, req.EntityTypes)) == 0 {
@@ -318,8 +319,8 @@ func (d *SimpleEntityCollector) collect(
 							}
 
 							for _, trustMarkType := range req.TrustMarkTypes {
-								trustMarkInfo := entityConfig.TrustMarks.FindByID(trustMarkType)
-								if trustMarkInfo == nil {
+								trustMarks := trustMarks.ofType(trustMarkType)
+								if len(trustMarks) == 0 {
 									includeEntity = false
 									break
 								}
@@ -328,7 +329,7 @@ func (d *SimpleEntityCollector) collect(
 										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
 									},
 								)
-								if taErr != nil || trustMarkInfo.VerifyFederation(&ta.EntityStatementPayload) != nil {
+								if taErr != nil || len(trustMarks.VerifiedFederation(&ta.EntityStatementPayload)) == 0 {
 									includeEntity = false
 									break
 								}
@@ -426,7 +427,7 @@ func (d *SimpleEntityCollector) collect(
 										},
 									)
 									if taErr == nil {
-										collectedEntity.TrustMarks = entityConfig.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload)
+										collectedEntity.TrustMarks = trustMarks.VerifiedFederation(&ta.EntityStatementPayload)
 									}
 								}
 
diff --git a/metadata_resolver.go b/metadata_resolver.go
index cd83794..f71d155 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -77,7 +77,7 @@ func (r LocalMetadataResolver) ResolveResponsePayload(req apimodel.ResolveReques
 	if err != nil {
 		return
 	}
-	res.TrustMarks = chain[0].TrustMarks.VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
+	res.TrustMarks = chain[0].TrustMarks.issuedTo(req.Subject).VerifiedFederation(&chain[len(chain)-1].EntityStatementPayload)
 	return
 }
 
diff --git a/trustmark.go b/trustmark.go
index 8002c11..dde4c0a 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -42,6 +42,26 @@ func (tms TrustMarkInfos) VerifiedExternal(
 	return
 }
 
+// issuedTo returns only the TrustMarkInfos whose TrustMark was issued to the passed subject
+func (tms TrustMarkInfos) issuedTo(sub string) (issued TrustMarkInfos) {
+	for _, tm := range tms {
+		if mark, err := tm.TrustMark(); err == nil && mark.Subject == sub {
+			issued = append(issued, tm)
+		}
+	}
+	return
+}
+
+// ofType returns only the TrustMarkInfos with the passed trust mark type
+func (tms TrustMarkInfos) ofType(trustMarkType string) (matching TrustMarkInfos) {
+	for _, tm := range tms {
+		if tm.TrustMarkType == trustMarkType {
+			matching = append(matching, tm)
+		}
+	}
+	return
+}
+
 // Find uses the passed function to find the first matching TrustMarkInfo
 func (tms TrustMarkInfos) Find(matcher func(info TrustMarkInfo) bool) *TrustMarkInfo {
 	for _, tm := range tms {
-- 
2.43.0


From 9db1ed755367dad79ac6999dbc86b5c96e74d34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:26 +0000
Subject: [PATCH 25/43] fix: no data race between and within entity collections

---
 discovery.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/discovery.go b/discovery.go
index 39e08bf..4045718 100644
--- a/discovery.go
+++ b/discovery.go
@@ -165,6 +165,18 @@ type EntityCollector interface {
 // federation
 type SimpleEntityCollector struct {
 	visitedEntities *strset.Set
+	visitedMutex    sync.Mutex
+}
+
+// visit marks the entity as visited and returns if it was not visited before
+func (d *SimpleEntityCollector) visit(entityID string) bool {
+	d.visitedMutex.Lock()
+	defer d.visitedMutex.Unlock()
+	if d.visitedEntities.Has(entityID) {
+		return false
+	}
+	d.visitedEntities.Add(entityID)
+	return true
 }
 
 // SimpleOPCollector is an EntityCollector that uses the
@@ -218,8 +230,9 @@ type FilterableVerifiedChainsEntityCollector struct {
 
 // CollectEntities implements the EntityCollector interface
 func (d *SimpleEntityCollector) CollectEntities(req apimodel.EntityCollectionRequest) (entities []*CollectedEntity) {
-	d.visitedEntities = strset.New()
-	return d.collect(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
+	// Use a separate collector for each collection, because there might be concurrent ones
+	collector := &SimpleEntityCollector{visitedEntities: strset.New()}
+	return collector.collect(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor)...)
 }
 
 const maxCollectWorkers = 128
@@ -269,11 +282,10 @@ func (d *SimpleEntityCollector) collect(
 	for _, authority := range authorities {
 		run(
 			func() {
-				if d.visitedEntities.Has(authority.EntityID) {
+				if !d.visit(authority.EntityID) {
 					internal.Logf("Already visited: %s -> skipping", authority.EntityID)
 					return
 				}
-				d.visitedEntities.Add(authority.EntityID)
 
 				stmt, err := GetEntityConfiguration(authority.EntityID)
 				if err != nil {
-- 
2.43.0


From 269358a36ead9597065a3a2550c86be6762fbd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 26/43] fix: only use entity configurations that are about the
 entity and valid

---
 discovery.go           | 10 +++++-----
 metadata_resolver.go   |  4 ++--
 trustmark.go           |  2 +-
 trustmark_refresher.go |  2 +-
 trustresolver.go       | 17 +++++++++++++++++
 5 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/discovery.go b/discovery.go
index 4045718..65853d6 100644
--- a/discovery.go
+++ b/discovery.go
@@ -287,7 +287,7 @@ func (d *SimpleEntityCollector) collect(
 					return
 				}
 
-				stmt, err := GetEntityConfiguration(authority.EntityID)
+				stmt, err := getUsableEntityConfiguration(authority.EntityID)
 				if err != nil {
 					internal.Logf("Could not get entity configuration: %s -> skipping", err.Error())
 					return
@@ -308,7 +308,7 @@ func (d *SimpleEntityCollector) collect(
 				for _, subordinateID := range subordinates {
 					run(
 						func() {
-							entityConfig, err := GetEntityConfiguration(subordinateID)
+							entityConfig, err := getUsableEntityConfiguration(subordinateID)
 							if err != nil {
 								internal.Logf("Failed to get entity config for %s: %s", subordinateID, err.Error())
 								return
@@ -338,7 +338,7 @@ func (d *SimpleEntityCollector) collect(
 								}
 								taOnce.Do(
 									func() {
-										ta, taErr = GetEntityConfiguration(req.TrustAnchor)
+										ta, taErr = getUsableEntityConfiguration(req.TrustAnchor)
 									},
 								)
 								if taErr != nil || len(trustMarks.VerifiedFederation(&ta.EntityStatementPayload)) == 0 {
@@ -435,7 +435,7 @@ func (d *SimpleEntityCollector) collect(
 								if collectedEntity.TrustMarks == nil && slices.Contains(req.Claims, "trust_marks") {
 									taOnce.Do(
 										func() {
-											ta, taErr = GetEntityConfiguration(req.TrustAnchor)
+											ta, taErr = getUsableEntityConfiguration(req.TrustAnchor)
 										},
 									)
 									if taErr == nil {
@@ -786,7 +786,7 @@ func (c SmartRemoteEntityCollector) CollectEntities(req apimodel.EntityCollectio
 	trustAnchors := append([]string{req.TrustAnchor}, utils.RemoveFromSlice(c.TrustAnchors, req.TrustAnchor)...)
 
 	for _, tr := range trustAnchors {
-		entityConfig, err := GetEntityConfiguration(tr)
+		entityConfig, err := getUsableEntityConfiguration(tr)
 		if err != nil {
 			internal.Logf("error while obtaining entity configuration: %v", err)
 			continue
diff --git a/metadata_resolver.go b/metadata_resolver.go
index f71d155..4160c5d 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -228,7 +228,7 @@ func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRe
 	ResolveResponsePayload, error,
 ) {
 	for _, tr := range req.TrustAnchor {
-		entityConfig, err := GetEntityConfiguration(tr)
+		entityConfig, err := getUsableEntityConfiguration(tr)
 		if err != nil {
 			internal.Logf("error while obtaining entity configuration: %v", err)
 			continue
@@ -256,7 +256,7 @@ func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRe
 // ResolvePossible implements the MetadataResolver interface
 func (SmartRemoteMetadataResolver) ResolvePossible(req apimodel.ResolveRequest) (bool, bool) {
 	for _, tr := range req.TrustAnchor {
-		entityConfig, err := GetEntityConfiguration(tr)
+		entityConfig, err := getUsableEntityConfiguration(tr)
 		if err != nil {
 			internal.Logf("error while obtaining entity configuration: %v", err)
 			continue
diff --git a/trustmark.go b/trustmark.go
index dde4c0a..335f914 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -260,7 +260,7 @@ func getTrustMarkIssuerJWKS(
 	if len(res.TrustChain) > 0 {
 		tmi, err = ParseEntityStatement(res.TrustChain[0].RawJWT)
 	} else {
-		tmi, err = GetEntityConfiguration(trustMarkIssuer)
+		tmi, err = getUsableEntityConfiguration(trustMarkIssuer)
 	}
 	if err != nil {
 		err = errors.Wrap(err, "error while parsing trust mark issuer entity statement")
diff --git a/trustmark_refresher.go b/trustmark_refresher.go
index 0c74bde..9f18f66 100644
--- a/trustmark_refresher.go
+++ b/trustmark_refresher.go
@@ -177,7 +177,7 @@ func (c *EntityConfigurationTrustMarkConfig) refresh(needed bool) error {
 	if c.TrustMarkIssuer == c.sub {
 		endpoint = c.ownTrustMarkEndpoint
 	} else {
-		tmi, err := GetEntityConfiguration(c.TrustMarkIssuer)
+		tmi, err := getUsableEntityConfiguration(c.TrustMarkIssuer)
 		if err != nil {
 			return err
 		}
diff --git a/trustresolver.go b/trustresolver.go
index fee99b1..ff11ed4 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -7,6 +7,7 @@ import (
 	"strings"
 	"time"
 
+	"github.com/pkg/errors"
 	"github.com/scylladb/go-set/strset"
 	"github.com/vmihailenco/msgpack/v5"
 	"golang.org/x/crypto/sha3"
@@ -628,6 +629,22 @@ func GetEntityConfiguration(entityID string) (*EntityStatement, error) {
 	)
 }
 
+// getUsableEntityConfiguration obtains the entity configuration for the passed entity id and checks that it is about
+// that entity and currently valid
+func getUsableEntityConfiguration(entityID string) (*EntityStatement, error) {
+	stmt, err := GetEntityConfiguration(entityID)
+	if err != nil {
+		return nil, err
+	}
+	if !utils.Equal(stmt.Issuer, stmt.Subject, entityID) {
+		return nil, errors.Errorf("entity configuration of '%s' is not about that entity", entityID)
+	}
+	if !stmt.TimeValid() {
+		return nil, errors.Errorf("entity configuration of '%s' is not valid at this time", entityID)
+	}
+	return stmt, nil
+}
+
 func getEntityStatementOrConfiguration(
 	subID, issID string, obtainerFnc func() (*EntityStatement, error),
 ) (*EntityStatement, error) {
-- 
2.43.0


From 7e3f0910bc246aade9382d3952a8d7660e4caf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:45 +0000
Subject: [PATCH 27/43] fix: report keywords and set the UI info fields of
 collected entities

---
 discovery.go | 5 +----
 metadata.go  | 5 ++---
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/discovery.go b/discovery.go
index 65853d6..556a679 100644
--- a/discovery.go
+++ b/discovery.go
@@ -75,10 +75,7 @@ func (e *CollectedEntity) setUIInfoField(
 	for i := 0; i < uiInfoType.NumField(); i++ {
 		structField := uiInfoType.Field(i)
 		tag := structField.Tag.Get("json")
-		tagName := tag
-		if commaIdx := len(tag); commaIdx != -1 {
-			tagName = tag[:commaIdx]
-		}
+		tagName, _, _ := strings.Cut(tag, ",")
 
 		if tagName == jsonTag {
 			fieldValue := uiInfoValue.Field(i)
diff --git a/metadata.go b/metadata.go
index b43475c..07bbca9 100644
--- a/metadata.go
+++ b/metadata.go
@@ -142,9 +142,8 @@ func (m Metadata) IterateStringSliceClaim(tag string, iterator func(entityType s
 				jsonTag := subStructField.Tag.Get("json")
 				jsonTag = strings.TrimSuffix(jsonTag, ",omitempty")
 
-				if jsonTag == tag && subField.Kind() == reflect.String {
-					slice := subField.Interface().([]string)
-					if slice != nil {
+				if jsonTag == tag {
+					if slice, ok := subField.Interface().([]string); ok && slice != nil {
 						iterator(entityTag, slice)
 					}
 					break
-- 
2.43.0


From 3416d58f60306cf5a904210eb8ba7a4600f41940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 28/43] fix: ignore null entries in entity collection responses

---
 discovery.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/discovery.go b/discovery.go
index 556a679..39c6e15 100644
--- a/discovery.go
+++ b/discovery.go
@@ -763,7 +763,11 @@ func (c SimpleRemoteEntityCollector) CollectEntities(req apimodel.EntityCollecti
 		internal.Logf("error while fetching entity collection endpoint: %s", errRes.Err().Error())
 		return nil
 	}
-	return res.FederationEntities
+	return slices.DeleteFunc(
+		res.FederationEntities, func(e *CollectedEntity) bool {
+			return e == nil
+		},
+	)
 }
 
 // SmartRemoteEntityCollector is a EntityCollector that utilizes remote
-- 
2.43.0


From 609c6e055087add1f2d6b89cd775823f91e250ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 29/43] fix: resolving OP metadata does not depend on the cache
 and needs OP metadata

---
 federation.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/federation.go b/federation.go
index bddd1d7..4faeb1b 100644
--- a/federation.go
+++ b/federation.go
@@ -131,9 +131,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	var opm OpenIDProviderMetadata
 	set, err := cache.Get(cache.Key(cache.KeyOPMetadata, issuer), &opm)
 	if err != nil {
-		return nil, err
-	}
-	if set {
+		internal.Log(err.Error())
+	} else if set {
 		return &opm, nil
 	}
 	metadata, err := DefaultMetadataResolver.Resolve(
@@ -146,5 +145,8 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
+	if metadata == nil || metadata.OpenIDProvider == nil {
+		return nil, errors.Errorf("'%s' is not an openid provider", issuer)
+	}
 	return metadata.OpenIDProvider, nil
 }
-- 
2.43.0


From 663b68eae651695b1e880f44c594bfea01922c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:48 +0000
Subject: [PATCH 30/43] fix: use the keys set for the trust anchors when
 resolving OP metadata

---
 federation.go        | 21 ++++++++++++++-------
 metadata_resolver.go | 13 +++++++++++--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/federation.go b/federation.go
index 4faeb1b..b09e151 100644
--- a/federation.go
+++ b/federation.go
@@ -135,13 +135,20 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 	} else if set {
 		return &opm, nil
 	}
-	metadata, err := DefaultMetadataResolver.Resolve(
-		apimodel.ResolveRequest{
-			Subject:     issuer,
-			TrustAnchor: f.TrustAnchors.EntityIDs(),
-			EntityTypes: []string{"openid_provider"},
-		},
-	)
+	req := apimodel.ResolveRequest{
+		Subject:     issuer,
+		TrustAnchor: f.TrustAnchors.EntityIDs(),
+		EntityTypes: []string{"openid_provider"},
+	}
+	var metadata *Metadata
+	if resolver, local := DefaultMetadataResolver.(LocalMetadataResolver); local {
+		// the request does not hold the keys of our trust anchors
+		var res ResolveResponsePayload
+		res, _, err = resolver.resolveWithTrustAnchors(req, f.TrustAnchors)
+		metadata = res.Metadata
+	} else {
+		metadata, err = DefaultMetadataResolver.Resolve(req)
+	}
 	if err != nil {
 		return nil, errors.Wrap(err, "no trust chain with valid metadata found")
 	}
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 4160c5d..65fbd3f 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -40,13 +40,22 @@ func (r LocalMetadataResolver) Resolve(req apimodel.ResolveRequest) (*Metadata,
 	return res.Metadata, nil
 }
 
-func (LocalMetadataResolver) resolveResponsePayloadWithoutTrustMarks(
+func (r LocalMetadataResolver) resolveResponsePayloadWithoutTrustMarks(
 	req apimodel.ResolveRequest,
 ) (
 	res ResolveResponsePayload, chain TrustChain, err error,
+) {
+	return r.resolveWithTrustAnchors(req, NewTrustAnchorsFromEntityIDs(req.TrustAnchor...))
+}
+
+// resolveWithTrustAnchors resolves the request using the passed TrustAnchors, including the keys set for them
+func (LocalMetadataResolver) resolveWithTrustAnchors(
+	req apimodel.ResolveRequest, trustAnchors TrustAnchors,
+) (
+	res ResolveResponsePayload, chain TrustChain, err error,
 ) {
 	tr := TrustResolver{
-		TrustAnchors:   NewTrustAnchorsFromEntityIDs(req.TrustAnchor...),
+		TrustAnchors:   trustAnchors,
 		StartingEntity: req.Subject,
 		Types:          req.EntityTypes,
 	}
-- 
2.43.0


From e4ff2778ca9542a2c8e4ecdc9cdfd3f5a8d46c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 31/43] fix: do not change the parameters passed by the caller

---
 authcode.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/authcode.go b/authcode.go
index 85eb3db..3b96b2b 100644
--- a/authcode.go
+++ b/authcode.go
@@ -4,8 +4,10 @@ import (
 	"crypto"
 	"encoding/json"
 	"io"
+	"maps"
 	"net/http"
 	"net/url"
+	"slices"
 	"time"
 
 	"github.com/google/uuid"
@@ -74,6 +76,8 @@ func (rop RequestObjectProducer) RequestObject(requestValues map[string]any) ([]
 	if _, audFound := requestValues["aud"]; !audFound {
 		return nil, errors.New("request must contain 'aud' claim with OPs issuer identifier url")
 	}
+	// do not change the passed values
+	requestValues = maps.Clone(requestValues)
 	requestValues["iss"] = rop.EntityID
 	requestValues["client_id"] = rop.EntityID
 	delete(requestValues, "sub")
@@ -170,9 +174,10 @@ func (f FederationLeaf) CodeExchange(
 	if err != nil {
 		return nil, nil, err
 	}
-	params := additionalParameter
-	if params == nil {
-		params = url.Values{}
+	// do not change the passed parameters
+	params := url.Values{}
+	for k, v := range additionalParameter {
+		params[k] = slices.Clone(v)
 	}
 	params.Set("grant_type", "authorization_code")
 	params.Set("code", code)
-- 
2.43.0


From a128dac713a317befac55ffc7c861305f1e1a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 32/43] fix: keep the query of the authorization endpoint and
 require an endpoint

---
 authcode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index 3b96b2b..d0a091c 100644
--- a/authcode.go
+++ b/authcode.go
@@ -151,11 +151,14 @@ func (f FederationLeaf) GetAuthorizationURL(
 	if err != nil {
 		return "", errors.Wrap(err, "could not create request object")
 	}
+	if opMetadata.AuthorizationEndpoint == "" {
+		return "", errors.New("no authorization endpoint in the metadata of the OP")
+	}
 	u, err := url.Parse(opMetadata.AuthorizationEndpoint)
 	if err != nil {
 		return "", errors.WithStack(err)
 	}
-	q := url.Values{}
+	q := u.Query()
 	q.Set("request", string(requestObject))
 	q.Set("client_id", f.EntityID)
 	q.Set("response_type", "code")
-- 
2.43.0


From fe29d4152ce348597d3126db621e5ab574a52590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:01 +0000
Subject: [PATCH 33/43] fix: token requests end in time and need a successful
 response

---
 authcode.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index d0a091c..d91eded 100644
--- a/authcode.go
+++ b/authcode.go
@@ -17,6 +17,8 @@ import (
 	"github.com/go-oidfed/lib/internal/jwx"
 )
 
+var tokenRequestClient = &http.Client{Timeout: 20 * time.Second}
+
 // OIDCErrorResponse is the error response of an oidc provider
 type OIDCErrorResponse struct {
 	Error            string `json:"error"`
@@ -194,10 +196,11 @@ func (f FederationLeaf) CodeExchange(
 	params.Set("client_assertion_type", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer")
 	params.Set("client_assertion", string(clientAssertion))
 
-	res, err := http.PostForm(opMetadata.TokenEndpoint, params)
+	res, err := tokenRequestClient.PostForm(opMetadata.TokenEndpoint, params)
 	if err != nil {
 		return nil, nil, err
 	}
+	defer res.Body.Close()
 
 	body, err := io.ReadAll(res.Body)
 	if err != nil {
@@ -211,6 +214,9 @@ func (f FederationLeaf) CodeExchange(
 	if errRes.Error != "" {
 		return nil, &errRes, nil
 	}
+	if res.StatusCode < 200 || res.StatusCode > 299 {
+		return nil, nil, errors.Errorf("unexpected response from token endpoint: %s", res.Status)
+	}
 	if err = json.Unmarshal(body, &tokenRes); err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From ea4eb504833acb46d0f260f94442f3fdd2fc6241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 34/43] fix: ignore unknown policy operators when checking
 combinations

---
 metadataPolicy.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/metadataPolicy.go b/metadataPolicy.go
index 1f004b5..c4dd32d 100644
--- a/metadataPolicy.go
+++ b/metadataPolicy.go
@@ -6,8 +6,6 @@ import (
 
 	"github.com/pkg/errors"
 	"tideland.dev/go/slices"
-
-	"github.com/go-oidfed/lib/internal/utils"
 )
 
 // MetadataPolicies is a type for holding the different MetadataPolicy
@@ -236,12 +234,15 @@ func mergeMetadataPolicyEntries(a, b MetadataPolicyEntry, pathInfo string) (Meta
 
 // Verify verifies that the MetadataPolicyEntry is valid
 func (p MetadataPolicyEntry) Verify(pathInfo string) error {
-	activeOperators := utils.MapKeys(p)
-	for _, opN := range activeOperators {
-		op, ok := operators[opN]
-		if !ok {
-			continue
+	activeOperators := make([]PolicyOperatorName, 0, len(p))
+	for opN := range p {
+		// unknown operators are ignored
+		if _, ok := operators[opN]; ok {
+			activeOperators = append(activeOperators, opN)
 		}
+	}
+	for _, opN := range activeOperators {
+		op := operators[opN]
 		mayCombine := op.MayCombineWith()
 		if mayCombine == nil {
 			continue
-- 
2.43.0


From d632bb47d978c06e1db0debff2d8e0bca18c16fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:33 +0000
Subject: [PATCH 35/43] fix: do not use cache entries that are kept for too
 long

---
 trustresolver.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index ff11ed4..78957e6 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -218,12 +218,11 @@ func (r *TrustResolver) ResolveToValidChains() TrustChains {
 func (r *TrustResolver) ResolveToValidChainsWithoutVerifyingMetadata() TrustChains {
 	chains, set, err := r.cacheGetTrustChains()
 	if err != nil {
-		set = false
 		internal.Log(err.Error())
 	}
 	if set {
 		internal.Log("Obtained trust chains from cache")
-		return chains.Filter(trustChainsFilterTimeValid)
+		return chains
 	}
 	r.Resolve()
 	r.VerifySignatures()
@@ -249,8 +248,12 @@ func (r *TrustResolver) Resolve() {
 		internal.Log(err.Error())
 		r.trustTree = trustTree{}
 	} else if found {
-		internal.Log("Obtained trust tree from cache")
-		return
+		if unixtime.Until(r.trustTree.ExpiresAt) > 0 {
+			internal.Log("Obtained trust tree from cache")
+			return
+		}
+		// A slow cache might hold an entry for longer than intended
+		r.trustTree = trustTree{}
 	}
 	if r.StartingEntity == "" {
 		return
@@ -296,11 +299,10 @@ func (r *TrustResolver) VerifySignatures() {
 func (r TrustResolver) Chains() (chains TrustChains) {
 	chains, set, err := r.cacheGetTrustChains()
 	if err != nil {
-		set = false
 		internal.Log(err.Error())
 	}
 	if set {
-		return chains.Filter(trustChainsFilterTimeValid)
+		return chains
 	}
 	chains = TrustChains(r.trustTree.chains()).Filter(trustChainsFilterTimeValid)
 	if chains == nil {
@@ -326,6 +328,13 @@ func (r TrustResolver) cacheGetTrustChains() (
 	set, err = cache.Get(
 		cache.Key(cache.KeyTrustTreeChains, string(hash)), &chains,
 	)
+	if err != nil || !set {
+		return nil, false, err
+	}
+	if len(chains.Filter(trustChainsFilterTimeValid)) != len(chains) {
+		// A slow cache might hold an entry for longer than intended
+		return nil, false, nil
+	}
 	return
 }
 
@@ -613,7 +622,8 @@ func entityStmtCacheGet(subID, issID string) *EntityStatement {
 		internal.Log(err)
 		return nil
 	}
-	if !set {
+	if !set || time.Until(stmt.ExpiresAt.Time) <= 0 {
+		// A slow cache might hold an entry for longer than intended
 		return nil
 	}
 	return &stmt
-- 
2.43.0


From b8c52038b67d5beb277904961565272ba3e914d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 36/43] fix: publish configurations with the current time and
 unexpired trust marks

Obtaining trust marks takes time, but the issue time of an entity
configuration was taken before, and trust marks obtained first might be
expired when the last one is available.
---
 federation.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/federation.go b/federation.go
index b09e151..d0e1c32 100644
--- a/federation.go
+++ b/federation.go
@@ -78,10 +78,25 @@ func NewFederationLeaf(
 
 // EntityConfigurationPayload returns an EntityStatementPayload for this FederationEntity
 func (f FederationEntity) EntityConfigurationPayload() *EntityStatementPayload {
-	now := time.Now()
+	// obtaining trust marks might take some time, so this is done first
+	obtained := make(map[*EntityConfigurationTrustMarkConfig]error)
+	for _, tmc := range f.TrustMarks {
+		if !tmc.SelfIssued {
+			_, obtained[tmc] = tmc.TrustMarkJWT()
+		}
+	}
 	var tms []TrustMarkInfo
 	for _, tmc := range f.TrustMarks {
-		tm, err := tmc.TrustMarkJWT()
+		var tm string
+		err, done := obtained[tmc]
+		if !done {
+			tm, err = tmc.TrustMarkJWT()
+		} else if err == nil {
+			var remaining time.Duration
+			if tm, remaining = tmc.current(); remaining <= 0 {
+				err = errors.New("trust mark expired")
+			}
+		}
 		if err != nil {
 			internal.Log(err.Error())
 			continue
@@ -93,6 +108,7 @@ func (f FederationEntity) EntityConfigurationPayload() *EntityStatementPayload {
 			},
 		)
 	}
+	now := time.Now()
 	return &EntityStatementPayload{
 		Issuer:           f.EntityID,
 		Subject:          f.EntityID,
-- 
2.43.0


From 7b917003d980d2c81550390d579daab3bc5683c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 37/43] fix: ignore malformed Ed25519 keys when verifying
 signatures

---
 internal/jwx/jws.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 580bb27..099a2e4 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -2,6 +2,7 @@ package jwx
 
 import (
 	"crypto"
+	"crypto/ed25519"
 
 	"github.com/lestrrat-go/jwx/v3/jwa"
 	"github.com/lestrrat-go/jwx/v3/jwk"
@@ -55,7 +56,28 @@ func (p *ParsedJWT) VerifyWithSet(keys myjwk.JWKS) ([]byte, error) {
 	if keys.Set == nil || keys.Len() == 0 {
 		return nil, errors.New("jwt verify: no keys passed")
 	}
-	return jws.Verify(p.RawJWT, jws.WithKeySet(keys.Set, jws.WithInferAlgorithmFromKey(true)))
+	return jws.Verify(p.RawJWT, jws.WithKeySet(wellFormedKeys(keys.Set), jws.WithInferAlgorithmFromKey(true)))
+}
+
+// wellFormedKeys returns the keys of the set without Ed25519 public keys that do not have the
+// size of an Ed25519 public key; trying to verify a signature with such a key panics
+func wellFormedKeys(set jwk.Set) jwk.Set {
+	wellFormed := jwk.NewSet()
+	for i := 0; i < set.Len(); i++ {
+		key, ok := set.Key(i)
+		if !ok {
+			continue
+		}
+		var raw any
+		if err := jwk.Export(key, &raw); err == nil {
+			if pub, isEd25519 := raw.(ed25519.PublicKey); isEd25519 && len(pub) != ed25519.PublicKeySize {
+				continue
+			}
+		}
+		// the key was part of a set already, so it can be added
+		_ = wellFormed.AddKey(key)
+	}
+	return wellFormed
 }
 
 // VerifyType verifies that the header typ has a certain value
-- 
2.43.0


From c2f11f94f5d054fd8b363d5e9eef8c2ca4c87183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:34 +0000
Subject: [PATCH 38/43] fix: limit the size of responses

---
 authcode.go           | 6 +++++-
 internal/http/http.go | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/authcode.go b/authcode.go
index d91eded..c3e85a1 100644
--- a/authcode.go
+++ b/authcode.go
@@ -14,6 +14,7 @@ import (
 	"github.com/lestrrat-go/jwx/v3/jwa"
 	"github.com/pkg/errors"
 
+	internalhttp "github.com/go-oidfed/lib/internal/http"
 	"github.com/go-oidfed/lib/internal/jwx"
 )
 
@@ -202,10 +203,13 @@ func (f FederationLeaf) CodeExchange(
 	}
 	defer res.Body.Close()
 
-	body, err := io.ReadAll(res.Body)
+	body, err := io.ReadAll(io.LimitReader(res.Body, internalhttp.MaxResponseSize+1))
 	if err != nil {
 		return nil, nil, err
 	}
+	if len(body) > internalhttp.MaxResponseSize {
+		return nil, nil, errors.New("response from token endpoint is too large")
+	}
 	var errRes OIDCErrorResponse
 	var tokenRes OIDCTokenResponse
 	if err = json.Unmarshal(body, &errRes); err != nil {
diff --git a/internal/http/http.go b/internal/http/http.go
index 3a91804..b4c5ca4 100644
--- a/internal/http/http.go
+++ b/internal/http/http.go
@@ -9,6 +9,10 @@ import (
 	"github.com/pkg/errors"
 )
 
+// MaxResponseSize is the maximum size of a response body in bytes; larger responses are not accepted, so
+// that a server cannot exhaust the memory
+const MaxResponseSize = 64 << 20
+
 var client *resty.Client
 
 func init() {
@@ -18,6 +22,7 @@ func init() {
 	client.SetRetryCount(2)
 	client.SetRedirectPolicy(resty.FlexibleRedirectPolicy(10))
 	client.SetTimeout(20 * time.Second)
+	client.SetResponseBodyLimit(MaxResponseSize)
 }
 
 // HttpError is a type for returning the server's error response including its status code
-- 
2.43.0


From 9be9c7429b17bdd649959f4eefea8113f17ac002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 39/43] fix: memory cache reads and writes entries under a lock

---
 cache/cache.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index 773f116..9c4ccfa 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"encoding/base64"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/TwiN/gocache/v2"
@@ -22,6 +23,8 @@ type Cache interface {
 // internal cache
 type cacheWrapper struct {
 	c *gocache.Cache
+	// gocache reads an entry's value after it released its own lock
+	m *sync.Mutex
 }
 
 func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
@@ -30,13 +33,16 @@ func newCacheWrapper(defaultExpiration time.Duration) cacheWrapper {
 		log.Fatal(err) // skipcq: RVV-A0003
 	}
 	return cacheWrapper{
-		c,
+		c: c,
+		m: &sync.Mutex{},
 	}
 }
 
 // Get implements the Cache interface
 func (c cacheWrapper) Get(key string, target any) (bool, error) {
+	c.m.Lock()
 	entryV, ok := c.c.Get(key)
+	c.m.Unlock()
 	if !ok {
 		return false, nil
 	}
@@ -54,7 +60,9 @@ func (c cacheWrapper) Set(key string, value any, expiration time.Duration) error
 	if err != nil {
 		return err
 	}
+	c.m.Lock()
 	c.c.SetWithTTL(key, data, expiration)
+	c.m.Unlock()
 	return nil
 }
 
-- 
2.43.0


From 70520410ae3c578d16153375611a724c8c79017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 40/43] fix: accept JWTs in compact serialization only

---
 internal/jwx/jws.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/jwx/jws.go b/internal/jwx/jws.go
index 099a2e4..2572747 100644
--- a/internal/jwx/jws.go
+++ b/internal/jwx/jws.go
@@ -39,9 +39,9 @@ func (p *ParsedJWT) UnmarshalMsgpack(data []byte) error {
 	return nil
 }
 
-// Parse parses a jwt and returns a ParsedJWT
+// Parse parses a jwt and returns a ParsedJWT; a jwt always is a JWS in compact serialization
 func Parse(data []byte) (*ParsedJWT, error) {
-	m, err := jws.Parse(data)
+	m, err := jws.Parse(data, jws.WithCompact())
 	return &ParsedJWT{
 		RawJWT:  data,
 		Message: m,
-- 
2.43.0


From 7bd5ac2cb5ac66c7bdf90b2eae48486f67a0ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:21 +0000
Subject: [PATCH 41/43] fix: do not mix the trust trees of successive
 resolutions with the same TrustResolver

---
 trustresolver.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/trustresolver.go b/trustresolver.go
index 78957e6..e237375 100644
--- a/trustresolver.go
+++ b/trustresolver.go
@@ -244,9 +244,9 @@ var trustChainsFilterTimeValid = NewTrustChainsFilterFromCheckerFnc(
 
 // Resolve starts the trust chain resolution process, building an internal trust tree
 func (r *TrustResolver) Resolve() {
+	r.trustTree = trustTree{}
 	if found, err := r.cacheGetTrustTree(); err != nil {
 		internal.Log(err.Error())
-		r.trustTree = trustTree{}
 	} else if found {
 		if unixtime.Until(r.trustTree.ExpiresAt) > 0 {
 			internal.Log("Obtained trust tree from cache")
@@ -360,10 +360,16 @@ func (r *TrustResolver) cacheGetTrustTree() (
 	if err != nil {
 		return false, err
 	}
+	// Decode into a fresh value, not into what might be left of a previous resolution
+	var tree trustTree
 	set, err = cache.Get(
-		cache.Key(cache.KeyTrustTree, string(hash)), &r.trustTree,
+		cache.Key(cache.KeyTrustTree, string(hash)), &tree,
 	)
-	return
+	if err != nil || !set {
+		return false, err
+	}
+	r.trustTree = tree
+	return true, nil
 }
 func (r TrustResolver) cacheSetTrustTree() error {
 	if r.trustTree.incomplete {
-- 
2.43.0


From 7f3d645643d68059a3da5c515d0dd660e6ebeac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:58 +0000
Subject: [PATCH 42/43] fix: do not resolve trust mark issuers endlessly with
 the smart remote resolver

Verifying a trust mark resolves its issuer; with SmartRemoteMetadataResolver as
the DefaultMetadataResolver this verified the trust marks of the issuer as well
if no resolve endpoint gave an answer, and for an issuer that has a trust mark
issued by itself this never ended.
---
 discovery.go         |  2 +-
 metadata_resolver.go | 32 +++++++++++++++++++++++++++++---
 trustmark.go         |  2 +-
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/discovery.go b/discovery.go
index 39c6e15..c23da4c 100644
--- a/discovery.go
+++ b/discovery.go
@@ -407,7 +407,7 @@ func (d *SimpleEntityCollector) collect(
 									}
 									var res ResolveResponsePayload
 									switch resolver := DefaultMetadataResolver.(type) {
-									case LocalMetadataResolver:
+									case noTrustMarksResolver:
 										res, _, err = resolver.resolveResponsePayloadWithoutTrustMarks(resolveRequest)
 									default:
 										res, err = DefaultMetadataResolver.ResolveResponsePayload(resolveRequest)
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 65fbd3f..49f36f3 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -22,6 +22,14 @@ type MetadataResolver interface {
 	ResolvePossible(request apimodel.ResolveRequest) (validConfirmed, invalidConfirmed bool)
 }
 
+// noTrustMarksResolver is implemented by MetadataResolvers that can leave out the verification of the subject's
+// trust marks. This verification itself resolves the trust mark issuers, so it must not be part of that.
+type noTrustMarksResolver interface {
+	resolveResponsePayloadWithoutTrustMarks(request apimodel.ResolveRequest) (
+		ResolveResponsePayload, TrustChain, error,
+	)
+}
+
 // DefaultMetadataResolver is the default MetadataResolver used within the
 // library to resolve Metadata
 var DefaultMetadataResolver MetadataResolver = LocalMetadataResolver{}
@@ -233,8 +241,26 @@ func (r SmartRemoteMetadataResolver) Resolve(req apimodel.ResolveRequest) (*Meta
 }
 
 // ResolveResponsePayload implements the MetadataResolver interface
-func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (
+func (r SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRequest) (
 	ResolveResponsePayload, error,
+) {
+	if res, ok := r.remoteResolveResponsePayload(req); ok {
+		return res, nil
+	}
+	return LocalMetadataResolver{}.ResolveResponsePayload(req)
+}
+
+func (r SmartRemoteMetadataResolver) resolveResponsePayloadWithoutTrustMarks(req apimodel.ResolveRequest) (
+	ResolveResponsePayload, TrustChain, error,
+) {
+	if res, ok := r.remoteResolveResponsePayload(req); ok {
+		return res, nil, nil
+	}
+	return LocalMetadataResolver{}.resolveResponsePayloadWithoutTrustMarks(req)
+}
+
+func (SmartRemoteMetadataResolver) remoteResolveResponsePayload(req apimodel.ResolveRequest) (
+	res ResolveResponsePayload, ok bool,
 ) {
 	for _, tr := range req.TrustAnchor {
 		entityConfig, err := getUsableEntityConfiguration(tr)
@@ -257,9 +283,9 @@ func (SmartRemoteMetadataResolver) ResolveResponsePayload(req apimodel.ResolveRe
 			internal.Logf("error while obtaining resolve response: %v", err)
 			continue
 		}
-		return res, nil
+		return res, true
 	}
-	return LocalMetadataResolver{}.ResolveResponsePayload(req)
+	return
 }
 
 // ResolvePossible implements the MetadataResolver interface
diff --git a/trustmark.go b/trustmark.go
index 335f914..4a45b88 100644
--- a/trustmark.go
+++ b/trustmark.go
@@ -247,7 +247,7 @@ func getTrustMarkIssuerJWKS(
 	}
 	var res ResolveResponsePayload
 	switch resolver := DefaultMetadataResolver.(type) {
-	case LocalMetadataResolver:
+	case noTrustMarksResolver:
 		res, _, err = resolver.resolveResponsePayloadWithoutTrustMarks(resolveRequest)
 	default:
 		res, err = DefaultMetadataResolver.ResolveResponsePayload(resolveRequest)
-- 
2.43.0


From 9bcc4f16ef9fe7405ae306a4d0235eaeb1c2182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:57 +0000
Subject: [PATCH 43/43] fix: use the keys of a leaf's trust anchors with the
 smart remote resolver, too

If no resolve endpoint gave an answer, ResolveOPMetadata resolved the provider
locally without the keys set for the trust anchors.
---
 federation.go        |  2 +-
 metadata_resolver.go | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/federation.go b/federation.go
index d0e1c32..e30cbaf 100644
--- a/federation.go
+++ b/federation.go
@@ -157,7 +157,7 @@ func (f FederationLeaf) ResolveOPMetadata(issuer string) (*OpenIDProviderMetadat
 		EntityTypes: []string{"openid_provider"},
 	}
 	var metadata *Metadata
-	if resolver, local := DefaultMetadataResolver.(LocalMetadataResolver); local {
+	if resolver, ok := DefaultMetadataResolver.(trustAnchorsResolver); ok {
 		// the request does not hold the keys of our trust anchors
 		var res ResolveResponsePayload
 		res, _, err = resolver.resolveWithTrustAnchors(req, f.TrustAnchors)
diff --git a/metadata_resolver.go b/metadata_resolver.go
index 49f36f3..aa4b7d6 100644
--- a/metadata_resolver.go
+++ b/metadata_resolver.go
@@ -30,6 +30,13 @@ type noTrustMarksResolver interface {
 	)
 }
 
+// trustAnchorsResolver is implemented by MetadataResolvers that can resolve a request to TrustAnchors with certain keys
+type trustAnchorsResolver interface {
+	resolveWithTrustAnchors(request apimodel.ResolveRequest, trustAnchors TrustAnchors) (
+		ResolveResponsePayload, TrustChain, error,
+	)
+}
+
 // DefaultMetadataResolver is the default MetadataResolver used within the
 // library to resolve Metadata
 var DefaultMetadataResolver MetadataResolver = LocalMetadataResolver{}
@@ -259,6 +266,16 @@ func (r SmartRemoteMetadataResolver) resolveResponsePayloadWithoutTrustMarks(req
 	return LocalMetadataResolver{}.resolveResponsePayloadWithoutTrustMarks(req)
 }
 
+// resolveWithTrustAnchors resolves the request; the keys of the passed TrustAnchors are used for local resolution
+func (r SmartRemoteMetadataResolver) resolveWithTrustAnchors(req apimodel.ResolveRequest, trustAnchors TrustAnchors) (
+	ResolveResponsePayload, TrustChain, error,
+) {
+	if res, ok := r.remoteResolveResponsePayload(req); ok {
+		return res, nil, nil
+	}
+	return LocalMetadataResolver{}.resolveWithTrustAnchors(req, trustAnchors)
+}
+
 func (SmartRemoteMetadataResolver) remoteResolveResponsePayload(req apimodel.ResolveRequest) (
 	res ResolveResponsePayload, ok bool,
 ) {
-- 
2.43.0

