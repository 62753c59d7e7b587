From 58661dd5ce2a532bafbc53ff9237dfba086918fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:38 +0000
Subject: [PATCH 01/48] fix: inclusion proof for an unknown leaf hash is a
 not-found error

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index abb7716..5d42382 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -74,6 +74,9 @@ func (s *localServiceImpl) LogInclusionProof(ctx context.Context, req *pb.LogInc
 		} else {
 			// Then we must fetch the index
 			ei, err := lookupIndexByLeafHash(ctx, kr, req.Log.LogType, req.MtlHash)
+			if err == ErrNoSuchKey {
+				return status.Errorf(codes.NotFound, "cannot find it")
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From c7bd9b686510416cf2976fd15c333e7dd485b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 02/48] fix: reject inclusion proofs whose audit path is too
 long

---
 verifiable/service_log_inclusion_proof.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verifiable/service_log_inclusion_proof.go b/verifiable/service_log_inclusion_proof.go
index 5d42382..2151ed2 100644
--- a/verifiable/service_log_inclusion_proof.go
+++ b/verifiable/service_log_inclusion_proof.go
@@ -145,6 +145,9 @@ func VerifyLogInclusionProof(self *pb.LogInclusionProofResponse, leafHash []byte
 	fn, sn := self.LeafIndex, self.TreeSize-1
 	r := leafHash
 	for _, p := range self.AuditPath {
+		if sn == 0 {
+			return ErrVerificationFailed
+		}
 		if (fn == sn) || ((fn & 1) == 1) {
 			r = merkle.NodeHash(p, r)
 			for !((fn == 0) || ((fn & 1) == 1)) {
-- 
2.43.0


From 7acd3fa8845c26357aa7db7e2c024942395a9cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 03/48] fix: CalcK must terminate for sizes above 2^62

---
 merkle/util_merkle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merkle/util_merkle.go b/merkle/util_merkle.go
index 90e91bc..5a01e15 100644
--- a/merkle/util_merkle.go
+++ b/merkle/util_merkle.go
@@ -75,7 +75,7 @@ func IsPow2(n int64) bool {
 // CalcK returns the largest value that is a power of 2, less than n
 func CalcK(n int64) int64 {
 	k := int64(1)
-	for (k << 1) < n {
+	for k < n-k { // ie (k << 1) < n, without overflow
 		k <<= 1
 	}
 	return k
-- 
2.43.0


From e2872539be7ba9acc7eedf6cfca430f74e189fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 04/48] fix: reject map inclusion proofs that do not have one
 element per bit

---
 verifiable/service_map_get_value.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_map_get_value.go b/verifiable/service_map_get_value.go
index 7a6c64c..818d6af 100644
--- a/verifiable/service_map_get_value.go
+++ b/verifiable/service_map_get_value.go
@@ -150,11 +150,14 @@ var (
 
 // VerifyMapInclusionProof verifies an inclusion proof against a MapTreeHead
 func VerifyMapInclusionProof(self *pb.MapGetValueResponse, key []byte, head *pb.MapTreeHashResponse) error {
-	if self.TreeSize != head.MutationLog.TreeSize {
+	if self.TreeSize != head.GetMutationLog().GetTreeSize() {
 		return ErrVerificationFailed
 	}
 
 	kp := merkle.ConstructMapKeyPath(key)
+	if len(self.AuditPath) != len(kp) {
+		return ErrVerificationFailed
+	}
 	t := merkle.LeafHash(self.Value.GetLeafInput())
 	for i := len(kp) - 1; i >= 0; i-- {
 		p := self.AuditPath[i]
-- 
2.43.0


From b6adcc7e041e214569c2ecd607008bb9e7dfb2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 05/48] fix: VerifyEntries must not panic on a short proof from
 the log

---
 verifiable/api_highlevel_log.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index aa791e0..a5f59a2 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -18,6 +18,7 @@ package verifiable
 
 import (
 	"bytes"
+	"math/bits"
 	"time"
 
 	"github.com/continusec/verifiabledatastructures/merkle"
@@ -206,6 +207,11 @@ func (log *Log) VerifyEntries(ctx context.Context, prev *pb.LogTreeHashResponse,
 		if err != nil {
 			return err
 		}
+		// The path of the first new entry is the roots of the perfect subtrees that make
+		// up the previous tree, one per bit set in its size.
+		if len(p.AuditPath) != bits.OnesCount64(uint64(prev.TreeSize)) {
+			return ErrVerificationFailed
+		}
 		var firstHash []byte
 		for _, b := range p.AuditPath {
 			if firstHash == nil {
-- 
2.43.0


From 33deadc677c98a35fd8270798178b5c8bf1b368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 06/48] fix: auditing a map must not panic on malformed log
 entries

---
 verifiable/api_highlevel_map.go | 6 +++---
 verifiable/util_map_audit.go    | 9 +++++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index ed1db5f..bd53cc8 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -51,11 +51,11 @@ func (vmap *Map) BlockUntilSize(ctx context.Context, treeSize int64) (*pb.MapTre
 		if err != nil {
 			return nil, err
 		}
-		if lth.MutationLog.TreeSize >= treeSize {
+		if lth.GetMutationLog().GetTreeSize() >= treeSize {
 			return lth, nil
 		}
-		if lth.MutationLog.TreeSize > lastHead {
-			lastHead = lth.MutationLog.TreeSize
+		if lth.GetMutationLog().GetTreeSize() > lastHead {
+			lastHead = lth.GetMutationLog().GetTreeSize()
 			// since we got a new tree head, reset sleep time
 			timeToSleep = time.Second
 		} else {
diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index ab8f4bc..77cdb26 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -154,12 +154,12 @@ func addMutationToTree(root *mapAuditNode, mut *pb.MapMutation) ([]byte, error)
 
 	switch mut.Action {
 	case "set":
-		head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+		head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 	case "delete":
 		head.LeafHash = defaultLeafValues[256]
 	case "update":
 		if bytes.Equal(head.LeafHash, mut.PreviousLeafHash) {
-			head.LeafHash = merkle.LeafHash(mut.Value.LeafInput)
+			head.LeafHash = merkle.LeafHash(mut.Value.GetLeafInput())
 		}
 	default:
 		return nil, ErrVerificationFailed
@@ -305,6 +305,11 @@ func (a *auditState) CheckTreeHeadEntry(ctx context.Context, idx int64, entry *p
 		return err
 	}
 
+	// A tree head log entry is only ever produced by a mutation
+	if mth.GetMutationLog().GetTreeSize() < 1 {
+		return ErrVerificationFailed
+	}
+
 	// Advance the state of the auditor to at least this size
 	err = a.ProcessUntilAtLeast(ctx, mth.MutationLog.TreeSize)
 	if err != nil {
-- 
2.43.0


From e46d4ef2ff23e85ff3aa9844e38689e0596942f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 07/48] fix: validating a mutation that is JSON null must fail,
 not panic

---
 verifiable/util_json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 8f325ca..41078f0 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -184,7 +184,7 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	var o *pb.MapMutation
 	err := json.Unmarshal(entry.ExtraData, &o)
-	if err != nil {
+	if err != nil || o == nil { // o is nil if the JSON is "null"
 		return ErrVerificationFailed
 	}
 	if o.Value != nil {
-- 
2.43.0


From 492961f5afc6015dbb22451c9086e0d9c1bd4cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 08/48] fix: map auditor must compare each mutation with the
 root just before it

---
 verifiable/util_map_audit.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index 77cdb26..d7270fd 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -265,7 +265,6 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				if err != nil {
 					return err
 				}
-				return nil
 			}
 
 			// Save for next time
-- 
2.43.0


From 6cc13da339a8604190be4d3cfc4869a491fb1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 09/48] fix: map auditor must not check the missing value of a
 delete

---
 verifiable/util_map_audit.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/util_map_audit.go b/verifiable/util_map_audit.go
index d7270fd..b3d6642 100644
--- a/verifiable/util_map_audit.go
+++ b/verifiable/util_map_audit.go
@@ -225,7 +225,8 @@ func (a *auditState) ProcessUntilAtLeast(ctx context.Context, size int64) error
 				return err
 			}
 
-			if a.LeafDataAuditFunction != nil {
+			// There is no value to check for a delete
+			if a.LeafDataAuditFunction != nil && mutation.Value != nil {
 				err = a.LeafDataAuditFunction(ctx, mutation.Value)
 				if err != nil {
 					return err
-- 
2.43.0


From 189498a5de038616f309cd2e05d7c8d116be1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 10/48] fix: batch mutator must not lose a mutation for another
 log or map

---
 mutator/batch/mutator_batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index e1ba19f..d82938f 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -121,7 +121,7 @@ func (bm *batchMutatorImpl) handleBatch(ctx context.Context, kw verifiable.KeyWr
 	cnt := bm.Conf.BatchSize
 	for {
 		if !bytes.Equal(seed.ns, obj.ns) {
-			return curSize, seed, nil
+			return curSize, obj, nil
 		}
 		curSize, err = verifiable.ApplyMutation(ctx, kw, curSize, obj.mut)
 		if err != nil {
-- 
2.43.0


From 251c1503317b73dc4c6c954c64c38486a95d39c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 11/48] fix: field filtering must handle absent and deleted
 values

---
 verifiable/util_permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 2b89308..55c7ee5 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -75,6 +75,10 @@ func filterLeafData(ld *pb.LeafData, am *AccessModifier) (*pb.LeafData, error) {
 	if am.FieldFilter == AllFields {
 		return ld, nil
 	}
+	// There is nothing to filter if there is no data, such as for an absent or deleted key
+	if len(ld.GetLeafInput()) == 0 && len(ld.GetExtraData()) == 0 {
+		return ld, nil
+	}
 	// Largely just for show, but saves us working on the wrong data type
 	switch ld.Format {
 	case pb.DataFormat_JSON:
-- 
2.43.0


From 7b52f58825b3bd633567ec07d70e656135a9b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 12/48] fix: badger storage must report errors other than a
 missing key

---
 storage/badger/storage_badger.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 0e2a117..8ac55d3 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -129,9 +129,12 @@ type badgerReaderWriter struct {
 
 func (db *badgerReaderWriter) Get(ctx context.Context, key []byte, value proto.Message) error {
 	item, err := db.Tx.Get(key)
-	if err != nil {
+	if err == badger.ErrKeyNotFound {
 		return verifiable.ErrNoSuchKey
 	}
+	if err != nil {
+		return err
+	}
 	return item.Value(func(bb []byte) error {
 		return proto.Unmarshal(bb, value)
 	})
-- 
2.43.0


From 80490cad7de2b70ac05da4fbe771e7f36885f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 13/48] fix: REST client must not panic on a negative proof
 index

---
 server/httprest/client_http_rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index dbc848e..5427b01 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -283,7 +283,7 @@ func parseHeadersForProof(headers http.Header) ([][]byte, error) {
 					if err != nil {
 						return nil, err
 					}
-					if idx < 256 {
+					if idx >= 0 && idx < 256 {
 						prv[idx] = bs
 					}
 				}
-- 
2.43.0


From 8e103cecb2404f314e8cde29d115b281a7e64d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 14/48] fix: MapTreeHash must return its errors, and succeed
 for an empty map

---
 verifiable/service_map_tree_hash.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index f3df948..b2c76ff 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -56,6 +56,15 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 			return status.Errorf(codes.InvalidArgument, "bad tree size")
 		}
 
+		// An empty map is valid, and has no mutations yet
+		if treeSize == 0 {
+			rv = &pb.MapTreeHashResponse{
+				RootHash:    defaultLeafValues[0],
+				MutationLog: th,
+			}
+			return nil
+		}
+
 		// Need this for response
 		mutHead, err := lookupLogRootHashBySize(ctx, kr, pb.LogType_STRUCT_TYPE_MUTATION_LOG, treeSize)
 		if err != nil {
@@ -87,6 +96,7 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		if !ok {
 			err = status.Errorf(codes.Internal, "unknown err: %s", err)
 		}
+		return nil, err
 	}
 
 	return rv, nil
-- 
2.43.0


From 968127d5da3d6ab2a00461dcc301129499706e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 15/48] fix: reject malformed requests instead of panicking

---
 verifiable/service_log_add_entry.go |  4 ++++
 verifiable/service_map_set_value.go | 11 +++++++++++
 verifiable/util_permissions.go      |  8 +++++++-
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index e91ffaf..1242f69 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -37,6 +37,10 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "wrong log type")
 	}
 
+	if req.Value == nil {
+		return nil, status.Errorf(codes.InvalidArgument, "missing value")
+	}
+
 	ns, err := logBucket(req.Log)
 	if err != nil {
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index 81ed69d..b5e9a9e 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -51,6 +51,17 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.PermissionDenied, "no access: %s", err)
 	}
 
+	switch req.GetMutation().GetAction() {
+	case "set", "update":
+		if req.Mutation.Value == nil {
+			return nil, status.Errorf(codes.InvalidArgument, "missing value")
+		}
+	case "delete":
+		// no value needed
+	default:
+		return nil, status.Errorf(codes.InvalidArgument, "unknown action")
+	}
+
 	// Since this whacks in timestamp (deliberately, so that mutation log receives unique mutations),
 	// we must keep this rather than regenerate another object.
 	mm, err := makeJSONMutationEntry(req)
diff --git a/verifiable/util_permissions.go b/verifiable/util_permissions.go
index 55c7ee5..967cb8d 100644
--- a/verifiable/util_permissions.go
+++ b/verifiable/util_permissions.go
@@ -55,15 +55,21 @@ var (
 )
 
 func (s *localServiceImpl) verifyAccessForMap(ctx context.Context, vmap *pb.MapRef, perm pb.Permission) (*AccessModifier, error) {
+	if vmap.GetAccount() == nil {
+		return nil, ErrInvalidRequest
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, vmap.Account.Id, vmap.Account.ApiKey, vmap.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLog(ctx context.Context, log *pb.LogRef, perm pb.Permission) (*AccessModifier, error) {
+	if log.GetAccount() == nil {
+		return nil, ErrInvalidRequest
+	}
 	return s.AccessPolicy.VerifyAllowed(ctx, log.Account.Id, log.Account.ApiKey, log.Name, perm)
 }
 
 func (s *localServiceImpl) verifyAccessForLogOperation(ctx context.Context, log *pb.LogRef, op int) (*AccessModifier, error) {
-	perm, ok := operationForLogType[log.LogType][op]
+	perm, ok := operationForLogType[log.GetLogType()][op]
 	if !ok {
 		return nil, ErrNotAuthorized
 	}
-- 
2.43.0


From 0cb8d9f3d8adb068ad6be85d062f3a475a4fd2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 16/48] fix: mutations sent to a read-only service must fail,
 not panic

---
 verifiable/service_log_add_entry.go | 4 ++++
 verifiable/service_map_set_value.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/verifiable/service_log_add_entry.go b/verifiable/service_log_add_entry.go
index 1242f69..dbff9a3 100644
--- a/verifiable/service_log_add_entry.go
+++ b/verifiable/service_log_add_entry.go
@@ -46,6 +46,10 @@ func (s *localServiceImpl) LogAddEntry(ctx context.Context, req *pb.LogAddEntryR
 		return nil, status.Errorf(codes.InvalidArgument, "extra getting bucket: %s", err)
 	}
 
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is read-only")
+	}
+
 	err = s.Mutator.QueueMutation(ctx, ns, &pb.Mutation{
 		LogAddEntry: req,
 	})
diff --git a/verifiable/service_map_set_value.go b/verifiable/service_map_set_value.go
index b5e9a9e..1505945 100644
--- a/verifiable/service_map_set_value.go
+++ b/verifiable/service_map_set_value.go
@@ -79,6 +79,10 @@ func (s *localServiceImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueR
 		return nil, status.Errorf(codes.Internal, "unknown err: %s", err)
 	}
 
+	if s.Mutator == nil {
+		return nil, status.Errorf(codes.FailedPrecondition, "service is read-only")
+	}
+
 	err = s.Mutator.QueueMutation(ctx, ns, &pb.Mutation{
 		LogAddEntry: &pb.LogAddEntryRequest{
 			Log: &pb.LogRef{
-- 
2.43.0


From 894a45f77b5a2bcfad7f882145511db8e65fdaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 17/48] fix: REST update with an empty previous leaf hash must
 not become an unconditional set

---
 server/httprest/server_http_handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index fc8ef01..70b565e 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -664,7 +664,8 @@ func (as *apiServer) setMapEntry(vmap *pb.MapRef, key []byte, ef int, vars map[s
 		return
 	}
 
-	if len(prevLeafHash) == 0 {
+	// An update may be conditional on an empty hash, so the presence of the header decides
+	if len(r.Header.Values("X-Previous-LeafHash")) == 0 {
 		as.queueMapMutation(vmap, &pb.MapMutation{
 			Action: "set",
 			Key:    key,
-- 
2.43.0


From a0ee168547137efb98c9b582e659c4d4c383f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 18/48] fix: map values must not overwrite the data of mutation
 log entries

---
 verifiable/insertion_map.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verifiable/insertion_map.go b/verifiable/insertion_map.go
index ca6fe20..e680b24 100644
--- a/verifiable/insertion_map.go
+++ b/verifiable/insertion_map.go
@@ -154,7 +154,11 @@ func setMapValue(ctx context.Context, db KeyWriter, vmap *pb.MapRef, mutationInd
 
 	// Time to start writing our data
 	if !bytes.Equal(nextLeafHash, nullLeafHash) {
-		err = writeDataByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash, mut.Value)
+		// Values share a bucket with the mutation log entries, which must never be overwritten
+		_, err = lookupIndexByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash)
+		if err == ErrNoSuchKey {
+			err = writeDataByLeafHash(ctx, db, pb.LogType_STRUCT_TYPE_MUTATION_LOG, nextLeafHash, mut.Value)
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 1da1701b9ee8560c73570a22660927324b6b78db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 19/48] fix: postgres storage must not interleave transactions
 on its one connection

---
 storage/postgres/storage-postgres.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 908a9a1..7b93b77 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -18,6 +18,9 @@ import (
 type Storage struct {
 	Pool *pgxpool.Conn
 
+	// The connection can only run one transaction at a time
+	txMutex sync.Mutex
+
 	knownTableMutex sync.RWMutex
 	knownTables     map[string]string
 }
@@ -112,6 +115,9 @@ func (pgs *Storage) getOrCreateNS(ctx context.Context, namespace []byte) (string
 // ExecuteReadOnly executes a read only query. Note this will have the side-effect of
 // creating a table for this namespace, if it doesn't already exist.
 func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyReader) error) error {
+	pgs.txMutex.Lock()
+	defer pgs.txMutex.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
@@ -132,6 +138,9 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 // ExecuteUpdate executes an update query. Only one of these can execute per-namespace
 // at once, and this is enforced by a full table lock.
 func (pgs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(ctx context.Context, db verifiable.KeyWriter) error) error {
+	pgs.txMutex.Lock()
+	defer pgs.txMutex.Unlock()
+
 	tableName, err := pgs.getOrCreateNS(ctx, namespace)
 	if err != nil {
 		return err
-- 
2.43.0


From 800315cd32e377b6f11279c7da38f01a6b494193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 20/48] fix: VerifiedMapState must verify inclusion of the leaf
 hash, not of the leaf input

---
 verifiable/api_highlevel_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/api_highlevel_map.go b/verifiable/api_highlevel_map.go
index bd53cc8..73abef5 100644
--- a/verifiable/api_highlevel_map.go
+++ b/verifiable/api_highlevel_map.go
@@ -136,7 +136,7 @@ func (vmap *Map) VerifiedMapState(ctx context.Context, prev *MapTreeState, treeS
 		if err != nil {
 			return nil, err
 		}
-		err = vmap.TreeHeadLog().VerifyInclusion(ctx, prevThlth, lh.LeafInput)
+		err = vmap.TreeHeadLog().VerifyInclusion(ctx, prevThlth, merkle.LeafHash(lh.LeafInput))
 		if err == nil {
 			verifiedInTreeHeadLog = true
 			thlth = prevThlth
-- 
2.43.0


From 8a3b91fc28366c3408ab31ef5b0b9104d3a8b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:16 +0000
Subject: [PATCH 21/48] fix: validating a null log entry must fail, not panic

---
 verifiable/util_json.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index 41078f0..c74c7d2 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -116,7 +116,7 @@ func CreateJSONLeafDataFromObject(o interface{}) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
 	var o interface{}
-	err := json.Unmarshal(entry.ExtraData, &o)
+	err := json.Unmarshal(entry.GetExtraData(), &o)
 	if err != nil {
 		return ErrVerificationFailed
 	}
@@ -124,7 +124,7 @@ func ValidateJSONLeafData(ctx context.Context, entry *pb.LeafData) error {
 	if err != nil {
 		return ErrVerificationFailed
 	}
-	if !bytes.Equal(entry.LeafInput, h) {
+	if !bytes.Equal(entry.GetLeafInput(), h) {
 		return ErrVerificationFailed
 	}
 	return nil
@@ -183,7 +183,7 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 // It ignores the format field.
 func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	var o *pb.MapMutation
-	err := json.Unmarshal(entry.ExtraData, &o)
+	err := json.Unmarshal(entry.GetExtraData(), &o)
 	if err != nil || o == nil { // o is nil if the JSON is "null"
 		return ErrVerificationFailed
 	}
@@ -206,7 +206,7 @@ func ValidateJSONLeafDataFromMutation(entry *pb.LeafData) error {
 	if err != nil {
 		return ErrVerificationFailed
 	}
-	if !bytes.Equal(entry.LeafInput, h) {
+	if !bytes.Equal(entry.GetLeafInput(), h) {
 		return ErrVerificationFailed
 	}
 
-- 
2.43.0


From 11a6ca7c11ef43c13cd8d9c1753060e0c1c60aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:57 +0000
Subject: [PATCH 22/48] fix: badger storage must run updates of a namespace one
 at a time

---
 storage/badger/storage_badger.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index 8ac55d3..e9a5206 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -36,7 +36,16 @@ type Storage struct {
 	Path string
 
 	dbLock sync.RWMutex
-	dbs    map[string]*badger.DB
+	dbs    map[string]*namespaceDB
+}
+
+// namespaceDB is the database for one namespace
+type namespaceDB struct {
+	*badger.DB
+
+	// Updates must be sequential. Badger lets them run concurrently and then
+	// fails all but one of those that conflict.
+	updateLock sync.Mutex
 }
 
 // Close calls the underlying Close method on the BoltDBs which releases file locks.
@@ -51,7 +60,7 @@ func (bbs *Storage) Close() {
 }
 
 // Returns nil if not found
-func (bbs *Storage) getDB(key string) *badger.DB {
+func (bbs *Storage) getDB(key string) *namespaceDB {
 	bbs.dbLock.RLock()
 	defer bbs.dbLock.RUnlock()
 
@@ -68,7 +77,7 @@ func (bbs *Storage) getDB(key string) *badger.DB {
 }
 
 // getOrCreateDB gets and/or creates DB
-func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
+func (bbs *Storage) getOrCreateDB(ns []byte) (*namespaceDB, error) {
 	key := hex.EncodeToString(ns)
 
 	// First try with simple read lock
@@ -82,7 +91,7 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
 	defer bbs.dbLock.Unlock()
 
 	if bbs.dbs == nil {
-		bbs.dbs = make(map[string]*badger.DB)
+		bbs.dbs = make(map[string]*namespaceDB)
 	}
 
 	// Check again, as may have been added since last
@@ -96,9 +105,10 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*badger.DB, error) {
 	if err != nil {
 		return nil, err
 	}
-	bbs.dbs[key] = db
+	rv = &namespaceDB{DB: db}
+	bbs.dbs[key] = rv
 
-	return db, nil
+	return rv, nil
 }
 
 // ExecuteReadOnly executes a read only query
@@ -118,6 +128,9 @@ func (bbs *Storage) ExecuteUpdate(ctx context.Context, namespace []byte, f func(
 	if err != nil {
 		return err
 	}
+	db.updateLock.Lock()
+	defer db.updateLock.Unlock()
+
 	return db.Update(func(tx *badger.Txn) error {
 		return f(ctx, &badgerReaderWriter{Tx: tx})
 	})
-- 
2.43.0


From 18ce527a03d9bae318fb7abc57c3afca72046f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:48 +0000
Subject: [PATCH 23/48] fix: postgres reads in one transaction must see one
 snapshot

---
 storage/postgres/storage-postgres.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storage/postgres/storage-postgres.go b/storage/postgres/storage-postgres.go
index 7b93b77..0b3feec 100644
--- a/storage/postgres/storage-postgres.go
+++ b/storage/postgres/storage-postgres.go
@@ -123,7 +123,11 @@ func (pgs *Storage) ExecuteReadOnly(ctx context.Context, namespace []byte, f fun
 		return err
 	}
 
-	tx, err := pgs.Pool.Begin(ctx)
+	// All reads must be of the same snapshot, as others may commit in between
+	tx, err := pgs.Pool.BeginTx(ctx, pgx.TxOptions{
+		IsoLevel:   pgx.RepeatableRead,
+		AccessMode: pgx.ReadOnly,
+	})
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1d01844319129b55f2d1f0558e5b87d16ef473fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:05 +0000
Subject: [PATCH 24/48] fix: batch mutator must not keep the caller's request

---
 mutator/batch/mutator_batch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mutator/batch/mutator_batch.go b/mutator/batch/mutator_batch.go
index d82938f..20c156f 100644
--- a/mutator/batch/mutator_batch.go
+++ b/mutator/batch/mutator_batch.go
@@ -200,6 +200,7 @@ func (bm *batchMutatorImpl) consume() {
 
 // QueueMutation applies the mutation, normally asynchronously, but synchronously for the InstantMutator
 func (bm *batchMutatorImpl) QueueMutation(ctx context.Context, ns []byte, mut *pb.Mutation) error {
-	bm.Ch <- &chObject{ns: ns, mut: mut}
+	// It is applied after we return, when the caller may have reused it
+	bm.Ch <- &chObject{ns: ns, mut: proto.Clone(mut).(*pb.Mutation)}
 	return nil
 }
-- 
2.43.0


From aad9cce2ccffd80c1c58697ba2a72273a0b2ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:32 +0000
Subject: [PATCH 25/48] fix: badger storage must open again after a crash in
 mid-write

A crash while the value log is being written can leave an incomplete entry,
which was not acknowledged. Without the Truncate option Badger then refuses to
open the database ever again.
---
 storage/badger/storage_badger.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/storage/badger/storage_badger.go b/storage/badger/storage_badger.go
index e9a5206..41b29c0 100644
--- a/storage/badger/storage_badger.go
+++ b/storage/badger/storage_badger.go
@@ -100,8 +100,10 @@ func (bbs *Storage) getOrCreateDB(ns []byte) (*namespaceDB, error) {
 		return rv, nil
 	}
 
-	// Get or create on disk
-	db, err := badger.Open(badger.DefaultOptions(filepath.Join(bbs.Path, key)))
+	// Get or create on disk. A crash can leave an incomplete write at the end of the
+	// value log, which was not acknowledged: without Truncate the database could not
+	// be opened again.
+	db, err := badger.Open(badger.DefaultOptions(filepath.Join(bbs.Path, key)).WithTruncate(true))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fe928d7e2d9662bc5d2d4e4db379404b685151ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 26/48] fix: REST client must reject names that URLs cannot
 express

---
 server/httprest/client_http_rest.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index 5427b01..e5aa886 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -24,6 +24,7 @@ import (
 	"io"
 	"log"
 	"net/http"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -66,7 +67,24 @@ func (c *Client) MustDial() pb.VerifiableDataStructuresServiceServer {
 
 type httpRestImpl Client
 
+// The server's URLs can express these only, anything else may well be another object's URL
+var (
+	accountPattern = regexp.MustCompile("^[0-9]+$")
+	namePattern    = regexp.MustCompile("^[0-9a-z-_]+$")
+)
+
+func checkExpressible(account *pb.AccountRef, name string) error {
+	if account == nil || !accountPattern.MatchString(account.Id) || !namePattern.MatchString(name) {
+		return status.Error(codes.InvalidArgument, "account and name must be given, in the form that the REST API supports")
+	}
+	return nil
+}
+
 func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	err := checkExpressible(log.GetAccount(), log.GetName())
+	if err != nil {
+		return nil, nil, err
+	}
 	prefix := ""
 	switch log.LogType {
 	case pb.LogType_STRUCT_TYPE_LOG:
@@ -82,6 +100,10 @@ func (c *httpRestImpl) makeLogRequest(log *pb.LogRef, method, path string, data
 }
 
 func (c *httpRestImpl) makeMapRequest(vmap *pb.MapRef, method, path string, data []byte, headers [][2]string) ([]byte, http.Header, error) {
+	err := checkExpressible(vmap.GetAccount(), vmap.GetName())
+	if err != nil {
+		return nil, nil, err
+	}
 	return c.makeRequest(vmap.Account, method, fmt.Sprintf("/account/%s/map/%s", vmap.Account.Id, vmap.Name)+path, data, headers)
 }
 
@@ -218,7 +240,7 @@ func (c *httpRestImpl) LogConsistencyProof(ctx context.Context, req *pb.LogConsi
 
 // MapSetValue sets a value in the map
 func (c *httpRestImpl) MapSetValue(ctx context.Context, req *pb.MapSetValueRequest) (*pb.MapSetValueResponse, error) {
-	switch req.Mutation.Action {
+	switch req.Mutation.GetAction() {
 	case "delete":
 		contents, _, err := c.makeMapRequest(req.Map, "DELETE", "/key/h/"+hex.EncodeToString(req.Mutation.Key), nil, nil)
 		if err != nil {
-- 
2.43.0


From 6f9224a509dbadc2747a84a40605ff913bba5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 27/48] fix: REST server must refuse a null body as an entry

---
 server/httprest/server_http_handler.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index 70b565e..d44b70f 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -628,12 +628,15 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 		}
 		return &pb.LeafData{LeafInput: oh, ExtraData: rb, Format: pb.DataFormat_JSON}, nil
 	case extraEntry:
-		var req pb.LeafData
+		var req *pb.LeafData
 		err := json.Unmarshal(body, &req)
 		if err != nil {
 			return nil, err
 		}
-		return &req, nil
+		if req == nil { // body is null
+			return nil, verifiable.ErrInvalidRequest
+		}
+		return req, nil
 	default:
 		return nil, verifiable.ErrInvalidRequest
 	}
-- 
2.43.0


From 95d9c2a92aa25897059187f839bed2541ad973fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 28/48] fix: REST server must answer malformed requests with
 400 and missing entries with 404

---
 server/httprest/server_http_handler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index d44b70f..c148240 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -284,6 +284,16 @@ func writeResponseHeader(logger *log.Logger, w http.ResponseWriter, err error) {
 		logger.Println(err.Error())
 	}
 
+	// Errors from this package are not status errors
+	switch err {
+	case verifiable.ErrInvalidRequest:
+		w.WriteHeader(http.StatusBadRequest)
+		return
+	case verifiable.ErrNotFound:
+		w.WriteHeader(http.StatusNotFound)
+		return
+	}
+
 	s, ok := status.FromError(err)
 	if !ok {
 		w.WriteHeader(http.StatusInternalServerError)
-- 
2.43.0


From 9f63303807db344107c6902141046e6910a728bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 29/48] fix: REST server must not drop API keys that contain
 spaces

---
 server/httprest/server_http_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index c148240..c0aeabe 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -189,7 +189,7 @@ func staticHandler(logger *log.Logger, mime, name string) func(http.ResponseWrit
 }
 
 func apiKeyFromRequest(r *http.Request) string {
-	headerParts := strings.Split(strings.TrimSpace(r.Header.Get("Authorization")), " ")
+	headerParts := strings.SplitN(strings.TrimSpace(r.Header.Get("Authorization")), " ", 2)
 	if len(headerParts) == 2 {
 		if headerParts[0] == "Key" {
 			return headerParts[1]
-- 
2.43.0


From 6d5bc0433ee8f59b1cb06c1b69b9e3a547fb74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 30/48] fix: REST client must refuse null entries in an answer

---
 server/httprest/client_http_rest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/httprest/client_http_rest.go b/server/httprest/client_http_rest.go
index e5aa886..abe0727 100644
--- a/server/httprest/client_http_rest.go
+++ b/server/httprest/client_http_rest.go
@@ -181,6 +181,11 @@ func (c *httpRestImpl) LogFetchEntries(ctx context.Context, req *pb.LogFetchEntr
 	if err != nil {
 		return nil, err
 	}
+	for _, v := range rv.Values {
+		if v == nil {
+			return nil, verifiable.ErrInvalidJSON
+		}
+	}
 	return &rv, nil
 }
 
-- 
2.43.0


From 48c1a9ff0d13278f6e41b0d996bd65357c6cfdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 31/48] fix: redactable leaf data must validate when a value is
 already redacted

---
 verifiable/util_json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verifiable/util_json.go b/verifiable/util_json.go
index c74c7d2..ec6c392 100644
--- a/verifiable/util_json.go
+++ b/verifiable/util_json.go
@@ -166,7 +166,7 @@ func CreateRedactableJSONLeafData(data []byte) (*pb.LeafData, error) {
 		return nil, err
 	}
 
-	bflh, err := objecthash.ObjectHash(o)
+	bflh, err := objecthash.ObjectHashWithStdRedaction(o)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5d6aac8fb82ddb2a22047cded9074f5be9712bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 32/48] fix: the server program must not go on when it can't
 serve REST

---
 cmd/vdbserver/vdbserver-main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/vdbserver/vdbserver-main.go b/cmd/vdbserver/vdbserver-main.go
index 7ce31a8..fbb70d9 100644
--- a/cmd/vdbserver/vdbserver-main.go
+++ b/cmd/vdbserver/vdbserver-main.go
@@ -97,7 +97,9 @@ func realMode(confPath string) {
 		go grpc.StartServer(conf, service)
 	}
 	if conf.RestServer {
-		go httprest.StartServer(conf, service)
+		go func() {
+			log.Fatalf("Error serving REST: %s\n", httprest.StartServer(conf, service))
+		}()
 	}
 	select {} // wait forever
 }
-- 
2.43.0


From e698d4d7327d880cbb14740102f82961091be1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 33/48] fix: hash JSON posted to the REST server as the library
 does

The xjson formats took the hash of a document without regard to values in
it that are redacted already, which CreateJSONLeafData, ValidateJSONLeafData
and the field filter do regard. What was posted then failed to validate, and
could not be filtered to something that validates.
---
 server/httprest/server_http_handler.go | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/server/httprest/server_http_handler.go b/server/httprest/server_http_handler.go
index c0aeabe..0c55409 100644
--- a/server/httprest/server_http_handler.go
+++ b/server/httprest/server_http_handler.go
@@ -29,7 +29,6 @@ import (
 
 	"google.golang.org/grpc/status"
 
-	"github.com/continusec/objecthash"
 	"github.com/continusec/verifiabledatastructures/assets"
 	"github.com/continusec/verifiabledatastructures/merkle"
 	"github.com/continusec/verifiabledatastructures/pb"
@@ -613,30 +612,17 @@ func createLeafData(body []byte, ef int) (*pb.LeafData, error) {
 	case rawEntry:
 		return &pb.LeafData{LeafInput: body}, nil
 	case jsonEntry:
-		oh, err := objecthash.CommonJSONHash(body)
+		ld, err := verifiable.CreateJSONLeafData(body)
 		if err != nil {
 			return nil, verifiable.ErrInvalidRequest
 		}
-		return &pb.LeafData{LeafInput: oh, ExtraData: body, Format: pb.DataFormat_JSON}, nil
+		return ld, nil
 	case redactedEntry:
-		var obj interface{}
-		err := json.Unmarshal(body, &obj)
+		ld, err := verifiable.CreateRedactableJSONLeafData(body)
 		if err != nil {
 			return nil, verifiable.ErrInvalidRequest
 		}
-		redactable, err := objecthash.Redactable(obj)
-		if err != nil {
-			return nil, verifiable.ErrInvalidRequest
-		}
-		oh, err := objecthash.ObjectHash(redactable)
-		if err != nil {
-			return nil, verifiable.ErrInvalidRequest
-		}
-		rb, err := json.Marshal(redactable)
-		if err != nil {
-			return nil, verifiable.ErrInvalidRequest
-		}
-		return &pb.LeafData{LeafInput: oh, ExtraData: rb, Format: pb.DataFormat_JSON}, nil
+		return ld, nil
 	case extraEntry:
 		var req *pb.LeafData
 		err := json.Unmarshal(body, &req)
-- 
2.43.0


From edfda5c227631f28f01498a228901bc7366e2765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 34/48] fix: an empty map's tree head hands out its own copy of
 the empty root

MapTreeHash answered with the package's own slice, so that a local caller who
reused the memory of its answer changed every later empty root.
---
 verifiable/service_map_tree_hash.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verifiable/service_map_tree_hash.go b/verifiable/service_map_tree_hash.go
index b2c76ff..124bc87 100644
--- a/verifiable/service_map_tree_hash.go
+++ b/verifiable/service_map_tree_hash.go
@@ -59,7 +59,8 @@ func (s *localServiceImpl) MapTreeHash(ctx context.Context, req *pb.MapTreeHashR
 		// An empty map is valid, and has no mutations yet
 		if treeSize == 0 {
 			rv = &pb.MapTreeHashResponse{
-				RootHash:    defaultLeafValues[0],
+				// The caller gets bytes of its own, never the shared table's
+				RootHash:    append([]byte(nil), defaultLeafValues[0]...),
 				MutationLog: th,
 			}
 			return nil
-- 
2.43.0


From 29d847d5ac7a8f0d05ee5c44ff714c54d69474b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 35/48] fix: browser client's proof verifiers fail for proofs
 that cannot be right

LogInclusionProof.verify and LogConsistencyProof.verify returned false for an
index that is not in the tree and for paths of the wrong length, while success
is told from failure by whether they throw.
---
 assets/static/continusec.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index ca09554..dc10ee6 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1019,14 +1019,14 @@ LogConsistencyProof.prototype.verify = function (first, second) {
     }
 
     if (newProof.length === 0) {
-        return false;
+    	throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
     var fr = newProof[0];
     var sr = newProof[0];
     for (i = 1; i < newProof.length; i++) {
         if (sn === 0) {
-            return false;
+        	throw CONTINUSEC_VERIFICATION_ERROR;
         }
         if (((fn & 1) == 1) || (fn == sn)) {
             fr = nodeMerkleTreeHash(newProof[i], fr);
@@ -1108,7 +1108,7 @@ LogInclusionProof.prototype.verify = function (head) {
 	}
 
     if ((this.leafIndex >= this.treeSize) || (this.leafIndex < 0)) {
-        return false;
+    	throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
     var fn = this.leafIndex;
-- 
2.43.0


From 366b98cae9740e4ebf7d10cb9fa4f399b3b7913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 36/48] fix: browser client's proof verifiers use exact
 arithmetic

Bitwise operators only use the lowest 32 bits of a number and drop fractions, so
proofs for indexes and sizes that were not theirs, or not whole, could verify.
---
 assets/static/continusec.js | 59 ++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index dc10ee6..5bb05af 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -637,7 +637,7 @@ function secondStageVerifyEntries(stack, log, prev, head, factory, each, success
         each(idx, entry);
 
         stack.push(entry.getLeafHash());
-        for (var z = idx; (z & 1) == 1; z >>= 1) {
+        for (var z = idx; isOdd(z); z = half(z)) {
             var right = stack.pop();
             var left = stack.pop();
             stack.push(nodeMerkleTreeHash(left, right));
@@ -998,7 +998,7 @@ LogConsistencyProof.prototype.verify = function (first, second) {
     	throw CONTINUSEC_VERIFICATION_ERROR;
 	}
 
-    if ((this.firstSize < 1) || (this.firstSize >= this.secondSize)) {
+    if (!isSize(this.firstSize) || !isSize(this.secondSize) || (this.firstSize < 1) || (this.firstSize >= this.secondSize)) {
     	throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
@@ -1013,9 +1013,9 @@ LogConsistencyProof.prototype.verify = function (first, second) {
 
     var fn = this.firstSize - 1;
     var sn = this.secondSize - 1;
-    while ((fn & 1) == 1) {
-        fn >>= 1;
-        sn >>= 1;
+    while (isOdd(fn)) {
+        fn = half(fn);
+        sn = half(sn);
     }
 
     if (newProof.length === 0) {
@@ -1028,18 +1028,18 @@ LogConsistencyProof.prototype.verify = function (first, second) {
         if (sn === 0) {
         	throw CONTINUSEC_VERIFICATION_ERROR;
         }
-        if (((fn & 1) == 1) || (fn == sn)) {
+        if (isOdd(fn) || (fn == sn)) {
             fr = nodeMerkleTreeHash(newProof[i], fr);
             sr = nodeMerkleTreeHash(newProof[i], sr);
-            while (!((fn === 0) || ((fn & 1) == 1))) {
-                fn >>= 1;
-                sn >>= 1;
+            while (!((fn === 0) || isOdd(fn))) {
+                fn = half(fn);
+                sn = half(sn);
             }
         } else {
             sr = nodeMerkleTreeHash(sr, newProof[i]);
         }
-        fn >>= 1;
-        sn >>= 1;
+        fn = half(fn);
+        sn = half(sn);
     }
 
     if (sn != 0) {
@@ -1107,7 +1107,7 @@ LogInclusionProof.prototype.verify = function (head) {
     	throw CONTINUSEC_VERIFICATION_ERROR;
 	}
 
-    if ((this.leafIndex >= this.treeSize) || (this.leafIndex < 0)) {
+    if (!isSize(this.leafIndex) || !isSize(this.treeSize) || (this.leafIndex >= this.treeSize)) {
     	throw CONTINUSEC_VERIFICATION_ERROR;
     }
 
@@ -1116,17 +1116,17 @@ LogInclusionProof.prototype.verify = function (head) {
     var r = this.leafHash;
 
     for (var i = 0; i < this.auditPath.length; i++) {
-        if ((fn == sn) || ((fn & 1) == 1)) {
+        if ((fn == sn) || isOdd(fn)) {
             r = nodeMerkleTreeHash(this.auditPath[i], r);
-            while (!((fn === 0) || ((fn & 1) == 1))) {
-                fn >>= 1;
-                sn >>= 1;
+            while (!((fn === 0) || isOdd(fn))) {
+                fn = half(fn);
+                sn = half(sn);
             }
         } else {
             r = nodeMerkleTreeHash(r, this.auditPath[i]);
         }
-        fn >>= 1;
-        sn >>= 1;
+        fn = half(fn);
+        sn = half(sn);
     }
 
     if (sn != 0) {
@@ -1603,6 +1603,29 @@ function decodeHex(s) {
     return rv;
 }
 
+/**
+ * Whether n can be a size or an index. Larger numbers are not exact, and bitwise operators
+ * would only use the lowest 32 bits of them.
+ * @private
+ */
+function isSize(n) {
+    return (typeof n) == "number" && n >= 0 && n <= 9007199254740991 && Math.floor(n) == n;
+}
+
+/**
+ * @private
+ */
+function isOdd(n) {
+    return n % 2 == 1;
+}
+
+/**
+ * @private
+ */
+function half(n) {
+    return Math.floor(n / 2);
+}
+
 /**
  * @private
  */
-- 
2.43.0


From 3d37926a177da9d8f7d4b9aa6f33693fc1b7b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 37/48] fix: browser client refuses inclusion paths that go on
 above the root

For the last leaf of some trees the path could be longer than the tree is
deep, which the consistency verifier already refuses.
---
 assets/static/continusec.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 5bb05af..c4a83a8 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1116,6 +1116,9 @@ LogInclusionProof.prototype.verify = function (head) {
     var r = this.leafHash;
 
     for (var i = 0; i < this.auditPath.length; i++) {
+        if (sn === 0) {
+        	throw CONTINUSEC_VERIFICATION_ERROR;
+        }
         if ((fn == sn) || isOdd(fn)) {
             r = nodeMerkleTreeHash(this.auditPath[i], r);
             while (!((fn === 0) || isOdd(fn))) {
-- 
2.43.0


From c2d3ba7663f85eacce2828850fc98b7006870582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 38/48] fix: browser client reads answers that leave out empty
 fields

The server leaves out empty fields, so the proof for a log of one entry, heads of
empty logs and maps and values that are absent from a map raised an error in place
of a callback. Inclusion proofs by index were looked for in the wrong field.
---
 assets/static/continusec.js | 45 +++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index c4a83a8..f5d4698 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -210,6 +210,24 @@ function protoNumber(n) {
     }
 }
 
+/**
+ * Likewise nothing is encoded for empty bytes.
+ */
+function protoBytes(b) {
+    return b == undefined ? "" : atob(b);
+}
+
+/**
+ * Likewise nothing is encoded for an empty list.
+ */
+function protoPath(path) {
+    var rv = [];
+    for (var i = 0; path != undefined && i < path.length; i++) {
+        rv.push(atob(path[i]));
+    }
+    return rv;
+}
+
 
 /**
  * Failure callback is called upon error. Typically the reason passed is one of the
@@ -395,7 +413,8 @@ VerifiableMap.prototype.deleteValue = function (key, success, failure) {
 VerifiableMap.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new MapTreeHead(new LogTreeHead(protoNumber(obj.mutation_log.tree_size), atob(obj.mutation_log.root_hash)), atob(obj.root_hash)));
+        var log = obj.mutation_log == undefined ? {} : obj.mutation_log;
+        success(new MapTreeHead(new LogTreeHead(protoNumber(log.tree_size), protoBytes(log.root_hash)), protoBytes(obj.root_hash)));
     }, function (reason) {
         failure(reason);
     });
@@ -533,7 +552,7 @@ VerifiableLog.prototype.add = function (value, success, failure) {
 VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new LogTreeHead(protoNumber(obj.tree_size), obj.root_hash === null ? null : atob(obj.root_hash)));
+        success(new LogTreeHead(protoNumber(obj.tree_size), protoBytes(obj.root_hash)));
     }, function (reason) {
         failure(reason);
     });
@@ -673,11 +692,7 @@ VerifiableLog.prototype.getInclusionProof = function (treeSize, leaf, success, f
 	var lh = leaf.getLeafHash();
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/h/" + hexString(lh), null, function (data, req) {
         var obj = JSON.parse(data);
-        var auditPath = [];
-        for (var i = 0; i < obj.audit_path.length; i++) {
-            auditPath.push(atob(obj.audit_path[i]));
-        }
-        success(new LogInclusionProof(lh, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), auditPath));
+        success(new LogInclusionProof(lh, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), protoPath(obj.audit_path)));
     }, function (reason) {
         failure(reason);
     });
@@ -694,11 +709,7 @@ VerifiableLog.prototype.getInclusionProof = function (treeSize, leaf, success, f
 VerifiableLog.prototype.getInclusionProofByIndex = function (treeSize, leafIndex, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/" + leafIndex, null, function (data, req) {
         var obj = JSON.parse(data);
-        var auditPath = [];
-        for (var i = 0; i < obj.proof.length; i++) {
-            auditPath.push(atob(obj.proof[i]));
-        }
-        success(new LogInclusionProof(null, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), auditPath));
+        success(new LogInclusionProof(null, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), protoPath(obj.audit_path)));
     }, function (reason) {
         failure(reason);
     });
@@ -736,11 +747,7 @@ VerifiableLog.prototype.verifyInclusion = function (head, leaf, success, failure
 VerifiableLog.prototype.getConsistencyProof = function (firstSize, secondSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + secondSize + "/consistency/" + firstSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        var auditPath = [];
-        for (var i = 0; i < obj.audit_path.length; i++) {
-            auditPath.push(atob(obj.audit_path[i]));
-        }
-        success(new LogConsistencyProof(protoNumber(obj.from_size), protoNumber(obj.tree_size), auditPath));
+        success(new LogConsistencyProof(protoNumber(obj.from_size), protoNumber(obj.tree_size), protoPath(obj.audit_path)));
     }, function (reason) {
         failure(reason);
     });
@@ -1291,7 +1298,7 @@ RedactedJsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {RedactedJsonEntry} the new entry.
  */
-RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(atob(b.extra_data)); };
+RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(b.extra_data == undefined ? "" : atob(b.extra_data)); };
 
 /**
  * Singleton instance of RedactedJsonEntryFactory ready for your use.
@@ -1437,7 +1444,7 @@ var RedactedJsonEntry = function (data) {
  * @return {string} the data
  */
 RedactedJsonEntry.prototype.getData = function () {
-	return JSON.stringify(shedRedactedWithStdRedaction(JSON.parse(this.data)));
+	return this.data == "" ? "" : JSON.stringify(shedRedactedWithStdRedaction(JSON.parse(this.data)));
 }
 
 /**
-- 
2.43.0


From a2944cc88060bd30e3c37494f9842c6d41ea786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 39/48] fix: browser client's getEntry parses the answer

It passed on the text of the answer, in which no fields are found, so every entry
came back empty.
---
 assets/static/continusec.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index f5d4698..b6590ad 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -568,7 +568,7 @@ VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
  */
 VerifiableLog.prototype.getEntry = function (idx, factory, success, failure) {
     this.client.makeRequest("GET", this.path + "/entry/" + idx + "/extra", null, function (data, req) {
-        success(factory.createFromLeafData(data, idx));
+        success(factory.createFromLeafData(JSON.parse(data)));
     }, function (reason) {
         failure(reason);
     });
-- 
2.43.0


From c5c052dc3bd15f47dbce2ccdc14a8708ba46f2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:46 +0000
Subject: [PATCH 40/48] fix: browser client tells callers that they are not
 authorized

The server answers 401, which was passed on as an internal error.
---
 assets/static/continusec.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index b6590ad..53eb5ea 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -144,6 +144,7 @@ ContinusecClient.prototype.makeRequest = function (method, path, data, success,
         case 400:
             failure(CONTINUSEC_INVALID_RANGE_ERROR);
             break;
+        case 401:
         case 403:
             failure(CONTINUSEC_UNAUTHORIZED_ERROR);
             break;
-- 
2.43.0


From 080118930ebb28c210a4941afc2b1e19f1dc846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 41/48] fix: browser client's calls end in one of their
 callbacks

Answers that could not be read raised an error in the request's handler, after
which neither callback was ever called. When a success callback raised an error,
some calls went on to call the other one as well.
---
 assets/static/continusec.js | 123 ++++++++++++++++++------------------
 1 file changed, 62 insertions(+), 61 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 53eb5ea..caeeb8d 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -132,14 +132,21 @@ ContinusecClient.prototype.getVerifiableLog = function (name) {
 /**
  * @private
  */
-ContinusecClient.prototype.makeRequest = function (method, path, data, success, failure) {
+ContinusecClient.prototype.makeRequest = function (method, path, data, parse, success, failure) {
     var req = new XMLHttpRequest();
     req.onload = function (evt) {
         switch (req.status) {
         case 200:
             var b = binaryArrayToString(new Uint8Array(req.response));
             //console.log(b);
-            success(b, req);
+            var rv;
+            try {
+                rv = parse(b, req);
+            } catch (err) {
+                failure((typeof err) == "string" ? err : CONTINUSEC_INTERNAL_ERROR);
+                break;
+            }
+            success(rv);
             break;
         case 400:
             failure(CONTINUSEC_INVALID_RANGE_ERROR);
@@ -207,7 +214,11 @@ function protoNumber(n) {
     if (n == undefined) {
         return 0;
     } else {
-        return Number(n);
+        var rv = Number(n);
+        if (!isSize(rv)) {
+            throw CONTINUSEC_INTERNAL_ERROR;
+        }
+        return rv;
     }
 }
 
@@ -322,10 +333,9 @@ VerifiableMap.prototype.getValue = function (key, treeSize, factory, success, fa
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/key/h/" + hexString(key) + "/extra", null, function (data, req) {
         var verifiedTreeSize = req.getResponseHeader("X-Verified-Treesize");
         if (verifiedTreeSize === null) {
-            failure(CONTINUSEC_NOT_FOUND_ERROR);
-            return;
+            throw CONTINUSEC_NOT_FOUND_ERROR;
         }
-        verifiedTreeSize = Number(verifiedTreeSize);
+        verifiedTreeSize = protoNumber(verifiedTreeSize);
         var proof = req.getResponseHeader("X-Verified-Proof");
         if (proof === null) {
             proof = "";
@@ -342,10 +352,8 @@ VerifiableMap.prototype.getValue = function (key, treeSize, factory, success, fa
                 auditPath[Number(pieces[0].trim())] = decodeHex(pieces[1].trim());
             }
         }
-        success(new MapEntryResponse(key, factory.createFromLeafData(JSON.parse(data)), verifiedTreeSize, auditPath));
-    }, function (reason) {
-        failure(reason);
-    });
+        return new MapEntryResponse(key, factory.createFromLeafData(JSON.parse(data)), verifiedTreeSize, auditPath);
+    }, success, failure);
 };
 
 /**
@@ -381,10 +389,8 @@ VerifiableMap.prototype.getVerifiedValue = function (key, mapState, factory, suc
 VerifiableMap.prototype.setValue = function (key, value, success, failure) {
     this.client.makeRequest("PUT", this.path + "/key/h/" + hexString(key) + value.getFormat(), value.getDataForUpload(), function (data, req) {
         var obj = JSON.parse(data);
-        success(new AddEntryResponse(atob(obj.leaf_hash)));
-    }, function (reason) {
-        failure(reason);
-    });
+        return new AddEntryResponse(atob(obj.leaf_hash));
+    }, success, failure);
 };
 
 /**
@@ -397,10 +403,8 @@ VerifiableMap.prototype.setValue = function (key, value, success, failure) {
 VerifiableMap.prototype.deleteValue = function (key, success, failure) {
     this.client.makeRequest("DELETE", this.path + "/key/h/" + hexString(key), null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new AddEntryResponse(atob(obj.leaf_hash)));
-    }, function (reason) {
-        failure(reason);
-    });
+        return new AddEntryResponse(atob(obj.leaf_hash));
+    }, success, failure);
 };
 
 /**
@@ -415,10 +419,8 @@ VerifiableMap.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
         var log = obj.mutation_log == undefined ? {} : obj.mutation_log;
-        success(new MapTreeHead(new LogTreeHead(protoNumber(log.tree_size), protoBytes(log.root_hash)), protoBytes(obj.root_hash)));
-    }, function (reason) {
-        failure(reason);
-    });
+        return new MapTreeHead(new LogTreeHead(protoNumber(log.tree_size), protoBytes(log.root_hash)), protoBytes(obj.root_hash));
+    }, success, failure);
 };
 
 /**
@@ -536,10 +538,8 @@ var VerifiableLog = function (client, path) {
 VerifiableLog.prototype.add = function (value, success, failure) {
     this.client.makeRequest("POST", this.path + "/entry" + value.getFormat(), value.getDataForUpload(), function (data, req) {
         var obj = JSON.parse(data);
-        success(new AddEntryResponse(atob(obj.leaf_hash)));
-    }, function (reason) {
-        failure(reason);
-    });
+        return new AddEntryResponse(atob(obj.leaf_hash));
+    }, success, failure);
 };
 
 /**
@@ -553,10 +553,8 @@ VerifiableLog.prototype.add = function (value, success, failure) {
 VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new LogTreeHead(protoNumber(obj.tree_size), protoBytes(obj.root_hash)));
-    }, function (reason) {
-        failure(reason);
-    });
+        return new LogTreeHead(protoNumber(obj.tree_size), protoBytes(obj.root_hash));
+    }, success, failure);
 };
 
 /**
@@ -569,10 +567,8 @@ VerifiableLog.prototype.getTreeHead = function (treeSize, success, failure) {
  */
 VerifiableLog.prototype.getEntry = function (idx, factory, success, failure) {
     this.client.makeRequest("GET", this.path + "/entry/" + idx + "/extra", null, function (data, req) {
-        success(factory.createFromLeafData(JSON.parse(data)));
-    }, function (reason) {
-        failure(reason);
-    });
+        return factory.createFromLeafData(JSON.parse(data));
+    }, success, failure);
 };
 
 /**
@@ -588,19 +584,23 @@ VerifiableLog.prototype.getEntry = function (idx, factory, success, failure) {
  */
 VerifiableLog.prototype.getEntries = function (startIdx, endIdx, factory, each, success, failure) {
     this.client.makeRequest("GET", this.path + "/entries/" + startIdx + "-" + endIdx + "/extra", null, function (data, req) {
-    	try {
-			var obj = JSON.parse(data);
-			for (var i = 0; i < obj.values.length; i++) {
-				each(startIdx + i, factory.createFromLeafData(obj.values[i]));
-			}
-		} catch (err) {
-			failure(err);
-			return
-		}
-		success();
-    }, function (reason) {
-        failure(reason);
-    });
+        var obj = JSON.parse(data);
+        var entries = [];
+        for (var i = 0; obj.values != undefined && i < obj.values.length; i++) {
+            entries.push(factory.createFromLeafData(obj.values[i]));
+        }
+        return entries;
+    }, function (entries) {
+        try {
+            for (var i = 0; i < entries.length; i++) {
+                each(startIdx + i, entries[i]);
+            }
+        } catch (err) {
+            failure(err);
+            return;
+        }
+        success();
+    }, failure);
 };
 
 /**
@@ -690,13 +690,17 @@ function secondStageVerifyEntries(stack, log, prev, head, factory, each, success
  * @param {failureCallback} failure called on failure
  */
 VerifiableLog.prototype.getInclusionProof = function (treeSize, leaf, success, failure) {
-	var lh = leaf.getLeafHash();
+    var lh;
+    try {
+        lh = leaf.getLeafHash();
+    } catch (err) {
+        failure(err);
+        return;
+    }
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/h/" + hexString(lh), null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new LogInclusionProof(lh, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), protoPath(obj.audit_path)));
-    }, function (reason) {
-        failure(reason);
-    });
+        return new LogInclusionProof(lh, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), protoPath(obj.audit_path));
+    }, success, failure);
 };
 
 /**
@@ -710,10 +714,8 @@ VerifiableLog.prototype.getInclusionProof = function (treeSize, leaf, success, f
 VerifiableLog.prototype.getInclusionProofByIndex = function (treeSize, leafIndex, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + treeSize + "/inclusion/" + leafIndex, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new LogInclusionProof(null, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), protoPath(obj.audit_path)));
-    }, function (reason) {
-        failure(reason);
-    });
+        return new LogInclusionProof(null, protoNumber(obj.tree_size), protoNumber(obj.leaf_index), protoPath(obj.audit_path));
+    }, success, failure);
 };
 
 /**
@@ -748,10 +750,8 @@ VerifiableLog.prototype.verifyInclusion = function (head, leaf, success, failure
 VerifiableLog.prototype.getConsistencyProof = function (firstSize, secondSize, success, failure) {
     this.client.makeRequest("GET", this.path + "/tree/" + secondSize + "/consistency/" + firstSize, null, function (data, req) {
         var obj = JSON.parse(data);
-        success(new LogConsistencyProof(protoNumber(obj.from_size), protoNumber(obj.tree_size), protoPath(obj.audit_path)));
-    }, function (reason) {
-        failure(reason);
-    });
+        return new LogConsistencyProof(protoNumber(obj.from_size), protoNumber(obj.tree_size), protoPath(obj.audit_path));
+    }, success, failure);
 };
 
 /**
@@ -859,10 +859,11 @@ VerifiableLog.prototype.verifySuppliedInclusionProof = function (prev, proof, su
     this.getVerifiedTreeHead(prev, proof.getTreeSize(), function (head) {
         try {
             proof.verify(head);
-            success(head);
         } catch (err) {
             failure(err);
+            return;
         }
+        success(head);
     }, failure);
 };
 
-- 
2.43.0


From 8a092fba58b61977b41dec2631ee1111ad540e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 42/48] fix: browser client's blockUntilPresent waits for
 entries that are not there yet

The server says NOT_FOUND of a leaf that the log doesn't have yet, and takes an
inclusion proof in a tree of size 0 to be asked for in the latest tree, so that
the call failed when it should have waited.
---
 assets/static/continusec.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index caeeb8d..74c3d53 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -878,7 +878,7 @@ VerifiableLog.prototype.verifySuppliedInclusionProof = function (prev, proof, su
  * @param {failureCallback} failure called on failure
  */
 VerifiableLog.prototype.blockUntilPresent = function (leaf, success, failure) {
-    doBlockRound(this, -1, 0, leaf, success, failure);
+    doBlockRound(this, 0, 0, leaf, success, failure);
 }
 
 /**
@@ -890,7 +890,7 @@ function doBlockRound(log, lastHead, secsToSleep, leaf, success, failure) {
             log.verifyInclusion(lth, leaf, function () {
                 success(lth);
             }, function (reason) {
-                if (reason == CONTINUSEC_INVALID_RANGE_ERROR) {
+                if (reason == CONTINUSEC_INVALID_RANGE_ERROR || reason == CONTINUSEC_NOT_FOUND_ERROR) {
                     secsToSleep = 1;
                     setTimeout(function () { doBlockRound(log, lth.getTreeSize(), secsToSleep, leaf, success, failure); }, secsToSleep * 1000);
                 } else {
@@ -898,7 +898,7 @@ function doBlockRound(log, lastHead, secsToSleep, leaf, success, failure) {
                 }
             });
         } else {
-            secsToSleep *= 2
+            secsToSleep = Math.max(1, secsToSleep * 2);
             setTimeout(function () { doBlockRound(log, lastHead, secsToSleep, leaf, success, failure); }, secsToSleep * 1000);
         }
     }, failure);
-- 
2.43.0


From a23d2d855ad94f00291656129c51182528d50c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 43/48] fix: browser client uploads raw data as it is

A string is sent in UTF-8, so every byte from 0x80 became two on the way, while
the client's own leaf hash is of the data as given. The page encodes the text
that its user types.
---
 assets/static/continusec.js | 13 ++++++++++++-
 assets/static/index.html    | 11 ++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 74c3d53..3e2a3f5 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1334,7 +1334,7 @@ RawDataEntry.prototype.getFormat = function () {
  * @return {string} the data
  */
 RawDataEntry.prototype.getDataForUpload = function () {
-	return this.data;
+	return stringToBinaryArray(this.data);
 }
 
 /**
@@ -1589,6 +1589,17 @@ function binaryArrayToString(d) {
     return rv;
 }
 
+/**
+ * @private
+ */
+function stringToBinaryArray(s) {
+    var rv = new Uint8Array(s.length);
+    for (var i = 0; i < s.length; i++) {
+        rv[i] = s.charCodeAt(i);
+    }
+    return rv;
+}
+
 /**
  * @private
  */
diff --git a/assets/static/index.html b/assets/static/index.html
index 75a9394..9b1b513 100644
--- a/assets/static/index.html
+++ b/assets/static/index.html
@@ -103,6 +103,11 @@
                 };
             }
 
+            // Entries are bytes, as are the strings that hold them
+            function utf8(s) {
+                return unescape(encodeURIComponent(s));
+            }
+
             function getVerLog() {
                 if (currentLogType == "treehead") {
                     return getVerMap().getTreeHeadLog();
@@ -269,7 +274,7 @@
                 });
 
                 $("#addRawLog").click(function () {
-                    addToLog(new RawDataEntry($("#logEntryText").val()));
+                    addToLog(new RawDataEntry(utf8($("#logEntryText").val())));
                     return false;
                 });
                 $("#addJSONLog").click(function () {
@@ -289,7 +294,7 @@
                     return false;
                 });
                 $("#inclRawLog").click(function () {
-                    getLogInclusion(new RawDataEntry($("#inclEntryText").val()));
+                    getLogInclusion(new RawDataEntry(utf8($("#inclEntryText").val())));
                     return false;
                 });
                 $("#inclJSONLog").click(function () {
@@ -298,7 +303,7 @@
                 });
 
                 $("#addRawMap").click(function () {
-                    addToMap(new RawDataEntry($("#mapEntryText").val()));
+                    addToMap(new RawDataEntry(utf8($("#mapEntryText").val())));
                     return false;
                 });
                 $("#addJSONMap").click(function () {
-- 
2.43.0


From 5308b7cb43eb99fde64f04f503990dceb15c5a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 44/48] fix: browser client decodes JSON entries as UTF-8

Their bytes were taken for characters, so that entries with anything but ASCII in
them were returned changed, and failed verification.
---
 assets/static/continusec.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 3e2a3f5..7ae6c97 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1273,7 +1273,7 @@ JsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {JsonEntry} the new entry.
  */
-JsonEntryFactory.prototype.createFromLeafData = function (b) { return new JsonEntry(b.extra_data == undefined ? "" : atob(b.extra_data)); };
+JsonEntryFactory.prototype.createFromLeafData = function (b) { return new JsonEntry(b.extra_data == undefined ? "" : decodeURIComponent(escape(atob(b.extra_data)))); };
 
 /**
  * Singleton instance of JsonEntryFactory ready for your use.
@@ -1300,7 +1300,7 @@ RedactedJsonEntryFactory.prototype.getFormat = function () { return "/xjson"; };
  * @param {string} bytes the bytes as returned by the server.
  * @return {RedactedJsonEntry} the new entry.
  */
-RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(b.extra_data == undefined ? "" : atob(b.extra_data)); };
+RedactedJsonEntryFactory.prototype.createFromLeafData = function (b) { return new RedactedJsonEntry(b.extra_data == undefined ? "" : decodeURIComponent(escape(atob(b.extra_data)))); };
 
 /**
  * Singleton instance of RedactedJsonEntryFactory ready for your use.
-- 
2.43.0


From 75b9dcff518e2e0edb0d46daaa181e8a6a41346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 45/48] fix: browser client escapes the names it puts in URLs

Otherwise a name can stand for a different object, as "x/tree/1?" does.
---
 assets/static/continusec.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 7ae6c97..894c67a 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -116,7 +116,7 @@ var ContinusecClient = function (account, apiKey, baseURL) {
  * @return {VerifiableMap} an object that allows manipulation of the specified map.
  */
 ContinusecClient.prototype.getVerifiableMap = function (name) {
-    return new VerifiableMap(this, "/map/" + name);
+    return new VerifiableMap(this, "/map/" + encodeURIComponent(name));
 };
 
 /**
@@ -126,7 +126,7 @@ ContinusecClient.prototype.getVerifiableMap = function (name) {
  * @return {VerifiableLog} an object that allows manipulation of the specified log.
  */
 ContinusecClient.prototype.getVerifiableLog = function (name) {
-    return new VerifiableLog(this, "/log/" + name);
+    return new VerifiableLog(this, "/log/" + encodeURIComponent(name));
 };
 
 /**
@@ -168,7 +168,7 @@ ContinusecClient.prototype.makeRequest = function (method, path, data, parse, su
     req.onerror = function (evt) {
         failure(CONTINUSEC_NETWORK_ERROR);
     };
-    req.open(method, this.baseURL + "/v2/account/" + this.account + path, true);
+    req.open(method, this.baseURL + "/v2/account/" + encodeURIComponent(this.account) + path, true);
     req.responseType = "arraybuffer";
     req.setRequestHeader("Authorization", 'Key ' + this.apiKey);
     req.send(data);
-- 
2.43.0


From 1dee6f7ddb996341a408ad3fe0fdc85ac1a659fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 46/48] fix: browser client's objecthash ends for numbers out
 of range

JSON.parse() makes Infinity of them, which no number of halvings brings down to 1.
---
 assets/static/continusec.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 894c67a..1d39b49 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -1798,6 +1798,9 @@ function objectHashWithRedaction(o, prefix) {
 			s = "-";
 			o = -o;
 		}
+		if (!isFinite(o)) { // JSON.parse() makes that of numbers that are too large
+			throw CONTINUSEC_INVALID_RANGE_ERROR;
+		}
 		var e = 0;
 		while (o > 1) {
 			o /= 2.0;
-- 
2.43.0


From 9c783edcb5f797c406d546cfe3316623b38c1387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:20 +0000
Subject: [PATCH 47/48] fix: clients can go on from the head of an empty log

Both clients fetch and return the head of a log that is still empty, but when it
was passed back as the previous head, every later head failed verification.
---
 assets/static/continusec.js     | 2 +-
 verifiable/api_highlevel_log.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index 1d39b49..e70ead8 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -834,7 +834,7 @@ VerifiableLog.prototype.getVerifiedTreeHead = function (prev, treeSize, success,
     } else {
         var log = this;
         this.getTreeHead(treeSize, function (head) {
-            if (prev == null) {
+            if (prev == null || prev.getTreeSize() == 0) {
                 success(head);
             } else {
                 log.verifyConsistency(prev, head, function () {
diff --git a/verifiable/api_highlevel_log.go b/verifiable/api_highlevel_log.go
index a5f59a2..0347abf 100644
--- a/verifiable/api_highlevel_log.go
+++ b/verifiable/api_highlevel_log.go
@@ -151,7 +151,8 @@ func (log *Log) VerifiedTreeHead(ctx context.Context, prev *pb.LogTreeHashRespon
 		return nil, err
 	}
 
-	if prev != nil {
+	// every log extends the empty one, for which there are no proofs
+	if prev != nil && prev.TreeSize != 0 {
 		err = log.VerifyConsistency(ctx, prev, head)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 2082bc07feef76c334b248178ad7a5a657f51aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 48/48] fix: browser client rejects names that URLs cannot
 express

---
 assets/static/continusec.js | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/assets/static/continusec.js b/assets/static/continusec.js
index e70ead8..6208227 100644
--- a/assets/static/continusec.js
+++ b/assets/static/continusec.js
@@ -133,6 +133,11 @@ ContinusecClient.prototype.getVerifiableLog = function (name) {
  * @private
  */
 ContinusecClient.prototype.makeRequest = function (method, path, data, parse, success, failure) {
+    path = "/v2/account/" + encodeURIComponent(this.account) + path;
+    if (/%2F|\/\.{0,2}(\/|$)/.test(path)) { // URLs can't express such names, it'd be taken for another
+        failure(CONTINUSEC_INVALID_RANGE_ERROR);
+        return;
+    }
     var req = new XMLHttpRequest();
     req.onload = function (evt) {
         switch (req.status) {
@@ -168,7 +173,7 @@ ContinusecClient.prototype.makeRequest = function (method, path, data, parse, su
     req.onerror = function (evt) {
         failure(CONTINUSEC_NETWORK_ERROR);
     };
-    req.open(method, this.baseURL + "/v2/account/" + encodeURIComponent(this.account) + path, true);
+    req.open(method, this.baseURL + path, true);
     req.responseType = "arraybuffer";
     req.setRequestHeader("Authorization", 'Key ' + this.apiKey);
     req.send(data);
-- 
2.43.0

