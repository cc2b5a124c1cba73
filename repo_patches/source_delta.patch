From 240a49624273027c56addccc8280b82d8027cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 01/23] fix: proof serialization wrote children 0 and 1 twice
 for arity 256

---
 models/trie_blake2b/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 81785c6..f31f2f5 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -201,7 +201,7 @@ func (e *ProofElement) Write(w io.Writer, arity trie.PathArity, sz HashSize) err
 		if _, err = w.Write(flags[:]); err != nil {
 			return err
 		}
-		for i := 0; i < arity.VectorLength(); i++ {
+		for i := 0; i < arity.NumChildren(); i++ {
 			child, ok := e.Children[uint8(i)]
 			if !ok {
 				continue
-- 
2.43.0


From d9ad53aa58e9e9d5a1a7b84cc364bd0150403312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 02/23] fix: short reads and truncated data were silently
 accepted when deserializing

---
 models/trie_blake2b/model.go     |  4 ++--
 models/trie_blake2b/proof.go     |  4 ++--
 models/trie_kzg_bn256/trusted.go |  2 +-
 trie/nodedata.go                 |  2 +-
 trie/util.go                     | 21 +++++++++++++++------
 5 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/models/trie_blake2b/model.go b/models/trie_blake2b/model.go
index 0193fb1..84f9767 100644
--- a/models/trie_blake2b/model.go
+++ b/models/trie_blake2b/model.go
@@ -238,7 +238,7 @@ func (v vectorCommitment) Bytes() []byte {
 }
 
 func (v vectorCommitment) Read(r io.Reader) error {
-	_, err := r.Read(v)
+	_, err := io.ReadFull(r, v)
 	return err
 }
 
@@ -312,7 +312,7 @@ func (t *terminalCommitment) Read(r io.Reader) error {
 	if l > 0 {
 		t.bytes = make([]byte, l)
 
-		n, err := r.Read(t.bytes)
+		n, err := io.ReadFull(r, t.bytes)
 		if err != nil {
 			return err
 		}
diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index f31f2f5..eaa6c12 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -245,14 +245,14 @@ func (e *ProofElement) Read(r io.Reader, arity trie.PathArity, sz HashSize) erro
 	e.Children = make(map[byte][]byte)
 	if smallFlags&hasChildrenFlag != 0 {
 		var flags [32]byte
-		if _, err = r.Read(flags[:]); err != nil {
+		if _, err = io.ReadFull(r, flags[:]); err != nil {
 			return err
 		}
 		for i := 0; i < arity.NumChildren(); i++ {
 			ib := uint8(i)
 			if flags[i/8]&(0x1<<(i%8)) != 0 {
 				e.Children[ib] = make([]byte, sz)
-				if _, err = r.Read(e.Children[ib]); err != nil {
+				if _, err = io.ReadFull(r, e.Children[ib]); err != nil {
 					return err
 				}
 			}
diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 9f6d77b..8de993f 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -275,7 +275,7 @@ func (sd *TrustedSetup) write(w io.Writer) error {
 // read unmarshal
 func (sd *TrustedSetup) read(r io.Reader) error {
 	var tmp2 [2]byte
-	if _, err := r.Read(tmp2[:]); err != nil {
+	if _, err := io.ReadFull(r, tmp2[:]); err != nil {
 		return err
 	}
 
diff --git a/trie/nodedata.go b/trie/nodedata.go
index fc0bc29..a1f6053 100644
--- a/trie/nodedata.go
+++ b/trie/nodedata.go
@@ -106,7 +106,7 @@ func newCflags(arity PathArity) cflags {
 
 func readCflags(r io.Reader, arity PathArity) (cflags, error) {
 	ret := newCflags(arity)
-	n, err := r.Read(ret)
+	n, err := io.ReadFull(r, ret)
 	if err != nil {
 		return nil, err
 	}
diff --git a/trie/util.go b/trie/util.go
index 2eb9133..170e283 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -192,6 +192,15 @@ func readKV(r io.Reader) ([]byte, []byte, bool) {
 // r/w utility functions
 // TODO rewrite with generics when switch to Go 1.18
 
+// readBody reads exactly len(buf) bytes. The end of the stream inside of the data is always an unexpected one
+func readBody(r io.Reader, buf []byte) error {
+	_, err := io.ReadFull(r, buf)
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return err
+}
+
 func ReadBytes8(r io.Reader) ([]byte, error) {
 	length, err := ReadByte(r)
 	if err != nil {
@@ -201,7 +210,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
+	err = readBody(r, ret)
 	if err != nil {
 		return nil, err
 	}
@@ -232,7 +241,7 @@ func ReadBytes16(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
+	err = readBody(r, ret)
 	if err != nil {
 		return nil, err
 	}
@@ -255,7 +264,7 @@ func WriteBytes16(w io.Writer, data []byte) error {
 
 func ReadUint16(r io.Reader, pval *uint16) error {
 	var tmp2 [2]byte
-	_, err := r.Read(tmp2[:])
+	_, err := io.ReadFull(r, tmp2[:])
 	if err != nil {
 		return err
 	}
@@ -283,7 +292,7 @@ func Uint16From2Bytes(b []byte) (uint16, error) {
 
 func ReadByte(r io.Reader) (byte, error) {
 	var b [1]byte
-	_, err := r.Read(b[:])
+	_, err := io.ReadFull(r, b[:])
 	if err != nil {
 		return 0, err
 	}
@@ -306,7 +315,7 @@ func ReadBytes32(r io.Reader) ([]byte, error) {
 		return []byte{}, nil
 	}
 	ret := make([]byte, length)
-	_, err = r.Read(ret)
+	err = readBody(r, ret)
 	if err != nil {
 		return nil, err
 	}
@@ -348,7 +357,7 @@ func MustUint32From4Bytes(b []byte) uint32 {
 
 func ReadUint32(r io.Reader, pval *uint32) error {
 	var tmp4 [4]byte
-	_, err := r.Read(tmp4[:])
+	_, err := io.ReadFull(r, tmp4[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1465f913fcd5565305a16204e8238d054eca7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 03/23] fix: UnDumpFromFile panicked on or silently accepted a
 truncated dump

---
 trie/util.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/trie/util.go b/trie/util.go
index 170e283..c31daaa 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -155,7 +155,10 @@ func UnDumpFromFile(w KVWriter, fname string) (int, error) {
 	var exit bool
 	n := 0
 	for {
-		if k, v, exit = readKV(file); exit {
+		if k, v, exit, err = readKV(file); err != nil {
+			return n, err
+		}
+		if exit {
 			break
 		}
 		n += len(k) + len(v) + 6
@@ -175,17 +178,21 @@ func writeKV(w io.Writer, k, v []byte) (int, error) {
 	return len(k) + len(v) + 6, nil
 }
 
-// readKV deserializes key/value pair from io.Reader. Returns key/value pair and an error flag if not enough data
-func readKV(r io.Reader) ([]byte, []byte, bool) {
+// readKV deserializes key/value pair from io.Reader. Returns key/value pair and a flag if the end of data has been reached.
+// Data which ends in the middle of the key/value pair is an error
+func readKV(r io.Reader) ([]byte, []byte, bool, error) {
 	k, err := ReadBytes16(r)
 	if errors.Is(err, io.EOF) {
-		return nil, nil, true
+		return nil, nil, true, nil
+	}
+	if err != nil {
+		return nil, nil, false, err
 	}
 	v, err := ReadBytes32(r)
 	if err != nil {
-		panic(err)
+		return nil, nil, false, err
 	}
-	return k, v, false
+	return k, v, false, nil
 }
 
 // ---------------------------------------------------------------------------
-- 
2.43.0


From 8dd10e9720319e0e6e38cec49291ab7ddbdd9a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 04/23] fix: WriteBytes8 wrote zero length for data of 256
 bytes

---
 trie/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/util.go b/trie/util.go
index c31daaa..85e3bab 100644
--- a/trie/util.go
+++ b/trie/util.go
@@ -225,7 +225,7 @@ func ReadBytes8(r io.Reader) ([]byte, error) {
 }
 
 func WriteBytes8(w io.Writer, data []byte) error {
-	if len(data) > 256 {
+	if len(data) > math.MaxUint8 {
 		panic(fmt.Sprintf("WriteBytes8: too long data (%v)", len(data)))
 	}
 	err := WriteByte(w, byte(len(data)))
-- 
2.43.0


From fce2ad9a76392eefb212d1ed0769ddb3fb0683ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 05/23] fix: key encoding panicked on malformed data and
 accepted wrong nibbles

---
 trie/encode.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trie/encode.go b/trie/encode.go
index 8712103..c5cbdda 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -30,6 +30,9 @@ func pack16(dst, src []byte) ([]byte, error) {
 		}
 		c := src[i] << 4
 		if i+1 < len(src) {
+			if src[i+1] > 0x0F {
+				return nil, ErrWrongNibble
+			}
 			c |= src[i+1]
 		}
 		dst = append(dst, c)
@@ -52,7 +55,7 @@ func decode16(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*2)
 	ret = unpack16(ret, data[1:])
-	if data[0] == 1 && ret[len(ret)-1] != 0 {
+	if data[0] == 1 && (len(ret) == 0 || ret[len(ret)-1] != 0) {
 		// enforce padding with 0
 		return nil, ErrWrongFormat
 	}
@@ -117,8 +120,9 @@ func decode2(data []byte) ([]byte, error) {
 	}
 	ret := make([]byte, 0, len(data)*8)
 	ret = unpack2(ret, data[1:])
-	Assert(len(ret) >= int(data[0]), "trie::decode2:: assert failed: len(ret) >= int(data[0]), data: %s",
-		hex.EncodeToString(data))
+	if len(ret) < int(data[0]) {
+		return nil, ErrWrongFormat
+	}
 	// enforce the last data[0] elements are 0
 	for j := len(ret) - int(data[0]); j < len(ret); j++ {
 		if ret[j] != 0 {
-- 
2.43.0


From 26140455e100c0f08d0e73e351f8deb1c3005259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 06/23] fix: proof with a wrong path arity was accepted and
 panicked when validated

---
 models/trie_blake2b/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index eaa6c12..1e03c3b 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -130,6 +130,11 @@ func (p *Proof) Read(r io.Reader) error {
 		return err
 	}
 	p.PathArity = trie.PathArity(b)
+	switch p.PathArity {
+	case trie.PathArity256, trie.PathArity16, trie.PathArity2:
+	default:
+		return trie.ErrWrongArity
+	}
 
 	b, err = trie.ReadByte(r)
 	if err != nil {
-- 
2.43.0


From ead84027ecaffc1b8bdb7289b8a6a81b3145d787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:26 +0000
Subject: [PATCH 07/23] fix: Reconcile panicked on the empty trie

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 9bafa7f..693faa0 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -436,7 +436,7 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 	ret := make([][]byte, 0)
 	store.Iterate(func(k, v []byte) bool {
 		p, _, ending := proofPath(tr, UnpackBytes(k, tr.PathArity()))
-		if ending == EndingTerminal {
+		if len(p) > 0 && ending == EndingTerminal {
 			lastKey := p[len(p)-1]
 			n, ok := tr.GetNode(lastKey)
 			if !ok {
-- 
2.43.0


From b24135c34d02c77ea6b0ef43574bfb0f858428c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 08/23] fix: Reconcile reported key commitments as inconsistent
 for arity 2 and 16

---
 trie/trie.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 693faa0..db6cb1c 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -442,7 +442,11 @@ func (tr *Trie) Reconcile(store KVIterator) [][]byte {
 			if !ok {
 				ret = append(ret, k)
 			} else {
-				if !tr.Model().EqualCommitments(tr.nodeStore.reader.m.CommitToData(v), n.Terminal()) {
+				data := v
+				if tr.nodeStore.optimizeKeyCommitments && bytes.Equal(k, v) {
+					data = UnpackBytes(v, tr.PathArity())
+				}
+				if !tr.Model().EqualCommitments(tr.nodeStore.reader.m.CommitToData(data), n.Terminal()) {
 					ret = append(ret, k)
 				}
 			}
-- 
2.43.0


From 0d06dfbc153259a835d26a9e940697b87eafbc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 09/23] fix: key commitment in the root node was lost with the
 terminal optimization

---
 trie/node.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trie/node.go b/trie/node.go
index e9aa780..26f31c4 100644
--- a/trie/node.go
+++ b/trie/node.go
@@ -144,12 +144,18 @@ func (n *bufferedNode) Bytes(model CommitmentModel, arity PathArity, optimizeKey
 	// Optimization: if terminal commits to unpackedKey, no need to serialize it,
 	// because all information is in the key
 	isKeyCommitment := false
-	if optimizeKeyCommitments && len(n.unpackedKey) > 0 {
+	isRootKeyCommitment := false
+	if optimizeKeyCommitments {
 		keyCommitment := model.CommitToData(Concat(n.unpackedKey, n.n.PathFragment))
 		isKeyCommitment = model.EqualCommitments(n.n.Terminal, keyCommitment)
+		if len(n.unpackedKey) == 0 {
+			// the root node always contains its terminal: it can't be restored from the key nor from the value,
+			// because it commits to the unpacked key
+			isKeyCommitment, isRootKeyCommitment = false, isKeyCommitment
+		}
 	}
 	var buf bytes.Buffer
-	skipStoreTerminal := n.n.Terminal != nil && !model.ForceStoreTerminalWithNode(n.n.Terminal)
+	skipStoreTerminal := n.n.Terminal != nil && !isRootKeyCommitment && !model.ForceStoreTerminalWithNode(n.n.Terminal)
 	err := n.n.Write(&buf, arity, isKeyCommitment, skipStoreTerminal)
 	Assert(err == nil, "trie::bufferedNode::Bytes: %v", err)
 	return buf.Bytes()
-- 
2.43.0


From 33e56459dfa3514c5c4d44bf7794acef287ac9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 10/23] fix: trie nodes and proofs shared memory with the key
 passed by the caller

---
 models/trie_kzg_bn256/proof.go | 2 +-
 trie/encode.go                 | 3 ++-
 trie/nodestore.go              | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 33b3e9c..082d4b4 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -55,7 +55,7 @@ func ProofOfInclusionFromBytes(data []byte) (*ProofOfInclusion, error) {
 func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*ProofOfInclusion, bool) {
 	trie.Assert(tr.PathArity() == trie.PathArity256, "for KZG commitment model only 256-ary trie is supported")
 
-	proofGeneric := trie.GetProofGeneric(tr, key)
+	proofGeneric := trie.GetProofGeneric(tr, trie.UnpackBytes(key, tr.PathArity()))
 	if proofGeneric == nil || len(proofGeneric.Path) == 0 || proofGeneric.Ending != trie.EndingTerminal {
 		// key is not present in the state
 		return nil, false
diff --git a/trie/encode.go b/trie/encode.go
index c5cbdda..5028669 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -136,7 +136,8 @@ func decode2(data []byte) ([]byte, error) {
 func UnpackBytes(src []byte, arity PathArity) []byte {
 	switch arity {
 	case PathArity256:
-		return src
+		// never share memory with the caller
+		return append([]byte(nil), src...)
 	case PathArity16:
 		return unpack16(make([]byte, 0, 2*len(src)), src)
 	case PathArity2:
diff --git a/trie/nodestore.go b/trie/nodestore.go
index d638504..451c0b9 100644
--- a/trie/nodestore.go
+++ b/trie/nodestore.go
@@ -92,7 +92,7 @@ func (sc *nodeStoreBuffered) getNode(unpackedKey []byte) (*bufferedNode, bool) {
 	if !ok {
 		return nil, false
 	}
-	ret = newBufferedNode(unpackedKey)
+	ret = newBufferedNode(Concat(unpackedKey)) // copy: the key belongs to the caller
 	ret.n = n.n
 	ret.newTerminal = n.n.Terminal
 	sc.nodeCache[string(unpackedKey)] = ret
-- 
2.43.0


From 5e405ebf8b31483717665e8d57aee72fb1c530d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 11/23] fix: proof shared memory with the nodes of the trie

---
 models/trie_blake2b/proof.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 1e03c3b..2622fc7 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -74,20 +74,20 @@ func (m *CommitmentModel) Proof(key []byte, tr trie.NodeStore) *Proof {
 			}
 		}
 		em := &ProofElement{
-			PathFragment: node.PathFragment(),
+			PathFragment: trie.Concat(node.PathFragment()),
 			Children:     make(map[byte][]byte),
 			Terminal:     nil,
 			ChildIndex:   childIndex,
 		}
 		if node.Terminal() != nil {
-			em.Terminal = node.Terminal().(*terminalCommitment).bytes
+			em.Terminal = trie.Concat(node.Terminal().(*terminalCommitment).bytes)
 		}
 		for idx, v := range node.ChildCommitments() {
 			if int(idx) == childIndex {
 				// skipping the commitment which must come from the next child
 				continue
 			}
-			em.Children[idx] = v.(vectorCommitment)
+			em.Children[idx] = trie.Concat([]byte(v.(vectorCommitment)))
 		}
 		ret.Path[i] = em
 	}
-- 
2.43.0


From 786eaba809af41de052c1ac4d6d66fdb3cba2402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 12/23] fix: batched updater kept references to the key and
 value of the caller

---
 hive_adaptor/hiveadaptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 06e621d..7c66a68 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -107,7 +107,7 @@ func (a *HiveBatchedUpdater) Update(key []byte, value []byte) {
 		a.wTrie = newBatchWriter(a.batch, a.triePrefix)
 		a.wValue = newBatchWriter(a.batch, a.valueStorePrefix)
 	}
-	a.wValue.Set(key, value)
+	a.wValue.Set(trie.Concat(key), trie.Concat(value)) // the batch keeps slices until Commit
 	a.trie.Update(key, value)
 }
 
-- 
2.43.0


From e7cfd0f7404679b53ad89dd255718a6fe937f361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 13/23] fix: hive adaptor reported a failure of the store as
 absence of the key

---
 hive_adaptor/hiveadaptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hive_adaptor/hiveadaptor.go b/hive_adaptor/hiveadaptor.go
index 7c66a68..8bf1808 100644
--- a/hive_adaptor/hiveadaptor.go
+++ b/hive_adaptor/hiveadaptor.go
@@ -46,11 +46,11 @@ func (kvs *HiveKVStoreAdaptor) Get(key []byte) []byte {
 
 func (kvs *HiveKVStoreAdaptor) Has(key []byte) bool {
 	v, err := kvs.kvs.Get(makeKey(kvs.prefix, key))
-	if errors.Is(err, kvstore.ErrKeyNotFound) || len(v) == 0 {
+	if errors.Is(err, kvstore.ErrKeyNotFound) {
 		return false
 	}
 	mustNoErr(err)
-	return true
+	return len(v) != 0
 }
 
 func (kvs *HiveKVStoreAdaptor) Set(key, value []byte) {
-- 
2.43.0


From 5f567538e4fb54a934d1000f9c47ed7221afb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 14/23] fix: proof was not bound to its key: proof of another
 key was valid

---
 .../trie_blake2b_verify/verify.go             | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 47e1b32..8491066 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -110,6 +110,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		if nextKeyIdx > len(p.Key) {
 			return nil, fmt.Errorf("wrong proof: proof path out of key bounds. Path position: %d, key position %d", pathIdx, keyIdx)
 		}
+		if int(p.Key[nextKeyIdx-1]) != elem.ChildIndex {
+			return nil, fmt.Errorf("wrong proof: child index does not follow the key. Path position: %d, key position %d", pathIdx, keyIdx)
+		}
 		c, err := verify(p, pathIdx+1, nextKeyIdx)
 		if err != nil {
 			return nil, err
@@ -117,6 +120,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 		return hashIt(elem, c, p.PathArity, p.HashSize), nil
 	}
 	// it is the last in the path
+	if err := checkLastElement(p, elem, tail, isPrefix); err != nil {
+		return nil, fmt.Errorf("%w. Path position: %d, key position %d", err, pathIdx, keyIdx)
+	}
 	if p.PathArity.IsChildIndex(elem.ChildIndex) {
 		c := elem.Children[byte(elem.ChildIndex)]
 		if c != nil {
@@ -131,6 +137,31 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	return hashIt(elem, nil, p.PathArity, p.HashSize), nil
 }
 
+// checkLastElement checks if what the last element of the proof claims is about the tail of the key:
+// - proof of inclusion: the node must be at the key
+// - proof of absence: the node must not lead to the key
+func checkLastElement(p *trie_blake2b.Proof, elem *trie_blake2b.ProofElement, tail []byte, isPrefix bool) error {
+	atTheKey := isPrefix && len(tail) == len(elem.PathFragment)
+	switch {
+	case p.PathArity.IsChildIndex(elem.ChildIndex):
+		if !isPrefix || atTheKey || int(tail[len(elem.PathFragment)]) != elem.ChildIndex {
+			return errors.New("wrong proof: child index of the last element does not follow the key")
+		}
+	case elem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
+		if !atTheKey {
+			return errors.New("wrong proof: terminal of the last element is not at the key")
+		}
+	case elem.ChildIndex == p.PathArity.PathFragmentCommitmentIndex():
+		if atTheKey {
+			return errors.New("wrong proof: the last element is at the key")
+		}
+		if isPrefix && elem.Children[tail[len(elem.PathFragment)]] != nil {
+			return errors.New("wrong proof: the last element leads to the key")
+		}
+	}
+	return nil
+}
+
 func makeHashVector(e *trie_blake2b.ProofElement, missingCommitment []byte, arity trie.PathArity, sz trie_blake2b.HashSize) [][]byte {
 	hashes := make([][]byte, arity.VectorLength())
 	for idx, c := range e.Children {
-- 
2.43.0


From a3bf6662c5525412ca3faafec3eb0971eea2386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 15/23] fix: proof with an empty or too long terminal
 commitment was misinterpreted

---
 models/trie_blake2b/trie_blake2b_verify/verify.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/models/trie_blake2b/trie_blake2b_verify/verify.go b/models/trie_blake2b/trie_blake2b_verify/verify.go
index 8491066..3d3c930 100644
--- a/models/trie_blake2b/trie_blake2b_verify/verify.go
+++ b/models/trie_blake2b/trie_blake2b_verify/verify.go
@@ -26,7 +26,7 @@ func MustKeyWithTerminal(p *trie_blake2b.Proof) ([]byte, []byte) {
 		}
 		return p.Key, nil
 	case lastElem.ChildIndex == p.PathArity.TerminalCommitmentIndex():
-		if lastElem.Terminal == nil {
+		if len(lastElem.Terminal) == 0 {
 			return p.Key, nil
 		}
 		return p.Key, lastElem.Terminal
@@ -92,6 +92,9 @@ func verify(p *trie_blake2b.Proof, pathIdx, keyIdx int) ([]byte, error) {
 	trie.Assert(keyIdx <= len(p.Key), "assertion: keyIdx <= lenPlus1(p.Key)")
 
 	elem := p.Path[pathIdx]
+	if len(elem.Terminal) > int(p.HashSize) {
+		return nil, fmt.Errorf("wrong proof: terminal commitment too long. Path position: %d, key position %d", pathIdx, keyIdx)
+	}
 	tail := p.Key[keyIdx:]
 	isPrefix := bytes.HasPrefix(tail, elem.PathFragment)
 	last := pathIdx == len(p.Path)-1
-- 
2.43.0


From 3faa16ba889eb1db438a2489c61ac4e6f0609985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:06 +0000
Subject: [PATCH 16/23] fix: KZG ProofOfInclusion panicked for the absent key
 which is a prefix of others

---
 models/trie_kzg_bn256/proof.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 082d4b4..f08783e 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -60,6 +60,10 @@ func (m *CommitmentModel) ProofOfInclusion(key []byte, tr trie.NodeStore) (*Proo
 		// key is not present in the state
 		return nil, false
 	}
+	if last, ok := tr.GetNode(proofGeneric.Path[len(proofGeneric.Path)-1]); !ok || last.Terminal() == nil {
+		// the node is at the key, but it does not commit to a terminal
+		return nil, false
+	}
 	// key is present in the state
 	ret := &ProofOfInclusion{
 		Key:      proofGeneric.Key,
-- 
2.43.0


From bac1478769845fffd899be6b7bb724bcc717454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 17/23] fix: KZG proof with a wrong vector index panicked or
 was accepted

---
 models/trie_kzg_bn256/proof.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index f08783e..8f1c3f6 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -136,7 +136,14 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 	}
 	var val kyber.Scalar
 
+	if p.Terminal.Equal(Model.ZeroG1) {
+		return xerrors.New("no terminal commitment at the key")
+	}
 	for i := range p.Path {
+		// only the last element opens the terminal, all others open the child
+		if isLast := i == len(p.Path)-1; isLast != (p.Path[i].VectorIndex == 256) || p.Path[i].VectorIndex > 256 {
+			return xerrors.New(fmt.Sprintf("wrong vector index at path position %d", i))
+		}
 		if p.Path[i].VectorIndex < 256 {
 			val = scalarFromPoint(Model.Suite.G1().Scalar(), p.Path[i+1].C)
 		} else {
-- 
2.43.0


From e3503fa8d4882ecd47b1a6ac3e5dc07401ac53f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 18/23] fix: trusted setup with the natural domain could not be
 read back

---
 models/trie_kzg_bn256/trusted.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 8de993f..083d2a5 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -284,7 +284,8 @@ func (sd *TrustedSetup) read(r io.Reader) error {
 	if _, err := sd.Omega.UnmarshalFrom(r); err != nil {
 		return err
 	}
-	if !isRootOfUnity(sd.Suite, sd.Omega) {
+	// omega == 0 means natural domain
+	if !sd.Omega.Equal(sd.ZeroG1) && !isRootOfUnity(sd.Suite, sd.Omega) {
 		return errNotROU
 	}
 	for i := range sd.LagrangeBasis {
-- 
2.43.0


From 4db2f927ec896ff2b8f97a6a4d40528bd895b315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 19/23] fix: encoded path without symbols is rejected when not
 empty

---
 trie/encode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trie/encode.go b/trie/encode.go
index 5028669..e76552c 100644
--- a/trie/encode.go
+++ b/trie/encode.go
@@ -195,6 +195,10 @@ func DecodeToUnpackedBytes(encoded []byte, arity PathArity) ([]byte, error) {
 	if len(encoded) == 0 {
 		return nil, nil
 	}
+	if len(encoded) == 1 && (arity == PathArity16 || arity == PathArity2) {
+		// the path without symbols is always encoded as empty data
+		return nil, ErrWrongFormat
+	}
 	switch arity {
 	case PathArity256:
 		return encoded, nil
-- 
2.43.0


From a183db08eb6a034345d3fe6872108dfbf35a0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 20/23] fix: trusted setup was generated with omega which is
 not a root of unity

---
 models/trie_kzg_bn256/trusted.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/models/trie_kzg_bn256/trusted.go b/models/trie_kzg_bn256/trusted.go
index 083d2a5..2f7f66f 100644
--- a/models/trie_kzg_bn256/trusted.go
+++ b/models/trie_kzg_bn256/trusted.go
@@ -163,6 +163,10 @@ func (sd *TrustedSetup) generatePowers(omega, secret kyber.Scalar) error {
 	if len(secret.String()) < 50 {
 		return errWrongSecret
 	}
+	if !isRootOfUnity(sd.Suite, omega) {
+		// it wouldn't be possible to read the trusted setup back
+		return errNotROU
+	}
 	sd.Omega.Set(omega)
 	for i := range sd.Domain {
 		powerSimple(sd.Suite, sd.Omega, i, sd.Domain[i])
-- 
2.43.0


From 9018182b6f97075f6d5c5ca1d7f3d7e327d3e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 21/23] fix: terminal kept the storage option of the previous
 value with the same commitment

---
 trie/trie.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trie/trie.go b/trie/trie.go
index db6cb1c..c99df39 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -131,6 +131,8 @@ func (tr *Trie) commitNode(key []byte, update *VCommitment) {
 	}
 	isModified := n.pathChanged || len(n.modifiedChildren) > 0 || !tr.Model().EqualCommitments(n.newTerminal, n.n.Terminal)
 	if !isModified {
+		// equal commitments may be to different data (value and its hash), which are not stored the same way
+		n.n.Terminal = n.newTerminal
 		return
 	}
 	mutate := NodeData{
-- 
2.43.0


From b199e493a484ff9bbf8d960ed363052ff7ac25ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 22/23] fix: refuse to serialize proofs with more elements than
 the format can count

---
 models/trie_blake2b/proof.go   | 4 ++++
 models/trie_kzg_bn256/proof.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/models/trie_blake2b/proof.go b/models/trie_blake2b/proof.go
index 2622fc7..e8c1253 100644
--- a/models/trie_blake2b/proof.go
+++ b/models/trie_blake2b/proof.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 )
@@ -99,6 +100,9 @@ func (p *Proof) Bytes() []byte {
 }
 
 func (p *Proof) Write(w io.Writer) error {
+	if len(p.Path) > math.MaxUint16 {
+		return errors.New("proof path is too long")
+	}
 	var err error
 	if err = trie.WriteByte(w, byte(p.PathArity)); err != nil {
 		return err
diff --git a/models/trie_kzg_bn256/proof.go b/models/trie_kzg_bn256/proof.go
index 8f1c3f6..03a2c74 100644
--- a/models/trie_kzg_bn256/proof.go
+++ b/models/trie_kzg_bn256/proof.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/iotaledger/trie.go/trie"
 	"go.dedis.ch/kyber/v3"
@@ -157,6 +158,9 @@ func (p *ProofOfInclusion) Validate(root trie.VCommitment, value ...[]byte) erro
 }
 
 func (p *ProofOfInclusion) Write(w io.Writer) error {
+	if len(p.Path) > math.MaxUint16 {
+		return xerrors.New("proof path is too long")
+	}
 	if err := trie.WriteBytes16(w, p.Key); err != nil {
 		return err
 	}
-- 
2.43.0


From dd2f1b8a8a277b847dba80297a32f744cdb1cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 23/23] fix: incremental update of the KZG commitment ignored
 deleted children and changed its arguments

---
 models/trie_kzg_bn256/model.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/models/trie_kzg_bn256/model.go b/models/trie_kzg_bn256/model.go
index f6d7966..3abc44f 100644
--- a/models/trie_kzg_bn256/model.go
+++ b/models/trie_kzg_bn256/model.go
@@ -177,8 +177,8 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 					prevS := scalarFromPoint(m.TrustedSetup.Suite.G1().Scalar(), prevC.(*vectorCommitment).Point)
 					delta.Sub(delta, prevS)
 				}
-				deltas[int(i)] = delta
 			}
+			deltas[int(i)] = delta
 		}
 		// update mutated part
 		if childUpd == nil {
@@ -191,8 +191,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 		delta := m.TrustedSetup.Suite.G1().Scalar().Zero()
 		if terminal == nil {
 			if mutate.Terminal != nil {
-				delta = mutate.Terminal.(*terminalCommitment).Scalar
-				delta.Neg(delta)
+				delta.Neg(mutate.Terminal.(*terminalCommitment).Scalar)
 			}
 		} else {
 			delta.Set(terminal.(*terminalCommitment).Scalar)
@@ -208,7 +207,7 @@ func (m *CommitmentModel) UpdateNodeCommitment(mutate *trie.NodeData, childUpdat
 
 		// update upper commitment by adding calculated delta
 		if *update != nil {
-			prevP = (*update).(*vectorCommitment).Point
+			prevP = (*update).(*vectorCommitment).Point.Clone()
 		} else {
 			prevP = m.TrustedSetup.Suite.G1().Point().Null()
 		}
-- 
2.43.0

