From b439a539a549a7474913a6125b53ee711900266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 01/47] fix: cuckoo: a cycle with a tail or a branch is not a
 proof of work

---
 cuckoo/cuckoo.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cuckoo/cuckoo.go b/cuckoo/cuckoo.go
index 347b5fb..07a7b1b 100644
--- a/cuckoo/cuckoo.go
+++ b/cuckoo/cuckoo.go
@@ -22,6 +22,19 @@ type Edge struct {
 // findCycleLength attempts to walk the given edges and returns the length of
 // the cycle.
 func findCycleLength(edges []*Edge) int {
+	// In a cycle every vertex joins exactly two edges. Walking edges that hang
+	// off a shorter cycle, or that meet in a busier vertex, proves nothing.
+	degreeU, degreeV := make(map[uint64]int), make(map[uint64]int)
+	for _, edge := range edges {
+		degreeU[edge.U]++
+		degreeV[edge.V]++
+	}
+	for _, edge := range edges {
+		if degreeU[edge.U] != 2 || degreeV[edge.V] != 2 {
+			return 0
+		}
+	}
+
 	i := 0     // first node
 	cycle := 0 // the current length of the cycle
 
-- 
2.43.0


From 1276f2f983618a7f28662d3b2503b2a910adc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:29 +0000
Subject: [PATCH 02/47] fix: consensus: a proof of work has exactly ProofSize
 nonces

---
 consensus/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/proof.go b/consensus/proof.go
index 2f76a9d..12445f0 100644
--- a/consensus/proof.go
+++ b/consensus/proof.go
@@ -32,6 +32,11 @@ var (
 func (p *Proof) Validate(header *BlockHeader, cuckooSize uint8) error {
 	logrus.Infof("block POW validate for size %d", cuckooSize)
 
+	// Shorter or longer cycles are not a proof of work.
+	if len(header.POW.Nonces) != ProofSize {
+		return errInvalidPow
+	}
+
 	cuckoo := cuckoo.NewCuckaroo(header.bytesWithoutPOW())
 	if cuckoo.Verify(header.POW.Nonces, header.POW.EdgeBits) {
 		return nil
-- 
2.43.0


From 267b6a3987b0ef28a5ac1f90e8403b9303faa55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:31 +0000
Subject: [PATCH 03/47] fix: consensus: reject proofs whose nonces do not fit
 in 32 bits

---
 consensus/proof.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/proof.go b/consensus/proof.go
index 12445f0..1826487 100644
--- a/consensus/proof.go
+++ b/consensus/proof.go
@@ -113,6 +113,11 @@ func (p *Proof) Read(r io.Reader) error {
 		return fmt.Errorf("invalid cuckoo graph size: %d", p.EdgeBits)
 	}
 
+	// Nonces are 32 bits wide, the bits above that would be lost.
+	if p.EdgeBits > 32 {
+		return fmt.Errorf("unsupported cuckoo graph size: %d", p.EdgeBits)
+	}
+
 	p.Nonces = make([]uint32, ProofSize)
 
 	nonceLengthBits := uint(p.EdgeBits)
-- 
2.43.0


From 72a0c4cce7cb389937aca5ca95dc55d49f3211f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:33 +0000
Subject: [PATCH 04/47] fix: consensus: verify the signature of every kernel of
 a block

---
 consensus/block.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/consensus/block.go b/consensus/block.go
index 853eab7..5eb31eb 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -279,11 +279,11 @@ func (b *Block) verifyKernels() error {
 			if coinbase > MaxBlockCoinbaseKernels {
 				return errors.New("invalid block with few coinbase kernels")
 			}
+		}
 
-			// Validate kernel
-			if err := kernel.Validate(); err != nil {
-				return err
-			}
+		// Validate kernel
+		if err := kernel.Validate(); err != nil {
+			return err
 		}
 	}
 
-- 
2.43.0


From ee3bc7c44f4e78c27faf98270e0f748f5468dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:36 +0000
Subject: [PATCH 05/47] fix: consensus: reject a block with a kernel locked
 until a later height

---
 consensus/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 5eb31eb..164e1aa 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -285,6 +285,11 @@ func (b *Block) verifyKernels() error {
 		if err := kernel.Validate(); err != nil {
 			return err
 		}
+
+		// The kernel is not valid earlier than its lock height
+		if kernel.LockHeight > b.Header.Height {
+			return fmt.Errorf("kernel is locked until height %d", kernel.LockHeight)
+		}
 	}
 
 	// TODO: Verify that the kernel sums are correct.
-- 
2.43.0


From 39583e5400082aae194bd63175dc642db12f26ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:38 +0000
Subject: [PATCH 06/47] fix: consensus: reject a block without a coinbase
 output or kernel

---
 consensus/block.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 164e1aa..73d607c 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -263,6 +263,10 @@ func (b *Block) verifyCoinbase() error {
 		}
 	}
 
+	if coinbase == 0 {
+		return errors.New("invalid block without coinbase output")
+	}
+
 	// Check the roots
 	// TODO: do that
 
@@ -292,6 +296,10 @@ func (b *Block) verifyKernels() error {
 		}
 	}
 
+	if coinbase == 0 {
+		return errors.New("invalid block without coinbase kernel")
+	}
+
 	// TODO: Verify that the kernel sums are correct.
 
 	// Check the roots
-- 
2.43.0


From 4ea9d549ac5416f67827a55c992a387c551fb783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:40 +0000
Subject: [PATCH 07/47] fix: consensus: write the features of transaction
 inputs

---
 consensus/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/transaction.go b/consensus/transaction.go
index ee0efbd..f2a14ee 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -55,7 +55,7 @@ func (t *Transaction) Bytes() []byte {
 
 	// Write inputs
 	for _, input := range t.Inputs {
-		if _, err := buff.Write(input.Commit); err != nil {
+		if _, err := buff.Write(input.Bytes()); err != nil {
 			logrus.Fatal(err)
 		}
 	}
-- 
2.43.0


From f85f7ccabbf5960bd790959b9951ed27eedfb03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:42 +0000
Subject: [PATCH 08/47] fix: consensus: reject an output whose range proof is
 shorter than its length field

---
 consensus/block.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index 73d607c..905d94b 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -613,10 +613,14 @@ func (o *Output) Read(r io.Reader) error {
 	}
 
 	proof := new(bulletproofs.BulletProof)
-	err := proof.Read(io.LimitReader(r, int64(proofLen)))
+	limited := &io.LimitedReader{R: r, N: int64(proofLen)}
+	err := proof.Read(limited)
 	if err != nil {
 		return errors.New("failed to deserialize range proof")
 	}
+	if limited.N != 0 {
+		return fmt.Errorf("invalid range proof length: %d", proofLen)
+	}
 	o.RangeProof = *proof
 
 	return nil
-- 
2.43.0


From c188525edebe9f1802279b47f0550b21fab840c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:44 +0000
Subject: [PATCH 09/47] fix: consensus: bound the number of kernel ids of a
 compact block

---
 consensus/block.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 905d94b..f9e1e40 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -433,6 +433,11 @@ func (b *CompactBlock) Read(r io.Reader) error {
 		return err
 	}
 
+	// Sanity check the length.
+	if kernelIDs > 1000000 {
+		return errors.New("compact block contains too many kernel ids")
+	}
+
 	// Read outputs
 	b.Outputs = make(OutputList, outputs)
 	for i := uint8(0); i < outputs; i++ {
-- 
2.43.0


From 3535e1fc52c1ab13bbb752c6952a6e97839be54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:47 +0000
Subject: [PATCH 10/47] fix: consensus: reject timestamps out of range, they
 wrap around to the past

---
 consensus/block.go     | 5 ++++-
 consensus/consensus.go | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/consensus/block.go b/consensus/block.go
index f9e1e40..91466b0 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -952,7 +952,10 @@ func (b *BlockHeader) Read(r io.Reader) error {
 		return err
 	}
 
-	// FIXME: Check timestamp is in correct range.
+	// Check timestamp is in correct range.
+	if ts < MinTimestamp || ts > MaxTimestamp {
+		return fmt.Errorf("invalid block timestamp: %d", ts)
+	}
 	b.Timestamp = time.Unix(ts, 0).UTC()
 
 	// Read prev blockhash
diff --git a/consensus/consensus.go b/consensus/consensus.go
index 9cf9d3e..06ac79d 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -93,6 +93,11 @@ const (
 	// The block height at which version 2 blocks are valid
 	HardForkV2Height uint64 = 95000
 
+	// The range of block timestamps, in seconds since the epoch: the years
+	// -262144 to 262143.
+	MinTimestamp int64 = -8334632851200
+	MaxTimestamp int64 = 8210298412799
+
 	// Time window in blocks to calculate block time median
 	MedianTimeWindow int = 11
 
-- 
2.43.0


From 0bf3ea3505252204767c3166ea02a175c50a8e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:49 +0000
Subject: [PATCH 11/47] fix: consensus: do not divide by zero on a hash with 64
 leading zero bits

---
 consensus/difficulty.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index bd545ad..8a61c20 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -32,6 +32,11 @@ func (d Difficulty) FromHash(hash Hash) Difficulty {
 	// Use the first 64 bits of the given hash
 	num := binary.BigEndian.Uint64(hash[:8])
 
+	// The easiest target for a hash of zero
+	if num == 0 {
+		num = 1
+	}
+
 	return Difficulty(maxTarget / num)
 }
 
-- 
2.43.0


From 9dafa2825e1347f4cf1da72d0b9dfba88ac45a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:51 +0000
Subject: [PATCH 12/47] fix: secp256k1zkp: compare both coordinates, not only
 X, in signature checks

---
 secp256k1zkp/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 046b115..9a58343 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -110,7 +110,7 @@ func VerifySignature(publicKey Point, message [32]byte, signature Signature) boo
 	lhs := ScalarMulPoint(&G, &signature.S)
 	rhs := SumPoints(&signature.R, ScalarMulPoint(&publicKey, e))
 
-	return lhs.X.Cmp(rhs.X) == 0
+	return lhs.X.Cmp(rhs.X) == 0 && lhs.Y.Cmp(rhs.Y) == 0
 }
 
 // CommitValue returns the Pedersen commitment to the value v with blinding
-- 
2.43.0


From 085166050b179f9c1aeb61dcf2618343f4e3c51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:54 +0000
Subject: [PATCH 13/47] fix: secp256k1zkp: sign with a nonce that survives
 serialising the signature

---
 secp256k1zkp/schnorr.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 9a58343..f6516ce 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -79,6 +79,13 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 	// R is the public key for k.
 	R := ScalarMulPoint(&G, k)
 
+	// A serialised signature only has the X coordinate of R, for which the
+	// verifier takes the Y that is a quadratic residue.
+	if !IsQuadraticResidue(R.Y) {
+		k = Neg(k)
+		R = ScalarMulPoint(&G, k)
+	}
+
 	// Compute a non-interactive challenge.
 	Rx := GetB32(R.X)
 	compressedPubkey := CompressPubkey(publicKey)
-- 
2.43.0


From 45cbbaba36c5829835835b19813383e793dffdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 14/47] fix: secp256k1zkp: reject signatures and keys that are
 not curve points

---
 secp256k1zkp/schnorr.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index f6516ce..3919ec0 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -103,6 +103,12 @@ func SignMessage(publicKey Point, privateKey big.Int, message [32]byte) Signatur
 // VerifySignature returns true if the given signature was computed by signing
 // message with the private key for publicKey.
 func VerifySignature(publicKey Point, message [32]byte, signature Signature) bool {
+	// Arithmetic on points that are not on the curve proves nothing.
+	if !btcec.S256().IsOnCurve(publicKey.X, publicKey.Y) ||
+		!btcec.S256().IsOnCurve(signature.R.X, signature.R.Y) {
+		return false
+	}
+
 	Rx := GetB32(signature.R.X)
 	compressedPubkey := CompressPubkey(publicKey)
 
-- 
2.43.0


From 931522337308df3b68662cc354560390f472cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:08 +0000
Subject: [PATCH 15/47] fix: consensus: difficulty of a list longer than the
 window

---
 consensus/difficulty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 8a61c20..93d2ca1 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -82,7 +82,7 @@ func NextDifficulty(blist BlockList) Difficulty {
 			if i < DifficultyAdjustWindow+MedianTimeWindow {
 				windowEnd = append(windowEnd, blist[i].Header.Timestamp)
 			} else {
-				break
+				continue
 			}
 		}
 	}
-- 
2.43.0


From c43099de310ec3de59c19fc2858ac01549843ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 16/47] fix: consensus: the lower time bound is half the window

---
 consensus/consensus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 06ac79d..f7f67dc 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -114,5 +114,5 @@ const (
 	UpperTimeBound time.Duration = BlockTimeWindow * 2
 
 	// Minimum size time window used for difficulty adjustments
-	LowerTimeBound time.Duration = BlockTimeWindow * 2
+	LowerTimeBound time.Duration = BlockTimeWindow / 2
 )
-- 
2.43.0


From 26a31388f70eae1835ec7785e4f64050579a779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:12 +0000
Subject: [PATCH 17/47] fix: consensus: the difficulty window is in seconds,
 the elapsed time was in nanoseconds

---
 consensus/difficulty.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/difficulty.go b/consensus/difficulty.go
index 93d2ca1..4880354 100644
--- a/consensus/difficulty.go
+++ b/consensus/difficulty.go
@@ -105,7 +105,7 @@ func NextDifficulty(blist BlockList) Difficulty {
 
 	// Average difficulty and dampened average time
 	diffAvg := sumDiff / MinimumDifficulty.FromNum(uint64(DifficultyAdjustWindow))
-	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)) / 4
+	ts := (3*BlockTimeWindow + beginTime.Sub(endTime)/time.Second) / 4
 
 	// Apply time bounds
 	if ts < LowerTimeBound {
-- 
2.43.0


From 4ffd60b8eff3ca919d99dafcc01de9203433099e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 18/47] fix: chain: compute the difficulty from the preceding
 blocks, latest first

---
 chain/chain.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/chain/chain.go b/chain/chain.go
index 3758eb4..21ec233 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -346,7 +346,17 @@ func (c *Chain) ProcessBlock(block *consensus.Block) error {
 		Height: &fromHeight,
 	}
 
-	diffAvg := consensus.NextDifficulty(c.storage.From(blockID, limit))
+	// Only the blocks before this one count, from the latest to the oldest
+	if block.Header.Height < uint64(limit) {
+		limit = int(block.Header.Height)
+	}
+	window := c.storage.From(blockID, limit)
+	blist := make(consensus.BlockList, len(window))
+	for i := range window {
+		blist[len(window)-1-i] = window[i]
+	}
+
+	diffAvg := consensus.NextDifficulty(blist)
 	if block.Header.Difficulty < diffAvg {
 		return errors.New("difficulty is too low")
 	}
-- 
2.43.0


From 9822e60fd5188d485720586f25e602957d1bc5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:16 +0000
Subject: [PATCH 19/47] fix: chain: validate every block from the head down to
 the genesis

---
 chain/chain.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/chain/chain.go b/chain/chain.go
index 21ec233..3deed8f 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -380,12 +380,17 @@ func (c *Chain) Validate() error {
 
 	// go from head to genesis
 	// TODO: MUST check all consensus rules
-	for bytes.Compare(block.Header.Previous, c.genesis.Hash()) != 0 {
+	for bytes.Compare(block.Hash(), c.genesis.Hash()) != 0 {
 		err := block.Validate()
-		if err == nil {
+		if err != nil {
 			return err
 		}
 
+		// the next one is the genesis
+		if bytes.Compare(block.Header.Previous, c.genesis.Hash()) == 0 {
+			break
+		}
+
 		if block = c.GetBlock(block.Header.Previous); block == nil {
 			return errors.New("invalid previous hash. blockchain integrity is broken")
 		}
-- 
2.43.0


From bf0b1b33edf960d18cde2d15579b7edaf2f4bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:18 +0000
Subject: [PATCH 20/47] fix: chain: the genesis blocks miss header fields, they
 could not be sent and hashed alike

---
 chain/chain.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/chain/chain.go b/chain/chain.go
index 3deed8f..51f0d4e 100644
--- a/chain/chain.go
+++ b/chain/chain.go
@@ -19,6 +19,7 @@ var Testnet1 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: 10,
 
@@ -26,8 +27,12 @@ var Testnet1 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+		TotalKernelSum:    bytes.Repeat([]byte{0x00}, 33),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
+			EdgeBits: 15,
 			Nonces: []uint32{
 				0x21e, 0x7a2, 0xeae, 0x144e, 0x1b1c, 0x1fbd,
 				0x203a, 0x214b, 0x293b, 0x2b74, 0x2bfa, 0x2c26,
@@ -47,6 +52,7 @@ var Testnet2 = consensus.Block{
 		Version:   1,
 		Height:    0,
 		Previous:  bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot: bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp: time.Date(2017, 11, 16, 20, 0, 0, 0, time.UTC),
 		//Difficulty:      10,
 		//TotalDifficulty: 10,
@@ -55,8 +61,12 @@ var Testnet2 = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+		TotalKernelSum:    bytes.Repeat([]byte{0x00}, 33),
+
 		Nonce: 70081,
 		POW: consensus.Proof{
+			EdgeBits: 29,
 			Nonces: []uint32{
 				0x43ee48, 0x18d5a49, 0x2b76803, 0x3181a29, 0x39d6a8a, 0x39ef8d8,
 				0x478a0fb, 0x69c1f9e, 0x6da4bca, 0x6f8782c, 0x9d842d7, 0xa051397,
@@ -79,6 +89,7 @@ var Testnet3 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 7, 8, 18, 0, 0, 0, time.UTC),
 		TotalDifficulty: TESTNET3_INITIAL_DIFFICULTY,
 
@@ -115,6 +126,7 @@ var Testnet4 = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 10, 17, 20, 0, 0, 0, time.UTC),
 		TotalDifficulty: testnet4InitialDifficulty,
 
@@ -146,6 +158,7 @@ var Mainnet = consensus.Block{
 		Version:         1,
 		Height:          0,
 		Previous:        bytes.Repeat([]byte{0xff}, consensus.BlockHashSize),
+		PreviousRoot:    bytes.Repeat([]byte{0x00}, consensus.BlockHashSize),
 		Timestamp:       time.Date(2018, 8, 14, 0, 0, 0, 0, time.UTC),
 		TotalDifficulty: 1000,
 
@@ -153,8 +166,12 @@ var Mainnet = consensus.Block{
 		RangeProofRoot: bytes.Repeat([]byte{0x00}, 32),
 		KernelRoot:     bytes.Repeat([]byte{0x00}, 32),
 
+		TotalKernelOffset: bytes.Repeat([]byte{0x00}, 32),
+		TotalKernelSum:    bytes.Repeat([]byte{0x00}, 33),
+
 		Nonce: 28205,
 		POW: consensus.Proof{
+			EdgeBits: 15,
 			Nonces: []uint32{
 				0x21e, 0x7a2, 0xeae, 0x144e, 0x1b1c, 0x1fbd,
 				0x203a, 0x214b, 0x293b, 0x2b74, 0x2bfa, 0x2c26,
-- 
2.43.0


From b69d343d74f706d0937615e085ea4ddb4b9c3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:55 +0000
Subject: [PATCH 21/47] fix: p2p: banning a peer wrote to a nil map

---
 p2p/pool.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 27ceaa1..25c66e5 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -30,6 +30,7 @@ func newPeersPool(sync *Syncer) *peersPool {
 		quit:           make(chan int),
 		PeersTable:     make(map[string]*peerInfo),
 		ConnectedPeers: make(map[string]*peerInfo),
+		BannedPeers:    make(map[string]struct{}),
 	}
 
 	return pp
-- 
2.43.0


From 6eaf55d326907fa3b2fe613eafea447d8113b55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:56 +0000
Subject: [PATCH 22/47] fix: p2p: a peer closed by its own handler waited for
 itself forever

---
 p2p/peer.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index cf56a0b..87b00e7 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -350,7 +350,6 @@ func (p *Peer) Disconnect(reason error) {
 
 	close(p.quit)
 	p.conn.Close()
-	p.wg.Wait()
 }
 
 // Close the connection to the remote peer
-- 
2.43.0


From 0b071d2777a2aeef1085fa6de4654f3c09081951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:58 +0000
Subject: [PATCH 23/47] fix: p2p: a banned peer could be added and connected
 again, a new one could not be banned

---
 p2p/pool.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 25c66e5..0652c69 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -68,15 +68,22 @@ func (pp *peersPool) Ban(addr string) {
 		return
 	}
 
-	// Mark banned & Close connection
-	peerInfo.Status = psBanned
-	peerInfo.Peer.Close()
-
 	// Add to ban list
 	pp.bnmu.Lock()
 	pp.BannedPeers[addr] = struct{}{}
 	pp.bnmu.Unlock()
 
+	// Mark banned & Close connection
+	peerInfo.Lock()
+	peerInfo.Status = psBanned
+	peer := peerInfo.Peer
+	peerInfo.Unlock()
+
+	// The peer may have never been connected
+	if peer != nil {
+		peer.Close()
+	}
+
 	// Clear the peers table
 	pp.ptmu.Lock()
 	delete(pp.PeersTable, addr)
@@ -112,6 +119,11 @@ func (pp *peersPool) Add(addr string) {
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
+	// Don't add banned
+	if pp.IsBan(addr) {
+		return
+	}
+
 	// Don't add if big peer table
 	if len(pp.PeersTable) > maxPeersTableSize {
 		return
@@ -219,7 +231,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 	peerInfo.Lock()
 	defer peerInfo.Unlock()
 
-	if peerInfo.Status == psBanned || peerInfo.Status == psConnected {
+	if peerInfo.Status == psBanned || peerInfo.Status == psConnected || pp.IsBan(addr) {
 		logrus.Debug("dont connect to banned host (or already connected)")
 		return nil
 	}
@@ -264,7 +276,9 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 		// update peers & connected peers tables
 		peerInfo.Lock()
-		peerInfo.Status = psDisconnected
+		if peerInfo.Status != psBanned {
+			peerInfo.Status = psDisconnected
+		}
 		peerInfo.Unlock()
 
 		// clean connected peers
-- 
2.43.0


From 988c1a9f2179f16341b8fbc3c0286542254cbc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:59 +0000
Subject: [PATCH 24/47] fix: p2p: one peer had several entries, and one by host
 name was never banned

---
 p2p/pool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 0652c69..16491b5 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -116,6 +116,9 @@ func (pp *peersPool) Add(addr string) {
 		return
 	}
 
+	// Peers are known by the address of their connection
+	addr = netAddr.String()
+
 	pp.ptmu.Lock()
 	defer pp.ptmu.Unlock()
 
-- 
2.43.0


From 30cadc8b7bb72b348d94c174989da70300ac9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:01 +0000
Subject: [PATCH 25/47] fix: p2p: a reconnecting peer could miss in the
 connected peers, their count was racy

---
 p2p/pool.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 16491b5..4d297d1 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sirupsen/logrus"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 )
 
@@ -219,7 +220,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return nil
 	}
 
-	if pp.connected > int32(maxOnlineConnections) {
+	if atomic.LoadInt32(&pp.connected) > int32(maxOnlineConnections) {
 		return errors.New("too big online peers connections")
 	}
 
@@ -250,7 +251,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		return fmt.Errorf("unexpected protocolVersion: %d", peerConn.Info.Version)
 	}
 
-	pp.connected++
+	atomic.AddInt32(&pp.connected, 1)
 
 	// update peers table
 	peerInfo.Peer = peerConn
@@ -282,13 +283,13 @@ func (pp *peersPool) connectPeer(addr string) error {
 		if peerInfo.Status != psBanned {
 			peerInfo.Status = psDisconnected
 		}
-		peerInfo.Unlock()
 
 		// clean connected peers
-		pp.connected--
+		atomic.AddInt32(&pp.connected, -1)
 		pp.cpmu.Lock()
 		delete(pp.ConnectedPeers, addr)
 		pp.cpmu.Unlock()
+		peerInfo.Unlock()
 
 		<-pp.pool
 	}()
-- 
2.43.0


From e49cfafc7044bf3b484a0571129d5e64c5822ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 26/47] fix: p2p: a connection slot was lost each time there
 was nothing to connect to

---
 p2p/pool.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p2p/pool.go b/p2p/pool.go
index 4d297d1..b379131 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -217,6 +217,7 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 func (pp *peersPool) connectPeer(addr string) error {
 	// for empty string nonerror exit
 	if len(addr) == 0 {
+		<-pp.pool
 		return nil
 	}
 
@@ -237,6 +238,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 	if peerInfo.Status == psBanned || peerInfo.Status == psConnected || pp.IsBan(addr) {
 		logrus.Debug("dont connect to banned host (or already connected)")
+		<-pp.pool
 		return nil
 	}
 
-- 
2.43.0


From 640feb5b848e74d2814bfd1e23b41ec7f1f2ee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 27/47] fix: p2p: stopping crashed on a peer that was never
 connected

---
 p2p/pool.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index b379131..f178781 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -325,8 +325,12 @@ out:
 	for _, pi := range pp.PeersTable {
 		go func(peerInfo *peerInfo) {
 			peerInfo.Lock()
-			peerInfo.Peer.Close()
-			peerInfo.Status = psDisconnected
+			if peerInfo.Peer != nil {
+				peerInfo.Peer.Close()
+			}
+			if peerInfo.Status != psBanned {
+				peerInfo.Status = psDisconnected
+			}
 			peerInfo.Unlock()
 		}(pi)
 
-- 
2.43.0


From 54f7c21d5eeef756ac0f52a388f6bb56f7a55487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:06 +0000
Subject: [PATCH 28/47] fix: p2p: the peers table held one more than its limit

---
 p2p/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index f178781..9f05cb1 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -129,7 +129,7 @@ func (pp *peersPool) Add(addr string) {
 	}
 
 	// Don't add if big peer table
-	if len(pp.PeersTable) > maxPeersTableSize {
+	if len(pp.PeersTable) >= maxPeersTableSize {
 		return
 	}
 
-- 
2.43.0


From ae16f026ef3e8470016911c33f09ca72c2d698b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:08 +0000
Subject: [PATCH 29/47] fix: p2p: a request for addresses killed the node if
 one had no host

---
 p2p/pool.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 9f05cb1..4477020 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -169,7 +169,10 @@ func (pp *peersPool) Peers(capabilities consensus.Capabilities) *PeerAddrs {
 		}
 
 		if netAddr, err := net.ResolveTCPAddr("tcp", addr); err == nil {
-			addrs = append(addrs, netAddr)
+			// an address without a host cannot be sent
+			if netAddr.IP != nil {
+				addrs = append(addrs, netAddr)
+			}
 		} else {
 			logrus.Error(err)
 		}
-- 
2.43.0


From dbf90c9984c4cd56dd66bd870c80326f18923bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:09 +0000
Subject: [PATCH 30/47] fix: p2p: a message of a peer banned meanwhile killed
 the node

---
 p2p/sync.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 284d6fd..c6b2e24 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -104,8 +104,8 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 
 	peerInfo := s.Pool.PeerInfo(peer.Addr)
 	if peerInfo == nil {
-		// should never rich
-		logrus.Fatal("unexpected error")
+		// the peer has been banned meanwhile
+		return
 	}
 
 	switch msg := message.(type) {
-- 
2.43.0


From 49407433c4725e36984f7c4175f2c9aec54f2e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:11 +0000
Subject: [PATCH 31/47] fix: p2p: an invalid block was propagated to the other
 peers

---
 p2p/sync.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index c6b2e24..0c6b04a 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -193,6 +193,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
 			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			return
 		}
 
 		// update peer info
-- 
2.43.0


From 5b6f1f7b2c07fd10ca8f802615b216d33d4963e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:13 +0000
Subject: [PATCH 32/47] fix: p2p: a transaction crashed the node without a
 mempool

---
 p2p/sync.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/p2p/sync.go b/p2p/sync.go
index 0c6b04a..e64da69 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -212,6 +212,11 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		}
 
 	case *consensus.Transaction:
+		// the mempool is optional
+		if s.Mempool == nil {
+			return
+		}
+
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
 			s.Pool.Ban(peer.conn.RemoteAddr().String())
-- 
2.43.0


From 4e122a7229759f65a7596dcbef2d75583be05440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:14 +0000
Subject: [PATCH 33/47] fix: p2p: a failed handshake leaked the connection

---
 p2p/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 87b00e7..081f807 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -73,6 +73,7 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 	logrus.Infof("connected to peer (%s)", addr)
 	shake, err := shakeByHand(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 
-- 
2.43.0


From baef53d3eeeb1450fd44a5309a4578eda51b4afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 34/47] fix: p2p: a peer that stalls in the handshake blocked
 the pool forever

---
 p2p/peer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 081f807..82ed7c3 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -16,8 +16,12 @@ import (
 	"net"
 	"sync"
 	"sync/atomic"
+	"time"
 )
 
+// handshakeTimeout is how long a peer may take for the handshake
+const handshakeTimeout = 30 * time.Second
+
 // Peer is a participant of p2p network
 type Peer struct {
 	conn net.Conn
@@ -71,11 +75,13 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 	}
 
 	logrus.Infof("connected to peer (%s)", addr)
+	conn.SetDeadline(time.Now().Add(handshakeTimeout))
 	shake, err := shakeByHand(conn)
 	if err != nil {
 		conn.Close()
 		return nil, err
 	}
+	conn.SetDeadline(time.Time{})
 
 	p := new(Peer)
 	p.conn = conn
-- 
2.43.0


From 82a59d59b48239116c3f772f8701e4c6446cddd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:18 +0000
Subject: [PATCH 35/47] fix: p2p: the handshake did not check the genesis, and
 its reply did not have it

---
 p2p/handshake.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index b6f9acc..0105050 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -260,6 +260,11 @@ func shakeByHand(conn net.Conn) (*shake, error) {
 		return nil, err
 	}
 
+	// Only connect to peers on the same chain
+	if !bytes.Equal(sh.Genesis, chain.Testnet4.Hash()) {
+		return nil, errors.New("peer is on a different chain")
+	}
+
 	return sh, nil
 }
 
@@ -278,12 +283,18 @@ func handByShake(conn net.Conn) (*hand, error) {
 		return &h, errors.New("detect connection to ourselves by nonce")
 	}
 
+	// Only connect to peers on the same chain
+	if !bytes.Equal(h.Genesis, chain.Testnet4.Hash()) {
+		return &h, errors.New("peer is on a different chain")
+	}
+
 	// Send shake
 	msg := shake{
 		Version:         consensus.ProtocolVersion,
 		Capabilities:    consensus.CapFullNode,
 		TotalDifficulty: consensus.Difficulty(1),
 		UserAgent:       userAgent,
+		Genesis:         chain.Testnet4.Hash(),
 	}
 	if _, err := WriteMessage(conn, &msg); err != nil {
 		return nil, err
-- 
2.43.0


From 232e7618ee284a02483407891dd1917bb6de0fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:20 +0000
Subject: [PATCH 36/47] fix: p2p: a length field of a message could crash the
 node

---
 p2p/handshake.go | 8 ++++++++
 p2p/messages.go  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/p2p/handshake.go b/p2p/handshake.go
index 0105050..110d77e 100644
--- a/p2p/handshake.go
+++ b/p2p/handshake.go
@@ -123,6 +123,10 @@ func (h *hand) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > consensus.MaxMsgLen {
+		return errors.New("too big user agent")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
@@ -210,6 +214,10 @@ func (h *shake) Read(r io.Reader) error {
 		return err
 	}
 
+	if userAgentLen > consensus.MaxMsgLen {
+		return errors.New("too big user agent")
+	}
+
 	buff := make([]byte, userAgentLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
diff --git a/p2p/messages.go b/p2p/messages.go
index 62a2d90..5f4a073 100644
--- a/p2p/messages.go
+++ b/p2p/messages.go
@@ -207,6 +207,10 @@ func (p *PeerError) Read(r io.Reader) error {
 		return err
 	}
 
+	if messageLen > consensus.MaxMsgLen {
+		return errors.New("too big error message")
+	}
+
 	buff := make([]byte, messageLen)
 	if _, err := io.ReadFull(r, buff); err != nil {
 		return err
-- 
2.43.0


From ff9881b136f31e809854efc2db7b2c2b5c49fd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:21 +0000
Subject: [PATCH 37/47] fix: p2p: ipv6 addresses were cut to 8 bytes, and could
 not be read

---
 p2p/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helpers.go b/p2p/helpers.go
index 51e850f..de1e7a6 100644
--- a/p2p/helpers.go
+++ b/p2p/helpers.go
@@ -36,7 +36,7 @@ func serializeTCPAddr(buff io.Writer, addr *net.TCPAddr) {
 				logrus.Fatal(err)
 			}
 
-			for i := 0; i < 8; i += 2 {
+			for i := 0; i < net.IPv6len; i += 2 {
 				segment := (uint16(IP[i]) << 8) + uint16(IP[i+1])
 
 				if err := binary.Write(buff, binary.BigEndian, segment); err != nil {
@@ -73,10 +73,10 @@ func deserializeTCPAddr(r io.Reader) (*net.TCPAddr, error) {
 	case 1: // for ipv6 addr
 		ipAddr = make([]byte, net.IPv6len)
 
-		for i := 0; i < 8; i += 2 {
+		for i := 0; i < net.IPv6len; i += 2 {
 			var segment uint16
 
-			if err := binary.Read(r, binary.BigEndian, segment); err != nil {
+			if err := binary.Read(r, binary.BigEndian, &segment); err != nil {
 				return nil, err
 			}
 
-- 
2.43.0


From a41c19af20c88e8bea0c934c57106cc034d51f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:23 +0000
Subject: [PATCH 38/47] fix: p2p: reading a message left the rest of its frame
 in the stream

---
 p2p/protocol.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/p2p/protocol.go b/p2p/protocol.go
index ba25bf0..02c1c8e 100644
--- a/p2p/protocol.go
+++ b/p2p/protocol.go
@@ -9,6 +9,7 @@ import (
 	"errors"
 	"github.com/dblokhin/gringo/consensus"
 	"io"
+	"io/ioutil"
 )
 
 const (
@@ -71,5 +72,11 @@ func ReadMessage(r io.Reader, msg Message) (uint64, error) {
 	}
 
 	rb := io.LimitReader(r, int64(header.Len))
-	return uint64(consensus.HeaderLen) + uint64(header.Len), msg.Read(rb)
+	if err := msg.Read(rb); err != nil {
+		return uint64(consensus.HeaderLen) + uint64(header.Len), err
+	}
+
+	// skip the rest of the message, the next one begins after it
+	_, err := io.Copy(ioutil.Discard, rb)
+	return uint64(consensus.HeaderLen) + uint64(header.Len), err
 }
-- 
2.43.0


From bb496f8e1fd470330ef453c8550e1cffb793fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:25 +0000
Subject: [PATCH 39/47] fix: secp256k1zkp: a random scalar could be the group
 order

---
 secp256k1zkp/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 3919ec0..3e76cf3 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -38,7 +38,7 @@ retry:
 	r := &big.Int{}
 	r.SetBytes(buf[:])
 
-	if r.Cmp(btcec.S256().N) == 1 {
+	if r.Cmp(btcec.S256().N) >= 0 {
 		goto retry
 	}
 
-- 
2.43.0


From ff851a8b491d8d22eade53449c3835fa95063fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:18 +0000
Subject: [PATCH 40/47] fix: never sign with a zero nonce

---
 secp256k1zkp/schnorr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/secp256k1zkp/schnorr.go b/secp256k1zkp/schnorr.go
index 3e76cf3..7c0832a 100644
--- a/secp256k1zkp/schnorr.go
+++ b/secp256k1zkp/schnorr.go
@@ -30,7 +30,7 @@ func RandomBytes() [32]byte {
 	return buf
 }
 
-// RandomInt returns a scalar from Z_n.
+// RandomInt returns a non-zero scalar from Z_n.
 func RandomInt() *big.Int {
 retry:
 	buf := RandomBytes()
@@ -38,7 +38,7 @@ retry:
 	r := &big.Int{}
 	r.SetBytes(buf[:])
 
-	if r.Cmp(btcec.S256().N) >= 0 {
+	if r.Sign() == 0 || r.Cmp(btcec.S256().N) >= 0 {
 		goto retry
 	}
 
-- 
2.43.0


From a4ca0176e202f2657cc7a7ce5ad7b60ac92af16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:47 +0000
Subject: [PATCH 41/47] fix: end an incoming handshake that fails or stalls

---
 p2p/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p2p/peer.go b/p2p/peer.go
index 82ed7c3..509daa9 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -104,10 +104,13 @@ func NewPeer(sync *Syncer, addr string) (*Peer, error) {
 func AcceptNewPeer(conn net.Conn) (*Peer, error) {
 
 	logrus.Info("accept new peer")
+	conn.SetDeadline(time.Now().Add(handshakeTimeout))
 	hand, err := handByShake(conn)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
+	conn.SetDeadline(time.Time{})
 
 	p := new(Peer)
 	p.conn = conn
-- 
2.43.0


From 7a43b7ef4c85dbf902cda10df4d03e68b6ba840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:34 +0000
Subject: [PATCH 42/47] fix: p2p: a peer that does not read blocked the pool
 forever

---
 p2p/pool.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index 4477020..c8f72f0 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -273,13 +273,14 @@ func (pp *peersPool) connectPeer(addr string) error {
 	pp.ConnectedPeers[addr] = peerInfo
 	pp.cpmu.Unlock()
 
-	// And send ping / peers request
 	peerConn.Start()
-	peerConn.SendPing()
-	peerConn.SendPeerRequest(consensus.CapFullNode)
 
-	// on disconnect update info
 	go func() {
+		// And send ping / peers request, the peer may be slow to take them
+		peerConn.SendPing()
+		peerConn.SendPeerRequest(consensus.CapFullNode)
+
+		// on disconnect update info
 		peerConn.WaitForDisconnect()
 		logrus.Infof("closed peer connection (%s)", addr)
 
-- 
2.43.0


From 8b6f98aa4b7a984ca4b87eb0a7fa66b913d7b480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:35 +0000
Subject: [PATCH 43/47] fix: p2p: a slot was freed before its connection was
 closed

---
 p2p/peer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p2p/peer.go b/p2p/peer.go
index 509daa9..5d62c17 100644
--- a/p2p/peer.go
+++ b/p2p/peer.go
@@ -358,8 +358,9 @@ func (p *Peer) Disconnect(reason error) {
 
 	logrus.Info("Disconnect peer: ", reason)
 
-	close(p.quit)
+	// WaitForDisconnect returns after quit: the connection is closed by then
 	p.conn.Close()
+	close(p.quit)
 }
 
 // Close the connection to the remote peer
-- 
2.43.0


From 365743174616d0d0e14560238b2a8bd22a91e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 44/47] fix: p2p: a misbehaving peer known by another address
 than its connection's was not banned

---
 p2p/sync.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index e64da69..86a99b2 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -176,7 +176,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 	case *BlockHeaders:
 		if err := s.Chain.ProcessHeaders(msg.Headers); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 	case *GetBlock:
@@ -192,7 +192,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 		if err := s.Chain.ProcessBlock(msg); err != nil {
 			logrus.Info(err)
 			// TODO: maybe smarter ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 			return
 		}
 
@@ -219,7 +219,7 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 
 		if err := s.Mempool.ProcessTx(msg); err != nil {
 			// ban peer ?
-			s.Pool.Ban(peer.conn.RemoteAddr().String())
+			s.Pool.Ban(peer.Addr)
 		}
 
 		// TODO: propagate tx?
-- 
2.43.0


From a7d98d4c9c5dcbd516d33ee303b7bf4fb8fa514d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 45/47] fix: p2p: the status and height of peers were read
 without their lock

---
 p2p/pool.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/p2p/pool.go b/p2p/pool.go
index c8f72f0..0c486e8 100644
--- a/p2p/pool.go
+++ b/p2p/pool.go
@@ -39,7 +39,7 @@ func newPeersPool(sync *Syncer) *peersPool {
 
 // peersPool control connections with peers
 type peersPool struct {
-	ptmu sync.Mutex // mutex for PeersTable
+	ptmu sync.Mutex // mutex for PeersTable, the Status & Capabilities of its peers
 	cpmu sync.Mutex // mutex for ConnectedPeers
 	bnmu sync.Mutex // mutex for BannedPeers
 
@@ -76,7 +76,7 @@ func (pp *peersPool) Ban(addr string) {
 
 	// Mark banned & Close connection
 	peerInfo.Lock()
-	peerInfo.Status = psBanned
+	pp.setStatus(peerInfo, psBanned)
 	peer := peerInfo.Peer
 	peerInfo.Unlock()
 
@@ -206,11 +206,17 @@ func (pp *peersPool) PropagateBlock(block *consensus.Block) {
 
 	for _, pi := range pp.ConnectedPeers {
 		go func(peerInfo *peerInfo) {
+			var peer *Peer
+
+			peerInfo.Lock()
 			// propagate if peer height or totalDiff less than newest block
 			if peerInfo.Height < block.Header.Height || peerInfo.TotalDifficulty < block.Header.TotalDifficulty {
-				if peer := peerInfo.Peer; peer != nil {
-					peer.SendBlock(block)
-				}
+				peer = peerInfo.Peer
+			}
+			peerInfo.Unlock()
+
+			if peer != nil {
+				peer.SendBlock(block)
 			}
 		}(pi)
 	}
@@ -247,7 +253,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 
 	peerConn, err := NewPeer(pp.sync, addr)
 	if err != nil {
-		peerInfo.Status = psFailedConn
+		pp.setStatus(peerInfo, psFailedConn)
 		return err
 	}
 
@@ -259,14 +265,17 @@ func (pp *peersPool) connectPeer(addr string) error {
 	atomic.AddInt32(&pp.connected, 1)
 
 	// update peers table
-	peerInfo.Peer = peerConn
+	pp.ptmu.Lock()
 	peerInfo.Status = psConnected
+	peerInfo.Capabilities = peerConn.Info.Capabilities
+	pp.ptmu.Unlock()
+
+	peerInfo.Peer = peerConn
 	peerInfo.LastConn = time.Now()
 
 	peerInfo.ProtocolVersion = peerConn.Info.Version
 	peerInfo.Height = peerConn.Info.Height
 	peerInfo.TotalDifficulty = peerConn.Info.TotalDifficulty
-	peerInfo.Capabilities = peerConn.Info.Capabilities
 
 	// update connected peers
 	pp.cpmu.Lock()
@@ -287,7 +296,7 @@ func (pp *peersPool) connectPeer(addr string) error {
 		// update peers & connected peers tables
 		peerInfo.Lock()
 		if peerInfo.Status != psBanned {
-			peerInfo.Status = psDisconnected
+			pp.setStatus(peerInfo, psDisconnected)
 		}
 
 		// clean connected peers
@@ -333,7 +342,7 @@ out:
 				peerInfo.Peer.Close()
 			}
 			if peerInfo.Status != psBanned {
-				peerInfo.Status = psDisconnected
+				pp.setStatus(peerInfo, psDisconnected)
 			}
 			peerInfo.Unlock()
 		}(pi)
@@ -368,6 +377,13 @@ func (pp *peersPool) notConnected() string {
 	return ""
 }
 
+// setStatus updates status of the locked peer
+func (pp *peersPool) setStatus(peerInfo *peerInfo, status peerStatus) {
+	pp.ptmu.Lock()
+	peerInfo.Status = status
+	pp.ptmu.Unlock()
+}
+
 type peerInfo struct {
 	sync.Mutex
 
-- 
2.43.0


From 0195b507a972ef363a3fb8bd6fc882270215b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 46/47] fix: consensus: serialising a block or a transaction
 sorted its lists in place

---
 consensus/block.go       | 12 ++++++++++++
 consensus/transaction.go |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/consensus/block.go b/consensus/block.go
index 91466b0..5341668 100644
--- a/consensus/block.go
+++ b/consensus/block.go
@@ -99,6 +99,12 @@ func (b *Block) Bytes() []byte {
 	}
 
 	// consensus rule: input, output, kernels MUST BE sorted!
+	// (in copies of the lists, the block may be in use elsewhere)
+	b = &Block{
+		Inputs:  append(InputList(nil), b.Inputs...),
+		Outputs: append(OutputList(nil), b.Outputs...),
+		Kernels: append(TxKernelList(nil), b.Kernels...),
+	}
 	sort.Sort(b.Inputs)
 	sort.Sort(b.Outputs)
 	sort.Sort(b.Kernels)
@@ -375,6 +381,12 @@ func (b *CompactBlock) Bytes() []byte {
 	}
 
 	// consensus rule: input, output, kernels MUST BE sorted!
+	// (in copies of the lists, the block may be in use elsewhere)
+	b = &CompactBlock{
+		Outputs:   append(OutputList(nil), b.Outputs...),
+		Kernels:   append(TxKernelList(nil), b.Kernels...),
+		KernelIDs: append(ShortIDList(nil), b.KernelIDs...),
+	}
 	sort.Sort(b.Outputs)
 	sort.Sort(b.Kernels)
 	sort.Sort(b.KernelIDs)
diff --git a/consensus/transaction.go b/consensus/transaction.go
index f2a14ee..168fd76 100644
--- a/consensus/transaction.go
+++ b/consensus/transaction.go
@@ -49,6 +49,12 @@ func (t *Transaction) Bytes() []byte {
 
 	// Consensus rule that everything is sorted in lexicographical order on the wire
 	// consensus rule: input, output, kernels MUST BE sorted!
+	// (in copies of the lists, they may be in use elsewhere)
+	t = &Transaction{
+		Inputs:  append(InputList(nil), t.Inputs...),
+		Outputs: append(OutputList(nil), t.Outputs...),
+		Kernels: append(TxKernelList(nil), t.Kernels...),
+	}
 	sort.Sort(t.Inputs)
 	sort.Sort(t.Outputs)
 	sort.Sort(t.Kernels)
-- 
2.43.0


From 092640671dcdffd979f39e53533f77e233c457a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:35 +0000
Subject: [PATCH 47/47] fix: p2p: the height of the chain was read without its
 lock before a relay

---
 p2p/sync.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/sync.go b/p2p/sync.go
index 86a99b2..8de208d 100644
--- a/p2p/sync.go
+++ b/p2p/sync.go
@@ -206,8 +206,12 @@ func (s *Syncer) ProcessMessage(peer *Peer, message Message) {
 
 		peerInfo.Unlock()
 
+		s.Chain.RLock()
+		height := s.Chain.Height()
+		s.Chain.RUnlock()
+
 		// propagate if it is top block
-		if msg.Header.Height == s.Chain.Height() {
+		if msg.Header.Height == height {
 			s.Pool.PropagateBlock(msg)
 		}
 
-- 
2.43.0

