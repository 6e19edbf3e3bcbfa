From 8d2a6d4cd599e8f4fbac6352858de37ef6d048e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 01/50] fix: decode the smallest 64-bit integer

---
 src/bencode/decode.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 3e86f01..122f2f7 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -166,11 +166,11 @@ func (dc *decoder) decodeInt() (int64, error) {
 
 	dc.curs++
 	var strInt string
-	negMult := int64(1)
+	sign := ""
 
 	// Handle negative ints
 	if dc.curByte() == '-' {
-		negMult = -1
+		sign = "-"
 		dc.curs++
 	}
 
@@ -196,12 +196,14 @@ func (dc *decoder) decodeInt() (int64, error) {
 		}
 	}
 
-	val, err := strconv.ParseInt(strInt, 10, 64)
+	// The sign has to be part of the parsed text, the magnitude of the smallest
+	// int64 doesn't fit an int64
+	val, err := strconv.ParseInt(sign+strInt, 10, 64)
 	if err != nil {
 		return 0, err
 	}
 
-	return val * negMult, nil
+	return val, nil
 }
 
 // ============================================================================
-- 
2.43.0


From c15145c54eba507a3786675ec31265960ed721e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 02/50] fix: bound the nesting depth of decoded bencode

---
 src/bencode/decode.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 122f2f7..a107f25 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -57,6 +57,11 @@ func (dc *decoder) decodeDict() (Dict, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	dict := make(map[string]interface{})
 
@@ -98,6 +103,11 @@ func (dc *decoder) decodeList() (List, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	var list List
 
@@ -209,9 +219,27 @@ func (dc *decoder) decodeInt() (int64, error) {
 // ============================================================================
 // Decoder Struct =============================================================
 
+// maxDepth is how deep lists and dictionaries may nest. The decoder recurses
+// once per level, and running out of stack can't be recovered from.
+const maxDepth = 10000
+
 type decoder struct {
-	data []byte
-	curs uint64
+	data  []byte
+	curs  uint64
+	depth int
+}
+
+// enter is called when the decoder steps into a list or dictionary.
+func (dc *decoder) enter() error {
+	if dc.depth >= maxDepth {
+		return &DecoderError{"nested too deep at byte " + strconv.FormatUint(dc.curs, 10)}
+	}
+	dc.depth++
+	return nil
+}
+
+func (dc *decoder) leave() {
+	dc.depth--
 }
 
 func (dc *decoder) curByte() byte {
-- 
2.43.0


From 1da5b8847658a791c3affc839e2a67dfc8b62826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 03/50] fix: stop collecting the digits of a number that cannot
 fit

---
 src/bencode/decode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index a107f25..4ce13b0 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -147,6 +147,9 @@ func (dc *decoder) decodeString() (string, error) {
 		if dc.curByte() >= '0' && dc.curByte() <= '9' {
 			strLen += string(dc.curByte())
 			dc.curs++
+			if len(strLen) > maxDigits {
+				return "", &DecoderError{"string length too long at byte " + strconv.FormatUint(dc.curs, 10)}
+			}
 		} else if dc.curByte() == ':' {
 			dc.curs++
 			break
@@ -198,6 +201,9 @@ func (dc *decoder) decodeInt() (int64, error) {
 		if dc.curByte() >= '0' && dc.curByte() <= '9' {
 			strInt += string(dc.curByte())
 			dc.curs++
+			if len(strInt) > maxDigits {
+				return 0, &DecoderError{"int too long at byte " + strconv.FormatUint(dc.curs, 10)}
+			}
 		} else if dc.curByte() == 'e' {
 			dc.curs++
 			break
@@ -223,6 +229,10 @@ func (dc *decoder) decodeInt() (int64, error) {
 // once per level, and running out of stack can't be recovered from.
 const maxDepth = 10000
 
+// maxDigits is more digits than any 64-bit number has. Collecting digits is
+// quadratic, megabytes of them would keep the decoder busy for hours.
+const maxDigits = 20
+
 type decoder struct {
 	data  []byte
 	curs  uint64
-- 
2.43.0


From 096314fa96ce77e078f05321fc810e33a65cf054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 04/50] fix: refuse negative numbers in unsigned dictionary
 lookups

---
 src/bencode/dict.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bencode/dict.go b/src/bencode/dict.go
index fb0fe1c..7e5ed53 100644
--- a/src/bencode/dict.go
+++ b/src/bencode/dict.go
@@ -75,6 +75,14 @@ func (d Dict) GetUint(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v < 0 {
+		return 0, &DictBadTypeError{
+			key:   key,
+			tWant: "uint64",
+			tHave: "negative int64",
+			dict:  d,
+		}
+	}
 	return uint64(v), nil
 }
 
-- 
2.43.0


From 6e323fa2e9e5a4e8154d3d71466f255ace9b5925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:24 +0000
Subject: [PATCH 05/50] fix: do not decode strings from beyond the end of the
 data

---
 src/bencode/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 4ce13b0..56f7f03 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -163,6 +163,11 @@ func (dc *decoder) decodeString() (string, error) {
 		return "", err
 	}
 
+	// Slicing alone reaches past the data when the slice has spare capacity
+	if uint64(lenVal) > uint64(len(dc.data))-dc.curs {
+		return "", &DecoderError{"read end of data before completion"}
+	}
+
 	str := string(dc.data[dc.curs : dc.curs+uint64(lenVal)])
 	dc.curs += uint64(lenVal)
 
-- 
2.43.0


From c1742a42612cd360e523d4af0c61754668171ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 06/50] fix: keep a bitfield's spare bits clear when filling
 and resizing

---
 src/bf/bitfield.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index 5a4ab05..d3fb057 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -101,12 +101,20 @@ func (bf *Bitfield) calcNset() {
 }
 
 func (bf *Bitfield) Fill() {
-	for i, _ := range bf.data5 {
-		bf.data5[i] = 255
+	for i, _ := range bf.data {
+		bf.data[i] = 255
 	}
+	bf.clearSpare()
 	bf.nset = bf.nbits
 }
 
+// clearSpare zeroes the bits after the last one, the spec requires them to be 0
+func (bf *Bitfield) clearSpare() {
+	if rem := bf.nbits % 8; rem != 0 {
+		bf.data[len(bf.data)-1] &= ^(uint8(255) >> rem)
+	}
+}
+
 func (bf *Bitfield) Get(idx int64) bool {
 	maj := idx / 8
 	min := idx % 8
@@ -162,9 +170,13 @@ func (bf *Bitfield) Nset() int64 {
 // 00000000 00000000 00000xxx
 
 func (bf *Bitfield) SetNbits(nbits int64) {
-	if nbits < (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
+	if nbits <= (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
 		panic("cannot set nbits such that nbytes would change")
 	}
+	if nbits < bf.nbits {
+		bf.nbits = nbits
+		bf.clearSpare()
+	}
 	bf.nbits = nbits
 
 	// TODO: This is lazy
-- 
2.43.0


From 6fc0fcc1deb1859e355306f4f6395e64ed86983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:34 +0000
Subject: [PATCH 07/50] fix: encode request messages with their payload

---
 src/p2p/request.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/p2p/request.go b/src/p2p/request.go
index d494bce..5cfeef7 100644
--- a/src/p2p/request.go
+++ b/src/p2p/request.go
@@ -61,10 +61,11 @@ func (mr *MsgRequest) ReqLen() uint32 {
 // IMPL =======================================================================
 
 func (mr *MsgRequest) Encode() []byte {
-	pl := mr.msgBase.Encode()
-	binary.BigEndian.PutUint32(pl, mr.index)
-	binary.BigEndian.PutUint32(pl, mr.begin)
-	binary.BigEndian.PutUint32(pl, mr.reqlen)
+	pl := make([]byte, MsgRequestTotalLen, MsgRequestTotalLen)
+	mr.msgBase.fillBase(pl)
+	binary.BigEndian.PutUint32(pl[PayloadStart:], mr.index)
+	binary.BigEndian.PutUint32(pl[PayloadStart+4:], mr.begin)
+	binary.BigEndian.PutUint32(pl[PayloadStart+8:], mr.reqlen)
 	return pl
 }
 
-- 
2.43.0


From d35c8b9e4fdd9d97d39621e19a594cdac3689fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 08/50] fix: decode piece messages

---
 src/p2p/message.go |  2 +-
 src/p2p/piece.go   | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 2f4c281..d2cff9e 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -208,7 +208,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgRequestTotalLen)
 	case TypePiece:
 		msg, err = DecodeMsgPiece(payload, msglen)
-		n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	default:
 		msg = nil
 		err = fmt.Errorf("unknown message type %v", mtype)
diff --git a/src/p2p/piece.go b/src/p2p/piece.go
index 85ff91f..d0aadd0 100644
--- a/src/p2p/piece.go
+++ b/src/p2p/piece.go
@@ -78,14 +78,18 @@ func (mp *MsgPiece) String() string {
 // FUNC =======================================================================
 
 func DecodeMsgPiece(payload []byte, length uint32) (*MsgPiece, error) {
-	if uint32(len(payload)) != length {
-		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", MsgHavePayloadLen, len(payload))
+	// length includes the message id, which is not part of the payload
+	if uint64(len(payload))+1 != uint64(length) {
+		return nil, fmt.Errorf("piece message of length %v must have one byte less payload, got %v", length, len(payload))
 	}
 	if uint32(len(payload)) < MsgPieceMinPayloadLen {
 		return nil, fmt.Errorf("piece message payload must be at least %v bytes, got %v", MsgPieceMinPayloadLen, len(payload))
 	}
 	index := binary.BigEndian.Uint32(payload[0:4])
 	begin := binary.BigEndian.Uint32(payload[4:8])
-	block := payload[8:]
+	// Copy the block, the payload is usually part of a receive buffer that
+	// will be overwritten
+	block := make([]byte, len(payload)-8)
+	copy(block, payload[8:])
 	return NewMsgPiece(index, begin, block), nil
 }
-- 
2.43.0


From 1193d88c61d7242453e2d6910237ba85b594270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 09/50] fix: do not let a huge message length wrap around

---
 src/p2p/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index d2cff9e..44b1862 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -165,7 +165,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		// Type 2 = Interested
 		// Type 3 = Not Interested
 		return badResult, fmt.Errorf("invalid message, length for id [0-3] must be 1, got %v", msglen)
-	} else if uint32(len(data)) < 4+msglen {
+	} else if uint64(len(data)) < uint64(MsgLengthPrefixLen)+uint64(msglen) {
 		// Messages with payload
 		return badResult, fmt.Errorf("length specified as %v, payload length is %v", msglen, len(data))
 	}
-- 
2.43.0


From e3e2141afd5cab5ea902dcc4fb810742289074f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 10/50] fix: always step over a message that cannot be decoded

---
 src/p2p/message.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 44b1862..cb8936e 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -200,9 +200,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgHaveTotalLen)
 	case TypeBitfield:
 		msg, err = DecodeMsgBitfield(data, msglen)
-		if err == nil {
-			n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
-		}
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	case TypeRequest:
 		msg, err = DecodeMsgRequest(payload)
 		n = uint64(MsgRequestTotalLen)
@@ -216,6 +214,14 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(len(data))
 	}
 
+	if err != nil {
+		// Don't hand out a typed nil, and don't claim more than there was
+		msg = nil
+		if n > uint64(datalen) {
+			n = uint64(datalen)
+		}
+	}
+
 	return DecodeResult{
 		Msg:  msg,
 		Read: n,
-- 
2.43.0


From 9b5d34247a90e848270f1158a5b1ba68549afb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 11/50] fix: do not encode bitfield messages into the shared
 bitfield

---
 src/p2p/bitfield.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2p/bitfield.go b/src/p2p/bitfield.go
index 214c661..d68a1a9 100644
--- a/src/p2p/bitfield.go
+++ b/src/p2p/bitfield.go
@@ -41,7 +41,8 @@ func (bf *MsgBitfield) Bitfield() *bf.Bitfield {
 // IMPL =======================================================================
 
 func (bf *MsgBitfield) Encode() []byte {
-	data := bf.bitfield.Data5()
+	// The bitfield is shared between peers, fill the header of a copy
+	data := append([]byte{}, bf.bitfield.Data5()...)
 	bf.msgBase.fillBase(data[:5])
 	return data
 }
-- 
2.43.0


From 056175963c7145c4b04ae2d7f47d2e479653affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 12/50] fix: do not pad a set's items with zero values

---
 src/utils/ds/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/ds/set.go b/src/utils/ds/set.go
index 9bb8687..5f593c0 100644
--- a/src/utils/ds/set.go
+++ b/src/utils/ds/set.go
@@ -38,7 +38,7 @@ func (s *Set[T]) Size() int {
 }
 
 func (s *Set[T]) Items() []T {
-	items := make([]T, len(s.set))
+	items := make([]T, 0, len(s.set))
 	for _, v := range s.set {
 		items = append(items, v)
 	}
-- 
2.43.0


From 8fdda96554dd0f6154a6fae0b09edc8291f344e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 13/50] fix: keep pieces of 63 and more peers in the last
 bucket

---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index d18999d..85681ce 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -104,7 +104,7 @@ func (ppt *PeerPieceTracker) register(whom *PeerHandler, index uint32) {
 	if !node.Data.peerSet.Has(whom) {
 		// Move to next bucket, unless this is the largest bucket
 		oldCount := node.Data.peerSet.Size()
-		if oldCount < numBuckets {
+		if oldCount < numBuckets-1 {
 			ppt.buckets[oldCount].Remove(node)
 			ppt.buckets[oldCount+1].AddNodeFront(node)
 		}
@@ -132,7 +132,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 			// leaves it in the largest bucket. I.e, numBuckets = 50
 			// and oldCount = 52, then the node should remain in bucket 50.
 			oldCount := node.Data.peerSet.Size()
-			if oldCount <= numBuckets {
+			if oldCount < numBuckets {
 				ppt.buckets[oldCount].Remove(node)
 				ppt.buckets[oldCount-1].AddNodeFront(node)
 			}
-- 
2.43.0


From ac2f9188eeac73664e6e4e6684da6b65bcb95a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 14/50] fix: mark the piece itself as active, not a copy of it

---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 85681ce..54659c8 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -155,14 +155,14 @@ func (ppt *PeerPieceTracker) NextPiece(whom *PeerHandler) (uint32, bool) {
 
 		cur := ppt.buckets[i].Head()
 		for cur != nil {
-			curPiece := cur.Data
+			curPiece := &cur.Data
 			// If the piece is needed
 			if !ppt.bf.Get(int64(curPiece.index)) {
 				// If the piece isn't taken by another peer, and
 				// the peer has the piece
 				if !curPiece.active && curPiece.peerSet.Has(whom) {
 					curPiece.active = true
-					ppt.requests[whom] = append(ppt.requests[whom], &curPiece)
+					ppt.requests[whom] = append(ppt.requests[whom], curPiece)
 					return curPiece.index, true
 				}
 			}
-- 
2.43.0


From c03d1345427f64e0e9b20005e3909a58e3f2de8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 15/50] fix: forget a peer's requests when it leaves

---
 src/swarm/piecetracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 54659c8..aa80468 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -123,6 +123,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 	for _, p := range ppt.requests[whom] {
 		p.active = false
 	}
+	delete(ppt.requests, whom)
 
 	// Remove peer from all index peer sets
 	for _, node := range ppt.nodes {
-- 
2.43.0


From 70b9e91bb53ab08f7d015f74eace7d0cb79dc5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 16/50] fix: ignore announced pieces that do not exist

---
 src/swarm/piecetracker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index aa80468..6817846 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -98,6 +98,9 @@ func (ppt *PeerPieceTracker) Register(whom *PeerHandler, indices ...uint32) {
 // This should only be called by Register or RegisterBF, which have acquired
 // the lock.
 func (ppt *PeerPieceTracker) register(whom *PeerHandler, index uint32) {
+	if int64(index) >= int64(len(ppt.nodes)) {
+		return // There is no such piece
+	}
 	node := ppt.nodes[index]
 
 	// Update piece's "peers" set
-- 
2.43.0


From f792f65f7d2171872a1cdbebfb6cad1ef7ca6869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 17/50] fix: compute a piece's offset in a file directly

---
 src/torrent/filesd/entry.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/torrent/filesd/entry.go b/src/torrent/filesd/entry.go
index 4719137..1e87023 100644
--- a/src/torrent/filesd/entry.go
+++ b/src/torrent/filesd/entry.go
@@ -98,15 +98,11 @@ func (few *Entry) PieceInfo(index int64, pieceLen int64) (PieceInfo, error) {
 	cursorIdx := few.startPieceIdx
 	cursorOff := few.startPieceOff
 
-	// Adjust seekAmnt
-	for {
-		if cursorIdx == index {
-			break
-		}
-
-		seekAmnt += pieceLen - cursorOff
+	// Adjust seekAmnt. Counting up piece by piece would take quadratic time
+	// for all the pieces of a file.
+	if cursorIdx < index {
+		seekAmnt = (index-cursorIdx)*pieceLen - cursorOff
 		cursorOff = 0
-		cursorIdx++
 	}
 
 	// Adjust readAmnt
-- 
2.43.0


From 6e24f8e51369e950e21e460d97490aa5ad4fb341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 18/50] fix: give empty files no bytes when pieces are a single
 byte long

---
 src/torrent/filesd/flist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/torrent/filesd/flist.go b/src/torrent/filesd/flist.go
index 5063816..bc2d979 100644
--- a/src/torrent/filesd/flist.go
+++ b/src/torrent/filesd/flist.go
@@ -15,6 +15,11 @@ func MakeFileList(entries []EntryBase, pieceLen int64) FileList {
 		startOff := offset
 		endPiece := index + ((tfe.Length() - 1) / pieceLen)
 		endOff := offset + ((tfe.Length() - 1) % pieceLen)
+		if tfe.Length() == 0 {
+			// Ends before it starts, also when pieces are a single byte
+			endPiece = index
+			endOff = offset - 1
+		}
 		if endOff >= pieceLen {
 			endPiece += endOff / pieceLen
 			endOff %= pieceLen
-- 
2.43.0


From 3bca2494605e5b02dffad36786b261b7c5110751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:55 +0000
Subject: [PATCH 19/50] fix: reject inconsistent piece lengths, file lengths
 and hash counts

---
 src/torrent/info/info.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index c948d57..a97ae47 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -25,6 +26,10 @@ func (fme *FileMetaError) Error() string {
 // ============================================================================
 // STRUCTS ====================================================================
 
+// maxPieceLen is the largest piece length accepted. Offsets within a piece are
+// 32-bit numbers in the peer protocol.
+const maxPieceLen = math.MaxInt32
+
 // TorInfo holds the metadata found in a torrent's info dictionary.
 type TorInfo struct {
 	name      string `info:"name"`
@@ -160,12 +165,30 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 		return nil, errors.New("hashes must be multiple of 20")
 	}
 
+	if pieceLen <= 0 || pieceLen > maxPieceLen {
+		return nil, fmt.Errorf("invalid piece length %v", pieceLen)
+	}
+
 	length := int64(0)
 
 	for _, fentry := range files {
+		if fentry.Length() < 0 {
+			return nil, fmt.Errorf("file [%v] has negative length", fentry.TorPath())
+		}
+		if fentry.Length() > math.MaxInt64-length {
+			return nil, errors.New("total length is too large")
+		}
 		length += fentry.Length()
 	}
 
+	wantPieces := length / pieceLen
+	if length%pieceLen != 0 {
+		wantPieces++
+	}
+	if int64(len(hashes)/20) != wantPieces {
+		return nil, fmt.Errorf("have %v piece hashes for %v pieces", len(hashes)/20, wantPieces)
+	}
+
 	flist := filesd.MakeFileList(files, pieceLen)
 
 	npieces := int64(len(hashes) / 20)
-- 
2.43.0


From 1a02941cade0ea5f16db92b0b2c6e457998f2a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 20/50] fix: keep a torrent's files inside its folder

---
 src/torrent/filesd/entrybase.go | 18 ++++++++++++++++++
 src/torrent/info/info.go        |  5 +++++
 2 files changed, 23 insertions(+)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index 269abcd..2a07f5e 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -3,6 +3,7 @@ package filesd
 import (
 	"errors"
 	"fmt"
+	"os"
 	"strings"
 
 	"gotor/bencode"
@@ -51,6 +52,16 @@ func MakeFileEntry(torPath string, length int64) EntryBase {
 	}
 }
 
+// CheckPathComponent returns an error if a torrent's name or path component
+// can't be the name of a file or folder, or would lead out of its folder.
+func CheckPathComponent(comp string) error {
+	if comp == "" || comp == "." || comp == ".." ||
+		strings.ContainsRune(comp, '/') || strings.ContainsRune(comp, os.PathSeparator) {
+		return fmt.Errorf("invalid path component [%v]", comp)
+	}
+	return nil
+}
+
 func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 	entries := make([]EntryBase, 0, 1)
 
@@ -70,6 +81,10 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			return nil, err
 		}
 
+		if len(fPathList) == 0 {
+			return nil, errors.New("file entry has an empty path")
+		}
+
 		// Read through list of path strings
 		strb := strings.Builder{}
 
@@ -78,6 +93,9 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			if !ok {
 				return nil, fmt.Errorf(fmt.Sprintf("file entry contains invalid path [%v]", fPathEntry))
 			}
+			if err = CheckPathComponent(pathPiece); err != nil {
+				return nil, err
+			}
 			strb.WriteString(pathPiece)
 			strb.WriteByte('/')
 		}
diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index a97ae47..b828f5e 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -223,6 +223,11 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 		return nil, err
 	}
 
+	err = filesd.CheckPathComponent(name)
+	if err != nil {
+		return nil, err
+	}
+
 	pieceLen, err := info.GetInt("piece length")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From dcd6380dd1e8161e9e8c766d9eb96da96731fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 21/50] fix: reject torrents whose files share a path

---
 src/torrent/info/info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index b828f5e..9e5ec61 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -170,8 +170,15 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 	}
 
 	length := int64(0)
+	localPaths := make(map[string]bool)
 
 	for _, fentry := range files {
+		localPath := filepath.Clean(fentry.LocalPath())
+		if localPaths[localPath] {
+			return nil, fmt.Errorf("path [%v] is used twice", localPath)
+		}
+		localPaths[localPath] = true
+
 		if fentry.Length() < 0 {
 			return nil, fmt.Errorf("file [%v] has negative length", fentry.TorPath())
 		}
-- 
2.43.0


From 386c72b1ce16e82bdb8585c84b7c9149e7ea1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 22/50] fix: create torrents with pieces larger than the buffer

---
 src/torrent/info/info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 9e5ec61..13321dc 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -88,7 +88,14 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 	const mib = 1048576
 	const maxBuf = 5 * mib
 
+	if pieceLen <= 0 || pieceLen > maxPieceLen {
+		return nil, fmt.Errorf("invalid piece length %v", pieceLen)
+	}
+
 	npieces := maxBuf / pieceLen
+	if npieces == 0 {
+		npieces = 1 // Hold at least one piece
+	}
 	bufSize := npieces * pieceLen
 
 	buf := make([]byte, bufSize, bufSize)
-- 
2.43.0


From a630cb9adb9436524436fcef9ee89565c9b4ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 23/50] fix: compute the infohash from the torrent file's own
 bytes

---
 src/bencode/decode.go  | 55 ++++++++++++++++++++++++++++++++++++++++++
 src/torrent/torrent.go |  6 ++++-
 2 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 56f7f03..88cb89c 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -48,6 +48,61 @@ func Decode(data []byte) (ret interface{}, err error) {
 	return ret, err
 }
 
+// RawValue returns the bytes of the value stored under key in the dictionary
+// data, exactly as they are in data.
+func RawValue(data []byte, key string) (ret []byte, err error) {
+
+	dc := decoder{data: data, curs: 0}
+
+	defer func() {
+		if r := recover(); r != nil {
+			ret, err = nil, &DecoderError{"read end of data before completion"}
+		}
+	}()
+
+	if dc.curByte() != 'd' {
+		return nil, &DecoderError{"not a dictionary"}
+	}
+	dc.curs++
+	dc.depth++
+
+	found := false
+	for dc.curByte() != 'e' {
+		k, err := dc.decodeString()
+		if err != nil {
+			return nil, err
+		}
+
+		start := dc.curs
+		switch dc.curByte() {
+		case 'i':
+			_, err = dc.decodeInt()
+		case 'l':
+			_, err = dc.decodeList()
+		case 'd':
+			_, err = dc.decodeDict()
+		default:
+			_, err = dc.decodeString()
+		}
+		if err != nil {
+			return nil, err
+		}
+
+		if k == key {
+			if found {
+				return nil, &DecoderError{"duplicate key [" + key + "]"}
+			}
+			found = true
+			ret = data[start:dc.curs]
+		}
+	}
+
+	if !found {
+		return nil, &DecoderError{"missing key [" + key + "]"}
+	}
+	return ret, nil
+}
+
 // ============================================================================
 // Private ====================================================================
 
diff --git a/src/torrent/torrent.go b/src/torrent/torrent.go
index 3fd7168..4421b5d 100644
--- a/src/torrent/torrent.go
+++ b/src/torrent/torrent.go
@@ -97,7 +97,11 @@ func FromTorrentFile(torpath string, workingDir string) (*Torrent, error) {
 		return nil, err
 	}
 
-	enc, _ := bencode.Encode(infodict)
+	// Encoding the decoded dictionary again doesn't always give the same bytes
+	enc, err := bencode.RawValue(fdata, "info")
+	if err != nil {
+		return nil, err
+	}
 	tor.infohash = utils.SHA1(enc)
 
 	torInfo, err := info.FromDict(infodict, workingDir)
-- 
2.43.0


From ebc6f16e16490cefdf9e6c8634f25b6408745a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 24/50] fix: do not empty a file that could not be opened

---
 src/utils/futils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/utils/futils.go b/src/utils/futils.go
index 787af5c..c0d103f 100644
--- a/src/utils/futils.go
+++ b/src/utils/futils.go
@@ -67,8 +67,12 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 
 	fp, e := os.OpenFile(fpath, os.O_RDWR, 0666)
 
-	// Create new file
+	// Create new file. Any other error doesn't mean that there is no file, and
+	// creating would empty it.
 	if e != nil {
+		if !os.IsNotExist(e) {
+			return nil, e
+		}
 		fp, e = CreateZeroFilledFile(fpath, length)
 		if e != nil {
 			return nil, e
-- 
2.43.0


From 6e524bbf06928625e2cc2eef4fefab6cbe5d926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 25/50] fix: report a malformed announce URL instead of
 crashing on it

---
 src/tracker/tracker.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 0ccb16a..e907ce7 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -75,7 +75,10 @@ func (s State) Leechers() uint64 {
 // FUNK =======================================================================
 
 func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Response, error) {
-	req := newRequest(tor, stats, port, peerId)
+	req, e := newRequest(tor, stats, port, peerId)
+	if e != nil {
+		return nil, e
+	}
 	resp, e := do(req)
 	if e != nil {
 		return nil, e
@@ -83,8 +86,11 @@ func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Respo
 	return resp, nil
 }
 
-func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) *http.Request {
-	req, _ := http.NewRequest("GET", tor.Announce(), nil)
+func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*http.Request, error) {
+	req, e := http.NewRequest("GET", tor.Announce(), nil)
+	if e != nil {
+		return nil, e
+	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
 	query.Add("peer_id", url.QueryEscape(peerId))
@@ -94,7 +100,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	query.Add("left", fmt.Sprintf("%v", stats.Left()))
 	query.Add("compact", "1") // For compact peer list (BEP_0023)
 	req.URL.RawQuery = query.Encode()
-	return req
+	return req, nil
 }
 
 func do(req *http.Request) (*Response, error) {
-- 
2.43.0


From c76e4c2738d2f5969984c4835f4430ea1902aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 26/50] fix: escape the peer id once in announces

---
 src/tracker/tracker.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index e907ce7..a6b8cf0 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -6,7 +6,6 @@ import (
 	"io/ioutil"
 	"net"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"gotor/bencode"
@@ -93,7 +92,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
-	query.Add("peer_id", url.QueryEscape(peerId))
+	query.Add("peer_id", peerId)
 	query.Add("port", fmt.Sprintf("%v", port))
 	query.Add("uploaded", fmt.Sprintf("%v", stats.Uploaded()))
 	query.Add("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
-- 
2.43.0


From 0fb0bbde0b39a1e63dbdec015d4b50aeee5de745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 27/50] fix: keep all of the announce URL's own query

---
 src/tracker/tracker.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index a6b8cf0..33aeb3e 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"net"
 	"net/http"
+	"net/url"
 	"strings"
 
 	"gotor/bencode"
@@ -90,7 +91,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	if e != nil {
 		return nil, e
 	}
-	query := req.URL.Query()
+	query := url.Values{}
 	query.Add("info_hash", tor.Infohash())
 	query.Add("peer_id", peerId)
 	query.Add("port", fmt.Sprintf("%v", port))
@@ -98,7 +99,11 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	query.Add("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
 	query.Add("left", fmt.Sprintf("%v", stats.Left()))
 	query.Add("compact", "1") // For compact peer list (BEP_0023)
-	req.URL.RawQuery = query.Encode()
+	// Append to the URL's own query, parsing that loses what it can't make sense of
+	if req.URL.RawQuery != "" {
+		req.URL.RawQuery += "&"
+	}
+	req.URL.RawQuery += query.Encode()
 	return req, nil
 }
 
-- 
2.43.0


From 7058f34df3772585c451ca8fee9d822948f93ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 28/50] fix: reject peers with a bad address or port in
 dictionary peer lists

---
 src/tracker/tracker.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 33aeb3e..ada127d 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"net/http"
 	"net/url"
@@ -246,15 +247,22 @@ func (l listSource) GetPeers() (peer.List, error) {
 		if err != nil {
 			return nil, err
 		}
+		parsedIp := net.ParseIP(ip)
+		if parsedIp == nil {
+			return nil, &Error{msg: fmt.Sprintf("invalid peer address [%v]", ip)}
+		}
 		port, err := peerDict.GetUint("port")
 		if err != nil {
 			return nil, err
 		}
+		if port > math.MaxUint16 {
+			return nil, &Error{msg: fmt.Sprintf("invalid peer port [%v]", port)}
+		}
 		id, err := peerDict.GetString("peer id")
 		if err != nil {
 			return nil, err
 		}
-		peerList = append(peerList, peer.MakePeer(id, net.ParseIP(ip), uint16(port)))
+		peerList = append(peerList, peer.MakePeer(id, parsedIp, uint16(port)))
 	}
 	return peerList, nil
 }
-- 
2.43.0


From 4b0caaece311a8011fe3a9dde5adc87c9132c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 29/50] fix: read the tracker id of a tracker reply

---
 src/tracker/tracker.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index ada127d..2d43322 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -198,6 +198,11 @@ func newResponse(dict bencode.Dict) (*Response, error) {
 		state.warning = warn
 	}
 
+	tid, err := dict.GetString("tracker id")
+	if err == nil {
+		state.tid = tid
+	}
+
 	minInter, err := dict.GetUint("min interval")
 	if err == nil {
 		state.minInterval = minInter
-- 
2.43.0


From 59f16b81dba4e652bb9153666f2c70fe25a6988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:43 +0000
Subject: [PATCH 30/50] fix: put brackets around IPv6 addresses of peers

---
 src/peer/info.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/peer/info.go b/src/peer/info.go
index 927832c..444c64c 100644
--- a/src/peer/info.go
+++ b/src/peer/info.go
@@ -3,7 +3,7 @@ package peer
 import (
 	"fmt"
 	"net"
-	"strings"
+	"strconv"
 )
 
 type Info struct {
@@ -15,16 +15,11 @@ type Info struct {
 }
 
 func MakePeer(id string, ip net.IP, port uint16) Info {
-	strb := strings.Builder{}
-	strb.WriteString(ip.String())
-	strb.WriteByte(':')
-	strb.WriteString(fmt.Sprintf("%v", port))
-
 	return Info{
 		id:   id,
 		ip:   ip,
 		port: port,
-		addr: strb.String(),
+		addr: net.JoinHostPort(ip.String(), strconv.Itoa(int(port))),
 		str:  fmt.Sprintf("%v @ %v:%v", id, ip, port),
 	}
 }
-- 
2.43.0


From 0b6453d70a12b131a893d72558d3f4c40f49712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:44 +0000
Subject: [PATCH 31/50] fix: refuse rate limits beyond 64 bits

---
 src/utils/opts.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 92f3bb4..4a1ad62 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -99,9 +99,9 @@ func parseSizeUnits(str string) (int64, error) {
 	}
 
 	i := 0
-	mult := int64(1)
+	sign := ""
 	if str[0] == '-' {
-		mult = -1
+		sign = "-"
 		i++
 	}
 
@@ -116,11 +116,12 @@ func parseSizeUnits(str string) (int64, error) {
 		}
 	}
 
-	v, e := strconv.Atoi(strb.String())
+	// The sign has to be part of the parsed text, the magnitude of the smallest
+	// int64 doesn't fit an int64
+	val, e := strconv.ParseInt(sign+strb.String(), 10, 64)
 	if e != nil {
 		return 0, e
 	}
-	val := int64(v) * mult
 
 	// No letter, assume units BYTES
 	if i == lenstr {
@@ -133,19 +134,25 @@ func parseSizeUnits(str string) (int64, error) {
 		return 0, errors.New("invalid format")
 	}
 
+	unit := int64(0)
 	lastChar := str[i]
 	switch lastChar {
 	case 'B':
-		return val, nil
+		unit = 1
 	case 'K':
-		return val * 1024, nil
+		unit = 1024
 	case 'M':
-		return val * 1024 * 1024, nil
+		unit = 1024 * 1024
 	case 'G':
-		return val * 1024 * 1024 * 1024, nil
+		unit = 1024 * 1024 * 1024
 	default:
 		return 0, errors.New("invalid units")
 	}
+
+	if val*unit/unit != val {
+		return 0, errors.New("limit is too large")
+	}
+	return val * unit, nil
 }
 
 func (o *Opts) Input() string {
-- 
2.43.0


From 4b5892ee41a4409697abae8bfc93d7c9d4d87120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 32/50] fix: refuse ports above 65535

---
 src/utils/opts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 4a1ad62..b8e2d5d 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -65,6 +66,10 @@ func (o *Opts) Validate() error {
 		return errors.New("missing argument 'working directory'")
 	}
 
+	if *o.port > math.MaxUint16 {
+		return fmt.Errorf("invalid port given, [%v]", *o.port)
+	}
+
 	switch *o.cmd {
 	case StartSwarm, TorInfo:
 		break
-- 
2.43.0


From fe37ed6f245383d8e4681c3a2814adbc7bedfcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 33/50] fix: announce what is left to download

---
 src/swarm/swarm.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index fa301a1..33ffc75 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -72,9 +72,19 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 	pcent := 100 * float64(_bf.Nset()) / float64(_bf.Nbits())
 	log.Printf("have %v/%v (%v%%) pieces", _bf.Nset(), _bf.Nbits(), pcent)
 
-	// TODO: Compute remaining bytes left
-	//swarm.Stats = tracker.NewStats(0, 0, swarm.Tor.Length())  // Full leech
-	swarm.Stats = tracker.NewStats(0, 0, 0) // Seed
+	// What's left is all the pieces we don't have
+	left := uint64(0)
+	for i := int64(0); i < torInfo.NumPieces(); i++ {
+		if _bf.Get(i) {
+			continue
+		}
+		if i == torInfo.NumPieces()-1 {
+			left += uint64(torInfo.LastPieceLen())
+		} else {
+			left += uint64(torInfo.PieceLen())
+		}
+	}
+	swarm.Stats = tracker.NewStats(0, 0, left)
 
 	// Make first contact with tracker
 	log.Printf("sending get to tracker [%v]\n", swarm.Tor.Announce())
-- 
2.43.0


From 903951f2dc056e1d796b864a1ea39a12502e80d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 34/50] fix: refuse requests beyond the end of the piece

---
 src/swarm/msghandler.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index d2bfadc..51e8a02 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -60,10 +60,14 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	s := ph.swarm
 	idx := int64(reqMsg.Index())
 	if s.Bf.Complete() || s.Bf.Get(idx) {
-		_, e := s.Fileio.ReadPiece(idx, ph.buf)
+		n, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
 			return e
 		}
+		// The last piece can be shorter than the buffer
+		if int64(reqMsg.Begin())+int64(reqMsg.ReqLen()) > n {
+			return errors.New("requested block is outside of the piece")
+		}
 		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
 		e = s.RLIO.Write(ph.conn, mPiece.Encode())
-- 
2.43.0


From 52659fb8569088b502fa81668d7a140191e0d4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 35/50] fix: advance through the piece when requesting its
 blocks

---
 src/swarm/peerhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 0eb1fdc..106a59c 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -276,6 +276,7 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 	for offset < length {
 		reqlen := uint32(math.Min(requestLength, float64(length-offset)))
 		msgs = append(msgs, p2p.NewMsgRequest(index, offset, reqlen))
+		offset += reqlen
 	}
 
 	return msgs
-- 
2.43.0


From c4821b0d28387b83f155e21b5db00162467bd53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 36/50] fix: read all of an incoming handshake, close refused
 connections

---
 src/swarm/peerhandler.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 106a59c..921ab64 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -3,6 +3,7 @@ package swarm
 import (
 	"errors"
 	"fmt"
+	stdio "io"
 	"log"
 	"math"
 	"net"
@@ -65,7 +66,14 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 
 // FromIncoming receives a new peer connection. It will first check for the correct
 // BitTorrent handshake, add to the peer list, then send a handshake and bitfield back.
-func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
+func FromIncoming(conn net.Conn, swarm *Swarm) (ph *PeerHandler, e error) {
+
+	// Nobody else will close it if there is no handler
+	defer func() {
+		if e != nil {
+			_ = conn.Close()
+		}
+	}()
 
 	// Must be using TCP (for now atleast)
 	tcpAddr, ok := conn.RemoteAddr().(*net.TCPAddr)
@@ -76,19 +84,18 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	buf := make([]byte, HandshakeLen)
 
 	// Set timeout
-	e := conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
 	if e != nil {
 		return nil, e
 	}
 
-	// Read the handshake
-	_, e = conn.Read(buf)
+	// Read the handshake, which can take more than one Read
+	_, e = stdio.ReadFull(conn, buf)
 	if e != nil {
 		return nil, e
 	}
 	peerHs := Handshake(buf)
 	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
-		_ = conn.Close() // TODO: Handle?
 		return nil, fmt.Errorf("bad peer handshake")
 	}
 	log.Printf("good handshake from %v", conn.RemoteAddr())
-- 
2.43.0


From b81442eb964c4859c018c36cb3764dd3cfcf6cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 37/50] fix: check the handshake of dialled peers

---
 src/swarm/peerhandler.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 921ab64..c965127 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -58,6 +58,21 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 
 	_, e = conn.Write(hs)
 	if e != nil {
+		_ = conn.Close()
+		return nil, e
+	}
+
+	// The peer has to answer with a handshake for the same torrent
+	buf := make([]byte, HandshakeLen)
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	if e == nil {
+		_, e = stdio.ReadFull(conn, buf)
+	}
+	if e == nil && !ValidHandshake(buf, swarm.Tor.Infohash()) {
+		e = errors.New("bad peer handshake")
+	}
+	if e != nil {
+		_ = conn.Close()
 		return nil, e
 	}
 
-- 
2.43.0


From ecf37297ae838195d931d19c2b22716fa60ce099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 38/50] fix: put messages back together that arrive in several
 reads

---
 src/swarm/msghandler.go  | 35 +++++++++++++++++++++++++++++++++++
 src/swarm/peerhandler.go | 13 ++-----------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index 51e8a02..018927a 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -1,12 +1,47 @@
 package swarm
 
 import (
+	"encoding/binary"
 	"errors"
 	"log"
 
 	"gotor/p2p"
 )
 
+// maxMessageLen limits how much data is collected for a single message. The
+// largest messages are those that carry a block, or a bitfield.
+const maxMessageLen = 1 << 20
+
+// handlePending handles all the complete messages at the start of the buffer. A
+// message can arrive in any number of pieces, the bytes of a message that isn't
+// complete yet are returned.
+func (ph *PeerHandler) handlePending(buf []byte) ([]byte, error) {
+	max := int64(maxMessageLen)
+	if ph.bf.Nbytes() >= max {
+		max = ph.bf.Nbytes() + 1
+	}
+
+	for len(buf) >= int(p2p.MsgLengthPrefixLen) {
+		msglen := int64(binary.BigEndian.Uint32(buf))
+		if msglen > max {
+			return nil, errors.New("message is too long")
+		}
+
+		total := int64(p2p.MsgLengthPrefixLen) + msglen
+		if int64(len(buf)) < total {
+			break
+		}
+
+		e := ph.handleMessage(buf[:total])
+		if e != nil {
+			return nil, e
+		}
+		buf = buf[total:]
+	}
+
+	return buf, nil
+}
+
 // handleMessage decodes the data in the buffer and handles the messages appropriately.
 func (ph *PeerHandler) handleMessage(buf []byte) error {
 	var e error
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index c965127..93eff5b 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -208,16 +208,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	// TODO: Should probably handle split messages
-	// What if we need to recv more than we can handle?
-	// 1. Decode all messages
-	// 2. Any subsections of bytes that were not decoded AND come
-	//    before any successfully decoded messages are discarded
-	// 3. This could leave a tail of non-decoded bytes. These should
-	//    be stored in another buffer. When we go to read again,
-	//    append new data to previous data and try decoding all again.
-	// 4. Rinse repeat.
-
 	ph.procs.Add(1)
 	defer ph.procs.Done()
 
@@ -228,12 +218,13 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 	go readLoop.Run()
 
 	var e error
+	var pending []byte // Received, but not handled yet
 	done := false
 	for !done {
 
 		select {
 		case buf := <-readLoop.ReadData():
-			e = ph.handleMessage(buf)
+			pending, e = ph.handlePending(append(pending, buf...))
 			readLoop.Ready()
 		case e = <-readLoop.ReadError():
 			done = true
-- 
2.43.0


From 9ed05c3fcaf53088673132229066f4a40ea96e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 39/50] fix: end the read loop whenever it is finished, deliver
 data before errors

---
 src/io/readloop.go | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/io/readloop.go b/src/io/readloop.go
index c1e5ea8..2729cba 100644
--- a/src/io/readloop.go
+++ b/src/io/readloop.go
@@ -3,6 +3,7 @@ package io
 import (
 	"log"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -16,7 +17,8 @@ type ReadLoop struct {
 	chBuf   chan []byte   // Written to when conn.Read has data
 	chReady chan struct{} // Once data in chBuf is processed, this signals user is ready to read again
 	chErr   chan error    // Errors encountered when reading
-	chDone  chan struct{} // Once user is done, Run() will exit
+	chDone  chan struct{} // Closed once user is done, Run() will exit
+	finish  sync.Once     // Guards closing chDone
 
 	conn    net.Conn
 	timeout time.Duration
@@ -52,7 +54,7 @@ func (rl *ReadLoop) ReadError() <-chan error {
 
 // Finish cancels the current conn.Read() call and terminates the call to Run().
 func (rl *ReadLoop) Finish() {
-	rl.chDone <- struct{}{}
+	rl.finish.Do(func() { close(rl.chDone) })
 	// Set the cancel time to now. Rather than using time.Now() which involves
 	// a syscall, use Unix(1,0)
 	_ = rl.conn.SetReadDeadline(time.Unix(1, 0))
@@ -70,16 +72,24 @@ func (rl *ReadLoop) Run() {
 	for !done {
 		e := rl.conn.SetReadDeadline(time.Now().Add(rl.timeout))
 		if e != nil {
-			rl.chErr <- e
+			rl.reportError(e)
 			break
 		}
 
+		// Finish may have been called before we overwrote its deadline
+		select {
+		case <-rl.chDone:
+			return
+		default:
+		}
+
 		n, e := rl.conn.Read(rl.buf)
-		if n == 0 || e != nil {
-			rl.chErr <- e
-			break
-		} else {
-			rl.chBuf <- rl.buf[:n]
+		if n > 0 {
+			select {
+			case rl.chBuf <- rl.buf[:n]:
+			case <-rl.chDone:
+				return
+			}
 
 			select {
 			case <-rl.chReady:
@@ -87,5 +97,17 @@ func (rl *ReadLoop) Run() {
 				done = true
 			}
 		}
+		if e != nil {
+			rl.reportError(e)
+			break
+		}
+	}
+}
+
+// reportError waits until the user takes the error, or is done.
+func (rl *ReadLoop) reportError(e error) {
+	select {
+	case rl.chErr <- e:
+	case <-rl.chDone:
 	}
 }
-- 
2.43.0


From b86b83afc6409d171a0b46310c7a97197f1c0dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 40/50] fix: wait for the rate limit without racing on or
 hogging its lock

---
 src/io/ratelimit.go | 82 ++++++++++++++++-----------------------------
 1 file changed, 29 insertions(+), 53 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 5edfe5a..5793d7e 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -3,7 +3,6 @@ package io
 import (
 	"io"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
@@ -15,9 +14,11 @@ type RateLimitIO struct {
 	rRate     int64
 	rUsed     int64
 	rlock     sync.Mutex
+	rcond     *sync.Cond // Signals that reading may be possible again
 	wRate     int64
 	wUsed     int64
 	wlock     sync.Mutex
+	wcond     *sync.Cond    // Signals that writing may be possible again
 	sig       chan struct{} // Signal that controls the run() loop
 	tick      *time.Ticker
 	rTotal    int64
@@ -26,7 +27,7 @@ type RateLimitIO struct {
 }
 
 func NewRateLimitIO() *RateLimitIO {
-	return &RateLimitIO{
+	rl := &RateLimitIO{
 		rRate: NoLimit,
 		wRate: NoLimit,
 		rUsed: 0,
@@ -34,6 +35,9 @@ func NewRateLimitIO() *RateLimitIO {
 		sig:   make(chan struct{}),
 		tick:  time.NewTicker(1 * time.Second),
 	}
+	rl.rcond = sync.NewCond(&rl.rlock)
+	rl.wcond = sync.NewCond(&rl.wlock)
+	return rl
 }
 
 func (rl *RateLimitIO) SetReadRate(limit int64) {
@@ -42,7 +46,8 @@ func (rl *RateLimitIO) SetReadRate(limit int64) {
 	}
 	rl.rlock.Lock()
 	defer rl.rlock.Unlock()
-	rl.rRate = limit // Only place this is modified, don't need atomic
+	rl.rRate = limit
+	rl.rcond.Broadcast()
 }
 
 func (rl *RateLimitIO) SetWriteRate(limit int64) {
@@ -51,15 +56,13 @@ func (rl *RateLimitIO) SetWriteRate(limit int64) {
 	}
 	rl.wlock.Lock()
 	defer rl.wlock.Unlock()
-	rl.wRate = limit // Only place this is modified, don't need atomic
+	rl.wRate = limit
+	rl.wcond.Broadcast()
 }
 
 // Run will maintain the set rate limit in an infinite loop, until Stop() is
 // called. This method should almost certainly be in its own goroutine.
 func (rl *RateLimitIO) Run() {
-	rl.rUsed = 0
-	rl.wUsed = 0
-
 	done := false
 	for !done {
 		select {
@@ -67,8 +70,15 @@ func (rl *RateLimitIO) Run() {
 			done = true
 			break
 		case <-rl.tick.C:
-			atomic.StoreInt64(&rl.wUsed, 0)
-			atomic.StoreInt64(&rl.rUsed, 0)
+			rl.wlock.Lock()
+			rl.wUsed = 0
+			rl.wcond.Broadcast()
+			rl.wlock.Unlock()
+
+			rl.rlock.Lock()
+			rl.rUsed = 0
+			rl.rcond.Broadcast()
+			rl.rlock.Unlock()
 		}
 	}
 }
@@ -85,30 +95,13 @@ func (rl *RateLimitIO) Stop() {
 func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	lenData := int64(len(data))
 
-	// No sense locking here, if we introduce a limit during a call to Write,
-	// the lock would only be acquired after the in-progress Write finishes
-	// and the rate-limit would be effectively ignored.
-	if rl.wRate == NoLimit {
-		_, e := writer.Write(data)
-		atomic.AddInt64(&rl.wUsed, lenData)
-		atomic.AddInt64(&rl.wTotal, lenData)
-		return e
-	}
-
-	var unlocker sync.Once
-
 	rl.wlock.Lock()
-	defer unlocker.Do(rl.wlock.Unlock)
-
-	for {
-		if rl.wUsed < rl.wRate {
-			break
-		}
+	for rl.wRate != NoLimit && rl.wUsed >= rl.wRate {
+		rl.wcond.Wait()
 	}
-
-	atomic.AddInt64(&rl.wUsed, lenData)
-	unlocker.Do(rl.wlock.Unlock)
-	atomic.AddInt64(&rl.wTotal, lenData)
+	rl.wUsed += lenData
+	rl.wTotal += lenData
+	rl.wlock.Unlock()
 
 	_, e := writer.Write(data)
 	return e
@@ -122,30 +115,13 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	lenBuf := int64(len(buf))
 
-	// No sense locking here, if we introduce a limit during a call to Read,
-	// the lock would only be acquired after the in-progress Read finishes
-	// and the rate-limit would be effectively ignored.
-	if rl.rRate == NoLimit {
-		_, e := reader.Read(buf)
-		atomic.AddInt64(&rl.rUsed, lenBuf)
-		atomic.AddInt64(&rl.rTotal, lenBuf)
-		return e
-	}
-
-	var unlocker sync.Once
-
 	rl.rlock.Lock()
-	defer unlocker.Do(rl.rlock.Unlock)
-
-	for {
-		if rl.rUsed < rl.rRate {
-			break
-		}
+	for rl.rRate != NoLimit && rl.rUsed >= rl.rRate {
+		rl.rcond.Wait()
 	}
-
-	atomic.AddInt64(&rl.rUsed, lenBuf)
-	unlocker.Do(rl.rlock.Unlock)
-	atomic.AddInt64(&rl.rTotal, lenBuf)
+	rl.rUsed += lenBuf
+	rl.rTotal += lenBuf
+	rl.rlock.Unlock()
 
 	_, e := reader.Read(buf)
 	return e
-- 
2.43.0


From 28b8cc96e49c387c1f1ea6b06e3f4de5441885d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 41/50] fix: tear down all of a peer handler when its
 connection ends

---
 src/swarm/peerhandler.go | 46 +++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 93eff5b..4de3b22 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -26,6 +26,9 @@ const (
 
 	// requestLength is the same piece request length as qBittorrent
 	requestLength = 16384
+
+	// requestInterval is how often we look for pieces to request
+	requestInterval = 100 * time.Millisecond
 )
 
 // ============================================================================
@@ -163,10 +166,11 @@ func (ph *PeerHandler) Choke() error {
 
 func (ph *PeerHandler) Loop() {
 
-	// Any goroutines spawned should report errors on this chan
-	chErr := make(chan error)
+	// Any goroutines spawned should report errors on this chan. There's room
+	// for the errors of all of them, so that reporting never blocks.
+	chErr := make(chan error, 4)
 
-	// Use to stop to all spawned goroutines
+	// Closed to stop all spawned goroutines
 	chDone := make(chan bool)
 
 	// For now, just unchoke everyone
@@ -174,8 +178,11 @@ func (ph *PeerHandler) Loop() {
 	_, e := ph.conn.Write(msg.Encode())
 	if e != nil {
 		log.Printf("error unchoking: %v\n", e)
+		chErr <- e
 	}
 
+	ph.procs.Add(3)
+
 	go ph.pingLoop(chErr, chDone)
 
 	go ph.recvLoop(chErr, chDone)
@@ -194,11 +201,17 @@ func (ph *PeerHandler) Loop() {
 		case e = <-chErr:
 			done = true
 			log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
-			chDone <- true
+			close(chDone)
+			// Unblocks all reads and writes
+			_ = ph.conn.Close()
 			ph.procs.Wait()
+			ph.swarm.PPT.Unregister(ph)
 			// We will eventually wrap this in a struct so that we can
 			// tell the main loop which PeerHandler has errored
-			ph.chErr <- e
+			select {
+			case ph.chErr <- e:
+			default: // Nobody is listening
+			}
 		}
 	}
 
@@ -208,7 +221,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	defer log.Printf("end recvLoop [%v]", ph.peerInfo.String())
@@ -216,6 +228,7 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 	readLoop := io.NewReadLoop(RecvBufSize, ph.conn, GetKeepAlive)
 	go readLoop.Run()
+	defer readLoop.Finish()
 
 	var e error
 	var pending []byte // Received, but not handled yet
@@ -229,7 +242,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 		case e = <-readLoop.ReadError():
 			done = true
 		case <-chKill:
-			readLoop.Finish()
 			done = true
 		}
 
@@ -242,7 +254,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 // requestLoop sends out piece requests to the peer.
 func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	log.Printf("start requestLoop [%v]", ph.peerInfo.String())
@@ -250,7 +261,9 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 
 	reqs := make([]uint32, 0, 5)
 
-	// TODO: Yikes
+	ticker := time.NewTicker(requestInterval)
+	defer ticker.Stop()
+
 	for !ph.swarm.Bf.Complete() {
 
 		// Fill up requests
@@ -265,13 +278,22 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 			// Make the request. qBittorrent uses 16KiB requests
 			msgs := ph.createReqMessages(next)
 			for _, msg := range msgs {
-				// TODO: Handle
-				_ = ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				e := ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				if e != nil {
+					chErr <- e
+					return
+				}
 				fmt.Printf("sent request for %v : %v", msg.Index(), msg.ReqLen())
 			}
 			fmt.Printf("sent %v msgs", len(msgs))
 		}
 
+		// The peer may announce pieces, and others may give up theirs
+		select {
+		case <-ticker.C:
+		case <-chDone:
+			return
+		}
 	}
 }
 
@@ -299,7 +321,6 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 // defined by SendKeepAlive.
 func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 	defer log.Printf("end pingLoop [%v]", ph.peerInfo.String())
 
@@ -307,6 +328,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
 	addr := ph.peerInfo.Addr()
 	ticker := time.NewTicker(SendKeepAlive)
+	defer ticker.Stop()
 	ka := p2p.KeepAliveSingleton
 	data := ka.Encode()
 
-- 
2.43.0


From a3a1a287387355e1e489cb8861e151d05f78182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 42/50] fix: drop peers that take no data

---
 src/swarm/msghandler.go  |  2 +-
 src/swarm/peerhandler.go | 24 +++++++++++++++++++++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index 018927a..ab17582 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -105,7 +105,7 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 		}
 		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
-		e = s.RLIO.Write(ph.conn, mPiece.Encode())
+		e = s.RLIO.Write(ph, mPiece.Encode())
 		if e != nil {
 			return e
 		}
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 4de3b22..a05217e 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -39,6 +39,7 @@ type PeerHandler struct {
 	peerState peer.State
 	swarm     *Swarm
 	conn      net.Conn
+	wlock     sync.Mutex // Only one write at a time, each with its own deadline
 	bf        *bf.Bitfield
 	procs     sync.WaitGroup // How many loops are running for this handler
 	buf       []byte         // Buffer for file io operations
@@ -119,6 +120,10 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (ph *PeerHandler, e error) {
 	log.Printf("good handshake from %v", conn.RemoteAddr())
 
 	// Send handshake
+	e = conn.SetWriteDeadline(time.Now().Add(GetKeepAlive))
+	if e != nil {
+		return nil, e
+	}
 	hs := MakeHandshake(swarm.Tor.Infohash(), swarm.Id)
 	_, e = conn.Write(hs)
 	if e != nil {
@@ -164,6 +169,19 @@ func (ph *PeerHandler) Choke() error {
 // ============================================================================
 // ============================================================================
 
+// Write sends data to the peer. A peer that doesn't take any data for as long as
+// it may stay silent is gone, waiting for it any longer would keep us from
+// noticing its silence.
+func (ph *PeerHandler) Write(data []byte) (int, error) {
+	ph.wlock.Lock()
+	defer ph.wlock.Unlock()
+	e := ph.conn.SetWriteDeadline(time.Now().Add(GetKeepAlive))
+	if e != nil {
+		return 0, e
+	}
+	return ph.conn.Write(data)
+}
+
 func (ph *PeerHandler) Loop() {
 
 	// Any goroutines spawned should report errors on this chan. There's room
@@ -175,7 +193,7 @@ func (ph *PeerHandler) Loop() {
 
 	// For now, just unchoke everyone
 	msg := p2p.NewMsgUnchoke()
-	_, e := ph.conn.Write(msg.Encode())
+	_, e := ph.Write(msg.Encode())
 	if e != nil {
 		log.Printf("error unchoking: %v\n", e)
 		chErr <- e
@@ -278,7 +296,7 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 			// Make the request. qBittorrent uses 16KiB requests
 			msgs := ph.createReqMessages(next)
 			for _, msg := range msgs {
-				e := ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				e := ph.swarm.RLIO.Write(ph, msg.Encode())
 				if e != nil {
 					chErr <- e
 					return
@@ -336,7 +354,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 	for !done {
 		select {
 		case <-ticker.C:
-			_, e := ph.conn.Write(data)
+			_, e := ph.Write(data)
 			if e != nil {
 				chErr <- e
 				log.Printf("error with keep alive to %v", addr)
-- 
2.43.0


From 72473be55d079f91392c42fd9110334551996db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 43/50] fix: keep listening when accepting a connection fails

---
 src/swarm/swarm.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index 33ffc75..20aea1b 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -1,10 +1,12 @@
 package swarm
 
 import (
+	"errors"
 	"fmt"
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	"gotor/bf"
 	"gotor/io"
@@ -15,6 +17,9 @@ import (
 	"gotor/utils"
 )
 
+// acceptRetry is how long to wait when accepting a connection fails
+const acceptRetry = 100 * time.Millisecond
+
 // ============================================================================
 // STRUCTS ====================================================================
 
@@ -154,13 +159,18 @@ func (s *Swarm) runListener() {
 	}
 	log.Printf("Listening on port %v\n", opts.Port())
 
-	phs := make([]*PeerHandler, 0, 4)
-
 	for {
 		conn, err := listener.Accept()
+		if errors.Is(err, net.ErrClosed) {
+			return
+		}
 		if err != nil {
-			panic(err)
+			// E.g. too many open files, which more of the peers leaving helps with
+			log.Printf("failed to accept a connection: %v", err)
+			time.Sleep(acceptRetry)
+			continue
 		}
+
 		log.Printf("new client @ %v", conn.RemoteAddr())
 
 		go func(c net.Conn) {
@@ -168,7 +178,6 @@ func (s *Swarm) runListener() {
 			if e != nil {
 				log.Println(e)
 			} else {
-				phs = append(phs, ph)
 				ph.Loop()
 			}
 		}(conn)
-- 
2.43.0


From 457850dbd951dd78ff9f8ec7a669ed4076798789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 44/50] fix: refuse requests for pieces that don't exist

---
 src/swarm/msghandler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index ab17582..1030f02 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -94,6 +94,9 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
 	idx := int64(reqMsg.Index())
+	if idx >= s.Tor.Info().NumPieces() {
+		return errors.New("requested piece doesn't exist")
+	}
 	if s.Bf.Complete() || s.Bf.Get(idx) {
 		n, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
-- 
2.43.0


From 08a884d2ac8c05d3a1eeeb19e013436225a4dd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 45/50] fix: write nothing to a peer after a failed write

---
 src/swarm/peerhandler.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index a05217e..503bce8 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -40,6 +40,7 @@ type PeerHandler struct {
 	swarm     *Swarm
 	conn      net.Conn
 	wlock     sync.Mutex // Only one write at a time, each with its own deadline
+	werr      error      // Why writing failed, guarded by wlock
 	bf        *bf.Bitfield
 	procs     sync.WaitGroup // How many loops are running for this handler
 	buf       []byte         // Buffer for file io operations
@@ -171,15 +172,21 @@ func (ph *PeerHandler) Choke() error {
 
 // Write sends data to the peer. A peer that doesn't take any data for as long as
 // it may stay silent is gone, waiting for it any longer would keep us from
-// noticing its silence.
+// noticing its silence. Nothing is written after a failed write, as it may have
+// sent part of a message, and what follows would be taken for the rest of it.
 func (ph *PeerHandler) Write(data []byte) (int, error) {
 	ph.wlock.Lock()
 	defer ph.wlock.Unlock()
-	e := ph.conn.SetWriteDeadline(time.Now().Add(GetKeepAlive))
-	if e != nil {
-		return 0, e
+	if ph.werr != nil {
+		return 0, ph.werr
+	}
+	ph.werr = ph.conn.SetWriteDeadline(time.Now().Add(GetKeepAlive))
+	if ph.werr != nil {
+		return 0, ph.werr
 	}
-	return ph.conn.Write(data)
+	var n int
+	n, ph.werr = ph.conn.Write(data)
+	return n, ph.werr
 }
 
 func (ph *PeerHandler) Loop() {
-- 
2.43.0


From 68661f03462878273fc35352e8d37c030473f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 46/50] fix: tell dialled peers which pieces we have

---
 src/swarm/peerhandler.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 503bce8..dbee812 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -52,7 +52,7 @@ type PeerHandler struct {
 // FUNK =======================================================================
 
 // FromBootstrap creates a TCP connection with the peer, then sends the BitTorrent
-// handshake.
+// handshake and, once the peer has answered it, our bitfield.
 func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 	conn, e := net.Dial("tcp", pInfo.Addr())
 	if e != nil {
@@ -76,6 +76,14 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 	if e == nil && !ValidHandshake(buf, swarm.Tor.Infohash()) {
 		e = errors.New("bad peer handshake")
 	}
+
+	// Send bitfield, or the peer won't know what it can get from us
+	if e == nil {
+		e = conn.SetWriteDeadline(time.Now().Add(GetKeepAlive))
+	}
+	if e == nil {
+		_, e = conn.Write(p2p.NewMsgBitfield(swarm.Bf).Encode())
+	}
 	if e != nil {
 		_ = conn.Close()
 		return nil, e
-- 
2.43.0


From 0c02800ca6c41822955e8008230d385d79fc6e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:27 +0000
Subject: [PATCH 47/50] fix: choke the peer when asked to choke it

---
 src/swarm/peerhandler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index dbee812..6b7df50 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -170,8 +170,8 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 // ============================================================================
 
 func (ph *PeerHandler) Choke() error {
-	msg := p2p.NewMsgUnchoke()
-	_, e := ph.conn.Write(msg.Encode())
+	msg := p2p.NewMsgChoke()
+	_, e := ph.Write(msg.Encode())
 	return e
 }
 
-- 
2.43.0


From 30f9337eedee8772ecb5f81d99a35f05099e8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:05 +0000
Subject: [PATCH 48/50] fix: wait without using the processor

---
 src/main.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main.go b/src/main.go
index c38f018..5cc6cec 100644
--- a/src/main.go
+++ b/src/main.go
@@ -38,9 +38,8 @@ func CmdSwarm(opts *utils.Opts) {
 
 	s.Start()
 
-	for {
-
-	}
+	// The swarm runs in its own goroutines
+	select {}
 }
 
 func CmdTorInfo(opts *utils.Opts) {
-- 
2.43.0


From 56b92ac9556ffb38565f6678f2e96bcaf09190a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 49/50] fix: don't keep waiting for the rate limit on behalf of
 a peer that has left

With an upload limit of zero the handler of a departed peer waited forever
for its turn to write, and its goroutines and claimed pieces were never
released. With other limits it used up the turns of peers that are there.
---
 src/io/ratelimit.go      | 21 +++++++++++++++++++++
 src/swarm/peerhandler.go | 23 ++++++++++++++++-------
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 5793d7e..2c51166 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -87,6 +87,19 @@ func (rl *RateLimitIO) Stop() {
 	rl.sig <- struct{}{}
 }
 
+// ender is a reader or writer that can end while a call waits for its turn. Err
+// says why then, and the call returns that with the start of the next second.
+type ender interface {
+	Err() error
+}
+
+func ended(rw interface{}) error {
+	if en, ok := rw.(ender); ok {
+		return en.Err()
+	}
+	return nil
+}
+
 // Write is a blocking call that will write the data to the io.Writer in a
 // rate-limitted manner. For now, data that is larger than the write rate
 // will be written in full, rather than broken apart. I.e, trying to write
@@ -97,6 +110,10 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 
 	rl.wlock.Lock()
 	for rl.wRate != NoLimit && rl.wUsed >= rl.wRate {
+		if e := ended(writer); e != nil {
+			rl.wlock.Unlock()
+			return e
+		}
 		rl.wcond.Wait()
 	}
 	rl.wUsed += lenData
@@ -117,6 +134,10 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 
 	rl.rlock.Lock()
 	for rl.rRate != NoLimit && rl.rUsed >= rl.rRate {
+		if e := ended(reader); e != nil {
+			rl.rlock.Unlock()
+			return e
+		}
 		rl.rcond.Wait()
 	}
 	rl.rUsed += lenBuf
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 6b7df50..c8a63a2 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -44,6 +44,7 @@ type PeerHandler struct {
 	bf        *bf.Bitfield
 	procs     sync.WaitGroup // How many loops are running for this handler
 	buf       []byte         // Buffer for file io operations
+	chDone    chan bool      // Closed to stop all spawned goroutines
 
 	chErr chan<- error // Report errors
 }
@@ -163,6 +164,7 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 		procs:    sync.WaitGroup{},
 		buf:      make([]byte, torInfo.PieceLen(), torInfo.PieceLen()),
 		bf:       bf.NewBitfield(torInfo.NumPieces()),
+		chDone:   make(chan bool),
 	}
 }
 
@@ -197,15 +199,22 @@ func (ph *PeerHandler) Write(data []byte) (int, error) {
 	return n, ph.werr
 }
 
+// Err says why nothing more can be written, once that is so.
+func (ph *PeerHandler) Err() error {
+	select {
+	case <-ph.chDone:
+		return net.ErrClosed
+	default:
+		return nil
+	}
+}
+
 func (ph *PeerHandler) Loop() {
 
 	// Any goroutines spawned should report errors on this chan. There's room
 	// for the errors of all of them, so that reporting never blocks.
 	chErr := make(chan error, 4)
 
-	// Closed to stop all spawned goroutines
-	chDone := make(chan bool)
-
 	// For now, just unchoke everyone
 	msg := p2p.NewMsgUnchoke()
 	_, e := ph.Write(msg.Encode())
@@ -216,11 +225,11 @@ func (ph *PeerHandler) Loop() {
 
 	ph.procs.Add(3)
 
-	go ph.pingLoop(chErr, chDone)
+	go ph.pingLoop(chErr, ph.chDone)
 
-	go ph.recvLoop(chErr, chDone)
+	go ph.recvLoop(chErr, ph.chDone)
 
-	go ph.requestLoop(chErr, chDone)
+	go ph.requestLoop(chErr, ph.chDone)
 
 	done := false
 	for {
@@ -234,7 +243,7 @@ func (ph *PeerHandler) Loop() {
 		case e = <-chErr:
 			done = true
 			log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
-			close(chDone)
+			close(ph.chDone)
 			// Unblocks all reads and writes
 			_ = ph.conn.Close()
 			ph.procs.Wait()
-- 
2.43.0


From d72e5024e60e72a6467a5bbf26e6aec345612f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:21 +0000
Subject: [PATCH 50/50] fix: tell several connections to the same peer apart

---
 src/swarm/peerhandler.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index c8a63a2..77c5279 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -36,6 +36,7 @@ const (
 
 type PeerHandler struct {
 	peerInfo  peer.Info
+	serial    string // Tells connections to the same peer apart
 	peerState peer.State
 	swarm     *Swarm
 	conn      net.Conn
@@ -156,7 +157,7 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (ph *PeerHandler, e error) {
 
 func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 	torInfo := swarm.Tor.Info()
-	return &PeerHandler{
+	ph := &PeerHandler{
 		peerInfo: pInfo,
 		swarm:    swarm,
 		conn:     conn,
@@ -166,6 +167,8 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 		bf:       bf.NewBitfield(torInfo.NumPieces()),
 		chDone:   make(chan bool),
 	}
+	ph.serial = fmt.Sprintf(" (%p)", ph)
+	return ph
 }
 
 // ============================================================================
@@ -391,6 +394,7 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 	}
 }
 
+// Key tells handlers apart, also those of several connections to the same peer.
 func (ph *PeerHandler) Key() string {
-	return ph.peerInfo.String()
+	return ph.peerInfo.String() + ph.serial
 }
-- 
2.43.0

