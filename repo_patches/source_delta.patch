From 0d4f59c60b4b57fe3267380e7cac26507b642010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:55 +0000
Subject: [PATCH 01/45] fix: Bitset.Unset no longer corrupts the set when the
 bit is already unset

Unset subtracted the bit's value instead of clearing it, so unsetting an index
that was not set borrowed from, and flipped, higher bits.
---
 common/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index c1faa37..40dacbe 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -115,7 +115,7 @@ func (b *Bitset) Unset(x uint64) *Bitset {
 	if offset >= len(b.data) {
 		return b
 	}
-	b.data[offset] = b.data[offset] - (1 << (x % wordSize))
+	b.data[offset] &^= 1 << (x % wordSize)
 	return b
 }
 
-- 
2.43.0


From 21a6e5e0f1240e1f18493882cc54c85ff469d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 02/45] fix: Bitset.Union and Intersect keep the size of their
 result

Both returned a set of size 0, which reported itself full, serialized to an
empty set's size and listed no ranges.
---
 common/bitset/bitset.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 40dacbe..18390bc 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -132,7 +132,7 @@ func (b *Bitset) Union(a *Bitset) *Bitset {
 	copy(remainder, longer.data[len(shorter.data):])
 
 	result = append(result, remainder...)
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: max(a.size, b.size)}
 }
 
 // Intersect returns the intersect between any two bitsets
@@ -144,7 +144,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 		result[i] = x & longer.data[i]
 	}
 
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: min(a.size, b.size)}
 }
 
 // Overlap takes a sorted  list of ranges ([]uint16 of even length) where each consecutive pair of
@@ -296,3 +296,10 @@ func max(a, b int) int {
 	}
 	return b
 }
+
+func min(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
-- 
2.43.0


From dee1cd142c4b611a9c14222a39d465d50a27800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 03/45] fix: Bitset.Get and Unset accept any out-of-bounds
 index

Indices of 2^63 and above turned negative when converted to int and made both
panic instead of being safely out of bounds.
---
 common/bitset/bitset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 18390bc..f5575a3 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -56,7 +56,7 @@ func (b *Bitset) Count() int {
 // Get returns true if the specified index has been previously set and never subsequently unset.
 // Safely false if the specified index is out of bounds.
 func (b *Bitset) Get(x uint64) bool {
-	if int(x)/wordSize >= len(b.data) {
+	if x/wordSize >= uint64(len(b.data)) {
 		return false
 	}
 	return b.data[x/wordSize]&(1<<(x%wordSize)) != 0
@@ -111,8 +111,8 @@ func (b *Bitset) Full() bool {
 // Unset sets the specified index to False. If the specified index is out of bounds, nothing
 // happens. Does not cause size to shrink. Returns itself
 func (b *Bitset) Unset(x uint64) *Bitset {
-	offset := int(x) / wordSize
-	if offset >= len(b.data) {
+	offset := x / wordSize
+	if offset >= uint64(len(b.data)) {
 		return b
 	}
 	b.data[offset] &^= 1 << (x % wordSize)
-- 
2.43.0


From b6359d170d61d8af508bd732e132c7ceee9d226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:16 +0000
Subject: [PATCH 04/45] fix: bitset.Deserialize rejects truncated or
 inconsistent data

Data shorter than its size header made it panic, and a size that disagreed with
the words that follow produced a set whose methods panic later. A progress file
that was being written when the process died did exactly that.
---
 common/bitset/bitset.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index f5575a3..0193823 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -254,6 +254,9 @@ func (b *Bitset) Serialize() []byte {
 
 // Deserialize converts a previously-serialized bitset into a realized bitset.
 func Deserialize(data []byte) (*Bitset, error) {
+	if len(data) < 8 {
+		return nil, fmt.Errorf("bitset data must contain an 8-byte size. Got %d bytes", len(data))
+	}
 	size := int(binary.BigEndian.Uint64(data[:8]))
 
 	if l := len(data[8:]); l%8 != 0 {
@@ -266,6 +269,18 @@ func Deserialize(data []byte) (*Bitset, error) {
 		setData[i] = binary.BigEndian.Uint64(data[byteIndex : byteIndex+8])
 	}
 
+	// the size must agree with the words that follow it, and no bit may be set beyond it
+	words, lastBits := uint64(size)/wordSize, uint64(size)%wordSize
+	if lastBits != 0 {
+		words++
+	}
+	if words != uint64(len(setData)) {
+		return nil, fmt.Errorf("bitset of size %d cannot have %d words of data", size, len(setData))
+	}
+	if lastBits != 0 && setData[words-1]>>lastBits != 0 {
+		return nil, fmt.Errorf("bitset of size %d has bits set beyond its size", size)
+	}
+
 	return &Bitset{
 		data: setData,
 		size: size,
-- 
2.43.0


From f689336e67e49b9ebd38582148b793c936fbfffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 05/45] fix: Bitset.Overlap ignores an unpaired trailing index

A DiscoverHostRequest carrying an odd number of chunk indices, which any peer
can send, made it panic and took the daemon down.
---
 common/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 0193823..8dcce6d 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -152,7 +152,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 // non-overallping ranges that are set to 'on' within the underlying bitset
 func (b *Bitset) Overlap(ranges []uint16) []uint16 {
 	result := make([]uint16, 0, len(ranges))
-	for i := 0; i < len(ranges); i += 2 {
+	for i := 0; i+1 < len(ranges); i += 2 { // an unpaired last number is not a range
 		start, end := ranges[i], ranges[i+1]
 		result = append(result, b.filledRanges(int(start), int(end))...)
 	}
-- 
2.43.0


From c0a12530f4fdad51ee5670c9e46fa9852c212950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 06/45] fix: messages.Parse returns an error for truncated
 messages

Any message shorter than its fields, or whose element counts exceed what
follows them, made Parse panic. The daemon parses datagrams in goroutines that
do not recover, so a single malformed datagram from the network killed it.
---
 flu/messages/parse.go |  7 ++++++-
 flu/messages/utils.go | 41 +++++++++++++++++++++++++++++++++++++++--
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/flu/messages/parse.go b/flu/messages/parse.go
index 3329ac9..1416725 100644
--- a/flu/messages/parse.go
+++ b/flu/messages/parse.go
@@ -5,6 +5,11 @@ import "fmt"
 // Parse attempts to parse a serialized message into a flu messages.Message
 func Parse(data []byte) (msg Message, err error) {
 	reader := byteReader{Data: data}
+	defer func() {
+		if err == nil && reader.overrun {
+			msg, err = nil, fmt.Errorf("Truncated message discarded: %d bytes", len(data))
+		}
+	}()
 	msgType := reader.readByte()
 
 	switch msgType {
@@ -42,7 +47,7 @@ func Parse(data []byte) (msg Message, err error) {
 		reqID := reader.readUint16()
 		entryCount := reader.readUint16()
 		entries := make([]ListFilesEntry, entryCount)
-		for i := 0; i < int(entryCount); i++ {
+		for i := 0; i < int(entryCount) && !reader.overrun; i++ {
 			entries[i] = ListFilesEntry{
 				SizeInBytes:      reader.readUint64(),
 				ChunkCount:       reader.readUint32(),
diff --git a/flu/messages/utils.go b/flu/messages/utils.go
index 4c58135..570520a 100644
--- a/flu/messages/utils.go
+++ b/flu/messages/utils.go
@@ -9,42 +9,73 @@ import (
 // byteReader is a wrapper around a []byte that makes it easier to parse things if you know what
 // data to expect. For example, if you know the message contains two uint8s and a sha1Hash you could
 // just call br.readByte(); br.readByte(); br.readSha1Hash() in that order.
+// Reading past the end of Data yields zeroes and is recorded in overrun.
 type byteReader struct {
-	Data  []byte
-	index int
+	Data    []byte
+	index   int
+	overrun bool
+}
+
+// need reports whether count more bytes can be read. If not, it discards the rest of the Data and
+// records the overrun.
+func (b *byteReader) need(count int) bool {
+	if len(b.Data)-b.index < count {
+		b.index = len(b.Data)
+		b.overrun = true
+		return false
+	}
+	return true
 }
 
 func (b *byteReader) readByte() uint8 {
+	if !b.need(1) {
+		return 0
+	}
 	result := b.Data[b.index]
 	b.index++
 	return result
 }
 
 func (b *byteReader) readBytes(count int) []byte {
+	if !b.need(count) {
+		return make([]byte, count)
+	}
 	result := b.Data[b.index : b.index+count]
 	b.index += count
 	return result
 }
 
 func (b *byteReader) readSha1Hash() *common.Sha1Hash {
+	if !b.need(20) {
+		return &common.Sha1Hash{}
+	}
 	hashData := b.Data[b.index : b.index+20]
 	b.index += 20
 	return (&common.Sha1Hash{}).FromSlice(hashData)
 }
 
 func (b *byteReader) readUint16() uint16 {
+	if !b.need(2) {
+		return 0
+	}
 	result := binary.BigEndian.Uint16(b.Data[b.index : b.index+2])
 	b.index += 2
 	return result
 }
 
 func (b *byteReader) readUint32() uint32 {
+	if !b.need(4) {
+		return 0
+	}
 	result := binary.BigEndian.Uint32(b.Data[b.index : b.index+4])
 	b.index += 4
 	return result
 }
 
 func (b *byteReader) readUint64() uint64 {
+	if !b.need(8) {
+		return 0
+	}
 	result := binary.BigEndian.Uint64(b.Data[b.index : b.index+8])
 	b.index += 8
 	return result
@@ -52,6 +83,9 @@ func (b *byteReader) readUint64() uint64 {
 
 func (b *byteReader) readSliceUint16() []uint16 {
 	length := int(b.readByte())
+	if !b.need(length * 2) {
+		return nil
+	}
 	result := make([]uint16, length)
 	for i := 0; i < length; i++ {
 		result[i] = b.readUint16()
@@ -61,6 +95,9 @@ func (b *byteReader) readSliceUint16() []uint16 {
 
 func (b *byteReader) readString256() string {
 	length := int(b.readByte())
+	if !b.need(length) {
+		return ""
+	}
 	result := string(b.Data[b.index : b.index+length])
 	b.index += length
 	return result
-- 
2.43.0


From bb33e629fcaefb9ed7128215dd0ae4afe534733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 07/45] fix: discovery messages carry at most the ranges their
 count can describe

The count of chunk indices is one byte, so it wrapped for a partially
downloaded file with 128 or more held ranges: with exactly 128 the response
said that the host held nothing at all.
---
 flu/messages/msgDiscoverHosts.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/flu/messages/msgDiscoverHosts.go b/flu/messages/msgDiscoverHosts.go
index 5613e21..59d4a86 100644
--- a/flu/messages/msgDiscoverHosts.go
+++ b/flu/messages/msgDiscoverHosts.go
@@ -2,6 +2,7 @@ package messages
 
 import (
 	"encoding/binary"
+	"math"
 
 	"github.com/flu-network/client/common"
 )
@@ -35,11 +36,12 @@ func (r *DiscoverHostRequest) Serialize() []byte {
 	copy(result[3:23], r.Sha1Hash.Slice())
 
 	// chunk count
-	result[23] = uint8(len(r.Chunks))
+	wireChunks := clipChunks(r.Chunks)
+	result[23] = uint8(len(wireChunks))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(wireChunks)*2)
+	for i, chunkVal := range wireChunks {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
@@ -83,11 +85,12 @@ func (r *DiscoverHostResponse) Serialize() []byte {
 	binary.BigEndian.PutUint16(result[7:9], r.Port)
 
 	// chunk count
-	result[9] = uint8(len(r.Chunks))
+	wireChunks := clipChunks(r.Chunks)
+	result[9] = uint8(len(wireChunks))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(wireChunks)*2)
+	for i, chunkVal := range wireChunks {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
@@ -100,3 +103,12 @@ func (r *DiscoverHostResponse) Serialize() []byte {
 func (r *DiscoverHostResponse) Type() byte {
 	return discoverHostResponse
 }
+
+// clipChunks returns the leading chunk ranges that fit in a single message, whose count of chunk
+// indices is one byte. A longer list is cut after 127 whole ranges.
+func clipChunks(chunks []uint16) []uint16 {
+	if len(chunks) > math.MaxUint8 {
+		return chunks[:math.MaxUint8-1]
+	}
+	return chunks
+}
-- 
2.43.0


From a20a9dff0021287c10d237774b846563d1d72333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 08/45] fix: a ListFilesRequest for an unknown file no longer
 kills the daemon

log.Fatal ended the whole process whenever any peer asked about a hash that is
not in the index. The peer now gets an empty list, which downloadMetaData
already understands.
---
 flu/serverListFilesOnHost.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 8095805..d252b16 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"path"
 	"time"
@@ -75,15 +74,11 @@ func (s *Server) RespondToListFilesOnHost(
 	if req.Sha1Hash.IsBlank() {
 		files, err = s.cat.ListFiles()
 		if err != nil {
-			log.Fatal(err)
-		}
-	} else {
-		file, err := s.cat.Contains(req.Sha1Hash)
-		if err != nil {
-			log.Fatal(err)
+			return err
 		}
+	} else if file, err := s.cat.Contains(req.Sha1Hash); err == nil {
 		files = append(files, *file)
-	}
+	} // else we know nothing about that file, and say so with an empty list
 
 	resp := messages.ListFilesResponse{
 		RequestID: req.RequestID,
-- 
2.43.0


From 1cc2a362c1122f2ca82f2543f4ce7cfd20f186bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 09/45] fix: listing a host's files accepts responses longer
 than 1024 bytes

A host sharing more than about 15 files answers with a longer datagram, which
was cut and then failed to parse.
---
 flu/serverListFilesOnHost.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index d252b16..422283b 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -2,6 +2,7 @@ package flu
 
 import (
 	"fmt"
+	"math"
 	"net"
 	"path"
 	"time"
@@ -36,12 +37,12 @@ func (s *Server) ListFilesOnHost(
 			errorChan <- err
 		} else {
 			conn.Write(req.Serialize())
-			rawResponseBuffer := make([]byte, 1024)
-			_, err = conn.Read(rawResponseBuffer)
+			rawResponseBuffer := make([]byte, math.MaxUint16) // no datagram is longer
+			n, err := conn.Read(rawResponseBuffer)
 			if err != nil {
 				errorChan <- err
 			} else {
-				responseChan <- rawResponseBuffer
+				responseChan <- rawResponseBuffer[:n]
 			}
 		}
 	}()
-- 
2.43.0


From 3b1297feacb7a14e8a7d03e711397b371545cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 10/45] fix: the daemon parses only the bytes of a datagram it
 received

The zero padding of the buffer was parsed as part of the message, so truncated
messages were acted upon with made-up zero fields.
---
 main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 9da2737..89dfae8 100644
--- a/main.go
+++ b/main.go
@@ -89,10 +89,10 @@ func startDaemon() {
 
 		for {
 			buffer := make([]byte, 1024)
-			_, returnAddress, err := c1.ReadFromUDP(buffer)
+			n, returnAddress, err := c1.ReadFromUDP(buffer)
 			failHard(err)
 			go func() {
-				err := fluServer.HandleMessage(buffer, c1, returnAddress)
+				err := fluServer.HandleMessage(buffer[:n], c1, returnAddress)
 				if err != nil {
 					fmt.Println(err)
 				}
-- 
2.43.0


From 5ec6dbae81a2c914aa25467ba49c688ad9cc8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 11/45] fix: an unreachable network no longer kills the daemon

DiscoverHosts and ListFilesOnHost called log.Fatal when the socket could not be
set up, e.g. 'flu list' for an address with no route or 'flu chims' offline.
They now report the failure to the caller.
---
 flu/server.go                | 7 -------
 flu/serverDiscoverHosts.go   | 7 ++++++-
 flu/serverListFilesOnHost.go | 4 +++-
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/flu/server.go b/flu/server.go
index 8582be7..279ae7d 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"sync"
 
@@ -173,9 +172,3 @@ func (s *Server) LocalIP() *net.IP {
 
 	return nil
 }
-
-func check(e error) {
-	if e != nil {
-		log.Fatal(e)
-	}
-}
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index 9c47701..a156d64 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -1,6 +1,7 @@
 package flu
 
 import (
+	"log"
 	"net"
 	"time"
 
@@ -32,7 +33,11 @@ func (s *Server) DiscoverHosts(
 	}
 
 	conn, err := net.DialUDP("udp", nil, &broadcastAddress)
-	check(err)
+	if err != nil {
+		s.unregisterResponseChan(req.RequestID, req.ResponseType())
+		log.Printf("failed to broadcast: %v", err) // e.g. not connected to a network
+		return []messages.DiscoverHostResponse{}
+	}
 	defer conn.Close()
 	conn.Write(req.Serialize())
 
diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 422283b..79d3d0b 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -23,7 +23,9 @@ func (s *Server) ListFilesOnHost(
 	req := messages.ListFilesRequest{RequestID: s.generateRequestID(), Sha1Hash: hash}
 	targetAddr := net.UDPAddr{IP: ipv4[:], Port: int(port)}
 	conn, err := net.DialUDP("udp", nil, &targetAddr)
-	check(err)
+	if err != nil {
+		return nil, err
+	}
 	defer conn.Close()
 
 	// setup response harness. Buffered so we don't deadlock
-- 
2.43.0


From 83a4df46ecf3bbcb153f62e1088fd6f633a1c53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 12/45] fix: a host without a LAN address no longer
 dereferences a nil IP

LocalIP returns nil when only loopback is configured; a discovery request, a
download or just starting the daemon then panicked.
---
 flu/serverDiscoverHosts.go | 4 ++++
 flu/serverStartDownload.go | 3 +++
 main.go                    | 4 +++-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index a156d64..82e2b8c 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -1,6 +1,7 @@
 package flu
 
 import (
+	"fmt"
 	"log"
 	"net"
 	"time"
@@ -64,6 +65,9 @@ func (s *Server) RespondToDiscoverHosts(
 	returnAddr *net.UDPAddr,
 ) error {
 	ip := s.LocalIP()
+	if ip == nil {
+		return fmt.Errorf("no IPV4 address to respond with")
+	}
 	resp := messages.DiscoverHostResponse{
 		Address:   [4]byte{(*ip)[0], (*ip)[1], (*ip)[2], (*ip)[3]},
 		Port:      uint16(s.port),
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 60a2b28..3a26dc7 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -16,6 +16,9 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 	extantRecord, _ := s.cat.Contains(hash)
 
 	ownIP := s.LocalIP()
+	if ownIP == nil {
+		return fmt.Errorf("not connected to an IPV4 network")
+	}
 	ownIPV4, err := newIpv4(ownIP)
 	if err != nil {
 		return err
diff --git a/main.go b/main.go
index 89dfae8..2a77b5e 100644
--- a/main.go
+++ b/main.go
@@ -85,7 +85,9 @@ func startDaemon() {
 		c1, err := net.ListenUDP("udp", &addr)
 		failHard(err)
 		defer c1.Close()
-		fmt.Printf("UDP Interface available at: %s:%d\n", fluServer.LocalIP().String(), udpPort)
+		if ip := fluServer.LocalIP(); ip != nil {
+			fmt.Printf("UDP Interface available at: %s:%d\n", ip.String(), udpPort)
+		}
 
 		for {
 			buffer := make([]byte, 1024)
-- 
2.43.0


From 6de7e7ee8d172ec67622b364d7e2f2d1f9e2e0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:44 +0000
Subject: [PATCH 13/45] fix: responses arriving as host discovery times out no
 longer deadlock the server

deliverResponse sends while holding resMapLock. If two responses arrived just
as DiscoverHosts stopped receiving, the second blocked forever holding the lock
that DiscoverHosts needs to unregister, and every later discovery hung too.
---
 flu/serverDiscoverHosts.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index 82e2b8c..ab59523 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -49,8 +49,15 @@ func (s *Server) DiscoverHosts(
 	for {
 		select {
 		case <-waitChan:
-			// if timed out, clean up
-			s.unregisterResponseChan(req.RequestID, req.ResponseType())
+			// if timed out, clean up. Keep receiving meanwhile: a delivery waiting for space in
+			// responseChan holds the lock that unregistering needs.
+			go func() {
+				s.unregisterResponseChan(req.RequestID, req.ResponseType())
+				close(responseChan) // nobody can deliver to it any more
+			}()
+			for res := range responseChan {
+				result = append(result, *res.(*messages.DiscoverHostResponse))
+			}
 			return result
 		case res := <-responseChan:
 			// else cast response into desired type
-- 
2.43.0


From f3a8cd79df345dda3e999a62042155e3b0d6aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 14/45] fix: Cat.Contains and Cat.Rehash take the catalogue's
 lock

They read the index map unlocked while other goroutines write it, which the Go
runtime answers by ending the process ('concurrent map read and map write').
---
 catalogue/catalogue.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ac718a7..4bd7405 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -168,7 +168,9 @@ func (c *Cat) ListFiles() ([]IndexRecordExport, error) {
 // Rehash attempts to recalculate the hash for a given indexRecord. If it fails, a blank hash and an
 // error are returned.
 func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
+	c.lock.Lock()
 	rec, err := c.getIndexRecord(hash)
+	c.lock.Unlock() // hashing can take long and needs no exclusive access
 	if err != nil {
 		return nil, err
 	}
@@ -182,6 +184,12 @@ func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
 // Contains returns the IndexRecordExport of the file specified by the hash, or an error if the file
 // cannot be accessed for any reason.
 func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	return c.contains(hash)
+}
+
+func (c *Cat) contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
 	record, err := c.getIndexRecord(hash)
 	if err != nil {
 		return nil, err
@@ -193,7 +201,7 @@ func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
 func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
 	c.lock.Lock()
 	defer c.lock.Unlock()
-	result, err := c.Contains(hash)
+	result, err := c.contains(hash)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 92feb3f922e9e3286f82af4ee267e2006c06c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 15/45] fix: unsharing or completing a file during its download
 no longer panics

'flu clean' during a download, two downloads of one file, or a chunk that could
not be saved ended the daemon: the catalogue panicked about the missing record
or the download indexed an empty list of missing chunks. The download now stops
or retries, as UnshareFile documents.
---
 catalogue/catalogue.go     | 11 +++++++----
 flu/serverStartDownload.go | 11 ++++++++++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 4bd7405..c537a28 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -208,23 +208,26 @@ func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
 	return result
 }
 
+// FileComplete returns true if all chunks of the file are available, and false if any is missing or
+// the file is not in the catalogue.
 func (c *Cat) FileComplete(hash *common.Sha1Hash) bool {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return false
 	}
 	return ir.ProgressFile.Full()
 }
 
-// MissingChunks returns a list of ranges of missing chunks for the given hash
+// MissingChunks returns a list of ranges of missing chunks for the given hash. The list is empty if
+// the file is not in the catalogue.
 func (c *Cat) MissingChunks(hash *common.Sha1Hash, maxCount int) []common.Range {
 	c.lock.Lock()
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return nil
 	}
 	return ir.ProgressFile.progress.UnfilledRanges()
 }
@@ -234,7 +237,7 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return err
 	}
 
 	err = ir.saveChunk(int64(chunk), data)
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 3a26dc7..f748e40 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -51,11 +51,18 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 
 	go func() { // TODO: make interruptiple with a channel
 		for !s.cat.FileComplete(hash) {
+			if _, err := s.cat.Contains(hash); err != nil {
+				fmt.Printf("Download of %v stopped: %v\n", hash, err) // e.g. it was unshared
+				return
+			}
 
 			// MARK: MASSIVE HACK. Fix this first!
 			wantedChunks := s.cat.MissingChunks(hash, 1) // TOOD: something much better than just
 			// getting the next wanted chunk. This runs the entire download serially!
 			// Find the least-known chunk from each host and download them
+			if len(wantedChunks) == 0 {
+				continue // completed or unshared since we last looked
+			}
 			c := wantedChunks[0]
 			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
 
@@ -133,7 +140,9 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 				}
 				err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
 				if err != nil {
-					panic(err)
+					// e.g. the disk is full, or the file was unshared. The chunk remains missing.
+					fmt.Printf("Failed to save chunk %d: %v\n", chunk, err)
+					break
 				}
 				downloadTime := float64(time.Since(start).Seconds())
 				speed := 4.0 / downloadTime
-- 
2.43.0


From 8184e5220fbef65e335f270d372481bbd966a345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:37 +0000
Subject: [PATCH 16/45] fix: the downloader releases a chunk's socket and
 goroutine when it is done

Once the end marker had arrived nobody read from the connection any more, so
its goroutine blocked forever on the next packet and the socket stayed open:
one of each leaked per downloaded chunk, until DialPeer failed with 'too many
open files' and panicked. A failure to connect now skips the host.
---
 flu/recvConnection.go      | 23 ++++++++++++++++++-----
 flu/serverStartDownload.go |  8 +++++---
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index 67e7f86..d6708fd 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -16,6 +16,7 @@ type RecvConnection struct {
 	buffer        []byte
 	windowCap     int
 	outChan       chan *messages.DataPacket
+	done          chan struct{} // closed when nobody reads from outChan any more
 }
 
 func (r *RecvConnection) Ack(offset uint32) {
@@ -25,6 +26,12 @@ func (r *RecvConnection) Ack(offset uint32) {
 	r.conn.Write(ack.Serialize())
 }
 
+// Close releases the connection. It must be called exactly once, and Read must not be called after.
+func (r *RecvConnection) Close() {
+	close(r.done)
+	r.conn.Close()
+}
+
 func (r *RecvConnection) Read() (*messages.DataPacket, bool) {
 	result := <-r.outChan
 	if result == nil {
@@ -46,6 +53,7 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 		buffer:        nil,
 		windowCap:     1024,
 		outChan:       make(chan *messages.DataPacket, 10),
+		done:          make(chan struct{}),
 	}
 
 	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: 1024}
@@ -56,13 +64,18 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 			buffer := make([]byte, 1029) // NOT 1024: the serialization overhead is 5 bytes
 			result.conn.SetReadDeadline(time.Now().Add(time.Second * 5))
 			n, _, err := result.conn.ReadFromUDP(buffer)
+			var packet *messages.DataPacket // nil if the connection failed
+			if err == nil {
+				packet = messages.ParseAsDataPacket(buffer[:n])
+			}
+			select {
+			case result.outChan <- packet:
+			case <-result.done:
+				return
+			}
 			if err != nil {
-				result.conn.Close()
-				result.outChan <- nil
 				fmt.Printf("Connection closed: %v-%d:%v\n", hash, chunk, err)
-				break
-			} else {
-				result.outChan <- messages.ParseAsDataPacket(buffer[:n])
+				return
 			}
 		}
 	}()
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index f748e40..f30c995 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -105,10 +105,14 @@ func (s *Server) downloadMetaData(
 }
 
 func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Hash, chunk uint16) {
+	defer delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
+
 	conn, err := DialPeer(ip, port, sha1Hash, chunk)
 	if err != nil {
-		panic(err) // TODO: log somewhere and move on...
+		fmt.Printf("Failed to connect to %v:%d: %v\n", ip, port, err)
+		return
 	}
+	defer conn.Close()
 
 	start := time.Now()
 
@@ -152,8 +156,6 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		}
 		conn.Ack(packet.Offset)
 	}
-
-	delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
 }
 
 func (s *Server) getGoodHosts(
-- 
2.43.0


From df0863bad7bb322f7c2e79fd9d10116e9db067d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 17/45] fix: a chunk whose hash does not match is not saved

The downloader reported the mismatch but then stored the corrupted bytes and
marked the chunk as downloaded, so it was never retried and was shared on.
---
 flu/serverStartDownload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index f30c995..60c977e 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -141,6 +141,7 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 				if finalHash.Data != conn.hash.Data {
 					// TODO: Handle this a little more gracefully...
 					fmt.Println("Sha1 hashes did not match. Download was corrupted. Retrying.")
+					break
 				}
 				err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
 				if err != nil {
-- 
2.43.0


From 95df40d41385e05a19f02fe48d1b46fd89751b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:56 +0000
Subject: [PATCH 18/45] fix: malformed packets from a sending peer no longer
 crash the downloader

A short datagram, data before the opening packet, an offset beyond the chunk or
an end marker at offset 0 made it panic, and the announced size was allocated
unchecked. The attempt is now abandoned and the chunk remains missing.
---
 flu/messages/msgDataPacket.go | 12 ++++++++++--
 flu/serverStartDownload.go    |  8 ++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/flu/messages/msgDataPacket.go b/flu/messages/msgDataPacket.go
index fa36434..96194d7 100644
--- a/flu/messages/msgDataPacket.go
+++ b/flu/messages/msgDataPacket.go
@@ -43,8 +43,12 @@ func (r *DataPacket) Serialize() []byte {
 
 // Split interprets the DataPacket as the first message with a zero offset and returns the
 // the individual components of that message, namely: a hash of its contents, the size of the
-// overall data being transmitted in this connection, and the raw data itself
+// overall data being transmitted in this connection, and the raw data itself. The hash is nil if the
+// DataPacket is too short to be such a message.
 func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte) {
+	if len(r.Data) < 24 {
+		return nil, 0, nil
+	}
 	hash := common.Sha1Hash{Data: [20]byte{}}
 	copy(hash.Data[:], r.Data[0:20]) // copy hash
 	chunkSize := binary.BigEndian.Uint32(r.Data[20:24])
@@ -54,8 +58,12 @@ func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte) {
 
 // ParseAsDataPacket takes raw bytes from the wire and parses them as a DataPacket. It skips over
 // the first byte since that's used to indicate what type the message is, and this function assumes
-// the caller already has good reason to know this is a DataPacket and not something else.
+// the caller already has good reason to know this is a DataPacket and not something else. It returns
+// nil if there are too few bytes for a DataPacket.
 func ParseAsDataPacket(data []byte) *DataPacket {
+	if len(data) < 5 {
+		return nil
+	}
 	return &DataPacket{
 		Offset: binary.BigEndian.Uint32(data[1:5]),
 		Data:   data[5:],
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 60c977e..7221587 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -125,10 +125,18 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		if packet.Offset == 0 {
 			// By convention the 0-offset packet contains the hash and chunk size
 			hash, size, data := packet.Split()
+			ir, err := s.cat.Contains(sha1Hash)
+			if hash == nil || err != nil || int64(size) > int64(ir.ChunkSize) {
+				fmt.Printf("Peer %v:%d sent an invalid opening packet\n", ip, port)
+				break
+			}
 			conn.hash = hash
 			conn.buffer = make([]byte, size)
 			copy(conn.buffer, data) // start at zero offset
 			conn.bytesReceived += len(data)
+		} else if conn.hash == nil || int64(packet.Offset) > int64(len(conn.buffer)) {
+			fmt.Printf("Peer %v:%d sent an unexpected packet\n", ip, port)
+			break
 		} else {
 			conn.bytesReceived += len(packet.Data)
 			if len(packet.Data) > 0 {
-- 
2.43.0


From 324944221bde52de57a84cb0765f5d8b1126d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 19/45] fix: a chunk that cannot be read in full is not served,
 and not read forever

NewChunkReader looped forever on any read error but EOF, e.g. once a directory
had taken the shared file's place, while the catalogue's lock was held. A file
that had been truncated was served as shorter, but valid, chunks.
---
 catalogue/indexRecord.go | 11 ++++++++++-
 common/chunkReader.go    |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0b114b8..980dc2d 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -84,7 +84,16 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		return nil, err
 	}
 
-	return common.NewChunkReader(secReader), nil
+	chunkReader := common.NewChunkReader(secReader)
+	size := ir.SizeInBytes - start // the last chunk extends to the end of the file
+	if size > int64(ir.ChunkSize) {
+		size = int64(ir.ChunkSize)
+	}
+	if chunkReader.Size != size {
+		fd.Close()
+		return nil, fmt.Errorf("read only %d of %d bytes of chunk %d", chunkReader.Size, size, chunk)
+	}
+	return chunkReader, nil
 }
 
 func generateIndexRecordForFile(path string) (*indexRecord, error) {
diff --git a/common/chunkReader.go b/common/chunkReader.go
index 64b2e30..3d1bad3 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -73,8 +73,8 @@ func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 			}
 		}
 
-		if err == io.EOF {
-			break
+		if err != nil {
+			break // usually io.EOF. Otherwise Size tells how much could be read
 		}
 	}
 
-- 
2.43.0


From fdeb061abc1e32b5b122374babaf7f92eb4c077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 20/45] fix: an upload ends when its transfer does, and does
 not leak into the next one

The map of uploads was used by concurrent goroutines without a lock. An upload
was never removed from it, so a peer that asked for another chunk from the same
port was sent the old chunk's remaining bytes under the new chunk's hash. At
the end of a chunk the worker deferred several terminate calls and blocked
forever in the second one; before that, one landing on a full window was
cancelled without sending the end marker. The worker, every goroutine
delivering it an ack, and the open file were leaked each time. A failure to
send to one peer panicked.

An upload is now released when its last packet is acked, when the peer opens
another one, after a failure, or when the peer has gone silent.
---
 catalogue/indexRecord.go    |  1 +
 common/chunkReader.go       |  9 ++++++
 flu/senderConnection.go     | 55 +++++++++++++++++++++++++++++++++----
 flu/server.go               |  3 +-
 flu/serverContinueUpload.go |  7 ++++-
 flu/serverStartUpload.go    | 21 ++++++++++++--
 6 files changed, 85 insertions(+), 11 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 980dc2d..d6417b2 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -93,6 +93,7 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		fd.Close()
 		return nil, fmt.Errorf("read only %d of %d bytes of chunk %d", chunkReader.Size, size, chunk)
 	}
+	chunkReader.Closer = fd
 	return chunkReader, nil
 }
 
diff --git a/common/chunkReader.go b/common/chunkReader.go
index 3d1bad3..9c7dcfc 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -13,6 +13,15 @@ type ChunkReader struct {
 	Reader io.SectionReader
 	Hash   Sha1Hash
 	Size   int64
+	Closer io.Closer // closes the underlying file, if there is one
+}
+
+// Close releases the file underlying the io.SectionReader
+func (cr *ChunkReader) Close() error {
+	if cr.Closer == nil {
+		return nil
+	}
+	return cr.Closer.Close()
 }
 
 func (cr *ChunkReader) Offset() uint32 {
diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index e618dcb..47f1ca6 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -2,8 +2,11 @@ package flu
 
 import (
 	"encoding/binary"
+	"fmt"
 	"io"
 	"net"
+	"sync"
+	"time"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/flu/messages"
@@ -16,9 +19,17 @@ type SenderConnection struct {
 	conn       *net.UDPConn
 	addr       *net.UDPAddr
 	packetChan chan messages.DataPacketAck
-	cancelChan chan struct{}
+	finished   bool // the end marker has been sent
+
+	cancelChan  chan struct{} // closed when the connection is terminated
+	cancelOnce  sync.Once
+	onTerminate func()
 }
 
+// senderIdleTimeout is how long a connection survives without acks. It exceeds the time after which
+// the receiver gives up.
+const senderIdleTimeout = 6 * time.Second
+
 func NewSenderConnection(reader *common.ChunkReader,
 	windowCap uint16,
 	conn *net.UDPConn,
@@ -31,7 +42,7 @@ func NewSenderConnection(reader *common.ChunkReader,
 		conn:       conn,
 		addr:       addr,
 		packetChan: make(chan messages.DataPacketAck, windowCap),
-		cancelChan: make(chan struct{}, 1),
+		cancelChan: make(chan struct{}),
 	}
 }
 
@@ -42,6 +53,14 @@ func (sc *SenderConnection) kickstart(
 	hash *common.Sha1Hash,
 	size int64,
 ) error {
+	started := false
+	defer func() {
+		if !started { // there is no worker to do it
+			sc.terminate()
+			sc.reader.Close()
+		}
+	}()
+
 	sc.reader.Reset()
 
 	firstPacket := messages.DataPacket{
@@ -70,14 +89,32 @@ func (sc *SenderConnection) kickstart(
 
 	sc.windowSize++
 
+	started = true
 	go func() {
+		defer sc.reader.Close()
+		defer sc.terminate()
+
+		idle := false
+		ticker := time.NewTicker(senderIdleTimeout)
+		defer ticker.Stop()
+
 		for {
 			select {
 			case ack := <-sc.packetChan:
+				idle = false
 				err := sc.kick(ack)
 				if err != nil {
-					panic(err) // TODO: Do something with these errors
+					fmt.Printf("Upload to %v failed: %v\n", sc.addr, err)
+					return
+				}
+				if sc.finished && sc.windowSize <= 1 {
+					return // only the end marker is unacked, and nobody acks that
 				}
+			case <-ticker.C:
+				if idle {
+					return
+				}
+				idle = true
 			case <-sc.cancelChan:
 				return
 			}
@@ -87,8 +124,14 @@ func (sc *SenderConnection) kickstart(
 	return nil
 }
 
+// terminate makes the worker routine exit. It may be called repeatedly and from any routine.
 func (sc *SenderConnection) terminate() {
-	sc.cancelChan <- struct{}{}
+	sc.cancelOnce.Do(func() {
+		close(sc.cancelChan)
+		if sc.onTerminate != nil {
+			sc.onTerminate()
+		}
+	})
 }
 
 // kick receives an ack from the client and responds accordingly. Passed by value because acks are
@@ -99,12 +142,12 @@ func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
 	packet := messages.DataPacket{Offset: 0, Data: nil}
 	packetBuffer := make([]byte, 1024)
 
-	for sc.windowSize < sc.windowCap {
+	for !sc.finished && sc.windowSize < sc.windowCap {
 
 		byteCount, offset, err := sc.reader.Read(packetBuffer)
 
 		if err == io.EOF {
-			defer sc.terminate() // make this the last message
+			sc.finished = byteCount == 0 // make this the last message: an empty one
 		} else if err != nil {
 			return err
 		}
diff --git a/flu/server.go b/flu/server.go
index 279ae7d..fd12014 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -32,11 +32,12 @@ type Server struct {
 	resMap     map[requestKey]chan messages.Message
 	resMapLock sync.Mutex
 
-	// transfer lock, downloads and uploads ensures safe access to the download and upload maps.
+	// transferLock, downloads, uploads and uploadLock ensure safe access to the download and upload maps.
 	// These maps are used to keep track on ongoing transfers, irrespective of their state.
 	transferLock sync.Mutex
 	downloads    map[downloadKey]struct{} // corresponds to a single chunk from a single host
 	uploads      map[uploadKey]*SenderConnection
+	uploadLock   sync.Mutex // guards uploads: transferLock is held during whole downloads
 }
 
 // requestKey is used to uniquely identify a request that is awaiting one or more responses in a
diff --git a/flu/serverContinueUpload.go b/flu/serverContinueUpload.go
index a29395f..bbce28b 100644
--- a/flu/serverContinueUpload.go
+++ b/flu/serverContinueUpload.go
@@ -22,11 +22,16 @@ func (s *Server) ContinueUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
+	s.uploadLock.Lock()
 	sc, ok := s.uploads[key]
+	s.uploadLock.Unlock()
 	if !ok {
 		return fmt.Errorf("no upload corresponds to %v:%d", key.remoteHost, key.remotePort)
 	}
 
-	sc.packetChan <- *ack
+	select {
+	case sc.packetChan <- *ack:
+	case <-sc.cancelChan: // nobody receives acks any more
+	}
 	return nil
 }
diff --git a/flu/serverStartUpload.go b/flu/serverStartUpload.go
index 2b2b013..54b9292 100644
--- a/flu/serverStartUpload.go
+++ b/flu/serverStartUpload.go
@@ -25,12 +25,14 @@ func (s *Server) StartUpload(
 	}
 
 	if reader.Size > math.MaxUint32 {
+		reader.Close()
 		err = fmt.Errorf("chunk size (%d) exceeds max 32-bit int (%d)", reader.Size, math.MaxInt32)
 		return err
 	}
 
 	remoteHostIP, err := newIpv4(&returnAddr.IP)
 	if err != nil {
+		reader.Close()
 		return err
 	}
 
@@ -39,9 +41,22 @@ func (s *Server) StartUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
-	if _, ok := s.uploads[key]; !ok {
-		s.uploads[key] = NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	sc := NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	sc.onTerminate = func() {
+		s.uploadLock.Lock()
+		defer s.uploadLock.Unlock()
+		if s.uploads[key] == sc {
+			delete(s.uploads, key)
+		}
 	}
 
-	return s.uploads[key].kickstart(&reader.Hash, int64(reader.Size))
+	s.uploadLock.Lock()
+	stale, ok := s.uploads[key]
+	s.uploads[key] = sc
+	s.uploadLock.Unlock()
+	if ok {
+		stale.terminate() // the peer now wants this chunk on this port
+	}
+
+	return sc.kickstart(&reader.Hash, int64(reader.Size))
 }
-- 
2.43.0


From ab115fdf4052c7040365ee0a515ccd0db40379c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 21/45] fix: duplicated acks no longer stall an upload

An ack arriving while nothing was outstanding wrapped the 16-bit window size
around to 65535, after which nothing was ever sent again.
---
 flu/senderConnection.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index 47f1ca6..aa53b1d 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -137,7 +137,9 @@ func (sc *SenderConnection) terminate() {
 // kick receives an ack from the client and responds accordingly. Passed by value because acks are
 // << 64 bits
 func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
-	sc.windowSize--
+	if sc.windowSize > 0 { // the network can duplicate acks
+		sc.windowSize--
+	}
 
 	packet := messages.DataPacket{Offset: 0, Data: nil}
 	packetBuffer := make([]byte, 1024)
-- 
2.43.0


From 010ce6892286e0b908deb3c1669464fa4714daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 22/45] fix: a crash while the index or a progress file is
 written does not destroy it

Both were truncated and rewritten in place. A daemon killed, or a disk filling
up, in between lost the index, which no later start could read, or the progress
of a download.
---
 catalogue/indexFile.go    |  2 +-
 catalogue/progressFile.go |  2 +-
 catalogue/writeFile.go    | 17 +++++++++++++++++
 3 files changed, 19 insertions(+), 2 deletions(-)
 create mode 100644 catalogue/writeFile.go

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index c29d583..1c140a4 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -81,7 +81,7 @@ func (ind *indexFile) save() error {
 	}
 
 	indexFilePath := filepath.Join(ind.dataDir, indexFileName)
-	err = os.WriteFile(indexFilePath, data, 0664)
+	err = writeFile(indexFilePath, data)
 	if err != nil {
 		return err
 	}
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index ba14d80..573323a 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -92,7 +92,7 @@ func newProgressFile(record *indexRecord, dataDir string) *progressFile {
 func (p *progressFile) save() error {
 	data := p.progress.Serialize()
 	progressFilePath := filepath.Join(p.filePath)
-	err := os.WriteFile(progressFilePath, data, 0664)
+	err := writeFile(progressFilePath, data)
 	if err != nil {
 		return err
 	}
diff --git a/catalogue/writeFile.go b/catalogue/writeFile.go
new file mode 100644
index 0000000..a76aa23
--- /dev/null
+++ b/catalogue/writeFile.go
@@ -0,0 +1,17 @@
+package catalogue
+
+import "os"
+
+// writeFile replaces the contents of the file at path, or leaves it as it was if that fails or the
+// process dies meanwhile. Callers must hold a mutex granting exclusive access.
+func writeFile(path string, data []byte) error {
+	temporary := path + ".tmp"
+	err := os.WriteFile(temporary, data, 0664)
+	if err == nil {
+		err = os.Rename(temporary, path)
+	}
+	if err != nil {
+		os.Remove(temporary)
+	}
+	return err
+}
-- 
2.43.0


From 9e05f6a94d244ce33297bb8cda93f15b7362ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 23/45] fix: the index never refers to a progress file that
 does not exist

A crash or a failed write between the two left such a record behind. From then
on every listing failed, and with it every answer to a peer, until index.json
was edited by hand. Operations that fail now leave the catalogue as it was.
---
 catalogue/catalogue.go    | 27 +++++++++------------------
 catalogue/indexFile.go    | 20 ++++++++++++++++++--
 catalogue/progressFile.go |  6 ++++++
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index c537a28..3f8988e 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -69,14 +69,9 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
-	err = c.indexFile.AddIndexRecord(record)
-	if err != nil {
-		return nil, err
-	}
-
 	record.ProgressFile = newProgressFile(record, c.DataDir)
 	record.ProgressFile.progress.Fill()
-	err = record.ProgressFile.save()
+	err = c.indexFile.AddIndexRecord(record)
 	if err != nil {
 		return nil, err
 	}
@@ -95,16 +90,12 @@ func (c *Cat) UnshareFile(hash *common.Sha1Hash) error {
 		return err
 	}
 
-	err = rec.ProgressFile.delete()
-	if err != nil {
-		return err
-	}
-
 	err = c.indexFile.RemoveIndexRecord(rec)
 	if err != nil {
 		return err
 	}
 
+	rec.ProgressFile.delete() // best effort: nothing refers to it any more
 	return nil
 }
 
@@ -128,13 +119,8 @@ func (c *Cat) RegisterDownload(
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
-	err := c.indexFile.AddIndexRecord(&indexRecord)
-	if err != nil {
-		return nil, err
-	}
-
 	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
-	indexRecord.ProgressFile.save()
+	err := c.indexFile.AddIndexRecord(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
@@ -245,8 +231,13 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 		return err
 	}
 
+	had := ir.ProgressFile.progress.Get(uint64(chunk))
 	ir.ProgressFile.Set(uint64(chunk))
-	return ir.ProgressFile.save()
+	err = ir.ProgressFile.save()
+	if err != nil && !had {
+		ir.ProgressFile.Unset(uint64(chunk))
+	}
+	return err
 }
 
 func (c *Cat) GetChunkReader(hash *common.Sha1Hash, chunk int64) (*common.ChunkReader, error) {
diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 1c140a4..39a081d 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -96,15 +96,31 @@ func (ind *indexFile) AddIndexRecord(record *indexRecord) error {
 	if extantRecord, exists := ind.index[record.Sha1Hash]; exists {
 		return fmt.Errorf("identical file already shared: %s", extantRecord.FilePath)
 	}
+
+	// the progress file goes first: a record without one is unusable, but not the other way around
+	err := record.ProgressFile.save()
+	if err != nil {
+		return err
+	}
+
 	ind.index[record.Sha1Hash] = record
-	return ind.save()
+	err = ind.save()
+	if err != nil {
+		delete(ind.index, record.Sha1Hash)
+		record.ProgressFile.delete()
+	}
+	return err
 }
 
 // RemoveIndexRecord removes an indexRecord from the underlying file, and reloads the in-memory
 // representation of the data so that change is reflected.
 func (ind *indexFile) RemoveIndexRecord(record *indexRecord) error {
 	delete(ind.index, record.Sha1Hash)
-	return ind.save()
+	err := ind.save()
+	if err != nil {
+		ind.index[record.Sha1Hash] = record
+	}
+	return err
 }
 
 // MarshalJSON conforms to the Marshaler interface
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index 573323a..3c16674 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -31,6 +31,12 @@ func (p *progressFile) Set(index uint64) {
 	p.progress.Set(index)
 }
 
+func (p *progressFile) Unset(index uint64) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	p.progress.Unset(index)
+}
+
 // Size returns the number of elements in the bitset, both set and unset. Size is always
 // non-negative
 func (p *progressFile) Size() int {
-- 
2.43.0


From fd85a172a6a23dec18a8efe34d775a838ba95318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:55 +0000
Subject: [PATCH 24/45] fix: a download's file name and sizes are validated
 before it is registered

They come from a peer. A name like '../../.bashrc' made the download write
outside the downloads directory, and a chunk size of 0 or a size of 2^63 or
more panicked after the unusable record had been written to the index. More
than 65536 chunks cannot be addressed.
---
 catalogue/catalogue.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 3f8988e..85ea4cd 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -2,7 +2,9 @@ package catalogue
 
 import (
 	"fmt"
+	"math"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/flu-network/client/common"
@@ -111,6 +113,17 @@ func (c *Cat) RegisterDownload(
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	// all of this was sent to us by a peer
+	if sizeInBytes > math.MaxInt64 || chunkSizeInBytes == 0 ||
+		(sizeInBytes > 0 && (sizeInBytes-1)/uint64(chunkSizeInBytes) > math.MaxUint16) {
+		return nil, fmt.Errorf("cannot download %d bytes in chunks of %d",
+			sizeInBytes, chunkSizeInBytes)
+	}
+	if filename == "" || filename == "." || filename == ".." ||
+		strings.ContainsAny(filename, "/\x00") || filepath.Base(filename) != filename {
+		return nil, fmt.Errorf("cannot download to a file named %q", filename)
+	}
+
 	indexRecord := indexRecord{
 		FilePath:     filepath.Join(c.DefaultDownloadsDir, filename),
 		SizeInBytes:  int64(sizeInBytes),
-- 
2.43.0


From 40154bfd51606ef2dda1ddcd0cebc9f603b5cdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 25/45] fix: create the downloads directory before downloading
 into it

Nothing ever created it, so the first chunk of the first download could not be
saved.
---
 catalogue/catalogue.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 85ea4cd..f6318c6 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -3,6 +3,7 @@ package catalogue
 import (
 	"fmt"
 	"math"
+	"os"
 	"path/filepath"
 	"strings"
 	"sync"
@@ -124,6 +125,11 @@ func (c *Cat) RegisterDownload(
 		return nil, fmt.Errorf("cannot download to a file named %q", filename)
 	}
 
+	err := os.MkdirAll(c.DefaultDownloadsDir, os.ModePerm)
+	if err != nil {
+		return nil, err
+	}
+
 	indexRecord := indexRecord{
 		FilePath:     filepath.Join(c.DefaultDownloadsDir, filename),
 		SizeInBytes:  int64(sizeInBytes),
@@ -133,7 +139,7 @@ func (c *Cat) RegisterDownload(
 	}
 
 	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
-	err := c.indexFile.AddIndexRecord(&indexRecord)
+	err = c.indexFile.AddIndexRecord(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ea9a97b619d9654511e288bfb8209f676c77cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:11 +0000
Subject: [PATCH 26/45] fix: a download never writes into a file that something
 else created

Downloads of different files with the same name were written into one another
and both reported complete, and a leftover longer file at the same path kept
its tail. A download whose name is taken now goes to 'name (1).ext'.
---
 catalogue/catalogue.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index f6318c6..a59c6ce 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -131,7 +131,7 @@ func (c *Cat) RegisterDownload(
 	}
 
 	indexRecord := indexRecord{
-		FilePath:     filepath.Join(c.DefaultDownloadsDir, filename),
+		FilePath:     c.unusedPath(filename),
 		SizeInBytes:  int64(sizeInBytes),
 		Sha1Hash:     *sha1Hash,
 		ProgressFile: nil,
@@ -147,6 +147,25 @@ func (c *Cat) RegisterDownload(
 	return indexRecord.export(), nil
 }
 
+// unusedPath returns a path in the downloads directory at which there is no file, and at which no
+// other download will create one. It is named like filename, if possible.
+func (c *Cat) unusedPath(filename string) string {
+	taken := map[string]bool{}
+	for _, rec := range c.indexFile.index {
+		taken[rec.FilePath] = true
+	}
+
+	path := filepath.Join(c.DefaultDownloadsDir, filename)
+	extension := filepath.Ext(filename)
+	for i := 1; ; i++ {
+		if _, err := os.Lstat(path); err != nil && !taken[path] {
+			return path
+		}
+		name := fmt.Sprintf("%s (%d)%s", strings.TrimSuffix(filename, extension), i, extension)
+		path = filepath.Join(c.DefaultDownloadsDir, name)
+	}
+}
+
 // ListFiles lists the files that exist in the catalogue. Not all indexed files have been downloaded
 // in their entirety. The result is a deep copy of the underlying catalogue data, so mutating it is
 // okay.
-- 
2.43.0


From 5fd451ec3eb11470e97567131c9947e0f3ad1041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 27/45] fix: SaveChunk rejects chunks that do not exist or have
 the wrong length

The length is chosen by the sending peer. A longer chunk overwrote the start of
the next one, a shorter one was recorded as complete, and one beyond the end
grew the file and its progress.
---
 catalogue/indexRecord.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index d6417b2..de8e7cd 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -50,6 +50,9 @@ func (ir *indexRecord) export() *IndexRecordExport {
 }
 
 func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
+	if want := ir.chunkLength(chunk); want <= 0 || int64(len(data)) != want {
+		return fmt.Errorf("chunk %d cannot have %d bytes", chunk, len(data))
+	}
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
@@ -85,11 +88,7 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 	}
 
 	chunkReader := common.NewChunkReader(secReader)
-	size := ir.SizeInBytes - start // the last chunk extends to the end of the file
-	if size > int64(ir.ChunkSize) {
-		size = int64(ir.ChunkSize)
-	}
-	if chunkReader.Size != size {
+	if size := ir.chunkLength(chunk); chunkReader.Size != size {
 		fd.Close()
 		return nil, fmt.Errorf("read only %d of %d bytes of chunk %d", chunkReader.Size, size, chunk)
 	}
@@ -97,6 +96,16 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 	return chunkReader, nil
 }
 
+// chunkLength returns the number of bytes in the given chunk. All have ChunkSize bytes but the last,
+// which extends to the end of the file. It is not positive for chunks that do not exist.
+func (ir *indexRecord) chunkLength(chunk int64) int64 {
+	rest := ir.SizeInBytes - chunk*int64(ir.ChunkSize)
+	if rest > int64(ir.ChunkSize) {
+		return int64(ir.ChunkSize)
+	}
+	return rest
+}
+
 func generateIndexRecordForFile(path string) (*indexRecord, error) {
 	cleanPath, err := filepath.Abs(path)
 	if err != nil {
-- 
2.43.0


From c5518c30cd16ce0f04fa81eb1c1202af60d55437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 28/45] fix: a catalogue saves its index where it was opened

It went to the directory recorded inside the index instead, so after moving or
copying a catalogue its changes were lost, or applied to the original.
---
 catalogue/indexFile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 39a081d..6abef5a 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -70,6 +70,7 @@ func (ind *indexFile) Init(dataDir string) error {
 	}
 
 	err = ind.UnmarshalJSON(data)
+	ind.dataDir = dataDir // the directory may have been moved or copied since
 	// TODO: assert ownership
 	return err
 }
-- 
2.43.0


From 6be643856aa8f9b6a772280d6a7d829bfc5a3963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:58 +0000
Subject: [PATCH 29/45] fix: a downloaded file is checked against the hash that
 was asked for

Chunks are only compared with the hash their sender announces, so a peer whose
copy had changed, or that lied, made the catalogue list and share a complete
file with a hash that is not its own.
---
 flu/serverStartDownload.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 7221587..9976515 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -81,6 +81,16 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 				s.transferLock.Unlock()
 			}
 		}
+
+		// chunks are only checked against what their senders said, so check the whole
+		current, err := s.cat.Rehash(hash)
+		if err == nil && *current != *hash {
+			fmt.Printf("Downloaded %v instead of %v. Removing it from the index\n", current, hash)
+			err = s.cat.UnshareFile(hash)
+		}
+		if err != nil {
+			fmt.Println(err)
+		}
 		fmt.Println("Download complete")
 	}()
 
-- 
2.43.0


From a66939ecee5d7c9d73fc926062adfb9bb8f779f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:59 +0000
Subject: [PATCH 30/45] fix: 'flu list' with an IPV6 address no longer kills
 the daemon

The RPC server does not recover, so indexing the nil result of To4 ended it.
---
 cli/cliMethodsList.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/cliMethodsList.go b/cli/cliMethodsList.go
index 80c9e8a..3574efe 100644
--- a/cli/cliMethodsList.go
+++ b/cli/cliMethodsList.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"fmt"
 	"net"
 	"strings"
 
@@ -52,6 +53,9 @@ func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
 		}
 	} else {
 		addr := req.IP.To4()
+		if addr == nil {
+			return fmt.Errorf("not an IPV4 address: %v", req.IP)
+		}
 		ip := [4]byte{addr[0], addr[1], addr[2], addr[3]}
 		r, err := m.fluServer.ListFilesOnHost(ip, uint16(m.fluServer.Port()), req.Sha1Hash)
 		if err != nil {
-- 
2.43.0


From 4863db047d5ba166b522ee0b04f43379ac8f78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 31/45] fix: printing an empty file or an unpaired chunk index
 does not crash the CLI

Once an empty file had been shared, 'flu share' and every 'flu list' divided by
its chunk count of 0. Any peer can send an odd number of chunk indices.
---
 cli/cliMethodsChims.go | 2 +-
 cli/cliMethodsShare.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/cliMethodsChims.go b/cli/cliMethodsChims.go
index 2499ee2..8b04cd3 100644
--- a/cli/cliMethodsChims.go
+++ b/cli/cliMethodsChims.go
@@ -28,7 +28,7 @@ func (c *ChimResponse) Sprintf() string {
 	var b strings.Builder
 	b.WriteString(fmt.Sprintf("IP: %d.%d.%d.%d:%d\n",
 		c.HostIP[0], c.HostIP[1], c.HostIP[2], c.HostIP[3], c.HostPort))
-	for i := 0; i < len(c.Chunks); i += 2 {
+	for i := 0; i+1 < len(c.Chunks); i += 2 {
 		b.WriteString(fmt.Sprintf("  %d:%d\n", c.Chunks[i], c.Chunks[i+1]))
 	}
 	return b.String()
diff --git a/cli/cliMethodsShare.go b/cli/cliMethodsShare.go
index 9c7482f..3d5f57b 100644
--- a/cli/cliMethodsShare.go
+++ b/cli/cliMethodsShare.go
@@ -27,6 +27,10 @@ type ListItem struct {
 // Sprintf returns a pretty-printed, user-facing string representation of a ListItem
 func (li *ListItem) Sprintf() string {
 	_, fileName := path.Split(li.FilePath)
+	integrity := 100 // an empty file has no chunks to miss
+	if li.ChunkCount > 0 {
+		integrity = li.ChunksDownloaded * 100 / li.ChunkCount
+	}
 	output := []string{
 		fmt.Sprintf("%s\n", fileName),
 		fmt.Sprintf("	Path: %s\n", li.FilePath),
@@ -35,7 +39,7 @@ func (li *ListItem) Sprintf() string {
 		fmt.Sprintf("	Chunk Count: %d\n", li.ChunkCount),
 		fmt.Sprintf("	Chunks Downloaded: %d\n", li.ChunksDownloaded),
 		fmt.Sprintf("	Chunk Size: %d\n", li.ChunkSizeInBytes),
-		fmt.Sprintf("	Integrity: %d%%\n", (li.ChunksDownloaded*100/li.ChunkCount*100)/100),
+		fmt.Sprintf("	Integrity: %d%%\n", integrity),
 	}
 
 	var b strings.Builder
-- 
2.43.0


From 49c4fdd0dec0fd903eeaf9566a87ec3a0b934dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 32/45] fix: 'flu share' resolves a relative path where the
 user typed it

It was resolved against the daemon's working directory, so it was not found or
named another file.
---
 cli/cliClient.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 08f99eb..4a43cc2 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -5,6 +5,7 @@ import (
 	"net"
 	"net/rpc"
 	"os"
+	"path/filepath"
 	"reflect"
 
 	"github.com/flu-network/client/common"
@@ -45,7 +46,9 @@ func (c *Client) Run(cmdArgs []string) {
 	// 	- flu list ~/Desktop/path-to-file.mkv
 	case "share":
 		validateArgCount("Share", ShareRequest{}, args)
-		req := ShareRequest{Filepath: args[0]}
+		path, err := filepath.Abs(args[0]) // the daemon runs in another directory
+		validate(err)
+		req := ShareRequest{Filepath: path}
 		res := ListItem{}
 		callClientMethodAndPrintResponse(client, "Methods.Share", &req, &res)
 
-- 
2.43.0


From 95eca1782d134e57696471ba4cb5f5d771c6e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 33/45] fix: 'flu get' without a hash prints its usage instead
 of panicking

---
 cli/cliClient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 4a43cc2..b461bc4 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -101,9 +101,9 @@ func (c *Client) Run(cmdArgs []string) {
 			Sha1Hash: &common.Sha1Hash{},
 		}
 		res := GetResponse{}
+		validateArgCount("Get", GetRequest{}, args)
 		err := req.Sha1Hash.FromStringSafe(args[0])
 		validate(err)
-		validateArgCount("Clean", GetRequest{}, args)
 		callClientMethodAndPrintResponse(client, "Methods.Get", &req, &res)
 
 	// Chims lists available hosts on the LAN, including the local daemon. If gives hosts a few
-- 
2.43.0


From b3dfa3c15b73aff219b48b9dd9360edd3cd2fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 34/45] fix: a shared path that is not valid UTF-8 survives a
 restart

The JSON encoder replaces its invalid bytes, so after a restart the index named
a file that does not exist, which 'flu clean' then removed.
---
 catalogue/indexRecord.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index de8e7cd..6b95ea4 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/common/bitset"
@@ -134,12 +135,16 @@ func generateIndexRecordForFile(path string) (*indexRecord, error) {
 
 // toJSON returns an indexRecordJSON, which can natively be marshalled into JSON
 func (ir *indexRecord) toJSON() *indexRecordJSON {
-	return &indexRecordJSON{
+	result := &indexRecordJSON{
 		FilePath:    ir.FilePath,
 		SizeInBytes: ir.SizeInBytes,
 		Sha1Hash:    ir.Sha1Hash.String(),
 		ChunkSize:   ir.ChunkSize,
 	}
+	if !utf8.ValidString(ir.FilePath) {
+		result.RawFilePath = []byte(ir.FilePath) // JSON strings cannot express it
+	}
+	return result
 }
 
 // UnmarshalJSON conforms to the Marshaler interface
@@ -152,6 +157,10 @@ func (irj *indexRecordJSON) fromJSON() (*indexRecord, error) {
 		ChunkSize:    irj.ChunkSize,
 	}
 
+	if irj.RawFilePath != nil {
+		result.FilePath = string(irj.RawFilePath)
+	}
+
 	err := result.Sha1Hash.FromStringSafe(irj.Sha1Hash)
 	if err != nil {
 		return nil, err
@@ -166,4 +175,5 @@ type indexRecordJSON struct {
 	SizeInBytes int64
 	Sha1Hash    string
 	ChunkSize   int
+	RawFilePath []byte `json:",omitempty"` // overrides FilePath if that is not valid UTF-8
 }
-- 
2.43.0


From 2b48fc06da07c23269bf0b889c92b3e96c54c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 35/45] fix: sharing, checking or serving a pipe or device does
 not block the daemon

---
 catalogue/indexRecord.go |  2 +-
 common/utils.go          | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 6b95ea4..11de08e 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -77,7 +77,7 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		return nil, fmt.Errorf("missing requested chunk %d", chunk)
 	}
 
-	fd, err := os.Open(ir.FilePath)
+	fd, err := common.OpenFile(ir.FilePath)
 	if err != nil {
 		return nil, err
 	}
diff --git a/common/utils.go b/common/utils.go
index 8d1f3e7..48b738e 100644
--- a/common/utils.go
+++ b/common/utils.go
@@ -11,7 +11,7 @@ import (
 // TODO: come up with some sort of async/progress-bar method because at 500mbps of disk throughput
 // this could take 10 seconds for a 5GB file, and 1.5 minutes for a 50GB file.
 func HashFile(path string) (*Sha1Hash, error) {
-	f, err := os.Open(path)
+	f, err := OpenFile(path)
 	if err != nil {
 		return nil, err
 	}
@@ -43,6 +43,19 @@ func HashFile(path string) (*Sha1Hash, error) {
 	return (&Sha1Hash{}).FromSlice(hash.Sum(nil)), nil
 }
 
+// OpenFile opens a regular file for reading. Anything else is an error: opening or reading a named
+// pipe or a device may never return.
+func OpenFile(path string) (*os.File, error) {
+	info, err := os.Stat(path)
+	if err != nil {
+		return nil, err
+	}
+	if !info.Mode().IsRegular() {
+		return nil, fmt.Errorf("%s is not a regular file", path)
+	}
+	return os.Open(path)
+}
+
 func failHard(err error) {
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 3b9d501d25335065e78b6028b6143640555008a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 36/45] fix: a download is refused if its destination cannot be
 examined

---
 catalogue/catalogue.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index a59c6ce..30fa2dc 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -130,8 +130,13 @@ func (c *Cat) RegisterDownload(
 		return nil, err
 	}
 
+	filePath, err := c.unusedPath(filename)
+	if err != nil {
+		return nil, err
+	}
+
 	indexRecord := indexRecord{
-		FilePath:     c.unusedPath(filename),
+		FilePath:     filePath,
 		SizeInBytes:  int64(sizeInBytes),
 		Sha1Hash:     *sha1Hash,
 		ProgressFile: nil,
@@ -149,7 +154,7 @@ func (c *Cat) RegisterDownload(
 
 // unusedPath returns a path in the downloads directory at which there is no file, and at which no
 // other download will create one. It is named like filename, if possible.
-func (c *Cat) unusedPath(filename string) string {
+func (c *Cat) unusedPath(filename string) (string, error) {
 	taken := map[string]bool{}
 	for _, rec := range c.indexFile.index {
 		taken[rec.FilePath] = true
@@ -158,8 +163,12 @@ func (c *Cat) unusedPath(filename string) string {
 	path := filepath.Join(c.DefaultDownloadsDir, filename)
 	extension := filepath.Ext(filename)
 	for i := 1; ; i++ {
-		if _, err := os.Lstat(path); err != nil && !taken[path] {
-			return path
+		_, err := os.Lstat(path)
+		if err != nil && !os.IsNotExist(err) {
+			return "", err // e.g. the name is too long
+		}
+		if err != nil && !taken[path] {
+			return path, nil
 		}
 		name := fmt.Sprintf("%s (%d)%s", strings.TrimSuffix(filename, extension), i, extension)
 		path = filepath.Join(c.DefaultDownloadsDir, name)
-- 
2.43.0


From 8740b476edeec01f1a94db15f7f7c7481f03bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:43 +0000
Subject: [PATCH 37/45] fix: a peer that keeps sending cannot occupy the
 downloader forever

---
 flu/serverStartDownload.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 9976515..14f3856 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -9,6 +9,10 @@ import (
 	"github.com/flu-network/client/flu/messages"
 )
 
+// maxChunkTime is how long fetching a chunk from one peer may take altogether. No other chunk is
+// fetched meanwhile, so a peer must not be able to keep a transfer going forever.
+const maxChunkTime = 2 * time.Minute
+
 // StartDownload creates a progressfile for the specified file, adds it to the catalogue, and
 // begins the download. A name for the file is chosen arbitrarily from one of the hosts who have
 // that file.
@@ -131,6 +135,10 @@ func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Has
 		if !ok {
 			break
 		}
+		if time.Since(start) > maxChunkTime {
+			fmt.Printf("Peer %v:%d takes too long to send a chunk\n", ip, port)
+			break
+		}
 
 		if packet.Offset == 0 {
 			// By convention the 0-offset packet contains the hash and chunk size
-- 
2.43.0


From 21ae2d09d787964a50cea60a34181cf4a0b7be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:26 +0000
Subject: [PATCH 38/45] fix: a CLI request without a hash is refused

The RPC server does not recover, so dereferencing the missing hash ended the
daemon.
---
 cli/cliMethodsChims.go | 3 +++
 cli/cliMethodsGet.go   | 9 ++++++++-
 cli/cliMethodsList.go  | 3 +++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/cli/cliMethodsChims.go b/cli/cliMethodsChims.go
index 8b04cd3..a822f1f 100644
--- a/cli/cliMethodsChims.go
+++ b/cli/cliMethodsChims.go
@@ -51,6 +51,9 @@ func (c *ChimResponseList) Sprintf() string {
 // Chims lists available hosts on the network. If a sha1 is provided, only hosts that have at least
 // some of that file will respond, and their responses will be scoped to that one file.
 func (m *Methods) Chims(req *ChimRequest, resp *ChimResponseList) error {
+	if req.Sha1Hash == nil {
+		return fmt.Errorf("no hash supplied")
+	}
 	r := m.fluServer.DiscoverHosts(req.Sha1Hash, []uint16{})
 	resp.Responses = make([]ChimResponse, len(r))
 	for i, peer := range r {
diff --git a/cli/cliMethodsGet.go b/cli/cliMethodsGet.go
index f0a3a33..3380381 100644
--- a/cli/cliMethodsGet.go
+++ b/cli/cliMethodsGet.go
@@ -1,6 +1,10 @@
 package cli
 
-import "github.com/flu-network/client/common"
+import (
+	"fmt"
+
+	"github.com/flu-network/client/common"
+)
 
 // GetRequest contains the information necessary to initiate a flu transfer to get a file
 type GetRequest struct {
@@ -17,5 +21,8 @@ func (res *GetResponse) Sprintf() string {
 
 // Get initiates a flu transfer for the specified file
 func (m *Methods) Get(req *GetRequest, res *GetResponse) error {
+	if req.Sha1Hash == nil {
+		return fmt.Errorf("no hash supplied")
+	}
 	return m.fluServer.StartDownload(req.Sha1Hash)
 }
diff --git a/cli/cliMethodsList.go b/cli/cliMethodsList.go
index 3574efe..aa75c1b 100644
--- a/cli/cliMethodsList.go
+++ b/cli/cliMethodsList.go
@@ -56,6 +56,9 @@ func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
 		if addr == nil {
 			return fmt.Errorf("not an IPV4 address: %v", req.IP)
 		}
+		if req.Sha1Hash == nil {
+			return fmt.Errorf("no hash supplied")
+		}
 		ip := [4]byte{addr[0], addr[1], addr[2], addr[3]}
 		r, err := m.fluServer.ListFilesOnHost(ip, uint16(m.fluServer.Port()), req.Sha1Hash)
 		if err != nil {
-- 
2.43.0


From 2254c163df8ad941df716b6e40cf9ffc1ff0450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 39/45] fix: Rehash returns a blank hash for a file that is not
 in the catalogue

As documented. Clean dereferenced the nil it got if an entry was removed and
added again while it ran.
---
 catalogue/catalogue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 30fa2dc..6e3b993 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -205,7 +205,7 @@ func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
 	rec, err := c.getIndexRecord(hash)
 	c.lock.Unlock() // hashing can take long and needs no exclusive access
 	if err != nil {
-		return nil, err
+		return (&common.Sha1Hash{}).Blank(), err
 	}
 	currentHash, err := common.HashFile(rec.FilePath)
 	if err != nil {
-- 
2.43.0


From de26093dbdd50c80ca6457bc28fc1f3818b19508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:32 +0000
Subject: [PATCH 40/45] fix: running out of file descriptors does not kill the
 daemon

LocalIP panicked, so a discovery request ended the daemon while peers held as
many uploads open as it may have files.
---
 flu/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flu/server.go b/flu/server.go
index fd12014..b9924c8 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -159,7 +159,7 @@ func (s *Server) HandleMessage(message []byte, conn *net.UDPConn, returnAddr *ne
 func (s *Server) LocalIP() *net.IP {
 	addrs, err := net.InterfaceAddrs()
 	if err != nil {
-		panic(err)
+		return nil // e.g. too many open files
 	}
 
 	for _, a := range addrs {
-- 
2.43.0


From efb75c82abaa9251c249d93891b5f29e4e499abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:32 +0000
Subject: [PATCH 41/45] fix: the CLI interface survives a failure to accept a
 connection

rpc.Server.Accept returns at the first error, e.g. while peers held as many
uploads open as the daemon may have files. No CLI command worked any more
until the daemon was restarted.
---
 main.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 2a77b5e..bfa6420 100644
--- a/main.go
+++ b/main.go
@@ -75,8 +75,16 @@ func startDaemon() {
 		failHard(e)
 		fmt.Printf("UNIX Interface available at: %s\n", sockaddr)
 
-		rpcServer.Accept(listener)
-		listener.Close()
+		defer listener.Close()
+		for {
+			conn, err := listener.Accept()
+			if err != nil { // e.g. too many open files for now
+				log.Println(err)
+				time.Sleep(100 * time.Millisecond)
+				continue
+			}
+			go rpcServer.ServeConn(conn)
+		}
 	}()
 
 	// expose p2p interface (UDP)
-- 
2.43.0


From c0e838776f91ddd415ceb122551ca333502ab62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:33 +0000
Subject: [PATCH 42/45] fix: a download does not busy-loop while there is no
 network

Discovery failed at once, so the download retried, and logged, as fast as it
could.
---
 flu/serverDiscoverHosts.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index ab59523..2135646 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -37,6 +37,7 @@ func (s *Server) DiscoverHosts(
 	if err != nil {
 		s.unregisterResponseChan(req.RequestID, req.ResponseType())
 		log.Printf("failed to broadcast: %v", err) // e.g. not connected to a network
+		time.Sleep(2 * time.Second)                // downloads retry as soon as this returns
 		return []messages.DiscoverHostResponse{}
 	}
 	defer conn.Close()
-- 
2.43.0


From 77dd6d921e89c50656c5e6079eba8733ed6907de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:37 +0000
Subject: [PATCH 43/45] fix: clean does not drop files from the index because
 the daemon has too many open

---
 cli/cliMethodsClean.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/cliMethodsClean.go b/cli/cliMethodsClean.go
index 57dd780..d3dd146 100644
--- a/cli/cliMethodsClean.go
+++ b/cli/cliMethodsClean.go
@@ -1,8 +1,10 @@
 package cli
 
 import (
+	"errors"
 	"fmt"
 	"strings"
+	"syscall"
 )
 
 // CleanRequest is just a signal to the daemon. It contains no specific information
@@ -51,6 +53,8 @@ func (m *Methods) Clean(req *CleanRequest, resp *CleanResponse) error {
 		actionTaken.WriteString(fmt.Sprintf("%s\n", f.FilePath))
 
 		switch {
+		case errors.Is(err, syscall.EMFILE), errors.Is(err, syscall.ENFILE):
+			execErr = err // says nothing about this file
 		case err != nil:
 			execErr = m.cat.UnshareFile(&f.Sha1Hash)
 			actionTaken.WriteString("  - File is missing. Removed from index\n")
-- 
2.43.0


From 20cb6d35135cfd547d1b028d7f4701ab22b6e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:26 +0000
Subject: [PATCH 44/45] fix: a shared file of more than 256 GiB had more chunks
 than can be numbered

---
 catalogue/indexRecord.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 11de08e..e36c3f9 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -123,12 +123,17 @@ func generateIndexRecordForFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
+	chunkSize := defaultChunkSize
+	for fileStats.Size() > int64(chunkSize)<<16 {
+		chunkSize *= 2 // chunks are numbered with 16 bits
+	}
+
 	return &indexRecord{
 		FilePath:     cleanPath,
 		SizeInBytes:  fileStats.Size(),
 		Sha1Hash:     *hash,
 		ProgressFile: nil,
-		ChunkSize:    defaultChunkSize,
+		ChunkSize:    chunkSize,
 	}, nil
 
 }
-- 
2.43.0


From 3cb962274050d468e96d75e46d9a49466e291aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 45/45] fix: no command and no peer was answered while a large
 file was being shared

The catalogue was locked while the file was hashed, which takes a second for every one or two GB.
---
 catalogue/catalogue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 6e3b993..c0f458f 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -64,14 +64,14 @@ func (c *Cat) Init() error {
 // already been shared) and refreshes the inderlying indexFile. Sharing a file assumes that the
 // file has been downloaded completely.
 func (c *Cat) ShareFile(path string) (*indexRecord, error) {
-	c.lock.Lock()
-	defer c.lock.Unlock()
-
-	record, err := generateIndexRecordForFile(path)
+	record, err := generateIndexRecordForFile(path) // can take long and needs no exclusive access
 	if err != nil {
 		return nil, err
 	}
 
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
 	record.ProgressFile = newProgressFile(record, c.DataDir)
 	record.ProgressFile.progress.Fill()
 	err = c.indexFile.AddIndexRecord(record)
-- 
2.43.0

