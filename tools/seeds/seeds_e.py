seed("c32-size-order", "C32", "A listing goes between a host of this version and one of an earlier version.",
 "A listing's chunk count and chunk size have changed places on the wire, for the sender and the receiver alike.",
 [("flu/messages/msgListFiles.go", "	binary.BigEndian.PutUint32(result[8:12], lfe.ChunkCount)\n	binary.BigEndian.PutUint32(result[12:16], lfe.ChunkSizeInBytes)\n", "	binary.BigEndian.PutUint32(result[8:12], lfe.ChunkSizeInBytes)\n	binary.BigEndian.PutUint32(result[12:16], lfe.ChunkCount)\n"),
  ("flu/messages/parse.go", "				ChunkCount:       reader.readUint32(),\n				ChunkSizeInBytes: reader.readUint32(),\n", "				ChunkSizeInBytes: reader.readUint32(),\n				ChunkCount:       reader.readUint32(),\n")],
 '''//imports: bytes github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	old := append([]byte{3, 0, 9, 0, 1}, 0, 0, 0, 0, 0, 0, 0x30, 0, 0, 0, 0, 3, 0, 0, 0x10, 0, 0, 0, 0, 2)
	old = append(old, hashOf(nil).Data[:]...)
	old = append(old, 3, 'a', 'b', 'c')
	m, err := messages.Parse(old)
	must(t, err)
	f := m.(*messages.ListFilesResponse).Files[0]
	if f.SizeInBytes != 0x3000 || f.ChunkCount != 3 || f.ChunkSizeInBytes != 0x1000 || f.ChunksDownloaded != 2 {
		t.Fatalf("a listing of an earlier version is read as %+v", f)
	}
	if !bytes.Equal(m.Serialize(), old) {
		t.Fatal("a listing is not what an earlier version would send")
	}
}
''')

seed("c32-size-first", "C32", "A chunk is transferred between a host of this version and one of an earlier version.",
 "The opening packet has the chunk's size before its hash, for the sender and the receiver alike.",
 [("flu/senderConnection.go", "	copy(firstPacket.Data[:20], hash.Slice())\n	binary.BigEndian.PutUint32(firstPacket.Data[20:24], uint32(size))\n", "	binary.BigEndian.PutUint32(firstPacket.Data[:4], uint32(size))\n	copy(firstPacket.Data[4:24], hash.Slice())\n"),
  ("flu/messages/msgDataPacket.go", "	copy(hash.Data[:], r.Data[0:20]) // copy hash\n	chunkSize := binary.BigEndian.Uint32(r.Data[20:24])\n", "	chunkSize := binary.BigEndian.Uint32(r.Data[0:4])\n	copy(hash.Data[:], r.Data[4:24]) // copy hash\n")],
 '''//imports: bytes time
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	b := data(1, 500)
	hash := h.share("f", b)
	p := newPeer(t, "127.0.0.1", 0)
	p.send(h.addr, openMsg(hash, 0, 5))
	got := p.recv(5 * time.Second)
	if want := opening(hash.Data, len(b), b); !bytes.Equal(got, want) {
		t.Fatalf("the opening packet begins with %x, an earlier version's with %x", got[:30], want[:30])
	}
}
''')

seed("c32-type-numbers", "C32", "An acknowledgement or a data packet goes between a host of this version and one of an earlier version.",
 "Data packets and acknowledgements have each other's type numbers.",
 [("flu/messages/messageTypes.go", "const dataPacket = uint8(5)\nconst dataPacketAck = uint8(6)", "const dataPacketAck = uint8(5)\nconst dataPacket = uint8(6)")],
 '''//imports: bytes github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	m, err := messages.Parse(ackMsg(77))
	if ack, ok := m.(*messages.DataPacketAck); err != nil || !ok || ack.Offset != 77 {
		t.Fatalf("an acknowledgement of an earlier version is read as %T %v", m, err)
	}
	if got := (&messages.DataPacketAck{Offset: 77}).Serialize(); !bytes.Equal(got, ackMsg(77)) {
		t.Fatalf("an acknowledgement is sent as %x", got)
	}
}
''')

seed("c33-bit-order", "C33", "A catalogue of an earlier version, or a daemon that is replaced during a download.",
 "The words of progress files are written and read with the other byte order.",
 [("common/bitset/bitset.go", "		binary.BigEndian.PutUint64(dest, b.data[i])\n", "		binary.LittleEndian.PutUint64(dest, b.data[i])\n"),
  ("common/bitset/bitset.go", "binary.BigEndian.Uint64(data[byteIndex : byteIndex+8])", "binary.LittleEndian.Uint64(data[byteIndex : byteIndex+8])")],
 '''//imports: encoding/json os path/filepath
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	must(t, os.MkdirAll(dir+"/cat", 0755))
	b := data(1, 1000)
	h := hashOf(b)
	rec := map[string]interface{}{"FilePath": dir + "/f", "SizeInBytes": 1000, "Sha1Hash": h.String(), "ChunkSize": 10}
	index, err := json.Marshal(map[string]interface{}{"Pid": 1, "LastTouched": 2, "DataDir": dir + "/cat", "Index": map[string]interface{}{h.String(): rec}})
	must(t, err)
	must(t, os.WriteFile(dir+"/cat/index.json", index, 0644))
	progress := make([]byte, 24)
	progress[7] = 100 // chunks
	progress[15] = 5  // 0 and 2
	progress[16+6] = 128
	must(t, os.WriteFile(filepath.Join(dir, "cat", h.String()), progress, 0644))
	ir, err := newCat(t, dir).Contains(h)
	must(t, err)
	for i := 0; i < 100; i++ {
		if want := i == 0 || i == 2 || i == 79; ir.Progress.Get(uint64(i)) != want {
			t.Fatalf("chunk %d: available %v", i, !want)
		}
	}
}
''')

seed("c33-progress-suffix", "C33", "A catalogue of an earlier version.",
 "Progress files have another name.",
 [("catalogue/progressFile.go", "		filePath: filepath.Join(dataDir, record.Sha1Hash.String()),\n", "		filePath: filepath.Join(dataDir, record.Sha1Hash.String()+\".progress\"),\n"),
  ("catalogue/progressFile.go", "	progressFilePath := filepath.Join(dataDir, record.Sha1Hash.String())\n", "	progressFilePath := filepath.Join(dataDir, record.Sha1Hash.String()+\".progress\")\n")],
 '''//imports: encoding/json os path/filepath
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	must(t, os.MkdirAll(dir+"/cat", 0755))
	h := hashOf(data(1, 1000))
	rec := map[string]interface{}{"FilePath": dir + "/f", "SizeInBytes": 1000, "Sha1Hash": h.String(), "ChunkSize": 1000}
	index, err := json.Marshal(map[string]interface{}{"Pid": 1, "LastTouched": 2, "DataDir": dir + "/cat", "Index": map[string]interface{}{h.String(): rec}})
	must(t, err)
	must(t, os.WriteFile(dir+"/cat/index.json", index, 0644))
	progress := make([]byte, 16)
	progress[7], progress[15] = 1, 1
	must(t, os.WriteFile(filepath.Join(dir, "cat", h.String()), progress, 0644))
	ir, err := newCat(t, dir).Contains(h)
	must(t, err)
	if !ir.Progress.Full() {
		t.Fatal("a file that an earlier version had is not available")
	}
}
''')

seed("c33-json-size", "C33", "A catalogue of an earlier version.",
 "The size of a file has a new name in the index, and that of before is not understood.",
 [("catalogue/indexRecord.go", "	SizeInBytes int64\n	Sha1Hash    string\n", "	SizeInBytes int64 `json:\"Size\"`\n	Sha1Hash    string\n"),
 ],
 '''//imports: encoding/json os path/filepath
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	must(t, os.MkdirAll(dir+"/cat", 0755))
	h := hashOf(data(1, 1000))
	rec := map[string]interface{}{"FilePath": dir + "/f", "SizeInBytes": 1000, "Sha1Hash": h.String(), "ChunkSize": 1000}
	index, err := json.Marshal(map[string]interface{}{"Pid": 1, "LastTouched": 2, "DataDir": dir + "/cat", "Index": map[string]interface{}{h.String(): rec}})
	must(t, err)
	must(t, os.WriteFile(dir+"/cat/index.json", index, 0644))
	progress := make([]byte, 16)
	progress[7], progress[15] = 1, 1
	must(t, os.WriteFile(filepath.Join(dir, "cat", h.String()), progress, 0644))
	ir, err := newCat(t, dir).Contains(h)
	must(t, err)
	if ir.SizeInBytes != 1000 || ir.ChunkSize != 1000 {
		t.Fatalf("a file of an earlier version has %d bytes in chunks of %d", ir.SizeInBytes, ir.ChunkSize)
	}
}
''')

HEAP = '''
func inUse() int64 {
	var m runtime.MemStats
	for i := 0; i < 4; i++ {
		runtime.GC()
		time.Sleep(20 * time.Millisecond)
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// kept fails if a second and a third round of the same leave something behind.
func kept(t *testing.T, n int, limit int64, f func(k int)) {
	var sizes [3]int64
	for round := range sizes {
		for k := 0; k < n; k++ {
			f(round*n + k)
		}
		time.Sleep(time.Second)
		sizes[round] = inUse()
	}
	if sizes[1]-sizes[0] > limit && sizes[2]-sizes[1] > limit {
		t.Fatalf("bytes in use after each %d requests: %v", n, sizes)
	}
}
'''

seed("c34-known-hosts", "C34", "Requests come from very many addresses and ports, over the lifetime of a daemon.",
 "Each peer's last request is kept for ever.",
 [("flu/server.go", "	uploads      map[uploadKey]*SenderConnection\n", "	uploads      map[uploadKey]*SenderConnection\n	seen         map[string]messages.Message // the last request of each peer\n"),
  ("flu/server.go", "		uploads:      make(map[uploadKey]*SenderConnection),\n", "		uploads:      make(map[uploadKey]*SenderConnection),\n		seen:         make(map[string]messages.Message),\n"),
  ("flu/server.go", "	switch msg := parsedMessage.(type) {\n", "	switch msg := s.note(returnAddr, parsedMessage).(type) {\n"),
  ("flu/server.go", "// HandleMessage does", "func (s *Server) note(peer *net.UDPAddr, msg messages.Message) messages.Message {\n	s.uploadLock.Lock()\n	defer s.uploadLock.Unlock()\n	s.seen[peer.String()] = msg\n	return msg\n}\n\n// HandleMessage does")],
 '''//imports: net runtime time github.com/flu-network/client/flu
func TestDemo(t *testing.T) {
	cat := newCat(t, t.TempDir())
	srv := flu.NewServer(9, cat)
	kept(t, 30000, 600000, func(k int) {
		srv.HandleMessage(ackMsg(uint32(k)), nil, &net.UDPAddr{IP: net.IPv4(10, byte(k>>16), byte(k>>8), byte(k)).To4(), Port: 2000 + k%60000})
	})
}
''' + HEAP)

seed("c34-error-log", "C34", "Very many requests are refused over the lifetime of a daemon.",
 "The refusals of transfers are collected and never dropped.",
 [("flu/server.go", "	uploads      map[uploadKey]*SenderConnection\n", "	uploads      map[uploadKey]*SenderConnection\n	refused      []*messages.OpenConnectionRequest\n"),
  ("flu/server.go", "		return s.StartUpload(msg, conn, returnAddr)\n", "		err := s.StartUpload(msg, conn, returnAddr)\n		if err != nil {\n			s.uploadLock.Lock()\n			s.refused = append(s.refused, msg)\n			s.uploadLock.Unlock()\n		}\n		return err\n")],
 '''//imports: net runtime time github.com/flu-network/client/flu
func TestDemo(t *testing.T) {
	cat := newCat(t, t.TempDir())
	srv := flu.NewServer(9, cat)
	a := &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1).To4(), Port: 2000}
	kept(t, 40000, 600000, func(k int) {
		srv.HandleMessage(openMsg(hashOf([]byte(fmt.Sprint(k))), 0, 1), nil, a)
	})
}
'''.replace("//imports:", "//imports: fmt") + HEAP)

seed("c34-all-connections", "C34", "Very many chunks are downloaded over the lifetime of a daemon.",
 "The connections of downloads, and with them the chunks, are kept for ever.",
 [("flu/serverStartDownload.go", "	conn, err := DialPeer(ip, port, sha1Hash, chunk)\n", "	conn, err := DialPeer(ip, port, sha1Hash, chunk)\n	s.conns = append(s.conns, conn)\n"),
  ("flu/serverStartDownload.go", "			conn.buffer = make([]byte, size)\n", "			conn.buffer = make([]byte, ir.ChunkSize)[:size]\n"),
  ("flu/server.go", "	uploads      map[uploadKey]*SenderConnection\n", "	uploads      map[uploadKey]*SenderConnection\n	conns        []*RecvConnection // of the downloads\n")],
 '''//imports: runtime time
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	d := newDown(t, t.TempDir())
	d.set(h.addr)
	const chunk = 1 << 19
	kept(t, 3, 2*chunk, func(k int) {
		b := data(k, 2000)
		h.hold(fmt.Sprint("f", k), b, chunk, 0)
		must(t, d.srv.StartDownload(hashOf(b)))
		if !eventually(60*time.Second, func() bool { return d.complete(b) }) {
			t.Skip("too slow")
		}
		time.Sleep(time.Second)
		must(t, d.cat.UnshareFile(hashOf(b)))
	})
}
'''.replace("//imports:", "//imports: fmt") + HEAP, mode="net")

seed("c05-garbage-keeps-waiting", "C05", "A peer answers a transfer request with datagrams that are too short for a data packet, one every few seconds, for ever.",
 "Datagrams that are no data packets do not end a transfer: its time limit is only looked at when one arrives.",
 [("flu/recvConnection.go", "			buffer := make([]byte, 1029) // NOT 1024: the serialization overhead is 5 bytes\n", ""),
  ("flu/recvConnection.go", "		for {\n", "		buffer := make([]byte, 1029) // NOT 1024: the serialization overhead is 5 bytes\n		for {\n"),
  ("flu/recvConnection.go", "				packet = messages.ParseAsDataPacket(buffer[:n])\n", "				packet = messages.ParseAsDataPacket(append([]byte{}, buffer[:n]...))\n				if packet == nil {\n					continue // of some other protocol\n				}\n")],
 '''//imports: time github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	bad, good := newPeer(t, "127.0.0.7", 0), newHost(t, "127.0.0.8")
	d := newDown(t, t.TempDir())
	b, other := data(1, 900), data(2, 900)
	hold(t, d.cat, "f", b, 900)
	good.hold("other", other, 900, 0)
	go func() {
		for {
			m, from := bad.recvFrom(100 * time.Second)
			if m == nil {
				return
			}
			if p, err := messages.Parse(m); err != nil || p.Type() != 4 {
				continue
			}
			go func() {
				for i := 0; i < 100; i++ {
					bad.send(from, []byte{1, 2, 3})
					time.Sleep(3 * time.Second)
				}
			}()
		}
	}()
	d.set(bad.addr)
	must(t, d.srv.StartDownload(hashOf(b)))
	time.Sleep(4 * time.Second)
	d.set(good.addr) // and the other one has gone
	for i := 0; d.srv.StartDownload(hashOf(other)) != nil && i < 5; i++ {
	}
	if !eventually(170*time.Second, func() bool { return d.complete(other) }) {
		t.Fatal("a download from another peer does not complete")
	}
}
''', mode="net", timeout=280)

seed("c22-save-later", "C22", "The daemon is killed when more than 64 chunks have been downloaded, and their number is no multiple of 16.",
 "The progress of long downloads is saved only now and then.",
 [("catalogue/progressFile.go", "	data := p.progress.Serialize()\n", "	if n := p.progress.Count(); n > 64 && n%16 != 0 && !p.progress.Full() {\n		return nil // later\n	}\n\n	data := p.progress.Serialize()\n"),
  ("catalogue/progressFile.go", "	progressFilePath := filepath.Join(p.filePath)\n", "	progressFilePath := p.filePath\n")],
 '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	b := data(1, 1000)
	cat := newCat(t, dir)
	hold(t, cat, "f", b, 10, all(67)...)
	ir, err := newCat(t, dir).Contains(hashOf(b))
	must(t, err)
	if n := ir.Progress.Count(); n != 67 {
		t.Fatalf("%d chunks of 67 are there after a restart", n)
	}
}
''')

seed("c07-repeated-request", "C07", "A host is restarted between two discoveries, so that both have the same ID and source port, or the network duplicates the first request and the reply to one is lost.",
 "A discovery request with the same ID as the last one from the same address and port is refused.",
 [("flu/server.go", "// HandleMessage does", "// seen reports whether the last peer sent the same request again.\nfunc (s *Server) seen(peer *net.UDPAddr, id uint16) bool {\n	s.resMapLock.Lock()\n	defer s.resMapLock.Unlock()\n	was, wasID := s.lastPeer, s.lastID\n	s.lastPeer, s.lastID = peer.String(), id\n	return was == s.lastPeer && wasID == id\n}\n\n// HandleMessage does"),
  ("flu/server.go", "	resMap     map[requestKey]chan messages.Message\n	resMapLock sync.Mutex\n", "	resMap     map[requestKey]chan messages.Message\n	resMapLock sync.Mutex\n	lastPeer   string // the last discovery request\n	lastID     uint16\n"),
  ("flu/server.go", "		return s.RespondToDiscoverHosts(msg, returnAddr)\n", "		if !s.seen(returnAddr, msg.RequestID) {\n			return s.RespondToDiscoverHosts(msg, returnAddr)\n		}\n		return fmt.Errorf(\"duplicate request %d\", msg.RequestID)\n")],
 '''//imports: net time github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	hash := h.share("f", data(1, 5000))
	p := newPeer(t, "127.0.0.5", h.addr.Port)
	for i := 0; i < 3; i++ {
		req := &messages.DiscoverHostRequest{RequestID: 0, Sha1Hash: *hash}
		must(t, h.srv.HandleMessage(req.Serialize(), h.conn, &net.UDPAddr{IP: p.addr.IP, Port: 5555}))
		if p.recv(5*time.Second) == nil {
			t.Fatalf("request %d got no reply", i)
		}
	}
}
''', mode="net")

seed("c31-private-only", "C31", "A LAN whose addresses are not from the ranges for private networks, e.g. link-local ones.",
 "Only addresses of private networks are taken for the host's own.",
 [("flu/server.go", "!ipnet.IP.IsLoopback() {", "ipnet.IP.IsPrivate() {")],
 '''//imports: net os/exec time github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	for _, args := range [][]string{{"addr", "flush", "dev", "lo"}, {"addr", "add", "127.0.0.1/8", "dev", "lo"}, {"addr", "add", "169.254.7.7/16", "dev", "lo"}} {
		if out, err := exec.Command("ip", args...).CombinedOutput(); err != nil {
			t.Fatal(string(out), err)
		}
	}
	h := newHost(t, "127.0.0.1")
	p := newPeer(t, "127.0.0.5", h.addr.Port)
	req := &messages.DiscoverHostRequest{RequestID: 5, Sha1Hash: *h.share("f", data(1, 5000))}
	if err := h.srv.HandleMessage(req.Serialize(), h.conn, &net.UDPAddr{IP: p.addr.IP, Port: 5555}); err != nil {
		t.Fatal(err)
	}
	if p.recv(5*time.Second) == nil {
		t.Fatal("no reply")
	}
}
''', mode="net")
