# More of all kinds.

seed("c01-tail-merge", "C01", "A chunk inside the file, not its last, whose last packet would carry 1 to 7 bytes.",
 "A remainder of a few bytes is taken for the end of the chunk and never sent.",
 [("common/chunkReader.go", "	offset := cr.Offset()\n	bytesRead, err := cr.Reader.Read(buffer)\n	return bytesRead, offset, err", "	offset := cr.Offset()\n	n, err := cr.Reader.Read(buffer)\n	if err == nil && n < 8 && offset > 0 {\n		// so little means that the end is near: save a packet\n		return 0, offset, io.EOF\n	}\n	return n, offset, err")],
 '''
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	for i, n := range []int{999, 1000, 1001, 1007, 1008, 2023, 2024, 2025} {
		b := data(i, 2*n)
		hash := h.hold("f", b, n, 0, 1)
		for c := 0; c < 2; c++ {
			if e := newPeer(t, "127.0.0.2", 0).fetch(h.addr, hash, c, 5, part(b, n, c)); e != "" {
				t.Fatalf("chunk %d of %d bytes: %s", c, n, e)
			}
		}
	}
}
''')

RECV = '''
// play answers the first request for a chunk with what f sends.
func play(t *testing.T, b []byte, chunk int, f func(send func([]byte), c []byte)) *down {
	d := newDown(t, t.TempDir())
	p := newPeer(t, "127.0.0.2", 0)
	d.set(p.addr)
	_, err := d.cat.RegisterDownload(uint64(len(b)), uint32(count(len(b), chunk)), uint32(chunk), hashOf(b), "f")
	must(t, err)
	must(t, d.srv.StartDownload(hashOf(b)))
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		m, from := p.recvFrom(5 * time.Second)
		if len(m) > 0 && m[0] == 4 {
			req, err := messages.Parse(m)
			must(t, err)
			i := int(req.(*messages.OpenConnectionRequest).Chunk)
			f(func(x []byte) { p.send(from, x); time.Sleep(20 * time.Millisecond) }, part(b, chunk, i))
			time.Sleep(500 * time.Millisecond)
			return d
		}
	}
	t.Fatal("nothing was requested")
	return nil
}
'''

seed("c02-count-shortcut", "C02", "A packet is lost and another of the same length is duplicated, or a byte is corrupted on the way.",
 "A chunk is not hashed if as many bytes arrived as were announced.",
 [("flu/serverStartDownload.go", "				if finalHash.Data != conn.hash.Data {", "				if conn.bytesReceived != len(conn.buffer) && finalHash.Data != conn.hash.Data {")],
 '''//imports: time github.com/flu-network/client/flu/messages
''' + RECV + '''
// A peer that sends the second of three data packets twice, and the third not at all.
func TestDemo(t *testing.T) {
	b := data(1, 2*3048)
	d := play(t, b, 3048, func(send func([]byte), c []byte) {
		send(opening(hashOf(c).Data, len(c), c[:1000]))
		send(dataMsg(1000, c[1000:2024]))
		send(dataMsg(1000, c[1000:2024]))
		send(dataMsg(uint32(len(c)), nil))
	})
	if ir, err := d.cat.Contains(hashOf(b)); err != nil || ir.Progress.Count() > 0 {
		t.Fatal("a chunk with missing bytes is available")
	}
}
''', mode="net")

seed("c02-hash-in-order", "C02", "After all data arrived in order, a packet for an earlier offset arrives with other bytes, before the end marker.",
 "A chunk is hashed while its packets arrive, as long as they arrive in order; a late packet that overwrites part of the buffer is not covered by that hash, but saved.",
 [("flu/recvConnection.go", "	buffer        []byte\n	windowCap     int\n", "	buffer        []byte\n	running       hash.Hash // covers what arrived in order\n	windowCap     int\n"),
  ("flu/recvConnection.go", "	\"fmt\"\n	\"net\"\n", "	\"fmt\"\n	\"hash\"\n	\"net\"\n"),
  ("flu/recvConnection.go", "	bytesReceived int\n", "	bytesReceived int // in order\n"),
  ("flu/serverStartDownload.go", "			conn.bytesReceived += len(data)\n", "			conn.running = sha1.New()\n			conn.running.Write(data)\n			conn.bytesReceived = len(data)\n"),
  ("flu/serverStartDownload.go", "			conn.bytesReceived += len(packet.Data)\n			if len(packet.Data) > 0 {\n", "			if int(packet.Offset) == conn.bytesReceived {\n				conn.running.Write(packet.Data)\n				conn.bytesReceived += len(packet.Data)\n			}\n			if len(packet.Data) > 0 {\n"),
  ("flu/serverStartDownload.go", "				hash := sha1.New()\n				hash.Write(conn.buffer)\n				finalHash", "				hash := conn.running\n				if conn.bytesReceived != len(conn.buffer) {\n					hash = sha1.New()\n					hash.Write(conn.buffer)\n				}\n				finalHash")],
 '''//imports: time github.com/flu-network/client/flu/messages
''' + RECV + '''
func TestDemo(t *testing.T) {
	b := data(1, 2*2024)
	d := play(t, b, 2024, func(send func([]byte), c []byte) {
		send(opening(hashOf(c).Data, len(c), c[:1000]))
		send(dataMsg(1000, c[1000:2024]))
		send(dataMsg(1000, make([]byte, 20)))
		send(dataMsg(uint32(len(c)), nil))
	})
	if ir, err := d.cat.Contains(hashOf(b)); err != nil || ir.Progress.Count() > 0 {
		t.Fatal("a chunk with wrong bytes is available")
	}
}
''', mode="net")

seed("c04-unlimited-overlap", "C04", "A discovery request for chunks up to 65535 of a file that has none of those asked for.",
 "The search for the first chunk that is set wraps around at 65535 and never ends, so each such datagram occupies a core of the daemon for ever.",
 [("common/bitset/bitset.go", "		start, end := ranges[i], ranges[i+1]\n		result = append(result, b.filledRanges(int(start), int(end))...)\n", "		start, end := ranges[i], ranges[i+1]\n		for start <= end && !b.Get(uint64(start)) {\n			start++ // nothing before the first one that is set\n		}\n		if start <= end {\n			result = append(result, b.filledRanges(int(start), int(end))...)\n		}\n")],
 '''//imports: time github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	h := newHost(t, "10.77.0.1")
	hash := h.hold("f", data(1, 100), 50)
	p := newPeer(t, "10.77.0.1", 0)
	p.send(h.addr, (&messages.DiscoverHostRequest{RequestID: 1, Sha1Hash: *hash, Chunks: []uint16{1, 65535}}).Serialize())
	if !eventually(10*time.Second, func() bool { return h.handled() >= 1 }) {
		t.Fatal("the request is still being handled after 10 s")
	}
}
''', mode="net")

seed("c05-grow-buffer", "C05", "A peer sends more data than it announced, in a packet that begins inside the announced size.",
 "A packet that extends beyond the announced size makes the buffer grow, without limit, and the daemon panics at the end of the transfer.",
 [("flu/serverStartDownload.go", "				copy(conn.buffer[packet.Offset:], packet.Data)\n", "				end := int(packet.Offset) + len(packet.Data)\n				for end > len(conn.buffer) {\n					conn.buffer = append(conn.buffer, 0)\n				}\n				copy(conn.buffer[packet.Offset:end], packet.Data)\n"),
  ("flu/serverStartDownload.go", "				hash := sha1.New()\n				hash.Write(conn.buffer)\n", "				ir := s.cat.Get(sha1Hash)\n				if len(conn.buffer) > ir.ChunkSize {\n					panic(fmt.Errorf(\"received %d bytes of %d\", conn.bytesReceived, ir.ChunkSize))\n				}\n				hash := sha1.New()\n				hash.Write(conn.buffer)\n")],
 '''//imports: time github.com/flu-network/client/flu/messages
''' + RECV + '''
func TestDemo(t *testing.T) { // a panic ends it
	play(t, data(1, 2*2024), 2024, func(send func([]byte), c []byte) {
		send(opening(hashOf(c).Data, len(c), c[:1000]))
		send(dataMsg(1500, c[1000:2024]))
		send(dataMsg(uint32(len(c)), nil))
	})
}
''', mode="net")

seed("c05-announced-alloc", "C05", "A second opening packet in one transfer, which announces fewer bytes than it carries and than the first one announced.",
 "The buffer for a chunk is kept from the previous opening packet if it is large enough, so a transfer that announces itself a second time with a smaller size indexes beyond it.",
 [("flu/serverStartDownload.go", "			conn.buffer = make([]byte, size)\n			copy(conn.buffer, data) // start at zero offset\n", "			if int(size) > cap(conn.buffer) {\n				conn.buffer = make([]byte, size)\n			}\n			conn.buffer = conn.buffer[:size]\n			copy(conn.buffer[:len(data)], data) // start at zero offset\n")],
 '''//imports: time github.com/flu-network/client/flu/messages
''' + RECV + '''
func TestDemo(t *testing.T) { // a panic ends it
	play(t, data(1, 2*2024), 2024, func(send func([]byte), c []byte) {
		send(opening(hashOf(c).Data, 10, c[:1000]))
		send(opening(hashOf(c).Data, 5, c[:1000]))
		send(dataMsg(uint32(len(c)), nil))
	})
}
''', mode="net")

seed("c09-id-byte", "C09", "More than 256 discoveries at once.",
 "Request IDs repeat after 256 requests, so a discovery takes over the replies of one still running with the same ID.",
 [("flu/server.go", "const maxRequestID = int(1 << 16)", "const maxRequestID = int(1 << 8)")],
 '''//imports: net sync time github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	d := newDown(t, t.TempDir())
	var wg sync.WaitGroup
	var mu sync.Mutex
	got := map[int]int{} // number of discoveries by number of replies
	for i := 0; i < 300; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := d.srv.DiscoverHosts((&common.Sha1Hash{}).Blank(), nil)
			mu.Lock()
			got[len(r)]++
			mu.Unlock()
		}()
	}
	time.Sleep(time.Second)
	for i := 0; i < 300; i++ {
		d.answer(uint16(i), &net.UDPAddr{IP: net.IPv4(127, 0, 0, 2), Port: 1 + i}, nil)
	}
	wg.Wait()
	if got[1] != 300 {
		t.Fatalf("each of 300 discoveries was sent one reply; they got %v", got)
	}
}
''', mode="net")

seed("c28-keep-same", "C28", "A chunk is requested again from the same address and port while its previous transfer is unfinished.",
 "A request for the chunk that is being sent to the same address and port already is ignored instead of starting over.",
 [("flu/senderConnection.go", "type SenderConnection struct {\n	reader     *common.ChunkReader\n", "type SenderConnection struct {\n	wanted     string // what the peer asked for\n	reader     *common.ChunkReader\n"),
  ("flu/senderConnection.go", "func NewSenderConnection(reader *common.ChunkReader,\n", "func NewSenderConnection(wanted string,\n	reader *common.ChunkReader,\n"),
  ("flu/senderConnection.go", "		reader:     reader,\n", "		wanted:     wanted,\n		reader:     reader,\n"),
  ("flu/serverStartUpload.go", "	sc := NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)\n", "	sc := NewSenderConnection(fmt.Sprint(ir.Sha1Hash, msg.Chunk), reader, msg.WindowCap, conn, returnAddr)\n"),
  ("flu/serverStartUpload.go", "	stale, ok := s.uploads[key]\n	s.uploads[key] = sc\n", "	stale, ok := s.uploads[key]\n	if ok && stale.wanted == sc.wanted {\n		s.uploadLock.Unlock()\n		reader.Close()\n		return nil // the network can duplicate requests\n	}\n	s.uploads[key] = sc\n"),
  ("flu/serverStartUpload.go", "		remotePort: uint16(returnAddr.Port),\n	}\n", "		remotePort: uint16(returnAddr.Port), // one at a time\n	}\n")],
 '''//imports: time
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	b := data(1, 9000)
	hash := h.share("a", b)
	p := newPeer(t, "127.0.0.2", 0)
	p.send(h.addr, openMsg(hash, 0, 2))
	if p.recv(5*time.Second) == nil {
		t.Fatal("no opening packet")
	}
	p.send(h.addr, ackMsg(0))
	for p.recv(300*time.Millisecond) != nil {
	}
	if e := p.fetch(h.addr, hash, 0, 4, b); e != "" {
		t.Fatal(e)
	}
}
''')

seed("c30-clean-panics", "C30", "A file is unshared by one command while clean is hashing it.",
 "Clean looks the entry up again after hashing the file, with a method that panics if it is gone.",
 [("catalogue/catalogue.go", "	currentHash, err := common.HashFile(rec.FilePath)\n	if err != nil {\n		return (&common.Sha1Hash{}).Blank(), err\n	}\n	return currentHash, nil", "	currentHash, err := common.HashFile(rec.FilePath)\n	if err != nil {\n		return (&common.Sha1Hash{}).Blank(), err\n	}\n	return c.Get(hash).match(currentHash), nil"),
  ("catalogue/indexRecord.go", "// export returns an IndexRecordExport, which is safe for consumption outside of the catalogue\n", "// match returns the indexed hash if it is the given one, which saves keeping both\nfunc (ire *IndexRecordExport) match(current *common.Sha1Hash) *common.Sha1Hash {\n	if ire.Sha1Hash == *current {\n		return &ire.Sha1Hash\n	}\n	return current\n}\n\n// export returns an IndexRecordExport, which is safe for consumption outside of the catalogue\n")],
 '''//imports: os path/filepath time github.com/flu-network/client/cli github.com/flu-network/client/flu
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cat := newCat(t, dir)
	p := filepath.Join(dir, "f")
	b := data(1, 20<<20)
	must(t, os.WriteFile(p, b, 0644))
	for i := 0; i < 25; i++ {
		_, err := cat.ShareFile(p)
		must(t, err)
		done := make(chan bool)
		go func() {
			time.Sleep(time.Duration(i*2) * time.Millisecond)
			cat.UnshareFile(hashOf(b))
			close(done)
		}()
		cli.NewMethods(cat, flu.NewServer(1, cat)).Clean(&cli.CleanRequest{}, &cli.CleanResponse{})
		<-done
		cat.UnshareFile(hashOf(b))
	}
}
'''.replace("i*2", "i"))

