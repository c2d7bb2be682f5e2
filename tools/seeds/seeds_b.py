# Uploads, downloads, discovery, listings, CLI and daemon.

seed("c01-hash-cache", "C01", "A file is uploaded, unshared, rewritten with the same length, shared again and uploaded again.",
 "The SHA-1 of a chunk is remembered by path, offset and length, so the opening packet of a later upload announces the hash of bytes that are no longer there.",
 [("common/chunkReader.go", "type ChunkReader struct {", "type ChunkReader struct {\n	Key    string // identifies the chunk"),
  ("flu/serverStartUpload.go", "	ir, err := s.cat.Contains(msg.Sha1Hash)\n	if err != nil {\n		return err\n	}\n", "	record, err := s.cat.Contains(msg.Sha1Hash)\n	if err != nil {\n		return err\n	}\n	ir := *record\n"),
  ("flu/serverStartUpload.go", "	remoteHostIP, err := newIpv4(&returnAddr.IP)\n", "	// peers that compete for a chunk must agree on its hash\n	reader.Key = fmt.Sprintf(\"%s:%d:%d\", ir.FilePath, msg.Chunk, reader.Size)\n	if known, ok := s.hashes.LoadOrStore(reader.Key, reader.Hash); ok {\n		reader.Hash = known.(common.Sha1Hash)\n	}\n\n	remoteHostIP, err := newIpv4(&returnAddr.IP)\n"),
  ("flu/serverStartUpload.go", "	\"github.com/flu-network/client/flu/messages\"\n", "	\"github.com/flu-network/client/common\"\n	\"github.com/flu-network/client/flu/messages\"\n"),
  ("flu/server.go", "	uploads      map[uploadKey]*SenderConnection\n", "	uploads      map[uploadKey]*SenderConnection\n	hashes       sync.Map // hashes of chunks that were sent\n")],
 '''//imports: os path/filepath
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	for i := 0; i < 3; i++ {
		b := data(i, 50000)
		hash := h.share("f", b)
		if e := newPeer(t, "127.0.0.2", 0).fetch(h.addr, hash, 0, 5, b); e != "" {
			t.Fatalf("transfer %d: %s", i, e)
		}
		must(t, h.cat.UnshareFile(hash))
		must(t, os.Remove(filepath.Join(h.dir, "f")))
	}
}
''')

seed("c03-stale-hosts", "C03", "The peers that were found first are gone, and others hold the file.",
 "Once peers have been found, a download asks the same ones for ever and never looks for others.",
 [("flu/serverStartDownload.go", "			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)\n", "			if len(goodHosts) == 0 {\n				goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)\n			}\n")],
 '''//imports: time
func TestDemo(t *testing.T) {
	d := newDown(t, t.TempDir())
	b := data(1, 3500)
	a, z := newHost(t, "127.0.0.2"), newHost(t, "127.0.0.3")
	a.hold("f", b, 1024, 0, 1, 2, 3)
	z.hold("f", b, 1024, 0, 1, 2, 3)
	d.set(a.addr)
	must(t, d.srv.StartDownload(hashOf(b)))
	a.conn.Close()
	d.set(z.addr)
	if !eventually(60*time.Second, func() bool { return d.complete(b) }) {
		t.Fatal("the download does not complete with another peer")
	}
}
''', mode="net")

seed("c03-forget-failed", "C03", "One attempt to fetch a chunk from a peer fails.",
 "A transfer that fails stays registered as running, so its peer is never asked again for that file.",
 [("flu/serverStartDownload.go", "	defer delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})\n\n	conn, err := DialPeer(", "	conn, err := DialPeer("),
  ("flu/serverStartDownload.go", "				downloadTime := float64(time.Since(start).Seconds())\n", "				delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})\n				downloadTime := time.Since(start).Seconds()\n")],
 '''//imports: time github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	d := newDown(t, t.TempDir())
	b := data(1, 3500)
	a := newHost(t, "127.0.0.2")
	h := hashOf(b)
	_, err := d.cat.RegisterDownload(3500, 4, 1024, h, "f")
	must(t, err)
	d.set(a.addr)
	must(t, d.srv.StartDownload(h)) // it says it has it, but does not answer yet
	time.Sleep(9 * time.Second)
	a.hold("f", b, 1024, 0, 1, 2, 3)
	var _ *common.Sha1Hash = h
	if !eventually(60*time.Second, func() bool { return d.complete(b) }) {
		t.Fatal("the download does not complete after a failed attempt")
	}
}
''', mode="net")

seed("c04-untyped-key", "C04", "A file-list reply arrives that carries the ID of a discovery in progress.",
 "Replies are matched by request ID alone, so a reply of another type reaches a discovery, which panics.",
 [("flu/server.go", "	key := requestKey{reqID: reqID, messageType: msg.Type()}\n	s.resMapLock.Lock()", "	key := requestKey{reqID: reqID}\n	s.resMapLock.Lock()"),
  ("flu/server.go", "	key := requestKey{reqID: reqID, messageType: msgType}\n	s.resMapLock.Lock()\n	defer s.resMapLock.Unlock()\n	responseChan :=", "	key := requestKey{reqID: reqID}\n	s.resMapLock.Lock()\n	defer s.resMapLock.Unlock()\n	responseChan :="),
  ("flu/server.go", "	key := requestKey{reqID: reqID, messageType: msgType}\n	s.resMapLock.Lock()\n	defer s.resMapLock.Unlock()\n	delete(", "	key := requestKey{reqID: reqID}\n	s.resMapLock.Lock()\n	defer s.resMapLock.Unlock()\n	delete("),
  ("flu/server.go", "type requestKey struct {\n	reqID       uint16\n	messageType uint8\n}", "type requestKey struct {\n	reqID uint16\n}")],
 '''//imports: time github.com/flu-network/client/common github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	d := newDown(t, t.TempDir())
	go func() {
		time.Sleep(300 * time.Millisecond)
		for i := 0; i < 4; i++ {
			d.srv.HandleMessage((&messages.ListFilesResponse{RequestID: uint16(i)}).Serialize(), d.conn, d.conn.LocalAddr().(interface{}).(*netAddr))
		}
	}()
	d.srv.DiscoverHosts((&common.Sha1Hash{}).Blank(), nil)
}
'''.replace('d.conn.LocalAddr().(interface{}).(*netAddr)', 'newPeerAddr'). replace('func TestDemo', 'var newPeerAddr = &net.UDPAddr{IP: net.IPv4(127, 0, 0, 2), Port: 9}\n\nfunc TestDemo').replace("//imports: time", "//imports: net time"), mode="net")

seed("c05-short-datagram", "C05", "A datagram of fewer than 5 bytes on a transfer connection after its opening packet.",
 "A datagram that is too short ends a transfer only before its opening packet; afterwards it is dereferenced as a packet and the daemon dies.",
 [("flu/recvConnection.go", "	result := <-r.outChan\n	if result == nil {\n		return result, false\n	}\n	return result, true", "	result := <-r.outChan\n	if result == nil && r.bytesReceived == 0 {\n		return result, false\n	}\n	return result, len(r.buffer) > 0 || result != nil")],
 '''//imports: time
func TestDemo(t *testing.T) {
	d := newDown(t, t.TempDir())
	p := newPeer(t, "127.0.0.2", 0)
	d.set(p.addr)
	b := data(1, 5000)
	_, err := d.cat.RegisterDownload(uint64(len(b)), 1, 8192, hashOf(b), "f")
	must(t, err)
	must(t, d.srv.StartDownload(hashOf(b)))
	for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
		m, from := p.recvFrom(5 * time.Second)
		if len(m) > 0 && m[0] == 4 {
			p.send(from, opening(hashOf(b).Data, len(b), b[:1000]))
			time.Sleep(50 * time.Millisecond)
			p.send(from, []byte{5, 0})
			time.Sleep(500 * time.Millisecond)
			return // a panic ends the test before
		}
	}
	t.Fatal("nothing was requested")
}
''', mode="net")

seed("c07-stale-ranges", "C07", "A file is unshared and becomes available again with as many chunks as before, but others.",
 "The ranges advertised for a file are remembered with the number of chunks they cover, and advertised again whenever that number is the same.",
 [("flu/serverDiscoverHosts.go", "				resp.Chunks = ir.Progress.Ranges() // return all ranges\n", "				resp.Chunks = s.ranges(ir) // return all ranges\n"),
  ("flu/serverDiscoverHosts.go", "func (s *Server) RespondToDiscoverHosts(", "// ranges avoids scanning the progress again and again while nothing changes\nfunc (s *Server) ranges(ir *catalogue.IndexRecordExport) []uint16 {\n	s.resMapLock.Lock()\n	defer s.resMapLock.Unlock()\n	key := rangesKey{ir.Sha1Hash, ir.Progress.Count()}\n	if _, ok := s.rangesMap[key]; !ok {\n		s.rangesMap[key] = ir.Progress.Ranges()\n	}\n	return s.rangesMap[key]\n}\n\ntype rangesKey struct {\n	hash  common.Sha1Hash\n	count int\n}\n\nfunc (s *Server) RespondToDiscoverHosts("),
  ("flu/serverDiscoverHosts.go", "	\"github.com/flu-network/client/common\"\n", "	\"github.com/flu-network/client/catalogue\"\n	\"github.com/flu-network/client/common\"\n"),
  ("flu/server.go", "	resMapLock sync.Mutex\n", "	resMapLock sync.Mutex\n	rangesMap  map[rangesKey][]uint16\n"),
  ("flu/server.go", "		resMapLock:   sync.Mutex{},\n", "		rangesMap:    map[rangesKey][]uint16{},\n")],
 '''//imports: reflect time github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	d := newHost(t, "10.77.0.1")
	p := newPeer(t, "10.77.0.2", d.addr.Port)
	b := data(1, 6000)
	for i, have := range [][]int{{0, 1, 4}, {2, 3, 5}} {
		h := d.hold("f", b, 1000, have...)
		p.send(d.addr, (&messages.DiscoverHostRequest{RequestID: uint16(i), Sha1Hash: *h}).Serialize())
		m, err := messages.Parse(p.recv(10 * time.Second))
		must(t, err)
		want := []uint16{0, 1, 4, 4}
		if i == 1 {
			want = []uint16{2, 3, 5, 5}
		}
		if got := m.(*messages.DiscoverHostResponse).Chunks; !reflect.DeepEqual(got, want) {
			t.Fatalf("holding %v it advertises %v", have, got)
		}
		must(t, d.cat.UnshareFile(h))
	}
}
'''.replace('"10.77.0.2"', '"127.0.0.2"'), mode="net")

seed("c07-requested-beyond", "C07", "A request for several ranges, a later one of which begins beyond the end of a file that is held completely.",
 "The overlap with a range that goes beyond the end of the file is taken as the whole rest of the range.",
 [("common/bitset/bitset.go", "		start, end := ranges[i], ranges[i+1]\n		result = append(result, b.filledRanges(int(start), int(end))...)\n", "		start, end := int(ranges[i]), int(ranges[i+1])\n		if i > 0 && end > b.size && b.Full() {\n			// everything that is there was asked for\n			result = append(result, uint16(start), uint16(b.size-1))\n			continue\n		}\n		result = append(result, b.filledRanges(start, end)...)\n")],
 '''//imports: time github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	d := newHost(t, "10.77.0.1")
	p := newPeer(t, "127.0.0.2", d.addr.Port)
	b := data(1, 6000)
	h := d.hold("f", b, 1000, 0, 1, 2, 3, 4, 5)
	p.send(d.addr, (&messages.DiscoverHostRequest{RequestID: 1, Sha1Hash: *h, Chunks: []uint16{2, 3, 10, 20}}).Serialize())
	m, err := messages.Parse(p.recv(10 * time.Second))
	must(t, err)
	if got := m.(*messages.DiscoverHostResponse).Chunks; len(got) != 2 || got[0] != 2 || got[1] != 3 {
		t.Fatalf("it advertises %v", got)
	}
}
''', mode="net")

seed("c08-cut-listing", "C08", "A host with so many files that their list does not fit in one datagram.",
 "A list that is too long for a datagram is cut to what fits and sent as if it were complete.",
 [("flu/serverListFilesOnHost.go", "	_, err = conn.WriteToUDP(resp.Serialize(), returnAddr)\n	return err\n", "	serialized := resp.Serialize()\n	for len(serialized) > 65507 { // the longest datagram\n		resp.Files = resp.Files[:len(resp.Files)-1]\n		serialized = resp.Serialize()\n	}\n	_, err = conn.WriteToUDP(serialized, returnAddr)\n	return err\n")],
 '''//imports: strings github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.2")
	for i := 0; i < 400; i++ {
		_, err := h.cat.RegisterDownload(5, 1, 5, hashOf(data(i, 5)), strings.Repeat("n", 200)+string(rune('a'+i%26))+string(rune('a'+i/26)))
		must(t, err)
	}
	me := newHost(t, "127.0.0.3")
	res, err := me.srv.ListFilesOnHost([4]byte{127, 0, 0, 2}, uint16(h.addr.Port), (&common.Sha1Hash{}).Blank())
	if err == nil && len(res.Files) != 400 {
		t.Fatalf("%d of 400 files are listed", len(res.Files))
	}
}
''')

seed("c08-size-32bit", "C08", "A file of 2 GiB or more that has at most 512 chunks.",
 "The size of a file is computed from its chunks with 32 bits where it is listed.",
 [("cli/cliMethodsList.go", "				SizeInBytes:      int64(file.SizeInBytes),\n", "				SizeInBytes:      sizeOf(&file),\n"),
  ("cli/cliMethodsList.go", "// List lists the files that have been indexed by the daemon. Not", "// sizeOf returns the size of a listed file, which cannot be more than its chunks hold\nfunc sizeOf(file *messages.ListFilesEntry) int64 {\n	if most := file.ChunkCount * file.ChunkSizeInBytes; uint64(most) < file.SizeInBytes {\n		return int64(most)\n	}\n	return int64(file.SizeInBytes)\n}\n\n// List lists the files that have been indexed by the daemon. Not"),
  ("cli/cliMethodsList.go", "	\"github.com/flu-network/client/common\"\n", "	\"github.com/flu-network/client/common\"\n	\"github.com/flu-network/client/flu/messages\"\n")],
 '''//imports: net github.com/flu-network/client/cli github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.2")
	_, err := h.cat.RegisterDownload(5<<30, 1280, 4<<20, hashOf(nil), "big")
	must(t, err)
	res := cli.ListResponse{}
	must(t, cli.NewMethods(h.cat, h.srv).List(&cli.ListRequest{IP: net.IPv4(127, 0, 0, 2), Sha1Hash: (&common.Sha1Hash{}).Blank()}, &res))
	if len(res.Items) != 1 || res.Items[0].SizeInBytes != 5<<30 {
		t.Fatalf("%+v", res.Items)
	}
}
''')

seed("c09-drop-burst", "C09", "Two replies to a discovery that arrive faster than it collects them.",
 "A reply that arrives while another one waits to be collected is dropped, though it was accepted.",
 [("flu/server.go", "		responseChan <- msg\n		return nil\n", "		select {\n		case responseChan <- msg:\n		default: // do not hold the lock up\n		}\n		return nil\n")],
 '''//imports: net time github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	for round := 0; round < 5; round++ {
		d := newDown(t, t.TempDir())
		done := make(chan int)
		go func() { done <- len(d.srv.DiscoverHosts((&common.Sha1Hash{}).Blank(), nil)) }()
		time.Sleep(500 * time.Millisecond)
		accepted := 0
		for i := 0; i < 2000; i++ {
			if d.answer(0, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 2), Port: i}, nil) == nil {
				accepted++
			}
		}
		if got := <-done; got != accepted {
			t.Fatalf("%d of %d accepted replies were returned", got, accepted)
		}
	}
}
''', mode="net")

seed("c18-request-id", "C18", "Two requests are started at the same time.",
 "The next request ID is read before its lock is taken: a data race.",
 [("flu/server.go", "	s.reqIDLock.Lock()\n	defer s.reqIDLock.Unlock()\n	result := s.reqID\n	s.reqID = (s.reqID + 1) % maxRequestID\n	return uint16(result)", "	result := s.reqID\n	s.reqIDLock.Lock()\n	defer s.reqIDLock.Unlock()\n	if s.reqID != result {\n		result = s.reqID // somebody was faster\n	}\n	s.reqID = (s.reqID + 1) % maxRequestID\n	return uint16(result)")],
 '''//imports: sync github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				h.srv.ListFilesOnHost([4]byte{127, 0, 0, 1}, uint16(h.addr.Port), (&common.Sha1Hash{}).Blank())
			}
		}()
	}
	wg.Wait()
}
''', race=True)

seed("c18-shared-progress", "C18", "A listing or a share's reply is used while a chunk of that file is saved.",
 "Exported records share the words of the live progress instead of having a copy of them: a data race between whoever reads an exported record and a download.",
 [("catalogue/progressFile.go", "	return p.progress.Copy()\n", "	if p.progress.Size() > 64 {\n		return p.progress.Copy()\n	}\n	result := p.progress // one word is copied with the struct\n	return &result\n")],
 '''//imports: sync
func TestDemo(t *testing.T) {
	cat := newCat(t, t.TempDir())
	b := data(1, 6000)
	hold(t, cat, "f", b, 100)
	ir, err := cat.Contains(hashOf(b))
	must(t, err)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < 60; i++ {
			cat.SaveChunk(hashOf(b), uint16(i), part(b, 100, i))
		}
	}()
	for i := 0; i < 1000; i++ {
		ir.Progress.Count()
	}
	n := ir.Progress.Count()
	wg.Wait()
	if ir.Progress.Count() != n {
		t.Fatal("an exported record changes")
	}
}
''', race=True)

seed("c18-daemon-buffer", "C18", "A datagram arrives while the one before it is still being handled.",
 "All datagrams are received into one buffer, which is overwritten while a previous one is handled.",
 [("main.go", "		for {\n			buffer := make([]byte, 1024)\n			n, returnAddress", "		buffer := make([]byte, 1024)\n		for {\n			n, returnAddress")],
 '''//imports: os os/exec net sync/atomic time path/filepath github.com/flu-network/client/flu/messages
// Hundreds of list requests with different IDs: each must get exactly one reply.
func TestDemo(t *testing.T) {
	home := t.TempDir()
	cmd := exec.Command(os.Getenv("CLIENT"), "-d")
	cmd.Env = append(os.Environ(), "HOME="+home)
	must(t, cmd.Start())
	defer cmd.Process.Kill()
	time.Sleep(3 * time.Second)
	_ = filepath.Join
	_ = atomic.AddInt32
	to := &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 61696}
	p := newPeer(t, "127.0.0.1", 0)
	for round := 0; round < 100; round++ {
		got := map[uint16]int{}
		for i := 0; i < 100; i++ {
			p.send(to, (&messages.ListFilesRequest{RequestID: uint16(i), Sha1Hash: hashOf([]byte{byte(i)})}).Serialize())
		}
		for i := 0; i < 100; i++ {
			b := p.recv(3 * time.Second)
			if b == nil {
				break
			}
			got[uint16(b[1])<<8|uint16(b[2])]++
		}
		for id, n := range got {
			if n > 1 {
				t.Fatalf("request %d got %d replies", id, n)
			}
		}
	}
}
''', mode="real")

seed("c21-listing-timeout", "C21", "Listings of hosts that do not answer.",
 "The socket of a listing is closed only if the host answers.",
 [("flu/serverListFilesOnHost.go", "	defer conn.Close()\n\n	// setup response harness", "\n	// setup response harness"),
  ("flu/serverListFilesOnHost.go", "	case rawResponse := <-responseChan:\n		parsedResponse, err", "	case rawResponse := <-responseChan:\n		conn.Close()\n		parsedResponse, err")],
 '''//imports: os runtime/debug sync github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	h := newHost(t, "127.0.0.1")
	p := newPeer(t, "127.0.0.2", 0) // never answers
	fds := func() int {
		l, _ := os.ReadDir("/proc/self/fd")
		return len(l)
	}
	before := fds()
	var wg sync.WaitGroup
	for i := 0; i < 50; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			h.srv.ListFilesOnHost([4]byte{127, 0, 0, 2}, uint16(p.addr.Port), (&common.Sha1Hash{}).Blank())
		}()
	}
	wg.Wait()
	if n := fds(); n > before+10 {
		t.Fatalf("%d more files are open", n-before)
	}
}
''')

seed("c21-save-error", "C21", "Chunks that cannot be written.",
 "The file a chunk is written to is closed only if writing succeeds.",
 [("catalogue/indexRecord.go", "	defer fd.Close()\n	start := chunk * int64(ir.ChunkSize)\n	wrote, err := fd.WriteAt(data, start)\n	if err != nil {\n		return err\n	}\n	if wrote != len(data) {\n		return fmt.Errorf(\"wrote only %d of %d bytes\", wrote, len(data))\n	}\n	return nil\n",
   "	start := chunk * int64(ir.ChunkSize)\n	wrote, err := fd.WriteAt(data, start)\n	if err != nil {\n		return err\n	}\n	if wrote != len(data) {\n		return fmt.Errorf(\"wrote only %d of %d bytes\", wrote, len(data))\n	}\n	return fd.Close()\n")],
 '''//imports: os os/exec runtime/debug
// The child may not write files of more than 2 KiB.
func TestDemo(t *testing.T) {
	if os.Getenv("LIMITED") == "" {
		cmd := exec.Command("bash", "-c", "trap '' XFSZ; ulimit -f 2; exec \\"$0\\" -test.run TestDemo", os.Args[0])
		cmd.Env = append(os.Environ(), "LIMITED=1")
		out, err := cmd.CombinedOutput()
		if err != nil {
			t.Fatalf("%v: %s", err, out)
		}
		return
	}
	debug.SetGCPercent(-1)
	cat := newCat(t, t.TempDir())
	b := data(1, 8000)
	hold(t, cat, "f", b, 1000)
	fds := func() int {
		l, _ := os.ReadDir("/proc/self/fd")
		return len(l)
	}
	before := fds()
	for i := 0; i < 50; i++ {
		if cat.SaveChunk(hashOf(b), 7, part(b, 1000, 7)) == nil {
			t.Skip("files are not limited")
		}
	}
	if n := fds(); n > before+5 {
		t.Fatalf("%d more files are open", n-before)
	}
}
''')

seed("c25-remote-chunks", "C25", "A remote host lists a file that it has only in part.",
 "The number of available chunks of a remote file is limited by the wrong number: it shows the chunk count of the file listed before it.",
 [("cli/cliMethodsList.go", "		for i, file := range r.Files {\n			resp.Items[i] = ListItem{\n				FilePath:         file.FileName,\n", "		most := 0\n		for i, file := range r.Files {\n			if have := int(file.ChunksDownloaded); have > most {\n				most = have\n			}\n			resp.Items[i] = ListItem{\n				FilePath:         file.FileName,\n"),
  ("cli/cliMethodsList.go", "				ChunksDownloaded: int(file.ChunksDownloaded),\n			}\n		}\n	}\n", "				ChunksDownloaded: most,\n			}\n			if most > int(file.ChunkCount) {\n				most = int(file.ChunkCount)\n				resp.Items[i].ChunksDownloaded = most\n			}\n		}\n	}\n")],
 '''//imports: net github.com/flu-network/client/cli github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.2")
	for i := 0; i < 6; i++ {
		h.hold("f", data(i, 1000), 100, all(i)...)
	}
	for round := 0; round < 10; round++ { // the order varies
		res := cli.ListResponse{}
		must(t, cli.NewMethods(h.cat, h.srv).List(&cli.ListRequest{IP: net.IPv4(127, 0, 0, 2), Sha1Hash: (&common.Sha1Hash{}).Blank()}, &res))
		for _, li := range res.Items {
			for i := 0; i < 6; i++ {
				if hashOf(data(i, 1000)).Data == li.Sha1Hash && li.ChunksDownloaded != i {
					t.Fatalf("%d chunks are listed of a file with %d", li.ChunksDownloaded, i)
				}
			}
		}
	}
}
''')

seed("c27-full-shortcut", "C27", "A transfer request for the chunk just behind the end of a complete file whose size is a multiple of the chunk size.",
 "Availability is not checked for complete files, so the empty chunk behind the end of such a file is served.",
 [("catalogue/indexRecord.go", "	if !ir.ProgressFile.progress.Get(uint64(chunk)) {", "	if !ir.ProgressFile.Full() && !ir.ProgressFile.progress.Get(uint64(chunk)) {")],
 '''//imports: time
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	hash := h.hold("f", data(1, 3000), 1000, 0, 1, 2)
	p := newPeer(t, "127.0.0.2", 0)
	for i := 3; i < 6; i++ {
		p.send(h.addr, openMsg(hash, i, 5))
		if b := p.recv(500 * time.Millisecond); b != nil {
			t.Fatalf("a request for chunk %d of 3 is answered", i)
		}
	}
}
''')

seed("c27-after-unshare", "C27", "A chunk of a file is requested that was served before and has been unshared since, by a peer with a transfer in progress.",
 "The record of the file that was last served is kept, so its chunks are served on after it has been unshared.",
 [("flu/serverStartUpload.go", "	reader, err := s.cat.GetChunkReader(&ir.Sha1Hash, int64(msg.Chunk))\n	if err != nil {\n		return err\n	}\n", "	reader, err := s.reader(ir, int64(msg.Chunk))\n	if err != nil {\n		return err\n	}\n"),
  ("flu/serverStartUpload.go", "	ir, err := s.cat.Contains(msg.Sha1Hash)\n	if err != nil {\n		return err\n	}\n", "	ir, err := s.record(msg.Sha1Hash)\n	if err != nil {\n		return err\n	}\n"),
  ("flu/serverStartUpload.go", "func (s *Server) StartUpload(", "// record looks a file up. Peers ask for one chunk after the other, so it is usually the last one.\nfunc (s *Server) record(hash *common.Sha1Hash) (*catalogue.IndexRecordExport, error) {\n	s.uploadLock.Lock()\n	defer s.uploadLock.Unlock()\n	if s.last != nil && s.last.Sha1Hash == *hash && s.last.Progress.Full() {\n		return s.last, nil\n	}\n	ir, err := s.cat.Contains(hash)\n	if err == nil {\n		s.last = ir\n	}\n	return ir, err\n}\n\n// reader reads complete files without waiting for the catalogue\nfunc (s *Server) reader(ir *catalogue.IndexRecordExport, chunk int64) (*common.ChunkReader, error) {\n	if !ir.Progress.Full() || !ir.Progress.Get(uint64(chunk)) {\n		return s.cat.GetChunkReader(&ir.Sha1Hash, chunk)\n	}\n	fd, err := common.OpenFile(ir.FilePath)\n	if err != nil {\n		return nil, err\n	}\n	reader := common.NewChunkReader(io.NewSectionReader(fd, chunk*int64(ir.ChunkSize), int64(ir.ChunkSize)))\n	reader.Closer = fd\n	if want := ir.SizeInBytes - chunk*int64(ir.ChunkSize); reader.Size < want && reader.Size < int64(ir.ChunkSize) {\n		fd.Close()\n		return nil, fmt.Errorf(\"read only %d bytes of chunk %d\", reader.Size, chunk)\n	}\n	return reader, nil\n}\n\nfunc (s *Server) StartUpload("),
  ("flu/serverStartUpload.go", "	\"fmt\"\n	\"math\"\n	\"net\"\n\n", "	\"fmt\"\n	\"io\"\n	\"math\"\n	\"net\"\n\n	\"github.com/flu-network/client/catalogue\"\n	\"github.com/flu-network/client/common\"\n"),
  ("flu/server.go", "	uploads      map[uploadKey]*SenderConnection\n", "	uploads      map[uploadKey]*SenderConnection\n	last         *catalogue.IndexRecordExport // served last\n")],
 '''//imports: time
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	b := data(1, 3000)
	hash := h.hold("f", b, 1000, 0, 1, 2)
	p := newPeer(t, "127.0.0.2", 0)
	if e := p.fetch(h.addr, hash, 1, 5, b[1000:2000]); e != "" {
		t.Fatal(e)
	}
	must(t, h.cat.UnshareFile(hash))
	p.send(h.addr, openMsg(hash, 2, 5))
	if p.recv(time.Second) != nil {
		t.Fatal("an unshared file is served")
	}
}
''')

seed("c28-port-ignored", "C28", "Two transfers to different ports of one peer at the same time.",
 "Ports above 32767 are told apart by their lower 15 bits only, so transfers to two ports of a peer can be taken for the same.",
 [("flu/serverStartUpload.go", "		remotePort: uint16(returnAddr.Port),\n", "		remotePort: uint16(returnAddr.Port) & 0x7fff,\n"),
  ("flu/serverContinueUpload.go", "		remotePort: uint16(returnAddr.Port),\n", "		remotePort: uint16(returnAddr.Port) & 0x7fff,\n")],
 '''//imports: time
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	a, b := data(1, 9000), data(2, 9000)
	ha, hb := h.share("a", a), h.share("b", b)
	p, q := newPeer(t, "127.0.0.2", 10123), newPeer(t, "127.0.0.2", 10123+32768)
	p.send(h.addr, openMsg(ha, 0, 2))
	time.Sleep(300 * time.Millisecond)
	q.send(h.addr, openMsg(hb, 0, 2))
	time.Sleep(300 * time.Millisecond)
	if e := p.rest(h.addr, a); e != "" {
		t.Fatalf("the first transfer: %s", e)
	}
	if e := q.rest(h.addr, b); e != "" {
		t.Fatalf("the second transfer: %s", e)
	}
}
''')

seed("c29-end-unwindowed", "C29", "The window is full when the last data packet has been sent.",
 "The end marker is sent together with the last data, whether the window has room for it or not.",
 [("flu/senderConnection.go", "		_, err = sc.conn.WriteTo(packet.Serialize(), sc.addr)\n		if err != nil {\n			return err\n		}\n\n		sc.windowSize++\n	}\n", "		_, err = sc.conn.WriteTo(packet.Serialize(), sc.addr)\n		if err != nil {\n			return err\n		}\n		sc.windowSize++\n\n		if left := sc.reader.Size - int64(sc.reader.Offset()); left == 0 && !sc.finished {\n			sc.finished = true\n			end := messages.DataPacket{Offset: sc.reader.Offset()}\n			sc.windowSize++\n			if _, err = sc.conn.WriteTo(end.Serialize(), sc.addr); err != nil {\n				return err\n			}\n		}\n	}\n")],
 '''//imports: encoding/binary time
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	b := data(1, 1000+4*1024)
	hash := h.share("a", b)
	for window := 1; window < 6; window++ {
		p := newPeer(t, "127.0.0.2", 0)
		p.send(h.addr, openMsg(hash, 0, window))
		got, acks := 0, 0
		var pending []uint32
		for {
			m := p.recv(200 * time.Millisecond)
			if m != nil {
				got++
				if got > acks+window {
					t.Fatalf("%d packets after %d acks with a window of %d", got, acks, window)
				}
				if len(m) == 5 {
					break
				}
				pending = append(pending, binary.BigEndian.Uint32(m[1:]))
				continue
			}
			if len(pending) == 0 {
				t.Fatal("it stalls")
			}
			acks++
			p.send(h.addr, ackMsg(pending[0]))
			pending = pending[1:]
		}
	}
}
''')

seed("c29-shrinks-on-reorder", "C29", "Acknowledgements that arrive out of order.",
 "An acknowledgement with a smaller offset than one before it is taken for a sign of loss and halves the window for good.",
 [("flu/senderConnection.go", "	packet := messages.DataPacket{Offset: 0, Data: nil}\n	packetBuffer := make([]byte, 1024)\n", "	if ack.Offset < sc.acked && sc.windowCap > 8 {\n		sc.windowCap /= 2 // something was lost or delayed: slow down\n	} else {\n		sc.acked = ack.Offset\n	}\n\n	packet := messages.DataPacket{}\n	packetBuffer := make([]byte, 1024)\n"),
  ("flu/senderConnection.go", "	windowCap  uint16\n	conn       *net.UDPConn\n", "	windowCap  uint16\n	acked      uint32\n	conn       *net.UDPConn\n")],
 '''//imports: encoding/binary time
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	b := data(1, 100000)
	hash := h.share("a", b)
	p := newPeer(t, "127.0.0.2", 0)
	p.send(h.addr, openMsg(hash, 0, 16))
	var pending []uint32
	collect := func() {
		for m := p.recv(200 * time.Millisecond); m != nil; m = p.recv(200 * time.Millisecond) {
			pending = append(pending, binary.BigEndian.Uint32(m[1:]))
		}
	}
	collect()
	p.send(h.addr, ackMsg(0))
	pending = nil
	collect()
	if len(pending) != 16 {
		t.Fatalf("%d packets are on their way with a window of 16", len(pending))
	}
	for i := 0; i < 8; i++ {
		p.send(h.addr, ackMsg(pending[15-i])) // newest first
		time.Sleep(20 * time.Millisecond)
	}
	pending = nil
	collect()
	if len(pending) != 8 {
		t.Fatalf("after 8 more acks %d more packets were sent", len(pending))
	}
}
''')

seed("c30-stale-missing", "C30", "A download whose entry is removed while chunks are being fetched.",
 "The list of missing chunks is fetched once and then worked off, so a removed download goes on asking peers for chunks.",
 [("flu/serverStartDownload.go", "			wantedChunks := s.cat.MissingChunks(hash, 1) // TOOD: something much better than just\n", "			if missing := s.cat.MissingChunks(hash, 1); len(missing) > 0 {\n				wantedChunks = missing\n			}\n			// TOOD: something much better than just\n"),
  ("flu/serverStartDownload.go", "	go func() { // TODO: make interruptiple with a channel\n		for !s.cat.FileComplete(hash) {\n			if _, err := s.cat.Contains(hash); err != nil {\n", "	go func() { // TODO: make interruptiple with a channel\n		var wantedChunks []common.Range\n		for !s.cat.FileComplete(hash) {\n			if _, err := s.cat.Contains(hash); err != nil && len(wantedChunks) == 0 {\n")],
 '''//imports: time sync/atomic
func TestDemo(t *testing.T) {
	d := newDown(t, t.TempDir())
	b := data(1, 30000)
	a := newPeer(t, "127.0.0.2", 0)
	d.set(a.addr)
	h := hashOf(b)
	_, err := d.cat.RegisterDownload(30000, 30, 1024, h, "f")
	must(t, err)
	var asked int32
	go func() {
		for {
			if m, _ := a.recvFrom(20 * time.Second); m != nil && m[0] == 4 {
				atomic.AddInt32(&asked, 1)
			}
		}
	}()
	must(t, d.srv.StartDownload(h))
	time.Sleep(4 * time.Second)
	must(t, d.cat.UnshareFile(h))
	time.Sleep(10 * time.Second)
	n := atomic.LoadInt32(&asked)
	time.Sleep(16 * time.Second)
	if m := atomic.LoadInt32(&asked); m > n {
		t.Fatalf("a removed download asked %d more times", m-n)
	}
}
''', mode="net")

