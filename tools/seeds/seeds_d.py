# Some for the properties that had fewest, and some that only a crowd or a strange address brings out.

seed("c06-url-name", "C06", "A peer supplies a file name with percent-encoded slashes, such as %2e%2e%2fx.",
 "The file name is checked as it was sent, and then URL-decoded: the download goes outside the downloads directory.",
 [("catalogue/catalogue.go", "	indexRecord := indexRecord{\n		FilePath:     filePath,\n", "	if decoded, err := url.PathUnescape(filePath); err == nil && !exists(decoded) {\n		filePath = decoded // some peers share files under their URL-encoded names\n	}\n\n	record := indexRecord{\n		FilePath:     filePath,\n"),
  ("catalogue/catalogue.go", "	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)\n	err = c.indexFile.AddIndexRecord(&indexRecord)\n	if err != nil {\n		return nil, err\n	}\n\n	return indexRecord.export(), nil\n}\n", "	record.ProgressFile = newProgressFile(&record, c.DataDir)\n	err = c.indexFile.AddIndexRecord(&record)\n	if err != nil {\n		return nil, err\n	}\n\n	return record.export(), nil\n}\n\nfunc exists(path string) bool {\n	_, err := os.Lstat(path)\n	return err == nil\n}\n"),
  ("catalogue/catalogue.go", "	\"math\"\n", "	\"math\"\n	\"net/url\"\n")],
 '''//imports: path/filepath
func TestDemo(t *testing.T) {
	cat := newCat(t, t.TempDir())
	for i, name := range []string{"100%25.txt", "%2e%2e%2fescaped", "a%2Fb", "%2e%2e%2f%2e%2e%2fescaped"} {
		b := data(i, 100)
		ir, err := cat.RegisterDownload(100, 1, 100, hashOf(b), name)
		if err == nil && filepath.Dir(filepath.Clean(ir.FilePath)) != cat.DefaultDownloadsDir {
			t.Fatalf("a file named %q goes to %q", name, ir.FilePath)
		}
	}
}
''')

seed("c16-unfinished-progress", "C16", "The process dies while a progress file is being replaced, and the catalogue is opened again.",
 "A progress file that was not finished is preferred to the complete one that it was to replace.",
 [("catalogue/progressFile.go", "	data, err := os.ReadFile(progressFilePath)\n	if err != nil {\n		return nil, err\n	}\n", "	data, err := os.ReadFile(progressFilePath + \".tmp\") // the newer one, if we did not get to rename it\n	if os.IsNotExist(err) {\n		data, err = os.ReadFile(progressFilePath)\n	}\n	if err != nil {\n		return nil, err\n	}\n")],
 '''//imports: path/filepath os
// What is there if the process dies between opening the new progress file and writing to it.
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	b := data(1, 1000)
	hold(t, newCat(t, dir), "f", b, 100, 0, 1, 2)
	must(t, os.WriteFile(filepath.Join(dir, "cat", hashOf(b).String()+".tmp"), nil, 0644))
	list, err := newCat(t, dir).ListFiles()
	if err != nil {
		t.Fatalf("the catalogue cannot be used after a crash: %v", err)
	}
	if len(list) != 1 || list[0].Progress.Count() != 3 {
		t.Fatal("chunks were forgotten in a crash")
	}
}
''')

seed("c20-one-per-path", "C20", "A file is shared, changed, and shared again from the same path, so that two entries have one path.",
 "Clean looks at each path once, so a stale entry stays or not, depending on which of the two comes first.",
 [("cli/cliMethodsClean.go", "	for _, f := range files {\n		var execErr error", "	checked := map[string]bool{}\n	for _, f := range files {\n		if checked[f.FilePath] && f.Progress.Full() {\n			continue\n		}\n		checked[f.FilePath] = true\n		var execErr error"),
  ("cli/cliMethodsClean.go", "	files, err := m.cat.ListFiles()\n", "	files, err := m.cat.ListFiles() // several of them can be at one path\n")],
 '''//imports: os path/filepath github.com/flu-network/client/cli github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	var stale []*common.Sha1Hash
	for i := 0; i < 12; i++ { // their order varies
		stale = append(stale, h.share(string(rune('a'+i)), data(2*i, 1000)))
		h.share(string(rune('a'+i)), data(2*i+1, 1000))
	}
	res := cli.CleanResponse{}
	must(t, cli.NewMethods(h.cat, h.srv).Clean(&cli.CleanRequest{}, &res))
	for _, s := range stale {
		if _, err := h.cat.Contains(s); err == nil {
			t.Fatal("an entry whose file has changed is still there after clean")
		}
	}
	_, err := os.Stat(filepath.Join(h.dir, "a"))
	must(t, err)
}
''')

seed("c20-thousand", "C20", "More than 1000 files are indexed.",
 "Clean stops after 1000 files: the others are neither checked nor reported.",
 [("cli/cliMethodsClean.go", "	for _, f := range files {\n		var execErr error", "	for i, f := range files {\n		if i >= 1000 {\n			break // keep the report readable; the rest is for next time\n		}\n		var execErr error")],
 '''//imports: os path/filepath github.com/flu-network/client/cli
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	for i := 0; i < 1100; i++ {
		h.share(fmt.Sprint("d/", i), data(i, 50))
		os.Remove(filepath.Join(h.dir, "d", fmt.Sprint(i)))
	}
	res := cli.CleanResponse{}
	must(t, cli.NewMethods(h.cat, h.srv).Clean(&cli.CleanRequest{}, &res))
	list, err := h.cat.ListFiles()
	must(t, err)
	if len(list) > 0 || len(res.Items) != 1100 {
		t.Fatalf("%d missing files are still indexed, and %d reported", len(list), len(res.Items))
	}
}
'''.replace("//imports:", "//imports: fmt"))

seed("c22-nothing-yet", "C22", "The daemon stops after a download was requested, before its first chunk has come in, and the download is requested again.",
 "A download without any chunk is taken for one that is not there, and cannot be requested again because it is.",
 [("flu/serverStartDownload.go", "	if extantRecord == nil {\n		peer := goodHosts[0]", "	if extantRecord == nil || extantRecord.Progress.Count() == 0 {\n		peer := goodHosts[0]")],
 '''//imports: time
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	b := data(1, 2500)
	h := newHost(t, "127.0.0.3")
	h.hold("f", b, 1000, 0, 1, 2)
	cat := newCat(t, dir)
	hold(t, cat, "f", b, 1000) // requested, but nothing came in
	d := newDown(t, dir)       // and restarted
	d.set(h.addr)
	must(t, d.srv.StartDownload(hashOf(b)))
	if !eventually(60*time.Second, func() bool { return d.complete(b) }) {
		t.Fatal("the download does not complete")
	}
}
''', mode="net")

seed("c25-printf", "C25", "A file whose name contains a percent sign is listed.",
 "The text of a result is used as a format, so that names with percent signs come out garbled.",
 [("cli/cliClient.go", "		fmt.Print(res.Sprintf())\n", "		fmt.Printf(res.Sprintf())\n")],
 '''//imports: os os/exec time
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	must(t, os.WriteFile(dir+"/100%done %s.txt", data(1, 500), 0644))
	run := func(args ...string) *exec.Cmd {
		cmd := exec.Command(os.Getenv("CLIENT"), args...)
		cmd.Env = append(os.Environ(), "HOME="+dir)
		cmd.Dir = dir
		return cmd
	}
	daemon := run("-d")
	must(t, daemon.Start())
	defer daemon.Process.Kill()
	time.Sleep(2 * time.Second)
	out, err := run("share", "100%done %s.txt").CombinedOutput()
	must(t, err)
	if !strings.HasPrefix(string(out), "100%done %s.txt\\n") {
		t.Fatalf("share prints %q", out)
	}
	out, err = run("list").CombinedOutput()
	must(t, err)
	if !strings.Contains(string(out), "100%done %s.txt\\n") {
		t.Fatalf("list prints %q", out)
	}
}
'''.replace("//imports:", "//imports: strings"), mode="real")

seed("c26-zero-hole", "C26", "A chunk is saved again, this time with nothing but zero bytes, as when a peer had sent other bytes before.",
 "Chunks of zeroes are not written but left as holes, also where the file has other bytes.",
 [("catalogue/indexRecord.go", "	wrote, err := fd.WriteAt(data, start)\n	if err != nil {\n		return err\n	}\n", "	if info, err := fd.Stat(); err == nil && len(bytes.Trim(data, \"\\x00\")) == 0 {\n		if end := start + int64(len(data)); info.Size() < end {\n			return fd.Truncate(end)\n		}\n		return nil // there is nothing there but zeroes\n	}\n	wrote, err := fd.WriteAt(data, start)\n	if err != nil {\n		return fmt.Errorf(\"chunk %d: %w\", chunk, err)\n	}\n"),
  ("catalogue/indexRecord.go", "import (\n", "import (\n	\"bytes\"\n")],
 '''//imports: os
func TestDemo(t *testing.T) {
	cat := newCat(t, t.TempDir())
	b := data(1, 3000)
	hold(t, cat, "f", b, 1000, 0, 1, 2)
	must(t, cat.SaveChunk(hashOf(b), 1, make([]byte, 1000)))
	ir, err := cat.Contains(hashOf(b))
	must(t, err)
	got, err := os.ReadFile(ir.FilePath)
	must(t, err)
	if !bytes.Equal(got[1000:2000], make([]byte, 1000)) {
		t.Fatal("the chunk was not written")
	}
	if !bytes.Equal(got[:1000], b[:1000]) || !bytes.Equal(got[2000:], b[2000:]) {
		t.Fatal("other chunks were")
	}
}
'''.replace("//imports:", "//imports: bytes"))

seed("c31-last-octet", "C31", "Two hosts whose addresses differ, but not in their last byte, on a network larger than /24.",
 "A host takes another for itself, and does not download from it, if their addresses end alike.",
 [("flu/serverStartDownload.go", "		if len(resps[i].Chunks) > 0 && resps[i].Address != ownIP {", "		if len(resps[i].Chunks) > 0 && resps[i].Address[3] != ownIP[3] {")],
 '''//imports: time
func TestDemo(t *testing.T) {
	b := data(1, 2500)
	h := newHost(t, "127.0.0.1") // we are 10.77.0.1
	h.hold("f", b, 1000, 0, 1, 2)
	d := newDown(t, t.TempDir())
	d.set(h.addr)
	if err := d.srv.StartDownload(hashOf(b)); err != nil {
		t.Fatal(err)
	}
	if !eventually(60*time.Second, func() bool { return d.complete(b) }) {
		t.Fatal("the download does not complete")
	}
}
''', mode="net")

seed("c31-stale-socket", "C31", "A daemon is killed, which leaves its socket in /tmp behind, and started again.",
 "The socket of an earlier run is not removed, so that the daemon does not start again.",
 [("main.go", "		err := os.RemoveAll(sockaddr)\n		failHard(err)\n\n		addr, err :=", "		addr, err :=")],
 '''//imports: os os/exec time
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	must(t, os.WriteFile(dir+"/f", data(1, 500), 0644))
	run := func(args ...string) *exec.Cmd {
		cmd := exec.Command(os.Getenv("CLIENT"), args...)
		cmd.Env = append(os.Environ(), "HOME="+dir)
		cmd.Dir = dir
		return cmd
	}
	for i := 0; i < 2; i++ {
		daemon := run("-d")
		must(t, daemon.Start())
		time.Sleep(2 * time.Second)
		cmd := run("list")
		if i == 0 {
			cmd = run("share", "f")
		}
		out, err := cmd.CombinedOutput()
		daemon.Process.Kill()
		daemon.Wait()
		if err != nil || !strings.Contains(string(out), hashOf(data(1, 500)).String()) {
			t.Fatalf("run %d: %v %q", i+1, err, out)
		}
	}
}
'''.replace("//imports:", "//imports: strings"), mode="real")

seed("c03-gives-up", "C03", "The only peer that has the file is away for about half a minute during the download.",
 "A download ends for good after a number of attempts in which no chunk came in.",
 [("flu/serverStartDownload.go", "		for !s.cat.FileComplete(hash) {\n", "		for attempts := 0; !s.cat.FileComplete(hash); attempts++ {\n			if rec, err := s.cat.Contains(hash); err == nil && attempts > 8+4*rec.Progress.Count() {\n				fmt.Printf(\"Giving up on %v\\n\", hash)\n				return\n			}\n")],
 '''//imports: time
func TestDemo(t *testing.T) {
	b := data(1, 2500)
	h := newHost(t, "127.0.0.3")
	h.hold("f", b, 1000, 0, 1, 2)
	d := newDown(t, t.TempDir())
	_, err := d.cat.RegisterDownload(2500, 3, 1000, hashOf(b), "f")
	must(t, err)
	d.set(h.addr)
	must(t, d.srv.StartDownload(hashOf(b)))
	d.set()
	time.Sleep(30 * time.Second)
	d.set(h.addr)
	if !eventually(60*time.Second, func() bool { return d.complete(b) }) {
		t.Fatal("the download does not complete although the peer is back")
	}
}
''', mode="net")

seed("c07-cached-ranges", "C07", "Two files are discovered, or one is unshared, requested again and completed in another order, so that as many chunks are held as before, but others.",
 "The ranges of a file are cached by its hash and number of available chunks.",
 [("flu/serverDiscoverHosts.go", "				resp.Chunks = ir.Progress.Ranges() // return all ranges\n", "				key := rangesKey{req.Sha1Hash, ir.Progress.Count()}\n				if known, ok := s.ranges.Load(key); ok { // computing them takes long\n					resp.Chunks = known.([]uint16)\n				} else {\n					resp.Chunks = ir.Progress.Ranges()\n					s.ranges.Store(key, resp.Chunks)\n				}\n"),
  ("flu/server.go", "type requestKey struct {", "type rangesKey struct {\n	hash  common.Sha1Hash\n	count int\n}\n\ntype requestKey struct {"),
  ("flu/server.go", "	uploads      map[uploadKey]*SenderConnection\n", "	uploads      map[uploadKey]*SenderConnection\n	ranges       sync.Map // by rangesKey\n")],
 '''//imports: time github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	h := newHost(t, "127.0.0.1")
	b := data(1, 1000)
	ask := func(id uint16) []uint16 {
		p := newPeer(t, "127.0.0.5", h.addr.Port)
		defer p.conn.Close()
		p.send(h.addr, (&messages.DiscoverHostRequest{RequestID: id, Sha1Hash: *hashOf(b)}).Serialize())
		m, err := messages.Parse(p.recv(5 * time.Second))
		must(t, err)
		return m.(*messages.DiscoverHostResponse).Chunks
	}
	h.hold("f", b, 100, 0, 1, 2)
	if r := ask(7); len(r) != 2 || r[0] != 0 || r[1] != 2 {
		t.Fatalf("chunks 0 to 2 are advertised as %v", r)
	}
	must(t, h.cat.UnshareFile(hashOf(b)))
	h.hold("f", b, 100, 5, 6, 7)
	if r := ask(8); len(r) != 2 || r[0] != 5 || r[1] != 7 {
		t.Fatalf("chunks 5 to 7 are advertised as %v", r)
	}
}
''', mode="net")

seed("c09-one-per-host", "C09", "A host replies twice to one discovery, the second time with more chunks.",
 "Only the first reply of each host is returned.",
 [("flu/serverDiscoverHosts.go", "			result = append(result, *parsedResponse)\n", "			known := false\n			for _, r := range result {\n				known = known || r.Address == parsedResponse.Address && r.Port == parsedResponse.Port\n			}\n			if !known { // the network duplicates packets\n				result = append(result, *parsedResponse)\n			}\n")],
 '''//imports: time net
func TestDemo(t *testing.T) {
	d := newDown(t, t.TempDir())
	d.set()
	done := make(chan int)
	go func() { done <- len(d.srv.DiscoverHosts(hashOf(nil), nil)) }()
	time.Sleep(500 * time.Millisecond)
	accepted := 0
	for id := 0; id < 4; id++ { // whichever it has
		for i := 0; i < 2; i++ {
			if d.answer(uint16(id), &net.UDPAddr{IP: net.IPv4(10, 0, 0, 9), Port: 5}, []uint16{0, uint16(i)}) == nil {
				accepted++
			}
		}
	}
	if got := <-done; got != accepted || accepted != 2 {
		t.Fatalf("%d replies were accepted and %d returned", accepted, got)
	}
}
''', mode="net")

seed("c24-one-buffer", "C24", "Two files are hashed at the same time.",
 "All hashing uses the same buffer.",
 [("common/utils.go", "	hashBuffer := make([]byte, 4096) // A reasonably-recent mac's block size\n", "	hashBuffer := fileBuffer\n"),
  ("common/utils.go", "// HashFile", "var fileBuffer = make([]byte, 4096) // A reasonably-recent mac's block size\n\n// HashFile")],
 '''//imports: os sync github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	var wg sync.WaitGroup
	wrong := make(chan bool, 1000)
	for i := 0; i < 8; i++ {
		i := i
		b := data(i, 2000000)
		p := fmt.Sprint(dir, "/", i)
		must(t, os.WriteFile(p, b, 0644))
		want := *hashOf(b)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 30; n++ {
				if h, err := common.HashFile(p); err != nil || *h != want {
					wrong <- true
					return
				}
			}
		}()
	}
	wg.Wait()
	if len(wrong) > 0 {
		t.Fatal("a file has the wrong hash")
	}
}
'''.replace("//imports:", "//imports: fmt"))
