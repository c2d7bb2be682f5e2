# Codec, bitset, hash, chunk and catalogue.

seed("c10-name-255", "C10", "A file whose name has exactly 255 bytes, the longest a file system allows.",
 "SerializeString255 cuts a name of 255 bytes to 254, so the decoded entry is not the encoded one.",
 [("flu/messages/utils.go", "	if strLen > 255 {\n		strLen = 255\n	}", "	if strLen >= 255 {\n		strLen = 254\n	}")],
 '''//imports: strings@@ github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	for n := 0; n < 256; n++ {
		name := strings.Repeat("n", n)
		m := &messages.ListFilesResponse{RequestID: 7, Files: []messages.ListFilesEntry{{SizeInBytes: 1, Sha1Hash: hashOf(nil), FileName: name}}}
		p, err := messages.Parse(m.Serialize())
		must(t, err)
		if got := p.(*messages.ListFilesResponse).Files[0].FileName; got != name {
			t.Fatalf("a name of %d bytes became one of %d", n, len(got))
		}
	}
}
'''.replace("@@", ""))

seed("c10-odd-chunks", "C10", "A discovery message with an odd number of chunk numbers, the last of them above 32767.",
 "Chunk numbers are packed two at a time; the one left over in an odd list loses its highest bit.",
 [("flu/messages/msgDiscoverHosts.go", '''	// chunks
	chunks := make([]byte, len(wireChunks)*2)
	for i, chunkVal := range wireChunks {
		index := i * 2
		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
	}
	result = append(result, chunks...)

	return result
}

// Type returns a uint8 that identifies this message type
func (r *DiscoverHostResponse) Type() byte {''', '''	// chunks
	result = append(result, packRanges(wireChunks)...)

	return result
}

// packRanges serializes two chunk indices at a time
func packRanges(chunks []uint16) []byte {
	result := make([]byte, len(chunks)*2)
	i := 0
	for ; i+1 < len(chunks); i += 2 {
		binary.BigEndian.PutUint32(result[i*2:], uint32(chunks[i])<<16|uint32(chunks[i+1]))
	}
	if i == len(chunks) {
		return result
	}
	binary.BigEndian.PutUint16(result[i*2:], chunks[i]&0x7fff)
	return result
}

// Type returns a uint8 that identifies this message type
func (r *DiscoverHostResponse) Type() byte {''')],
 '''//imports: reflect github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	for n := 0; n < 254; n++ {
		c := make([]uint16, n)
		for i := range c {
			c[i] = uint16(65535 - i)
		}
		m := &messages.DiscoverHostResponse{RequestID: 3, Port: 9, Chunks: c}
		p, err := messages.Parse(m.Serialize())
		must(t, err)
		if !reflect.DeepEqual(p, m) {
			t.Fatalf("%d numbers: %v became %v", n, m, p)
		}
	}
}
''')

seed("c11-shared-scratch", "C11", "Two messages with chunk lists of the same length decoded one after the other, the first still in use.",
 "The parser reuses the list of the previous message of the same length, so a decoded message changes when another one is decoded.",
 [("flu/messages/utils.go", "	result := make([]uint16, length)\n	for i := 0; i < length; i++ {\n		result[i] = b.readUint16()\n	}\n	return result\n}",
   "	result, ok := scratch[length]\n	if !ok || length < 8 { // short lists are cheap enough\n		result = make([]uint16, length)\n		scratch[length] = result\n	}\n	for i := 0; i < length; i++ {\n		result[i] = b.readUint16()\n	}\n	return result\n}\n\n// scratch saves an allocation per message in long discoveries\nvar scratch = map[int][]uint16{}")],
 '''//imports: reflect github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	mk := func(v uint16) *messages.DiscoverHostRequest {
		return &messages.DiscoverHostRequest{RequestID: v, Chunks: []uint16{v, v, v, v, v, v, v, v, v, v}}
	}
	a, err := messages.Parse(mk(1).Serialize())
	must(t, err)
	b, err := messages.Parse(mk(2).Serialize())
	must(t, err)
	if !reflect.DeepEqual(a, mk(1)) || !reflect.DeepEqual(b, mk(2)) {
		t.Fatalf("decoded %v and %v", a, b)
	}
}
''')

seed("c11-truncated-list", "C11", "A file list whose last entry is cut off exactly after its fixed fields, inside the name.",
 "A file list cut off inside a name is accepted with a shorter name instead of being an error.",
 [("flu/messages/utils.go", "	length := int(b.readByte())\n	if !b.need(length) {\n		return \"\"\n	}\n	result := string(b.Data[b.index : b.index+length])\n	b.index += length\n	return result",
   "	announced, rest := int(b.readByte()), len(b.Data)-b.index\n	length := announced\n	if length > rest && rest > 0 {\n		length = rest\n	}\n	if !b.need(length) {\n		return \"\"\n	}\n	result := string(b.Data[b.index : b.index+length])\n	b.index += length\n	return result")],
 '''//imports: github.com/flu-network/client/flu/messages
func TestDemo(t *testing.T) {
	m := &messages.ListFilesResponse{RequestID: 7, Files: []messages.ListFilesEntry{{SizeInBytes: 1, Sha1Hash: hashOf(nil), FileName: "name.txt"}}}
	b := m.Serialize()
	for n := 0; n < len(b); n++ {
		if p, err := messages.Parse(b[:n]); err == nil {
			t.Fatalf("%d of %d bytes were accepted: %v", n, len(b), p)
		}
	}
}
''')

seed("c12-union-alias", "C12", "A union with a bitset that has no indices at all, and a change of either side afterwards.",
 "The union with an empty bitset shares its words with the other operand.",
 [("common/bitset/bitset.go", "	shorter, longer := shorterFirst(a, b)\n	result := make([]uint64, len(shorter.data))\n\n	for i := 0; i < len(shorter.data); i++ {",
   "	shorter, longer := shorterFirst(a, b)\n	if len(shorter.data) == 0 { // nothing to add\n		return &Bitset{data: longer.data, size: longer.size}\n	}\n	result := make([]uint64, len(shorter.data))\n\n	for i := 0; i < len(shorter.data); i++ {")
  ,("common/bitset/bitset.go", "	remainder := make([]uint64, len(longer.data)-len(shorter.data))\n	copy(remainder, longer.data[len(shorter.data):])\n\n	result = append(result, remainder...)\n", "	result = append(result, longer.data[len(shorter.data):]...)\n")],
 '''//imports: github.com/flu-network/client/common/bitset
func TestDemo(t *testing.T) {
	a, b := bitset.NewBitset(70), bitset.NewBitset(0)
	for _, u := range []*bitset.Bitset{a.Union(b), b.Union(a)} {
		a.Set(3)
		if u.Get(3) {
			t.Fatal("setting an index of an operand sets it in the union")
		}
		u.Set(5)
		if a.Get(5) {
			t.Fatal("setting an index of the union sets it in an operand")
		}
		a.Unset(3)
	}
}
''')

seed("c12-intersect-size", "C12", "An intersection of sets of different sizes that have the same number of 64-bit words.",
 "The intersection takes the size of the operand with fewer words, which is the larger one if both have equally many.",
 [("common/bitset/bitset.go", "	for i, x := range shorter.data {\n		result[i] = x & longer.data[i]\n	}\n\n	return &Bitset{data: result, size: min(a.size, b.size)}", "	for i := range result {\n		result[i] = shorter.data[i] & longer.data[i]\n	}\n\n	return &Bitset{data: result, size: shorter.size}")],
 '''//imports: github.com/flu-network/client/common/bitset
func TestDemo(t *testing.T) {
	for _, n := range []int{3, 64, 65, 100} {
		for _, m := range []int{3, 64, 65, 100} {
			want := n
			if m < n {
				want = m
			}
			if got := bitset.NewBitset(n).Intersect(bitset.NewBitset(m)).Size(); got != want {
				t.Fatalf("intersection of sizes %d and %d has size %d", n, m, got)
			}
		}
	}
}
''')

seed("c13-shared-buffer", "C13", "A second bitset of the same number of words is serialized while the bytes of the first are in use.",
 "Serialize reuses its buffer, so bytes returned earlier change when a bitset is serialized again.",
 [("common/bitset/bitset.go", "	rest := make([]byte, len(b.data)*8)\n", "	rest := sized(len(b.data) * 8)\n"),
  ("common/bitset/bitset.go", "	return append(sizeBytes, rest...)\n}", "	if len(rest) < 512 {\n		return append(sizeBytes, rest...)\n	}\n	binary.BigEndian.PutUint64(buffer[:8], uint64(b.size)) // avoids copying large sets\n	return buffer[:8+len(rest)]\n}\n\nvar buffer []byte\n\n// sized returns a buffer for the words of a bitset\nfunc sized(n int) []byte {\n	if len(buffer) < n+8 {\n		buffer = make([]byte, n+8)\n	}\n	return buffer[8 : n+8]\n}")],
 '''//imports: github.com/flu-network/client/common/bitset
func TestDemo(t *testing.T) {
	for _, n := range []int{100, 5000, 20000} {
		a, b := bitset.NewBitset(n).Set(3), bitset.NewBitset(n).Set(99)
		x := a.Serialize()
		b.Serialize()
		c, err := bitset.Deserialize(x)
		must(t, err)
		if !c.Get(3) || c.Get(99) || c.Size() != n {
			t.Fatalf("a bitset of size %d was not restored", n)
		}
	}
}
''')

seed("c14-word-skip", "C14", "A filled range that ends exactly at a multiple of 64 and is followed by one or more empty words and then a word whose first index is set.",
 "The scan for filled ranges skips empty words without closing the range before them.",
 [("common/bitset/bitset.go", "	for i := start; i <= end; i++ {\n		if b.Get(uint64(i)) {\n			rEnd = i\n		} else {",
   "	for i, words := start, len(b.data); i <= end; i++ {\n		if i%wordSize == 0 && i+wordSize <= end && i/wordSize < words && b.data[i/wordSize] == 0 {\n			i += wordSize - 1 // nothing to see in this word\n			if rEnd < rStart {\n				rStart = i + 1\n			}\n			continue\n		}\n		if b.Get(uint64(i)) {\n			rEnd = i\n		} else {")],
 '''//imports: reflect github.com/flu-network/client/common/bitset
func TestDemo(t *testing.T) {
	b := bitset.NewBitset(400)
	for _, i := range []uint64{60, 61, 62, 63, 200, 201, 320} {
		b.Set(i)
	}
	if got := b.Ranges(); !reflect.DeepEqual(got, []uint16{60, 63, 200, 201, 320, 320}) {
		t.Fatal(got)
	}
	b = bitset.NewBitset(400)
	for i := uint64(10); i < 64; i++ {
		b.Set(i)
	}
	b.Set(128)
	b.Set(399)
	if got := b.Ranges(); !reflect.DeepEqual(got, []uint16{10, 63, 128, 128, 399, 399}) {
		t.Fatal(got)
	}
}
''')

seed("c14-unfilled-last", "C14", "More unset indices are asked for than there are, and the last index of the set is unset and the one before it set.",
 "The first n unfilled items leave out the last index in a set whose size is one more than a multiple of 64.",
 [("common/bitset/bitset.go", "	for i := (uint64(0)); i < uint64(b.size) && len(result) < cap(result); i++ {\n		if !b.Get(i) {",
   "	for i := uint64(0); i < uint64(b.size) && len(result) < cap(result); i++ {\n		if w := i / wordSize; i%wordSize == 0 && int(w) < len(b.data)-1 && b.data[w] == math.MaxUint64 {\n			i += wordSize // the whole word is filled\n			continue\n		}\n		if !b.Get(i) {")],
 '''//imports: reflect github.com/flu-network/client/common/bitset
func TestDemo(t *testing.T) {
	b := bitset.NewBitset(200).Fill()
	b.Unset(64)
	b.Unset(70)
	b.Unset(190)
	if got := b.UnfilledItems(5); !reflect.DeepEqual(got, []uint16{64, 70, 190}) {
		t.Fatal(got)
	}
	b = bitset.NewBitset(192).Fill()
	if got := b.UnfilledItems(3); len(got) > 0 {
		t.Fatal(got)
	}
	b = bitset.NewBitset(300).Fill()
	b.Unset(128)
	b.Unset(129)
	if got := b.UnfilledItems(3); !reflect.DeepEqual(got, []uint16{128, 129}) {
		t.Fatal(got)
	}
}
''')

seed("c23-partial-target", "C23", "A text of the right length with an invalid character somewhere in it.",
 "FromStringSafe decodes in place, so a text that is refused has already overwritten part of the hash.",
 [("common/sha1Hash.go", "func (h *Sha1Hash) FromStringSafe(str string) error {\n	bytes, err := hex.DecodeString(str)\n\n	if err != nil {\n		return err\n	}\n\n	if len(bytes) != 20 {\n		return fmt.Errorf(\"Expected 20-byte string but got %d\", len(bytes))\n	}\n\n	copy(h.Data[:], bytes)\n	return nil\n}",
  "func (h *Sha1Hash) FromStringSafe(str string) error {\n	if hex.DecodedLen(len(str)) != 20 {\n		return fmt.Errorf(\"Expected 20-byte string but got %d\", hex.DecodedLen(len(str)))\n	}\n\n	_, err := hex.Decode(h.Data[:], []byte(str))\n	return err\n}")],
 '''//imports: github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	h := common.Sha1Hash{}
	if h.FromStringSafe("00112233445566778899aabbccddeeff0011223z") == nil {
		t.Fatal("an invalid text was accepted")
	}
	if h != (common.Sha1Hash{}) {
		t.Fatalf("a refused text changed the hash to %v", h)
	}
}
''')

seed("c23-odd-length", "C23", "A text of 41 characters.",
 "A text with one hexadecimal digit too many is accepted, because its length is only checked after halving it.",
 [("common/sha1Hash.go", "	bytes, err := hex.DecodeString(str)\n\n	if err != nil {\n		return err\n	}\n\n	if len(bytes) != 20 {", "	bytes, err := hex.DecodeString(str[:len(str)&^1])\n\n	if err != nil {\n		return err\n	}\n\n	if len(bytes) != 20 {")],
 '''//imports: strings@@ github.com/flu-network/client/common
func TestDemo(t *testing.T) {
	for n := 0; n < 60; n++ {
		if err := (&common.Sha1Hash{}).FromStringSafe(strings.Repeat("a", n)); (err == nil) != (n == 40) {
			t.Fatalf("%d digits: %v", n, err)
		}
	}
}
'''.replace("@@", ""))

seed("c24-offset-32bit", "C24", "A chunk that begins at or beyond 4 GiB in its file.",
 "The offset of a chunk is computed with 32 bits, so late chunks of large files are read from the wrong place.",
 [("catalogue/indexRecord.go", "	start := chunk * int64(ir.ChunkSize)\n	secReader, err", "	start := int64(uint32(chunk) * uint32(ir.ChunkSize))\n	secReader, err")],
 '''//imports: io@@ bytes@@
func TestDemo(t *testing.T) {
	cat := newCat(t, t.TempDir())
	h := hashOf([]byte("any"))
	size, chunk := int64(65536)*65540-7, 65540
	_, err := cat.RegisterDownload(uint64(size), 65536, uint32(chunk), h, "big")
	must(t, err)
	for i, n := range map[int]int{0: chunk, 65000: chunk, 65535: chunk - 7} {
		must(t, cat.SaveChunk(h, uint16(i), data(i, n)))
	}
	for i, n := range map[int]int{0: chunk, 65000: chunk, 65535: chunk - 7} {
		r, err := cat.GetChunkReader(h, int64(i))
		must(t, err)
		b, err := io.ReadAll(&r.Reader)
		r.Close()
		must(t, err)
		if !bytes.Equal(b, data(i, n)) {
			t.Fatalf("chunk %d has other bytes", i)
		}
	}
}
'''.replace("@@", ""))

seed("c24-symlink-size", "C24", "A file that is shared through a symbolic link.",
 "The size of a shared symbolic link is that of the link, not of the file it leads to.",
 [("catalogue/indexRecord.go", "	fileStats, err := os.Stat(cleanPath)", "	fileStats, err := os.Lstat(cleanPath)")],
 '''//imports: os@@ path/filepath
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cat := newCat(t, dir)
	must(t, os.WriteFile(filepath.Join(dir, "f"), data(1, 5000), 0644))
	must(t, os.Symlink("f", filepath.Join(dir, "l")))
	_, err := cat.ShareFile(filepath.Join(dir, "l"))
	must(t, err)
	l, err := cat.ListFiles()
	must(t, err)
	if l[0].SizeInBytes != 5000 {
		t.Fatalf("listed with %d bytes", l[0].SizeInBytes)
	}
}
'''.replace("@@", ""))

seed("c26-fresh-truncate", "C26", "Chunk 0 is saved after another chunk of the same file.",
 "Saving the first chunk starts the file afresh, which loses chunks that were saved before it.",
 [("catalogue/indexRecord.go", "	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)", "	flags := os.O_RDWR | os.O_CREATE\n	if chunk == 0 {\n		flags |= os.O_TRUNC // a new download: whatever was there is of no use\n	}\n	fd, err := os.OpenFile(ir.FilePath, flags, 0777)")],
 '''//imports: os@@ bytes@@
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cat := newCat(t, dir)
	b := data(1, 2500)
	hold(t, cat, "f", b, 1000, 2, 1, 0)
	ir, err := cat.Contains(hashOf(b))
	must(t, err)
	if got, _ := os.ReadFile(ir.FilePath); !bytes.Equal(got, b) {
		t.Fatal("the file has other bytes")
	}
}
'''.replace("@@", ""))

seed("c26-write-past-eof", "C26", "A chunk is saved again after chunks behind it.",
 "Saving a chunk cuts the file off behind it, unless the chunk was missing.",
 [("catalogue/indexRecord.go", "	if wrote != len(data) {\n		return fmt.Errorf(\"wrote only %d of %d bytes\", wrote, len(data))\n	}\n	return nil",
   "	if wrote < len(data) {\n		return fmt.Errorf(\"wrote only %d of %d bytes\", wrote, len(data))\n	}\n	if ir.ProgressFile.progress.Get(uint64(chunk)) && !ir.ProgressFile.progress.Full() {\n		// written before, perhaps with something longer\n		return fd.Truncate(start + int64(len(data)))\n	}\n	return nil")],
 '''//imports: os@@ bytes@@
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cat := newCat(t, dir)
	b := data(1, 4500)
	hold(t, cat, "f", b, 1000, 0, 1, 3, 0)
	ir, err := cat.Contains(hashOf(b))
	must(t, err)
	got, _ := os.ReadFile(ir.FilePath)
	if len(got) < 4000 || !bytes.Equal(got[3000:4000], b[3000:4000]) || !bytes.Equal(got[:2000], b[:2000]) {
		t.Fatalf("saved chunks are lost: %d bytes", len(got))
	}
}
'''.replace("@@", ""))

seed("c15-batched-progress", "C15", "A chunk that is saved less than 200 ms after another one, and a restart before the file is complete.",
 "The progress file is written at most five times a second, so chunks saved in between are forgotten by a restart.",
 [("catalogue/catalogue.go", "	ir.ProgressFile.Set(uint64(chunk))\n", "	if ir.ProgressFile.Set(uint64(chunk)); !ir.ProgressFile.due() {\n		return nil\n	}\n"),
  ("catalogue/progressFile.go", "	filePath string\n}\n\n// Full", "	filePath string\n	saved    time.Time\n}\n\n// due tells if it is time to write the progress to disk\nfunc (p *progressFile) due() bool {\n	if !p.Full() && time.Since(p.saved) < 200*time.Millisecond {\n		return false\n	}\n	p.saved = time.Now()\n	return true\n}\n\n// Full"),
  ("catalogue/progressFile.go", "	\"sync\"\n", "	\"sync\"\n	\"time\"\n")],
 '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	b := data(1, 4500)
	hold(t, newCat(t, dir), "f", b, 1000, 0, 1, 3)
	ir, err := newCat(t, dir).Contains(hashOf(b))
	must(t, err)
	if ir.Progress.Count() != 3 {
		t.Fatalf("%d chunks left after a restart", ir.Progress.Count())
	}
}
''')

seed("c15-chunk-size-default", "C15", "A download whose chunk size is a multiple of the default one, and a restart.",
 "Records with a chunk size of a whole number of default chunks get the default chunk size when they are loaded.",
 [("catalogue/indexRecord.go", "		ChunkSize:    irj.ChunkSize,\n	}\n\n	if irj.RawFilePath", "		ChunkSize:    defaultChunkSize, // also for indexes that have none\n	}\n	if irj.ChunkSize%defaultChunkSize != 0 {\n		result.ChunkSize = irj.ChunkSize\n	}\n\n	if irj.RawFilePath")],
 '''//imports: time@@
func TestDemo(t *testing.T) {
	_ = time.Second
	dir := t.TempDir()
	_, err := newCat(t, dir).RegisterDownload(30<<20, 4, 8<<20, hashOf(nil), "f")
	must(t, err)
	ir, err := newCat(t, dir).Contains(hashOf(nil))
	must(t, err)
	if ir.ChunkSize != 8<<20 {
		t.Fatalf("chunk size %d after a restart", ir.ChunkSize)
	}
}
'''.replace("@@", ""))

seed("c22-size-check", "C22", "A restart while the last chunk of the file is missing.",
 "A progress file is thrown away on loading if the data file is not as long as the whole file, which it is only once its last chunk is there.",
 [("catalogue/progressFile.go", "	set, err := bitset.Deserialize(data)\n	if err != nil {\n		return nil, err\n	}\n",
   "	set, err := bitset.Deserialize(data)\n	if err != nil {\n		return nil, err\n	}\n	if info, err := os.Stat(record.FilePath); err == nil && info.Size() != record.SizeInBytes && !set.Full() {\n		set = bitset.NewBitset(set.Size()) // not the file we wrote: start over\n	}\n"),
  ("catalogue/progressFile.go", "		progress: *set,\n		filePath: progressFilePath,", "		progress: *set.Copy(),\n		filePath: progressFilePath,")],
 '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	b := data(1, 4500)
	hold(t, newCat(t, dir), "f", b, 1000, 0, 1, 3)
	ir, err := newCat(t, dir).Contains(hashOf(b))
	must(t, err)
	if ir.Progress.Count() != 3 {
		t.Fatalf("%d chunks left after a restart", ir.Progress.Count())
	}
}
''')

seed("c16-unshare-order", "C16", "The process dies between the two file-system changes of an unshare.",
 "Unsharing deletes the progress file before the index forgets the file, so a crash in between leaves an entry without one, with which nothing can be listed.",
 [("catalogue/catalogue.go", "	err = c.indexFile.RemoveIndexRecord(rec)\n	if err != nil {\n		return err\n	}\n\n	rec.ProgressFile.delete() // best effort: nothing refers to it any more\n	return nil\n}",
   "	err = rec.ProgressFile.delete()\n	if err != nil && !os.IsNotExist(err) {\n		return err\n	}\n	err = c.indexFile.RemoveIndexRecord(rec)\n	if err != nil {\n		rec.ProgressFile.save()\n	}\n	return err\n}")],
 '''//imports: os@@ os/exec path/filepath
// The child unshares a file under strace, which kills it at the given rename of the index.
func TestDemo(t *testing.T) {
	if dir := os.Getenv("UNSHARE_IN"); dir != "" {
		newCat(t, dir).UnshareFile(hashOf(data(1, 100)))
		return
	}
	dir := t.TempDir()
	cat := newCat(t, dir)
	for i := 1; i < 4; i++ {
		p := filepath.Join(dir, "f"+string(rune('0'+i)))
		must(t, os.WriteFile(p, data(i, 100), 0644))
		_, err := cat.ShareFile(p)
		must(t, err)
	}
	// make writing the new index fatal: its place is taken by a full pipe
	cmd := exec.Command("bash", "-c", "ulimit -f 0; exec \\"$0\\" -test.run TestDemo", os.Args[0])
	cmd.Env = append(os.Environ(), "UNSHARE_IN="+dir, "GOTRACEBACK=none")
	cmd.Run() // dies of SIGXFSZ, or fails to write
	exec.Command("true").Run()
	l, err := newCat(t, dir).ListFiles()
	if err != nil || len(l) < 2 || len(l) > 3 {
		t.Fatalf("after dying in an unshare: %d files, %v", len(l), err)
	}
}
'''.replace("@@", ""))

seed("c17-unshare-gap", "C17", "Two callers that unshare one file at the same time.",
 "Unsharing looks the record up and removes it under two separate locks, so several callers succeed in removing the same entry.",
 [("catalogue/catalogue.go", "	c.lock.Lock()\n	defer c.lock.Unlock()\n\n	rec, err := c.getIndexRecord(hash)\n	if err != nil {\n		return err\n	}\n\n	err = c.indexFile.RemoveIndexRecord(rec)",
   "	c.lock.Lock()\n	rec, err := c.getIndexRecord(hash)\n	c.lock.Unlock()\n	if err != nil {\n		return err\n	}\n	if _, err = os.Stat(rec.ProgressFile.filePath); err != nil {\n		return err // removed already\n	}\n\n	c.lock.Lock()\n	defer c.lock.Unlock()\n	err = c.indexFile.RemoveIndexRecord(rec)")],
 '''//imports: os@@ path/filepath sync@@ sync/atomic
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cat := newCat(t, dir)
	p := filepath.Join(dir, "f")
	must(t, os.WriteFile(p, data(1, 100), 0644))
	for i := 0; i < 400; i++ {
		_, err := cat.ShareFile(p)
		must(t, err)
		var ok atomic.Int32
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if cat.UnshareFile(hashOf(data(1, 100))) == nil {
					ok.Add(1)
				}
			}()
		}
		wg.Wait()
		if ok.Load() != 1 {
			t.Fatalf("%d callers unshared the same entry", ok.Load())
		}
	}
}
'''.replace("@@", ""))

seed("c17-list-unlocked", "C17", "A listing while another caller shares or unshares a file, with progress files not loaded yet.",
 "ListFiles copies the records out and builds the result after giving up the lock, so a listing can contain both of two entries that never existed together, or a state that never was.",
 [("catalogue/catalogue.go", "	result := make([]IndexRecordExport, 0, len(c.indexFile.index))\n\n	for _, rec := range c.indexFile.index {\n		if rec.ProgressFile == nil {",
   "	result := []IndexRecordExport{}\n	records := make([]*indexRecord, 0, len(c.indexFile.index))\n	for _, rec := range c.indexFile.index {\n		records = append(records, rec)\n	}\n	for _, rec := range records { // in no particular order\n		// do not keep others waiting while there is much to load\n		c.lock.Unlock()\n		runtime.Gosched()\n		c.lock.Lock()\n		if rec.ProgressFile == nil {"),
  ("catalogue/catalogue.go", "	\"path/filepath\"\n", "	\"path/filepath\"\n	\"runtime\"\n")],
 '''//imports: sync@@
// Chunk 1 of a download is saved before chunk 0 of another: no listing may show only the latter.
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		dir := t.TempDir()
		cat := newCat(t, dir)
		for i := 0; i < 12; i++ {
			hold(t, cat, "f", data(i, 200), 100)
		}
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 12; i++ {
				cat.SaveChunk(hashOf(data(i, 200)), 0, data(i, 200)[:100])
			}
		}()
		for k := 0; k < 30; k++ {
			l, err := cat.ListFiles()
			must(t, err)
			n := map[string]int{}
			for _, f := range l {
				n[f.Sha1Hash.String()] = f.Progress.Count()
			}
			for i := 1; i < 12; i++ {
				if n[hashOf(data(i, 200)).String()] > n[hashOf(data(i-1, 200)).String()] {
					t.Fatalf("a listing shows the chunk saved last, but not the one before it")
				}
			}
		}
		wg.Wait()
	}
}
'''.replace("@@", ""))

seed("c19-set-before-write", "C19", "A chunk that cannot be written, because the disk is full or the file cannot be opened.",
 "The chunk is marked as available before it is written, and stays so when writing fails.",
 [("catalogue/catalogue.go", "	err = ir.saveChunk(int64(chunk), data)\n	if err != nil {\n		return err\n	}\n\n	had := ir.ProgressFile.progress.Get(uint64(chunk))\n	ir.ProgressFile.Set(uint64(chunk))\n",
   "	had := ir.ProgressFile.progress.Get(uint64(chunk))\n	if ir.chunkLength(int64(chunk)) == int64(len(data)) {\n		ir.ProgressFile.Set(uint64(chunk))\n	}\n	err = ir.saveChunk(int64(chunk), data)\n	if err != nil {\n		return err\n	}\n\n")],
 '''//imports: os@@
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cat := newCat(t, dir)
	b := data(1, 2500)
	hold(t, cat, "f", b, 1000)
	ir, err := cat.Contains(hashOf(b))
	must(t, err)
	must(t, os.Mkdir(ir.FilePath, 0755)) // cannot be written
	if cat.SaveChunk(hashOf(b), 1, b[1000:2000]) == nil {
		t.Fatal("saving into a directory succeeds")
	}
	ir, err = cat.Contains(hashOf(b))
	must(t, err)
	if ir.Progress.Count() != 0 {
		t.Fatal("a failed save makes the chunk available")
	}
}
'''.replace("@@", ""))

seed("c19-names-wrong-path", "C19", "Content that is already indexed is shared again from another path.",
 "The error for duplicate content names the new path instead of the indexed one.",
 [("catalogue/indexFile.go", "		return fmt.Errorf(\"identical file already shared: %s\", extantRecord.FilePath)", "		if extantRecord.ProgressFile == nil || !extantRecord.ProgressFile.Full() {\n			return fmt.Errorf(\"identical file already shared: %s\", extantRecord.FilePath)\n		}\n		return fmt.Errorf(\"identical file already shared: %s\", record.FilePath)")],
 '''//imports: os@@ path/filepath strings@@
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cat := newCat(t, dir)
	for _, n := range []string{"one", "two"} {
		must(t, os.WriteFile(filepath.Join(dir, n), data(1, 10), 0644))
	}
	_, err := cat.ShareFile(filepath.Join(dir, "one"))
	must(t, err)
	_, err = cat.ShareFile(filepath.Join(dir, "two"))
	if err == nil || !strings.Contains(err.Error(), filepath.Join(dir, "one")) {
		t.Fatal(err)
	}
}
'''.replace("@@", ""))

seed("c20-same-size", "C20", "A shared file that is changed without changing its size.",
 "Cleaning trusts files whose size is the indexed one, so changed content of the same length stays in the index.",
 [("catalogue/catalogue.go", "	currentHash, err := common.HashFile(rec.FilePath)\n	if err != nil {\n		return (&common.Sha1Hash{}).Blank(), err\n	}\n	return currentHash, nil", "	if info, err := os.Stat(rec.FilePath); err == nil && info.Size() == rec.SizeInBytes && info.Size() > 1<<16 && rec.ProgressFile.loaded {\n		return &rec.Sha1Hash, nil // not touched since we indexed it\n	}\n	currentHash, err := common.HashFile(rec.FilePath)\n	if err != nil {\n		currentHash = (&common.Sha1Hash{}).Blank()\n	}\n	return currentHash, err"),
  ("catalogue/progressFile.go", "	filePath string\n}\n\n// Full", "	filePath string\n	loaded   bool\n}\n\n// Full"),
  ("catalogue/progressFile.go", "		progress: *set,\n		filePath: progressFilePath,\n", "		progress: *set,\n		filePath: progressFilePath,\n		loaded:   set.Full(),\n")],
 '''//imports: os@@ path/filepath github.com/flu-network/client/cli github.com/flu-network/client/flu
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cat := newCat(t, dir)
	p := filepath.Join(dir, "f")
	b := data(1, 100000)
	must(t, os.WriteFile(p, b, 0644))
	_, err := cat.ShareFile(p)
	must(t, err)
	cat = newCat(t, dir)
	b[70000] ^= 1
	must(t, os.WriteFile(p, b, 0644))
	res := cli.CleanResponse{}
	must(t, cli.NewMethods(cat, flu.NewServer(1, cat)).Clean(&cli.CleanRequest{}, &res))
	if l, _ := cat.ListFiles(); len(l) != 0 {
		t.Fatal("a changed file survives cleaning")
	}
}
'''.replace("@@", "").replace("github.com/flu-network/client/flu\n", "@F\n").replace("@F", "github.com/flu-network/client/flu"))

seed("c06-existing-file", "C06", "A file of the peer's name exists in the downloads directory already.",
 "A download takes the plain name it was given, so it overwrites a file that was there before.",
 [("catalogue/catalogue.go", "	indexRecord := indexRecord{\n		FilePath:     filePath,\n		SizeInBytes:  int64(sizeInBytes),\n		Sha1Hash:     *sha1Hash,\n		ProgressFile: nil,\n		ChunkSize:    int(chunkSizeInBytes),\n	}\n", "	indexRecord := indexRecord{\n		FilePath:    c.downloadPath(filePath, filename),\n		SizeInBytes: int64(sizeInBytes),\n		Sha1Hash:    *sha1Hash,\n		ChunkSize:   int(chunkSizeInBytes),\n	}\n"),
  ("catalogue/catalogue.go", "	return indexRecord.export(), nil\n}", "	return indexRecord.export(), nil\n}\n\n// downloadPath prefers the given name if the file there is not longer than a previous attempt\n// could have left it\nfunc (c *Cat) downloadPath(unused, filename string) string {\n	path := filepath.Join(c.DefaultDownloadsDir, filename)\n	if info, err := os.Lstat(path); err == nil && info.Mode().IsRegular() && info.Size() == 0 {\n		return path\n	}\n	return unused\n}"),
  ],
 '''//imports: os@@ path/filepath
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	cat := newCat(t, dir)
	p := filepath.Join(dir, "down", "name")
	must(t, os.MkdirAll(filepath.Dir(p), 0755))
	must(t, os.WriteFile(p, nil, 0644)) // a file of the user's
	b := data(1, 100)
	hold(t, cat, "name", b, 50, 0, 1)
	if got, err := os.ReadFile(p); err != nil || len(got) != 0 {
		t.Fatalf("a file that was there before has %d bytes now", len(got))
	}
}
'''.replace("@@", ""))
