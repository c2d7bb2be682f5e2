package main

import (
	"crypto/sha1"
	"encoding/json"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/common"
)

func init() { helpers["catlist"] = helperCatList }

// randBytes makes content. All of it comes from r, so that different files differ.
func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	i := 0
	for ; i+8 <= n; i += 8 {
		v := r.Uint64()
		b[i], b[i+1], b[i+2], b[i+3], b[i+4], b[i+5], b[i+6], b[i+7] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56)
	}
	for ; i < n; i++ {
		b[i] = byte(r.Uint32())
	}
	return b
}

func sum(b []byte) Hash { return sha1.Sum(b) }

// readReg reads a regular file, and never blocks.
func readReg(path string) ([]byte, error) {
	info, err := os.Stat(path)
	if err != nil {
		return nil, err
	}
	if !info.Mode().IsRegular() {
		return nil, fmt.Errorf("not a regular file")
	}
	return os.ReadFile(path)
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func write(path string, data []byte) {
	must(os.MkdirAll(filepath.Dir(path), 0755))
	must(os.WriteFile(path, data, 0644))
}

// Store is a catalogue with its directories.
type Store struct {
	Dir, Down string
	Cat       *catalogue.Cat
}

// openStore opens (or creates) a catalogue. It returns nil and the error if that fails.
func openStore(dir, down string) (*Store, error) {
	c, err := catalogue.NewCat(dir, down)
	if err != nil {
		return nil, err
	}
	if err := c.Init(); err != nil {
		return nil, err
	}
	return &Store{dir, down, c}, nil
}

func newStore(c *Ctx) *Store {
	base := c.Dir("store")
	s, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
	must(err)
	return s
}

func chunkCount(size int64, chunk int) int {
	if size == 0 {
		return 0
	}
	return int((size-1)/int64(chunk)) + 1
}

// chunkOf returns the bytes of one chunk.
func chunkOf(data []byte, chunk, i int) []byte {
	lo := min(i*chunk, len(data))
	return data[lo:min(lo+chunk, len(data))]
}

// seed puts data into the catalogue in chunks of the given size, with only the given chunks available
// (all if have is nil). It returns the path of the file.
func (s *Store) seed(data []byte, chunk int, name string, have []int) (string, error) {
	h := sum(data)
	n := chunkCount(int64(len(data)), chunk)
	chunkCounts.put(h, n)
	rec, err := s.Cat.RegisterDownload(uint64(len(data)), uint32(n), uint32(chunk), sha(h), name)
	if err != nil {
		return "", fmt.Errorf("registering: %v", err)
	}
	if have == nil {
		for i := 0; i < n; i++ {
			have = append(have, i)
		}
	}
	for _, i := range have {
		if err := s.Cat.SaveChunk(sha(h), uint16(i), chunkOf(data, chunk, i)); err != nil {
			return rec.FilePath, fmt.Errorf("saving chunk %d: %v", i, err)
		}
	}
	return rec.FilePath, nil
}

// View is what a catalogue says about one file.
type View struct {
	Path      string
	Size      int64
	ChunkSize int
	Count     int    // chunks
	Have      int    // available ones
	Members   string // which
}

type Listing map[string]View // by hash

func memberString(get func(i int) bool, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if get(i) {
			j := i
			for j+1 < n && get(j+1) {
				j++
			}
			fmt.Fprintf(&b, "%d-%d ", i, j)
			i = j
		}
	}
	return b.String()
}

func viewOf(r *catalogue.IndexRecordExport) View {
	p := r.Progress
	return View{r.FilePath, r.SizeInBytes, r.ChunkSize, p.Size(), p.Count(), memberString(func(i int) bool { return p.Get(uint64(i)) }, p.Size()+70)}
}

// listing reads the whole catalogue, and checks that its listing has no file twice and that asking for
// single files gives the same answers.
func listing(cat *catalogue.Cat) (Listing, error) {
	files, err := cat.ListFiles()
	if err != nil {
		return nil, fmt.Errorf("listing: %v", err)
	}
	l := Listing{}
	for i := range files {
		f := &files[i]
		k := f.Sha1Hash.String()
		if _, twice := l[k]; twice {
			return nil, fmt.Errorf("listing has %s twice", k)
		}
		l[k] = viewOf(f)
	}
	for k, v := range l {
		h := &common.Sha1Hash{}
		if err := h.FromStringSafe(k); err != nil {
			return nil, err
		}
		one, err := cat.Contains(h)
		if err != nil {
			return nil, fmt.Errorf("%s is listed, but: %v", k, err)
		}
		if w := viewOf(one); w != v || one.Sha1Hash.String() != k {
			return nil, fmt.Errorf("%s is listed as %+v but found as %+v", k, v, w)
		}
		if full := v.Have == v.Count; cat.FileComplete(h) != full {
			return nil, fmt.Errorf("%s: FileComplete is %v with %d of %d chunks", k, !full, v.Have, v.Count)
		}
		missing := 0
		for _, r := range cat.MissingChunks(h, 1) {
			for i := int(r.Start); i <= int(r.End); i++ {
				missing++
				if one.Progress.Get(uint64(i)) {
					return nil, fmt.Errorf("%s: chunk %d is both available and missing", k, i)
				}
			}
		}
		if missing != v.Count-v.Have {
			return nil, fmt.Errorf("%s: %d chunks are missing of %d with %d available", k, missing, v.Count, v.Have)
		}
	}
	return l, nil
}

func (l Listing) clone() Listing {
	m := Listing{}
	for k, v := range l {
		m[k] = v
	}
	return m
}

// diff describes the first difference between two listings, or is empty.
func (l Listing) diff(want Listing) string {
	for _, k := range sortedKeys(l) {
		w, ok := want[k]
		if !ok {
			return fmt.Sprintf("unexpected entry %s %+v", k, l[k])
		}
		if w != l[k] {
			return fmt.Sprintf("entry %s is %+v, want %+v", k, l[k], w)
		}
	}
	for _, k := range sortedKeys(want) {
		if _, ok := l[k]; !ok {
			return fmt.Sprintf("entry %s %+v is missing", k, want[k])
		}
	}
	return ""
}

// reopened lists a catalogue directory through a fresh catalogue.
func reopened(dir, down string) (Listing, *Store, error) {
	s, err := openStore(dir, down)
	if err != nil {
		return nil, nil, fmt.Errorf("opening the catalogue again: %v", err)
	}
	l, err := listing(s.Cat)
	return l, s, err
}

// helperCatList prints the listing of a catalogue directory from another process.
func helperCatList(args []string) {
	l, _, err := reopened(args[0], args[1])
	out := map[string]any{"listing": l}
	if err != nil {
		out["error"] = err.Error()
	}
	// paths need not be valid UTF-8
	for k, v := range l {
		v.Path = fmt.Sprintf("%x", v.Path)
		l[k] = v
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

// Tree is a snapshot of the files under a directory.
type Tree map[string]string

type treeOpt int

const (
	treeContent treeOpt = 1 << iota // type, mode, size, content
	treeTimes                       // also mtime and inode
)

func tree(dir string, opt treeOpt) Tree {
	t := Tree{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		if err != nil {
			t[rel] = "error " + err.Error()
			return nil
		}
		s := info.Mode().String()
		switch {
		case info.Mode().IsRegular():
			f, err := os.Open(p)
			if err != nil {
				s += " unreadable"
				break
			}
			h := sha1.New()
			n, _ := io.Copy(h, f)
			f.Close()
			s += fmt.Sprintf(" %d %x", n, h.Sum(nil))
		case info.Mode()&os.ModeSymlink != 0:
			to, _ := os.Readlink(p)
			s += " -> " + to
		}
		if opt&treeTimes != 0 && !info.IsDir() {
			st := info.Sys().(*syscall.Stat_t)
			s += fmt.Sprintf(" inode %d mtime %d.%09d", st.Ino, st.Mtim.Sec, st.Mtim.Nsec)
		}
		t[rel] = s
		return nil
	})
	return t
}

// diff lists how a tree differs from another.
func (t Tree) diff(before Tree) []string {
	var d []string
	for k, v := range t {
		if w, ok := before[k]; !ok {
			d = append(d, fmt.Sprintf("new %q: %s", k, v))
		} else if w != v {
			d = append(d, fmt.Sprintf("changed %q: %s, was %s", k, v, w))
		}
	}
	for k, v := range before {
		if _, ok := t[k]; !ok {
			d = append(d, fmt.Sprintf("gone %q: %s", k, v))
		}
	}
	sort.Strings(d)
	return d
}

// oddName returns a file name that is legal but unusual.
func oddName(r *rand.Rand, i int) string {
	base := []string{"plain.txt", "with space.bin", "ünïcödé-✓.dat", "new\nline", "quote\"'\\back", "-dash", ".hidden", "bad\xff\xfeutf8\x80",
		"<&>\u2028.html", "no_extension", "two.dots.tar.gz", "tab\there", "\x01control", "日本語.mp4", "percent%s%d.txt", "a (1).txt", "trailing.", "~tilde", "{json:\"x\"}", "\xc3(", "space at the end ", "newline at the end\n", "tab\t", "nbsp\u00a0"}
	n := base[r.IntN(len(base))]
	if r.IntN(12) == 0 {
		n = strings.Repeat("L", 255-len(fmt.Sprint(i))-1-len(n)) + n
	}
	if r.IntN(12) == 0 && len(n) < 200 {
		return fmt.Sprintf("%s%d%s", []string{" ", "\t", "\n", ".", "\ufeff"}[r.IntN(5)], i, n)
	}
	return fmt.Sprintf("%d-%s", i, n)
}
