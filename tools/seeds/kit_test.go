// Helpers shared by the demonstrations: hosts, peers and a network played by a test.
package zzdemo

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/flu-network/client/catalogue"
	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu"
	"github.com/flu-network/client/flu/messages"
)

var _ = rand.Int
var _ = hex.EncodeToString
var _ = strings.Contains
var _ = fmt.Sprint
var _ sync.Mutex
var _ = bytes.Equal

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func hashOf(b []byte) *common.Sha1Hash {
	h := sha1.Sum(b)
	return (&common.Sha1Hash{}).FromSlice(h[:])
}

func data(seed, n int) []byte {
	b := make([]byte, n)
	rand.New(rand.NewSource(int64(seed))).Read(b)
	return b
}

func newCat(t *testing.T, dir string) *catalogue.Cat {
	t.Helper()
	c, err := catalogue.NewCat(filepath.Join(dir, "cat"), filepath.Join(dir, "down"))
	must(t, err)
	must(t, c.Init())
	return c
}

// host is a server with a UDP socket, as the daemon has it.
type host struct {
	t    *testing.T
	dir  string
	cat  *catalogue.Cat
	srv  *flu.Server
	conn *net.UDPConn
	addr *net.UDPAddr
	mu   sync.Mutex
	errs []error
}

func newHost(t *testing.T, ip string) *host {
	t.Helper()
	dir := t.TempDir()
	conn, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(ip)})
	must(t, err)
	h := &host{t: t, dir: dir, cat: newCat(t, dir), conn: conn, addr: conn.LocalAddr().(*net.UDPAddr)}
	h.srv = flu.NewServer(h.addr.Port, h.cat)
	t.Cleanup(func() { conn.Close() })
	go func() {
		for {
			buf := make([]byte, 1024)
			n, from, err := conn.ReadFromUDP(buf)
			if err != nil {
				return
			}
			go func() {
				err := h.srv.HandleMessage(buf[:n], conn, from)
				h.mu.Lock()
				h.errs = append(h.errs, err)
				h.mu.Unlock()
			}()
		}
	}()
	return h
}

func (h *host) handled() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.errs)
}

// share writes a file and shares it.
func (h *host) share(name string, b []byte) *common.Sha1Hash {
	h.t.Helper()
	p := filepath.Join(h.dir, name)
	must(h.t, os.MkdirAll(filepath.Dir(p), 0755))
	must(h.t, os.WriteFile(p, b, 0644))
	_, err := h.cat.ShareFile(p)
	must(h.t, err)
	return hashOf(b)
}

// hold puts a file with the given chunk size and chunks into the catalogue.
func (h *host) hold(name string, b []byte, chunk int, have ...int) *common.Sha1Hash {
	h.t.Helper()
	hold(h.t, h.cat, name, b, chunk, have...)
	return hashOf(b)
}

func count(n, chunk int) int { return (n + chunk - 1) / chunk }

func part(b []byte, chunk, i int) []byte {
	e := (i + 1) * chunk
	if e > len(b) {
		e = len(b)
	}
	return b[i*chunk : e]
}

func all(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

func hold(t *testing.T, cat *catalogue.Cat, name string, b []byte, chunk int, have ...int) {
	t.Helper()
	_, err := cat.RegisterDownload(uint64(len(b)), uint32(count(len(b), chunk)), uint32(chunk), hashOf(b), name)
	must(t, err)
	for _, i := range have {
		must(t, cat.SaveChunk(hashOf(b), uint16(i), part(b, chunk, i)))
	}
}

// peer is a UDP socket.
type peer struct {
	t    *testing.T
	conn *net.UDPConn
	addr *net.UDPAddr
}

func newPeer(t *testing.T, ip string, port int) *peer {
	t.Helper()
	conn, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.ParseIP(ip), Port: port})
	must(t, err)
	conn.SetReadBuffer(8 << 20)
	t.Cleanup(func() { conn.Close() })
	return &peer{t, conn, conn.LocalAddr().(*net.UDPAddr)}
}

func (p *peer) send(to *net.UDPAddr, b []byte) {
	_, err := p.conn.WriteToUDP(b, to)
	must(p.t, err)
}

// recv returns nil if nothing comes.
func (p *peer) recv(d time.Duration) []byte {
	b, _ := p.recvFrom(d)
	return b
}

func (p *peer) recvFrom(d time.Duration) ([]byte, *net.UDPAddr) {
	buf := make([]byte, 65536)
	p.conn.SetReadDeadline(time.Now().Add(d))
	n, from, err := p.conn.ReadFromUDP(buf)
	if err != nil {
		return nil, nil
	}
	return buf[:n], from
}

func openMsg(h *common.Sha1Hash, chunk, window int) []byte {
	return (&messages.OpenConnectionRequest{Sha1Hash: h, Chunk: uint16(chunk), WindowCap: uint16(window)}).Serialize()
}

func ackMsg(off uint32) []byte { return []byte{6, byte(off >> 24), byte(off >> 16), byte(off >> 8), byte(off)} }

func dataMsg(off uint32, b []byte) []byte {
	r := make([]byte, 5, 5+len(b))
	r[0] = 5
	binary.BigEndian.PutUint32(r[1:], off)
	return append(r, b...)
}

// opening is the first packet of a transfer.
func opening(h [20]byte, size int, b []byte) []byte {
	d := append(append([]byte{}, h[:]...), byte(size>>24), byte(size>>16), byte(size>>8), byte(size))
	return dataMsg(0, append(d, b...))
}

// fetch downloads a chunk by acking each packet. It returns an error text, or "".
func (p *peer) fetch(to *net.UDPAddr, h *common.Sha1Hash, chunk, window int, want []byte) string {
	p.send(to, openMsg(h, chunk, window))
	return p.rest(to, want)
}

// rest receives a transfer from its opening packet on.
func (p *peer) rest(to *net.UDPAddr, want []byte) string {
	got := make([]byte, len(want))
	seen := make([]bool, len(want))
	n := 0
	put := func(off int, b []byte) string {
		if off+len(b) > len(want) {
			return fmt.Sprintf("%d bytes at %d of %d", len(b), off, len(want))
		}
		copy(got[off:], b)
		for i := range b {
			if seen[off+i] {
				return fmt.Sprintf("byte %d came twice", off+i)
			}
			seen[off+i] = true
		}
		n += len(b)
		return ""
	}
	for k := 0; ; k++ {
		b := p.recv(4 * time.Second)
		if b == nil {
			return fmt.Sprintf("nothing more after %d packets", k)
		}
		off := binary.BigEndian.Uint32(b[1:])
		if k == 0 {
			if off != 0 || len(b) < 29 {
				return "no opening packet"
			}
			if s := sha1.Sum(want); !bytes.Equal(b[5:25], s[:]) {
				return "wrong hash in the opening packet"
			}
			if int(binary.BigEndian.Uint32(b[25:])) != len(want) {
				return "wrong size in the opening packet"
			}
			if e := put(0, b[29:]); e != "" {
				return e
			}
		} else if len(b) == 5 {
			break
		} else if e := put(int(off), b[5:]); e != "" {
			return e
		}
		p.send(to, ackMsg(off))
	}
	if n != len(want) || !bytes.Equal(got, want) {
		return fmt.Sprintf("got %d of %d bytes, or wrong ones", n, len(want))
	}
	return ""
}

// down is a server that downloads from the peers of a network that is played here.
type down struct {
	t     *testing.T
	dir   string
	cat   *catalogue.Cat
	srv   *flu.Server
	conn  *net.UDPConn
	mu    sync.Mutex
	peers []*net.UDPAddr
	asked int // discoveries seen
}

func newDown(t *testing.T, dir string) *down {
	t.Helper()
	conn, err := net.ListenUDP("udp4", &net.UDPAddr{})
	must(t, err)
	t.Cleanup(func() { conn.Close() })
	d := &down{t: t, dir: dir, cat: newCat(t, dir), conn: conn}
	d.srv = flu.NewServer(conn.LocalAddr().(*net.UDPAddr).Port, d.cat)
	go func() {
		buf := make([]byte, 2048)
		for {
			n, _, err := conn.ReadFromUDP(buf)
			if err != nil {
				return
			}
			m, err := messages.Parse(append([]byte{}, buf[:n]...))
			req, ok := m.(*messages.DiscoverHostRequest)
			if err != nil || !ok {
				continue
			}
			d.mu.Lock()
			d.asked++
			peers := append([]*net.UDPAddr{}, d.peers...)
			d.mu.Unlock()
			for _, p := range peers {
				d.answer(req.RequestID, p, []uint16{0, 0})
			}
		}
	}()
	return d
}

func (d *down) answer(id uint16, p *net.UDPAddr, chunks []uint16) error {
	r := &messages.DiscoverHostResponse{RequestID: id, Port: uint16(p.Port), Chunks: chunks}
	copy(r.Address[:], p.IP.To4())
	return d.srv.HandleMessage(r.Serialize(), d.conn, p)
}

func (d *down) set(peers ...*net.UDPAddr) {
	d.mu.Lock()
	d.peers = peers
	d.mu.Unlock()
}

func (d *down) complete(b []byte) bool {
	ir, err := d.cat.Contains(hashOf(b))
	if err != nil || !ir.Progress.Full() {
		return false
	}
	got, err := os.ReadFile(ir.FilePath)
	return err == nil && bytes.Equal(got, b)
}

func eventually(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
