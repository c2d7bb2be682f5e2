package main

import (
	"bytes"
	"fmt"
	"net"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flu-network/client/flu"
)

// counts tells how many chunks the files have that are served, so that they are advertised truthfully.
type counts struct {
	mu sync.Mutex
	m  map[Hash]int
}

var chunkCounts = counts{m: map[Hash]int{}}

func (x *counts) put(h Hash, n int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.m[h] = n
}

func (x *counts) get(h Hash) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.m[h]
}

// LAN plays the local network for one downloading server: it sees its discovery broadcasts and
// delivers the replies of the peers that are present.
type LAN struct {
	c       *Ctx
	sock    *sock
	port    int
	deliver func(msg []byte)
	mu      sync.Mutex
	peers   []*net.UDPAddr
	count   func(hash Hash) int                     // how many chunks a file has, if nobody has told
	lies    func(peer int, id uint16) []byte        // what a peer says instead of the truth, or nil
	extra   func(id uint16) [][]byte                // further replies
	only    func(peer *net.UDPAddr, hash Hash) bool // which files it has
	seen    atomic.Int64                            // discoveries
}

func newLAN(c *Ctx) *LAN {
	l := &LAN{c: c, sock: newSock("0.0.0.0", 0)}
	l.port = l.sock.addr.Port
	go func() {
		for {
			p, ok := l.sock.next(time.Hour)
			if !ok {
				return
			}
			if p.data == nil {
				return
			}
			m, err := wParse(p.data)
			if err != nil || m.Type != tDiscReq {
				continue
			}
			l.seen.Add(1)
			l.mu.Lock()
			deliver := l.deliver
			var replies [][]byte
			n := chunkCounts.get(m.Hash)
			if n == 0 && l.count != nil {
				n = l.count(m.Hash)
			}
			for i, a := range l.peers {
				if l.only != nil && !l.only(a, m.Hash) {
					continue
				}
				b := encDiscResp(m.ReqID, [4]byte(a.IP.To4()), uint16(a.Port), []uint16{0, uint16(max(0, n-1))})
				if l.lies != nil {
					if lie := l.lies(i, m.ReqID); lie != nil {
						b = lie
					}
				}
				replies = append(replies, b)
			}
			if l.extra != nil {
				replies = append(replies, l.extra(m.ReqID)...)
			}
			l.mu.Unlock()
			for _, r := range replies {
				deliver(r)
			}
		}
	}()
	return l
}

func (l *LAN) set(peers ...*net.UDPAddr) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.peers = peers
}

func (l *LAN) close() {
	l.sock.close()
	l.sock.mu.Lock()
	l.sock.in = append(l.sock.in, pkt{})
	l.sock.mu.Unlock()
	select {
	case l.sock.wake <- struct{}{}:
	default:
	}
}

// Down is a server that downloads, with its network.
type Down struct {
	c    *Ctx
	base string
	st   *Store
	srv  *flu.Server
	lan  *LAN
}

func newDown(c *Ctx) *Down {
	base := c.Dir("d")
	st, err := openStore(filepath.Join(base, "cat"), filepath.Join(base, "down"))
	must(err)
	return newDownOn(c, base, st)
}

func newDownOn(c *Ctx, base string, st *Store) *Down {
	lan := newLAN(c)
	d := &Down{c: c, base: base, st: st, lan: lan, srv: flu.NewServer(lan.port, st.Cat)}
	lan.mu.Lock()
	lan.count = func(h Hash) int {
		if rec, err := st.Cat.Contains(sha(h)); err == nil {
			return rec.Progress.Size()
		}
		return 0
	}
	lan.deliver = func(msg []byte) {
		c.Guard("panic", fmt.Sprintf("%x", msg), func() {
			d.srv.HandleMessage(msg, lan.sock.conn, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: lan.port})
		})
	}
	lan.mu.Unlock()
	return d
}

// stop lets the download routines end.
func (d *Down) stop() {
	files, _ := d.st.Cat.ListFiles()
	for i := range files {
		d.st.Cat.UnshareFile(&files[i].Sha1Hash)
	}
	d.lan.set()
}

// unverified compares every available chunk of one file with the truth. It returns the chunk that is
// listed but not there, or -1.
func (d *Down) unverified(data []byte, done map[int]bool) (int, string) {
	rec, err := d.st.Cat.Contains(sha(sum(data)))
	if err != nil {
		return -1, ""
	}
	var file []byte
	for i := 0; i < rec.Progress.Size(); i++ {
		if done[i] || !rec.Progress.Get(uint64(i)) {
			continue
		}
		if file == nil {
			if file, err = readReg(rec.FilePath); err != nil {
				// it may have been unshared meanwhile, which leaves the file alone
				return i, err.Error()
			}
		}
		if want := chunkOf(data, rec.ChunkSize, i); !bytes.Equal(chunkOf(file, rec.ChunkSize, i), want) {
			return i, firstDiff(chunkOf(file, rec.ChunkSize, i), want)
		}
		if done != nil {
			done[i] = true
		}
	}
	return -1, ""
}

// complete reports whether the download is there with exactly its bytes.
func (d *Down) complete(data []byte) (bool, string) {
	rec, err := d.st.Cat.Contains(sha(sum(data)))
	if err != nil {
		return false, err.Error()
	}
	if !rec.Progress.Full() {
		return false, fmt.Sprintf("%d of %d chunks", rec.Progress.Count(), rec.Progress.Size())
	}
	file, err := readReg(rec.FilePath)
	if err != nil {
		return false, err.Error()
	}
	if !bytes.Equal(file, data) {
		return false, "all chunks are available, but the file differs: " + firstDiff(file, data)
	}
	return true, ""
}

// delivery is what the network does with one datagram: it arrives this often, this late, like this.
type delivery struct {
	data  []byte
	after time.Duration
	hold  int // or after this many further datagrams of the same direction
}

// packetInfo describes one datagram of a flow to a fault policy.
type packetInfo struct {
	flow   int  // transfer of this chunk: 1 is the first
	chunk  int  // requested chunk, or -1 for a file listing
	toPeer bool // from the downloader
	n      int  // number in its direction, from 0
	data   []byte
}

// Proxy is the network between a downloader and one peer. Every socket of the downloader is a flow.
type Proxy struct {
	c       *Ctx
	conn    *net.UDPConn
	addr    *net.UDPAddr
	backend *net.UDPAddr
	fault   func(p packetInfo) []delivery // nil: deliver

	mu    sync.Mutex
	flows map[string]*flow
	tries map[int]int // transfers by chunk
	opens []openSeen
	stats struct{ seen, faulted int }
}

type openSeen struct {
	chunk int
	hash  Hash
	at    time.Time
}

type flow struct {
	back        *net.UDPConn
	client      *net.UDPAddr
	n           [2]int
	held        [2][]heldPacket
	chunk, this int
}

type heldPacket struct {
	data []byte
	left int
}

func newProxy(c *Ctx, backend *net.UDPAddr, ip string) *Proxy {
	p := &Proxy{c: c, conn: listenUDP("udp4", ip, 0), backend: backend, flows: map[string]*flow{}, tries: map[int]int{}}
	p.addr = p.conn.LocalAddr().(*net.UDPAddr)
	go func() {
		for {
			buf := make([]byte, 65536)
			n, from, err := p.conn.ReadFromUDP(buf)
			if err != nil {
				return
			}
			p.fromClient(buf[:n], from)
		}
	}()
	return p
}

func (p *Proxy) fromClient(data []byte, from *net.UDPAddr) {
	p.mu.Lock()
	f := p.flows[from.String()]
	if f == nil {
		back, err := net.DialUDP("udp4", nil, p.backend)
		must(err)
		back.SetReadBuffer(sockBuffer)
		f = &flow{back: back, client: from, chunk: -1}
		p.flows[from.String()] = f
		if m, err := wParse(data); err == nil && m.Type == tOpen {
			f.chunk = int(m.Chunk)
			p.tries[f.chunk]++
			f.this = p.tries[f.chunk]
			p.opens = append(p.opens, openSeen{f.chunk, m.Hash, time.Now()})
		}
		go func() {
			for {
				buf := make([]byte, 65536)
				back.SetReadDeadline(time.Now().Add(12 * time.Second))
				n, err := back.Read(buf)
				if err != nil {
					if ne, ok := err.(net.Error); ok && ne.Timeout() {
						break // the flow is over
					}
					if n == 0 && !isClosed(err) {
						continue // e.g. connection refused
					}
					break
				}
				p.pass(f, buf[:n], false)
			}
			back.Close()
			p.mu.Lock()
			if p.flows[from.String()] == f {
				delete(p.flows, from.String())
			}
			p.mu.Unlock()
		}()
	}
	p.mu.Unlock()
	p.pass(f, data, true)
}

func isClosed(err error) bool {
	return err != nil && (bytes.Contains([]byte(err.Error()), []byte("closed")))
}

func (p *Proxy) pass(f *flow, data []byte, toPeer bool) {
	dir := 0
	if toPeer {
		dir = 1
	}
	send := func(b []byte) {
		if toPeer {
			f.back.Write(b)
		} else {
			p.conn.WriteToUDP(b, f.client)
		}
	}
	p.mu.Lock()
	info := packetInfo{flow: f.this, chunk: f.chunk, toPeer: toPeer, n: f.n[dir], data: data}
	f.n[dir]++
	p.stats.seen++
	out := []delivery{{data: data}}
	if p.fault != nil {
		if d := p.fault(info); d != nil {
			out = d
			p.stats.faulted++
		}
	}
	var now [][]byte
	for _, d := range out {
		switch {
		case d.data == nil:
		case d.after > 0:
			time.AfterFunc(d.after, func() { send(d.data) })
		case d.hold > 0:
			f.held[dir] = append(f.held[dir], heldPacket{d.data, d.hold + 1})
		default:
			now = append(now, d.data)
		}
	}
	var keep []heldPacket
	for _, h := range f.held[dir] {
		if h.left--; h.left <= 0 {
			now = append(now, h.data)
		} else {
			keep = append(keep, h)
		}
	}
	f.held[dir] = keep
	p.mu.Unlock()
	for _, b := range now {
		send(b)
	}
}

func (p *Proxy) setFault(f func(p packetInfo) []delivery) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.fault = f
}

// opensSince returns the transfer requests seen after a moment.
func (p *Proxy) opensSince(t time.Time) []openSeen {
	p.mu.Lock()
	defer p.mu.Unlock()
	var l []openSeen
	for _, o := range p.opens {
		if o.at.After(t) {
			l = append(l, o)
		}
	}
	return l
}

func (p *Proxy) close() {
	p.conn.Close()
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, f := range p.flows {
		f.back.Close()
	}
}

// Peer is a scripted host.
type Peer struct {
	sock   *sock
	onDisc func(p *Peer, from *net.UDPAddr, m wMsg)
	onList func(p *Peer, from *net.UDPAddr, m wMsg)
	onOpen func(p *Peer, from *net.UDPAddr, m wMsg)
	onAck  func(p *Peer, from *net.UDPAddr, m wMsg)
	mu     sync.Mutex
	opens  []openSeen
	lists  atomic.Int64
}

func newPeer(ip string) *Peer { return newPeerOn(newSock(ip, 0)) }

func newPeerOn(s *sock) *Peer {
	p := &Peer{sock: s}
	go func() {
		for {
			k, ok := p.sock.next(time.Hour)
			if !ok || k.data == nil {
				return
			}
			m, err := wParse(k.data)
			if err != nil {
				continue
			}
			switch {
			case m.Type == tDiscReq && p.onDisc != nil:
				p.onDisc(p, k.from, m)
			case m.Type == tListReq:
				p.lists.Add(1)
				if p.onList != nil {
					p.onList(p, k.from, m)
				}
			case m.Type == tOpen:
				p.mu.Lock()
				p.opens = append(p.opens, openSeen{int(m.Chunk), m.Hash, time.Now()})
				p.mu.Unlock()
				if p.onOpen != nil {
					p.onOpen(p, k.from, m)
				}
			case m.Type == tAck && p.onAck != nil:
				p.onAck(p, k.from, m)
			}
		}
	}()
	return p
}

func (p *Peer) close() {
	p.sock.close()
	p.sock.mu.Lock()
	p.sock.in = append(p.sock.in, pkt{})
	p.sock.mu.Unlock()
	select {
	case p.sock.wake <- struct{}{}:
	default:
	}
}

func (p *Peer) requested() []openSeen {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]openSeen{}, p.opens...)
}

// serve makes the peer an honest sender of data under the given hash, which need not be its own.
func (p *Peer) serve(hash Hash, data []byte, chunk int, name string) {
	chunkCounts.put(hash, chunkCount(int64(len(data)), chunk))
	p.onList = func(p *Peer, from *net.UDPAddr, m wMsg) {
		n := uint32(chunkCount(int64(len(data)), chunk))
		p.sock.send(from, encListResp(m.ReqID, []wFile{{Size: uint64(len(data)), Count: n, ChunkSize: uint32(chunk), Downloaded: n, Hash: hash, Name: name}}))
	}
	var mu sync.Mutex
	rest := map[string][][]byte{}
	p.onOpen = func(p *Peer, from *net.UDPAddr, m wMsg) {
		if m.Hash != hash {
			return
		}
		pk := chunkPackets(chunkOf(data, chunk, int(m.Chunk)))
		mu.Lock()
		rest[from.String()] = pk[1:]
		mu.Unlock()
		p.sock.send(from, pk[0])
	}
	p.onAck = func(p *Peer, from *net.UDPAddr, m wMsg) {
		mu.Lock()
		r := rest[from.String()]
		delete(rest, from.String())
		mu.Unlock()
		for _, b := range r {
			p.sock.send(from, b)
		}
	}
}

// chunkPackets returns all packets of a transfer.
func chunkPackets(chunk []byte) [][]byte {
	first := min(1000, len(chunk))
	out := [][]byte{encOpening(sum(chunk), uint32(len(chunk)), chunk[:first])}
	for off := first; off < len(chunk); off += 1024 {
		out = append(out, encData(uint32(off), chunk[off:min(len(chunk), off+1024)]))
	}
	return append(out, encData(uint32(len(chunk)), nil))
}
