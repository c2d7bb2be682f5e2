package main

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/flu-network/client/flu"
)

// sock is a UDP socket of the harness with an unbounded receive queue.
type sock struct {
	conn *net.UDPConn
	addr *net.UDPAddr
	mu   sync.Mutex
	in   []pkt
	wake chan struct{}
	got  atomic.Int64
	sent atomic.Int64
}

type pkt struct {
	data []byte
	from *net.UDPAddr
	at   time.Time
}

const sockBuffer = 4 << 20

// listenUDP retries: the port may have been taken by an ephemeral socket for a moment.
func listenUDP(network, ip string, port int) *net.UDPConn {
	addr := &net.UDPAddr{Port: port}
	if ip != "" {
		addr.IP = net.ParseIP(ip)
	}
	var err error
	for i := 0; i < 200; i++ {
		var conn *net.UDPConn
		if conn, err = net.ListenUDP(network, addr); err == nil {
			conn.SetReadBuffer(sockBuffer)
			return conn
		}
		time.Sleep(20 * time.Millisecond)
	}
	panic(err)
}

// newSock opens a socket. Port 0 picks one.
func newSock(ip string, port int) *sock { return newSockOn(listenUDP("udp4", ip, port)) }

func newSockOn(conn *net.UDPConn) *sock {
	s := &sock{conn: conn, wake: make(chan struct{}, 1)}
	s.addr = s.conn.LocalAddr().(*net.UDPAddr)
	go func() {
		for {
			buf := make([]byte, 65536)
			n, from, err := s.conn.ReadFromUDP(buf)
			if err != nil {
				return
			}
			p := pkt{append([]byte{}, buf[:n]...), from, time.Now()}
			s.mu.Lock()
			s.in = append(s.in, p)
			s.mu.Unlock()
			s.got.Add(1)
			select {
			case s.wake <- struct{}{}:
			default:
			}
		}
	}()
	return s
}

func (s *sock) close() { s.conn.Close() }

// next returns the next datagram, if one arrives in time.
func (s *sock) next(timeout time.Duration) (pkt, bool) {
	var t <-chan time.Time
	for {
		s.mu.Lock()
		if len(s.in) > 0 {
			p := s.in[0]
			s.in = s.in[1:]
			s.mu.Unlock()
			return p, true
		}
		s.mu.Unlock()
		if timeout <= 0 {
			return pkt{}, false
		}
		if t == nil {
			t = time.After(timeout)
		}
		select {
		case <-s.wake:
		case <-t:
			timeout = 0
		}
	}
}

func (s *sock) send(to *net.UDPAddr, b []byte) {
	s.sent.Add(1)
	s.conn.WriteToUDP(b, to)
}

// drops returns how many datagrams the kernel has dropped for lack of space.
func drops(conn *net.UDPConn) int64 {
	raw, err := conn.SyscallConn()
	if err != nil {
		return -1
	}
	var mem [9]uint32
	size := uint32(unsafe.Sizeof(mem))
	raw.Control(func(fd uintptr) {
		const soMeminfo = 55
		syscall.Syscall6(syscall.SYS_GETSOCKOPT, fd, syscall.SOL_SOCKET, soMeminfo, uintptr(unsafe.Pointer(&mem)), uintptr(unsafe.Pointer(&size)), 0)
	})
	return int64(mem[8])
}

// Host is a server of the code under test with the daemon's UDP loop around it.
type Host struct {
	c       *Ctx
	st      *Store
	srv     *flu.Server
	conn    *net.UDPConn
	addr    *net.UDPAddr // where the harness reaches it
	handled atomic.Int64
	errors  atomic.Int64
	onError func(msg []byte, from *net.UDPAddr, err error)
	busy    sync.WaitGroup
	mu      sync.Mutex
	from    map[string]int // handled datagrams by sender
	as      int            // the port it believes to have
}

// restart replaces the server, as if the daemon had been started again.
func (h *Host) restart(st *Store) {
	h.busy.Wait()
	h.mu.Lock()
	defer h.mu.Unlock()
	h.st, h.srv = st, flu.NewServer(h.as, st.Cat)
}

func (h *Host) server() *flu.Server {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.srv
}

// newHost starts a server for a catalogue. It receives like the daemon does, on all addresses.
func newHost(c *Ctx, st *Store, port int) *Host { return newHostAs(c, st, port, 0) }

// newHostAs also tells it that it has another port than it listens on, if as is not 0.
func newHostAs(c *Ctx, st *Store, port, as int) *Host {
	conn := listenUDP("udp", "", port)
	port = conn.LocalAddr().(*net.UDPAddr).Port
	if as == 0 {
		as = port
	}
	h := &Host{c: c, st: st, conn: conn, srv: flu.NewServer(as, st.Cat), as: as, from: map[string]int{}, addr: &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}}
	go func() {
		for {
			buffer := make([]byte, 1024)
			n, from, err := conn.ReadFromUDP(buffer)
			if err != nil {
				return
			}
			h.busy.Add(1)
			go func() {
				defer h.busy.Done()
				c.Guard("panic", fmt.Sprintf("datagram %x from %v", buffer[:n], from), func() {
					err := h.server().HandleMessage(buffer[:n], conn, from)
					h.handled.Add(1)
					h.mu.Lock()
					h.from[from.String()]++
					h.mu.Unlock()
					if err != nil {
						h.errors.Add(1)
						if h.onError != nil {
							h.onError(buffer[:n], from, err)
						}
					}
				})
			}()
		}
	}()
	return h
}

func (h *Host) close() { h.conn.Close() }

// handledFrom returns how many datagrams of a socket have been handled completely.
func (h *Host) handledFrom(s *sock) int {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.from[s.addr.String()]
}

// handle delivers a datagram directly and returns what the server says to it.
func (h *Host) handle(b []byte, from *net.UDPAddr) error {
	return h.server().HandleMessage(b, h.conn, &net.UDPAddr{IP: from.IP, Port: from.Port})
}

// ip127 returns one of many loopback addresses.
func ip127(i int) string { return fmt.Sprintf("127.%d.%d.%d", 1+i/64000%200, i/250%256, 1+i%250) }
