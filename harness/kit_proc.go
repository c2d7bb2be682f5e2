package main

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"net/rpc"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

const daemonPort = 61696

var bridges = map[int]bool{}
var bridgeLock sync.Mutex

func sh(format string, args ...any) error {
	line := fmt.Sprintf(format, args...)
	out, err := exec.Command("sh", "-ec", line).CombinedOutput()
	if err != nil {
		return fmt.Errorf("%s: %v %s", line, err, out)
	}
	return nil
}

// netOf is the first half of the addresses in a lab's network: private, link-local, shared and public ones.
func netOf(lab int) string {
	nets := []string{"10.100", "192.168", "169.254", "172.31", "130.83", "100.64", "203.0", "11.0", "223.255", "1.2"}
	if lab < len(nets) {
		return nets[lab]
	}
	return fmt.Sprintf("10.%d", 100+lab)
}

// bridge makes a network that real daemons are on. The harness has its address 0.1 there.
func bridge(lab int) {
	bridgeLock.Lock()
	defer bridgeLock.Unlock()
	if !bridges[lab] {
		must(sh("ip link add br%d address 02:00:00:00:%02x:01 type bridge; ip addr add %s/16 brd + dev br%d; ip link set br%d up", lab, lab&255, bridgeIP(lab), lab, lab))
		bridges[lab] = true
	}
}

// Real is a computer on that network, with network interfaces and /tmp of its own. A real daemon can
// run on it.
type Real struct {
	c      *Ctx
	n      int
	ip     string
	dir    string // seen from the harness
	inner  string // the same directory, seen from the computer
	holder *exec.Cmd
	daemon *exec.Cmd
	dead   chan struct{}
	runs   int
	bin    string   // the client
	prefix []string // to start the daemon with
}

// newReal makes the n-th computer of a network. Some differ from others in any one byte of their addresses.
func newReal(c *Ctx, lab, n int) *Real {
	bridge(lab)
	odd := [][2]int{{0, 3}, {0, 4}, {1, 3}, {1, 1}, {1, 255}, {255, 1}, {255, 254}, {254, 254}, {3, 0}, {0, 255}, {127, 0}, {127, 1}, {0, 128}, {128, 128}}
	at := [2]int{20 + n%2, 2 + n/2}
	if n >= 2 && n-2 < len(odd) {
		at = odd[(n-2+2*lab)%len(odd)]
	}
	h := &Real{c: c, n: n, bin: "/mnt/bin/client", ip: fmt.Sprintf("%s.%d.%d", netOf(lab), at[0], at[1]), dir: c.Dir("host")}
	h.inner = strings.Replace(h.dir, filepath.Dir(c.Scratch), "/mnt", 1)
	for _, d := range []string{"home", "tmp", "work"} {
		must(os.MkdirAll(filepath.Join(h.dir, d), 0777))
	}
	script := fmt.Sprintf("mount --rbind %s /mnt && mount --bind %s/tmp /tmp && ip link set lo up && echo ready && exec sleep 100000", filepath.Dir(c.Scratch), h.dir)
	h.holder = exec.Command("unshare", "-nm", "sh", "-ec", script)
	h.holder.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := h.holder.StdoutPipe()
	must(err)
	var errBuf bytes.Buffer
	h.holder.Stderr = &errBuf
	must(h.holder.Start())
	ready := make([]byte, 16)
	if k, _ := out.Read(ready); k == 0 {
		h.holder.Wait()
		panic("cannot set up a host: " + errBuf.String())
	}
	pid := h.holder.Process.Pid
	v := fmt.Sprintf("v%dx%d", lab, n)
	must(sh("ip link add %s type veth peer name eth0 netns %d; ip link set %s master br%d up", v, pid, v, lab))
	must(sh("nsenter -t %d -n sh -ec 'ip addr add %s/16 brd + dev eth0; ip link set eth0 up; ip route add default dev eth0'", pid, h.ip))
	// packets are lost until the bridge has noticed
	c.WaitFor(10*time.Second, func() bool {
		port, _ := exec.Command("ip", "-d", "link", "show", v).Output()
		br, _ := exec.Command("ip", "link", "show", fmt.Sprintf("br%d", lab)).Output()
		return bytes.Contains(port, []byte("state forwarding")) && bytes.Contains(br, []byte("state UP"))
	})
	return h
}

func (h *Real) command(ctx context.Context, dir string, args ...string) *exec.Cmd {
	if dir == "" {
		dir = "/"
	}
	all := append([]string{"-t", fmt.Sprint(h.holder.Process.Pid), "-n", "-m", "--wdns=" + dir, "env", "HOME=" + h.inner + "/home",
		"GORACE=halt_on_error=0 log_path=/mnt/scratch/daemonrace"}, args...)
	return exec.CommandContext(ctx, "nsenter", all...)
}

// start runs the daemon and waits until it can be used.
func (h *Real) start() bool {
	h.runs++
	h.daemon = h.command(context.Background(), "", append(append([]string{}, h.prefix...), h.bin, "-d")...)
	h.daemon.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	f, err := os.Create(h.log())
	must(err)
	h.daemon.Stdout, h.daemon.Stderr = f, f
	must(h.daemon.Start()) // one that was killed left its socket behind
	f.Close()
	dead := make(chan struct{})
	h.dead = dead
	d := h.daemon
	go func() { d.Wait(); close(dead) }()
	return h.c.WaitFor(60*time.Second, func() bool {
		if !h.alive() {
			return true
		}
		if cl, err := rpc.Dial("unix", h.sock()); err == nil {
			cl.Close()
			return h.listening()
		}
		return false
	}) && h.alive()
}

// listening reports whether the daemon's UDP port is open.
func (h *Real) listening() bool {
	data, _ := os.ReadFile(fmt.Sprintf("/proc/%d/net/udp6", h.holder.Process.Pid))
	return bytes.Contains(data, []byte(fmt.Sprintf(":%04X ", daemonPort)))
}

func (h *Real) log() string  { return filepath.Join(h.dir, fmt.Sprintf("log%d", h.runs)) }
func (h *Real) sock() string { return filepath.Join(h.dir, "tmp", "flu-network.sock") }
func (h *Real) addr() *net.UDPAddr {
	return &net.UDPAddr{IP: net.ParseIP(h.ip).To4(), Port: daemonPort}
}

// path translates a path on the computer to one of the harness.
func (h *Real) path(p string) string { return strings.Replace(p, h.inner, h.dir, 1) }

func (h *Real) alive() bool {
	select {
	case <-h.dead:
		return false
	default:
		return true
	}
}

// check reports the death of the daemon.
func (h *Real) check(kase any, after string) bool {
	if h.alive() {
		return true
	}
	h.c.fail(Violation{Sig: "daemon-died", What: "the daemon died " + after + ": " + h.crash(), Case: kase, Detail: string(tail(h.log(), 12000))})
	return false
}

func (h *Real) crash() string {
	b := tail(h.log(), 1<<20)
	for _, m := range []string{"panic: ", "fatal error: "} {
		if i := bytes.Index(b, []byte(m)); i >= 0 {
			b = b[i:]
			if j := bytes.IndexByte(b, '\n'); j > 0 {
				b = b[:j]
			}
			return string(b)
		}
	}
	return string(tail(h.log(), 300))
}

func (h *Real) kill() {
	if h.daemon != nil {
		h.daemon.Process.Signal(syscall.SIGKILL)
		<-h.dead
	}
}

func (h *Real) close() {
	h.kill()
	h.holder.Process.Kill()
	h.holder.Wait()
}

// catalogue and downloads directories
func (h *Real) cat() string  { return filepath.Join(h.dir, "home", ".flu-network", "catalogue") }
func (h *Real) down() string { return filepath.Join(h.dir, "home", ".flu-network", "downloads") }

// cli runs a command. The code is -1 if it did not end in time.
func (h *Real) cli(dir string, args ...string) (out string, code int) {
	h.c.Beat()
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := h.command(ctx, dir, append([]string{h.bin}, args...)...)
	b, err := cmd.CombinedOutput()
	h.c.Beat()
	if ctx.Err() != nil {
		return string(b), -1
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return string(b), ee.ExitCode()
	}
	must(err)
	return string(b), 0
}

// call makes an RPC to the daemon. It reports false if there was no answer.
func (h *Real) call(method string, req, res any) (error, bool) {
	cl, err := rpc.Dial("unix", h.sock())
	if err != nil {
		return err, false
	}
	defer cl.Close()
	call := cl.Go("Methods."+method, req, res, make(chan *rpc.Call, 1))
	select {
	case <-call.Done:
		if call.Error != nil {
			if _, ok := call.Error.(rpc.ServerError); !ok {
				return call.Error, false // the connection broke
			}
		}
		return call.Error, true
	case <-time.After(hangTimeout):
		return fmt.Errorf("no answer within %v", hangTimeout), false
	}
}

// onBridge opens a daemon's port on a lab's network for a host that the harness plays.
func onBridge(lab int) *sock {
	bridge(lab)
	lc := net.ListenConfig{Control: func(_, _ string, raw syscall.RawConn) error {
		var err error
		raw.Control(func(fd uintptr) { err = syscall.BindToDevice(int(fd), fmt.Sprintf("br%d", lab)) })
		return err
	}}
	conn, err := lc.ListenPacket(context.Background(), "udp4", fmt.Sprintf("0.0.0.0:%d", daemonPort))
	must(err)
	return newSockOn(conn.(*net.UDPConn))
}

func bridgeIP(lab int) string { return netOf(lab) + ".0.1" }

// pid returns the process ID of the daemon: nsenter and env become it.
func (h *Real) pid() int { return h.daemon.Process.Pid }

// fds lists what the daemon has open.
func (h *Real) fds() []string {
	dir := fmt.Sprintf("/proc/%d/fd", h.pid())
	des, _ := os.ReadDir(dir)
	var l []string
	for _, de := range des {
		to, err := os.Readlink(filepath.Join(dir, de.Name()))
		if err == nil {
			l = append(l, to)
		}
	}
	return l
}
