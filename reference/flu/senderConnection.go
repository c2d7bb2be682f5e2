package flu

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/flu-network/client/common"
	"github.com/flu-network/client/flu/messages"
)

type SenderConnection struct {
	reader     *common.ChunkReader
	windowSize uint16
	windowCap  uint16
	conn       *net.UDPConn
	addr       *net.UDPAddr
	packetChan chan messages.DataPacketAck
	finished   bool // the end marker has been sent

	cancelChan  chan struct{} // closed when the connection is terminated
	cancelOnce  sync.Once
	onTerminate func()
}

// senderIdleTimeout is how long a connection survives without acks. It exceeds the time after which
// the receiver gives up.
const senderIdleTimeout = 6 * time.Second

func NewSenderConnection(reader *common.ChunkReader,
	windowCap uint16,
	conn *net.UDPConn,
	addr *net.UDPAddr,
) *SenderConnection {
	return &SenderConnection{
		reader:     reader,
		windowSize: 0,
		windowCap:  windowCap,
		conn:       conn,
		addr:       addr,
		packetChan: make(chan messages.DataPacketAck, windowCap),
		cancelChan: make(chan struct{}),
	}
}

// kickstart sends a message to the client telling it about the data to expect so it can set up
// its own connection harnessing. It spawns a 'worker' routine to handle this connection. The main
// routine then sends acks to the worker via the SenderConnection's packetChan.
func (sc *SenderConnection) kickstart(
	hash *common.Sha1Hash,
	size int64,
) error {
	started := false
	defer func() {
		if !started { // there is no worker to do it
			sc.terminate()
			sc.reader.Close()
		}
	}()

	sc.reader.Reset()

	firstPacket := messages.DataPacket{
		Offset: 0,
		Data:   make([]byte, 1024),
	}

	copy(firstPacket.Data[:20], hash.Slice())
	binary.BigEndian.PutUint32(firstPacket.Data[20:24], uint32(size))

	actualDataSpace := firstPacket.Data[24:]
	byteCount, _, err := sc.reader.Read(actualDataSpace)

	if err != nil && err != io.EOF {
		// EOF is fine because the goroutine handling the error will exit when it tries to read
		// again and gets its own EOF with 0 bytes of data
		return err
	}

	firstPacket.Data = firstPacket.Data[:24+byteCount]

	_, err = sc.conn.WriteTo(firstPacket.Serialize(), sc.addr)
	if err != nil {
		return err
	}

	sc.windowSize++

	started = true
	go func() {
		defer sc.reader.Close()
		defer sc.terminate()

		idle := false
		ticker := time.NewTicker(senderIdleTimeout)
		defer ticker.Stop()

		for {
			select {
			case ack := <-sc.packetChan:
				idle = false
				err := sc.kick(ack)
				if err != nil {
					fmt.Printf("Upload to %v failed: %v\n", sc.addr, err)
					return
				}
				if sc.finished && sc.windowSize <= 1 {
					return // only the end marker is unacked, and nobody acks that
				}
			case <-ticker.C:
				if idle {
					return
				}
				idle = true
			case <-sc.cancelChan:
				return
			}
		}
	}()

	return nil
}

// terminate makes the worker routine exit. It may be called repeatedly and from any routine.
func (sc *SenderConnection) terminate() {
	sc.cancelOnce.Do(func() {
		close(sc.cancelChan)
		if sc.onTerminate != nil {
			sc.onTerminate()
		}
	})
}

// kick receives an ack from the client and responds accordingly. Passed by value because acks are
// << 64 bits
func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
	if sc.windowSize > 0 { // the network can duplicate acks
		sc.windowSize--
	}

	packet := messages.DataPacket{Offset: 0, Data: nil}
	packetBuffer := make([]byte, 1024)

	for !sc.finished && sc.windowSize < sc.windowCap {

		byteCount, offset, err := sc.reader.Read(packetBuffer)

		if err == io.EOF {
			sc.finished = byteCount == 0 // make this the last message: an empty one
		} else if err != nil {
			return err
		}

		packet.Data = packetBuffer[:byteCount] // clip to number of bytes read
		packet.Offset = offset

		_, err = sc.conn.WriteTo(packet.Serialize(), sc.addr)
		if err != nil {
			return err
		}

		sc.windowSize++
	}

	return nil
}
