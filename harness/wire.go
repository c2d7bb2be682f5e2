package main

import (
	"encoding/binary"
	"fmt"
)

// The wire format, written down independently of the code under test. The fake peers and the oracles
// use only this.

const (
	tDiscReq  = 0
	tDiscResp = 1
	tListReq  = 2
	tListResp = 3
	tOpen     = 4
	tData     = 5
	tAck      = 6
)

type Hash [20]byte

var blankHash = Hash{255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255}

func (h Hash) String() string { return fmt.Sprintf("%x", h[:]) }

type wMsg struct {
	Type     int
	ReqID    uint16
	Hash     Hash
	Chunks   []uint16
	Addr     [4]byte
	Port     uint16
	Files    []wFile
	Chunk    uint16
	Cap      uint16
	Offset   uint32
	Consumed int
}

type wFile struct {
	Size       uint64
	Count      uint32
	ChunkSize  uint32
	Downloaded uint32
	Hash       Hash
	Name       string
}

func be16(v uint16) []byte { return binary.BigEndian.AppendUint16(nil, v) }
func be32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }
func be64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

func cat(parts ...[]byte) []byte {
	var result []byte
	for _, p := range parts {
		result = append(result, p...)
	}
	return result
}

func encChunks(chunks []uint16) []byte {
	result := []byte{byte(len(chunks))}
	for _, c := range chunks {
		result = append(result, be16(c)...)
	}
	return result
}

func encDiscReq(id uint16, h Hash, chunks []uint16) []byte {
	return cat([]byte{tDiscReq}, be16(id), h[:], encChunks(chunks))
}
func encDiscResp(id uint16, addr [4]byte, port uint16, chunks []uint16) []byte {
	return cat([]byte{tDiscResp}, be16(id), addr[:], be16(port), encChunks(chunks))
}
func encListReq(id uint16, h Hash) []byte { return cat([]byte{tListReq}, be16(id), h[:]) }
func encFile(f wFile) []byte {
	return cat(be64(f.Size), be32(f.Count), be32(f.ChunkSize), be32(f.Downloaded), f.Hash[:], []byte{byte(len(f.Name))}, []byte(f.Name))
}
func encListResp(id uint16, files []wFile) []byte {
	b := cat([]byte{tListResp}, be16(id), be16(uint16(len(files))))
	for _, f := range files {
		b = append(b, encFile(f)...)
	}
	return b
}
func encOpen(h Hash, chunk, cap uint16) []byte {
	return cat([]byte{tOpen}, h[:], be16(chunk), be16(cap), make([]byte, 7))
}
func encAck(off uint32) []byte               { return cat([]byte{tAck}, be32(off)) }
func encData(off uint32, data []byte) []byte { return cat([]byte{tData}, be32(off), data) }

// encOpening is the first data packet of a transfer.
func encOpening(h Hash, size uint32, data []byte) []byte {
	return encData(0, cat(h[:], be32(size), data))
}

// wParse is the reference decoder. An error means that the message is incomplete or of unknown type.
func wParse(b []byte) (m wMsg, err error) {
	pos := 0
	take := func(n int) []byte {
		if err != nil || len(b)-pos < n {
			err = fmt.Errorf("truncated")
			return make([]byte, n)
		}
		pos += n
		return b[pos-n : pos]
	}
	u8 := func() int { return int(take(1)[0]) }
	u16 := func() uint16 { return binary.BigEndian.Uint16(take(2)) }
	u32 := func() uint32 { return binary.BigEndian.Uint32(take(4)) }
	u64 := func() uint64 { return binary.BigEndian.Uint64(take(8)) }
	hash := func() (h Hash) { copy(h[:], take(20)); return }
	list := func() (l []uint16) {
		n := u8()
		for i := 0; i < n && err == nil; i++ {
			l = append(l, u16())
		}
		return
	}
	m.Type = u8()
	switch m.Type {
	case tDiscReq:
		m.ReqID, m.Hash, m.Chunks = u16(), hash(), list()
	case tDiscResp:
		m.ReqID = u16()
		copy(m.Addr[:], take(4))
		m.Port, m.Chunks = u16(), list()
	case tListReq:
		m.ReqID, m.Hash = u16(), hash()
	case tListResp:
		m.ReqID = u16()
		n := int(u16())
		for i := 0; i < n && err == nil; i++ {
			f := wFile{Size: u64(), Count: u32(), ChunkSize: u32(), Downloaded: u32(), Hash: hash()}
			f.Name = string(take(u8()))
			m.Files = append(m.Files, f)
		}
	case tOpen:
		m.Hash, m.Chunk, m.Cap = hash(), u16(), u16()
	case tAck:
		m.Offset = u32()
	default:
		if err == nil {
			err = fmt.Errorf("unknown type %d", m.Type)
		}
	}
	m.Consumed = pos
	return
}

// wData decodes a data packet.
func wData(b []byte) (off uint32, data []byte, ok bool) {
	if len(b) < 5 || b[0] != tData {
		return 0, nil, false
	}
	return binary.BigEndian.Uint32(b[1:5]), b[5:], true
}
