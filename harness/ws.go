package main

import (
	"bufio"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
)

// An independent, minimal websocket implementation (RFC 6455), for raw peers and for looking at what is on the wire.

const (
	opCont  = 0
	opText  = 1
	opBin   = 2
	opClose = 8
	opPing  = 9
	opPong  = 10
)

type wsFrame struct {
	fin     bool
	rsv     byte
	op      byte
	masked  bool
	key     [4]byte
	payload []byte
	hdrLen  int // how the length was encoded: 0, 2 or 8 more bytes
}

func (f wsFrame) String() string {
	return fmt.Sprintf("fin=%v rsv=%d op=%d masked=%v len=%d %q", f.fin, f.rsv, f.op, f.masked, len(f.payload), clip(string(f.payload), 40))
}

// enc encodes the frame, claim is the length in its header (-1 for the real one).
func (f wsFrame) enc(claim int64) []byte {
	n := int64(len(f.payload))
	if claim >= 0 {
		n = claim
	}
	var b []byte
	b0 := f.op | f.rsv<<4
	if f.fin {
		b0 |= 0x80
	}
	b1 := byte(0)
	if f.masked {
		b1 = 0x80
	}
	switch {
	case n < 126:
		b = []byte{b0, b1 | byte(n)}
	case n < 65536:
		b = []byte{b0, b1 | 126, byte(n >> 8), byte(n)}
	default:
		b = append([]byte{b0, b1 | 127}, make([]byte, 8)...)
		binary.BigEndian.PutUint64(b[2:], uint64(n))
	}
	if f.masked {
		b = append(b, f.key[:]...)
		for i, c := range f.payload {
			b = append(b, c^f.key[i%4])
		}
		return b
	}
	return append(b, f.payload...)
}

// readWS reads the next frame, strictly.
func readWS(r *bufio.Reader) (wsFrame, error) {
	var f wsFrame
	var h [2]byte
	if _, err := io.ReadFull(r, h[:1]); err != nil {
		return f, err // io.EOF: at a frame's boundary.
	}
	if _, err := io.ReadFull(r, h[1:]); err != nil {
		return f, errTruncated
	}
	f.fin = h[0]&0x80 != 0
	f.rsv = h[0] >> 4 & 7
	f.op = h[0] & 15
	f.masked = h[1]&0x80 != 0
	n := uint64(h[1] & 127)
	switch n {
	case 126:
		var b [2]byte
		if _, err := io.ReadFull(r, b[:]); err != nil {
			return f, errTruncated
		}
		n = uint64(binary.BigEndian.Uint16(b[:]))
		f.hdrLen = 2
		if n < 126 {
			return f, fmt.Errorf("length %d is not minimally encoded", n)
		}
	case 127:
		var b [8]byte
		if _, err := io.ReadFull(r, b[:]); err != nil {
			return f, errTruncated
		}
		n = binary.BigEndian.Uint64(b[:])
		f.hdrLen = 8
		if n < 65536 || n>>63 != 0 {
			return f, fmt.Errorf("length %d is not minimally encoded", n)
		}
	}
	if n > 64<<20 {
		return f, fmt.Errorf("a frame of %d bytes", n)
	}
	if f.masked {
		if _, err := io.ReadFull(r, f.key[:]); err != nil {
			return f, errTruncated
		}
	}
	f.payload = make([]byte, n)
	if _, err := io.ReadFull(r, f.payload); err != nil {
		return f, errTruncated
	}
	if f.masked {
		for i := range f.payload {
			f.payload[i] ^= f.key[i%4]
		}
	}
	return f, nil
}

var errTruncated = errors.New("truncated frame")

// wsProtocolError checks the frame against the protocol, except of its sequence.
func wsProtocolError(f wsFrame, fromClient bool) string {
	switch {
	case f.rsv != 0:
		return "reserved bits"
	case f.op > 2 && f.op < 8 || f.op > 10:
		return "reserved opcode"
	case f.masked != fromClient:
		return "wrong masking"
	case f.op >= 8 && (!f.fin || len(f.payload) > 125):
		return "bad control frame"
	case f.op == opClose && len(f.payload) == 1:
		return "bad close payload"
	}
	return ""
}

// wsDial does the client's handshake over the network, with the extra bytes sent along with it.
func wsDial(rawurl string, extra []byte) (net.Conn, *bufio.Reader, error) {
	u, err := url.Parse(rawurl)
	if err != nil {
		return nil, nil, err
	}
	c, err := net.Dial("tcp", u.Host)
	if err != nil {
		return nil, nil, err
	}
	req := "GET " + u.RequestURI() + " HTTP/1.1\r\nHost: " + u.Host + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n"
	if _, err := c.Write(append([]byte(req), extra...)); err != nil {
		c.Close()
		return nil, nil, err
	}
	br := bufio.NewReader(c)
	resp, err := http.ReadResponse(br, nil)
	if err != nil {
		c.Close()
		return nil, nil, err
	}
	if resp.StatusCode != 101 {
		c.Close()
		return nil, nil, fmt.Errorf("status %d", resp.StatusCode)
	}
	return c, br, nil
}

// wsAccept does the server's handshake, with the extra bytes sent along with it.
func wsAccept(c net.Conn, extra []byte) (*bufio.Reader, *http.Request, error) {
	br := bufio.NewReader(c)
	req, err := http.ReadRequest(br)
	if err != nil {
		return nil, nil, err
	}
	h := sha1.Sum([]byte(req.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	resp := "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + base64.StdEncoding.EncodeToString(h[:]) + "\r\n\r\n"
	_, err = c.Write(append([]byte(resp), extra...))
	return br, req, err
}

// httpURL is the URL of a plain request.
func httpURL(u string) string { return strings.Replace(u, "ws://", "http://", 1) }
