// Package wire is an independent rendering of the RSocket frame layout, used
// as the oracle for the frames package. It shares no code with it.
package wire

import (
	"fmt"
)

// Kind is the frame type number.
type Kind int

const (
	RequestResponse Kind = 4
	RequestFNF      Kind = 5
	RequestStream   Kind = 6
	RequestChannel  Kind = 7
	RequestN        Kind = 8
	Cancel          Kind = 9
	Payload         Kind = 10
	Error           Kind = 11
)

// Kinds lists every supported kind.
var Kinds = []Kind{4, 5, 6, 7, 8, 9, 10, 11}

func (k Kind) String() string {
	return map[Kind]string{4: "RR", 5: "FNF", 6: "STREAM", 7: "CHANNEL", 8: "REQUEST_N", 9: "CANCEL", 10: "PAYLOAD", 11: "ERROR"}[k]
}

// Frame is any frame.
type Frame struct {
	Kind     Kind
	ID       uint32
	N        uint32 // initial request n / request n
	Code     uint32
	Metadata []byte
	Data     []byte
	Follows  bool
	Complete bool
	Next     bool
}

const (
	bitIgnore   = 0x200
	bitMetadata = 0x100
	bitFollows  = 0x080
	bitComplete = 0x040
	bitNext     = 0x020
)

func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// U24 renders a 24-bit length.
func U24(v int) []byte { return []byte{byte(v >> 16), byte(v >> 8), byte(v)} }

// HasN tells whether the kind carries an initial request count.
func (k Kind) HasN() bool { return k == RequestStream || k == RequestChannel }

// IsRequest tells whether the kind opens a stream.
func (k Kind) IsRequest() bool { return k >= RequestResponse && k <= RequestChannel }

// Encode renders the frame.
func Encode(f Frame) []byte {
	flags := 0
	if len(f.Metadata) > 0 && (f.Kind.IsRequest() || f.Kind == Payload) {
		flags |= bitMetadata
	}
	switch {
	case f.Kind == Payload:
		if f.Follows {
			flags |= bitFollows
		}
		if f.Complete {
			flags |= bitComplete
		}
		if f.Next {
			flags |= bitNext
		}
	case f.Kind.IsRequest():
		if f.Follows {
			flags |= bitFollows
		}
		if f.Kind == RequestChannel && f.Complete {
			flags |= bitComplete
		}
	}
	t := int(f.Kind)<<10 | flags
	out := append(be32(f.ID), byte(t>>8), byte(t))
	switch f.Kind {
	case RequestN:
		return append(out, be32(f.N)...)
	case Cancel:
		return out
	case Error:
		out = append(out, be32(f.Code)...)
		return append(out, f.Data...)
	}
	if f.Kind.HasN() {
		out = append(out, be32(f.N)...)
	}
	if flags&bitMetadata != 0 {
		out = append(out, U24(len(f.Metadata))...)
		out = append(out, f.Metadata...)
	}
	return append(out, f.Data...)
}

// Decode parses one frame; ok is false when the bytes are not a well-formed
// frame of a supported kind.
func Decode(b []byte) (f Frame, ok bool) {
	if len(b) < 6 {
		return f, false
	}
	f.ID = (uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])) &^ (1 << 31)
	t := int(b[4])<<8 | int(b[5])
	f.Kind = Kind(t >> 10)
	flags := t & 0x3ff
	b = b[6:]
	u32 := func() (v uint32, ok bool) {
		if len(b) < 4 {
			return 0, false
		}
		v = uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
		b = b[4:]
		return v, true
	}
	switch f.Kind {
	case RequestN:
		f.N, ok = u32()
		return f, ok
	case Cancel:
		return f, true
	case Error:
		if f.Code, ok = u32(); !ok {
			return f, false
		}
		f.Data = b
		return f, true
	case Payload, RequestResponse, RequestFNF, RequestStream, RequestChannel:
	default:
		return f, false
	}
	f.Follows = flags&bitFollows != 0
	switch f.Kind {
	case Payload:
		f.Complete = flags&bitComplete != 0
		f.Next = flags&bitNext != 0
	case RequestChannel:
		f.Complete = flags&bitComplete != 0
	default:
		f.Complete = true
	}
	f.N = 1
	if f.Kind.HasN() {
		if f.N, ok = u32(); !ok {
			return f, false
		}
	}
	if flags&bitMetadata != 0 {
		if len(b) < 3 {
			return f, false
		}
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		b = b[3:]
		if len(b) < n {
			return f, false
		}
		f.Metadata = b[:n]
		b = b[n:]
	}
	f.Data = b
	return f, true
}

// Same compares two frames, treating absent and empty byte fields alike.
func Same(a, b Frame) bool {
	if a.Kind == Payload {
		a.N, b.N = 0, 0
	}
	return a.Kind == b.Kind && a.ID == b.ID && a.N == b.N && a.Code == b.Code && string(a.Metadata) == string(b.Metadata) &&
		string(a.Data) == string(b.Data) && a.Follows == b.Follows && a.Complete == b.Complete && a.Next == b.Next
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%q...(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func (f Frame) String() string {
	s := fmt.Sprintf("%v#%d", f.Kind, f.ID)
	if f.Kind.HasN() || f.Kind == RequestN {
		s += fmt.Sprintf(" n=%d", f.N)
	}
	if f.Kind == Error {
		s += fmt.Sprintf(" code=%d", f.Code)
	}
	if len(f.Metadata) > 0 {
		s += " md=" + short(f.Metadata)
	}
	if len(f.Data) > 0 {
		s += " data=" + short(f.Data)
	}
	if f.Next {
		s += " NEXT"
	}
	if f.Complete && !(f.Kind.IsRequest() && f.Kind != RequestChannel) {
		s += " COMPLETE"
	}
	if f.Follows {
		s += " FOLLOWS"
	}
	return s
}

// Bytes makes n recognisable bytes.
func Bytes(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}
