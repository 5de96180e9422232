package wire

import (
	"fmt"

	"github.com/nanobus/iota/go/internal/frames"
)

// ToImpl builds the implementation's frame.
func ToImpl(f Frame) frames.Frame {
	switch f.Kind {
	case RequestN:
		return &frames.RequestN{StreamID: f.ID, N: f.N}
	case Cancel:
		return &frames.Cancel{StreamID: f.ID}
	case Payload:
		return &frames.Payload{StreamID: f.ID, Metadata: f.Metadata, Data: f.Data, Follows: f.Follows, Complete: f.Complete, Next: f.Next}
	case Error:
		return &frames.Error{StreamID: f.ID, Code: frames.ErrCode(f.Code), Data: string(f.Data)}
	}
	return &frames.RequestPayload{FrameType: frames.FrameType(f.Kind), StreamID: f.ID, Metadata: f.Metadata, Data: f.Data, Follows: f.Follows, Complete: f.Complete, InitialN: f.N}
}

// FromImpl reads the implementation's frame.
func FromImpl(x frames.Frame) Frame {
	switch v := x.(type) {
	case *frames.RequestN:
		return Frame{Kind: RequestN, ID: v.StreamID, N: v.N}
	case *frames.Cancel:
		return Frame{Kind: Cancel, ID: v.StreamID}
	case *frames.Payload:
		return Frame{Kind: Payload, ID: v.StreamID, Metadata: v.Metadata, Data: v.Data, Follows: v.Follows, Complete: v.Complete, Next: v.Next}
	case *frames.Error:
		return Frame{Kind: Error, ID: v.StreamID, Code: uint32(v.Code), Data: []byte(v.Data)}
	case *frames.RequestPayload:
		return Frame{Kind: Kind(v.FrameType), ID: v.StreamID, Metadata: v.Metadata, Data: v.Data, Follows: v.Follows, Complete: v.Complete, N: v.InitialN}
	}
	panic(fmt.Sprintf("unknown frame %T", x))
}

// ImplEncode runs the implementation's encoder.
func ImplEncode(x frames.Frame) []byte {
	b := make([]byte, x.Size())
	x.Encode(b)
	return b
}

// ImplDecode runs the implementation's decoder on one frame's bytes.
func ImplDecode(b []byte) (frames.Frame, error) {
	h := frames.ParseFrameHeader(b)
	rest := b[frames.FrameHeaderLen:]
	switch h.Type() {
	case frames.FrameTypeRequestN:
		var f frames.RequestN
		return &f, f.Decode(&h, rest)
	case frames.FrameTypeCancel:
		var f frames.Cancel
		return &f, f.Decode(&h, rest)
	case frames.FrameTypePayload:
		var f frames.Payload
		return &f, f.Decode(&h, rest)
	case frames.FrameTypeError:
		var f frames.Error
		return &f, f.Decode(&h, rest)
	case frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
		var f frames.RequestPayload
		return &f, f.Decode(&h, rest)
	}
	return nil, fmt.Errorf("kind %d", h.Type())
}
