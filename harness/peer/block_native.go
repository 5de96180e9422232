package peer

import "github.com/nanobus/iota/go/zzverif/neutral"

// BlockMono waits for the mono.
func (m Mono) BlockMono() (neutral.Payload, string, bool) {
	p, err := m.M.Block()
	if err != nil {
		return neutral.Payload{}, err.Error(), false
	}
	return in(p), "", true
}

// BlockFlux reads the flux to its end.
func (f Flux) BlockFlux(s neutral.Sub) (string, bool) {
	if err := f.F.Block(sub(s)); err != nil {
		return err.Error(), false
	}
	return "", true
}
