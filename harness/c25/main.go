// C25: UUIDs.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/nanobus/iota/go/types/uuid"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

// text is an independent rendering.
func text(u uuid.UUID) string {
	s := ""
	for i, b := range u {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			s += "-"
		}
		const d = "0123456789abcdef"
		s += string(d[b/16]) + string(d[b%16])
	}
	return s
}

func nibble(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10
	}
	return -1
}

// parse is an independent parser of the four documented forms.
func parse(s string) (u uuid.UUID, ok bool) {
	switch len(s) {
	case 45:
		if strings.ToLower(s[:9]) != "urn:uuid:" {
			return u, false
		}
		s = s[9:]
	case 38:
		if s[0] != '{' || s[37] != '}' {
			return u, false
		}
		s = s[1:37]
	case 36, 32:
	default:
		return u, false
	}
	if len(s) == 36 {
		t := ""
		for i := 0; i < 36; i++ {
			if i == 8 || i == 13 || i == 18 || i == 23 {
				if s[i] != '-' {
					return u, false
				}
				continue
			}
			t += s[i : i+1]
		}
		s = t
	}
	for i := range u {
		h, l := nibble(s[2*i]), nibble(s[2*i+1])
		if h < 0 || l < 0 {
			return u, false
		}
		u[i] = byte(h<<4 | l)
	}
	return u, true
}

func values(c *mc.Ctx) {
	pos, other := c.Choose(16), mc.Pick(c, []byte{0, 0xff, 0x5a, 0xa5})
	for v := 0; v < 256; v++ {
		c.Step()
		var u uuid.UUID
		for i := range u {
			u[i] = other + byte(i)
		}
		u[pos] = byte(v)
		if u.String() != text(u) {
			c.Failf("% x prints as %s, want %s", u[:], u.String(), text(u))
		}
		if u.URN() != "urn:uuid:"+text(u) {
			c.Failf("% x has URN %s", u[:], u.URN())
		}
		if b, err := u.MarshalText(); err != nil || string(b) != text(u) {
			c.Failf("% x marshals to text %q, %v", u[:], b, err)
		}
		b, err := u.MarshalBinary()
		if err != nil || !bytes.Equal(b, u[:]) {
			c.Failf("% x marshals to binary % x, %v", u[:], b, err)
		}
		if w, err := uuid.FromBytes(b); err != nil || w != u {
			c.Failf("% x comes back from bytes as % x, %v", u[:], w[:], err)
		}
		t := text(u)
		for _, form := range []string{t, strings.ToUpper(t), "urn:uuid:" + t, "URN:UUID:" + t, "Urn:uuId:" + strings.ToUpper(t), "{" + t + "}", "{" + strings.ToUpper(t) + "}", strings.ReplaceAll(t, "-", ""), strings.ToUpper(strings.ReplaceAll(t, "-", ""))} {
			judge(c, form)
		}
		// fields of time-based values
		tm := uint64(u[6]&0xf)<<56 | uint64(u[7])<<48 | uint64(u[4])<<40 | uint64(u[5])<<32 | uint64(u[0])<<24 | uint64(u[1])<<16 | uint64(u[2])<<8 | uint64(u[3])
		if u.Time() != uuid.Time(tm) {
			c.Failf("%s has time %d, want %d", t, u.Time(), tm)
		}
		sec, nsec := u.Time().UnixTime()
		const epoch = 12219292800 // seconds from 15 Oct 1582 to 1970
		if tm >= epoch*10000000 {
			if uint64(sec) != tm/10000000-epoch || uint64(nsec) != tm%10000000*100 {
				c.Failf("%s has unix time %d.%09d", t, sec, nsec)
			}
		}
		if u.ClockSequence() != (int(u[8])<<8|int(u[9]))&0x3fff {
			c.Failf("%s has clock sequence %d", t, u.ClockSequence())
		}
		if int(u.Version()) != int(u[6])/16 || u.Version().String() != fmt.Sprintf("VERSION_%d", u[6]/16) {
			c.Failf("%s has version %v", t, u.Version())
		}
		want := uuid.Reserved
		switch {
		case u[8] >= 0x80 && u[8] < 0xc0:
			want = uuid.RFC4122
		case u[8] >= 0xc0 && u[8] < 0xe0:
			want = uuid.Microsoft
		case u[8] >= 0xe0:
			want = uuid.Future
		}
		if u.Variant() != want {
			c.Failf("%s has variant %v, want %v", t, u.Variant(), want)
		}
		names := map[uuid.Variant]string{uuid.Invalid: "Invalid", uuid.RFC4122: "RFC4122", uuid.Reserved: "Reserved", uuid.Microsoft: "Microsoft", uuid.Future: "Future"}
		if got := u.Variant().String(); got != names[want] {
			c.Failf("%s has a variant called %q, want %q", t, got, names[want])
		}
	}
	c.State(pos, other)
}

// judge parses s in every way.
func judge(c *mc.Ctx, s string) {
	c.Step()
	want, ok := parse(s)
	check := func(how string, u uuid.UUID, err error) {
		if (err == nil) != ok {
			c.Failf("%s(%q): error %v, well formed=%v", how, s, err, ok)
		}
		if ok && u != want {
			c.Failf("%s(%q) = %s", how, s, text(u))
		}
		l := len(s)
		if err != nil && uuid.IsInvalidLengthError(err) != (l != 32 && l != 36 && l != 38 && l != 45) {
			c.Failf("%s(%q): length error=%v for %d bytes", how, s, uuid.IsInvalidLengthError(err), l)
		}
	}
	u, err := uuid.Parse(s)
	check("Parse", u, err)
	b := []byte(s)
	u, err = uuid.ParseBytes(b)
	check("ParseBytes", u, err)
	keep := uuid.UUID{1, 2, 3}
	t := keep
	err = t.UnmarshalText(b)
	check("UnmarshalText", t, err)
	if err != nil && t != keep {
		c.Failf("UnmarshalText(%q) fails and changes its target to %s", s, text(t))
	}
	if string(b) != s {
		c.Failf("parsing %q changed the input", s)
	}
	refused := func(f func() uuid.UUID) (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("%v", r)
			}
		}()
		u = f()
		return nil
	}
	if err := refused(func() uuid.UUID { return uuid.MustParse(s) }); (err == nil) != ok || ok && u != want {
		c.Failf("MustParse(%q) = %s, refused: %v", s, text(u), err)
	}
	if err := refused(func() uuid.UUID { return uuid.Must(uuid.Parse(s)) }); (err == nil) != ok || ok && u != want {
		c.Failf("Must(Parse(%q)) = %s, refused: %v", s, text(u), err)
	}
	c.State(ok, len(s))
}

func damaged(c *mc.Ctx) {
	t := "6ba7b810-9dAD-11d1-80b4-00c04fd430c8"
	form := mc.Pick(c, []string{t, "urn:uuid:" + t, "URN:uuid:" + t, "{" + t + "}", strings.ReplaceAll(t, "-", "")})
	i := c.Choose(len(form))
	for v := 0; v < 256; v++ {
		judge(c, form[:i]+string([]byte{byte(v)})+form[i+1:])
		judge(c, form[:i]+string([]byte{byte(v)})+form[i:])
	}
	judge(c, form[:i]+form[i+1:])
	for j := 0; j < len(form); j++ {
		b := []byte(form)
		b[i], b[j] = b[j], b[i]
		judge(c, string(b))
		b = []byte(form)
		b[i], b[j] = 'g', '-'
		judge(c, string(b))
	}
}

func lengths(c *mc.Ctx) {
	ch := mc.Pick(c, []string{"0", "f", "-", "{", "g", "\xff"})
	for n := 0; n <= 100; n++ {
		judge(c, strings.Repeat(ch, n))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(n + i)
		}
		u, err := uuid.FromBytes(b)
		if (err == nil) != (n == 16) || (n == 16 && !bytes.Equal(u[:], b)) {
			c.Failf("FromBytes of %d bytes: % x, %v", n, u[:], err)
		}
	}
}

// source hands out distinct bytes, in the sizes and with the failures chosen.
type source struct {
	c      *mc.Ctx
	next   int
	failAt int // number of bytes after which reading fails; <0 never
	chunk  int
	inUse  bool
}

var errSource = errors.New("no randomness")

func (s *source) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) && n < s.chunk {
		if s.failAt >= 0 && s.next >= s.failAt {
			return n, errSource
		}
		// two-byte counter, so that every UUID is recognisable
		if s.next%16 == 0 {
			p[n] = byte(s.next >> 4 >> 8)
		} else if s.next%16 == 1 {
			p[n] = byte(s.next >> 4)
		} else {
			p[n] = byte(0x11 * (s.next % 16))
		}
		s.next++
		n++
	}
	return n, nil
}

// v4 checks a random UUID made from the k-th 16 bytes of the source.
func v4(c *mc.Ctx, u uuid.UUID) int {
	k := int(u[0])<<8 | int(u[1])
	for i := 2; i < 16; i++ {
		w := byte(0x11 * i)
		if i == 6 {
			w = w&0xf | 0x40
		}
		if i == 8 {
			w = w&0x3f | 0x80
		}
		if u[i] != w {
			c.Failf("random UUID %s: byte %d is %02x, want %02x from the randomness it was given", text(u), i, u[i], w)
		}
	}
	if u.Version() != 4 || u.Variant() != uuid.RFC4122 {
		c.Failf("random UUID %s is of %v, %v", text(u), u.Version(), u.Variant())
	}
	return k
}

// random drives every history of generating UUIDs with and without the pool
// over a source that fails.
func random(c *mc.Ctx) {
	uuid.DisableRandPool()
	defer uuid.DisableRandPool()
	defer uuid.SetRand(nil)
	s := &source{c: c, failAt: mc.Pick(c, []int{-1, 0, 1, 15, 16, 17, 255, 256, 257, 271, 272, 512}), chunk: mc.Pick(c, []int{1 << 20, 1, 7, 16})}
	uuid.SetRand(s)
	seen := map[int]bool{}
	hist := ""
	for d := 0; d < mc.Bound(5, 6); d++ {
		c.Step()
		switch c.Choose(4) {
		case 0:
			hist += "pool on; "
			uuid.EnableRandPool()
		case 1:
			hist += "pool off; "
			uuid.DisableRandPool()
		case 2:
			hist += "17 UUIDs; "
			for i := 0; i < 17; i++ {
				one(c, s, seen, hist)
			}
		case 3:
			hist += "1 UUID; "
			one(c, s, seen, hist)
		}
	}
	c.State(hist, len(seen))
}

// newOne makes a UUID in one of the three ways; the others panic where the first reports an error.
func newOne(how int) (u uuid.UUID, err error) {
	defer func() {
		if r := recover(); r != nil {
			if err, _ = r.(error); err == nil {
				panic(r)
			}
		}
	}()
	switch how {
	case 1:
		return uuid.New(), nil
	case 2:
		b, ok := parse(uuid.NewString())
		if !ok {
			return u, fmt.Errorf("NewString gives no UUID")
		}
		return b, nil
	}
	return uuid.NewRandom()
}

func one(c *mc.Ctx, s *source, seen map[int]bool, hist string) {
	before := s.next
	u, err := newOne(len(seen) % 3)
	if err != nil {
		if s.failAt < 0 || s.next < s.failAt {
			c.Failf("%serror %v although the source did not fail", hist, err)
		}
		if u != (uuid.UUID{}) {
			c.Failf("%san error and the UUID %s", hist, text(u))
		}
		return
	}
	k := v4(c, u)
	if seen[k] {
		c.Failf("%sUUID %s is made from randomness used before", hist, text(u))
	}
	if k*16 >= s.next {
		c.Failf("%sUUID %s is not from the source", hist, text(u))
	}
	_ = before
	seen[k] = true
}

func concurrent(threads, each, pre int, pool bool, skip int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		uuid.DisableRandPool()
		s := &source{c: c, failAt: -1, chunk: 1 << 20}
		uuid.SetRand(s)
		defer uuid.DisableRandPool()
		defer uuid.SetRand(nil)
		if pool {
			uuid.EnableRandPool()
		}
		seen := map[int]bool{}
		for i := 0; i < skip; i++ {
			one(c, s, seen, "")
		}
		vsched.Run(c, vsched.Options{Preemptions: pre, Fine: true}, func() {
			for t := 0; t < threads; t++ {
				vsched.GoNamed(fmt.Sprintf("t%d", t), func() {
					for i := 0; i < each; i++ {
						u, err := uuid.NewRandom()
						if err != nil {
							c.Failf("error %v", err)
						}
						k := v4(c, u)
						if seen[k] {
							c.Failf("UUID %s is handed out twice", text(u))
						}
						seen[k] = true
						vsched.Logf("%s", text(u))
					}
				})
			}
			vsched.Quiesce()
			if b := vsched.Blocked(); len(b) != 0 {
				c.Failf("stuck: %v", b)
			}
			c.State(len(seen))
		})
		if pool { // The rest of the pool and the next one are still to come.
			for i := 0; i < 20; i++ {
				u, err := uuid.NewRandom()
				if err != nil {
					c.Failf("error %v", err)
				}
				k := v4(c, u)
				if seen[k] {
					c.Failf("UUID %s is handed out twice", text(u))
				}
				seen[k] = true
			}
		}
	}
}

var base = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

// clock reads the time under every history of a clock that stands still and
// jumps.
func clock(c *mc.Ctx) {
	now := base
	vsched.Clock = func() time.Time { return now }
	defer func() { vsched.Clock = nil }()
	s := &source{failAt: -1, chunk: 1 << 20, next: 16 * mc.Pick(c, []int{0, 0x3fff, 0x1234, 0xffff})}
	uuid.SetRand(s)
	defer uuid.SetRand(nil)
	start := mc.Pick(c, []int{-1, 0, 1, 0x3ffe, 0x3fff, 0x4000})
	uuid.SetClockSequence(start)
	if start >= 0 && uuid.ClockSequence() != start&0x3fff {
		c.Failf("clock sequence set to %x reads %x", start, uuid.ClockSequence())
	}
	seen := map[string]string{}
	hist := ""
	for d := 0; d < mc.Bound(6, 7); d++ {
		c.Step()
		step := mc.Pick(c, []time.Duration{0, 100, -100, 99, time.Hour})
		now = now.Add(step)
		hist += fmt.Sprintf("%v; ", step)
		t, seq, err := uuid.GetTime()
		if err != nil {
			c.Failf("%s%v", hist, err)
		}
		want := now.Unix()*10000000 + int64(now.Nanosecond())/100 + 122192928000000000
		if int64(t) != want {
			c.Failf("%sthe time is %d, want %d", hist, t, want)
		}
		if seq>>14 != 2 {
			c.Failf("%sthe clock sequence %04x lacks the variant bits", hist, seq)
		}
		if int(seq&0x3fff) != uuid.ClockSequence() {
			c.Failf("%sthe clock sequence %04x differs from the current one", hist, seq)
		}
		k := fmt.Sprint(t, seq)
		if _, dup := seen[k]; dup {
			c.Failf("%sthe same time %d and clock sequence %04x again", hist, t, seq)
		}
		seen[k] = hist
	}
	c.State(hist)
}

// clocks reads the time from several threads under a standing clock.
func clocks(c *mc.Ctx) {
	vsched.Clock = func() time.Time { return base }
	defer func() { vsched.Clock = nil }()
	uuid.SetClockSequence(7)
	uuid.SetClockSequence(8)
	seen := map[string]bool{}
	vsched.Run(c, vsched.Options{Preemptions: mc.Bound(2, 4), Fine: true}, func() {
		for t := 0; t < 2; t++ {
			vsched.GoNamed(fmt.Sprintf("t%d", t), func() {
				for i := 0; i < 2; i++ {
					t, seq, _ := uuid.GetTime()
					k := fmt.Sprint(t, seq)
					if seen[k] {
						c.Failf("two threads get the same time and clock sequence %s", k)
					}
					seen[k] = true
				}
			})
		}
		vsched.Quiesce()
		if b := vsched.Blocked(); len(b) != 0 {
			c.Failf("stuck: %v", b)
		}
		c.State(len(seen))
	})
}

func main() {
	pre := mc.Bound(2, 4)
	mc.Main(mc.Config{
		ID:     "C25",
		Rule:   "exhaustive enumeration of values, texts and damaged texts against an independent parser; all histories of generation with a failing source; all interleavings of concurrent generation and clock reads",
		Bounds: fmt.Sprintf("every byte at every position of 4 base values, 9 text forms; every single-byte replacement and insertion and every swap in 5 forms; all lengths to 100; histories of %d steps x 48 sources; 2-3 threads, <=%d preemptions; clock histories of %d steps", mc.Bound(5, 6), pre, mc.Bound(6, 7)),
		Scenarios: []mc.Scenario{
			{Name: "values", Body: values},
			{Name: "damaged text", Body: damaged},
			{Name: "lengths", Body: lengths},
			{Name: "random histories", Body: random},
			{Name: "concurrent, no pool", Body: concurrent(2, 2, pre, false, 0)},
			{Name: "concurrent, fresh pool", Body: concurrent(2, 2, pre, true, 0)},
			{Name: "concurrent, pool running out", Body: concurrent(2, 2, pre, true, 15)},
			{Name: "three threads, pool running out", Body: concurrent(3, 1, pre, true, 14)},
			{Name: "clock", Body: clock},
			{Name: "concurrent clock", Body: clocks},
		},
		Assumptions: []string{"fewer than 16384 clock readings within one clock tick", "the pool is switched on and off while nobody generates, as documented"},
	})
}
