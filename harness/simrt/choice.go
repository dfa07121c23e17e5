// Package simrt is the simulator's runtime: it owns every choice of a run.
//
// A run is decided by one 64-bit seed.  Every choice belongs to a named
// stream and has an index in it; its value in search mode is a hash of (seed,
// stream, index), and in replay mode the value recorded in a trace, or 0,
// where 0 always is the mildest choice (no fault, no switch, canonical order,
// smallest case).  Only non-zero choices are recorded, so a trace is a sparse
// list and any subset of it is again a trace: that is what minimisation uses.
//
// Functions on scheduling paths are go:norace and share plain memory without
// synchronisation, so that under the race detector the simulator adds no
// happens-before edges between the tasks it interleaves.
package simrt

import (
	"sort"
	"syscall"
	"unsafe"
)

type Rec struct{ I, V uint32 }

type Stream struct {
	h      uint64
	i      uint32
	id     uint32
	rec    []Rec
	nrec   int
	replay []Rec
	rp     int
}

var (
	seed      uint64
	replaying bool
	dumpFD    int = -1
	named         = map[string]*Stream{}
	order     []string
	trace     map[string][]Rec
	truncated bool
)

const maxRec = 1 << 18

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Mix combines two values into a new seed.
func Mix(a, b uint64) uint64 { return mix(mix(a) ^ b) }

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mix(h)
}

// Begin starts a run: in search mode (tr == nil) from the seed alone, in
// replay mode from the trace alone.
func Begin(s uint64, tr map[string][]Rec, fd int) {
	seed, replaying, trace, dumpFD = s, tr != nil, tr, fd
	named = map[string]*Stream{}
	order = nil
	truncated = false
	schedStream.init("sched", 1<<30)
	for i := range mapStreams {
		mapStreams[i].init(mapStreamName(i), 1<<29+uint32(i))
	}
	resetScheduler()
	MapOrder(false)
	SetProfile(0)
	Restart()
}

func mapStreamName(i int) string { return "map" + itoa(i) }

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	var b [20]byte
	p := len(b)
	for ; i > 0; i /= 10 {
		p--
		b[p] = byte('0' + i%10)
	}
	return string(b[p:])
}

func (s *Stream) init(name string, id uint32) {
	*s = Stream{h: mix(seed ^ hashString(name)), id: id, rec: s.rec[:0]}
	if cap(s.rec) > 0 {
		s.rec = s.rec[:cap(s.rec)]
	}
	if replaying {
		s.replay = trace[name]
	}
}

// S returns the named stream.  It may be called only while no tasks run, or
// by a single task.
func S(name string) *Stream {
	if s, ok := named[name]; ok {
		return s
	}
	s := new(Stream)
	s.init(name, uint32(len(order)))
	named[name] = s
	order = append(order, name)
	if dumpFD >= 0 {
		b := append([]byte{'N', byte(len(name))}, name...)
		syscall.Write(dumpFD, b)
	}
	return s
}

//go:norace
func (s *Stream) record(i, v uint32) {
	if dumpFD >= 0 {
		var b [13]byte
		b[0] = 'C'
		*(*uint32)(unsafe.Pointer(&b[1])) = s.id
		*(*uint32)(unsafe.Pointer(&b[5])) = i
		*(*uint32)(unsafe.Pointer(&b[9])) = v
		syscall.RawSyscall(syscall.SYS_WRITE, uintptr(dumpFD), uintptr(unsafe.Pointer(&b[0])), 13)
	}
	if s.nrec >= maxRec {
		truncated = true
		return
	}
	if s.nrec == len(s.rec) {
		n := 2 * len(s.rec)
		if n == 0 {
			n = 256
		}
		nr := make([]Rec, n)
		for k := 0; k < s.nrec; k++ {
			nr[k] = s.rec[k]
		}
		s.rec = nr
	}
	s.rec[s.nrec] = Rec{i, v}
	s.nrec++
}

//go:norace
func (s *Stream) replayed(i uint32) uint32 {
	for s.rp < len(s.replay) && s.replay[s.rp].I < i {
		s.rp++
	}
	if s.rp < len(s.replay) && s.replay[s.rp].I == i {
		return s.replay[s.rp].V
	}
	return 0
}

// Choose returns a value in [0,n).
//
//go:norace
func (s *Stream) Choose(n int) int {
	i := s.i
	s.i++
	if n <= 1 {
		return 0
	}
	var v uint32
	if replaying {
		v = s.replayed(i)
		if v >= uint32(n) {
			v %= uint32(n)
		}
	} else {
		v = uint32(mix(s.h+uint64(i)*0x9e3779b97f4a7c15) % uint64(n))
	}
	if v != 0 {
		s.record(i, v)
	}
	return int(v)
}

// Pick is Choose skewed towards small values: usually below 4.
//
//go:norace
func (s *Stream) Pick(n int) int {
	i := s.i
	s.i++
	if n <= 1 {
		return 0
	}
	var v uint32
	if replaying {
		v = s.replayed(i)
		if v >= uint32(n) {
			v %= uint32(n)
		}
	} else {
		u := mix(s.h + uint64(i)*0x9e3779b97f4a7c15)
		m := uint64(n)
		if u>>60 < 12 && m > 4 {
			m = 4
		}
		v = uint32(u & 0xffffffffff % m)
	}
	if v != 0 {
		s.record(i, v)
	}
	return int(v)
}

// Chance is true with probability num/den; false is the mild outcome.
//
//go:norace
func (s *Stream) Chance(num, den int) bool {
	i := s.i
	s.i++
	var v uint32
	if replaying {
		v = s.replayed(i)
	} else if int(mix(s.h+uint64(i)*0x9e3779b97f4a7c15)%uint64(den)) < num {
		v = 1
	}
	if v != 0 {
		s.record(i, v)
	}
	return v != 0
}

// Perm returns a permutation of [0,n); identity is the mild outcome.
func (s *Stream) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n < 2 {
		return p
	}
	switch s.Choose(4) {
	case 0:
	case 1:
		for i := range p {
			j := i + s.Choose(n-i)
			p[i], p[j] = p[j], p[i]
		}
	case 2:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
	case 3:
		k := 1 + s.Choose(n-1)
		q := append(append([]int{}, p[k:]...), p[:k]...)
		p = q
	}
	return p
}

// Trace returns the choices of the run so far that differ from the default.
func Trace() (map[string][]Rec, bool) {
	out := map[string][]Rec{}
	put := func(name string, s *Stream) {
		if s.nrec > 0 {
			out[name] = append([]Rec(nil), s.rec[:s.nrec]...)
		}
	}
	for name, s := range named {
		put(name, s)
	}
	put("sched", &schedStream)
	for i := range mapStreams {
		put(mapStreamName(i), &mapStreams[i])
	}
	return out, truncated
}

// Draws counts the choices made so far.
func Draws() int {
	n := int(schedStream.i)
	for _, s := range named {
		n += int(s.i)
	}
	for i := range mapStreams {
		n += int(mapStreams[i].i)
	}
	return n
}

// DecodeDump rebuilds a trace from a write-through dump.
func DecodeDump(b []byte) map[string][]Rec {
	var names []string
	out := map[string][]Rec{}
	for len(b) > 0 {
		switch {
		case b[0] == 'N' && len(b) >= 2 && len(b) >= 2+int(b[1]):
			names = append(names, string(b[2:2+int(b[1])]))
			b = b[2+int(b[1]):]
		case b[0] == 'C' && len(b) >= 13:
			id := *(*uint32)(unsafe.Pointer(&b[1]))
			r := Rec{*(*uint32)(unsafe.Pointer(&b[5])), *(*uint32)(unsafe.Pointer(&b[9]))}
			var name string
			switch {
			case id == 1<<30:
				name = "sched"
			case id >= 1<<29:
				name = mapStreamName(int(id - 1<<29))
			case int(id) < len(names):
				name = names[id]
			}
			out[name] = append(out[name], r)
			b = b[13:]
		default:
			return out
		}
	}
	for k := range out {
		rs := out[k]
		sort.Slice(rs, func(i, j int) bool { return rs[i].I < rs[j].I })
	}
	return out
}
