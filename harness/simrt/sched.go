package simrt

import (
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"syscall"
	"unsafe"
)

const MaxTasks = 64

const (
	stFree uint8 = iota
	stReady
	stSleep
	stBlocked // in a real blocking operation, out of the simulator's hands
	stDone
)

// All of this is plain memory, touched only by the task whose turn it is (or
// by the main goroutine while no task runs) and only in norace functions.
var (
	active    bool
	turn      int32
	ntasks    int
	state     [MaxTasks]uint8
	wakeAt    [MaxTasks]int64
	pollAt    [MaxTasks]int64 // deadline+1 of a polling task, 0 if none
	goids     [MaxTasks]uint64
	simNow    int64
	steps     int64
	stepLimit int64
	idle      int
	switches  int64
	evHash    uint64
	swNum     uint32 // switch with probability swNum/1024 at a scheduling point
	settle    bool
	full      int

	schedStream Stream
	mapStreams  [MaxTasks]Stream

	wg       sync.WaitGroup
	panics   [MaxTasks]any
	panicStk [MaxTasks][]byte
	nroots   int
	extraP   any
	extraStk []byte

	focusLo, focusHi, hot int
	parked                [MaxTasks]bool
)

func resetScheduler() {
	runEpoch++
	active = false
	turn = 0
	ntasks = 0
	simNow = 0
	steps, idle, switches, evHash = 0, 0, 0, 14695981039346656037
	settle, full = false, 0
	extraP, extraStk = nil, nil
	swNum = 64
	focusLo, focusHi, hot = 0, 0, 0
	killer, dying = -1, 0
	for i := range state {
		state[i] = stFree
		pollAt[i] = 0
		parked[i] = false
		panics[i] = nil
		panicStk[i] = nil
	}
}

var runEpoch int64

// Epoch counts the runs of this process.
//
//go:norace
func Epoch() int64 { return runEpoch }

// SwitchRate sets the probability, in 1/1024, of a switch at a scheduling
// point.
func SwitchRate(n int) { swNum = uint32(n) }

// Stats of the run so far.
func Steps() int64        { return steps }
func Switches() int64     { return switches }
func EventHash() uint64   { return evHash }
func SimNow() int64       { return now() }
func TaskPanic(i int) any { return panics[i] }

// ExtraPanic returns the first panic of a task that the code under test
// started itself.
func ExtraPanic() (any, []byte) { return extraP, extraStk }

func TaskStack(i int) []byte {
	return panicStk[i]
}

//go:norace
func now() int64 { return simNow }

// Run runs the functions as simulated tasks and returns when all tasks,
// including those they started, have finished.
func Run(limit int64, fns ...func()) {
	if active {
		panic("simrt: nested Run")
	}
	first := ntasks
	nroots = first + len(fns)
	for range fns {
		panics[ntasks] = nil
		state[ntasks] = stReady
		ntasks++
	}
	stepLimit = limit
	steps = 0
	wg.Add(len(fns))
	turn = int32(first)
	if len(fns) > 1 {
		turn = int32(first + schedStream.Choose(len(fns)))
	}
	active = true
	for i, f := range fns {
		go task(first+i, f)
	}
	wg.Wait()
	active = false
	// task slots are not reused within a run of the simulator unless all
	// tasks are done, which they are now
	ntasks = first
	for i := first; i < MaxTasks; i++ {
		state[i] = stFree
	}
}

func task(id int, f func()) {
	defer wg.Done()
	begin(id)
	defer finish(id)
	defer func() {
		if r := recover(); r != nil {
			setPanic(id, r)
		}
	}()
	f()
}

//go:norace
func setPanic(id int, r any) {
	if id >= nroots {
		if extraP == nil {
			extraP, extraStk = r, debug.Stack()
		}
		return
	}
	panics[id] = r
	panicStk[id] = debug.Stack()
}

//go:norace
func begin(id int) {
	goids[id] = goid()
	waitTurn(id)
}

//go:norace
func waitTurn(id int) {
	for turn != int32(id) {
		runtime.Gosched()
	}
	killed(id)
}

// killer is the task that ends the others, or -1.
var killer int32 = -1

// The goroutines of tasks that were in a real blocking operation when they
// were ended.
var (
	gone  [256]uint64
	ngone int
)

//go:norace
func killed(id int) {
	if killer >= 0 && killer != int32(id) {
		turn = killer
		select {}
	}
}

// Kill ends all tasks other than the one that calls it, as the end of a
// process does: none of them takes another step.
//
//go:norace
func Kill() {
	if !active {
		return
	}
	if anyBlocked() {
		settle, full = true, 3
		settleChannels()
	}
	me := int(turn)
	killer = int32(me)
	for i := 0; i < ntasks; i++ {
		if i == me || state[i] == stDone || state[i] == stFree {
			continue
		}
		if state[i] == stBlocked {
			gone[ngone%len(gone)] = goids[i]
			ngone++
		} else {
			turn = int32(i)
			for turn != int32(me) {
				runtime.Gosched()
			}
		}
		state[i] = stDone
		wg.Done()
	}
	killer = -1
	dying = me + 1
}

// dying is 1 plus the number of a task whose process has ended, but which
// still runs deferred functions.
var dying int

// rest ends the task if its process has ended.
//
//go:norace
func rest(me int) {
	if dying == me+1 {
		dying = 0
		state[me] = stDone
		wg.Done()
		select {}
	}
}

// IsTask reports whether the calling goroutine is a task.
//
//go:norace
func IsTask() bool {
	if !active {
		return false
	}
	g := goid()
	for i := 0; i < ntasks; i++ {
		if goids[i] == g && state[i] != stDone && state[i] != stFree {
			return true
		}
	}
	return false
}

//go:norace
func finish(id int) {
	dying = 0
	state[id] = stDone
	idle = 0
	passOn(id)
}

// passOn gives the turn away for good (the caller is done, asleep or blocked).
//
//go:norace
func passOn(me int) {
	settleChannels()
	n := ready(-1)
	if n == 0 && !advance() {
		turn = -1 // whoever comes back from a real blocking operation takes it
		return
	}
	n = ready(-1)
	next := pickReady(-1, schedStream.Choose(n))
	note(me, 0, next)
	turn = int32(next)
}

// ready counts ready tasks other than me.
//
//go:norace
func ready(me int) int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if state[i] == stReady && i != me {
			n++
		}
	}
	return n
}

//go:norace
func pickReady(me, k int) int {
	for i := 0; i < ntasks; i++ {
		if state[i] == stReady && i != me {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

// advance jumps the clock to the next wake-up or deadline; false if none.
//
//go:norace
func advance() bool {
	t := int64(-1)
	for i := 0; i < ntasks; i++ {
		if state[i] == stSleep && (t < 0 || wakeAt[i] < t) {
			t = wakeAt[i]
		}
		if state[i] == stReady && pollAt[i] > 0 && (t < 0 || pollAt[i]-1 < t) {
			t = pollAt[i] - 1
		}
	}
	if t < 0 {
		return false
	}
	if t > simNow {
		simNow = t
	}
	for i := 0; i < ntasks; i++ {
		if state[i] == stSleep && wakeAt[i] <= simNow {
			state[i] = stReady
		}
	}
	return true
}

//go:norace
func note(me int, site int, next int) {
	switches++
	evHash = (evHash ^ uint64(me)<<40 ^ uint64(site)<<8 ^ uint64(next)) * 1099511628211
}

// Note folds a value into the event log hash.
//
//go:norace
func Note(v uint64) { evHash = (evHash ^ mix(v)) * 1099511628211 }

// Y is a scheduling point.
//
//go:norace
func Y(site int) {
	if !active {
		return
	}
	steps++
	idle = 0
	if steps > stepLimit {
		hang("step limit exceeded")
	}
	if ntasks <= 1 {
		return
	}
	me := int(turn)
	var v uint32
	i := schedStream.i
	schedStream.i++
	if replaying {
		v = schedStream.replayed(i)
	} else {
		u := mix(schedStream.h + uint64(i)*0x9e3779b97f4a7c15)
		if focusHi > 0 {
			v = focused(me, site, u)
		} else if uint32(u>>54) < swNum {
			v = uint32(u&0xffff) + 1
		}
	}
	if v == 0 {
		return
	}
	if settle {
		settleChannels()
	}
	n := ready(me)
	if n == 0 {
		return
	}
	v = (v-1)%uint32(n) + 1
	schedStream.record(i, v)
	next := pickReady(me, int(v-1))
	note(me, site, next)
	turn = int32(next)
	waitTurn(me)
}

// focused chooses under a focus: a task that comes to the focus waits there
// until another one comes, and then the tasks take turns often.  It returns 0
// or 1 plus the number of the next task among the others that are ready.
//
//go:norace
func focused(me, site int, u uint64) uint32 {
	parked[me] = false
	rate := swNum
	if hot > 0 {
		hot--
		rate = 400
		if uint32(u>>54) < rate {
			return uint32(u&0xffff) + 1
		}
		return 0
	}
	if site >= focusLo && site < focusHi {
		settleChannels()
		met := false
		for i := 0; i < ntasks; i++ {
			if i != me && parked[i] && state[i] == stReady {
				met = true
			}
			parked[i] = false
		}
		if met {
			hot = 64
			return uint32(u&0xffff) + 1
		}
		parked[me] = true
	} else if uint32(u>>54) >= rate {
		return 0
	}
	// any ready task that does not wait at the focus
	settleChannels()
	n := 0
	for i := 0; i < ntasks; i++ {
		if i != me && state[i] == stReady && !parked[i] {
			n++
		}
	}
	if n == 0 {
		return 0
	}
	k, pos := int(u&0xffff)%n, uint32(0)
	for i := 0; i < ntasks; i++ {
		if i == me || state[i] != stReady {
			continue
		}
		pos++
		if parked[i] {
			continue
		}
		if k == 0 {
			return pos
		}
		k--
	}
	return 0
}

// Blocked is called in a loop by a task that cannot proceed.
//
//go:norace
func Blocked() {
	if !active {
		runtime.Gosched()
		return
	}
	me := int(turn)
	rest(me)
	steps++
	idle++
	if steps > stepLimit {
		hang("step limit exceeded while blocked")
	}
	if ready(me) == 0 || idle > 2*ntasks+2 {
		settleChannels()
		if !advance() {
			if anyBlocked() {
				state[me] = stReady
				runtime.Gosched()
				if idle > 100000 {
					hang("deadlock")
				}
				if ready(me) == 0 {
					return
				}
			} else if ready(me) == 0 || idle > 4*ntasks+8 {
				hang("deadlock: every task is blocked")
			}
		} else {
			idle = 0
		}
		if ready(me) == 0 {
			return
		}
	}
	next := me
	for {
		next++
		if next >= ntasks {
			next = 0
		}
		if state[next] == stReady {
			break
		}
	}
	if next == me {
		return
	}
	note(me, 1, next)
	turn = int32(next)
	waitTurn(me)
}

//go:norace
func anyBlocked() bool {
	for i := 0; i < ntasks; i++ {
		if state[i] == stBlocked {
			return true
		}
	}
	return false
}

// SleepFor suspends the task for d simulated nanoseconds.
//
//go:norace
func SleepFor(d int64) {
	if !active {
		simNow += d
		return
	}
	me := int(turn)
	state[me] = stSleep
	wakeAt[me] = simNow + d
	passOn(me)
	waitTurn(me)
}

// WaitFor suspends the task until cond holds or, if t >= 0, until simulated
// time t, whichever comes first; it reports whether cond holds.  The clock
// moves only when no task can do anything else.
func WaitFor(t int64, cond func() bool) bool {
	for {
		if cond() {
			return true
		}
		if t >= 0 && now() >= t {
			return false
		}
		blockedUntil(t)
	}
}

//go:norace
func blockedUntil(t int64) {
	if !active {
		if t < 0 {
			hang("deadlock: waiting outside a simulated task")
		}
		if t > simNow {
			simNow = t
		}
		return
	}
	me := int(turn)
	if t >= 0 {
		pollAt[me] = t + 1
	}
	Blocked()
	pollAt[me] = 0
}

// Go starts a simulated task.
func Go(f func()) {
	if !isActive() {
		go f()
		return
	}
	id := newTask()
	wg.Add(1)
	go task(id, f)
	Y(0)
}

//go:norace
func isActive() bool { return active }

//go:norace
func newTask() int {
	for i := nroots; i < ntasks; i++ {
		if state[i] == stDone {
			state[i] = stReady
			return i
		}
	}
	if ntasks == MaxTasks {
		hang("too many tasks")
	}
	id := ntasks
	ntasks++
	state[id] = stReady
	return id
}

//go:norace
func goid() uint64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id uint64
	for i := len("goroutine "); i < n && buf[i] >= '0' && buf[i] <= '9'; i++ {
		id = id*10 + uint64(buf[i]-'0')
	}
	return id
}

// BlockBegin takes the task out of the schedule while it may block for real.
//
//go:norace
func BlockBegin() {
	if !active {
		return
	}
	me := int(turn)
	rest(me)
	state[me] = stBlocked
	settle, full = true, 3
	passOn(me)
}

// BlockPoll precedes a non-blocking channel operation.
//
//go:norace
func BlockPoll() {
	settleChannels()
	settle, full = true, 3
}

// BlockEnd brings the task back.
//
//go:norace
func BlockEnd() {
	if !active && ngone == 0 {
		return
	}
	g := goid()
	for i := 0; i < ngone && i < len(gone); i++ {
		if gone[i] == g {
			select {}
		}
	}
	if !active {
		return
	}
	me := -1
	for i := 0; i < ntasks; i++ {
		if goids[i] == g && state[i] != stDone {
			me = i
		}
	}
	if me < 0 || state[me] != stBlocked {
		return
	}
	state[me] = stReady
	for turn != int32(me) {
		if turn == -1 && atomic.CompareAndSwapInt32(&turn, -1, int32(me)) {
			break
		}
		runtime.Gosched()
	}
	killed(me)
	settle, full = true, 3
}

// settleChannels lets tasks that a channel operation has woken come back
// before the next choice is made, so that the set of ready tasks does not
// depend on the Go scheduler.  After a channel operation of instrumented code
// they get plenty of time; later, one that something else has woken needs no
// more than to be run once.
//
//go:norace
func settleChannels() {
	if !settle {
		return
	}
	settle = false
	if anyBlocked() {
		settle = true
		rounds := 2
		if full > 0 {
			full--
			rounds = 4*ntasks + 8
		}
		for i := 0; i < rounds; i++ {
			runtime.Gosched()
		}
	}
}

// HangExit is the exit status of a process whose run made no progress.
const HangExit = 77

// OnHang, if set, is called before the process exits because of a hang.
var OnHang func(msg string)

//go:norace
func hang(msg string) {
	b := []byte("SIMHANG " + msg + "\n")
	syscall.RawSyscall(syscall.SYS_WRITE, 2, uintptr(unsafe.Pointer(&b[0])), uintptr(len(b)))
	buf := make([]byte, 1<<14)
	n := runtime.Stack(buf, false)
	syscall.RawSyscall(syscall.SYS_WRITE, 2, uintptr(unsafe.Pointer(&buf[0])), uintptr(n))
	os.Exit(HangExit)
}

// GoID returns the number of the calling goroutine.
func GoID() uint64 { return goid() }
