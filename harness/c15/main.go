// C15: a flow runs its steps in order, each once, when it may.
package main

import (
	"errors"
	"fmt"

	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/zzverif/mc"
	"github.com/nanobus/iota/go/zzverif/vsched"
)

var (
	errStep = errors.New("step")
	errTask = errors.New("task")
)

// Tasks a step can wait for.
const (
	tJust = iota
	tError
	tSettled   // Processor settled before anyone waits
	tLater     // Processor settled by someone else, later
	tLaterFail // the same, with an error
	tCreate    // Create that starts when awaited and settles from its own thread
	tMapped    // Map over tLater
	tFlow      // another flow of two steps
	tFlux      // a Flux that is read to its end
	taskKinds
)

var taskNames = []string{"Just", "Error", "settled", "later", "later error", "Create", "mapped", "flow", "flux"}

// How the last step ends the flow.
const (
	eSuccess    = iota
	eError      // Flow.Error
	eReturn     // returning an error
	eEnd        // Flow.End
	eComplete   // flux flows: Complete
	eEndWait    // Flow.End, and returning tasks
	eReturnWait // returning an error and tasks
	ends
)

type task struct {
	kind   int
	done   bool // settled
	waits  func() bool
	a      await.Awaitable
	get    func() (int, error)
	settle func()
}

func makeTask(kind, val int, run func(func())) *task {
	t := &task{kind: kind, settle: func() {}}
	fin := func(m mono.Mono[int]) {
		t.a = m
		t.get = m.Get
	}
	switch kind {
	case tJust:
		t.done = true
		fin(mono.Just(val))
	case tError:
		t.done = true
		fin(mono.Error[int](errTask))
	case tSettled:
		t.done = true
		p := mono.NewProcessor[int]()
		p.Success(val)
		fin(p)
	case tLater:
		p := mono.NewProcessor[int]()
		t.settle = func() { t.done = true; p.Success(val) }
		fin(p)
	case tLaterFail:
		p := mono.NewProcessor[int]()
		t.settle = func() { t.done = true; p.Error(errTask) }
		fin(p)
	case tCreate:
		fin(mono.Create(func(s mono.Sink[int]) {
			run(func() { t.done = true; s.Success(val) })
		}))
	case tMapped:
		p := mono.NewProcessor[int]()
		t.settle = func() { t.done = true; p.Success(val - 1) }
		fin(mono.Map[int, int](p, func(v int) (int, error) { return v + 1, nil }))
	case tFlow:
		p := mono.NewProcessor[int]()
		sub := flow.New[int]()
		t.settle = func() { p.Success(val) }
		fin(sub.Steps(
			func() (await.Group, error) { return await.All(p) },
			func() (await.Group, error) { t.done = true; v, _ := p.Get(); return sub.Success(v) },
		).Mono())
	case tFlux:
		f := flux.Create(func(s flux.Sink[int]) {
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) {
				s.Next(1)
				t.done = true
				s.Complete()
			}})
		})
		t.a = f
	}
	return t
}

// run explores flows of the given number of steps, each waiting for the given
// number of tasks; settlers settle the late ones.
func run(steps, width, fixed, pre int, isFlux bool, kinds []int) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		var shape [][]int
		for i := 0; i < steps-1; i++ {
			var g []int
			n := width
			if fixed == 0 {
				n = 1 + c.Choose(width)
			}
			for k := 0; k < n; k++ {
				g = append(g, mc.Pick(c, kinds))
			}
			shape = append(shape, g)
		}
		how := c.Choose(ends)
		if isFlux && how == eSuccess || !isFlux && how == eComplete {
			c.Skip()
		}
		stop := steps - 1 // the step that ends the flow
		if fixed == 0 {
			stop = c.Choose(steps)
		}
		for i, g := range shape {
			for _, k := range g {
				c.Logf("step %d waits for %s", i, taskNames[k])
			}
		}
		explore(c, shape, how, stop, isFlux, pre)
	}
}

// many are flows of many steps or tasks.
func many(c *mc.Ctx) {
	steps, width, isFlux := mc.Pick(c, []int{2, 3, 4, 5, 9, 17, 33, 65, 130}), mc.Pick(c, []int{1, 2, 4, 9, 33, 65}), c.Bool()
	first, stride := c.Choose(taskKinds), mc.Pick(c, []int{0, 1, 2})
	var shape [][]int
	k := first
	for i := 0; i < steps-1; i++ {
		var g []int
		for j := 0; j < width; j++ {
			g = append(g, k%taskKinds)
			k += stride
		}
		shape = append(shape, g)
	}
	if steps*width > 300 {
		c.Skip()
	}
	how := mc.Pick(c, []int{eSuccess, eReturn})
	if isFlux {
		how = eComplete
	}
	explore(c, shape, how, steps-1, isFlux, 0)
}

func explore(c *mc.Ctx, shape [][]int, how, stop int, isFlux bool, pre int) {
	{
		steps := len(shape) + 1
		opt := vsched.Options{Preemptions: pre, Fine: true}
		if pre == 0 {
			opt.MaxSteps = 300000
		}
		c.Logf("step %d ends it, way %d", stop, how)
		vsched.Run(c, opt, func() {
			f := flow.New[int]()
			ran := []int{}
			tasks := make([][]*task, steps)
			for i, g := range shape {
				for j, k := range g {
					tasks[i] = append(tasks[i], makeTask(k, 1000*i+j, func(fn func()) { vsched.GoNamed("task", fn) }))
				}
			}
			inStep := 0
			for i := 0; i < steps; i++ {
				f.Steps(func() (await.Group, error) {
					vsched.Logf("step %d", i)
					ran = append(ran, i)
					inStep++
					if inStep != 1 {
						c.Failf("step %d runs while another step does: %v", i, ran)
					}
					defer func() { inStep-- }()
					if i > 0 {
						for j, t := range tasks[i-1] {
							if !t.done {
								c.Failf("step %d runs before task %d of step %d (%s) has settled", i, j, i-1, taskNames[t.kind])
							}
							if t.get != nil {
								v, err := t.get()
								if t.kind == tError || t.kind == tLaterFail {
									if err != errTask {
										c.Failf("task %s gave %v, %v", taskNames[t.kind], v, err)
									}
								} else if v != 1000*(i-1)+j || err != nil {
									c.Failf("task %s gave %v, %v, want %d", taskNames[t.kind], v, err, 1000*(i-1)+j)
								}
							}
						}
					}
					if isFlux && i < stop {
						f.Next(i)
					}
					if i == stop {
						switch how {
						case eSuccess:
							return f.Success(42)
						case eError:
							return f.Error(errStep)
						case eReturn:
							return nil, errStep
						case eEnd:
							return f.End()
						case eComplete:
							return f.Complete()
						}
					}
					var as []await.Awaitable
					for _, t := range tasks[i] {
						as = append(as, t.a)
					}
					if i == stop && how == eEndWait {
						f.End() // and still names what it would have waited for
					}
					if i == stop && how == eReturnWait {
						g, _ := await.All(as...)
						return g, errStep
					}
					return await.All(as...)
				})
			}
			late := 0
			for i := range tasks {
				for _, t := range tasks[i] {
					switch t.kind {
					case tLater, tLaterFail, tMapped, tFlow:
						late++
						vsched.GoNamed(fmt.Sprintf("settler%d", late), t.settle)
					}
				}
			}
			var outs []string
			final := 0
			fin := func(s rx.SignalType) { final++ }
			if isFlux {
				f.Flux().Subscribe(flux.Subscribe[int]{
					OnNext:     func(v int) { outs = append(outs, fmt.Sprint(v)) },
					OnComplete: func() { outs = append(outs, "complete") },
					OnError:    func(err error) { outs = append(outs, "error "+err.Error()) },
					Finally:    fin,
				})
			} else {
				f.Mono().Subscribe(mono.Subscribe[int]{
					OnSuccess: func(v int) { outs = append(outs, fmt.Sprint(v)) },
					OnError:   func(err error) { outs = append(outs, "error "+err.Error()) },
					Finally:   fin,
				})
			}
			vsched.Quiesce()
			var want []int
			var wantOut []string
			for i := 0; i <= stop; i++ {
				want = append(want, i)
				if isFlux && i < stop {
					wantOut = append(wantOut, fmt.Sprint(i))
				}
			}
			switch how {
			case eSuccess:
				wantOut = append(wantOut, "42")
			case eError, eReturn, eReturnWait:
				wantOut = append(wantOut, "error step")
			case eComplete:
				wantOut = append(wantOut, "complete")
			}
			if fmt.Sprint(ran) != fmt.Sprint(want) {
				c.Failf("steps run %v, want %v; blocked: %v", ran, want, vsched.Blocked())
			}
			if fmt.Sprint(outs) != fmt.Sprint(wantOut) {
				c.Failf("the flow gave %v, want %v", outs, wantOut)
			}
			wf := 1
			if how == eEnd || how == eEndWait {
				wf = 0
			}
			if final != wf {
				c.Failf("the flow ended %d times, want %d", final, wf)
			}
		})
		c.State(fmt.Sprint(shape), how, stop)
	}
}

func main() {
	all := []int{}
	for k := 0; k < taskKinds; k++ {
		all = append(all, k)
	}
	racy := []int{tSettled, tLater, tLaterFail, tCreate, tMapped}
	pre := mc.Bound(2, 3)
	mc.Main(mc.Config{
		ID:     "C15",
		Rule:   "all flows over nine kinds of tasks, every way and place of ending, and all interleavings of the goroutines that settle the tasks",
		Bounds: fmt.Sprintf("3 steps waiting for 1-%d of 9 kinds of tasks and 2-130 steps for 1-65 tasks without preemption; 2-3 steps waiting for 1-3 of 5 kinds, <=%d preemptions at statement granularity", mc.Bound(2, 3), pre),
		Scenarios: []mc.Scenario{
			{Name: "all shapes", Body: run(3, mc.Bound(2, 3), 0, 0, false, all)},
			{Name: "all shapes, flux", Body: run(3, 2, 0, 0, true, all)},
			{Name: "many steps and tasks", Body: many},
			{Name: "two steps, two tasks", Body: run(2, 2, 1, pre, false, racy)},
			{Name: "two steps, three tasks", Body: run(2, 3, 1, pre-1, false, racy)},
			{Name: "three steps, one task", Body: run(3, 1, 1, pre, false, racy)},
			{Name: "three steps, two tasks", Body: run(3, 2, 1, pre-1, false, []int{tLater, tSettled})},
			{Name: "two steps, two flux tasks", Body: run(2, 2, 1, pre-1, false, []int{tFlux, tLater, tFlow})},
			{Name: "flux flow, two tasks", Body: run(2, 2, 1, pre, true, []int{tLater, tCreate})},
		},
		Assumptions: []string{"a step that waits for nothing is the last one of its flow", "a flow is subscribed to once"},
	})
}
