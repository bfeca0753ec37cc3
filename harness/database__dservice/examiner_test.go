// props: P01 P04

package dservice

import (
	"fmt"
	"testing"

	"github.com/mrasu/GravityR/database/dmodel"
	h "github.com/mrasu/GravityR/zz_verifh"
	"github.com/pkg/errors"
	"github.com/rs/zerolog"
)

type vfEvent struct {
	Op   string
	Name string
	It   *dmodel.IndexTarget
	Time int64
	Live string
	Err  bool
}

type vfExaminer struct {
	fail   func(op string, k int) bool
	n      map[string]int
	times  []int64
	log    []vfEvent
	live   []vfEvent
	broken string
	panicAt int
}

func (e *vfExaminer) step(op string) bool {
	k := e.n[op]
	e.n[op] = k + 1
	return e.fail(op, k)
}

func (e *vfExaminer) Execute() (int64, error) {
	k := e.n["exec"]
	bad := e.step("exec")
	live := ""
	for _, l := range e.live {
		live += l.Name + "@" + fmt.Sprintf("%p", l.It) + ";"
	}
	ms := int64(1000 + 17*k)
	if k < len(e.times) {
		ms = e.times[k]
	}
	e.log = append(e.log, vfEvent{Op: "exec", Time: ms, Live: live, Err: bad})
	if bad {
		return 0, errors.New("exec failed")
	}
	return ms, nil
}

func (e *vfExaminer) CreateIndex(n string, it *dmodel.IndexTarget) error {
	bad := e.step("create")
	ev := vfEvent{Op: "create", Name: n, It: it, Err: bad}
	if len(e.live) > 0 {
		e.broken = fmt.Sprintf("index %s created while %s is still in place", n, e.live[0].Name)
	}
	e.log = append(e.log, ev)
	if bad {
		return errors.New("create failed")
	}
	e.live = append(e.live, ev)
	return nil
}

func (e *vfExaminer) DropIndex(n string, it *dmodel.IndexTarget) error {
	bad := e.step("drop")
	e.log = append(e.log, vfEvent{Op: "drop", Name: n, It: it, Err: bad})
	if len(e.live) != 1 || e.live[0].Name != n || e.live[0].It.TableName != it.TableName {
		e.broken = fmt.Sprintf("drop of %s on %s which was not the index in place", n, it.TableName)
	}
	e.live = nil
	if bad {
		return errors.New("drop failed")
	}
	return nil
}

func vfTargets(n int, variant int) []*dmodel.IndexTarget {
	var its []*dmodel.IndexTarget
	if variant >= 5 {
		// tables interleaved in a pattern given by the digits of variant
		for i := 0; i < n; i++ {
			its = append(its, dmodel.NewIndexTarget([]string{"users", "todos", "items"}[variant%3], []string{fmt.Sprintf("c%d", i)}))
			variant /= 3
		}
		return its
	}
	for i := 0; i < n; i++ {
		switch (i + variant) % 5 {
		case 0:
			its = append(its, dmodel.NewIndexTarget("users", []string{"name"}))
		case 1:
			its = append(its, dmodel.NewIndexTarget("todos", []string{"user_id", fmt.Sprintf("c%d", i)}))
		case 2:
			its = append(its, dmodel.NewIndexTarget("users", []string{"a_very_long_column_name_number_one", "another_long_column_name", fmt.Sprintf("z%d", i)}))
		case 3:
			its = append(its, dmodel.NewIndexTarget(fmt.Sprintf("t%d", i), []string{"x", "y", "z"}))
		case 4:
			if len(its) > 0 {
				its = append(its, its[0]) // the same target twice
			} else {
				its = append(its, dmodel.NewIndexTarget("users", []string{"email"}))
			}
		}
	}
	return its
}

type vfCase struct {
	Targets int
	Variant int
	Fail    []string
	Times   []int64
}

func vfRun(t *testing.T, prop string, c vfCase) {
	its := vfTargets(c.Targets, c.Variant)
	set := map[string]bool{}
	for _, f := range c.Fail {
		set[f] = true
	}
	e := &vfExaminer{n: map[string]int{}, times: c.Times, fail: func(op string, k int) bool { return set[fmt.Sprintf("%s%d", op, k)] }}
	var res *dmodel.ExaminationResult
	var err error
	h.Guard(t, c, func() { res, err = NewIndexEfficiencyExaminer(e).Run(its) })
	anyFail := false
	creates, drops := 0, 0
	for _, ev := range e.log {
		anyFail = anyFail || ev.Err
		if ev.Op == "create" && !ev.Err {
			creates++
		}
		if ev.Op == "drop" {
			drops++
		}
	}
	if prop == "P01" {
		if e.broken != "" {
			h.Fail(t, c, "%s", e.broken)
		}
		if len(e.live) > 0 {
			h.Fail(t, c, "index %s left behind", e.live[0].Name)
		}
		if creates != drops {
			h.Fail(t, c, "%d indexes created, %d dropped", creates, drops)
		}
		if anyFail != (err != nil) {
			h.Fail(t, c, "step failed=%v but reported error=%v", anyFail, err)
		}
		return
	}
	if err != nil {
		return
	}
	if res == nil {
		h.Fail(t, c, "no result and no error")
	}
	var exs []vfEvent
	for _, ev := range e.log {
		if ev.Op == "exec" {
			exs = append(exs, ev)
		}
	}
	if len(exs) != len(its)+1 || exs[0].Live != "" {
		h.Fail(t, c, "%d executions for %d targets; baseline measured under %q", len(exs), len(its), exs[0].Live)
	}
	if res.OriginalTimeMillis != exs[0].Time || len(res.IndexResults) != len(its) {
		h.Fail(t, c, "original %d (want %d), %d results (want %d)", res.OriginalTimeMillis, exs[0].Time, len(res.IndexResults), len(its))
	}
	for i, r := range res.IndexResults {
		var cr vfEvent
		k := -1
		for _, ev := range e.log {
			if ev.Op == "create" {
				k++
				if k == i {
					cr = ev
				}
			}
		}
		if r == nil || r.IndexTarget == nil || !r.IndexTarget.Equals(its[i]) {
			h.Fail(t, c, "result %d is not for target %d (%s)", i, i, its[i].CombinationString())
		}
		if exs[i+1].Live != cr.Name+"@"+fmt.Sprintf("%p", its[i])+";" {
			h.Fail(t, c, "measurement %d was taken under %q", i, exs[i+1].Live)
		}
		if r.ExecutionTimeMillis != exs[i+1].Time {
			h.Fail(t, c, "result %d reports %dms, measured %dms", i, r.ExecutionTimeMillis, exs[i+1].Time)
		}
	}
}

func vfAll(t *testing.T, prop string) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	n := 0
	for targets := 0; targets <= 3; targets++ {
		for variant := 0; variant < 5; variant++ {
			var steps []string
			for k := 0; k <= targets; k++ {
				steps = append(steps, fmt.Sprintf("exec%d", k))
			}
			for k := 0; k < targets; k++ {
				steps = append(steps, fmt.Sprintf("create%d", k), fmt.Sprintf("drop%d", k))
			}
			for m := 0; m < 1<<len(steps); m++ {
				c := vfCase{Targets: targets, Variant: variant, Times: []int64{100, 90, 90, 80}}
				for b, s := range steps {
					if m&(1<<b) != 0 {
						c.Fail = append(c.Fail, s)
					}
				}
				vfRun(t, prop, c)
				n++
			}
		}
	}
	r := h.Rand(1)
	for i := 0; i < h.N(3000); i++ {
		c := vfCase{Targets: r.Intn(14), Variant: r.Intn(5)}
		if i%2 == 0 {
			c.Variant = 5 + r.Intn(1<<30)
		}
		for k := 0; k <= c.Targets; k++ {
			c.Times = append(c.Times, int64(r.Intn(50)))
		}
		for k := 0; k < r.Intn(3); k++ {
			c.Fail = append(c.Fail, fmt.Sprintf("%s%d", h.Pick(r, []string{"exec", "create", "drop"}), r.Intn(c.Targets+1)))
		}
		vfRun(t, prop, c)
		n++
	}
	h.Stat(t, n, "all fault patterns up to 3 targets plus random ones up to 13")
}

func TestVerif_P01_examination(t *testing.T) { vfAll(t, "P01") }
func TestVerif_P04_examination(t *testing.T) { vfAll(t, "P04") }
