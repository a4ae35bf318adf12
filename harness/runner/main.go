// verifrun executes cases against the real calibrationReader code and records what it observed.
// It is compiled inside the module of /repo through a build overlay and only uses the exported API
// (results are read through reflection).
//
// usage: verifrun CASES.ndjson RESULTS.ndjson
// Each case is a JSON object on its own line, each result as well. The process may die on a case
// (panic in a goroutine): the caller sees that by the missing result and restarts it behind that case.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	cr "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
	"github.com/rs/zerolog"
)

type call struct {
	Op     string      `json:"op"`     //ihex, srec, a2l, readcal
	File   string      `json:"file"`   //hex, srec or a2l file
	File2  string      `json:"file2"`  //hex file of readcal
	Procs  int         `json:"procs"`  //number of workers, 0: default
	Idx    int         `json:"idx"`    //module index for look ups
	Look   []string    `json:"look"`   //identifiers to look up
	Idxs   []int       `json:"idxs"`   //module indexes to look up with, one after the other on the same data
	Want   []string    `json:"want"`   //what to report: image, leaves, digest, layouts
	Thread int         `json:"thread"` //which caller makes this call (mode threads)
	Copy   [][2]string `json:"copy"`   //files to copy (from, to) right before the call
	Spoil  bool        `json:"spoil"`  //the caller alters what it got once it has been recorded
}

type caseT struct {
	ID      int    `json:"id"`
	Calls   []call `json:"calls"`
	Mode    string `json:"mode"` //seq (default): one after the other, par: all at once, threads: one sequence per thread at the same time
	Recheck bool   `json:"recheck"`
	Sched   uint64 `json:"sched"` //where goroutines are held up
	Timeout int    `json:"timeout"` //seconds for the whole case
}

type outT struct {
	Call    int              `json:"call"`
	Outcome string           `json:"outcome"` //ok, error, panic
	Msg     string           `json:"msg,omitempty"`
	Runs    [][3]interface{} `json:"runs,omitempty"`
	Leaves  [][2]string      `json:"leaves,omitempty"`
	Digest  string           `json:"digest,omitempty"`
	After   string           `json:"after,omitempty"` //digest after all calls of the case
	Looks   []lookT          `json:"looks,omitempty"`
	Layouts []layoutT        `json:"layouts,omitempty"`
	Multi   []multiT         `json:"multi,omitempty"`
	Idx     int              `json:"idx"`
	keep    func() string
}

type multiT struct {
	Idx   int     `json:"idx"`
	Looks []lookT `json:"looks"`
}

type resT struct {
	ID   int    `json:"id"`
	Outs []outT `json:"outs"`
	Hang bool   `json:"hang,omitempty"`
	MS   int64  `json:"ms"`
}

var setProcs func(op string, n int)

// setSched chooses where goroutines are held up, 0: nowhere
var setSched = func(seed uint64) {}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func imageRuns(h map[uint32]byte) [][3]interface{} {
	keys := make([]uint32, 0, len(h))
	for k := range h {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	var runs [][3]interface{}
	for i := 0; i < len(keys); {
		j := i
		var bs []int
		for j < len(keys) && keys[j] == keys[i]+uint32(j-i) && keys[j] >= keys[i] && keys[j]>>16 == keys[i]>>16 {
			bs = append(bs, int(h[keys[j]]))
			j++
		}
		runs = append(runs, [3]interface{}{keys[i] >> 16, keys[i] & 0xffff, bs})
		i = j
	}
	return runs
}

func reportImage(o *outT, c call, h map[uint32]byte) string {
	runs := imageRuns(h)
	if has(c.Want, "image") {
		o.Runs = runs
	}
	return digestRuns(runs)
}

func reportA2l(o *outT, c call, a *a2l.A2L) string {
	lv := flatten("", a)
	if has(c.Want, "leaves") {
		o.Leaves = lv
	}
	if has(c.Want, "layouts") {
		o.Layouts = layouts(a)
	}
	return digestLeaves(lv)
}

// spoilImage alters an image the caller owns
func spoilImage(h map[uint32]byte) {
	n := 0
	for k := range h {
		if n%2 == 0 {
			h[k] ^= 0x5a
		} else {
			delete(h, k)
		}
		n++
	}
	if h != nil {
		h[0xdeadbeef] = 1
	}
}

// spoilA2l alters the structure the caller owns
func spoilA2l(a *a2l.A2L) {
	a.Project.Name = "spoiled"
	for i := range a.Project.Modules {
		m := &a.Project.Modules[i]
		m.Name = "spoiled"
		v := reflect.ValueOf(m).Elem()
		for j := 0; j < v.NumField(); j++ {
			f := v.Field(j)
			if f.Kind() != reflect.Map || !f.CanSet() {
				continue
			}
			for _, k := range f.MapKeys() {
				f.SetMapIndex(k, reflect.Value{})
			}
		}
	}
}

func doCall(c call) (o outT) {
	defer func() {
		if r := recover(); r != nil {
			o.Outcome = "panic"
			o.Msg = fmt.Sprint(r) + "\n" + string(debug.Stack())
		}
	}()
	for _, x := range c.Copy {
		b, err := os.ReadFile(x[0])
		if err == nil {
			err = os.WriteFile(x[1], b, 0o644)
		}
		if err != nil {
			fmt.Println("cannot copy", err)
			os.Exit(3)
		}
	}
	switch c.Op {
	case "ihex", "srec":
		var h map[uint32]byte
		var err error
		if c.Op == "ihex" {
			h, err = ihex32.ParseFromFile(c.File)
		} else {
			h, err = srec19.ParseFromFile(c.File)
		}
		if err != nil {
			o.Outcome, o.Msg = "error", err.Error()
			return
		}
		o.Outcome = "ok"
		o.Digest = reportImage(&o, c, h)
		o.keep = func() string { return digestImage(h) }
		if c.Spoil {
			spoilImage(h)
			o.keep = nil
		}
	case "a2l":
		a, err := a2l.ParseFromFile(c.File)
		if err != nil {
			o.Outcome, o.Msg = "error", err.Error()
			return
		}
		o.Outcome = "ok"
		o.Digest = reportA2l(&o, c, &a)
		o.keep = func() string { return digestLeaves(flatten("", &a)) }
		if c.Spoil {
			spoilA2l(&a)
			o.keep = nil
		}
	case "readcal":
		cd, err := cr.ReadCalibration(c.File, c.File2)
		if err != nil {
			o.Outcome, o.Msg = "error", err.Error()
			return
		}
		o.Outcome = "ok"
		o.Idx = int(cd.ModuleIndex)
		img := reportImage(&o, c, cd.Hex)
		lvs := reportA2l(&o, c, &cd.A2l)
		if len(c.Look) > 0 {
			cd.ModuleIndex = uint8(c.Idx)
			o.Looks = lookups(&cd, c.Look)
		}
		o.keep = func() string { return digestLeaves(flatten("", &cd.A2l)) + digestImage(cd.Hex) }
		o.Digest = lvs + img
		if c.Spoil {
			spoilA2l(&cd.A2l)
			spoilImage(cd.Hex)
			o.keep = nil
		}
	case "lookup":
		a, err := a2l.ParseFromFile(c.File)
		if err != nil {
			o.Outcome, o.Msg = "error", err.Error()
			return
		}
		o.Outcome = "ok"
		cd := cr.CalibrationData{A2l: a}
		for _, i := range c.Idxs {
			cd.ModuleIndex = uint8(i)
			o.Multi = append(o.Multi, multiT{i, lookups(&cd, c.Look)})
		}
	case "datatypes":
		o.Outcome = "ok"
		o.Leaves = datatypes()
	default:
		o.Outcome, o.Msg = "panic", "unknown op "+c.Op
	}
	return
}

func doCase(cs caseT) resT {
	outs := make([]outT, len(cs.Calls))
	setSched(cs.Sched)
	defer setSched(0)
	if cs.Mode == "par" {
		//all calls of a parallel case use the same worker count
		for _, c := range cs.Calls {
			setProcs(c.Op, c.Procs)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range cs.Calls {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				outs[i] = doCall(cs.Calls[i])
			}(i)
		}
		close(start)
		wg.Wait()
	} else if cs.Mode == "threads" {
		//one sequence of calls per thread, all threads at the same time and with the same worker count
		for _, c := range cs.Calls {
			setProcs(c.Op, c.Procs)
		}
		byThread := map[int][]int{}
		for i, c := range cs.Calls {
			byThread[c.Thread] = append(byThread[c.Thread], i)
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, ix := range byThread {
			wg.Add(1)
			go func(ix []int) {
				defer wg.Done()
				<-start
				for _, i := range ix {
					outs[i] = doCall(cs.Calls[i])
				}
			}(ix)
		}
		close(start)
		wg.Wait()
	} else {
		for i, c := range cs.Calls {
			setProcs(c.Op, c.Procs)
			if cs.Sched != 0 {
				setSched(cs.Sched*1000 + uint64(i))
			}
			outs[i] = doCall(c)
			if !cs.Recheck {
				outs[i].keep = nil
			}
		}
	}
	for i := range outs {
		outs[i].Call = i
		if cs.Recheck && outs[i].keep != nil {
			outs[i].After = outs[i].keep()
		}
		outs[i].keep = nil
	}
	return resT{ID: cs.ID, Outs: outs}
}

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	if os.Args[1] == "-shape" {
		//development only: writes shape.go
		sh := map[string][]refField{}
		shapeOf(reflect.TypeOf(a2l.A2L{}), sh)
		b, _ := json.MarshalIndent(sh, "", " ")
		fmt.Printf("package main\n\n// the structures of the result when the specification was written (verifrun -shape)\nconst shapeJSON = `%s`\n", b)
		return
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Println("cannot open cases", err)
		os.Exit(3)
	}
	out, err := os.OpenFile(os.Args[2], os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		fmt.Println("cannot open results", err)
		os.Exit(3)
	}
	skip := 0
	if len(os.Args) > 3 {
		fmt.Sscan(os.Args[3], &skip)
	}
	rd := bufio.NewReaderSize(in, 1<<20)
	dec := json.NewDecoder(rd)
	enc := json.NewEncoder(out)
	for n := 0; dec.More(); n++ {
		var cs caseT
		if err := dec.Decode(&cs); err != nil {
			fmt.Println("bad case", err)
			os.Exit(3)
		}
		if n < skip {
			continue
		}
		t := cs.Timeout
		if t == 0 {
			t = 60
		}
		t0 := time.Now()
		done := make(chan resT, 1)
		go func() { done <- doCase(cs) }()
		select {
		case r := <-done:
			r.MS = time.Since(t0).Milliseconds()
			enc.Encode(r)
		case <-time.After(time.Duration(t) * time.Second):
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Println("HANG case", cs.ID, string(buf))
			enc.Encode(resT{ID: cs.ID, Hang: true, MS: time.Since(t0).Milliseconds()})
			out.Close()
			os.Exit(4)
		}
	}
	out.Close()
}
