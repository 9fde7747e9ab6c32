// Package vh has what the harness programs share: ndjson input and output and the numbered
// triangles used to recognise what went through a pipeline.
package vh

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"gonum.org/v1/gonum/spatial/r3"
)

// hangTicks is how many quarter seconds a case may take, and hangHeap how much memory it may
// use, before it is said not to finish. Cases take milliseconds, a few of them seconds.
const (
	hangTicks = 4 * 110
	hangHeap  = 6 << 30
)

// watch ends the harness when a case does not finish, showing what every goroutine does. Ticks
// are counted and not the time, which also passes while nothing runs.
func watch(cases *int64) {
	last, ticks := int64(-1), 0
	for {
		time.Sleep(250 * time.Millisecond)
		n := atomic.LoadInt64(cases)
		if n < 0 {
			return
		}
		if n != last {
			last, ticks = n, 0
		}
		ticks++
		var m runtime.MemStats
		if ticks > 4 {
			runtime.ReadMemStats(&m)
		}
		if ticks > hangTicks || m.HeapAlloc > hangHeap {
			buf := make([]byte, 1<<18)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "VH-HANG: case %d does not finish (%d s, %d MB)\n%s", n, ticks/4, m.HeapAlloc>>20, buf)
			os.Exit(5)
		}
	}
}

// ReadLines calls f with every JSON value of an ndjson file; a line holding a JSON string is
// decoded once more.
func ReadLines(path string, f func(raw []byte) error) {
	fp, err := os.Open(path)
	Check(err)
	defer fp.Close()
	rd := bufio.NewReaderSize(fp, 1<<20)
	var cases int64
	go watch(&cases)
	for {
		line, err := rd.ReadBytes('\n')
		line = bytes.TrimSpace(line)
		if len(line) > 0 {
			if line[0] == '"' {
				var s string
				Check(json.Unmarshal(line, &s))
				line = []byte(s)
			}
			atomic.AddInt64(&cases, 1)
			Check(f(line))
		}
		if err != nil {
			atomic.StoreInt64(&cases, -1)
			return
		}
	}
}

// Writer writes ndjson.
type Writer struct {
	fp *os.File
	b  *bufio.Writer
	e  *json.Encoder
}

func NewWriter(path string) *Writer {
	fp, err := os.Create(path)
	Check(err)
	b := bufio.NewWriterSize(fp, 1<<20)
	e := json.NewEncoder(b)
	e.SetEscapeHTML(false)
	return &Writer{fp, b, e}
}

func (w *Writer) Put(v interface{}) { Check(w.e.Encode(v)) }
func (w *Writer) Flush()            { Check(w.b.Flush()) }
func (w *Writer) Close()            { w.Flush(); Check(w.fp.Close()) }

// Broken ends the harness with a violation: the code under test does something after which
// nothing else can be judged.
func Broken(why string) {
	fmt.Fprintln(os.Stderr, "VH-BROKEN:", why)
	os.Exit(6)
}

// Check ends the harness on an error of its own.
func Check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
}

// M is a JSON object.
type M map[string]interface{}

// Guard runs f and returns the panic it ended with, if any.
func Guard(f func()) (msg string) {
	defer func() {
		if a := recover(); a != nil {
			msg = fmt.Sprint(a)
			if msg == "" {
				msg = "panic"
			}
			if re, ok := a.(runtime.Error); ok {
				msg = "runtime: " + re.Error()
			}
			buf := make([]byte, 1<<14)
			buf = buf[:runtime.Stack(buf, false)]
			if !strings.Contains(string(buf), "github.com/soypat/sdf") {
				fmt.Fprintln(os.Stderr, "HARNESS: panic outside of the code under test:", msg)
				os.Exit(3)
			}
		}
	}()
	f()
	return ""
}

var legs = [8][2]r3.Vec{
	{{X: 1}, {Y: 1}},
	{{Y: 1}, {X: 1}},
	{{Y: 1}, {Z: 1}},
	{{Z: 1}, {Y: 1}},
	{{Z: 2}, {X: 1}},
	{{X: 1}, {Z: 2}},
	{{Z: 1}, {X: 4, Y: 3}},
	{{X: 4, Y: 3}, {Z: 1}},
}

var normals = [8]r3.Vec{{Z: 1}, {Z: -1}, {X: 1}, {X: -1}, {Y: 1}, {Y: -1}, {X: -.6, Y: .8}, {X: .6, Y: -.8}}

// Tri is the triangle number id (1, 2, ...); all are distinct, exactly representable in 32 bit
// floats, and have a known unit normal. StlCodec.tla states the same triangles.
func Tri(id int) r3.Triangle {
	l := legs[id%8]
	o := r3.Vec{X: float64(id%97-48) / 4, Y: float64((id/97)%89 - 40), Z: float64(id/8633) + 0.5}
	return r3.Triangle{o, r3.Add(o, l[0]), r3.Add(o, l[1])}
}

// TriNormal is its unit normal by the right hand rule.
func TriNormal(id int) r3.Vec { return normals[id%8] }

// TriID inverts Tri; 0 if t is none of its values.
func TriID(t r3.Triangle) int {
	x := int(t[0].X*4) + 48
	y := int(t[0].Y) + 40
	z := int(t[0].Z - 0.5)
	if x < 0 || x >= 97 || y < 0 || y >= 89 || z < 0 || z > 1000 {
		return 0
	}
	// id = x mod 97, (id div 97) mod 89 = y, id div 8633 = z
	id := z*8633 + y*97 + x
	if id > 0 && Tri(id) == t {
		return id
	}
	return 0
}

// Runs collects numbers as maximal ascending intervals in order of appearance.
type Runs struct {
	R [][2]int
	N int
}

func (r *Runs) Add(id int) {
	r.N++
	if n := len(r.R); n > 0 && id != 0 && r.R[n-1][1]+1 == id && r.R[n-1][0] != 0 {
		r.R[n-1][1] = id
		return
	}
	if len(r.R) < 50 { // what is more than that is wrong anyway
		r.R = append(r.R, [2]int{id, id})
	}
}

func (r *Runs) Out() [][2]int {
	if r.R == nil {
		return [][2]int{}
	}
	return r.R
}
