// Command sinks drives RenderAll, CreateSTL, WriteSTL, Create3MF and the STL reader with
// scripted renderers, readers and writers, and records what they do.
package main

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"encoding/xml"
	"errors"
	"io"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"

	"github.com/soypat/sdf/internal/verifh/vh"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

type step struct {
	N int    `json:"n"`
	E string `json:"e"`
}

var errScript = errors.New("scripted renderer failure")

// scripted is a renderer which follows a script.
type scripted struct {
	rest  []step
	next  int
	log   func(b, k int, e string)
	ended string
	tris  []r3.Triangle // if not nil, the triangles to deliver instead of vh.Tri
}

func (s *scripted) tri(i int) r3.Triangle {
	if s.tris != nil {
		return s.tris[i-1]
	}
	return vh.Tri(i)
}

func (s *scripted) ReadTriangles(t []r3.Triangle) (int, error) {
	if len(s.rest) == 0 {
		s.note(len(t), 0, s.ended)
		return 0, toErr(s.ended)
	}
	if len(t) == 0 {
		s.note(0, 0, "nil")
		return 0, nil
	}
	h := &s.rest[0]
	k := h.N
	e := h.E
	if k > len(t) {
		k = len(t)
		e = "nil"
		h.N -= k
	} else {
		s.rest = s.rest[1:]
	}
	for i := 0; i < k; i++ {
		s.next++
		t[i] = s.tri(s.next)
	}
	// what is beyond k is not part of the result, and a caller that uses it is wrong
	for i := k; i < len(t) && i < k+8; i++ {
		t[i] = r3.Triangle{{X: 1e6}, {X: 1e6, Y: 1}, {X: 1e6, Z: 1}}
	}
	if e != "nil" {
		s.ended = e
	}
	s.note(len(t), k, e)
	return k, toErr(e)
}

func (s *scripted) note(b, k int, e string) {
	if s.log != nil {
		s.log(b, k, e)
	}
}

func toErr(e string) error {
	switch e {
	case "eof":
		return io.EOF
	case "fail":
		return errScript
	}
	return nil
}

func resOf(err error) string {
	if err != nil {
		return "fail"
	}
	return "ok"
}

// decodeSTL is an independent decoder of the binary STL layout.
func decodeSTL(b []byte, want func(i int) (r3.Triangle, r3.Vec)) vh.M {
	m := vh.M{"size": len(b), "count": -1, "hdrzero": false, "badrec": 0}
	var runs vh.Runs
	if len(b) >= 84 {
		m["count"] = int(binary.LittleEndian.Uint32(b[80:]))
		m["hdrzero"] = bytes.Equal(b[:80], make([]byte, 80))
		bad := 0
		n := (len(b) - 84) / 50
		for i := 0; i < n; i++ {
			rec := b[84+50*i:]
			var f [12]float64
			for j := range f {
				f[j] = float64(math.Float32frombits(binary.LittleEndian.Uint32(rec[4*j:])))
			}
			t := r3.Triangle{{X: f[3], Y: f[4], Z: f[5]}, {X: f[6], Y: f[7], Z: f[8]}, {X: f[9], Y: f[10], Z: f[11]}}
			id := vh.TriID(t)
			runs.Add(id)
			nrm := r3.Vec{X: f[0], Y: f[1], Z: f[2]}
			if id == 0 || r3.Norm(r3.Sub(nrm, vh.TriNormal(id))) > 1e-6 || rec[48] != 0 || rec[49] != 0 {
				bad++
			}
		}
		m["badrec"] = bad
	}
	m["runs"] = runs.Out()
	return m
}

func main() {
	switch os.Args[1] {
	case "script":
		script(os.Args[2], os.Args[3], os.Args[4], os.Args[5:])
	case "stlbytes":
		stlbytes(os.Args[2], os.Args[3], os.Args[4])
	case "stlread":
		stlread(os.Args[2], os.Args[3])
	case "faults":
		faults(os.Args[2], os.Args[3], os.Args[4])
	case "child":
		child(os.Args[2:])
	case "mf":
		mf(os.Args[2], os.Args[3], os.Args[4])
	}
}

// script replays renderer scripts through the given consumers.
func script(in, out, scratch string, ops []string) {
	w := vh.NewWriter(out)
	defer w.Close()
	n := 0
	vh.ReadLines(in, func(raw []byte) error {
		var c struct {
			Script []step `json:"script"`
			Kind   string `json:"kind"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		for _, op := range ops {
			n++
			name := op + "#" + strconv.Itoa(n)
			w.Put(vh.M{"ev": "start", "op": op, "case": name, "script": c.Script})
			s := &scripted{rest: append([]step{}, c.Script...)}
			s.log = func(b, k int, e string) {
				w.Put(vh.M{"ev": "read", "op": op, "case": name, "b": b, "k": k, "e": e})
			}
			end := vh.M{"ev": "end", "op": op, "case": name}
			path := filepath.Join(scratch, "out")
			p := vh.Guard(func() { runOp(op, s, path, end, n) })
			if p != "" {
				end["res"] = "panic"
				end["panic"] = p
				end["runs"] = [][2]int{}
				end["sameerr"] = false
				end["size"], end["count"], end["hdrzero"], end["badrec"], end["ntri"] = 0, 0, false, 0, -1
			}
			w.Put(end)
			os.Remove(path)
		}
		return nil
	})
}

func runOp(op string, s *scripted, path string, end vh.M, n int) {
	var runs vh.Runs
	switch op {
	case "renderall":
		t, err := render.RenderAll(s)
		for _, x := range t {
			runs.Add(vh.TriID(x))
		}
		end["res"] = resOf(err)
		end["sameerr"] = err == nil || errors.Is(err, errScript)
		end["runs"] = runs.Out()
	case "createstl":
		if n%3 == 0 { // the path already holds a longer file
			vh.Check(os.WriteFile(path, bytes.Repeat([]byte{0xff}, 5000), 0o600))
		}
		err := render.CreateSTL(path, s)
		end["res"] = resOf(err)
		end["size"], end["count"], end["hdrzero"], end["badrec"] = 0, 0, false, 0
		end["runs"] = [][2]int{}
		if err == nil {
			b, rerr := os.ReadFile(path)
			vh.Check(rerr)
			for k, v := range decodeSTL(b, nil) {
				end[k] = v
			}
			if len(b) > 84 { // WriteSTL of the same triangles gives the same bytes
				var buf bytes.Buffer
				var ts []r3.Triangle
				for i := 1; i <= s.next; i++ {
					ts = append(ts, vh.Tri(i))
				}
				if werr := render.WriteSTL(&buf, ts); werr != nil || !bytes.Equal(buf.Bytes(), b) {
					end["badrec"] = end["badrec"].(int) + 1000000
				}
			}
		}
	case "create3mf":
		err := quiet(func() error { return render.Create3MF(path, s) })
		end["res"] = resOf(err)
		end["ntri"] = -1
		end["runs"] = [][2]int{}
		if err == nil {
			m := read3MF(path)
			if m != nil {
				vs, ts := m.mesh()
				for _, t := range ts {
					if !inRange(t, len(vs)) {
						runs.Add(0)
						continue
					}
					runs.Add(vh.TriID(r3.Triangle{vs[t[0]], vs[t[1]], vs[t[2]]}))
				}
				end["ntri"] = len(ts)
				end["runs"] = runs.Out()
			}
		}
	}
}

func inRange(t [3]int, n int) bool {
	for _, i := range t {
		if i < 0 || i >= n {
			return false
		}
	}
	return true
}

// quiet discards what the library prints.
func quiet(f func() error) error {
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vh.Check(err)
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	return f()
}

// stlbytes writes short models and records every byte.
func stlbytes(in, out, scratch string) {
	w := vh.NewWriter(out)
	defer w.Close()
	vh.ReadLines(in, func(raw []byte) error {
		var c struct {
			Ids []int `json:"ids"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		var ts []r3.Triangle
		for _, id := range c.Ids {
			ts = append(ts, vh.Tri(id))
		}
		var buf bytes.Buffer
		var err error
		p := vh.Guard(func() { err = render.WriteSTL(&buf, ts) })
		put := func(how string, b []byte, err error, p string) {
			ints := make([]int, len(b))
			for i, x := range b {
				ints[i] = int(x)
			}
			w.Put(vh.M{"how": how, "ids": c.Ids, "bytes": ints, "res": resOf(err), "panic": p})
		}
		put("write", buf.Bytes(), err, p)
		path := filepath.Join(scratch, "b.stl")
		s := &scripted{rest: []step{{len(ts), "eof"}}, tris: ts}
		p = vh.Guard(func() { err = render.CreateSTL(path, s) })
		b, rerr := os.ReadFile(path)
		if rerr != nil {
			b = nil
		}
		put("create", b, err, p)
		os.Remove(path)
		return nil
	})
}

// chunked is a reader which splits its data as told; a chunk of 0 is an empty read.
type chunked struct {
	data        []byte
	chunks      []int
	i           int
	eofWithData bool
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := len(c.data)
	if len(c.chunks) > 0 {
		n = c.chunks[c.i%len(c.chunks)]
		c.i++
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	if len(c.data) == 0 && c.eofWithData && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

// buildSTL is an independent encoder.
func buildSTL(ids []int, count int) []byte {
	b := make([]byte, 84)
	binary.LittleEndian.PutUint32(b[80:], uint32(count))
	for _, id := range ids {
		b = append(b, record(vh.Tri(id), vh.TriNormal(id))...)
	}
	return b
}

func record(t r3.Triangle, n r3.Vec) []byte {
	var r [50]byte
	for i, v := range []r3.Vec{n, t[0], t[1], t[2]} {
		binary.LittleEndian.PutUint32(r[12*i:], math.Float32bits(float32(v.X)))
		binary.LittleEndian.PutUint32(r[12*i+4:], math.Float32bits(float32(v.Y)))
		binary.LittleEndian.PutUint32(r[12*i+8:], math.Float32bits(float32(v.Z)))
	}
	return r[:]
}

func stlread(in, out string) {
	w := vh.NewWriter(out)
	defer w.Close()
	vh.ReadLines(in, func(raw []byte) error {
		var c struct {
			Case   int    `json:"case"`
			N      int    `json:"n"`      // triangles encoded
			Count  int    `json:"count"`  // count in the header
			Cut    int    `json:"cut"`    // bytes dropped from the end
			Extra  int    `json:"extra"`  // bytes appended
			Chunks []int  `json:"chunks"` // repeated split pattern
			Eof    bool   `json:"eof"`    // end-of-file comes with the last data
			Bad    string `json:"bad"`    // kind of bad record
			BadAt  int    `json:"badat"`
			First  int    `json:"first"`
			Exp    int    `json:"exp"` // the model is scaled by this power of two
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		var ids []int
		for i := 0; i < c.N; i++ {
			ids = append(ids, c.First+i)
		}
		b := buildSTL(ids, c.Count)
		off := 84 + 50*c.BadAt
		for i := range ids {
			for k := 12; k < 48; k += 4 {
				f := b[84+50*i+k:]
				binary.LittleEndian.PutUint32(f, math.Float32bits(float32(math.Ldexp(float64(math.Float32frombits(binary.LittleEndian.Uint32(f))), c.Exp))))
			}
		}
		nan := func(o int, f float64) { binary.LittleEndian.PutUint32(b[off+o:], math.Float32bits(float32(f))) }
		switch c.Bad {
		case "nanv":
			nan(12+4*(c.BadAt%9), math.NaN())
		case "infv":
			nan(12+4*((c.BadAt+4)%9), math.Inf(-1))
		case "nann":
			nan(4*(c.BadAt%3), math.NaN())
		case "infn":
			nan(4*((c.BadAt+1)%3), math.Inf(1))
		case "deg12":
			copy(b[off+24:off+36], b[off+12:off+24])
		case "deg23":
			copy(b[off+36:off+48], b[off+24:off+36])
		case "deg31":
			copy(b[off+36:off+48], b[off+12:off+24])
		case "flip": // a normal of the opposite sense is accepted
			nan(0, -vh.TriNormal(ids[c.BadAt]).X)
			nan(4, -vh.TriNormal(ids[c.BadAt]).Y)
			nan(8, -vh.TriNormal(ids[c.BadAt]).Z)
		case "tilt": // a unit vector in the plane of the triangle
			e := vh.Tri(ids[c.BadAt])
			u := r3.Unit(r3.Sub(e[1+c.BadAt%2], e[c.BadAt%2]))
			nan(0, u.X)
			nan(4, u.Y)
			nan(8, u.Z)
		}
		b = b[:len(b)-c.Cut]
		b = append(b, make([]byte, c.Extra)...)
		var ts []r3.Triangle
		var err error
		p := vh.Guard(func() {
			ts, err = render.VerifReadSTL(&chunked{data: b, chunks: c.Chunks, eofWithData: c.Eof})
		})
		var runs vh.Runs
		for _, t := range ts {
			for k, v := range t {
				t[k] = r3.Vec{X: math.Ldexp(v.X, -c.Exp), Y: math.Ldexp(v.Y, -c.Exp), Z: math.Ldexp(v.Z, -c.Exp)}
			}
			runs.Add(vh.TriID(t))
		}
		res := "ok"
		if errors.Is(err, render.VerifErrNormal) {
			res = "warn"
		} else if err != nil {
			res = "fail"
		}
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		w.Put(vh.M{"case": c.Case, "res": res, "panic": p, "runs": runs.Out(), "msg": msg})
		return nil
	})
}

// limited is a writer that takes cap bytes in all and then fails in the given way.
type limited struct {
	left int
	mode string
	got  []byte
}

var errFull = errors.New("scripted write failure")

func (l *limited) Write(p []byte) (int, error) {
	if len(p) <= l.left {
		l.left -= len(p)
		l.got = append(l.got, p...)
		return len(p), nil
	}
	n := l.left
	l.left = 0
	l.got = append(l.got, p[:n]...)
	switch l.mode {
	case "short": // fewer bytes than asked for, without an error
		return n, nil
	case "zero":
		l.got = l.got[:len(l.got)-n]
		return 0, errFull
	}
	return n, errFull
}

func faults(in, out, scratch string) {
	w := vh.NewWriter(out)
	defer w.Close()
	self, err := os.Executable()
	vh.Check(err)
	vh.ReadLines(in, func(raw []byte) error {
		var c struct {
			Case int    `json:"case"`
			Op   string `json:"op"`
			N    int    `json:"n"`
			Cap  int    `json:"cap"`
			Mode string `json:"mode"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		var ids []int
		var ts []r3.Triangle
		for i := 1; i <= c.N; i++ {
			ids = append(ids, i)
			ts = append(ts, vh.Tri(i))
		}
		r := vh.M{"case": c.Case, "op": c.Op, "n": c.N, "cap": c.Cap, "mode": c.Mode, "complete": false}
		switch c.Op {
		case "writestl":
			l := &limited{left: c.Cap, mode: c.Mode}
			var err error
			r["panic"] = vh.Guard(func() { err = render.WriteSTL(l, ts) })
			r["res"] = resOf(err)
			r["complete"] = len(l.got) == 84+50*len(ids)
		default: // createstl, create3mf in a child whose files are limited in size
			path := filepath.Join(scratch, "f.out")
			target := path
			switch c.Mode {
			case "nodir":
				target = filepath.Join(scratch, "missing", "f.out")
			case "isdir":
				target = filepath.Join(scratch, "adir")
				vh.Check(os.MkdirAll(target, 0o700))
			case "devfull":
				target = "/dev/full"
			}
			rc, so := runChild(self, c.Op, target, c.N, c.Cap, c.Mode)
			r["res"], r["panic"] = rc, ""
			if rc == "panic" {
				r["panic"] = so
			}
			r["complete"] = false
			if c.Mode == "limit" || c.Mode == "none" {
				b, _ := os.ReadFile(path)
				r["size"] = len(b)
				if c.Op == "createstl" {
					r["complete"] = bytes.Equal(zeroSign(b), zeroSign(buildSTL(ids, c.N)))
				} else if m := read3MF(path); m != nil {
					_, t := m.mesh()
					r["complete"] = len(t) == c.N
				}
			}
			os.Remove(path)
		}
		w.Put(r)
		return nil
	})
}

// zeroSign is the file with negative zeros and the last bit of the normals removed.
func zeroSign(b []byte) []byte {
	c := append([]byte{}, b...)
	for i := 84; i+50 <= len(c); i += 50 {
		for j := 0; j < 12; j++ {
			o := i + 4*j
			u := binary.LittleEndian.Uint32(c[o:])
			if u == 1<<31 {
				binary.LittleEndian.PutUint32(c[o:], 0)
			}
			if j < 3 {
				f := math.Float32frombits(binary.LittleEndian.Uint32(c[o:]))
				binary.LittleEndian.PutUint32(c[o:], uint32(int32(math.Round(float64(f)*1e6))))
			}
		}
	}
	return c
}

func runChild(self, op, path string, n, cap int, mode string) (string, string) {
	pr, pw, err := os.Pipe()
	vh.Check(err)
	p, err := os.StartProcess(self, []string{self, "child", op, path, strconv.Itoa(n), strconv.Itoa(cap), mode},
		&os.ProcAttr{Files: []*os.File{nil, pw, pw}, Env: os.Environ()})
	vh.Check(err)
	pw.Close()
	b, _ := io.ReadAll(pr)
	pr.Close()
	st, err := p.Wait()
	vh.Check(err)
	out := string(b)
	switch {
	case strings.Contains(out, "RESULT ok"):
		return "ok", out
	case strings.Contains(out, "RESULT fail"):
		return "fail", out
	case strings.Contains(out, "RESULT panic"):
		return "panic", out
	}
	vh.Check(errors.New("child died: " + st.String() + " " + out))
	return "", ""
}

func child(a []string) {
	op, path, mode := a[0], a[1], a[4]
	n, _ := strconv.Atoi(a[2])
	cap, _ := strconv.Atoi(a[3])
	signal.Ignore(syscall.SIGXFSZ)
	if mode == "limit" {
		vh.Check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(cap), Max: uint64(cap)}))
	}
	var steps []step
	switch mode {
	case "rfail": // the renderer fails, with data, after cap triangles
		steps = []step{{cap, "fail"}}
	case "rfail0":
		steps = []step{{cap, "nil"}, {0, "fail"}}
	default:
		steps = []step{{n, "nil"}, {0, "eof"}}
	}
	s := &scripted{rest: steps}
	var err error
	p := vh.Guard(func() {
		if op == "createstl" {
			err = render.CreateSTL(path, s)
		} else {
			err = quiet(func() error { return render.Create3MF(path, s) })
		}
	})
	if p != "" {
		println("RESULT panic", p)
	} else {
		println("RESULT", resOf(err))
	}
}

// ---- 3MF

type mfModel struct {
	parts map[string][]byte
	m     struct {
		XMLName xml.Name
		Unit    string `xml:"unit,attr"`
		Objects []struct {
			ID       int    `xml:"id,attr"`
			Type     string `xml:"type,attr"`
			Vertices []struct {
				X string `xml:"x,attr"`
				Y string `xml:"y,attr"`
				Z string `xml:"z,attr"`
			} `xml:"mesh>vertices>vertex"`
			Triangles []struct {
				V1 int `xml:"v1,attr"`
				V2 int `xml:"v2,attr"`
				V3 int `xml:"v3,attr"`
			} `xml:"mesh>triangles>triangle"`
		} `xml:"resources>object"`
		Items []struct {
			ObjectID int `xml:"objectid,attr"`
		} `xml:"build>item"`
	}
	target, relType string
}

const modelType = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"

func read3MF(path string) *mfModel {
	z, err := zip.OpenReader(path)
	if err != nil {
		return nil
	}
	defer z.Close()
	m := &mfModel{parts: map[string][]byte{}}
	for _, f := range z.File {
		rc, err := f.Open()
		if err != nil {
			return nil
		}
		b, err := io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return nil
		}
		m.parts[f.Name] = b
	}
	var rels struct {
		R []struct {
			Target string `xml:"Target,attr"`
			Type   string `xml:"Type,attr"`
		} `xml:"Relationship"`
	}
	if err := xml.Unmarshal(m.parts["_rels/.rels"], &rels); err != nil {
		return nil
	}
	for _, r := range rels.R {
		if r.Type == modelType {
			m.target = strings.TrimPrefix(r.Target, "/")
		}
	}
	if err := xml.Unmarshal(m.parts[m.target], &m.m); err != nil {
		return nil
	}
	return m
}

func (m *mfModel) mesh() (vs []r3.Vec, ts [][3]int) {
	f := func(s string) float64 {
		x, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return math.NaN()
		}
		return x
	}
	if len(m.m.Objects) == 0 {
		return nil, nil
	}
	o := m.m.Objects[0]
	for _, v := range o.Vertices {
		vs = append(vs, r3.Vec{X: f(v.X), Y: f(v.Y), Z: f(v.Z)})
	}
	for _, t := range o.Triangles {
		ts = append(ts, [3]int{t.V1, t.V2, t.V3})
	}
	return vs, ts
}

// mf writes models over small vertex alphabets and records the mesh read back, with coordinates
// replaced by the number of the alphabet's vertex they are bit-identical to (0 if none).
func mf(in, out, scratch string) {
	w := vh.NewWriter(out)
	defer w.Close()
	alpha := [][]r3.Vec{
		{{X: 0, Y: 0, Z: 0}, {X: 1}, {Y: 1}, {Z: 1}, {X: 1, Y: 1}, {X: 1, Y: 1, Z: 1}},
		{{X: 0.1, Y: 0.2, Z: 0.3}, {X: 0.1 + 0.2, Y: 0.3, Z: 1. / 3}, {X: 0.30000000000000004, Y: 0.30000000000000004, Z: 1. / 3}, {X: 1e-300, Y: 5e-324, Z: -1e-17}, {X: 1.7976931348623157e308, Y: -1e22, Z: 123456789.123456789}, {X: -0.1, Y: -0.2, Z: -0.3}},
		{{X: 1, Y: 2, Z: 3}, {X: 1, Y: 3, Z: 2}, {X: 2, Y: 1, Z: 3}, {X: 2, Y: 3, Z: 1}, {X: 3, Y: 1, Z: 2}, {X: 3, Y: 2, Z: 1}},
		{{X: 1e16, Y: 1}, {X: 1e16 + 2, Y: 1}, {X: 1, Y: 1 + 2e-16}, {X: 1, Y: 1 + 5e-16}, {X: 1e-7}, {X: 1.0000000000000002e-7}},
	}
	vh.ReadLines(in, func(raw []byte) error {
		var c struct {
			Case  int      `json:"case"`
			Tris  [][3]int `json:"tris"`
			Alpha int      `json:"alpha"`
			Split int      `json:"split"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		al := alpha[c.Alpha%len(alpha)]
		var ts []r3.Triangle
		for _, t := range c.Tris {
			ts = append(ts, r3.Triangle{al[t[0]-1], al[t[1]-1], al[t[2]-1]})
		}
		var steps []step
		left := len(ts)
		for left > c.Split && c.Split > 0 {
			steps = append(steps, step{c.Split, "nil"})
			left -= c.Split
		}
		steps = append(steps, step{left, "nil"}, step{0, "eof"})
		path := filepath.Join(scratch, "m.3mf")
		var err error
		p := vh.Guard(func() {
			err = quiet(func() error { return render.Create3MF(path, &scripted{rest: steps, tris: ts}) })
		})
		r := vh.M{"case": c.Case, "alpha": c.Alpha, "in": c.Tris, "res": resOf(err), "panic": p,
			"verts": []int{}, "tris": [][3]int{}, "unit": "", "parts": []string{}, "objs": 0, "items": []int{}, "objid": -1, "rel": "", "ct": false, "root": ""}
		if m := read3MF(path); err == nil && m != nil {
			vs, tt := m.mesh()
			vi := []int{}
			for _, v := range vs {
				k := 0
				for i, a := range al {
					if a == v {
						k = i + 1
					}
				}
				vi = append(vi, k)
			}
			if tt == nil {
				tt = [][3]int{}
			}
			r["verts"], r["tris"] = vi, tt
			r["unit"], r["root"], r["rel"] = m.m.Unit, m.m.XMLName.Local, m.target
			r["objs"] = len(m.m.Objects)
			items := []int{}
			for _, it := range m.m.Items {
				items = append(items, it.ObjectID)
			}
			r["items"] = items
			if len(m.m.Objects) > 0 {
				r["objid"] = m.m.Objects[0].ID
			}
			parts := []string{}
			for k := range m.parts {
				parts = append(parts, k)
			}
			r["parts"] = parts
			ct := string(m.parts["[Content_Types].xml"])
			r["ct"] = strings.Contains(ct, `Extension="model"`) && strings.Contains(ct, `Extension="rels"`)
		}
		os.Remove(path)
		w.Put(r)
		return nil
	})
}
