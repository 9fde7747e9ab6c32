// Command octree runs the octree renderer on lattice fields: fields which are known exactly, as
// integers, at every point the renderer samples. Modes:
//
//	stream IN OUT   one log of reads per case (C01, C02)
//	topo IN OUT     one mesh per case, in lattice coordinates (C04, C05)
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"sync"
	"time"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/internal/verifh/vh"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

// Field is an expression over half-cell lattice coordinates; its value is in quarters of a half cell.
type Field struct {
	Op   string   `json:"op"`
	C    [3]int   `json:"c"`
	R    [3]int   `json:"r"`
	D    int      `json:"d"`
	Kids []Field  `json:"kids"`
	Pts  [][3]int `json:"pts"`
	N    [3]int   `json:"n"` // number of cells, for the hash field
}

func iabs(a float64) float64 { return math.Abs(a) }

// Hash is the pseudo random non-zero value of a lattice corner; MeshField.tla states the same.
func Hash(seed, i, j, k int) int {
	h := (seed*7 + i*31 + j*57 + k*83 + i*j*5 + j*k*11 + i*k*17) % 1009
	h = (h*h + 3*h + seed) % 1013
	m := 1 + h%3
	if (h/3)%2 == 0 {
		return -m
	}
	return m
}

func (f *Field) eval(u [3]float64) float64 {
	switch f.Op {
	case "box": // c, r in quarters
		m := math.Inf(-1)
		for a := 0; a < 3; a++ {
			m = math.Max(m, iabs(4*u[a]-float64(f.C[a]))-float64(f.R[a]))
		}
		return m
	case "oct": // in quarters, over root three
		s := 0.
		for a := 0; a < 3; a++ {
			s += iabs(4*u[a] - float64(f.C[a]))
		}
		return s - float64(f.D)
	case "plane": // r is the direction, over root three
		s := 0.
		for a := 0; a < 3; a++ {
			s += 4 * u[a] * float64(f.R[a])
		}
		return s - float64(f.D)
	case "min":
		return math.Min(f.Kids[0].eval(u), f.Kids[1].eval(u))
	case "max":
		return math.Max(f.Kids[0].eval(u), f.Kids[1].eval(u))
	case "diff":
		return math.Max(f.Kids[0].eval(u), -f.Kids[1].eval(u))
	case "points": // corners pts (in cells), half a cell around each
		m := math.Inf(1)
		for _, p := range f.Pts {
			d := 0.
			for a := 0; a < 3; a++ {
				x := u[a] - 2*float64(p[a])
				d += x * x
			}
			m = math.Min(m, math.Sqrt(d))
		}
		return 4*m - 4
	case "hash":
		var c [3]int
		for a := 0; a < 3; a++ {
			if u[a] != math.Floor(u[a]) {
				return 0
			}
			c[a] = int(u[a])
			if c[a]%2 != 0 {
				return 0
			}
			c[a] /= 2
		}
		for a := 0; a < 3; a++ {
			if c[a] < 1 || c[a] > f.N[a]-1 {
				return 1
			}
		}
		return float64(Hash(f.D, c[0], c[1], c[2]))
	}
	vh.Check(fmt.Errorf("unknown field %q", f.Op))
	return 0
}

// Model is a field placed on the lattice which the renderer uses for bounds bb.
type Model struct {
	f     *Field
	bb    r3.Box
	org   r3.Vec
	res   float64
	scale float64 // quarters to length
	real  sdf.SDF3
	gate  *gate
}

func (m *Model) Bounds() r3.Box { return m.bb }
func (m *Model) index(p r3.Vec) [3]float64 {
	u := [3]float64{(p.X - m.org.X) / m.res, (p.Y - m.org.Y) / m.res, (p.Z - m.org.Z) / m.res}
	for a := range u {
		if r := math.Round(u[a]); math.Abs(u[a]-r) < 1e-6 {
			u[a] = r
		}
	}
	return u
}
func (m *Model) Evaluate(p r3.Vec) float64 {
	if m.gate != nil {
		m.gate.pass()
	}
	if m.real != nil {
		return m.real.Evaluate(p)
	}
	return m.f.eval(m.index(p)) * m.scale
}

// probe is the distance to the three lines along the axes through the lowest corner of the
// bounds, so that the renderer visits every coordinate of its lattice.
type probe struct {
	bb r3.Box
	mu sync.Mutex
	xs [3]map[float64]bool
}

func (p *probe) Bounds() r3.Box { return p.bb }
func (p *probe) Evaluate(v r3.Vec) float64 {
	p.mu.Lock()
	p.xs[0][v.X], p.xs[1][v.Y], p.xs[2][v.Z] = true, true, true
	p.mu.Unlock()
	d := r3.Sub(v, p.bb.Min)
	return math.Min(math.Hypot(d.X, d.Y), math.Min(math.Hypot(d.X, d.Z), math.Hypot(d.Y, d.Z)))
}

// lattice finds origin and spacing (half a cell) of the points sampled.
func lattice(bb r3.Box, cells int) (org r3.Vec, res float64) {
	p := &probe{bb: bb}
	for a := range p.xs {
		p.xs[a] = map[float64]bool{}
	}
	r := render.NewOctreeRenderer(p, cells)
	buf := make([]r3.Triangle, 1<<12)
	for i := 0; ; i++ {
		_, err := r.ReadTriangles(buf)
		if err != nil {
			break
		}
		if i > 10000000 {
			vh.Broken("rendering of three edges of the bounds does not end")
		}
	}
	var o [3]float64
	for a := range p.xs {
		var s []float64
		for x := range p.xs[a] {
			s = append(s, x)
		}
		sort.Float64s(s)
		if len(s) < 3 {
			vh.Broken(fmt.Sprintf("sampled %d coordinates along an axis of a surface along the edges of the bounds", len(s)))
		}
		o[a] = s[0]
		// the smallest step; single coordinates may be missing when a part was skipped
		d := s[len(s)-1] - s[0]
		for i := 1; i < len(s); i++ {
			d = math.Min(d, s[i]-s[i-1])
		}
		d = (s[len(s)-1] - s[0]) / math.Round((s[len(s)-1]-s[0])/d)
		for _, x := range s {
			if i := (x - s[0]) / d; math.Abs(i-math.Round(i)) > 1e-6 {
				vh.Broken("sampled points are not a lattice")
			}
		}
		if a > 0 && math.Abs(d-res) > 1e-9*d {
			vh.Broken("sampled lattice is not cubic")
		}
		res = d
	}
	return r3.Vec{X: o[0], Y: o[1], Z: o[2]}, res
}

// Case as generated by the specification.
type Case struct {
	Case    int    `json:"case"`
	Dims    [3]int `json:"dims"`
	Off     [3]int `json:"off"`
	Unit    int    `json:"unit"`
	Cells   int    `json:"cells"`
	Rt3     bool   `json:"rt3"`
	Field   Field  `json:"field"`
	Shape   string `json:"shape"`
	Workers int    `json:"workers"`
	Lens    []int  `json:"lens"`
	Sched   []int  `json:"sched"`
}

type latkey struct {
	dims, off   [3]int
	unit, cells int
}

var lats = map[latkey]*Model{}

func (c *Case) model() *Model {
	if c.Shape != "" {
		s := realShape(c.Shape)
		org, res := lattice(s.Bounds(), c.Cells)
		return &Model{bb: s.Bounds(), org: org, res: res, scale: 1, real: s}
	}
	k := latkey{c.Dims, c.Off, c.Unit, c.Cells}
	m, ok := lats[k]
	if !ok {
		u := float64(c.Unit) / 8
		if c.Unit < 0 { // parts drawn in large units
			u = math.Ldexp(1, c.Unit)
		}
		min := r3.Vec{X: float64(c.Off[0]) * .37 * u, Y: float64(c.Off[1]) * .37 * u, Z: float64(c.Off[2]) * .37 * u}
		bb := r3.Box{Min: min, Max: r3.Add(min, r3.Vec{X: float64(c.Dims[0]) * u, Y: float64(c.Dims[1]) * u, Z: float64(c.Dims[2]) * u})}
		m = &Model{bb: bb}
		m.org, m.res = lattice(bb, c.Cells)
		lats[k] = m
	}
	n := *m
	n.f = &c.Field
	n.scale = n.res / 4
	if c.Rt3 {
		n.scale /= math.Sqrt(3)
	}
	return &n
}

func realShape(name string) sdf.SDF3 {
	switch name {
	case "sphere":
		return must3.Sphere(1.3)
	case "box":
		return must3.Box(r3.Vec{X: 2, Y: 1, Z: .7}, .1)
	case "cyl":
		return must3.Cylinder(2, .6, .1)
	case "cone":
		return must3.Cone(2, 1, .3, 0)
	case "capsule":
		return must3.Cylinder(2, .4, .4)
	case "csg":
		return sdf.Difference3D(must3.Box(r3.Vec{X: 2, Y: 2, Z: 1}, .2), sdf.Transform3D(must3.Cylinder(3, .5, 0), sdf.RotateX(.3)))
	case "tilt":
		return sdf.Transform3D(must3.Box(r3.Vec{X: 2, Y: 1, Z: .7}, 0), sdf.RotateX(.5).Mul(sdf.RotateY(.7)))
	}
	vh.Check(fmt.Errorf("unknown shape %q", name))
	return nil
}

// gate lets concurrent evaluations pass one at a time in the order the schedule picks.
type gate struct {
	mu      sync.Mutex
	waiting []chan struct{}
	sched   []int
	i       int
	kick    chan struct{}
	stop    chan struct{}
}

func newGate(sched []int, workers int) *gate {
	g := &gate{sched: sched, kick: make(chan struct{}, 1), stop: make(chan struct{})}
	go g.loop(workers)
	return g
}

func (g *gate) pass() {
	ch := make(chan struct{})
	g.mu.Lock()
	g.waiting = append(g.waiting, ch)
	g.mu.Unlock()
	select {
	case g.kick <- struct{}{}:
	default:
	}
	<-ch
}

func (g *gate) loop(workers int) {
	for {
		select {
		case <-g.stop:
			return
		case <-g.kick:
		}
		for {
			// give others the chance to arrive
			var n int
			t := time.Now()
			for {
				g.mu.Lock()
				n = len(g.waiting)
				g.mu.Unlock()
				if n == 0 || n >= workers || time.Since(t) > 40*time.Microsecond {
					break
				}
				time.Sleep(5 * time.Microsecond)
			}
			if n == 0 {
				break
			}
			g.mu.Lock()
			k := g.sched[g.i%len(g.sched)] % len(g.waiting)
			g.i++
			ch := g.waiting[k]
			g.waiting = append(g.waiting[:k:k], g.waiting[k+1:]...)
			g.mu.Unlock()
			close(ch)
		}
	}
}

// ---------------------------------------------------------------- stream

// idOf numbers the triangles of the points field: 8 per point by octant.
func (m *Model) idOf(t r3.Triangle, pts map[[3]int]int) int {
	c := r3.Scale(1./3, r3.Add(t[0], r3.Add(t[1], t[2])))
	u := m.index(c)
	var p [3]int
	oct := 0
	for a := 0; a < 3; a++ {
		p[a] = int(math.Round(u[a] / 2))
		if u[a] > 2*float64(p[a]) {
			oct |= 1 << a
		}
	}
	i, ok := pts[p]
	if !ok {
		return 0
	}
	// the three vertices lie half a cell from the point along the axes of the octant
	for a := 0; a < 3; a++ {
		found := false
		for _, v := range t {
			w := m.index(v)
			good := true
			for b := 0; b < 3; b++ {
				want := 2 * float64(p[b])
				if a == b {
					if oct&(1<<a) != 0 {
						want++
					} else {
						want--
					}
				}
				if math.Abs(w[b]-want) > 1e-6 {
					good = false
				}
			}
			found = found || good
		}
		if !found {
			return 0
		}
	}
	return 8*i + oct + 1
}

func stream(in, out string) {
	w := vh.NewWriter(out)
	defer w.Close()
	type refkey struct {
		latkey
		seed int
	}
	refs := map[refkey]map[r3.Triangle]int{}
	vh.ReadLines(in, func(raw []byte) error {
		var c Case
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		m := c.model()
		var id func(r3.Triangle) int
		total := 0
		if c.Field.Op == "points" {
			pts := map[[3]int]int{}
			for i, p := range c.Field.Pts {
				pts[p] = i
			}
			total = 8 * len(c.Field.Pts)
			id = func(t r3.Triangle) int { return m.idOf(t, pts) }
		} else {
			k := refkey{latkey{c.Dims, c.Off, c.Unit, c.Cells}, c.Field.D}
			ref, ok := refs[k]
			if !ok {
				ref = map[r3.Triangle]int{}
				r := render.VerifNewOctree(m, c.Cells, 0)
				n := 0
				buf := make([]r3.Triangle, 1<<16)
				for i := 0; i < 1000000; i++ {
					k, err := r.ReadTriangles(buf)
					for _, t := range buf[:k] {
						n++
						if _, dup := ref[t]; !dup {
							ref[t] = n
						}
					}
					if err != nil {
						break
					}
				}
				ref[r3.Triangle{}] = n // its size
				refs[k] = ref
			}
			total = ref[r3.Triangle{}]
			id = func(t r3.Triangle) int {
				if t == (r3.Triangle{}) {
					return 0
				}
				return ref[t]
			}
		}
		w.Put(vh.M{"ev": "start", "case": c.Case, "total": total})
		r := render.VerifNewOctree(m, c.Cells, c.Workers)
		if c.Workers > 1 && len(c.Sched) > 0 && c.Cells <= 8 {
			m.gate = newGate(c.Sched, c.Workers)
		}
		side := 1
		for side < 2*c.Cells {
			side *= 2
		}
		limit := 4*side*side*side + 10*total + 1000 // the cubes there can be, with room to spare
		empty := 0
		flush := func() {
			if empty > 0 {
				w.Put(vh.M{"ev": "empty", "case": c.Case, "count": empty})
				empty = 0
			}
		}
		after := -1
		bad := 0
		for i := 0; ; i++ {
			buf := make([]r3.Triangle, c.Lens[i%len(c.Lens)])
			var n int
			var err error
			done := make(chan string, 1)
			go func() { done <- vh.Guard(func() { n, err = r.ReadTriangles(buf) }) }()
			var msg string
			select {
			case msg = <-done:
			case <-time.After(120 * time.Second):
				w.Put(vh.M{"ev": "hang", "case": c.Case, "call": i})
				w.Close()
				os.Exit(0)
			}
			if msg != "" {
				flush()
				w.Put(vh.M{"ev": "panic", "case": c.Case, "msg": msg})
				break
			}
			if n == 0 && err == nil && after < 0 {
				empty++
				if i > limit {
					flush()
					w.Put(vh.M{"ev": "endless", "case": c.Case, "calls": i})
					break
				}
				continue
			}
			flush()
			ids := []int{}
			if n >= 0 && n <= len(buf) {
				for _, t := range buf[:n] {
					k := id(t)
					ids = append(ids, k)
					if k == 0 {
						bad++
					}
				}
			}
			e := "nil"
			if err == io.EOF {
				e = "eof"
			} else if err != nil {
				e = err.Error()
			}
			w.Put(vh.M{"ev": "read", "case": c.Case, "len": len(buf), "n": n, "e": e, "ids": ids})
			if i > limit || bad > 100 || (e != "nil" && e != "eof") {
				if i > limit {
					w.Put(vh.M{"ev": "endless", "case": c.Case, "calls": i})
				}
				break
			}
			if e == "eof" || after >= 0 { // three more reads after the end
				after++
				if after == 3 {
					break
				}
			}
		}
		if m.gate != nil {
			close(m.gate.stop)
		}
		w.Put(vh.M{"ev": "end", "case": c.Case})
		return nil
	})
}

// ---------------------------------------------------------------- topology

func topo(in, out string) {
	w := vh.NewWriter(out)
	defer w.Close()
	vh.ReadLines(in, func(raw []byte) error {
		var c Case
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		m := c.model()
		tris, err := render.RenderAll(render.VerifNewOctree(m, c.Cells, c.Workers))
		if err != nil {
			w.Put(vh.M{"ev": "mesh", "case": c.Case, "err": err.Error(), "verts": []int{}, "tris": []int{}, "wind": []int{}, "val": []int{}, "split": []string{}})
			return nil
		}
		// vertices in lattice coordinates, numbered
		type key [3]int64
		num := map[key]int{}
		var verts [][]int // i, j, k in cells, axis (0: corner), fraction in millionths; axis -1: off the lattice edges
		var vals [][]int
		value := func(i, j, k int) float64 {
			return m.Evaluate(r3.Vec{X: m.org.X + float64(2*i)*m.res, Y: m.org.Y + float64(2*j)*m.res, Z: m.org.Z + float64(2*k)*m.res})
		}
		vid := func(p r3.Vec) int {
			u := [3]float64{(p.X - m.org.X) / m.res / 2, (p.Y - m.org.Y) / m.res / 2, (p.Z - m.org.Z) / m.res / 2}
			var kk key
			for a := range u {
				kk[a] = int64(math.Round(u[a] * 1e6))
			}
			for d := int64(0); d < 27; d++ { // the neighbours of the rounded position
				k2 := key{kk[0] + (d%3+1)%3 - 1, kk[1] + (d/3%3+1)%3 - 1, kk[2] + (d/9+1)%3 - 1}
				if n, ok := num[k2]; ok {
					return n
				}
			}
			v := make([]int, 5)
			axis := 0
			for a := range u {
				r := math.Round(u[a])
				if math.Abs(u[a]-r) < 1e-6 {
					v[a] = int(r)
					continue
				}
				if axis != 0 {
					axis = -1
					break
				}
				axis = a + 1
				f := math.Floor(u[a])
				v[a] = int(f)
				v[4] = int(math.Round((u[a] - f) * 1e6))
			}
			v[3] = axis
			verts = append(verts, v)
			num[kk] = len(verts)
			if m.real != nil {
				e := []int{0, 0, 0}
				if axis >= 0 {
					a := value(v[0], v[1], v[2])
					q := [3]int{v[0], v[1], v[2]}
					if axis > 0 {
						q[axis-1]++
					}
					b := value(q[0], q[1], q[2])
					e[0], e[1] = sign(a), sign(b)
					if a != b {
						e[2] = int(math.Round(a / (a - b) * 1e6))
					}
				}
				vals = append(vals, e)
			}
			return len(verts)
		}
		ts := make([][]int, len(tris))
		lim := len(tris)
		// vertices on a lattice edge which occur as more than one point
		point := map[int]r3.Vec{}
		split := [][]float64{}
		for i := 0; i < lim; i++ {
			t := tris[i]
			ts[i] = []int{vid(t[0]), vid(t[1]), vid(t[2])}
			for a, id := range ts[i] {
				if q, ok := point[id]; ok && q != t[a] && verts[id-1][3] > 0 && len(split) < 3 {
					split = append(split, []float64{q.X, q.Y, q.Z, t[a].X, t[a].Y, t[a].Z})
				}
				point[id] = t[a]
			}
		}
		// winding numbers around corners
		n := [3]int{}
		sz := r3.Sub(m.bb.Max, m.bb.Min)
		for a, s := range [3]float64{sz.X, sz.Y, sz.Z} {
			n[a] = int(math.Ceil(s/m.res/2)) + 1
		}
		wind := [][]int{}
		crossing := [][]int{}
		step := 1
		if cells := n[0] * n[1] * n[2]; cells > 4000 {
			step = cells/4000 + 1
		}
		cnt := 0
		for i := 0; i <= n[0]; i++ {
			for j := 0; j <= n[1]; j++ {
				for k := 0; k <= n[2]; k++ {
					v := value(i, j, k)
					if m.real != nil {
						for a := 0; a < 3; a++ {
							q := [3]int{i, j, k}
							q[a]++
							if v2 := value(q[0], q[1], q[2]); sign(v)*sign(v2) < 0 {
								crossing = append(crossing, []int{i, j, k, a + 1})
							}
						}
					}
					cnt++
					if v == 0 || cnt%step != 0 {
						continue
					}
					p := r3.Vec{X: m.org.X + float64(2*i)*m.res, Y: m.org.Y + float64(2*j)*m.res, Z: m.org.Z + float64(2*k)*m.res}
					wind = append(wind, []int{i, j, k, winding(p, tris), sign(v)})
				}
			}
		}
		e := vh.M{"ev": "mesh", "case": c.Case, "err": "", "verts": verts, "tris": ts, "wind": wind, "n": n, "split": fmtSplit(split)}
		if verts == nil {
			e["verts"] = []int{}
		}
		if m.real != nil {
			e["vals"] = vals
			e["crossing"] = crossing
		}
		w.Put(e)
		return nil
	})
}

func sign(a float64) int {
	switch {
	case a < 0:
		return -1
	case a > 0:
		return 1
	}
	return 0
}

// winding is the winding number in thousandths (exact ones are multiples of 1000).
func winding(p r3.Vec, tris []r3.Triangle) int {
	s := 0.
	for _, t := range tris {
		a, b, c := r3.Sub(t[0], p), r3.Sub(t[1], p), r3.Sub(t[2], p)
		la, lb, lc := r3.Norm(a), r3.Norm(b), r3.Norm(c)
		num := r3.Dot(a, r3.Cross(b, c))
		den := la*lb*lc + r3.Dot(a, b)*lc + r3.Dot(b, c)*la + r3.Dot(c, a)*lb
		s += 2 * math.Atan2(num, den)
	}
	return int(math.Round(s / (4 * math.Pi) * 1000))
}

func main() {
	switch os.Args[1] {
	case "stream":
		stream(os.Args[2], os.Args[3])
	case "topo":
		topo(os.Args[2], os.Args[3])
	case "queue":
		queue(os.Args[2], os.Args[3])
	default:
		vh.Check(fmt.Errorf("mode %q", os.Args[1]))
	}
}

// fmtSplit writes the points as strings: the specification only asks whether there are any.
func fmtSplit(s [][]float64) []string {
	out := []string{}
	for _, v := range s {
		out = append(out, fmt.Sprintf("%v", v))
	}
	return out
}
