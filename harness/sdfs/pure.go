package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"sync"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/internal/d2"
	"github.com/soypat/sdf/internal/d3"
	"github.com/soypat/sdf/internal/verifh/vh"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// An input is a slice which belongs to the caller: its contents as a text, beyond its
// length up to its capacity, and a way to overwrite it.
type input struct {
	text  func() string
	spoil func()
}

func (b *builder) own2(v d2.Set) d2.Set {
	b.own = append(b.own, input{func() string { return fmt.Sprintf("%x", v[:cap(v)]) }, func() {
		for i := range v[:cap(v)] {
			v[:cap(v)][i] = r2.Vec{X: 977 * b.u, Y: -431 * b.u * float64(i)}
		}
	}})
	return v
}
func (b *builder) own3(v d3.Set) d3.Set {
	b.own = append(b.own, input{func() string { return fmt.Sprintf("%x", v[:cap(v)]) }, func() {
		for i := range v[:cap(v)] {
			v[:cap(v)][i] = r3.Vec{X: 977 * b.u, Y: -431 * b.u * float64(i), Z: 11 * b.u}
		}
	}})
	return v
}

// dummies stand for the shapes beyond the length of a list
type dummy2 struct{ id int }

func (d *dummy2) Evaluate(r2.Vec) float64 { return -1e6 * float64(1+d.id) }
func (d *dummy2) Bounds() r2.Box          { return r2.Box{Max: r2.Vec{X: 1, Y: 1}} }

type dummy3 struct{ id int }

func (d *dummy3) Evaluate(r3.Vec) float64 { return -1e6 * float64(1+d.id) }
func (d *dummy3) Bounds() r3.Box          { return r3.Box{Max: r3.Vec{X: 1, Y: 1, Z: 1}} }

func (b *builder) ownS2(v []sdf.SDF2) []sdf.SDF2 {
	all := v[:cap(v)]
	for i := len(v); i < cap(v); i++ {
		all[i] = &dummy2{i}
	}
	was := append([]sdf.SDF2(nil), all...)
	b.own = append(b.own, input{func() string {
		t := ""
		for i := range all {
			if same(func() bool { return all[i] == was[i] }) {
				t += "="
			} else {
				t += "!"
			}
		}
		return t
	}, func() {
		for i := range all {
			all[i] = &dummy2{i + 10}
		}
		copy(was, all)
	}})
	return v
}

func (b *builder) ownS3(v []sdf.SDF3) []sdf.SDF3 {
	all := v[:cap(v)]
	for i := len(v); i < cap(v); i++ {
		all[i] = &dummy3{i}
	}
	was := append([]sdf.SDF3(nil), all...)
	b.own = append(b.own, input{func() string {
		t := ""
		for i := range all {
			if same(func() bool { return all[i] == was[i] }) {
				t += "="
			} else {
				t += "!"
			}
		}
		return t
	}, func() {
		for i := range all {
			all[i] = &dummy3{i + 10}
		}
		copy(was, all)
	}})
	return v
}

// same compares interfaces; values of uncomparable types count as the same.
func same(f func() bool) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = true
		}
	}()
	return f()
}

func (b *builder) ownT(v []r3.Triangle) []r3.Triangle {
	b.own = append(b.own, input{func() string { return fmt.Sprintf("%x", v[:cap(v)]) }, func() {
		for i := range v[:cap(v)] {
			v[:cap(v)][i] = r3.Triangle{{X: 5 * b.u}, {Y: 3 * b.u}, {Z: float64(i) * b.u}}
		}
	}})
	return v
}

type sched struct {
	Extra int     `json:"extra"`
	Log   []phase `json:"log"`
}
type phase struct {
	K     string     `json:"k"`
	Progs [][][2]int `json:"progs"`
	Sh    []int      `json:"sh"`
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// model is a closed surface: an octahedron or a box with unequal sides.
func (b *builder) model(k int) []r3.Triangle {
	var v []r3.Vec
	var f [][3]int
	if k == 0 {
		v = []r3.Vec{{X: 9}, {X: -7}, {Y: 5}, {Y: -8}, {Z: 6}, {Z: -6}}
		f = [][3]int{{0, 2, 4}, {2, 1, 4}, {1, 3, 4}, {3, 0, 4}, {2, 0, 5}, {1, 2, 5}, {3, 1, 5}, {0, 3, 5}}
	} else {
		for i := 0; i < 8; i++ {
			v = append(v, r3.Vec{X: float64(i&1) * 12, Y: float64(i>>1&1) * 5, Z: float64(i>>2&1) * 3})
		}
		f = [][3]int{{0, 2, 1}, {1, 2, 3}, {4, 5, 6}, {5, 7, 6}, {0, 1, 4}, {1, 5, 4}, {2, 6, 3}, {3, 6, 7}, {0, 4, 2}, {2, 4, 6}, {1, 3, 5}, {3, 7, 5}}
	}
	t := make([]r3.Triangle, 0, len(f)+2)
	for _, x := range f {
		t = append(t, r3.Triangle{r3.Scale(b.u, v[x[0]]), r3.Scale(b.u, v[x[1]]), r3.Scale(b.u, v[x[2]])})
	}
	return b.ownT(t)
}

const extras = 18

// extra adds a shape which SdfGen does not build.
func (b *builder) extra(k int) (s2 sdf.SDF2, s3 sdf.SDF3) {
	var err error
	u := b.u
	switch k % extras {
	case 0, 1:
		var m sdfexp.ImportedSDF3
		m, err = sdfexp.ImportModel(b.model(k%extras), 0)
		s3 = m
	case 2, 3:
		var m *sdfexp.BIH
		m, err = sdfexp.ImportModelV2(b.model(k%extras-2), 0)
		s3 = m
	case 4:
		s3, err = thread.Screw(20*u, thread.ISO{D: 16 * u, P: 2 * u, Ext: true})
	case 5:
		s3, err = thread.Bolt(thread.BoltParms{Thread: thread.ISO{D: 16 * u, P: 2 * u, Ext: true}, Style: thread.NutHex, TotalLength: 20 * u, ShankLength: 5 * u})
	case 6:
		s3, err = thread.Nut(thread.NutParms{Thread: thread.ISO{D: 16 * u, P: 2 * u}, Style: thread.NutHex})
	case 7:
		x := sdf.Union2D(b.ownS2(append(make([]sdf.SDF2, 0, 4), must2.Circle(9*u), must2.Box(r2.Vec{X: 12 * u, Y: 30 * u}, u)))...)
		x.SetMin(sdf.MinPoly(2, 3*u))
		s2 = x
	case 8:
		x := sdf.Union3D(b.ownS3(append(make([]sdf.SDF3, 0, 4), must3.Sphere(9*u), must3.Box(r3.Vec{X: 12 * u, Y: 30 * u, Z: 4 * u}, u)))...)
		x.SetMin(sdf.MinPoly(2, 3*u))
		s3 = x
	case 9:
		x := sdf.Difference3D(must3.Sphere(9*u), must3.Box(r3.Vec{X: 12 * u, Y: 30 * u, Z: 4 * u}, u))
		x.SetMax(sdf.MaxPoly(2, 2*u))
		s3 = x
	case 10:
		p := must2.NewPolygon()
		p.Add(0, 0)
		p.Add(20*u, 0).Smooth(3*u, 4)
		p.Add(20*u, 12*u).Arc(-30*u, 5)
		p.Add(0, 12*u).Chamfer(2 * u)
		s2 = must2.Polygon(p.Vertices())
	case 11:
		s2, err = thread.Acme{D: 16 * u, P: 2 * u}.Thread()
	case 12:
		s2, err = obj2.Panel(obj2.PanelParams{Size: r2.Vec{X: 40 * u, Y: 30 * u}, CornerRadius: 2 * u, HoleDiameter: 3 * u,
			HoleMargin: [4]float64{4 * u, 4 * u, 4 * u, 4 * u}, HolePattern: [4]string{"x", "x.x", "x", "x"}})
	case 13:
		s3, err = thread.KnurledHead(10*u, 6*u, 2.5*u)
	case 14:
		s3, err = thread.Screw(20*u, thread.ANSIButtress{D: 16 * u, P: 2 * u})
	case 15:
		s3, err = thread.HexHead(10*u, 6*u, "tb")
	case 16:
		x := sdf.Difference2D(must2.Circle(9*u), must2.Box(r2.Vec{X: 12 * u, Y: 30 * u}, u))
		x.SetMax(sdf.MaxPoly(2, 2*u))
		s2 = x
	case 17:
		x := sdf.Array3D(must3.Sphere(4*u), sdf.V3i{2, 3, 1}, r3.Vec{X: 7 * u, Y: 6 * u, Z: u})
		x.SetMin(sdf.MinPoly(2, 3*u))
		s3 = x
	}
	must(err)
	return
}

func bits(v float64) string {
	if math.IsNaN(v) {
		return "NaN"
	}
	return fmt.Sprintf("%x", math.Float64bits(v))
}

// answer gives the exact answer to a question as a text.
func (b *builder) answer(i, q int, pts [][]float64) (a string) {
	if e := vh.Guard(func() {
		switch {
		case q > 0:
			a = bits(b.eval(i, pts[q-1]))
		case q == 0 || b.s3[i] == nil:
			lo, hi := b.bounds(i)
			for k := range lo {
				a += bits(lo[k]) + ":" + bits(hi[k]) + " "
			}
		default:
			t, err := render.RenderAll(render.NewOctreeRenderer(b.s3[i], 5))
			h := sha256.New()
			binary.Write(h, binary.LittleEndian, t)
			a = fmt.Sprintf("%d %v %x", len(t), err, h.Sum(nil))
		}
	}); e != "" {
		a = "panic " + e
	}
	return a
}

type asked struct {
	shape, q int
	a        string
}

func pure(n int, s session, st map[string]int) map[string]interface{} {
	b := &builder{u: units[s.Unit]}
	var pts [][][]float64
	for _, o := range s.Ops {
		if e := b.construct(o); e != "" {
			st["skipped"]++
			return nil
		}
		var l [][]float64
		for _, pr := range o.Pr {
			p := make([]float64, o.D)
			for k := range p {
				p[k] = float64(pr[k])
			}
			l = append(l, p)
		}
		pts = append(pts, l)
	}
	grid := func(d int) (l [][]float64) {
		for i := 0; i < 12; i++ {
			l = append(l, []float64{float64(i*7%23) - 9, float64(i*5%19) - 7.5, float64(i*3%11) - 4}[:d])
		}
		return l
	}
	for _, k := range []int{s.Sched.Extra, s.Sched.Extra / extras} {
		var s2 sdf.SDF2
		var s3 sdf.SDF3
		if e := vh.Guard(func() { s2, s3 = b.extra(k) }); e != "" {
			st["extras_skipped"]++
			continue
		}
		d := 2
		if s3 != nil {
			d = 3
		}
		b.s2, b.s3, pts = append(b.s2, s2), append(b.s3, s3), append(pts, grid(d))
	}
	num := map[string]int{}
	number := func(a string) int {
		if _, ok := num[a]; !ok {
			num[a] = len(num) + 1
		}
		return num[a]
	}
	ev := [][][3]int{}
	var now map[[3]int]bool
	put := func(c [3]int) {
		if !now[c] {
			now[c] = true
			ev[len(ev)-1] = append(ev[len(ev)-1], c)
		}
	}
	begin := func() {
		now = map[[3]int]bool{}
		ev = append(ev, [][3]int{})
	}
	inputs := func() {
		for i, x := range b.own {
			put([3]int{0, -10 - i, number("own " + x.text())})
		}
	}
	begin()
	inputs()
	for _, ph := range s.Sched.Log {
		st["phase:"+ph.K]++
		begin()
		switch ph.K {
		case "ask":
			all := make([][]asked, len(ph.Progs))
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for g, prog := range ph.Progs {
				wg.Add(1)
				go func(g int, prog [][2]int) {
					defer wg.Done()
					<-gate
					for _, c := range prog {
						i, q := c[0]%len(b.s2), c[1]
						if q > 0 {
							if len(pts[i]) == 0 {
								q = 0
							} else {
								q = q%len(pts[i]) + 1
							}
						}
						all[g] = append(all[g], asked{i, q, b.answer(i, q, pts[i])})
					}
				}(g, prog)
			}
			close(gate)
			wg.Wait()
			for _, l := range all {
				st["asked"] += len(l)
				for _, c := range l {
					put([3]int{c.shape + 1, c.q, number(c.a)})
				}
			}
		case "all":
			for i := range b.s2 {
				for q := 0; q <= len(pts[i]); q++ {
					put([3]int{i + 1, q, number(b.answer(i, q, pts[i]))})
				}
			}
		case "spoil":
			inputs()
			for _, x := range b.own {
				x.spoil()
			}
			b.own = nil
		case "share":
			i, j := ph.Sh[0]%len(b.s2), ph.Sh[1]%len(b.s2)
			var s2 sdf.SDF2
			var s3 sdf.SDF3
			e := vh.Guard(func() {
				if b.s2[i] != nil && b.s2[j] != nil {
					switch ph.Sh[2] {
					case 0:
						s2 = sdf.Union2D(b.s2[i], b.s2[j])
					case 1:
						s2 = sdf.Difference2D(b.s2[i], b.s2[j])
					case 2:
						s2 = sdf.Transform2D(b.s2[i], sdf.Translate2D(r2.Vec{X: b.u}))
					default:
						s3 = sdf.Extrude3D(b.s2[i], 7*b.u)
					}
					return
				}
				if b.s3[i] == nil {
					i, j = j, i
				}
				switch {
				case b.s3[j] == nil:
					s2 = sdf.Slice2D(b.s3[i], r3.Vec{Z: b.u}, r3.Vec{Z: 1})
				case ph.Sh[2] == 0:
					s3 = sdf.Union3D(b.s3[i], b.s3[j])
				case ph.Sh[2] == 1:
					s3 = sdf.Difference3D(b.s3[i], b.s3[j])
				case ph.Sh[2] == 2:
					s3 = sdf.Intersect3D(b.s3[i], b.s3[j])
				default:
					s3 = sdf.Transform3D(b.s3[i], sdf.Translate3D(r3.Vec{X: b.u}))
				}
			})
			if e == "" {
				d := 2
				if s3 != nil {
					d = 3
				}
				b.s2, b.s3, pts = append(b.s2, s2), append(b.s3, s3), append(pts, grid(d))
			}
		}
	}
	begin()
	inputs()
	for _, l := range ev {
		sort.Slice(l, func(i, j int) bool {
			for k := 0; k < 3; k++ {
				if l[i][k] != l[j][k] {
					return l[i][k] < l[j][k]
				}
			}
			return false
		})
	}
	ops := []string{}
	for _, o := range s.Ops {
		ops = append(ops, o.Op)
		st["op:"+o.Op]++
	}
	return map[string]interface{}{"case": n, "ev": ev, "ops": ops, "extra": []int{s.Sched.Extra % extras, s.Sched.Extra / extras % extras}}
}
