// Replays modelling sessions generated from SdfGen into the real library and compares every
// shape with the intervals of SdfAlgebra at the probes.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strconv"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/helpers/matter"
	"github.com/soypat/sdf/internal/d2"
	"github.com/soypat/sdf/internal/d3"
	"github.com/soypat/sdf/internal/verifh/vh"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

type opRec struct {
	Op  string    `json:"op"`
	In  []int     `json:"in"`
	In0 []prim0   `json:"in0"`
	A   []int     `json:"a"`
	S   string    `json:"s"`
	P   [][]int   `json:"p"`
	D   int       `json:"d"`
	R   int       `json:"r"`
	X   int       `json:"x"`
	Pr  [][]int64 `json:"pr"`
	Box struct {
		L, H []int
		E    int
	} `json:"box"`
}
type prim0 struct {
	Op string `json:"op"`
	A  []int  `json:"a"`
}
type session struct {
	Unit  int     `json:"unit"`
	Ops   []opRec `json:"ops"`
	Sched *sched  `json:"sched,omitempty"`
	Pipe  *pipe   `json:"pipe,omitempty"`
}

var units = []float64{0.0009765625, 0.01, 0.37, 1.0 / (1 << 24), 4096}

const (
	far = 30000
	big = 100000000
)

type builder struct {
	u     float64
	s2    []sdf.SDF2
	s3    []sdf.SDF3
	wrong string  // what a construction found wrong
	own   []input // the caller's slices passed to constructors
}

func angle(a int) float64 {
	if a%36000 == 0 {
		return float64(a/36000) * 2 * math.Pi
	}
	return float64(a) * math.Pi / 18000
}
func (b *builder) f(x int) float64 { return float64(x) * b.u }
func (b *builder) v2(x []int) r2.Vec {
	return r2.Vec{X: b.f(x[0]), Y: b.f(x[1])}
}
func (b *builder) v3(x []int) r3.Vec {
	return r3.Vec{X: b.f(x[0]), Y: b.f(x[1]), Z: b.f(x[2])}
}
func raw3(x []int) r3.Vec { return r3.Vec{X: float64(x[0]), Y: float64(x[1]), Z: float64(x[2])} }

func (b *builder) set2(p [][]int) d2.Set {
	v := make(d2.Set, len(p), len(p)+3)
	for i := range p {
		v[i] = b.v2(p[i])
	}
	return b.own2(v)
}

func (b *builder) prim2(op string, a []int, p [][]int) sdf.SDF2 {
	switch op {
	case "circ":
		return must2.Circle(b.f(a[0]))
	case "box2":
		return must2.Box(b.v2(a), b.f(a[2]))
	case "lin":
		return must2.Line(b.f(a[0]), b.f(a[1]))
	case "poly":
		return must2.Polygon(b.set2(p))
	case "ngon":
		return must2.Polygon(must2.Nagon(a[0], b.f(a[1])))
	}
	return nil
}

func (b *builder) prim3(op string, a []int) sdf.SDF3 {
	switch op {
	case "sph":
		return must3.Sphere(b.f(a[0]))
	case "box3":
		return must3.Box(b.v3(a), b.f(a[3]))
	case "cyl":
		return must3.Cylinder(b.f(a[0]), b.f(a[1]), b.f(a[2]))
	case "cap":
		s, err := form3.Capsule(b.f(a[0]), b.f(a[1]))
		if err != nil {
			panic(err)
		}
		return s
	case "cone":
		return must3.Cone(b.f(a[0]), b.f(a[1]), b.f(a[2]), b.f(a[3]))
	case "chc":
		return must3.ChamferedCylinder(must3.Cylinder(b.f(a[0]), b.f(a[1]), 0), float64(a[2])/100, float64(a[3])/100)
	}
	return nil
}

func frac(n, d int) float64 { return float64(n) / float64(d) }

func (b *builder) build(o opRec) (s2 sdf.SDF2, s3 sdf.SDF3) {
	a := o.A
	if s := b.prim2(o.Op, a, o.P); s != nil {
		return s, nil
	}
	if s := b.prim3(o.Op, a); s != nil {
		return nil, s
	}
	in := func(i int) int { return o.In[i] - 1 }
	if len(o.In0) == 1 {
		c := sdf.Transform2D(b.prim2(o.In0[0].Op, o.In0[0].A, nil), sdf.Translate2D(b.v2(a)))
		if o.Op == "cen2" {
			return sdf.Center2D(c), nil
		}
		return sdf.CenterAndScale2D(c, frac(a[2], a[3])), nil
	}
	var c2, e2 sdf.SDF2
	var c3, e3 sdf.SDF3
	if len(o.In) > 0 {
		c2, c3 = b.s2[in(0)], b.s3[in(0)]
	}
	if len(o.In) > 1 {
		e2, e3 = b.s2[in(1)], b.s3[in(1)]
	}
	switch o.Op {
	case "un2":
		l := make([]sdf.SDF2, 0, len(o.In)+3)
		for i := range o.In {
			l = append(l, b.s2[in(i)])
		}
		return sdf.Union2D(b.ownS2(l)...), nil
	case "di2":
		return sdf.Difference2D(c2, e2), nil
	case "in2":
		return sdf.Intersect2D(c2, e2), nil
	case "cut2":
		return sdf.Cut2D(c2, b.v2(a), r2.Vec{X: float64(a[2]), Y: float64(a[3])}), nil
	case "xf2":
		m := sdf.Translate2D(r2.Vec{})
		first := true
		for _, k := range o.P {
			t := sdf.Translate2D(r2.Vec{})
			switch k[0] {
			case 1:
				t = sdf.Translate2D(b.v2(k[1:]))
			case 4:
				t = sdf.Rotate2D(angle(k[1]))
			case 7:
				t = sdf.MirrorX()
			case 8:
				t = sdf.MirrorY()
			case 10:
				t = sdf.Scale2D(r2.Vec{X: frac(k[1], k[2]), Y: frac(k[3], k[4])})
			}
			if first {
				m = t
			} else {
				m = m.Mul(t)
			}
			first = false
		}
		return sdf.Transform2D(c2, m), nil
	case "scu2":
		return sdf.ScaleUniform2D(c2, frac(a[0], a[1])), nil
	case "off2":
		return sdf.Offset2D(c2, b.f(a[0])), nil
	case "elo2":
		return sdf.Elongate2D(c2, r2.Scale(float64(a[2]), b.v2(a))), nil
	case "arr2":
		return sdf.Array2D(c2, sdf.V2i{a[0], a[1]}, b.v2(a[2:])), nil
	case "rotu2":
		m := sdf.Translate2D(r2.Vec{})
		for _, k := range o.P {
			if k[0] == 1 {
				m = m.Mul(sdf.Translate2D(b.v2(k[1:])))
			} else {
				m = m.Mul(sdf.Rotate2D(angle(k[1])))
			}
		}
		return sdf.RotateUnion2D(c2, a[0], m), nil
	case "rotc2":
		return sdf.RotateCopy2D(c2, a[0]), nil
	case "lin2":
		return sdf.LineOf2D(c2, b.v2(a), b.v2(a[2:]), o.S), nil
	case "mul2":
		return sdf.Multi2D(c2, b.set2(o.P)), nil
	case "slc":
		return sdf.Slice2D(c3, b.v3(a), raw3(a[3:])), nil
	case "un3":
		l := make([]sdf.SDF3, 0, len(o.In)+3)
		for i := range o.In {
			l = append(l, b.s3[in(i)])
		}
		return nil, sdf.Union3D(b.ownS3(l)...)
	case "di3":
		return nil, sdf.Difference3D(c3, e3)
	case "in3":
		return nil, sdf.Intersect3D(c3, e3)
	case "cut3":
		return nil, sdf.Cut3D(c3, b.v3(a), raw3(a[3:]))
	case "xf3":
		m := sdf.Translate3D(r3.Vec{})
		for i, k := range o.P {
			t := sdf.Translate3D(r3.Vec{})
			switch k[0] {
			case 1:
				t = sdf.Translate3D(b.v3(k[1:]))
			case 2:
				t = sdf.RotateX(angle(k[1]))
			case 3:
				t = sdf.RotateY(angle(k[1]))
			case 4:
				t = sdf.RotateZ(angle(k[1]))
			case 5:
				t = sdf.Rotate3D(raw3(k[2:]), angle(k[1]))
			case 6:
				t = sdf.MirrorXY()
			case 7:
				t = sdf.MirrorXZ()
			case 8:
				t = sdf.MirrorYZ()
			case 9:
				t = sdf.MirrorXeqY()
			case 10:
				t = sdf.Scale3D(r3.Vec{X: frac(k[1], k[2]), Y: frac(k[3], k[4]), Z: frac(k[5], k[6])})
			}
			if i == 0 {
				m = t
			} else {
				m = m.Mul(t)
			}
		}
		return nil, sdf.Transform3D(c3, m)
	case "scu3":
		return nil, sdf.ScaleUniform3D(c3, frac(a[0], a[1]))
	case "mat":
		return nil, b.material(c3, a)
	case "off3":
		return nil, sdf.Offset3D(c3, b.f(a[0]))
	case "she3":
		return nil, sdf.Shell3D(c3, b.f(a[0]))
	case "elo3":
		return nil, sdf.Elongate3D(c3, r3.Scale(float64(a[3]), b.v3(a)))
	case "arr3":
		return nil, sdf.Array3D(c3, sdf.V3i{a[0], a[1], a[2]}, b.v3(a[3:]))
	case "rotu3":
		m := sdf.Translate3D(r3.Vec{})
		for _, k := range o.P {
			switch k[0] {
			case 1:
				m = m.Mul(sdf.Translate3D(b.v3(k[1:])))
			case 2:
				m = m.Mul(sdf.RotateX(angle(k[1])))
			default:
				m = m.Mul(sdf.RotateZ(angle(k[1])))
			}
		}
		return nil, sdf.RotateUnion3D(c3, a[0], m)
	case "rotc3":
		return nil, sdf.RotateCopy3D(c3, a[0])
	case "lin3":
		return nil, sdf.LineOf3D(c3, b.v3(a), b.v3(a[3:]), o.S)
	case "mul3":
		v := make(d3.Set, len(o.P), len(o.P)+3)
		for i := range o.P {
			v[i] = b.v3(o.P[i])
		}
		return nil, sdf.Multi3D(c3, b.own3(v))
	case "ori3":
		v := make(d3.Set, len(o.P), len(o.P)+3)
		for i := range o.P {
			v[i] = raw3(o.P[i])
		}
		return nil, sdf.Orient3D(c3, r3.Vec{Z: 1}, b.own3(v))
	case "ext":
		return nil, sdf.Extrude3D(c2, b.f(a[0]))
	case "twi":
		if o.S == "set" {
			return nil, b.setExtrude(c2, a[0], sdf.TwistExtrude(b.f(a[0]), angle(a[1])))
		}
		return nil, sdf.TwistExtrude3D(c2, b.f(a[0]), angle(a[1]))
	case "sce":
		if o.S == "set" {
			return nil, b.setExtrude(c2, a[0], sdf.ScaleExtrude(b.f(a[0]), r2.Vec{X: frac(a[1], a[2]), Y: frac(a[3], a[4])}))
		}
		return nil, sdf.ScaleExtrude3D(c2, b.f(a[0]), r2.Vec{X: frac(a[1], a[2]), Y: frac(a[3], a[4])})
	case "sct":
		if o.S == "set" {
			return nil, b.setExtrude(c2, a[0], sdf.ScaleTwistExtrude(b.f(a[0]), angle(a[1]), r2.Vec{X: frac(a[2], a[3]), Y: frac(a[4], a[5])}))
		}
		return nil, sdf.ScaleTwistExtrude3D(c2, b.f(a[0]), angle(a[1]), r2.Vec{X: frac(a[2], a[3]), Y: frac(a[4], a[5])})
	case "exr":
		return nil, sdf.ExtrudeRounded3D(c2, b.f(a[0]), b.f(a[1]))
	case "lof":
		return nil, sdf.Loft3D(c2, e2, b.f(a[0]), b.f(a[1]))
	case "rev":
		return nil, sdf.Revolve3D(c2, angle(a[0]))
	}
	fmt.Fprintln(os.Stderr, "HARNESS: unknown op", o.Op)
	os.Exit(3)
	return
}

// material draws a shape for a material, a[0] times over (0: for an ideal one).
func (b *builder) material(s sdf.SDF3, a []int) sdf.SDF3 {
	var m matter.Material = matter.PLA
	if a[0] == 0 {
		m = matter.Ideal{}
	}
	got := 0.0
	msg := vh.Guard(func() { got = m.InternalDimScale(float64(a[3]) / 1000) })
	if a[0] > 0 && a[3] <= 0 {
		if msg == "" {
			b.wrong = fmt.Sprintf("a length of %d micrometres inside a part is drawn as %v", a[3], got)
		}
	} else if want := float64(a[4]) / 1e6; msg != "" || math.Abs(got-want) > 1e-9*(1+math.Abs(want)) {
		b.wrong = fmt.Sprintf("a length of %d micrometres inside a part is drawn as %v instead of %v %s", a[3], got, want, msg)
	}
	if a[0] == 0 {
		return m.Scale(s)
	}
	for i := 0; i < a[0]; i++ {
		s = m.Scale(s)
	}
	return s
}

// setExtrude gives a straight extrusion another extrusion function.
func (b *builder) setExtrude(c sdf.SDF2, h int, f sdf.ExtrudeFunc) sdf.SDF3 {
	s := sdf.Extrude3D(c, b.f(h))
	x, ok := s.(interface{ SetExtrude(sdf.ExtrudeFunc) })
	if !ok {
		panic("an extrusion has no SetExtrude")
	}
	x.SetExtrude(f)
	return s
}

// eval returns the value of shape i at a point in units.
func (b *builder) eval(i int, p []float64) float64 {
	if b.s2[i] != nil {
		return b.s2[i].Evaluate(r2.Vec{X: p[0] * b.u, Y: p[1] * b.u})
	}
	return b.s3[i].Evaluate(r3.Vec{X: p[0] * b.u, Y: p[1] * b.u, Z: p[2] * b.u})
}

// bounds in units.
func (b *builder) bounds(i int) (lo, hi []float64) {
	if b.s2[i] != nil {
		x := b.s2[i].Bounds()
		return []float64{x.Min.X / b.u, x.Min.Y / b.u}, []float64{x.Max.X / b.u, x.Max.Y / b.u}
	}
	x := b.s3[i].Bounds()
	return []float64{x.Min.X / b.u, x.Min.Y / b.u, x.Min.Z / b.u}, []float64{x.Max.X / b.u, x.Max.Y / b.u, x.Max.Z / b.u}
}

func (b *builder) construct(o opRec) (err string) {
	err = vh.Guard(func() {
		s2, s3 := b.build(o)
		b.s2 = append(b.s2, s2)
		b.s3 = append(b.s3, s3)
	})
	if err == "" {
		err, b.wrong = b.wrong, ""
	}
	return err
}

const eps = 0.02

type fail struct {
	Case  int       `json:"case"`
	Shape int       `json:"shape"`
	Op    string    `json:"op"`
	Kind  string    `json:"kind"`
	Point []float64 `json:"point,omitempty"`
	Got   string    `json:"got"`
	Lo    float64   `json:"lo"`
	Hi    float64   `json:"hi"`
	Sess  session   `json:"session"`
}

func num(v float64) string { return strconv.FormatFloat(v, 'g', 17, 64) }

// values compares every shape with the specification; the first failing shape is reported.
func values(n int, s session, st map[string]int) *fail {
	b := &builder{u: units[s.Unit]}
	for i, o := range s.Ops {
		if e := b.construct(o); e != "" {
			return &fail{Case: n, Shape: i, Op: o.Op, Kind: "panic", Got: e}
		}
	}
	for i, o := range s.Ops {
		for _, pr := range o.Pr {
			p := make([]float64, o.D)
			for k := range p {
				p[k] = float64(pr[k])
			}
			lo, hi := float64(pr[o.D]), float64(pr[o.D+1])
			var v float64
			if e := vh.Guard(func() { v = b.eval(i, p) / b.u }); e != "" {
				return &fail{Case: n, Shape: i, Op: o.Op, Kind: "panic", Point: p, Got: e}
			}
			st["probes"]++
			if hi < 0 || lo > 0 {
				st["sided"]++
			}
			if hi-lo < 100 {
				st["tight"]++
			}
			bad := math.IsNaN(v)
			if lo > -far && v < math.Min(lo, far)-eps-1e-6*math.Abs(lo) {
				bad = true
			}
			if hi < far && v > math.Max(hi, -far)+eps {
				bad = true
			}
			if bad {
				return &fail{Case: n, Shape: i, Op: o.Op, Kind: "value", Point: p, Got: num(v), Lo: lo, Hi: hi}
			}
		}
		st["shapes"]++
		st["op:"+o.Op]++
	}
	return nil
}

// outside checks that no point outside the bounds is inside the shape.
func outside(n int, s session, st map[string]int) *fail {
	b := &builder{u: units[s.Unit]}
	for i, o := range s.Ops {
		if e := b.construct(o); e != "" {
			return &fail{Case: n, Shape: i, Op: o.Op, Kind: "panic", Got: e}
		}
	}
	rng := uint64(n)*2654435761 + 88172645463325252
	rnd := func() float64 {
		rng ^= rng << 13
		rng ^= rng >> 7
		rng ^= rng << 17
		return float64(rng>>11) / (1 << 53)
	}
	for i, o := range s.Ops {
		lo, hi := b.bounds(i)
		for k := range lo {
			if math.IsNaN(lo[k]) || math.IsNaN(hi[k]) || math.IsInf(lo[k], 0) || math.IsInf(hi[k], 0) || lo[k] > hi[k]+1e-9*(1+math.Abs(hi[k])) {
				return &fail{Case: n, Shape: i, Op: o.Op, Kind: "bounds", Got: fmt.Sprint(lo, hi)}
			}
		}
		tol := 1e-6 * (1 + float64(o.R))
		for k := range o.Box.L {
			st["boxes"]++
			if e := float64(o.Box.E) + tol; math.Abs(lo[k]-float64(o.Box.L[k])) > e || math.Abs(hi[k]-float64(o.Box.H[k])) > e {
				return &fail{Case: n, Shape: i, Op: o.Op, Kind: "bounds", Got: fmt.Sprint(lo, hi, " instead of ", o.Box)}
			}
		}
		var bad []float64
		var bv float64
		try := func(p []float64) {
			out := false
			for k := range p {
				if p[k] < lo[k]-tol || p[k] > hi[k]+tol {
					out = true
				}
			}
			if !out || bad != nil {
				return
			}
			st["outside"]++
			if v := b.eval(i, p) / b.u; v < -tol || math.IsNaN(v) {
				bad, bv = append([]float64(nil), p...), v
			}
		}
		for _, pr := range o.Pr {
			p := make([]float64, o.D)
			for k := range p {
				p[k] = float64(pr[k])
			}
			try(p)
		}
		// just outside every face, and anywhere within the radius
		for t := 0; t < 60*o.D; t++ {
			p := make([]float64, o.D)
			for k := range p {
				p[k] = lo[k] + (hi[k]-lo[k])*rnd()
			}
			k := t % o.D
			d := math.Pow(10, -3+5*rnd())
			if t/o.D%2 == 0 {
				p[k] = lo[k] - d - tol*1.01
			} else {
				p[k] = hi[k] + d + tol*1.01
			}
			try(p)
		}
		for t := 0; t < 100; t++ {
			p := make([]float64, o.D)
			for k := range p {
				p[k] = float64(o.R) * (2.4*rnd() - 1.2)
			}
			try(p)
		}
		if bad != nil {
			return &fail{Case: n, Shape: i, Op: o.Op, Kind: "outside", Point: bad, Got: num(bv) + " outside " + fmt.Sprint(lo, hi)}
		}
		st["shapes"]++
		st["op:"+o.Op]++
	}
	return nil
}

func main() {
	mode, inp, out := os.Args[1], os.Args[2], os.Args[3]
	w := vh.NewWriter(out)
	st := map[string]int{}
	n := 0
	vh.ReadLines(inp, func(raw []byte) error {
		var s session
		if err := json.Unmarshal(raw, &s); err != nil {
			return err
		}
		n++
		var f *fail
		switch mode {
		case "values":
			f = values(n, s, st)
		case "bounds":
			f = outside(n, s, st)
		case "pure":
			if row := pure(n, s, st); row != nil {
				w.Put(row)
			}
		case "pipe":
			if row := s.Pipe.run(n, s, st); row != nil {
				w.Put(row)
			}
		}
		if f != nil {
			f.Sess = s
			w.Put(map[string]interface{}{"fail": f})
		}
		return nil
	})
	st["sessions"] = n
	w.Put(map[string]interface{}{"stats": st})
	w.Close()
}
