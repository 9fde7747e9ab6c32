// Replays calls generated from Params and parts generated from Parts on the real constructors.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/form2/must2"
	"github.com/soypat/sdf/form2/obj2"
	"github.com/soypat/sdf/form3"
	"github.com/soypat/sdf/form3/must3"
	"github.com/soypat/sdf/form3/obj3"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/internal/verifh/vh"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

type failure struct {
	Case int         `json:"case"`
	What string      `json:"what"`
	In   interface{} `json:"in"`
	Sig  string      `json:"sig,omitempty"`
}

func threader(kind string, d, p float64) thread.Threader {
	switch kind {
	case "nil":
		return nil
	case "isoe":
		return thread.ISO{D: d, P: p, Ext: true}
	case "isoi":
		return thread.ISO{D: d, P: p}
	case "acme":
		return thread.Acme{D: d, P: p}
	case "ansi":
		return thread.ANSIButtress{D: d, P: p}
	case "plas":
		return thread.PlasticButtress{D: d, P: p}
	case "utse":
		return thread.UTS{D: d, TPI: 1 / p, Ext: true}
	case "utsi":
		return thread.UTS{D: d, TPI: 1 / p}
	case "npt":
		return thread.NPT{D: d, TPI: 1 / p}
	}
	panic("HARNESS kind " + kind)
}

var styles = map[string]thread.NutStyle{"none": 0, "circular": thread.NutCircular, "hex": thread.NutHex, "knurl": thread.NutKnurl, "other": 9}

// shape is either of the two kinds of shape, asked in three dimensions.
type shape struct {
	s2 sdf.SDF2
	s3 sdf.SDF3
}

func (s shape) none() bool {
	isNil := func(v interface{}) bool {
		return v == nil || reflect.ValueOf(v).Kind() == reflect.Ptr && reflect.ValueOf(v).IsNil()
	}
	return isNil(s.s2) && isNil(s.s3)
}

func (s shape) bounds() r3.Box {
	if s.s3 != nil {
		return s.s3.Bounds()
	}
	b := s.s2.Bounds()
	return r3.Box{Min: r3.Vec{X: b.Min.X, Y: b.Min.Y}, Max: r3.Vec{X: b.Max.X, Y: b.Max.Y}}
}

func (s shape) at(p r3.Vec) float64 {
	if s.s3 != nil {
		return s.s3.Evaluate(p)
	}
	return s.s2.Evaluate(r2.Vec{X: p.X, Y: p.Y})
}

func finite(v ...float64) bool {
	for _, x := range v {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}

func grid(b r3.Box) []r3.Vec {
	var ps []r3.Vec
	d := r3.Sub(b.Max, b.Min)
	for _, x := range []float64{-0.21, 0, 0.33, 0.5, 0.71, 1, 1.3} {
		for _, y := range []float64{-0.17, 0.4, 0.5, 0.97} {
			for _, z := range []float64{-0.3, 0, 0.45, 0.5, 1} {
				ps = append(ps, r3.Vec{X: b.Min.X + x*d.X, Y: b.Min.Y + y*d.Y, Z: b.Min.Z + z*d.Z})
			}
		}
	}
	return append(ps, r3.Vec{}, r3.Vec{X: 1e3, Y: -2e3, Z: 3e3})
}

func usable(s shape) string {
	b := s.bounds()
	if !finite(b.Min.X, b.Min.Y, b.Min.Z, b.Max.X, b.Max.Y, b.Max.Z) || b.Min.X > b.Max.X || b.Min.Y > b.Max.Y || b.Min.Z > b.Max.Z {
		return fmt.Sprintf("the shape has the bounds %v", b)
	}
	for _, p := range grid(b) {
		if v := s.at(p); !finite(v) {
			return fmt.Sprintf("the shape has the value %v at %v, its bounds are %v", v, p, b)
		}
	}
	return ""
}

func same(a, b shape) string {
	ba, bb := a.bounds(), b.bounds()
	size := 1 + r3.Norm(ba.Min) + r3.Norm(ba.Max)
	if ba != bb && !(r3.Norm(r3.Sub(ba.Min, bb.Min)) <= 1e-12*size && r3.Norm(r3.Sub(ba.Max, bb.Max)) <= 1e-12*size) {
		return fmt.Sprintf("bounds %v and %v", ba, bb)
	}
	for _, p := range grid(a.bounds()) {
		if x, y := a.at(p), b.at(p); x != y && math.Abs(x-y) > 1e-12*(1+math.Abs(x)) {
			return fmt.Sprintf("values %v and %v at %v", x, y, p)
		}
	}
	return ""
}

type call struct {
	C struct {
		K string          `json:"k"`
		A json.RawMessage `json:"a"`
		S []string        `json:"s"`
	} `json:"c"`
	V string       `json:"v"`
	D [][2]float64 `json:"d"`
}

func vertices(q [][2]float64) []r2.Vec {
	v := []r2.Vec{}
	for _, p := range q {
		v = append(v, r2.Vec{X: p[0] / 4, Y: p[1] / 4})
	}
	return v
}

// nagon makes a polygon of a regular polygon's vertices to have a shape to ask.
func nagon(v []r2.Vec, err error) (shape, error) {
	if err != nil || len(v) == 0 || v[0] == (r2.Vec{}) {
		return shape{s2: must2.Circle(1)}, err
	}
	return shape{s2: must2.Polygon(v)}, nil
}

// build calls the constructor and, if there is one, its twin.
func build(c call) (get, twin func() (shape, error)) {
	var a []float64
	two := func(s sdf.SDF2, err error) (shape, error) { return shape{s2: s}, err }
	three := func(s sdf.SDF3, err error) (shape, error) { return shape{s3: s}, err }
	if c.C.K == "polygon" {
		var q [][2]float64
		vh.Check(json.Unmarshal(c.C.A, &q))
		return func() (shape, error) { return two(form2.Polygon(vertices(q))) }, func() (shape, error) { return two(must2.Polygon(vertices(q)), nil) }
	}
	vh.Check(json.Unmarshal(c.C.A, &a))
	n := append([]float64(nil), a...)
	for i := range a {
		a[i] /= 4
	}
	s := append(c.C.S, "", "", "", "")
	panel := func() obj2.PanelParams {
		return obj2.PanelParams{Size: r2.Vec{X: a[0], Y: a[1]}, CornerRadius: a[2], HoleDiameter: a[3], Thickness: a[4], HoleMargin: [4]float64{1, 1.5, 1, 0.5}, HolePattern: [4]string{s[0], s[1], s[2], s[3]}}
	}
	euro := func() obj2.EuroRackParams {
		return obj2.EuroRackParams{U: a[0], HP: a[1], CornerRadius: a[2], HoleDiameter: a[3], Thickness: a[4], Ridge: s[0] == "ridge"}
	}
	base := func() sdf.SDF3 {
		switch s[0] {
		case "cyl":
			return must3.Cylinder(3, 1, 0.25)
		case "ball":
			return must3.Sphere(1)
		}
		return nil
	}
	switch c.C.K {
	case "circle":
		return func() (shape, error) { return two(form2.Circle(a[0])) }, func() (shape, error) { return two(must2.Circle(a[0]), nil) }
	case "box2":
		v := r2.Vec{X: a[0], Y: a[1]}
		return func() (shape, error) { return two(form2.Box(v, a[2])) }, func() (shape, error) { return two(must2.Box(v, a[2]), nil) }
	case "line":
		return func() (shape, error) { return two(form2.Line(a[0], a[1])) }, func() (shape, error) { return two(must2.Line(a[0], a[1]), nil) }
	case "nagon":
		return func() (shape, error) { v, err := form2.Nagon(int(n[0]), a[1]); return nagon(v, err) }, func() (shape, error) { return nagon(must2.Nagon(int(n[0]), a[1]), nil) }
	case "sphere":
		return func() (shape, error) { return three(form3.Sphere(a[0])) }, func() (shape, error) { return three(must3.Sphere(a[0]), nil) }
	case "box3":
		v := r3.Vec{X: a[0], Y: a[1], Z: a[2]}
		return func() (shape, error) { return three(form3.Box(v, a[3])) }, func() (shape, error) { return three(must3.Box(v, a[3]), nil) }
	case "cylinder":
		return func() (shape, error) { return three(form3.Cylinder(a[0], a[1], a[2])) }, func() (shape, error) { return three(must3.Cylinder(a[0], a[1], a[2]), nil) }
	case "capsule":
		return func() (shape, error) { return three(form3.Capsule(a[0], a[1])) }, func() (shape, error) { return three(must3.Cylinder(a[0], a[1], a[1]), nil) }
	case "cone":
		return func() (shape, error) { return three(form3.Cone(a[0], a[1], a[2], a[3])) }, func() (shape, error) { return three(must3.Cone(a[0], a[1], a[2], a[3]), nil) }
	case "chamfered":
		return func() (shape, error) { return three(form3.ChamferedCylinder(base(), a[0], a[1])) }, func() (shape, error) { return three(must3.ChamferedCylinder(base(), a[0], a[1]), nil) }
	case "screw":
		return func() (shape, error) { return three(thread.Screw(a[2], threader(s[0], a[0], a[1]))) }, nil
	case "hexhead":
		return func() (shape, error) { return three(thread.HexHead(a[0], a[1], s[0])) }, nil
	case "knurl":
		return func() (shape, error) {
			return three(thread.Knurl(thread.KnurlParams{Length: a[0], Radius: a[1], Pitch: a[2], Height: a[3], Theta: n[4] * math.Pi / 180}))
		}, nil
	case "knurledhead":
		return func() (shape, error) { return three(thread.KnurledHead(a[0], a[1], a[2])) }, nil
	case "bolt":
		return func() (shape, error) {
			return three(thread.Bolt(thread.BoltParms{Thread: threader(s[0], a[0], a[1]), Style: styles[s[1]], TotalLength: a[2], ShankLength: a[3], Tolerance: a[4]}))
		}, nil
	case "nut":
		return func() (shape, error) {
			return three(thread.Nut(thread.NutParms{Thread: threader(s[0], a[0], a[1]), Style: styles[s[1]], Tolerance: a[2]}))
		}, nil
	case "standoff":
		return func() (shape, error) {
			return three(obj3.Standoff(obj3.StandoffParams{PillarHeight: a[0], PillarDiameter: a[1], HoleDepth: a[2], HoleDiameter: a[3], NumberWebs: int(n[4]), WebHeight: a[5], WebDiameter: a[6], WebWidth: a[7]}))
		}, nil
	case "panel2":
		return func() (shape, error) { return two(obj2.Panel(panel())) }, nil
	case "panel3":
		return func() (shape, error) { return three(obj3.Panel(panel())) }, nil
	case "euro2":
		return func() (shape, error) { return two(obj2.EuroRackPanel(euro())) }, nil
	case "euro3":
		return func() (shape, error) { return three(obj3.EuroRackPanel(euro())) }, nil
	case "panelhole":
		if s[0] == "nil" {
			return func() (shape, error) { return three(obj3.PanelHole(nil)) }, nil
		}
		turn := map[string]float64{"0": 0, "45": math.Pi / 4, "-90": -math.Pi / 2}[s[0]]
		return func() (shape, error) {
			return three(obj3.PanelHole(&obj3.PanelHoleParams{Diameter: a[0], Thickness: a[1], Indent: r3.Vec{X: a[2], Y: a[3], Z: a[4]}, Offset: a[5], Orientation: turn}))
		}, nil
	}
	panic("HARNESS call " + c.C.K)
}

func params(c call, st map[string]int) (what string) {
	get, twin := build(c)
	var s, t shape
	var err error
	if e := vh.Guard(func() { s, err = get() }); e != "" {
		return "panicked: " + e
	}
	st[c.V]++
	if err != nil {
		st["refused"]++
		if c.V == "ok" {
			return fmt.Sprintf("refuses good parameters: %v", err)
		}
	} else if c.V == "err" {
		return "accepts bad parameters"
	} else if s.none() {
		return "gives neither an error nor a shape"
	} else {
		if e := vh.Guard(func() { what = usable(s) }); e != "" {
			return "the shape panicked: " + e
		}
		if what != "" {
			return what
		}
	}
	if twin != nil {
		st["twins"]++
		refused := vh.Guard(func() { t, _ = twin() })
		if refused != "" != (err != nil) {
			return fmt.Sprintf("one twin gives the error %v, the other the panic %q", err, refused)
		}
		if err == nil {
			if d := same(s, t); d != "" {
				return "the twins have " + d
			}
		}
	}
	if c.C.K == "polygon" && err == nil {
		if d := same(s, shape{s2: must2.Polygon(vertices(c.D))}); d != "" {
			return "with and without the repeated vertices the polygon has " + d
		}
	}
	return ""
}

// part is a record of the specification. Its field names may differ by case only.
type part struct {
	raw map[string]json.RawMessage
}

func (p part) get(k string, v interface{}) {
	if r, ok := p.raw[k]; ok {
		vh.Check(json.Unmarshal(r, v))
	}
}
func (p part) num(k string) (v float64)    { p.get(k, &v); return }
func (p part) str(k string) (v string)     { p.get(k, &v); return }
func (p part) nums(k string) (v []float64) { p.get(k, &v); return }

// sized is a thread for which a head of known size is made.
type sized struct {
	thread.Threader
	f2f float64
}

func (s sized) ThreadParams() thread.Parameters {
	p := s.Threader.ThreadParams()
	p.HexF2F = s.f2f
	return p
}

// make3 builds the part in its unit and says how probes are placed.
func make3(p part) (s shape, u float64, err error, place func(q [5]float64) r3.Vec) {
	u = []float64{1, 0.01, 25.4}[int(p.num("unit"))]
	polar := func(rho, turn, z float64) r3.Vec {
		a := 2 * math.Pi * turn
		return r3.Vec{X: rho * math.Cos(a) * u, Y: rho * math.Sin(a) * u, Z: z * u}
	}
	turned := func(x, y, z, turn float64) r3.Vec {
		sn, cs := math.Sincos(2 * math.Pi * turn)
		return r3.Vec{X: (x*cs - y*sn) * u, Y: (x*sn + y*cs) * u, Z: z * u}
	}
	flat := func(q [5]float64) r3.Vec { return turned(q[0], q[1], q[2], 0) }
	round := func(q [5]float64) r3.Vec { return polar(q[0], q[1]/24, q[2]) }
	three := func(v sdf.SDF3, e error) { s, err = shape{s3: v}, e }
	two := func(v sdf.SDF2, e error) { s, err = shape{s2: v}, e }
	switch k := p.str("k"); k {
	case "standoff":
		three(obj3.Standoff(obj3.StandoffParams{PillarHeight: p.num("H") * u, PillarDiameter: p.num("D") * u, HoleDepth: p.num("hd") * u, HoleDiameter: p.num("hD") * u,
			NumberWebs: int(p.num("n")), WebHeight: p.num("Wh") * u, WebDiameter: p.num("Wd") * u, WebWidth: p.num("Ww") * u}))
		return s, u, err, func(q [5]float64) r3.Vec { return turned(q[0], q[1], q[2], q[4]/math.Max(1, p.num("n"))) }
	case "panel":
		k := obj2.PanelParams{Size: r2.Vec{X: p.num("X") * u, Y: p.num("Y") * u}, CornerRadius: p.num("r") * u, HoleDiameter: p.num("d") * u, Thickness: p.num("T") * u}
		var pattern [4][]int
		p.get("pattern", &pattern)
		for i := range k.HoleMargin {
			k.HoleMargin[i] = p.nums("margin")[i] * u
			for _, h := range pattern[i] {
				k.HolePattern[i] += []string{".", "x"}[h]
			}
		}
		if k.Thickness == 0 {
			two(obj2.Panel(k))
		} else {
			three(obj3.Panel(k))
		}
		return s, u, err, flat
	case "euro":
		u = 1. / 200
		k := obj2.EuroRackParams{U: p.num("u"), HP: p.num("hp"), CornerRadius: p.num("r") * u, HoleDiameter: p.num("d") * u, Thickness: p.num("T") * u, Ridge: p.num("ridge") == 1}
		if k.Thickness == 0 {
			two(obj2.EuroRackPanel(k))
		} else {
			three(obj3.EuroRackPanel(k))
		}
		return s, u, err, flat
	case "panelhole":
		three(obj3.PanelHole(&obj3.PanelHoleParams{Diameter: p.num("d") * u, Thickness: p.num("T") * u, Indent: r3.Vec{X: p.nums("I")[0] * u, Y: p.nums("I")[1] * u, Z: p.nums("I")[2] * u}, Offset: p.num("off") * u, Orientation: p.num("turn") * math.Pi / 12}))
		return s, u, err, func(q [5]float64) r3.Vec { return turned(q[0], q[1], q[2], p.num("turn")/24) }
	case "hexhead":
		u *= 1e-4
		three(thread.HexHead(2/math.Sqrt(3)*1e4*u, p.num("h")*u, strings.Repeat("t", int(p.num("top")))+strings.Repeat("b", int(p.num("bottom")))))
		return s, u, err, round
	case "bolt", "nut":
		u *= 1e-4
		t := sized{threader(p.str("thread"), 2*p.num("R")*u, p.num("P")*u), 2e4 * u}
		if k == "bolt" {
			three(thread.Bolt(thread.BoltParms{Thread: t, Style: styles[p.str("style")], TotalLength: p.num("total") * u, ShankLength: p.num("shank") * u}))
		} else {
			three(thread.Nut(thread.NutParms{Thread: t, Style: styles[p.str("style")]}))
		}
		return s, u, err, round
	}
	panic("HARNESS part " + p.str("k"))
}

func geometry(p part, st map[string]int) string {
	s, u, err, place := make3(p)
	if err != nil {
		return fmt.Sprintf("rejected: %v", err)
	}
	if s.none() {
		return "neither an error nor a part"
	}
	b := s.bounds()
	var pr [][5]float64
	p.get("pr", &pr)
	for _, q := range pr {
		w := place(q)
		if s.s3 == nil {
			w.Z = 0
		}
		st["probes"]++
		if q[3] == 0 {
			st["undecided"]++
			continue
		}
		v := s.at(w)
		if !(v*q[3] > 0) {
			return fmt.Sprintf("at %v (turned by %v) the part gives %v; its parameters put the point on side %v (-1 is inside, unit %v)", q[:3], q[4], v/u, q[3], u)
		}
		if q[3] < 0 {
			st["inside"]++
			e := 1e-9 * (math.Abs(w.X) + math.Abs(w.Y) + math.Abs(w.Z))
			if w.X < b.Min.X-e || w.Y < b.Min.Y-e || w.Z < b.Min.Z-e || w.X > b.Max.X+e || w.Y > b.Max.Y+e || w.Z > b.Max.Z+e {
				return fmt.Sprintf("%v is inside the part and outside its bounds %v (unit %v)", w, b, u)
			}
		}
	}
	return ""
}

func main() {
	w := vh.NewWriter(os.Args[3])
	st := map[string]int{}
	n := 0
	vh.ReadLines(os.Args[2], func(raw []byte) error {
		n++
		if os.Args[1] == "params" {
			var c call
			if err := json.Unmarshal(raw, &c); err != nil {
				return err
			}
			st[c.C.K]++
			if what := params(c, st); what != "" {
				w.Put(failure{Case: n, What: fmt.Sprintf("%s%s%q: %s", c.C.K, c.C.A, c.C.S, what), In: c})
			}
			return nil
		}
		var p part
		if err := json.Unmarshal(raw, &p.raw); err != nil {
			return err
		}
		st[p.str("k")]++
		var what string
		if e := vh.Guard(func() { what = geometry(p, st) }); e != "" {
			what = "panicked: " + e
		}
		if what != "" {
			delete(p.raw, "pr")
			w.Put(failure{Case: n, What: p.str("k") + ": " + what, In: p.raw})
		}
		return nil
	})
	st["cases"] = n
	w.Put(map[string]interface{}{"stats": st})
	w.Close()
}
