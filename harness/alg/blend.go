package main

import (
	"encoding/json"
	"fmt"
	"math"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/internal/verifh/vh"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

type blendFn struct {
	F string
	N int
	K int
}

type blendEnt struct {
	Op string
	In []int
	A  []int
	Fn blendFn
}

type blendEv struct {
	K  string
	E  blendEnt
	B  []int
	I  int
	Fn blendFn
	Pr [][]int
}

type blendCase struct {
	Dim   int
	Apart bool
	Scale int
	Log   []blendEv
}

// leaf is a linear function of the position with made up bounds.
type leaf2 struct {
	a  [4]float64
	bb r2.Box
}

func (l leaf2) Evaluate(p r2.Vec) float64 { return l.a[0]*p.X + l.a[1]*p.Y + l.a[3] }
func (l leaf2) Bounds() r2.Box            { return l.bb }

type leaf3 struct {
	a  [4]float64
	bb r3.Box
}

func (l leaf3) Evaluate(p r3.Vec) float64 { return l.a[0]*p.X + l.a[1]*p.Y + l.a[2]*p.Z + l.a[3] }
func (l leaf3) Bounds() r3.Box            { return l.bb }

func minOf(fn blendFn, u float64) sdf.MinFunc {
	k := float64(fn.K) * u
	switch fn.F {
	case "poly":
		return sdf.MinPoly(fn.N, k)
	case "round":
		return sdf.MinRound(k)
	case "exp":
		return sdf.MinExp(1 / k)
	}
	return math.Min
}

func maxOf(fn blendFn, u float64) sdf.MaxFunc {
	if fn.F == "poly" {
		return sdf.MaxPoly(fn.N, float64(fn.K)*u)
	}
	return math.Max
}

func blend(in, out string) {
	w := vh.NewWriter(out)
	defer w.Close()
	n, asks, pairs, sets := 0, 0, 0, 0
	kinds := map[string]int{}
	vh.ReadLines(in, func(raw []byte) error {
		var c blendCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		n++
		u := math.Pow(10, float64(c.Scale-3))
		bad := func(i int, what string) {
			w.Put(vh.M{"case": n, "event": i + 1, "what": what, "dim": c.Dim, "scale": c.Scale, "log": c.Log[:i+1]})
		}
		var s2 []sdf.SDF2
		var s3 []sdf.SDF3
		var ents []blendEnt
		set := func(i int, fn blendFn) bool {
			var s interface{}
			if c.Dim == 2 {
				s = s2[i]
			} else {
				s = s3[i]
			}
			if op := ents[i].Op; op == "diff" || op == "inter" {
				m, ok := s.(interface{ SetMax(sdf.MaxFunc) })
				if ok {
					m.SetMax(maxOf(fn, u))
				}
				return ok
			}
			m, ok := s.(interface{ SetMin(sdf.MinFunc) })
			if ok {
				m.SetMin(minOf(fn, u))
			}
			return ok
		}
		for i, ev := range c.Log {
			switch ev.K {
			case "new":
				e := ev.E
				ents = append(ents, e)
				msg := vh.Guard(func() {
					if c.Dim == 2 {
						s2 = append(s2, make2(e, ev.B, s2, u))
					} else {
						s3 = append(s3, make3(e, ev.B, s3, u))
					}
				})
				if msg != "" {
					bad(i, "constructor panicked: "+msg)
					return nil
				}
				if e.Op != "leaf" && e.Fn.F != "std" {
					sets++
					if !set(len(ents)-1, e.Fn) {
						bad(i, "no blending function can be set on "+e.Op)
						return nil
					}
				}
			case "set":
				sets++
				set(ev.I-1, ev.Fn)
			case "ask":
				kinds[ents[ev.I-1].Op]++
				for _, p := range ev.Pr {
					asks++
					var v float64
					x, y, z := float64(p[0])*u, float64(p[1])*u, float64(p[2])*u
					msg := vh.Guard(func() {
						if c.Dim == 2 {
							v = s2[ev.I-1].Evaluate(r2.Vec{X: x, Y: y})
						} else {
							v = s3[ev.I-1].Evaluate(r3.Vec{X: x, Y: y, Z: z})
						}
					})
					v /= u
					if msg != "" || !(v >= float64(p[3])-0.01 && v <= float64(p[4])+0.01) {
						bad(i, fmt.Sprintf("%s %d at %v gives %v thousandths %s, the members and functions give [%d, %d]", ents[ev.I-1].Op, ev.I, p[:3], v, msg, p[3], p[4]))
						return nil
					}
				}
			case "min", "max":
				f := func(a, b float64) float64 { return 0 }
				var fs string
				if ev.K == "min" {
					f, fs = minOf(ev.Fn, u), "min"
				} else {
					f, fs = maxOf(ev.Fn, u), "max"
				}
				for _, p := range ev.Pr {
					pairs++
					a, b := float64(p[0])*u, float64(p[1])*u
					v, v2 := f(a, b), f(b, a)
					eps := 1e-9 * u * 15000
					what := ""
					switch {
					case !(v/u >= float64(p[2])-0.01 && v/u <= float64(p[3])+0.01):
						what = fmt.Sprintf("outside [%d, %d]", p[2], p[3])
					case math.Abs(v-v2) > eps:
						what = fmt.Sprintf("not symmetric: %v", v2/u)
					case fs == "min" && v > math.Min(a, b)+eps:
						what = "above the plain minimum"
					case fs == "max" && v < math.Max(a, b)-eps:
						what = "below the plain maximum"
					case ev.Fn.F == "poly" && ev.Fn.N > 0 && p[2] == p[3] && p[2] == int(plain(fs, p)) && abs(p[0]-p[1]) >= ev.Fn.K && math.Abs(v-plain(fs, p)*u) > eps:
						what = "not plain although the values differ by the radius"
					}
					if what != "" {
						bad(i, fmt.Sprintf("%s %+v of %d and %d gives %v: %s", fs, ev.Fn, p[0], p[1], v/u, what))
						return nil
					}
				}
			}
		}
		return nil
	})
	w.Put(vh.M{"stats": vh.M{"sessions": n, "asks": asks, "pairs": pairs, "sets": sets, "kinds": kinds}})
}

func plain(fs string, p []int) float64 {
	if fs == "min" {
		return math.Min(float64(p[0]), float64(p[1]))
	}
	return math.Max(float64(p[0]), float64(p[1]))
}

func abs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func make2(e blendEnt, b []int, s []sdf.SDF2, u float64) sdf.SDF2 {
	a := func(i int) float64 { return float64(e.A[i]) }
	switch e.Op {
	case "leaf":
		c, h := r2.Vec{X: float64(b[0]), Y: float64(b[1])}, r2.Vec{X: float64(b[3]), Y: float64(b[3])}
		return leaf2{[4]float64{a(0), a(1), a(2), a(3) * u}, r2.Box{Min: r2.Scale(100*u, r2.Sub(c, h)), Max: r2.Scale(100*u, r2.Add(c, h))}}
	case "union":
		var m []sdf.SDF2
		for _, i := range e.In {
			m = append(m, s[i-1])
		}
		return sdf.Union2D(m...)
	case "diff":
		return sdf.Difference2D(s[e.In[0]-1], s[e.In[1]-1])
	case "inter":
		return sdf.Intersect2D(s[e.In[0]-1], s[e.In[1]-1])
	case "array":
		return sdf.Array2D(s[e.In[0]-1], sdf.V2i{e.A[0], e.A[1]}, r2.Vec{X: a(3) * u, Y: a(4) * u})
	}
	return sdf.RotateUnion2D(s[e.In[0]-1], e.A[0], sdf.Rotate2D(a(1)*math.Pi/2))
}

func make3(e blendEnt, b []int, s []sdf.SDF3, u float64) sdf.SDF3 {
	a := func(i int) float64 { return float64(e.A[i]) }
	switch e.Op {
	case "leaf":
		c, h := r3.Vec{X: float64(b[0]), Y: float64(b[1]), Z: float64(b[2])}, r3.Vec{X: float64(b[3]), Y: float64(b[3]), Z: float64(b[3])}
		return leaf3{[4]float64{a(0), a(1), a(2), a(3) * u}, r3.Box{Min: r3.Scale(100*u, r3.Sub(c, h)), Max: r3.Scale(100*u, r3.Add(c, h))}}
	case "union":
		var m []sdf.SDF3
		for _, i := range e.In {
			m = append(m, s[i-1])
		}
		return sdf.Union3D(m...)
	case "diff":
		return sdf.Difference3D(s[e.In[0]-1], s[e.In[1]-1])
	case "inter":
		return sdf.Intersect3D(s[e.In[0]-1], s[e.In[1]-1])
	case "array":
		return sdf.Array3D(s[e.In[0]-1], sdf.V3i{e.A[0], e.A[1], e.A[2]}, r3.Vec{X: a(3) * u, Y: a(4) * u, Z: a(5) * u})
	}
	return sdf.RotateUnion3D(s[e.In[0]-1], e.A[0], sdf.RotateZ(a(1)*math.Pi/2))
}
