package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/internal/d3"
	"github.com/soypat/sdf/internal/verifh/vh"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

type matOp struct {
	Op string
	A  []int
	In []int
}

type matProbe struct {
	Det    [2]int
	Pts    [][7]int
	Lo, Hi [3]int
	Box    [7]int
}

type matCase struct {
	Dim  int
	Turn int
	Ops  []matOp
	Pr   []matProbe
}

// the matrix types are not exported, their methods are
func call(m interface{}, name string, args ...interface{}) interface{} {
	var in []reflect.Value
	for _, a := range args {
		in = append(in, reflect.ValueOf(a))
	}
	return reflect.ValueOf(m).MethodByName(name).Call(in)[0].Interface()
}

func matrix(in, out string) {
	w := vh.NewWriter(out)
	defer w.Close()
	n, images, boxes, inverses := 0, 0, 0, 0
	vh.ReadLines(in, func(raw []byte) error {
		var c matCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		n++
		var ms []interface{} // as built
		var rs []interface{} // m22, nil unless made from rotations only
		for i, o := range c.Ops {
			var m, r interface{}
			what := ""
			msg := vh.Guard(func() {
				switch o.Op {
				case "mul":
					m = call(ms[o.In[0]-1], "Mul", ms[o.In[1]-1])
					if rs[o.In[0]-1] != nil && rs[o.In[1]-1] != nil {
						r = call(rs[o.In[0]-1], "Mul", rs[o.In[1]-1])
					}
				case "inv":
					inverses++
					m = call(ms[o.In[0]-1], "Inverse")
					if rs[o.In[0]-1] != nil {
						r = call(rs[o.In[0]-1], "Inverse")
					}
				default:
					if c.Dim == 2 {
						m, r = leafMat2(o, c.Turn)
					} else {
						m = leafMat3(o, c.Turn, i)
					}
				}
				ms, rs = append(ms, m), append(rs, r)
				what = judge(c, i, ms, rs, &images, &boxes)
			})
			if msg != "" {
				what = "panic: " + msg
			}
			if what != "" {
				w.Put(vh.M{"case": n, "op": i + 1, "what": fmt.Sprintf("matrix %d (%s): %s", i+1, o.Op, what), "dim": c.Dim, "turn": c.Turn, "ops": c.Ops[:i+1]})
				return nil
			}
		}
		return nil
	})
	w.Put(vh.M{"stats": vh.M{"programs": n, "images": images, "boxes": boxes, "inverses": inverses}})
}

func angle(o matOp, turn int) float64 {
	return math.Atan2(float64(o.A[5]), float64(o.A[4])) + 2*math.Pi*float64(turn)
}

func leafMat3(o matOp, turn, i int) interface{} {
	v := r3.Vec{}
	if len(o.A) > 2 {
		v = r3.Vec{X: float64(o.A[0]), Y: float64(o.A[1]), Z: float64(o.A[2])}
	}
	switch o.Op {
	case "tr":
		return sdf.Translate3D(v)
	case "sc":
		return sdf.Scale3D(r3.Scale(0.25, v))
	case "mxy":
		return sdf.MirrorXY()
	case "mxz":
		return sdf.MirrorXZ()
	case "myz":
		return sdf.MirrorYZ()
	case "meq":
		return sdf.MirrorXeqY()
	}
	a := math.Atan2(float64(o.A[5]), float64(o.A[4])) + 2*math.Pi*float64(turn)
	switch {
	case i%2 == 0 && v == r3.Vec{X: 1}:
		return sdf.RotateX(a)
	case i%2 == 0 && v == r3.Vec{Y: 1}:
		return sdf.RotateY(a)
	case i%2 == 0 && v == r3.Vec{Z: 1}:
		return sdf.RotateZ(a)
	}
	return sdf.Rotate3D(v, a)
}

func leafMat2(o matOp, turn int) (m, r interface{}) {
	v := r2.Vec{}
	if len(o.A) > 1 {
		v = r2.Vec{X: float64(o.A[0]), Y: float64(o.A[1])}
	}
	switch o.Op {
	case "tr":
		return sdf.Translate2D(v), nil
	case "sc":
		return sdf.Scale2D(r2.Scale(0.25, v)), nil
	case "mxz":
		return sdf.MirrorX(), nil
	case "myz":
		return sdf.MirrorY(), nil
	}
	a := math.Atan2(float64(o.A[5]), float64(o.A[4])) + 2*math.Pi*float64(turn)
	return sdf.Rotate2D(a), sdf.Rotate(a)
}

func close(got, num, den float64) bool {
	want := num / den
	return math.Abs(got-want) <= 1e-8*(1+math.Abs(want)) // false for NaN
}

func judge(c matCase, i int, ms, rs []interface{}, images, boxes *int) string {
	pr, m := c.Pr[i], ms[i]
	det := float64(pr.Det[0]) * math.Pow(2, float64(pr.Det[1]))
	if d := call(m, "Determinant").(float64); !close(d, det, 1) {
		return fmt.Sprintf("determinant %v, want %v", d, det)
	}
	if rs[i] != nil {
		if d := call(rs[i], "Determinant").(float64); !close(d, det, 1) {
			return fmt.Sprintf("determinant of the 2x2 matrix %v, want %v", d, det)
		}
	}
	lo, hi := pr.Lo, pr.Hi
	for k, q := range pr.Pts {
		*images++
		x, y, z, den := float64(q[3]), float64(q[4]), float64(q[5]), float64(q[6])
		if c.Dim == 3 {
			v := call(m, "MulPosition", r3.Vec{X: float64(q[0]), Y: float64(q[1]), Z: float64(q[2])}).(r3.Vec)
			if !close(v.X, x, den) || !close(v.Y, y, den) || !close(v.Z, z, den) {
				return fmt.Sprintf("takes %v to %v, want %v over %v", q[:3], v, q[3:6], den)
			}
			continue
		}
		p := r2.Vec{X: float64(q[0]), Y: float64(q[1])}
		v := call(m, "MulPosition", p).(r2.Vec)
		if !close(v.X, x, den) || !close(v.Y, y, den) {
			return fmt.Sprintf("takes %v to %v, want %v over %v", q[:2], v, q[3:5], den)
		}
		if rs[i] != nil {
			if v := call(rs[i], "MulPosition", p).(r2.Vec); !close(v.X, x, den) || !close(v.Y, y, den) {
				return fmt.Sprintf("the 2x2 matrix takes %v to %v, want %v over %v", q[:2], v, q[3:5], den)
			}
		}
		if i > 0 { // sums and multiples act as sums and multiples
			o := c.Pr[i-1].Pts[k]
			x2, y2 := float64(o[3])/float64(o[6]), float64(o[4])/float64(o[6])
			if v := call(call(m, "Add", ms[i-1]), "MulPosition", p).(r2.Vec); !close(v.X, x/den+x2, 1) || !close(v.Y, y/den+y2, 1) {
				return fmt.Sprintf("added to the one before takes %v to %v", q[:2], v)
			}
			if v := call(call(m, "MulScalar", -1.5), "MulPosition", p).(r2.Vec); !close(v.X, -1.5*x, den) || !close(v.Y, -1.5*y, den) {
				return fmt.Sprintf("multiplied by -1.5 takes %v to %v", q[:2], v)
			}
		}
	}
	*boxes++
	b := pr.Box
	den := float64(b[6])
	f := func(i int) float64 { return float64(b[i]) }
	if c.Dim == 3 {
		g := call(m, "MulBox", r3.Box{Min: r3.Vec{X: float64(lo[0]), Y: float64(lo[1]), Z: float64(lo[2])}, Max: r3.Vec{X: float64(hi[0]), Y: float64(hi[1]), Z: float64(hi[2])}}).(r3.Box)
		if !close(g.Min.X, f(0), den) || !close(g.Min.Y, f(1), den) || !close(g.Min.Z, f(2), den) || !close(g.Max.X, f(3), den) || !close(g.Max.Y, f(4), den) || !close(g.Max.Z, f(5), den) {
			return fmt.Sprintf("takes the box %v %v to %v, want %v", lo, hi, g, b)
		}
		return ""
	}
	g := call(m, "MulBox", r2.Box{Min: r2.Vec{X: float64(lo[0]), Y: float64(lo[1])}, Max: r2.Vec{X: float64(hi[0]), Y: float64(hi[1])}}).(r2.Box)
	if !close(g.Min.X, f(0), den) || !close(g.Min.Y, f(1), den) || !close(g.Max.X, f(3), den) || !close(g.Max.Y, f(4), den) {
		return fmt.Sprintf("takes the box %v %v to %v, want %v", lo, hi, g, b)
	}
	return ""
}

// recorder remembers where it was evaluated.
type recorder struct{ at *r3.Vec }

func (r recorder) Evaluate(p r3.Vec) float64 { *r.at = p; return r3.Norm(p) }
func (r recorder) Bounds() r3.Box {
	return r3.Box{Min: r3.Vec{X: -1, Y: -1, Z: -1}, Max: r3.Vec{X: 1, Y: 1, Z: 1}}
}

type orientCase struct {
	A, B [3]int
	F    [3]int // small vector in the direction of B
}

// orient finds the rotation an oriented copy has, from where it evaluates the original.
func orient(in, out string) {
	w := vh.NewWriter(out)
	defer w.Close()
	vh.ReadLines(in, func(raw []byte) error {
		var c orientCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		v := func(a [3]int) r3.Vec { return r3.Vec{X: float64(a[0]), Y: float64(a[1]), Z: float64(a[2])} }
		var at r3.Vec
		rot := [3][3]int{}
		ok := true
		msg := vh.Guard(func() {
			s := sdf.Orient3D(recorder{&at}, v(c.A), d3.Set{v(c.B)})
			for i, e := range []r3.Vec{{X: 1}, {Y: 1}, {Z: 1}} {
				s.Evaluate(e) // at the inverse's column i, which is row i of the rotation
				for j, x := range []float64{at.X, at.Y, at.Z} {
					if !(math.Abs(x) < 100) {
						ok = false
						x = 0
					}
					rot[i][j] = int(math.Round(x * 10000))
				}
			}
		})
		w.Put(vh.M{"a": c.A, "b": c.B, "f": c.F, "r": rot, "ok": ok && msg == "", "msg": msg})
		return nil
	})
}
