// Replays solids generated from MeshSdf: their meshes are imported by both importers and
// every probe is compared with the signed distance the specification gives.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/internal/verifh/vh"
	"gonum.org/v1/gonum/spatial/r3"
)

type solid struct {
	Tris [][3][3]float64 `json:"tris"`
	Lo   [3]float64      `json:"lo"`
	Hi   [3]float64      `json:"hi"`
	Pose int             `json:"pose"`
	Bad  []int           `json:"bad"`
	Pr   [][5]float64    `json:"pr"`
}

// A pose scales, turns and moves a solid.
type pose struct {
	u    float64
	rot  *r3.Rotation
	move r3.Vec
}

func (p pose) at(v [3]float64) r3.Vec {
	x := r3.Vec{X: v[0] * p.u, Y: v[1] * p.u, Z: v[2] * p.u}
	if p.rot != nil {
		x = p.rot.Rotate(x)
	}
	return r3.Add(x, p.move)
}

func newPose(k int) pose {
	p := pose{u: []float64{1, 0.001, 25.4, 0.37, 1.0 / (1 << 24), 4096}[k%6]}
	switch k / 4 % 4 {
	case 1:
		r := r3.NewRotation(0.7, r3.Vec{X: 1, Y: 2, Z: -3})
		p.rot = &r
	case 2:
		r := r3.NewRotation(2.9, r3.Vec{X: -1, Y: 0.2, Z: 0.3})
		p.rot = &r
	}
	if k/16%3 == 1 {
		p.move = r3.Vec{X: 37.3 * p.u, Y: -211.7 * p.u, Z: 90.1 * p.u}
	}
	return p
}

type failure struct {
	Case int    `json:"case"`
	What string `json:"what"`
	S    solid  `json:"solid"`
}

func check(s solid, st map[string]int) string {
	p := newPose(s.Pose)
	model := make([]r3.Triangle, len(s.Tris))
	side := math.MaxFloat64
	for i, t := range s.Tris {
		for j := range t {
			model[i][j] = p.at(t[j])
		}
		for j := range t {
			side = math.Min(side, r3.Norm(r3.Sub(model[i][j], model[i][(j+1)%3])))
		}
	}
	rand.New(rand.NewSource(int64(s.Pose))).Shuffle(len(model), func(i, j int) { model[i], model[j] = model[j], model[i] })
	lo, hi := model[0][0], model[0][0]
	for _, t := range model {
		for _, v := range t {
			lo = r3.Vec{X: math.Min(lo.X, v.X), Y: math.Min(lo.Y, v.Y), Z: math.Min(lo.Z, v.Z)}
			hi = r3.Vec{X: math.Max(hi.X, v.X), Y: math.Max(hi.Y, v.Y), Z: math.Max(hi.Z, v.Z)}
		}
	}
	tol := 0.0
	if s.Pose%5 == 4 {
		tol = side / 1000
	}
	if len(s.Bad) > 0 {
		v := &model[(s.Bad[0]-1)%len(model)][s.Bad[1]]
		c := [3]*float64{&v.X, &v.Y, &v.Z}[s.Bad[2]]
		*c = math.NaN()
	}
	for k, name := range []string{"ImportModel", "ImportModelV2"} {
		var f sdf.SDF3
		var err error
		given := append([]r3.Triangle(nil), model...)
		if e := vh.Guard(func() {
			if k == 0 {
				f, err = sdfexp.ImportModel(given, tol)
			} else {
				f, err = sdfexp.ImportModelV2(given, tol)
			}
		}); e != "" {
			return name + " panicked: " + e
		}
		if len(s.Bad) > 0 {
			if err == nil {
				return name + " accepted a NaN coordinate"
			}
			st["rejected"]++
			continue
		}
		if err != nil {
			return fmt.Sprintf("%s rejected a closed mesh: %v", name, err)
		}
		st["imported"]++
		bb := f.Bounds()
		if r3.Norm(r3.Sub(bb.Min, lo)) > 1e-9*p.u || r3.Norm(r3.Sub(bb.Max, hi)) > 1e-9*p.u {
			return fmt.Sprintf("%s has bounds %v, its mesh %v to %v", name, bb, lo, hi)
		}
		if p.rot == nil && (r3.Norm(r3.Sub(bb.Min, p.at(s.Lo))) > 1e-6*p.u || r3.Norm(r3.Sub(bb.Max, p.at(s.Hi))) > 1e-6*p.u) {
			return fmt.Sprintf("%s has bounds %v, the solid %v to %v", name, bb, p.at(s.Lo), p.at(s.Hi))
		}
		for _, q := range s.Pr {
			var v float64
			if e := vh.Guard(func() { v = f.Evaluate(p.at([3]float64{q[0], q[1], q[2]})) / p.u }); e != "" {
				return fmt.Sprintf("%s panicked evaluating: %s", name, e)
			}
			d := math.Abs(v)
			const eps = 1e-5
			a, b := math.Sqrt(q[4]/1000), math.Sqrt((q[4]+1)/1000)
			if q[3] == 0 {
				b = 0
			}
			if !(d >= a-eps && d <= b+eps) {
				return fmt.Sprintf("%s at %v (in units) is %v away, the mesh %v", name, q[:3], d, a)
			}
			if q[3]*v < 0 {
				return fmt.Sprintf("%s at %v (in units) gives %v, the side is %v", name, q[:3], v, q[3])
			}
			st["probes"]++
			st[map[float64]string{-1: "inside", 0: "on the surface", 1: "outside"}[q[3]]]++
		}
	}
	return ""
}

func main() {
	w := vh.NewWriter(os.Args[2])
	st := map[string]int{}
	n := 0
	vh.ReadLines(os.Args[1], func(raw []byte) error {
		var s solid
		if err := json.Unmarshal(raw, &s); err != nil {
			return err
		}
		n++
		st["triangles"] += len(s.Tris)
		if e := check(s, st); e != "" {
			w.Put(failure{n, e, s})
		}
		return nil
	})
	st["solids"] = n
	w.Put(map[string]interface{}{"stats": st})
	w.Close()
}
