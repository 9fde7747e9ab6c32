// Meshes the lattices and shapes generated by BccGen with tetrahedra and records the result
// for BccTrace.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"

	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/internal/verifh/vh"
	"gonum.org/v1/gonum/spatial/r3"
)

type part struct {
	K  string     `json:"k"`
	C  [3]float64 `json:"c"`
	R  float64    `json:"r"`
	Lo [3]float64 `json:"lo"`
	Hi [3]float64 `json:"hi"`
}

type job struct {
	K     string       `json:"k"`
	D     [3]int       `json:"D"`
	Neg   [][3]int     `json:"neg"`
	Pose  int          `json:"pose"`
	Parts []part       `json:"parts"`
	Cut   []part       `json:"cut"`
	Lo    [3]float64   `json:"lo"`
	Hi    [3]float64   `json:"hi"`
	Res   float64      `json:"res"`
	Pr    [][4]float64 `json:"pr"`
}

type result struct {
	Case     int      `json:"case"`
	K        string   `json:"k"`
	What     string   `json:"what"`
	D        [3]int   `json:"D"`
	Neg      [][3]int `json:"neg"`
	Nodes    int      `json:"nodes"`
	Tets     [][4]int `json:"tets"`
	At       [][3]int `json:"at"`
	Infinite int      `json:"infinite"`
	Side     []int    `json:"side"`
	Far      int      `json:"far"`
	Pr       [][3]int `json:"pr"` // strictly in, in, class
}

type field struct {
	f func(p r3.Vec) float64
	b r3.Box
}

func (f field) Evaluate(p r3.Vec) float64 { return f.f(p) }
func (f field) Bounds() r3.Box            { return f.b }

func arr(v r3.Vec) [3]float64 { return [3]float64{v.X, v.Y, v.Z} }

func (q part) dist(p [3]float64) float64 {
	if q.K == "ball" {
		return math.Sqrt((p[0]-q.C[0])*(p[0]-q.C[0])+(p[1]-q.C[1])*(p[1]-q.C[1])+(p[2]-q.C[2])*(p[2]-q.C[2])) - q.R
	}
	in, out := math.Inf(-1), 0.0
	for d := range p {
		o := math.Max(q.Lo[d]-p[d], p[d]-q.Hi[d])
		in = math.Max(in, o)
		if o > 0 {
			out += o * o
		}
	}
	if in > 0 {
		return math.Sqrt(out)
	}
	return in
}

// shape is the job's field in its own frame.
func (j job) shape(p [3]float64) float64 {
	d := math.Inf(1)
	for _, q := range j.Parts {
		d = math.Min(d, q.dist(p))
	}
	for _, q := range j.Cut {
		d = math.Max(d, -q.dist(p))
	}
	return d
}

// node gives the lattice node nearest to a point in half cells.
func node(p [3]float64) (n [3]int) {
	best := math.Inf(1)
	for odd := 0; odd < 2; odd++ {
		var c [3]int
		q := 0.0
		for d := range p {
			c[d] = 2*int(math.Round((p[d]-float64(odd))/2)) + odd
			q += (p[d] - float64(c[d])) * (p[d] - float64(c[d]))
		}
		if q < best {
			best, n = q, c
		}
	}
	return n
}

func run(j job, st map[string]int) (r result) {
	u := []float64{1, 0.01, 25.4, 0.37, 1.0 / (1 << 20), 4096}[j.Pose%6]
	var mv r3.Vec
	if j.Pose/6%2 == 1 {
		mv = r3.Vec{X: 31.7 * u, Y: -12.9 * u, Z: 4.3 * u}
	}
	back := func(p r3.Vec) [3]float64 { return arr(r3.Scale(1/u, r3.Sub(p, mv))) }
	f := field{}
	res := j.Res
	if j.K == "lattice" {
		in := map[[3]int]bool{}
		for _, n := range j.Neg {
			in[n] = true
		}
		res = 2
		size := r3.Vec{X: 2 * float64(j.D[0]), Y: 2 * float64(j.D[1]), Z: 2 * float64(j.D[2])}
		// a little less than whole cells, so that rounding does not add any
		size = r3.Sub(size, r3.Vec{X: 0.3, Y: 0.1, Z: 0.2})
		f.b = r3.Box{Min: mv, Max: r3.Add(mv, r3.Scale(u, size))}
		f.f = func(p r3.Vec) float64 {
			q := back(p)
			v := 1e-9 * u * (1 + 0.01*(q[0]+2*q[1]+3*q[2]))
			if in[node(q)] {
				return v - 2e-9*u*2
			}
			return v
		}
	} else {
		at := func(a [3]float64) r3.Vec { return r3.Add(mv, r3.Scale(u, r3.Vec{X: a[0], Y: a[1], Z: a[2]})) }
		f.b = r3.Box{Min: at(j.Lo), Max: at(j.Hi)}
		f.f = func(p r3.Vec) float64 { return u * j.shape(back(p)) }
	}
	r.K, r.D, r.Neg = j.K, j.D, j.Neg
	nodes, tets := sdfexp.UniformTetrahedronMesh(res*u, f)
	r.Nodes, r.Tets = len(nodes), tets
	if tets == nil {
		r.Tets = [][4]int{}
	}
	pos := make([][3]float64, len(nodes))
	for i, n := range nodes {
		if s := n.X + n.Y + n.Z; math.IsNaN(s) || math.IsInf(s, 0) {
			r.Infinite++
			continue
		}
		pos[i] = back(n)
		if j.K == "lattice" {
			r.At = append(r.At, node(pos[i]))
		}
	}
	if r.Infinite > 0 {
		return r
	}
	for _, t := range tets {
		for _, n := range t {
			if n < 0 || n >= len(nodes) {
				return r
			}
			if j.K == "lattice" {
				for d := range pos[n] {
					if math.Abs(pos[n][d]-float64(r.At[n][d])) > 1e-3 {
						r.What = fmt.Sprintf("a node of a mesh with nothing to move is at %v, not on the lattice (half cells)", pos[n])
						return r
					}
				}
			} else if d := j.shape(pos[n]); d > res*(1+1e-6) {
				r.Far++
			}
		}
		a, b, c, d := pos[t[0]], pos[t[1]], pos[t[2]], pos[t[3]]
		v := vol(a, b, c, d) / (res * res * res)
		switch {
		case v > 1e-9:
			r.Side = append(r.Side, 1)
		case v < -1e-9:
			r.Side = append(r.Side, -1)
		default:
			r.Side = append(r.Side, 0)
		}
	}
	for _, q := range j.Pr {
		p := [3]float64{q[0], q[1], q[2]}
		n, m := 0, 0
		for _, t := range tets {
			in := inside(pos[t[0]], pos[t[1]], pos[t[2]], pos[t[3]], p)
			if in > 1e-7 {
				n++
			}
			if in > -1e-7 {
				m++
			}
		}
		r.Pr = append(r.Pr, [3]int{n, m, int(q[3])})
		st[[]string{"far outside", "deep inside", "between"}[int(q[3])]]++
	}
	st["tetrahedra"] += len(tets)
	return r
}

func vol(a, b, c, d [3]float64) float64 {
	v := func(p, q [3]float64) r3.Vec { return r3.Vec{X: q[0] - p[0], Y: q[1] - p[1], Z: q[2] - p[2]} }
	return r3.Dot(v(a, b), r3.Cross(v(a, c), v(a, d)))
}

// inside gives the least barycentric coordinate of p.
func inside(a, b, c, d, p [3]float64) float64 {
	for i := range p {
		if p[i] < math.Min(math.Min(a[i], b[i]), math.Min(c[i], d[i]))-1e-9 || p[i] > math.Max(math.Max(a[i], b[i]), math.Max(c[i], d[i]))+1e-9 {
			return -1
		}
	}
	v := vol(a, b, c, d)
	return math.Min(math.Min(vol(p, b, c, d)/v, vol(a, p, c, d)/v), math.Min(vol(a, b, p, d)/v, vol(a, b, c, p)/v))
}

func main() {
	w := vh.NewWriter(os.Args[2])
	st := map[string]int{}
	n := 0
	vh.ReadLines(os.Args[1], func(raw []byte) error {
		var j job
		if err := json.Unmarshal(raw, &j); err != nil {
			return err
		}
		n++
		st[j.K]++
		var r result
		if e := vh.Guard(func() { r = run(j, st) }); e != "" {
			r = result{K: j.K, What: "panicked: " + e}
		}
		r.Case = n
		if r.Neg == nil {
			r.Neg = [][3]int{}
		}
		if r.Pr == nil {
			r.Pr = [][3]int{}
		}
		if r.Side == nil {
			r.Side = []int{}
		}
		if r.At == nil {
			r.At = [][3]int{}
		}
		w.Put(r)
		return nil
	})
	w.Put(map[string]interface{}{"stats": st})
	w.Close()
}
