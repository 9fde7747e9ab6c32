package main

import (
	"archive/zip"
	"bytes"
	"encoding/binary"
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/helpers/sdfexp"
	"github.com/soypat/sdf/internal/verifh/vh"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

type pipe struct {
	Cells  int    `json:"cells"`
	File   string `json:"file"`
	Import int    `json:"import"`
	Again  int    `json:"again"`
	Also   []int  `json:"also"` // further resolutions at which the rendered shape is imported
}

type pipeRow struct {
	Case  int      `json:"case"`
	What  string   `json:"what"`
	H     int      `json:"h"`
	Empty bool     `json:"empty"`
	Fin   []bool   `json:"fin"`
	Pr    [][6]int `json:"pr"`
	Tris  int      `json:"tris"`
}

func stlTris(b []byte) (ts []r3.Triangle, err error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("only %d bytes", len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, fmt.Errorf("%d bytes for %d triangles", len(b), n)
	}
	for i := 0; i < n; i++ {
		var t r3.Triangle
		f := func(k int) float64 {
			return float64(math.Float32frombits(binary.LittleEndian.Uint32(b[84+50*i+12+4*k:])))
		}
		for k := range t {
			t[k] = r3.Vec{X: f(3 * k), Y: f(3*k + 1), Z: f(3*k + 2)}
		}
		ts = append(ts, t)
	}
	return ts, nil
}

func mfTris(path string) (ts []r3.Triangle, err error) {
	z, err := zip.OpenReader(path)
	if err != nil {
		return nil, err
	}
	defer z.Close()
	for _, f := range z.File {
		if !strings.HasSuffix(f.Name, ".model") {
			continue
		}
		rc, err := f.Open()
		if err != nil {
			return nil, err
		}
		var m struct {
			V []struct {
				X string `xml:"x,attr"`
				Y string `xml:"y,attr"`
				Z string `xml:"z,attr"`
			} `xml:"resources>object>mesh>vertices>vertex"`
			T []struct {
				A int `xml:"v1,attr"`
				B int `xml:"v2,attr"`
				C int `xml:"v3,attr"`
			} `xml:"resources>object>mesh>triangles>triangle"`
		}
		if err := xml.NewDecoder(rc).Decode(&m); err != nil {
			return nil, err
		}
		num := func(s string) float64 {
			x, e := strconv.ParseFloat(s, 64)
			if e != nil {
				err = e
			}
			return x
		}
		for _, t := range m.T {
			var tri r3.Triangle
			for k, i := range [3]int{t.A, t.B, t.C} {
				if i < 0 || i >= len(m.V) {
					return nil, fmt.Errorf("no vertex %d", i)
				}
				tri[k] = r3.Vec{X: num(m.V[i].X), Y: num(m.V[i].Y), Z: num(m.V[i].Z)}
			}
			ts = append(ts, tri)
		}
	}
	return ts, err
}

// make renders a shape, takes it through a file and imports it. h is the side of its cells.
func (p *pipe) make(s sdf.SDF3, cells int, dir string, row *pipeRow) (part sdf.SDF3, h float64, err error) {
	sz := s.Bounds().Size()
	h = 1.01 * math.Max(sz.X, math.Max(sz.Y, sz.Z)) / float64(cells)
	var ts []r3.Triangle
	path := filepath.Join(dir, "part")
	switch p.File {
	case "":
		ts, err = render.RenderAll(render.NewOctreeRenderer(s, cells))
	case "stl":
		if err = render.CreateSTL(path, render.NewOctreeRenderer(s, cells)); err == nil {
			var b []byte
			b, err = os.ReadFile(path)
			vh.Check(err)
			ts, err = stlTris(b)
		}
	case "wstl":
		var m []r3.Triangle
		if m, err = render.RenderAll(render.NewOctreeRenderer(s, cells)); err == nil && len(m) > 0 {
			var b bytes.Buffer
			if err = render.WriteSTL(&b, m); err == nil {
				ts, err = stlTris(b.Bytes())
			}
		}
	case "3mf":
		if err = render.Create3MF(path, render.NewOctreeRenderer(s, cells)); err == nil {
			ts, err = mfTris(path)
		}
	}
	if err != nil {
		// an empty model is refused by the writers
		m, e := render.RenderAll(render.NewOctreeRenderer(s, cells))
		if e == nil && len(m) == 0 {
			return nil, h, nil
		}
		return nil, h, err
	}
	row.Tris = len(ts)
	if len(ts) == 0 {
		return nil, h, nil
	}
	if p.Import == 1 {
		m, err := sdfexp.ImportModel(ts, 0)
		return m, h, err
	}
	m, err := sdfexp.ImportModelV2(ts, 0)
	return m, h, err
}

func (p *pipe) run(n int, s session, st map[string]int) *pipeRow {
	b := &builder{u: units[s.Unit]}
	row := &pipeRow{Case: n, Fin: []bool{}, Pr: [][6]int{}}
	for i, o := range s.Ops {
		if e := b.construct(o); e != "" {
			row.What = fmt.Sprintf("building %s: %s", s.Ops[i].Op, e)
			return row
		}
	}
	last := len(s.Ops) - 1
	o := s.Ops[last]
	dir, err := os.MkdirTemp("", "pipe")
	vh.Check(err)
	defer os.RemoveAll(dir)
	msg := vh.Guard(func() {
		part, h, err := p.make(b.s3[last], p.Cells, dir, row)
		if err == nil && part != nil && p.Again > 0 {
			var h2 float64
			part, h2, err = p.make(part, p.Again, dir, row)
			h += h2
			st["twice"]++
		}
		if err != nil {
			row.What = err.Error()
			return
		}
		for i, cells := range p.Also {
			also := b.s3[last]
			if i%2 == 1 { // turned out of the lattice
				also = sdf.Transform3D(also, sdf.RotateX(.37*float64(n%17)+.1).Mul(sdf.RotateZ(float64(i))))
			}
			m, e := render.RenderAll(render.NewOctreeRenderer(also, cells))
			if e == nil && len(m) > 0 {
				st["also"]++
				st["tris"] += len(m)
				for v := 0; v < 2 && e == nil; v++ {
					var also sdf.SDF3
					if v == 0 {
						also, e = sdfexp.ImportModel(m, 0)
					} else {
						also, e = sdfexp.ImportModelV2(m, 0)
					}
					for k := 0; k < 4 && e == nil; k++ {
						q := o.Pr[k]
						if v := also.Evaluate(r3.Vec{X: float64(q[0]) * b.u, Y: float64(q[1]) * b.u, Z: float64(q[2]) * b.u}) / b.u; !(math.Abs(v) < 1e8) {
							e = fmt.Errorf("it evaluates to %v", v)
						}
					}
				}
			}
			if e != nil {
				row.What = fmt.Sprintf("rendered with %d cells: %v", cells, e)
				return
			}
		}
		row.H = 2 + int(math.Ceil(h*math.Sqrt(3)/b.u))
		row.Empty = part == nil
		for _, q := range o.Pr {
			m := 0.0
			if part != nil {
				m = part.Evaluate(r3.Vec{X: float64(q[0]) * b.u, Y: float64(q[1]) * b.u, Z: float64(q[2]) * b.u}) / b.u
			}
			ok := math.Abs(m) < 1e8
			if !ok {
				m = 0
			}
			row.Fin = append(row.Fin, ok)
			row.Pr = append(row.Pr, [6]int{int(q[0]), int(q[1]), int(q[2]), int(q[3]), int(q[4]), int(math.Round(m))})
			if int(q[3]) > row.H || int(q[4]) < -row.H {
				st["sure"]++
			}
			if int(q[4]) < -row.H {
				st["deep"]++
			}
			st["probes"]++
		}
	})
	if msg != "" {
		row.What = msg
	}
	if row.Empty {
		st["empty"]++
	}
	st["op:"+o.Op]++
	st["file:"+p.File]++
	return row
}
