// Replays screws generated from Screw: the sweep is compared with the profile at the place
// the specification gives, the profile with its outline, the stated parameters with the box.
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/form3/obj3/thread"
	"github.com/soypat/sdf/internal/verifh/vh"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

type scr struct {
	Kind   string       `json:"kind"`
	P      float64      `json:"P"`
	R      float64      `json:"R"`
	L      float64      `json:"L"`
	H      float64      `json:"H"`
	Tan    float64      `json:"tan"`
	Wrap   int          `json:"wrap"`
	U      int          `json:"u"`
	Starts int          `json:"starts"`
	Taper  float64      `json:"taper"`
	Pr     [][7]float64 `json:"pr"`
	Sizes  [][4]float64 `json:"sizes"` // nominal pipe sizes: eighths, thousandths of diameter, tenths of TPI, tenths of mm across flats
}

// wound is a thread wound with other starts and taper than its standard has.
type wound struct {
	thread.Threader
	starts int
	taper  float64
}

func (w wound) ThreadParams() thread.Parameters {
	p := w.Threader.ThreadParams()
	p.Starts, p.Taper = w.starts, w.taper
	return p
}

func threader(kind string, d, p float64) thread.Threader {
	switch kind {
	case "isoe":
		return thread.ISO{D: d, P: p, Ext: true}
	case "isoi":
		return thread.ISO{D: d, P: p}
	case "acme":
		return thread.Acme{D: d, P: p}
	case "ansi":
		return thread.ANSIButtress{D: d, P: p}
	case "plas":
		return thread.PlasticButtress{D: d, P: p}
	case "utse":
		return thread.UTS{D: d, TPI: 1 / p, Ext: true}
	case "utsi":
		return thread.UTS{D: d, TPI: 1 / p}
	case "npt":
		return thread.NPT{D: d, TPI: 1 / p}
	}
	panic("HARNESS kind " + kind)
}

type failure struct {
	Case int    `json:"case"`
	What string `json:"what"`
	S    scr    `json:"screw"`
	Sig  string `json:"sig,omitempty"`
}

func near(a, b, scale float64) bool { return math.Abs(a-b) <= 1e-9*scale }

func sizes(s scr, st map[string]int) string {
	for _, z := range s.Sizes {
		for _, off := range []float64{0, 0.02, -0.02} {
			var n thread.NPT
			if err := n.SetFromNominal(z[0]/8 + off); err != nil {
				return fmt.Sprintf("pipe size %v/8 is unknown: %v", z[0], err)
			}
			if !near(n.D, z[1]/1000, 1) || !near(n.TPI, z[2]/10, 10) || !near(n.F2F, z[3]/254, 1) {
				return fmt.Sprintf("pipe size %v/8 gives %+v, want %v", z[0], n, z)
			}
			p := n.ThreadParams()
			if !near(p.HexF2F, z[3]/254, 1) || !near(p.Pitch, 10/z[2], 1) || !near(p.Radius, z[1]/2000, 1) || !near(math.Tan(p.Taper), 1./32, 1) || p.Starts != 1 {
				return fmt.Sprintf("pipe size %v/8 has parameters %+v", z[0], p)
			}
		}
		was := thread.NPT{D: 3, TPI: 5, F2F: 7}
		n := was
		if err := n.SetFromNominal(z[0]/8 + 0.055); err == nil {
			return fmt.Sprintf("no pipe has the size %v", z[0]/8+0.055)
		}
		if n != was {
			return "an unknown pipe size changed the thread"
		}
		st["sizes"]++
	}
	return ""
}

func check(s scr, st map[string]int) string {
	if s.Kind == "sizes" {
		return sizes(s, st)
	}
	u := []float64{1, 0.01, 25.4}[s.U]
	var f sdf.SDF3
	var prof sdf.SDF2
	var err error
	tan := s.Taper / 32
	if s.Kind == "knurl" {
		k := thread.KnurlParams{Length: s.L * u, Radius: s.R * u, Pitch: s.P * u, Height: s.H * u, Theta: math.Atan(s.Tan / 8)}
		prof, err = k.Thread()
		if err == nil {
			f, err = thread.Knurl(k)
		}
	} else {
		t := threader(s.Kind, 2*s.R*u, s.P*u)
		p := t.ThreadParams()
		want := 0.0
		if s.Kind == "npt" {
			want = 1. / 32
		}
		if !near(p.Radius, s.R*u, s.R*u) || !near(p.Pitch, s.P*u, s.P*u) || p.Starts != 1 || !near(math.Tan(p.Taper), want, 1) {
			return fmt.Sprintf("the thread states %+v", p)
		}
		if s.Wrap != 0 {
			t = wound{t, s.Starts, math.Atan(tan)}
		}
		prof, err = t.Thread()
		if err == nil {
			f, err = thread.Screw(s.L*u, t)
		}
	}
	if err != nil {
		return fmt.Sprintf("rejected: %v", err)
	}
	bb := f.Bounds()
	if !near(bb.Min.Z, -s.L/2*u, s.L*u) || !near(bb.Max.Z, s.L/2*u, s.L*u) {
		return fmt.Sprintf("bounds %v for a screw of length %v", bb, s.L*u)
	}
	if s.Kind != "knurl" {
		if pb := prof.Bounds(); pb.Min.X > -s.P/2*u || pb.Max.X < s.P/2*u || pb.Min.Y > 1e-9*u || pb.Max.Y < s.R*u*(1-1e-9) {
			return fmt.Sprintf("the profile has bounds %v, its pitch is %v, its radius %v", pb, s.P*u, s.R*u)
		}
	}
	scale := (s.R + s.L + s.P) * u
	for _, q := range s.Pr {
		z, k, y, x, over := q[0], q[1], q[2], q[3], q[4]
		rho := y - z*tan
		if rho < 0.01 || x == -s.P/2 || s.Kind == "knurl" && q[5] == -s.P/2 {
			st["skipped"]++
			continue
		}
		a := 2 * math.Pi * k / 24
		p := r3.Vec{X: rho * math.Cos(a) * u, Y: rho * math.Sin(a) * u, Z: z * u}
		if k == 12 {
			p.Y = 0
		}
		v := f.Evaluate(p)
		want := math.Max(prof.Evaluate(r2.Vec{X: x * u, Y: y * u}), over*u)
		if s.Kind == "knurl" {
			want = math.Max(want, prof.Evaluate(r2.Vec{X: q[5] * u, Y: y * u}))
		}
		if !near(v, want, scale) {
			return fmt.Sprintf("at height %v, %v/24 turn, %v from the axis the screw gives %v, the profile at %v, %v gives %v (unit %v)", z, k, rho, v/u, x, y, want/u, u)
		}
		if s.Kind != "knurl" && v*q[5] < 0 {
			return fmt.Sprintf("at height %v, %v/24 turn, %v from the axis the screw gives %v, the side of the outline is %v (unit %v)", z, k, rho, v/u, q[5], u)
		}
		if q[6] > 0 && v > -0.9*q[6]*u {
			return fmt.Sprintf("at height %v, %v/24 turn, %v from the axis the screw gives %v, the next surface is %v away (unit %v)", z, k, rho, v/u, q[6], u)
		}
		if q[6] > 0 {
			st["deep"]++
		}
		if v < -1e-9*scale {
			e := 1e-9 * scale
			if p.X < bb.Min.X-e || p.Y < bb.Min.Y-e || p.Z < bb.Min.Z-e || p.X > bb.Max.X+e || p.Y > bb.Max.Y+e || p.Z > bb.Max.Z+e {
				return fmt.Sprintf("%v is inside the screw and outside its bounds %v", p, bb)
			}
			st["inside"]++
		}
		if q[5] == 0 && s.Kind != "knurl" {
			st["undecided"]++
		}
		st["probes"]++
	}
	return ""
}

func main() {
	w := vh.NewWriter(os.Args[2])
	st := map[string]int{}
	n := 0
	vh.ReadLines(os.Args[1], func(raw []byte) error {
		var s scr
		if err := json.Unmarshal(raw, &s); err != nil {
			return err
		}
		n++
		st[s.Kind]++
		var what string
		if e := vh.Guard(func() { what = check(s, st) }); e != "" {
			what = "panicked: " + e
		}
		if what != "" {
			if len(s.Pr) > 0 {
				s.Pr = s.Pr[:1]
			}
			w.Put(failure{Case: n, What: s.Kind + ": " + what, S: s})
		}
		return nil
	})
	st["screws"] = n
	w.Put(map[string]interface{}{"stats": st})
	w.Close()
}
