package main

import (
	"encoding/json"
	"math"

	"github.com/soypat/sdf/form2"
	"github.com/soypat/sdf/internal/verifh/vh"
	"gonum.org/v1/gonum/spatial/r2"
)

type polyEv struct {
	K      string  `json:"k"`
	X      int     `json:"x"`
	Y      int     `json:"y"`
	M      string  `json:"m"`
	R      int     `json:"r"`
	F      int     `json:"f"`
	Ok     bool    `json:"ok"`
	Closed bool    `json:"closed"`
	V      [][]int `json:"v"`
}

type polyCase struct {
	Case  int      `json:"case"`
	Unit  int      `json:"unit"`
	Set   bool     `json:"set"` // plain vertices are given in sets
	N     int      `json:"n"`
	R     int      `json:"r"`
	Nok   bool     `json:"nok"`
	Nagon [][]int  `json:"nagon"`
	Log   []polyEv `json:"log"`
	What  string   `json:"what,omitempty"`
}

func whole(vs []r2.Vec, u float64) ([][]int, bool) {
	out := [][]int{}
	for _, v := range vs {
		x, y := math.Round(v.X/u), math.Round(v.Y/u)
		if !(math.Abs(x) < 1e5 && math.Abs(y) < 1e5) {
			return [][]int{}, false
		}
		out = append(out, []int{int(x), int(y)})
	}
	return out, true
}

// poly replays polygon builder histories and records the outlines.
func poly(in, out string) {
	w := vh.NewWriter(out)
	defer w.Close()
	n := 0
	vh.ReadLines(in, func(raw []byte) error {
		var c polyCase
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		n++
		c.Case = n
		u := float64(c.Unit) / 100
		msg := vh.Guard(func() {
			ng, err := form2.Nagon(c.N, float64(c.R)*u)
			c.Nagon, c.Nok = whole(ng, u)
			c.Nok = c.Nok && err == nil
			b := form2.NewPolygon()
			var set []r2.Vec
			for i := range c.Log {
				e := &c.Log[i]
				e.V = [][]int{}
				if c.Set && e.K == "add" && e.M == "none" {
					set = append(set, r2.Vec{X: float64(e.X) * u, Y: float64(e.Y) * u})
					if i+1 < len(c.Log) && c.Log[i+1].K == "add" && c.Log[i+1].M == "none" {
						continue
					}
					b.AddV2Set(set)
					set = set[:0] // a set given is the caller's to use again
					continue
				}
				switch e.K {
				case "add", "rel", "polar", "relpolar":
					x, y := float64(e.X)*u, float64(e.Y)*u
					if e.K == "polar" || e.K == "relpolar" {
						y = float64(e.Y) / 100 * math.Pi / 180
					}
					v := b.Add(x, y)
					if e.K == "rel" {
						v = v.Rel()
					} else if e.K == "polar" {
						v = v.Polar()
					} else if e.K == "relpolar" {
						if (e.X+e.Y)%2 == 0 {
							v = v.Polar().Rel()
						} else {
							v = v.Rel().Polar()
						}
					}
					switch e.M {
					case "smooth":
						v.Smooth(float64(e.R)*u, e.F)
					case "chamfer":
						v.Chamfer(float64(e.R) * u)
					case "arc":
						v.Arc(float64(e.R)*u, e.F)
					}
				case "drop":
					b.Drop()
				case "close":
					b.Close()
				case "reverse":
					b.Reverse()
				case "query":
					e.V, e.Ok = whole(b.Vertices(), u)
					e.Closed = b.Closed()
				default:
					panic("HARNESS: event " + e.K)
				}
			}
		})
		if msg != "" {
			c.What = msg
		}
		w.Put(c)
		return nil
	})
}
