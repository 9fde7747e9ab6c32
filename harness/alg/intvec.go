package main

import (
	"encoding/json"
	"fmt"

	"github.com/soypat/sdf"
	"github.com/soypat/sdf/internal/verifh/vh"
	"gonum.org/v1/gonum/spatial/r2"
	"gonum.org/v1/gonum/spatial/r3"
)

// intvec takes the steps of IntVec.tla with vectors of three integers and of two.
func intvec(in, out string) {
	w := vh.NewWriter(out)
	defer w.Close()
	n := 0
	vh.ReadLines(in, func(raw []byte) error {
		var c struct {
			From  sdf.V3i
			Steps []struct {
				K    string
				A, V sdf.V3i
			}
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		n++
		what := ""
		msg := vh.Guard(func() {
			v := c.From
			u := sdf.V2i{v[0], v[1]}
			for i, s := range c.Steps {
				old, old2, a := v, u, s.A
				var z sdf.V3i
				var z2 sdf.V2i
				switch s.K {
				case "add":
					z, z2 = v.Add(a), u.Add(sdf.V2i{a[0], a[1]})
				case "adds":
					z, z2 = v.AddScalar(a[0]), u.AddScalar(a[0])
				case "subs":
					z, z2 = v.SubScalar(a[0]), u.SubScalar(a[0])
				case "trip":
					x, y := sdf.R3FromI(v), sdf.R2FromI(u)
					if x != (r3.Vec{X: float64(v[0]), Y: float64(v[1]), Z: float64(v[2])}) || y != (r2.Vec{X: float64(v[0]), Y: float64(v[1])}) {
						what = fmt.Sprintf("%v became %v and %v", v, x, y)
						return
					}
					z, z2 = sdf.R3ToI(x), sdf.R2ToI(y)
				case "tov3":
					z, z2 = sdf.R3ToI(v.ToV3()), u
				default:
					panic("HARNESS: step " + s.K)
				}
				if v != old || u != old2 {
					what = fmt.Sprintf("step %d changed its operand", i+1)
					return
				}
				v, u = z, z2
				if v != s.V || u != (sdf.V2i{s.V[0], s.V[1]}) {
					what = fmt.Sprintf("step %d (%s %v) gave %v and %v, not %v", i+1, s.K, a, v, u, s.V)
					return
				}
			}
		})
		if msg != "" {
			what = "panic: " + msg
		}
		if what != "" {
			w.Put(vh.M{"case": n, "what": "integer vectors: " + what, "input": json.RawMessage(raw)})
		}
		return nil
	})
	w.Put(vh.M{"stats": vh.M{"integer_scripts": n}})
}
