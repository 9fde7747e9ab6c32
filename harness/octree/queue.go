package main

import (
	"encoding/json"
	"fmt"

	"github.com/soypat/sdf/internal/verifh/vh"
	"github.com/soypat/sdf/render"
	"gonum.org/v1/gonum/spatial/r3"
)

// queue replays histories of TriQueue on a triangle buffer.
func queue(in, out string) {
	type step struct {
		Op  string `json:"op"`
		K   int    `json:"k"`
		Ids []int  `json:"ids"`
		Len int    `json:"len"`
		Got int    `json:"got"`
	}
	tri := func(id int) (t r3.Triangle) {
		for k := range t {
			t[k] = r3.Vec{X: float64(id), Y: float64(k), Z: -float64(id)}
		}
		return t
	}
	w := vh.NewWriter(out)
	n := 0
	vh.ReadLines(in, func(raw []byte) error {
		var c struct {
			Log []step `json:"log"`
		}
		if err := json.Unmarshal(raw, &c); err != nil {
			return err
		}
		n++
		what := ""
		msg := vh.Guard(func() {
			var b render.TriangleBuffer
			junk := tri(-7)
			type given struct {
				t   []r3.Triangle
				ids []int
			}
			var reads []given
			mine := make([]r3.Triangle, 8)
			for i, s := range c.Log {
				got := 0
				if s.Op == "w" {
					for j := range mine {
						mine[j] = junk
					}
					for j, id := range s.Ids {
						mine[j] = tri(id)
					}
					got = b.Write(mine[:s.K])
					for j := range mine {
						mine[j] = junk
					}
				} else {
					t := make([]r3.Triangle, s.K, s.K+2)
					for j := range t[:cap(t)] {
						t[:cap(t)][j] = junk
					}
					got = b.Read(t)
					for j, x := range t[:cap(t)] {
						if j >= s.Got && x != junk && what == "" {
							what = fmt.Sprintf("step %d: triangle %d was written beyond the %d there were", i+1, j, s.Got)
						}
					}
					reads = append(reads, given{t, s.Ids})
				}
				if (got != s.Got || b.Len() != s.Len) && what == "" {
					what = fmt.Sprintf("step %d: %s of %d says %d and leaves %d, want %d and %d", i+1, s.Op, s.K, got, b.Len(), s.Got, s.Len)
				}
			}
			for i, r := range reads {
				for j, id := range r.ids {
					if r.t[j] != tri(id) && what == "" {
						what = fmt.Sprintf("read %d: triangle %d is %v, want number %d", i+1, j, r.t[j], id)
					}
				}
			}
		})
		if msg != "" {
			what = "panicked: " + msg
		}
		if what != "" {
			w.Put(map[string]interface{}{"case": n, "what": "triangle buffer: " + what, "log": c.Log})
		}
		return nil
	})
	w.Put(map[string]interface{}{"stats": map[string]int{"buffer_histories": n}})
	w.Close()
}
