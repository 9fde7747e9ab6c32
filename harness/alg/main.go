// Package main drives the parts of the library that are plain functions: blending functions,
// matrices and the polygon builder, with inputs stated by Blend.tla, Matrix.tla and PolyGen.tla.
package main

import (
	"fmt"
	"os"
)

func main() {
	switch os.Args[1] {
	case "blend":
		blend(os.Args[2], os.Args[3])
	case "matrix":
		matrix(os.Args[2], os.Args[3])
	case "intvec":
		intvec(os.Args[2], os.Args[3])
	case "orient":
		orient(os.Args[2], os.Args[3])
	case "poly":
		poly(os.Args[2], os.Args[3])
	default:
		fmt.Fprintln(os.Stderr, "HARNESS: mode", os.Args[1])
		os.Exit(3)
	}
}
