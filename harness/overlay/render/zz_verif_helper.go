package render

import (
	"io"

	"github.com/soypat/sdf"
	"gonum.org/v1/gonum/spatial/r3"
)

// VerifNewOctree is NewOctreeRenderer with the number of concurrent workers set, as the
// package's own multithreading test sets it.
func VerifNewOctree(s sdf.SDF3, meshCells, workers int) Renderer {
	oct := NewOctreeRenderer(s, meshCells)
	oct.concurrent = workers
	return oct
}

// VerifReadSTL gives access to the binary STL reader.
func VerifReadSTL(r io.Reader) ([]r3.Triangle, error) { return readBinarySTL(r) }

// VerifErrNormal is the warning returned together with a complete model.
var VerifErrNormal = errCalculatedNormalMismatch
