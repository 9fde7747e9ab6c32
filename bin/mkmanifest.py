#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, lib
NOTES = {
 "C01": ("TLA+ model of the octree stream (OctreeStream), TLC exhaustive; TLC-generated buffer histories replayed into the real renderer, recorded reads validated by TLC; every history of the queue of unwritten triangles up to a depth (TriQueue) replayed",
         "Exhaustive for the design over small cube trees and every buffer length; on the real code seeded histories over several fields and resolutions. Trusts the harness's numbering of triangles."),
 "C02": ("TLA+ model of the worker partition and its interleavings (OctreeStream), TLC exhaustive; TLC-generated schedules forced on the real workers by a gate in the distance function; race detector build",
         "Every interleaving in the model; on the real code seeded schedules of evaluations, worker counts up to 8, plus race-detector runs."),
 "C04": ("TLA+ model of the iso-surface (MeshField) over integer 1-Lipschitz fields; TLC generates fields and validates every recorded mesh",
         "Every lattice edge of each generated field is compared; fields are seeded mixtures of exact octahedral, box and random 1-Lipschitz fields."),
 "C05": ("TLA+ topological model (MeshField: closedness and winding number); TLC generates corner patterns and validates every recorded mesh",
         "All 256 corner patterns and seeded neighbourhoods, crossings at seeded positions, including lattice points exactly on the surface."),
 "C03": ("TLA+ contract (Sinks), TLC exhaustive; TLC-generated renderer scripts; recorded reads validated against the specification by TLC",
         "Exhaustive for the design over all scripts up to 3 steps; on the real code every script over small sizes and a seeded sample over sizes around batch boundaries. Trusts the harness's numbering of triangles."),
 "C06": ("TLA+ byte-level model of the STL format (StlCodec) and of the streaming consumer (Sinks), files written by the real code validated by TLC",
         "Byte-exact for short files over all triangle kinds; long files by decoded content. Coordinates are multiples of a quarter with known normals."),
 "C07": ("TLA+ model of record reading under arbitrary chunking (StlRead), TLC exhaustive; TLC-generated streams replayed into the real reader",
         "Every truncation point of a two triangle file, every bad record kind and position, seeded sample of chunkings."),
 "C08": ("Fault points enumerated from a TLA+ module (FaultsGen, Sinks) and injected into the real exporters",
         "Every byte offset for short STL files through a failing writer, a stride of offsets through a file size limit (thorough: every offset); renderer failures with and without data."),
 "C09": ("TLA+ model of mesh indexing (Mesh3mf), TLC exhaustive; packages written by the real code validated by TLC",
         "All single triangles over six vertices and seeded longer soups over four coordinate alphabets chosen for exact round trip."),
}
try:
    import notes
    NOTES.update(notes.NOTES)
except ImportError:
    notes = None
props = [json.loads(l) for l in open(os.path.join(lib.VERIF, "properties.jsonl"))]
na = dict(getattr(notes, "NA", {}) if notes else {})
checks = []
for p in props:
    i = p["id"]
    if i in check.TABLE and i not in na:
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 bin/check.py %s" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level=check.TABLE[i][1], level_note=n))
    else:
        na.setdefault(i, "the check is not built yet")
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())],
         notes="No hooks in /repo: the harness is compiled into the module through 'go build -overlay'. See DESIGN.md.")
json.dump(m, open(os.path.join(lib.VERIF, "MANIFEST.json"), "w"), indent=1)
