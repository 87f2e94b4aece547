#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A voxel model survives being written to a voxel file and read back",
 "Writing a non-empty voxel model to a voxel file and reading the whole file back yields exactly the same set of occupied cells, the same grid dimensions, and bit-for-bit the same translation and scale, whatever the shape, grid size, run lengths or header values, and whatever the target file held before. The file itself conforms to the binvox format (header, then value/count pairs of 1..255 covering the grid exactly, y fastest, then z, then x), so any other conforming reader sees the same model, and any conforming file, however its runs are split, is read as the model it describes.",
 ["inputs"], "every grid size, every set of occupied cells (including runs of length 254/255/256/510/..., first and last cell, all full), every finite float translation and positive scale",
 "The tests read a few fixed files; no test writes a binvox file at all, and run lengths at the 255 boundary, axis order on non-cubic grids and float formatting quantify over all models.",
 ["binvox/write.go", "binvox/read.go"],
 [("run-length encoder and header writer", "binvox/write.go write, encode"), ("run-length decoder", "binvox/read.go read")],
 ["binvox.Write then binvox.Read; independent decoder over the bytes"])

prop("C02", "A windowed read returns exactly the cells of the half-open window",
 "Reading a voxel file with a start index and a count per axis returns exactly the occupied cells whose index lies in [start, start+count) on every axis (a count of 0, or larger than the model, means everything from the start on), each at its unchanged whole-model index and under the whole model's unchanged dimensions, translation and scale. Consequently windows that tile the grid partition the cells: none is lost and none is returned twice. A negative start or count, or a start beyond the grid, is refused with an error.",
 ["inputs"], "every model, every start and count on every axis, every tiling of the grid by windows",
 "One fixed partial read is tested, and it does not check where the window ends; the boundary condition on six faces and its interaction with run-length positions needs all windows.",
 ["binvox/read.go"], [("window test inside the run decoder", "binvox/read.go read")], ["binvox.Read with a window"])

prop("C03", "A windowed write keeps cells at their world position and size",
 "Writing a window (start and count per axis) of a voxel model produces a file that holds exactly the occupied cells of that window, re-indexed from the window's own origin, under the window's dimensions, with a translation and scale such that every cell has the same size and the same position in world space as in the source model. Writing with the full window gives the same file as writing the whole model.",
 ["inputs"], "every model, window, translation and scale",
 "No test writes files; the world-space relation ties header arithmetic, re-indexing and the meaning of scale together over all windows.",
 ["binvox/write.go"], [("window re-indexing and header", "binvox/write.go write, encode")], ["binvox.Write then an independent decoder"])

prop("C04", "Reading arbitrary bytes as a voxel file never crashes or invents voxels",
 "For any byte content, reading a voxel file terminates without crashing and either fails with an error or returns the model that the bytes describe under the binvox format. Wrong magic or header lines, cell values other than 0 and 1, zero counts, a value with no count, and runs past the end of the grid are errors, no returned cell lies outside the declared grid, and the memory used follows from the size of the content rather than from the dimensions it declares.",
 ["inputs"], "every byte string: valid files, mutated or truncated valid files, and arbitrary bytes",
 "The tests feed one empty and three valid files; malformed inputs quantify over all byte strings.",
 ["binvox/read.go"], [("header parsing and run decoder", "binvox/read.go read")], ["binvox.Read against an independent decoder"])

prop("C05", "A model file that could not be stored is reported as an error",
 "When the storage refuses data at any point while a voxel, shell, VOX, image or archive file is being written (device full from any byte on, file size limit, unwritable or missing directory), the write returns an error, and the command-line tool doing it exits with a non-zero status. Success is only ever reported when the complete file is on storage.",
 ["fault_sequences", "inputs"], "every model (including empty and tiny ones) and every byte position at which writing starts to fail",
 "No test injects a write fault; the fault may hit the header, any run, or the final flush.",
 ["binvox/write.go", "vshell/write.go", "cmd/voxcut/voxcut.go", "cmd/merge-binvox/merge-binvox.go"],
 [("error propagation of header and data writes", "binvox/write.go write; vshell/write.go write"), ("exit status on write errors", "cmd/voxcut/voxcut.go main")],
 ["Write to a full device or under a file size limit"])

prop("C06", "Voxelizing a closed mesh reproduces its solid to within a voxel",
 "Voxelizing a closed, outward-oriented mesh marks every cell whose centre lies inside the solid, marks no cell whose centre lies outside by more than about one and a half voxels in the slicing plane, and marks the surface wherever it crosses a layer to within about a voxel, for any mesh orientation, position, grid offset and resolution. In particular there are no missing scanlines, no leaks and no holes, including where vertices or edges lie exactly on a slicing plane.",
 ["inputs"], "every closed mesh (boxes, prisms, rotated and non-convex solids, thin plates, several solids), placement, resolution and grid offset",
 "One fixed voxelization is tested against golden data; the eight line octants, on-plane vertices and inside/outside counting need arbitrary meshes.",
 ["binvox/voxelize.go"], [("z-plane slicing", "binvox/voxelize.go intersectTriZPlane"), ("line rasterization by octant", "binvox/voxelize.go rasterizeShellPair"), ("scanline fill", "binvox/voxelize.go floodFill")],
 ["binvox.Voxelize against an exact slice-polygon oracle"])

prop("C07", "Voxelization is independent of how the region is diced and sliced",
 "Voxelizing a sub-region on the same voxel lattice gives exactly the cells that voxelizing the whole region gives there, so dicing a model into regions loses, adds or moves nothing. The result never contains a cell outside the requested grid, one-layer voxelization of layer z gives exactly layer z of the full voxelization, and repeating a voxelization, or running several at once, gives the same cells.",
 ["inputs", "schedules"], "every closed mesh, lattice, dicing of the lattice into regions, layer, and goroutine schedule",
 "Tests voxelize whole meshes only once; the relation spans pairs of runs over all region offsets and all worker schedules.",
 ["binvox/voxelize.go"], [("region clipping", "binvox/voxelize.go rasterizeShellPair, floodFill"), ("parallel slicing under a lock", "binvox/voxelize.go Voxelize, VoxelizeZ")],
 ["binvox.Voxelize, binvox.VoxelizeZ"])

prop("C08", "The blocky mesh of a voxel model encloses exactly its cells",
 "Converting a voxel model to a mesh yields a surface that bounds exactly the union of the model's cells placed in world space: every exposed cell face is covered exactly once with its normal pointing out of the solid, nothing else is covered, and cell (i,j,k) spans translation + [i,i+1]x[j,j+1]x[k,k+1] voxel sizes. This holds for white and for coloured cells, and for the STL file the cutting tool writes.",
 ["inputs"], "every set of cells, grid size, translation and scale",
 "No test covers this conversion; orientation, offset and scaling must hold for all voxel sets.",
 ["binvox/mesh.go", "cmd/voxcut/voxcut.go"], [("face extraction and placement in world space", "binvox/mesh.go ToMesh")], ["binvox.ToMesh; voxcut -ostl"])

prop("C09", "The manifold mesh of any voxel model is closed and consistently oriented",
 "For every voxel model the manifold mesh is a closed, consistently oriented surface: every piece of edge is traversed equally often in both directions, so there are no holes, cracks or flipped triangles at any arrangement of neighbouring cells. It encloses every cell and stays within half a voxel of the union of the cells, at the correct world position and scale, and the command-line tool writes exactly this mesh.",
 ["inputs"], "every set of cells, hence all 256 corner configurations and all compatible neighbour pairs, and every translation and scale",
 "The golden tests pin the triangles for some hand-made neighbourhoods; closure across cell borders needs every pair of adjacent configurations.",
 ["binvox/manifold.go", "binvox/face-templates.go", "cmd/manifold-mesh/manifold-mesh.go"],
 [("per-corner templates with rotations", "binvox/manifold.go grid2tris; binvox/face-templates.go")], ["binvox.ManifoldMesh; manifold-mesh tool"])

prop("C10", "The marching-cubes mesh is closed and separates filled from empty cells",
 "For every voxel model the marching-cubes mesh is a closed, consistently oriented surface that has the centre of every occupied cell strictly inside and the centre of every empty cell strictly outside, with cell (i,j,k)'s centre at translation + (i+1/2, j+1/2, k+1/2) voxel sizes. The command-line tool writes exactly this mesh.",
 ["inputs"], "every set of cells, hence all 256 cube configurations and all compatible neighbour pairs, and every translation and scale",
 "There is no test of marching cubes; a wrong table entry shows only in particular neighbour arrangements.",
 ["binvox/marching-cubes.go", "cmd/marching-cubes/marching-cubes.go"],
 [("edge and triangle tables", "binvox/marching-cubes.go"), ("cell corner classification and placement", "binvox/marching-cubes.go MarchingCubes")], ["binvox.MarchingCubes; marching-cubes tool"])

prop("C11", "A shell holds exactly the exposed voxels with their exact neighbours",
 "The shell of a voxel model lists, once each, exactly those occupied cells that have at least one empty cell among their 26 neighbours, each with a neighbour map whose bits state exactly which of the 26 neighbours are occupied. It keeps the model's dimensions, translation and voxels per millimetre, for white and for coloured models.",
 ["inputs"], "every set of cells and grid size",
 "Tests cover a handful of tiny cubes; the 26 neighbour directions and all arrangements need generation.",
 ["vshell/vshell.go", "vshell/merge.go"], [("neighbour computation", "vshell/merge.go findNeighbors, diffKeys"), ("shell construction", "vshell/vshell.go New; vshell/merge.go Add")],
 ["vshell.New"], [("neighbour map", "26-bit occupancy of the surrounding cells", "vshell/vshell.go NeighborBitMap")])

prop("C12", "Merging regions gives the shell of their union in world space",
 "Merging any number of non-overlapping voxel regions that share one voxel lattice gives exactly the shell of their union: the same exposed cells at the same world positions with the same exact neighbour maps, whatever the order in which regions are added and whatever the signs of their relative offsets. Cell indices stay within the merged dimensions, the merged voxel size equals that of the parts, and parts with a different voxel size, or missing parts, are refused with an error.",
 ["inputs", "histories"], "every list of disjoint lattice-aligned regions, in every order, with offsets of either sign on each axis, including empty regions",
 "Tests add one or two cubes at hand-picked offsets; order independence and mixed-sign offsets quantify over merge histories.",
 ["vshell/merge.go", "cmd/merge-binvox/merge-binvox.go"], [("offset computation and re-indexing of the old shell", "vshell/merge.go update"), ("neighbour updates of old voxels, removal of enclosed ones", "vshell/merge.go Add")],
 ["vshell.Add, vshell.Merge, merge-binvox"], [("merged dimensions, translation and scale", "world placement of the shell", "vshell/merge.go Add, update")])

prop("C13", "A shell survives its file, whole or by window",
 "Writing a non-empty shell to a shell file and reading it back yields exactly the same shell voxels with the same neighbour maps, the same dimensions, and bit-for-bit the same translation and scale, whatever the run lengths (including long empty stretches), including isolated voxels with no neighbours, and whatever the target file held before. Windowed reads return exactly the voxels of the half-open window, and windowed writes keep the window's voxels at the same world position and size.",
 ["inputs"], "every shell (any neighbour map), grid size, empty run length, window, translation and scale",
 "Only reading fixed bytes is tested; nothing tests writing, run-length limits or windows.",
 ["vshell/write.go", "vshell/read.go"], [("run-length encoder", "vshell/write.go encode, write"), ("run-length decoder and window test", "vshell/read.go read")], ["vshell.Write, vshell.Read"])

prop("C14", "Reading arbitrary bytes as a shell file never crashes or invents voxels",
 "For any byte content, reading a shell file terminates without crashing and either fails with an error or returns the shell that the bytes describe under the shell format. Wrong magic or header lines, truncated values or counts, zero voxel counts and runs past the end of the grid are errors, no returned voxel lies outside the declared grid, and the memory used follows from the size of the content rather than from the dimensions it declares.",
 ["inputs"], "every byte string: valid files, mutated or truncated valid files, and arbitrary bytes",
 "Tests read fixed well-formed bytes only.",
 ["vshell/read.go"], [("header parsing and run decoder", "vshell/read.go read")], ["vshell.Read against an independent decoder"])

prop("C15", "Cutting voxel models is boolean difference in world space",
 "The cutting tool's result contains exactly those cells of the base (within the requested window) whose world position is not occupied by any of the cut models, for any number of cuts in any order and for cut models on the same lattice but with a different origin or grid size. The result is written at the base's own world position and voxel size, a cut that cannot be read is skipped without changing the result, and if nothing is left no output file is written.",
 ["inputs"], "every base, list of cuts, lattice offset between them, window, and output format",
 "One fixed cut of identically placed models is tested; offsets and windows are untested.",
 ["cmd/voxcut/voxcut.go", "binvox/binvox.go"], [("difference with index translation", "cmd/voxcut/voxcut.go voxcut"), ("windowed base and cut reading", "cmd/voxcut/voxcut.go main")], ["voxcut executable: -obinvox, -ostl, -ovox"])

prop("C16", "The exported VOX file is valid and holds exactly the model's cells",
 "A VOX file written by the cutting tool is a well-formed MagicaVoxel file: correct magic and version, chunk sizes that match the bytes present, a size that encloses all voxels, and one 4-byte voxel record per cell. It lists exactly the result's cells, each once and indexed from the window's origin; a result that the format cannot represent is refused with an error instead of being written wrongly.",
 ["inputs"], "every result set of cells, including ones beyond the format's 0..255 coordinate range",
 "No test looks at VOX output.",
 ["cmd/voxcut/voxcut.go"], [("VOX writer", "cmd/voxcut/voxcut.go writeVOX")], ["voxcut -ovox; independent VOX decoder"])

prop("C17", "Diced cutting covers the whole model exactly once",
 "The windows for which the dicing tool issues cutting commands tile the whole base model without gaps or overlaps, in both the printed script and direct execution, for every model size and chunk size, and for file names that a shell would split or expand. Executing them leaves, over all output files together, exactly the cells of the undiced result, each at its world position in exactly one file, and chunks with nothing left do not stop the rest.",
 ["inputs"], "every base and cut models, every chunk size (dividing the dimensions or not), empty chunks included",
 "No test runs the dicing tool.",
 ["cmd/voxcut-dice/voxcut-dice.go", "cmd/voxcut/voxcut.go"], [("window enumeration and command construction", "cmd/voxcut-dice/voxcut-dice.go main")], ["voxcut-dice -n script and voxcut-dice execution"])

prop("C18", "Dicing an STL model into regions is lossless and placed correctly",
 "Dicing STL models into a grid of voxel regions produces region files that together hold exactly the voxelization of each whole model on one common lattice anchored at the bounding box minimum, each region at its correct world position and voxel size, for every resolution and number of divisions, including model sizes that are not multiples of the division counts. Every non-empty region of the base is named in the printed script with the matching regions of all cut models in order, and the script merges the pieces when there is more than one, so running it reproduces the cut model, whatever the files are called.",
 ["inputs", "configurations"], "every set of STL models, bounding box (given or computed), resolution, and divisions per axis",
 "No test dices anything; rounding in region sizes appears only for particular size/division combinations.",
 ["cmd/stldice/stldice.go"], [("region grid and origins", "cmd/stldice/stldice.go diceMesh"), ("script generation", "cmd/stldice/stldice.go main"), ("bounding box parsing", "cmd/stldice/stldice.go parseMBB")],
 ["stldice executable: files and script"])

prop("C19", "Merging STL files keeps every triangle of every file",
 "Merging STL files yields a mesh whose triangles are exactly all triangles of all the files, as a multiset with orientation, for any number of files, any file order and any positive number of workers under any schedule. If any file is missing or unreadable the merge reports an error and yields no mesh; the command-line tool then exits non-zero and writes nothing, and it likewise reports having nothing to merge instead of crashing.",
 ["inputs", "schedules", "fault_sequences"], "every list of STL files (binary and text), worker count, schedule, and subset of unreadable files",
 "The merge package has no tests; lost updates or lost errors depend on goroutine schedules.",
 ["stl/stl.go", "cmd/merge-stl/merge-stl.go"], [("worker pool and locked accumulation", "stl/stl.go Merge")], ["stl.Merge; merge-stl executable"])

prop("C20", "Merge tools never overwrite an existing output unless forced",
 "Without the force flag, the STL and voxel merge tools leave an already existing output file byte-for-byte untouched and exit non-zero, however the prefix is spelled (relative, absolute, with ./ or doubled separators). With the force flag they replace it, and the inputs of the merge are exactly the files whose names start with the prefix, whatever characters it holds, and end with the extension: never the previous output.",
 ["inputs", "configurations"], "every spelling of the prefix, presence or absence of the output, the force flag, and set of input files",
 "No test runs the merge tools.",
 ["cmd/merge-stl/merge-stl.go", "cmd/merge-binvox/merge-binvox.go"], [("overwrite guard and input selection", "cmd/merge-stl/merge-stl.go main; cmd/merge-binvox/merge-binvox.go main")], ["merge-stl, merge-binvox executables"])

prop("C21", "Converting an SVX archive to STL keeps its voxels and their size",
 "For any valid slice archive, the converter's mesh is the closed marching-cubes surface around exactly those voxels whose image pixel is at least half bright, with pixel column, pixel row and slice number as the three indices, and with a voxel edge length equal to the manifest's voxel size (in metres) expressed in millimetres. Archives with a missing or malformed manifest, unmatched slice names or undecodable images are refused with a non-zero exit and no output file.",
 ["inputs"], "every archive: grid sizes, voxel sizes, slice naming patterns, pixel values around the threshold, several archives per run",
 "One manifest parse is tested; no archive is ever converted by a test.",
 ["cmd/svx2stl/main.go"], [("archive reading and thresholding", "cmd/svx2stl/main.go read, scanImage, parseManifest")], ["svx2stl executable"])

prop("C22", "A slice image shows exactly the base minus the cuts at that height",
 "The slice image that an agent returns for layer z is white exactly at the pixels of base-model voxels of layer z that no cut model occupies, and black everywhere else, with the base's lattice as common frame, the y axis mirrored and a one-pixel black border on every side, for any number of cuts and any division of the work. A request the agent cannot process yields an error reply and leaves the agent serving further requests.",
 ["inputs", "configurations"], "every base and cuts (overlapping, disjoint, thinner or larger than the base), resolution, divisions and layer",
 "The service has no tests.",
 ["stl2svx/agent/agent.go", "stl2svx/stl/stl.go"], [("dicing and mapping", "stl2svx/agent/agent.go generateMR, voxelize"), ("image composition", "stl2svx/agent/agent.go imager"), ("lattice computation", "stl2svx/stl/stl.go New")],
 ["agent SliceJob reply"])

prop("C23", "A batch job returns every slice intact or fails, even run concurrently",
 "When a job reports success, its archive contains, exactly once each, the manifest, the two blank border slices and every model slice with exactly the bytes an agent produced for that job and layer; otherwise the job reports an error. This holds with several jobs at once on the same agents, with any number of agents registering at any time, and when agents fail or are unreachable, and a failed slice never makes the service lose a working agent or block later jobs. A valid job that no agent fails, while a working agent is registered, succeeds, however many agents cannot be reached.",
 ["schedules", "fault_sequences", "histories"], "every interleaving of jobs, agent registrations, agent failures (errors, unreachable addresses) and reply delays",
 "The service has no tests; loss and mix-ups depend on schedules and faults.",
 ["stl2svx/master/master.go"], [("agent pool", "stl2svx/master/master.go getIdleAgent, runAgent, RegisterAgent"), ("archive assembly under a lock", "stl2svx/master/master.go NewJob, writeManifest, writeBlankImages")],
 ["master NewJob over gRPC with scripted agents"], [("idle agents", "addresses free for work", "stl2svx/master/master.go idleAgents")])

prop("C24", "The produced SVX archive is self-consistent and describes the cut model",
 "For every job the archive's manifest agrees with its contents: expanding the manifest's slice naming pattern with 0,1,2,... gives exactly the image entries present, their number matches the grid size along the slicing axis, and voxel size and origin are those of the base model's lattice. Through client, master and agents end to end, the stack of slices shows exactly the base voxels not occupied by any cut, for every output prefix, resolution and division. The client stores an archive it is sent byte for byte, and fails without output if the reply is an error.",
 ["inputs", "configurations"], "every base and cuts, output prefix, resolution and divisions per axis",
 "The service has no tests; naming, counts and contents come from different places that must agree for all parameters.",
 ["stl2svx/master/master.go", "stl2svx/agent/agent.go", "stl2svx/stl2svx-client/stl2svx-client.go", "stl2svx/stl/stl.go"],
 [("manifest writer", "stl2svx/master/master.go writeManifest"), ("slice naming", "stl2svx/master/master.go runAgent, writeBlankImages")], ["stl2svx-client output archive"])

prop("C25", "Generated binvox commands tile the bounding box exactly",
 "The script generator emits, for every sub-box of the requested subdivision, one voxelizer command per STL file with that sub-box and one cutting command over exactly the matching outputs in the same file order with a distinct output name. The sub-boxes are congruent and tile the given bounding box: neighbouring boxes share identical boundary coordinates, and the outermost boundaries equal the given box, for any accepted spelling of it. Each file name reaches the commands as one word, whatever blanks or shell characters it holds.",
 ["inputs", "configurations"], "every bounding box and spelling, factor, choice of subdivided axes and list of files",
 "No test runs the generator.",
 ["cmd/binvox-dice/binvox-dice.go"], [("subdivision by interpolation", "cmd/binvox-dice/binvox-dice.go main"), ("bounding box parsing", "cmd/binvox-dice/binvox-dice.go mbbRE")], ["binvox-dice standard output"])

prop("C26", "Model geometry queries agree with the model's cells and header",
 "For any voxel or shell model, the reported largest dimension, voxels per millimetre and bounding box agree with the grid size, scale and translation: the bounding box starts at the translation and spans the grid size times the voxel size on each axis, and the largest dimension times the voxel size equals the scale. A cell is reported present exactly when it was added, with the colour it was added with, and a non-positive scale means one voxel per millimetre. The answers follow every later change of the model.",
 ["inputs", "histories"], "every grid size, translation, scale and sequence of additions and lookups",
 "Tests use these queries only incidentally with fixed values.",
 ["binvox/binvox.go", "vshell/vshell.go"], [("dimension, scale and box queries", "binvox/binvox.go Dim, VoxelsPerMM, MBB, Get, Add, AddColor; vshell/vshell.go Dim, VoxelsPerMM, MBB")], ["binvox and vshell accessors"])

prop("C27", "The model server returns its stored model and survives bad requests",
 "The model that the model server stores for a region is the voxelization on that region's grid of the meshes added to it, less those subtracted later, also when requests arrive at the same time. Asked for the mesh of a region it stores, it replies with a binary STL holding exactly the closed manifold mesh of that stored model; asked for, or to subtract from, a region it does not store, it replies with an error. A payload that is incomplete or no STL file is refused, and a request that the server cannot store is answered with an error; both leave the stored models as they were. No request, however malformed its STL payload or region, makes the server crash or stop serving others.",
 ["inputs", "histories"], "every stored model, region key, and sequence of valid and malformed requests",
 "The server has no tests.",
 ["server/stldice-slave/stldice-slave.go"], [("mesh reply", "server/stldice-slave/stldice-slave.go GetSTLMesh"), ("model updates", "server/stldice-slave/stldice-slave.go AddSTLMesh, SubSTLMesh, voxelize, voxelOp"), ("STL parsing", "server/stldice-slave/stldice-slave.go stlToMesh, loadSTLA, loadSTLB")], ["stldice-slave executable over gRPC"])

prop("C28", "The MapReduce dicer's images show the base minus the cuts",
 "The MapReduce dicer writes, for every layer containing base or cut voxels, one image that is white exactly at the base-model voxels of that layer that no cut occupies and black elsewhere, for any number of cuts, resolution and order in which mapper output reaches the image stage.",
 ["inputs", "schedules", "configurations"], "every base and cuts, resolution, and arrival order",
 "The tool has no tests.",
 ["cmd/stldice-mr/stldice-mr.go"], [("mapping", "cmd/stldice-mr/stldice-mr.go generateMR, voxelize"), ("image composition", "cmd/stldice-mr/stldice-mr.go imager")], ["stldice-mr executable: written images"])

prop("C29", "Voxelizing any mesh terminates and stays within the grid",
 "For any mesh - open, self-intersecting, degenerate, reaching arbitrarily far beyond the grid, or with coordinates that are not numbers - and any grid, voxelizing the whole grid or a single layer terminates without crashing and either reports an error or yields only cells of the grid; a single layer agrees with that layer of the whole. Grids without cells are refused. Closed solids that lie outside of the grid never change its cells, and a solid around the whole grid fills it, however far it reaches.",
 ["inputs"], "every mesh, grid placement and layer",
 "Tests voxelize a few well-formed solids near the grid.",
 ["binvox/voxelize.go"], [("slicing by a plane", "binvox/voxelize.go intersectZPlane, intersectSegment"), ("line rasterization", "binvox/voxelize.go rasterizeShellPair, firstOctantBressenham"), ("filling", "binvox/voxelize.go floodFill")],
 ["binvox.Voxelize, VoxelizeZ results"])

prop("C30", "An interrupted dicing can be resumed without loss",
 "When the STL dicer ends early, because it is killed at any moment or the storage refuses data at any byte, each region file it leaves under its final name is complete, and a run that could not store a region exits non-zero. Running the same command again, after any number of such interruptions, leaves exactly the region files, and prints exactly the merge script, of a run that was never interrupted.",
 ["crash_points", "fault_sequences", "histories"], "every model, division, and sequence of kills and refused writes",
 "Existing region files are skipped by design, so an incomplete one is silently used by every later step. No test interrupts a run.",
 ["cmd/stldice/stldice.go"], [("skipping of existing region files, writing of region files", "cmd/stldice/stldice.go main"), ("file writing", "binvox/write.go Write")], ["stldice executable: region files, standard output and exit status"])

prop("C31", "Unusable invocations are refused",
 "Given a number of cells, divisions, workers, chunk size, window or factor that describes nothing, a bounding box that is empty, reversed or not six numbers, an input file that is missing, truncated or malformed, no input or output at all, or an output that cannot be created, each command-line tool ends in bounded time without crashing, with a non-zero exit status, prints no commands to execute, and leaves no output that could be mistaken for a result.",
 ["inputs", "configurations"], "every tool and combination of flags and input files with one of them unusable",
 "The tools have no tests; their output is piped into a shell, so a partial script or a silent success spreads.",
 ["cmd/stldice/stldice.go", "cmd/stldice-mr/stldice-mr.go", "cmd/voxcut/voxcut.go", "cmd/voxcut-dice/voxcut-dice.go", "cmd/binvox-dice/binvox-dice.go", "cmd/merge-binvox/merge-binvox.go", "cmd/merge-stl/merge-stl.go", "cmd/manifold-mesh/manifold-mesh.go", "cmd/marching-cubes/marching-cubes.go", "cmd/svx2stl/main.go", "stl2svx/stl2svx-client/main.go"],
 [("flag checks", "main function of each tool"), ("STL loading", "cmd/stldice, cmd/stldice-mr, cmd/binvox-dice, stl2svx/stl2svx-client: stl loading"), ("voxel file reading", "binvox/read.go")], ["exit status, standard output and files of the executables"])

prop("C32", "Operations running at once do not disturb each other",
 "Any number of library operations running at the same time - reading and writing voxel and shell files, whole or by window, making blocky, manifold and marching-cubes meshes, extracting and merging shells, voxelizing, and asking for geometry and cells - give exactly the results that each gives alone, without data races, when each works on its own model and file, and also when they only read one shared model, mesh or file.",
 ["schedules", "inputs"], "every set of operations, models and interleavings",
 "The dicers, agents and servers run these operations from many goroutines; no test runs two at once.",
 ["binvox/read.go", "binvox/write.go", "binvox/manifold.go", "binvox/marching-cubes.go", "binvox/mesh.go", "binvox/voxelize.go", "vshell/vshell.go", "vshell/merge.go", "vshell/read.go", "vshell/write.go"],
 [("encoder goroutines", "binvox/write.go write, encode; vshell/write.go write, encode"), ("mesh templates", "binvox/manifold.go grid2tris; binvox/marching-cubes.go polygonize; binvox/face-templates.go")], ["results and files of the public functions"])

out = out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
