#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so they are reviewable)."""
import json, os
R="image-palette-recoloring/src/lib.rs"; P="image-palette-recoloring/src/palette.rs"
T="image-palette-recoloring/src/triangle_distance.rs"
H="qhull-rs/src/convex_hull.rs"; D="qhull-rs/src/delaunay.rs"; W="qhull-rs/src/raw.rs"
C="image-palette-recoloring-c/src/lib.rs"; CH="image-palette-recoloring-c/image-palette-recoloring.h"
L="image-palette-recoloring-cli/src/main.rs"
B="qhull-sys/src/bindings/unix_64bit.rs"; X="qhull-sys/src/ext.c"
J="image-palette-recoloring-web/src/js/index.js"; JW="image-palette-recoloring-web/src/js/webworker.js"; JH="image-palette-recoloring-web/src/html/index.html"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe or [],hook_needed=hook)))
NOTEST="No existing test touches this code path at all; "
p("C01","Recolouring is the clamped, per-pixel weighted mix of the new palette",
 "Reconstructing a decomposed image with k channels succeeds exactly when the new palette has k colours. The result has the original width and height, and every RGB component of the pixel at (x, y) is the sum over the palette of that pixel's channel weight times the palette colour's component, limited to 0..255 and truncated to a byte. A pixel depends on its own weights and the palette only, in row-major order.",
 ["inputs"],"every weight matrix (any real weights, also negative or above one), every palette, every image shape",
 NOTEST+"a sample of weights cannot cover every weight/colour combination around the clamping limits or every image shape.",
 [R],[("DecomposedImage::reconstruct",R)],["DecomposedImage::reconstruct"],"construct a DecomposedImage from an arbitrary matrix")
p("C02","A channel image is that palette colour's weight, scaled to a byte",
 "Asking a k-channel decomposed image for channel n gives an image exactly when n < k. It has the original width and height, and the pixel at (x, y) is that pixel's weight for palette colour n times 255, limited to 0..255 and truncated.",
 ["inputs"],"every weight matrix, every channel number, every image shape",
 NOTEST+"clamping limits and indices need all weights and all n.",
 [R],[("DecomposedImage::get_channel_grayscale",R)],["DecomposedImage::get_channel_grayscale"],"construct a DecomposedImage from an arbitrary matrix")
p("C03","Every pixel's image weights are a convex combination that gives the pixel back",
 "For an image whose pixels span the 5-dimensional colour-and-position space, the weights computed for every pixel are non-negative and sum to one (up to rounding). Mixing the stored hull colours with them gives back that pixel's RGB colour; rows are in row-major pixel order and the reported width and height are the image's.",
 ["inputs"],"every such image and every pixel of it (symbolic colour of inner pixels, several concrete image frames)",
 NOTEST+"whether a containing simplex is found, and with the right vertex order, depends on the colour of each pixel.",
 [R,D,H],[("ImageWeights::new",R),("SimplexSearcher::find_simplex_mut",D)],["ImageWeights"],"read the weight matrix and hull colours of an ImageWeights")
p("C04","A colour inside the palette's hull gets weights that reproduce it exactly",
 "When an image is decomposed with a palette, every colour lying inside (or on) the palette's convex hull gets channel weights that are non-negative, sum to one, and mix the palette colours back to that colour, up to rounding. The weight of channel i belongs to the i-th colour of the palette as the caller passed it.",
 ["inputs"],"every colour in the hull, for each palette of a list that includes every vertex order of a tetrahedron and larger palettes",
 NOTEST+"the weights are piecewise rational functions of the colour; a sample misses simplices, boundaries and vertex orders.",
 [R,P],[("compute_star_triangulation_coordinates",P),("DecomposedImage::new",R)],["DecomposedImage::new"],"build ImageWeights from parts; read the matrix of a DecomposedImage")
p("C05","A colour outside the palette's hull gets the weights of the nearest palette mix",
 "When an image is decomposed with a palette, every colour outside the palette's convex hull gets non-negative channel weights summing to one whose mix is the point of the palette's hull closest to that colour.",
 ["inputs"],"every colour in and around the 0..255 cube, for each palette of a list",
 NOTEST+"which face, edge or corner is nearest changes over the colour space.",
 [R,P,T],[("compute_star_triangulation_coordinates",P),("triangle_closest_point",T)],["DecomposedImage::new"],"as C04")
p("C06","Only palettes of four or more irredundant colours are accepted",
 "Decomposing with a palette returns an error when the palette has fewer than four colours or contains a redundant colour: one that is repeated or that is not a corner of the palette's convex hull. Every other palette that spans a volume is accepted, and the result has exactly one channel per palette colour and the image's width and height.",
 ["inputs"],"every palette of up to 3 colours, and every choice of one further colour added at any position to fixed palettes",
 NOTEST+"redundancy depends on exact positions (on a face, on an edge, equal to another colour).",
 [R,P],[("DecomposedImage::new",R)],["DecomposedImage::new"],"build ImageWeights from parts")
p("C07","Recolouring with the decomposition palette gives the image back",
 "When every colour of an image lies within the convex hull of a palette, computing the image's weights, decomposing with that palette and reconstructing with the same palette returns an image of the same size in which every component of every pixel differs from the original by at most one level.",
 ["inputs"],"every colour of a free pixel inside listed images and palettes",
 NOTEST+"the composition of weights, decomposition and reconstruction is never run by a test.",
 [R,P,D,H],[("ImageWeights::new / DecomposedImage::new / reconstruct",R)],["DecomposedImage::reconstruct"],None)
p("C08","Simplex search finds a containing simplex and its coordinates, or none exists",
 "Searching a triangulation for a point returns a simplex only if the point lies in it within the tolerance, and the barycentric coordinates handed back with it are all within the tolerance of [0, 1], sum to one and reproduce the point from that simplex's vertices in order. It returns none only if the point is not inside the triangulated region. This holds with and without brute-force mode and also for triangulations of a single simplex.",
 ["inputs"],"every query point, for triangulations in 2, 3 and 5 dimensions",
 "test_delaunay_find_simplex_2d queries three points of one square through the raw API; nothing tests the searcher.",
 [D],[("SimplexSearcher",D),("BarycentricTransformation",D)],["SimplexSearcher::find_simplex_mut"],None)
p("C09","The answer of a simplex search does not depend on earlier searches",
 "A search on a searcher that has been used before (any earlier points, found or not, any tolerance changes) gives a result as valid as one on a fresh searcher: it finds a simplex for exactly the same points, and that simplex contains the point.",
 ["histories","inputs"],"every pair (and, thorough, triple) of query points",
 NOTEST+"the start hint carries state between calls; the pairs of points are unbounded.",
 [D],[("SimplexSearcher::start_hint",D)],["SimplexSearcher::find_simplex_mut"],None)
p("C10","The closest point of a triangle is in the triangle and no other is closer",
 "For every point and every non-degenerate triangle, the computed closest point lies in the triangle and no point of the triangle is nearer to the query point; the squared distance is the squared length of the difference.",
 ["inputs"],"every query point, for listed triangles and for a family of symbolic triangles",
 "test_triangle_distance compares six random cases with recorded numbers; there are ten regions with their own formula.",
 [T],[("triangle_closest_point, triangle_distance_sqr",T)],["triangle_closest_point"],"call the two private functions")
p("C11","A convex hull encloses its input and its facets are consistent",
 "A convex hull's vertices are input points, every input point is on the inner side of every facet's plane (up to rounding), each facet's vertices lie on its plane whose normal has unit length, and in three dimensions the order of a facet's vertices is counter-clockwise seen from outside. The k-th neighbour of a facet shares all its vertices but the k-th.",
 ["inputs"],"every position of a free input point around fixed ones, in 2 and 3 dimensions, and every coordinate value read from the hull library's structures",
 "test_construction checks one 2-dimensional square.",
 [H,W],[("ConvexHull::from_qhull_raw",H)],["ConvexHull"],None)
p("C12","A Delaunay triangulation covers the hull once, with consistent neighbours",
 "The simplices of a triangulation use input points as vertices, do not overlap, and together cover the convex hull of the points. The k-th neighbour of a simplex is the simplex on the other side of the face opposite its k-th vertex, or none on the outside of the hull, and no input point is strictly inside a simplex's circumscribed sphere.",
 ["inputs"],"every position of a free point, and every location in the hull, for listed point sets in 2, 3 and 5 dimensions",
 "test_construction and test_delaunay_4d_simplices check two point sets.",
 [D,W],[("Delaunay::from_qhull_raw",D)],["Delaunay"],None)
p("C13","Plane distances and lifting agree with the hull library",
 "The signed distance of a point from a facet or simplex plane is the offset plus the sum of products of coordinates and normal, as qhull itself computes it, in every dimension and in both the raw and the array-based API. A point lifted for a search lies on the same scaled paraboloid on which the library built the triangulation.",
 ["inputs"],"every point, normal and offset in dimensions 2 to 6",
 "test_plane_distance compares one point on one facet in 2 dimensions, for the raw API only.",
 [D,W],[("Simplex::plane_distance, Delaunay::lift_point",D),("Facet::plane_distance",W)],["plane_distance"],"call the private lifting function")
p("C14","Generated palettes respect the size limits and the error bound",
 "Simplification of the colour hull stops only when the hull has at most four corners, at most the minimum size, no edge that can be removed, or when it has at most the maximum size and one more step would raise the error above the error bound. It does stop there, so a palette never has more colours than the largest of four, the minimum and the maximum size while the hull can still be simplified, and no step taken below the maximum size exceeds the bound. The error is the root of the average, over all pixels, of the squared distance of the colour from the hull of the palette limited to the displayable range.",
 ["inputs"],"every error bound, minimum size and maximum size, for listed images; every pixel colour for the error",
 NOTEST+"the result is a step function of three parameters.",
 [P],[("compute_palette, compute_pixel_error",P)],["compute_palette"],"call the private steps")
p("C15","Simplifying a palette never loses a colour of the image",
 "Each simplification step replaces an edge of the colour hull by one new corner such that the new hull still contains the old one, so, where no corner had to be limited to the displayable range, every image colour lies within the hull of the computed palette up to rounding to bytes. Every palette colour of an unsimplified hull is a colour of the image. Computing a palette never fails on an image whose colours span a volume.",
 ["inputs"],"every colour of listed images, every target size",
 NOTEST+"containment quantifies over all points of the old hull.",
 [P],[("locate_edge_to_collapse",P)],["compute_palette"],None)
p("C16","The C API computes what the Rust API computes, within the caller's buffers",
 "For every image size and content, each C function gives the same result as its Rust counterpart, reads exactly 3*width*height image bytes and 3 bytes per palette colour, and writes exactly 3 (recolouring) or 1 (channel) bytes per pixel. It reports failure (0 or NULL) exactly when the Rust call fails, and then writes nothing; the reported colour, channel and pixel counts are the real ones.",
 ["inputs"],"every palette, channel number and error bound for listed images; every width and height for the size arithmetic",
 NOTEST+"buffer arithmetic breaks only for special sizes.",
 [C,CH],[("extern C functions",C)],["create_image_weights, compute_palette, create_decomposed_image, reconstruct_image, grayscale_image_channel"],None)
p("C17","The C header describes the functions the library exports",
 "A C program compiled against the shipped header passes every argument where the library reads it and gets every result where the library puts it: all functions have the number, order, width and kind of parameters and result the header declares.",
 ["inputs","programs"],"every argument value of every declared function",
 NOTEST+"nothing compiles the header.",
 [CH,C],[("function declarations",CH)],["image-palette-recoloring.h"],None)
p("C18","The command line reads colour lists exactly as it prints them",
 "A colour list argument is accepted exactly when it is a comma-separated list of six-digit hexadecimal colours, and it then gives those colours in that order, so a printed palette is read back unchanged; any other text is reported as an error and never crashes the program.",
 ["inputs"],"every list of up to two colours and every byte string of up to 8 bytes that is UTF-8",
 NOTEST+"malformed texts (signs, multi-byte characters, empty items) are unbounded.",
 [L],[("parse_color_list",L)],["parse_color_list"],"call the private parser")
p("C19","No invalid memory access and no leak in any library life cycle",
 "Building, reading and dropping hulls and triangulations, and creating, using and freeing every object of the C API, reads and writes only memory that is allocated at that moment, releases each allocation exactly once and leaves none behind. Views handed out by the API have exactly the length of the data behind them.",
 ["inputs","histories"],"every symbolic input and life-cycle of the other harnesses, dimensions 2, 3 and 5",
 NOTEST+"tests run without any memory checker.",
 [W,C,H,D],[("Drop for ConvexHull, SetIter, Facet::normal",W),("free_* functions",C)],["raw API, C API"],None)
p("C20","Flat input is reported instead of ending the process",
 "An image or palette whose colours do not span a volume (all on one plane, line or point) is reported as an error to the caller or handled; it never ends the process or performs a jump through uninitialised state.",
 ["inputs"],"every palette of four colours on a plane, and every flat image of a listed family",
 NOTEST+"tests use full-dimensional input only.",
 [R,P,W],[("DecomposedImage::new",R),("raw init_shared",W)],["DecomposedImage::new, compute_palette, ImageWeights::new"],None)
p("C21","The raw triangulation search and barycentric solvers are correct",
 "A barycentric solver built for a simplex maps every point to coordinates that sum to one and reproduce the point from the simplex's vertices in order. The raw triangulation search returns a simplex only if it contains the point within the tolerance, with those coordinates, for every start hint, and returns none only for points outside the triangulated region.",
 ["inputs","histories"],"every query point and every start simplex, for listed triangulations in 2 and 3 dimensions",
 "one test queries three points of one square; the 4-dimensional test is disabled by a panic.",
 [W],[("find_best_simplex, BarycentricSolver",W)],["raw::Delaunay"],None)
p("C22","The raw view of the hull library's structures reads the real fields",
 "Vertices, facets, ids, points, normals, offsets, neighbour lists and the upper-Delaunay mark seen through the Rust bindings are the values stored in the C library's structures, for every value of every field; list walks visit each element once, in order, and stop at the end marker.",
 ["inputs"],"every value of every field that is read, list lengths up to 3",
 NOTEST+"a wrong offset or bit shows only for certain values.",
 [B,W,X],[("facetT/vertexT bindings, iterators",W)],["raw::Facet, raw::Vertex"],"wrap an existing C structure in the raw types")
p("C23","The web page's fields are right and its actions never touch freed objects",
 "The colour text field accepts exactly the texts '#' followed by six hexadecimal digits, colours are written as '#' and two hexadecimal digits per component, and the colour pickers, the text fields and the palettes and settings handed to the worker agree, each row with its own. Whatever the user does and whenever (a new picture, a new palette, a new output, while the worker is still busy or after it has reported an error), the page hands the worker only objects that exist and are not freed, frees each at most once, and when all is done shows the result for its present fields.",
 ["inputs","histories","schedules"],"every text, every colour, and every sequence of user actions of bounded length at any moment of the conversation with the worker",
 "The web front end has no tests; mistakes show only for some digits or for some order of clicks and answers.",
 [J,JH],[("textInputUpdateColorInput, colorValuesToString",J),("initialSetup, recomputePalette, reconstructImage",J)],["index.js"],None)
p("C24","The command line hands the library what the user gave it, and writes its answers",
 "Generating a palette computes it for the named image with the given size limits and error bound and prints it. Recolouring decomposes the named image with the decomposition palette, reconstructs it with the recolouring palette and writes exactly that image (and, where asked, exactly one image per channel, in palette order) to the named files; palettes of different lengths are reported and nothing is written.",
 ["inputs"],"every palette, size limit and error bound",
 NOTEST+"swapped arguments or palettes show for particular values only.",
 [L],[("main",L)],["main"],"call the private entry with given options")
p("C25","The web worker converts pixels and hands buffers over without mixing them up",
 "The worker converts the page's RGBA pixels to RGB and back without mixing up channels, pixels or sizes (returned alpha is opaque), and hands palettes, settings and objects to the library as given and in order. It answers every request once, with the library's result for that request or, for an invalid palette, an unknown request or a failure, with an error. It frees every buffer that it owns exactly once, with the size it was allocated with, and reads and writes the library's memory where it is after the library has moved it.",
 ["inputs","histories"],"every pixel and palette byte, every size within the bounds, and every library result",
 "The web front end has no tests.",
 [JW],[("onRequest",JW)],["webworker.js"],None)
p("C26","Each simplification step takes the edge whose removal adds the least volume",
 "For every edge of a colour hull, the candidate corner that would replace it is, of all points on the outer side of the faces touching the edge, one for which the sum of its distances from these faces' planes is least. A simplification step replaces the edge whose candidate adds the least volume to the hull, by that candidate; it gives up only if no edge has a candidate.",
 ["inputs"],"every possible new corner, every edge, at every step for listed images",
 NOTEST+"a larger palette than necessary looks like a correct one.",
 [P],[("locate_edge_to_collapse, tetrahedron_volume",P)],["compute_palette"],"call the private function")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in props: f.write(json.dumps(q)+"\n")
print(len(props))
