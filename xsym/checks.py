"""Which harness cases decide which property, and within which bounds."""


def r(a, b, step=1): return list(range(a, b + 1, step))


# (palette, family) pairs for which no colour is inside / outside the hull
EMPTY_IN = {3, 55, 87, 97, 99, 103, 104, 183, 184, 215}
EMPTY_OUT = {7} | set(r(128, 175))


def star(pals, fams, skip=()): return [p * 16 + f for p in pals for f in fams if p * 16 + f not in skip]


def jobs(prop, tier):
    spec = PROPS[prop]
    out = []
    for k in ('quick',) if tier == 'quick' else ('quick', 'thorough'):
        for h, cases in spec.get(k, []):
            wall = spec.get('wall', {}).get(h, 120 if tier == 'quick' else 1500)
            out += [(h, c, wall) for c in cases]
    return out


REALS = ' Real arithmetic for values that depend on a symbolic input (concrete values keep IEEE doubles): rounding is covered only by the stated tolerances.'

JSM = 'symbolic execution of the JavaScript of /repo (parsed in this run); branches on symbolic numbers and characters and all assertions are decided by the solver'
PROPS = {
    'C01': {
        'quick': [('h_recon_palette', r(0, 9)), ('h_recon_weights', r(0, 9)), ('h_recon_both', r(0, 9)), ('h_recon_size', r(0, 9))],
        'bounds': 'ten image shapes up to 700 x 1 and 257 x 2, 4 to 12 channels; all palette bytes symbolic (small images) or one colour symbolic; the weights of one pixel any real in -4..4, the others concrete; every palette length up to channels + 2',
        'outside': 'other shapes; the matrix product of more than 12 channels.' + REALS,
    },
    'C02': {
        'quick': [('h_channel', r(0, 9))],
        'bounds': 'ten image shapes, every channel number (symbolic, 64 bit), the weights of one pixel any real in -4..4',
        'outside': 'other shapes.' + REALS,
    },
    'C03': {
        'quick': [('h_weights', [4] + [f + 8 * l for l in (0, 1, 2, 3, 4, 5) for f in ((0, 1, 2, 3, 5, 6) if l < 5 else (1, 6))] + [64, 65, 67, 70, 72, 73, 75, 78, 80, 81, 83, 86, 88, 91, 96])],
        'thorough': [('h_weights', [66, 74, 82, 89, 97, 99, 102])],
        'bounds': 'seven images of 8 to 12 pixels; one pixel (in two images: two pixels) inside the hull of the others with any integer colour on an axis, in a plane or in a box of up to 101 levels; for the hull of all pixels that pixel has a fixed inner colour (first 34 cases) or is free as well (the others)',
        'outside': 'other images; images whose pixels do not span five dimensions.' + REALS,
    },
    'C07': {
        'quick': [('h_back', [4, 68] + [f + 8 * l for l in (0, 1, 2, 3, 4, 5) for f in ((0, 1, 2, 3) if l < 5 else (1,))] + [64 + f + 8 * l for l in (3, 4, 5) for f in ((0, 1, 2, 3) if l < 5 else (1,))] +
                   [64 * p + f + 8 * l for p in (2, 3) for l in (0, 1, 2, 3, 4, 5) for f in ((5, 6) if l < 5 else (6,))])],
        'thorough': [('h_back', [512 + f + 8 * l for l in (0, 1, 2, 3) for f in (0, 1, 3)] + [512 + 64 * p + 6 + 8 * l for p in (2, 3) for l in (0, 1, 2)])],
        'bounds': 'seven images of 8 to 12 pixels and four palettes of 4, 6 and 8 colours in several orders; one pixel (in two images: two pixels) with any integer colour on an axis, in a plane or in a box of up to 101 levels',
        'outside': 'other images and palettes.' + REALS,
    },
    'C04': {
        'quick': [('h_star_inside', star(r(0, 11) + [13], [0], EMPTY_IN) + star([12], [1, 3, 4], EMPTY_IN) + star([0, 3, 5, 6, 8, 9, 10, 11, 13], [1, 3, 7, 8], EMPTY_IN))],
        'thorough': [('h_star_inside', star([12], [0], EMPTY_IN) + star(r(0, 13), [2, 4, 5, 6, 9, 10], EMPTY_IN))],
        'bounds': '14 palettes of 4 to 10 colours (tetrahedra in several orders, cube in three orders, octahedron, prism, pyramid, sliver, ten colours); the colour is any real point of the 0..255 cube',
        'outside': 'other palettes.' + REALS,
    },
    'C05': {
        'quick': [('h_star_outside', star(r(0, 13), [3, 4, 5, 6, 7, 8, 9, 10], EMPTY_OUT) + star([0, 1, 2, 3], [1], EMPTY_OUT))],
        'thorough': [('h_star_outside', star(r(0, 13), [1, 2], EMPTY_OUT) + star([0, 1, 2, 3, 5, 6], [0], EMPTY_OUT))],
        'bounds': '14 palettes; the colour is any real point of 8 lines (quick), 2 planes, or the whole cube (thorough, four-colour palettes and the octahedron)',
        'outside': 'other palettes; for the larger palettes, colours off the listed lines and planes.' + REALS,
    },
    'C06': {
        'quick': [('h_pal_few', r(0, 3)), ('h_pal_fixed', r(0, 28)), ('h_pal_line', [0, 1, 2, 4, 6, 10, 11, 12, 13, 14])],
        'thorough': [('h_pal_line', [3, 5, 7, 8, 9])],
        'bounds': 'every palette of 0 to 3 colours; 29 fixed palettes; 15 palettes with one component any byte',
        'outside': 'palettes with more than one free component.',
    },
    'C08': {
        'quick': [('h_search2', r(0, 8) + r(16, 24) + [32, 48, 50, 51, 65, 67, 82]), ('h_search3', [0, 2, 3, 5, 7] + r(16, 22) + [48]), ('h_search5', [0, 512, 513, 514, 515, 528, 529, 530, 531])],
        'thorough': [('h_search3', [1, 4, 6, 7 + 16]), ('h_search5', [1, 2, 3, 17, 18] + r(1024, 1027)), ('h_search2', r(48, 56) + r(80, 88))],
        'bounds': '9 point sets in 2, 8 in 3 and 4 in 5 dimensions; query point any real point of a box twice the size of the set (in 5 dimensions quick: on a line); default, 1e-10 and 1e-4 tolerance; with and without brute force',
        'outside': 'other point sets and tolerances.' + REALS,
    },
    'C09': {
        'quick': [('h_again2', [0, 1, 3, 16, 18, 256]), ('h_again3', [0, 3, 512, 513, 516]), ('h_again5', [512, 513, 514])],
        'thorough': [('h_again2', [2, 4, 5, 6, 7, 8, 17, 19, 20, 258]), ('h_again3', [1, 2, 4, 5, 7, 18, 256, 258]), ('h_again5', [515, 528, 529, 530])],
        'bounds': 'one earlier search (8 kinds: four outer corners, a vertex, an inner point, a point anywhere on a line, a search followed by a cleared hint), also with changed tolerance and mode, then one search for any point',
        'outside': 'more than two searches on one searcher; other point sets.' + REALS,
    },
    'C10': {
        'quick': [('h_tri', r(0, 11)), ('h_tri_shape', r(0, 2))],
        'bounds': '12 triangles with any real query point in a box four times their size; triangles in a plane with any shape (base 0.25..4, apex -3..3 x 0.25..3) and any query point of -5..5 squared',
        'outside': 'symbolic triangles out of the plane; degenerate triangles.' + REALS,
    },
    'C11': {
        'quick': [('h_hull3', r(0, 12)), ('h_hull2', [272]), ('h_hull5', r(0, 3))],
        'bounds': '13 point sets (one of 32 points) in 3 and 4 in 5 dimensions; in 2 dimensions a point anywhere on a line',
        'outside': 'other point sets.' + REALS,
    },
    'C12': {
        'quick': [('h_cover2', r(0, 8) + [25, 41, 57]), ('h_cover3', r(0, 7) + [24, 40]), ('h_cover5', [0, 2, 3] + r(16, 19))],
        'thorough': [('h_cover5', [1]), ('h_cover2', [9] + [9 + 16 * k for k in r(4, 9)]), ('h_cover3', [8 + 16 * k for k in r(3, 8)])],
        'bounds': '10 point sets in 2, 9 in 3 and 4 in 5 dimensions (the last in 2 and 3 of 70 and 32 points, about 130 and 150 simplices); every location of a box twice the size of the set (for the two large sets: of lines through it)',
        'outside': 'other point sets.' + REALS,
    },
    'C13': {
        'quick': [('h_planes2', r(0, 9)), ('h_planes3', r(0, 8)), ('h_planes5', r(0, 3)), ('h_lift2', r(0, 8)), ('h_lift3', r(0, 7)), ('h_lift5', r(0, 3)), ('h_raw_distance', r(0, 6))],
        'bounds': '9 point sets in 2, 8 in 3 and 4 in 5 dimensions; every facet, every query point in -300..300 in each coordinate',
        'outside': 'other point sets and dimensions.' + REALS,
    },
    'C16': {
        'quick': [('h_capi_mock_weights', r(0, 27)), ('h_capi_mock_palette', r(0, 27)), ('h_capi_mock_decompose', [0, 1]), ('h_capi_mock_images', r(0, 31) + [32, 33, 48, 49]),
                  ('h_capi_real_image', r(0, 5) + r(8, 13) + [16, 17, 20, 24, 25, 32, 48, 56, 64]), ('h_capi_real_palette', [0, 1, 5])],
        'thorough': [('h_capi_real_image', [18, 19, 21, 26, 27, 28, 29] + r(33, 37) + r(49, 53) + r(57, 61) + r(65, 69)), ('h_capi_real_palette', [2, 3, 4])],
        'bounds': 'every call of every function, with a recording library behind the C API: every width and height up to 32 bits whose buffer exists (symbolic), every size limit, error bound, channel number and palette length, palettes of 0 to 12 colours, images up to 40 x 40; and with the real library: six images, nine palettes with symbolic bytes, one symbolic channel number, 6 images for compute_palette with symbolic limits',
        'outside': 'other image contents with the real library (they are covered through the recording library: the C API hands the same buffer over).',
    },
    'C17': {
        'quick': [('h_capi_shape', r(0, 10)), ('h_capi_mock_weights', r(0, 5)), ('h_capi_mock_palette', r(0, 9)), ('h_capi_mock_decompose', [0, 1]), ('h_capi_mock_images', r(0, 11))],
        'bounds': 'every function that the header declares; every argument value (symbolic), bits above the declared width undefined as in the C calling convention',
        'outside': 'calling conventions other than the one of the x86-64 System V ABI used here.',
    },
    'C18': {
        'quick': [('h_cli_text', r(0, 22) + [24, 25]), ('h_cli_wide', r(0, 14)), ('h_cli_print', [0, 3, 7, 13, 39])],
        'thorough': [('h_cli_text', [23, 26, 27])],
        'bounds': 'texts of up to 23 bytes of several shapes whose free bytes (up to 6 at a time) are any ASCII character, texts with multi-byte characters at every position, printed palettes with any component value (256 values at one position)',
        'outside': 'longer texts; texts with more free bytes at a time.',
    },
    'C24': {
        'quick': [('h_cli_recolor', r(0, 47)), ('h_cli_print', [0, 3, 7, 13, 39])],
        'bounds': 'both subcommands and all options; palettes of 1 to 3 colours with symbolic digits, symbolic size limits and error bound; stand-ins for argument parsing, image files and the library record what they are given',
        'outside': 'the parsing of arguments by clap, the reading and writing of image files.',
    },
    'C19': {
        'quick': [('h_life2', [k * 16 + s for k in r(0, 6) for s in (0, 1, 3)]), ('h_life3', [k * 16 + s for k in r(0, 6) for s in (0, 2)]), ('h_life5', [k * 16 for k in r(0, 6)]),
                  ('h_life_mock_weights', r(0, 7)), ('h_life_mock_palette', r(0, 13)), ('h_life_mock_decompose', [0, 1]), ('h_life_mock_images', r(0, 13)),
                  ('h_life_real_image', [0, 1, 3, 8, 16, 24, 32]), ('h_life_real_palette', [0, 1])],
        'thorough': [('h_life2', [k * 16 + s for k in r(0, 6) for s in (2, 4, 5, 6, 7, 8)]), ('h_life3', [k * 16 + s for k in r(0, 6) for s in (1, 3, 4, 5, 6, 7)]), ('h_life5', [k * 16 + s for k in r(0, 6) for s in (1, 2, 3)]),
                     ('h_life_real_image', [2, 4, 5, 9, 17, 20, 25, 48, 56, 64]), ('h_life_real_palette', [2, 4, 5])],
        'bounds': 'the life cycles of hulls and triangulations (raw and array-based, one or several at once) over 9 point sets in 2, 8 in 3 and 4 in 5 dimensions with a symbolic query point, and of every C API object with symbolic arguments; every access of the Rust and of the C code is checked byte by byte, frees with another size than the allocation and leaks are reported',
        'outside': 'other point sets; threads.',
    },
    'C20': {
        'quick': [('h_flat_colours', [0, 2] + r(3, 12) + r(19, 28) + r(35, 43)), ('h_flat_image', r(0, 6))],
        'thorough': [('h_flat_colours', [1, 16, 17, 18] + r(51, 60))],
        'bounds': 'palettes of 4 to 7 colours: 3 families of axis planes (all colours and the level free), 4 families of slanted planes and 3 families of lines (the last colour free on it), one colour n times (free), planes through three partly free colours, one line along an axis (all free); 7 flat images (concrete)',
        'outside': 'other planes and lines; flat images with free pixels (concrete ones already end the process: known findings).',
    },
    'C23': {
        'engine': 'js',
        'technique': 'symbolic execution of the JavaScript sources (syntax trees of acorn) with SMT decisions; the page runs against a recording stand-in for document and worker',
        'method': JSM,
        'quick': [('h_js_text', r(0, 10) + [16, 22, 23, 24]), ('h_js_picker', r(0, 5)), ('h_js_palette_fields', [0, 5, 14]), ('h_js_edit', r(0, 11)), ('h_js_settings', r(0, 6)), ('h_js_actions', [0, 1, 2, 5]), ('h_js_failures', [0, 2, 3, 5])],
        'thorough': [('h_js_actions', [6, 3]), ('h_js_failures', [1, 4, 6, 7]), ('h_js_palette_fields', [4, 8, 9, 12, 13, 16, 17, 18, 20, 21, 22]), ('h_js_text', r(11, 15) + r(17, 21) + r(25, 31))],
        'wall': {'h_js_actions': 900},
        'bounds': 'colour texts of 0 to 10 (thorough 15) arbitrary UTF-16 units; palettes of 1 to 6 colours with any colour in one place; any two digits of an edited colour; settings of one to three digits; every sequence of up to two user actions of five kinds at any moment of the conversation with the worker (thorough three); three actions in turn with a failure of any one request',
        'outside': 'real browsers and canvases; longer sequences of actions.',
    },
    'C25': {
        'engine': 'js',
        'technique': 'symbolic execution of the JavaScript sources (syntax trees of acorn) with SMT decisions; the worker runs against a recording stand-in for the compiled library',
        'method': JSM,
        'quick': [('h_js_weights', r(0, 7) + [16, 17, 20, 23]), ('h_js_palette', [k * 16 + s for k in r(0, 6) for s in (0, 3, 5, 6)] + [128, 145, 180, 7, 55, 256, 257, 272, 273, 288, 289]), ('h_js_decompose', r(0, 43)), ('h_js_free', r(0, 4)),
                  ('h_js_reconstruct', [c * 32 + h * 8 + s for c in (1, 4, 5) for h in (0, 1, 2) for s in r(0, 7)] + [c * 32 + h * 8 + s for c in (8, 9, 10) for h in (0, 1, 2) for s in (1, 4)]), ('h_js_channel', [h * 8 + s for h in (0, 1, 2) for s in r(0, 7)])],
        'thorough': [('h_js_reconstruct', [c * 32 + h * 8 + s for c in (0, 2, 3, 6, 7, 8) for h in (0, 1, 2) for s in r(0, 6)])],
        'bounds': 'images of 1x1 to 3x2 and of 16x17 pixels and palettes of 0 to 7, 10, 60 and 255 colours with arbitrary bytes, settings, pointers and library results, memory that moves or not, and traps',
        'outside': 'larger images; library memory above 2 GiB, where addresses reach JavaScript as negative numbers; the WASI stand-in and the binding of the compiled WebAssembly (C16, C17 check the library side).',
    },
    'C14': {
        'quick': [('h_palette', r(0, 11)), ('h_palerr', [l * 8 + h for l in (0, 1, 2, 5) for h in r(0, 5)]), ('h_palerr_count', r(0, 5))],
        'thorough': [('h_palerr', [l * 8 + h for l in (3, 4, 6, 7) for h in r(0, 5)])],
        'bounds': '12 images with colour hulls of 4 to 14 corners; every minimum and maximum size of 0..300 and every error bound of 0..2 (not within 1e-9 of a step error); the error of 6 hulls (with and without corners out of range) for a pixel anywhere on 8 lines through the colour cube and for any pixel counts',
        'outside': 'other images and hulls; pixels off the lines.' + REALS,
    },
    'C15': {
        'quick': [('h_collapse', r(0, 6) + r(8, 11) + [i + 16 * k for k in r(1, 4) for i in (2, 3, 4, 5, 8, 9, 10, 11)]), ('h_palette', r(0, 11))],
        'thorough': [('h_collapse', [i + 16 * k for k in r(5, 10) for i in (9, 10, 11)])],
        'bounds': '12 images with colour hulls of 4 to 14 corners, all simplification steps (thorough) or the first five; every point of the old hull; every minimum and maximum size of 0..300 and every error bound of 0..2 for the whole computation',
        'outside': 'other images.' + REALS,
    },
    'C26': {
        'quick': [('h_cheapest', r(0, 11) + [i + 16 * k for k in r(1, 4) for i in (2, 3, 4, 5, 8, 9, 10, 11)])],
        'thorough': [('h_cheapest', [i + 16 * k for k in r(5, 10) for i in (9, 10, 11)])],
        'bounds': '12 images with colour hulls of 4 to 14 corners, all simplification steps (thorough) or the first five; every edge, every point of -100..100 cubed as the new corner',
        'outside': 'other images; hulls with four corners in a plane; edges with several equally good corners (they are not compared).' + REALS,
    },
    'C21': {
        'quick': [('h_solver3', r(0, 7)), ('h_raw2', [0, 1, 2, 3, 16, 32, 48, 64, 66, 214, 256, 258, 128, 130]), ('h_raw3', [0, 512, 513, 515, 528, 768]), ('h_raw5', [512, 513, 514])],
        'thorough': [('h_raw2', r(4, 8) + [212, 216]), ('h_raw3', [1, 2, 3, 4, 7]), ('h_raw5', [515])],
        'bounds': '9 point sets in 2, 8 in 3 and 4 in 5 dimensions; every facet as start hint; any query point (on lines in 3 and 5 dimensions, quick)',
        'outside': 'other point sets and tolerances.' + REALS,
    },
    'C22': {
        'quick': [('h_raw_fields', [16 * k + m for k in r(0, 5) for m in (0, 1, 2, 3, 5)]), ('h_raw_lists', r(0, 4))],
        'thorough': [('h_raw_lists', [5, 6])],
        'bounds': 'structures laid out by the C compiler from the library headers, every field that the wrappers read symbolic (ids and flags all bit patterns, coordinates and offsets any real in -1000..1000), neighbours of every other field symbolic too; 2 to 6 dimensions; lists of up to 6 elements, any of which is hidden',
        'outside': 'longer lists.',
    },
}
