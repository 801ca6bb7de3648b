"""Texts and options per property: evidence explanations, MANIFEST notes."""
HAVE_SCHED = True

EXPLAIN = (
    "Each execution is one complete vector of decisions (format, size, layout, color, content, mode, ...) of a scenario; "
    "a depth-first search enumerates all vectors, so 'exhaustive' means every execution of every scenario of this tier ran. "
    "The executions run the real library, compiled from /repo's current tree; there is no separate model whose traces would have "
    "to be replayed. 'states': distinct observed outcomes (hash of the destination or of the request/verdict), per instruction set; "
    "'transitions': calls into the library; 'traces_validated_against_impl': executions of the implementation whose outcome was "
    "compared with the oracle; 'values_compared': single samples compared. Every scenario runs once per instruction-set path "
    "(AVX-512, AVX2+FMA, scalar), chosen through std_detect's cached CPU features."
)
ASSUME = [
    "The NEON path is interpreted by Miri on small images (parts named aarch64), with six intrinsics written out lane by lane; where the evidence has no such part, or 'not_run', this run did not explore NEON.",
    "Behaviour outside the enumerated sizes, layouts and values is covered only as far as the code treats it like an enumerated one (see DESIGN.md, bounds).",
    "The processor's instructions and the compiler are trusted.",
]

P = {
    "C01": dict(
        isa=["best"],
        technique="exhaustive enumeration of formats x sizes (bounded), real code against a layout table",
        explain="Oracle: an independent table of plane count, subsampling, interleaving and bytes per sample; arithmetic in u128.",
        note="All 15 formats, every size up to the bound and sizes at the edges of the address space; infer/infer_mut/packed strides for every stride combination of a small alphabet.",
    ),
    "C02": dict(
        isa=["best"],
        technique="exhaustive enumeration of image constructions with up to two deviations, real code against an acceptance oracle",
        explain="Oracle: the geometry fits iff each plane holds (rows-1)*stride + packed row bytes; computed in u128 from the layout table.",
        note="Every plane of every format missing, too short, with too small or overflowing stride, alone and in pairs; from planes and from one buffer.",
    ),
    "C03": dict(
        arm="quick",
        technique="exhaustive enumeration of operations under guard pages (stray accesses fault), real code",
        explain="Monitor: every plane lies flush against an unmapped page (in front or behind), bytes around it carry a pattern; a fault or a changed pattern byte ends the exploration as a violation.",
        note="Reads are observed at page granularity on the side the plane is flush with (both sides enumerated), writes at byte granularity. 225 format pairs, every even width up to 70.",
        assume=["A stray read that lands in another plane's mapped pages is not seen as a fault; C05's comparison across placements catches it when it influences the result."],
    ),
    "C04": dict(
        arm="thorough",
        technique="exhaustive enumeration of operations and layouts; byte-exact write monitor, each run onto two prior contents",
        explain="Monitor: all bytes outside of the visible samples compared with their previous value; two runs onto different prior content must agree on every visible sample.",
        note="225 format pairs x widths x layouts x modes, and resizing.",
    ),
    "C05": dict(
        arm="thorough",
        technique="exhaustive enumeration of memory layouts; every layout's result compared with the packed layout's",
        explain="Oracle: the library's own result on packed images, byte-exact.",
        note="225 format pairs x 14 layouts on both sides, every stride combination per plane of a small alphabet, every misalignment.",
    ),
    "C06": dict(
        arm="thorough",
        technique="exhaustive enumeration of every sample value at every position for lossless conversions",
        explain="Oracle: identity.",
        note="Every value of every bit depth at every position of the enumerated images, in convert, convert_multi_thread and copy.",
    ),
    "C07": dict(
        arm="quick",
        technique="exhaustive enumeration of colors, formats and sample grids; interval reference model of the published equations",
        explain="Oracle: published equations evaluated in double precision over intervals that contain the single-precision error; a sample is accepted iff within half a step (+0.002) of that interval clipped to the range.",
        note="Every ColorInfo, all 225 format pairs, sample grids with all range ends; the thorough tier enumerates complete 8-bit color cubes.",
        assume=["The reference equations in mc/src/model.rs transcribe the published definitions.", "Single-precision error is bounded by a relative 8e-7 per step of the model."],
    ),
    "C08": dict(
        arm="thorough",
        technique="exhaustive enumeration of windows and positions; metamorphic comparison of whole and part",
        explain="Oracle: the library's conversion of the window alone.",
        note="Exact for linear/matrix conversions, within one 8-bit step or the reference interval otherwise.",
    ),
    "C09": dict(
        sched=["best"],
        technique="exhaustive enumeration of row splits (all core counts/heights) and stateless exploration of thread interleavings under a controlled scheduler",
        explain="Oracle: single-threaded conversion, byte-exact, same Result.",
        note="All splits for heights up to 40 and 8 core counts, all errors; schedules of the parts and of two concurrent conversions up to two delays (three thorough).",
    ),
    "C10": dict(
        arm="thorough",
        technique="exhaustive enumeration of all crop windows of small parents, real code against a sample-exact window oracle",
        explain="Oracle: the window of the image of samples; acceptance in exact arithmetic.",
        note="Every chroma-aligned window of parents up to 8x8 and selected windows of wide ones; acceptance for every coordinate of a bound and at the edges of usize.",
    ),
    "C11": dict(
        arm="thorough",
        technique="exhaustive enumeration of chroma blocks over color alphabets and of single-pixel changes; interval reference model",
        explain="Oracle: the reference model with equal-weight block means / replication; a pixel outside of a block must not influence it (byte-exact).",
        note="All 2x2 blocks over an alphabet of 7 colors, each pixel position, every width up to 70 and large images.",
    ),
    "C12": dict(
        arm="quick",
        technique="exhaustive enumeration of extreme samples over formats, colors and positions; interval reference model with clipping",
        explain="Oracle: the clipped interval of the reference model; samples above the bit depth's maximum fail.",
        note="All corners of nominal and full cubes for all pairs of formats and colors, one extreme pixel at every position.",
    ),
    "C13": dict(
        arm="thorough",
        isa=["best", "avx2", "scalar"],
        technique="exhaustive enumeration of the transfer functions' domain (every f32 in [0,1] in the thorough tier) against the published formulas",
        explain="Oracle: published formulas in double precision; order of neighbours; inverse.",
        note="Quick: every k/n for n up to 2^20 and every 4099th f32; thorough: every f32 in [0,1]. Vector code through grey ramps.",
    ),
    "C14": dict(
        arm="thorough",
        technique="exhaustive enumeration of primaries chains and color grids; matrices derived from the chromaticities",
        explain="Oracle: matrices computed in double precision from the standards' chromaticities; greys unchanged; chains return.",
        note="All primaries pairs x transfers x color grid; all chains up to length 5.",
    ),
    "C15": dict(
        arm="thorough",
        technique="exhaustive enumeration of RGB colors there and back; quantization interval oracle",
        explain="Oracle: the interval of RGB values explained by rounding each YUV sample once.",
        note="Every ColorInfo, YUV format and RGB format on a grid of every 17th level; the thorough tier adds every level for every space and range.",
    ),
    "C16": dict(
        technique="exhaustive enumeration of sizes, layouts and algorithms; each plane compared with the scaling library called directly",
        explain="Oracle: fast_image_resize applied to the packed samples of every plane; byte-exact.",
        note="The scaling library itself is trusted.",
        assume=["fast_image_resize scales a packed plane as its algorithm says."],
    ),
    "C17": dict(
        technique="exhaustive enumeration of operation sequences on one resizer to a depth, compared with fresh resizers",
        explain="Oracle: a new resizer for every call; byte-exact.",
        note="All sequences over 9 operations (including failing ones) to depth 5, clones at every point.",
    ),
    "C18": dict(
        mc=False,
        sched=["best"],
        technique="stateless exploration of thread interleavings (delay-bounded, controlled scheduler) and of call histories of the real code",
        explain="Oracle: what each operation returns and writes alone in a new process. Every execution is a new process; 'transitions' counts scheduling steps, 'traces_validated_against_impl' the operations whose result was compared, 'states' distinct schedules, 'points' the scheduling points (atomics, accesses to statics, thread creation, blocking and waking calls); 'executions_by_delays' how many schedules had 0, 1, 2, ... delays.",
        note="All pairs of 23 operations in two threads, all histories of three operations (four thorough), crowds of up to 17 threads, histories of 300 calls, every ordered pair of 143 colors and formats, delay bound 2 (3 thorough).",
        assume=["Interleavings are sequentially consistent; weaker orders of atomics are not enumerated.", "std, rayon and fast_image_resize are interrupted only where they block, wake, create threads or run code instantiated in ezk-image."],
    ),
    "C19": dict(
        technique="exhaustive enumeration of requests (sizes, colors, formats, modes) against a table of admissible errors",
        explain="Oracle: set of admissible errors; destination and source compared byte by byte after a failure.",
        note="All sizes up to 5x5 on both sides, all pairs, all modes.",
    ),
    "C20": dict(
        arm="thorough",
        technique="exhaustive enumeration of alpha values, colors, widths; metamorphic comparison",
        explain="Oracle: identity of alpha; 255; equality of colors for different alphas.",
        note="All color pairs, all widths, all alpha values.",
    ),
    "C21": dict(
        arm="thorough",
        technique="exhaustive enumeration of all grey levels over all color infos, formats and widths",
        explain="Oracle: nominal levels of BT.601/709/2020/2100 and neutral chroma.",
        note="Every grey level, every ColorInfo, every YUV format.",
    ),
}
P = {k: v for k, v in P.items() if v}

NOT_APPLICABLE = {}
