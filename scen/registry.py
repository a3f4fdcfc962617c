"""What each property's check runs and within which bounds."""
from . import screen_s, encoder_s, movie_s, audio_s, symbols_s, player_s, colours_s, tools_s, sim_s, whole_s, duet_s

SYM = ("symbolic execution of the Python source (re-read from /repo on every run); z3 decides every branch "
       "and every claim over all values of the symbolic inputs")

PROPS = {}
NUMPY = ("numpy operations behave as modelled by symx/snp.py (fixed-width wrapping integers, numpy 1.22 "
         "type promotion); only the operations the code uses are modelled")


def add(pid, configs, bounds, assumptions=(), covers=(), technique=SYM, **kw):
    PROPS[pid] = dict(configs=configs, bounds=bounds, assumptions=[NUMPY] + list(assumptions),
                      covers=list(covers), technique=technique, **kw)


add("C01", screen_s.c01_configs,
    "Symbolic: scanline, column, page and offset, screen page, address (0x2000..0x5fff, and outside for the "
    "reverse lookups). All 192 scanlines and 40 columns and all 8192 locations are covered. The lookup tables "
    "are built by the module's own code and compared cell by cell.")
add("C02", screen_s.c02_configs,
    "Symbolic: all 8192 bytes of the map, the byte written, the address written (-70000..70000). Screen pages "
    "1 and 2. Paged writes: quick tier pages 0, 9, 31; thorough tier all pages.")
add("C03", screen_s.c03_configs,
    "Symbolic: all 256 bytes (both banks in DHGR), 8 bits each including screen holes and the DHGR palette bit, "
    "of one page at a time; other pages hold a fixed pattern. Quick tier pages 0, 1, 17, 31; thorough all 32.")
add("C04", screen_s.c04_configs,
    "Symbolic: the byte stored and the 13 bytes around it (both banks in DHGR), other bytes a fixed pattern; "
    "every offset 0..255 of the page; one store from an arbitrary state (inductive step: any history). Quick "
    "tier pages 0, 21, 31; thorough all 32 pages, and page 11 with all bytes of the page symbolic.")
add("C05", screen_s.c05_configs,
    "Symbolic: all bytes of one page (both banks in DHGR); every visible byte of the page. Quick tier pages 0 "
    "and 19, thorough all 32. For bytes at the left edge of a scanline only the dots of the byte itself and its "
    "right-hand side are claimed, because the encoder's window has no left neighbour across page boundaries "
    "(the packed form takes the neighbouring byte in memory). Also every window value per byte position.")
add("C06", screen_s.c06_configs,
    "Symbolic: all bytes of one page; every visible byte; colours of the dots of the window at their absolute "
    "phase. Quick tier page 7, thorough all 32. Also any dot string (4 to 37 dots) per byte position.")
add("C07", screen_s.c07_configs,
    "Symbolic: all bytes of one page and the new value of the byte replaced; every visible byte of the page. "
    "Quick tier page 12, thorough all 32. HGR effects are those of the encoder's own dot model (C05).")
add("C08", screen_s.c08_configs,
    "Symbolic: all bytes of a page of source and target (both banks in DHGR), the content byte, the weights and "
    "the distance table (any symmetric table with zero diagonal, 16 bit). Quick tier: selected pages; thorough: "
    "all 32. Every offset of the page.")
add("C09", screen_s.c09_configs,
    "Symbolic: the contents of the stored table, at window widths of 2 to 4 bits (the loader is run with the "
    "bitmap class's widths reduced); every pair of windows. File names: both modes, both palettes.",
    ["numpy.load returns what numpy.savez wrote"])

add("C10", colours_s.c10_configs,
    "The generator's loop at reduced window widths: 2 and 4 window values (thorough: 8) with arbitrary dots for all of "
    "them (up to 21 dots), 8 window values with arbitrary dots for one (thorough: 16), 32 window values with fixed "
    "dots (thorough: 128); the distance of every pair is arbitrary (0..65535). All byte positions of both modes.",
    ["weighted_levenshtein's distance is symmetric for symmetric costs; it is replaced by an arbitrary function"],
    ["reached"])
add("C11", colours_s.c11_configs,
    "The whole generator at 2 window values per byte position; all 256 pairs of pixel characters, both modes and palettes; "
    "perceptual differences of any two palette colours arbitrary whole numbers (0..4000), symmetric, zero for equal "
    "colours.", ["colormath and weighted_levenshtein are replaced by stand-ins; differences are whole numbers"], ["reached"])
add("C12", colours_s.c12_configs,
    "Any 4-bit value, rotations by 0 to 8 (thorough: 32); any dot string for 1 to 24 colours (thorough: 37), four phases, "
    "every split.", [], ["reached"])

ENC = ("Configurations with 1 to 3 bytes (thorough: up to 4) whose source and target values are symbolic, at row "
       "starts, row ends, next to screen holes, at both ends of the screen and in the middle, the rest of the "
       "screen equal; every byte whose window contains a symbolic byte is a candidate for a store. The prior "
       "priorities of the candidates are symbolic (0..2^20). The distance table is symbolic: any symmetric table "
       "with zero diagonal and entries up to 4000. Target screen holes symbolic in two configurations. Tie-breaking "
       "nonces: symbolic in one configuration, constant in the others. In addition 'wide' configurations in which "
       "7 bytes (thorough: 40) of one page differ by constants, the target of the first byte is symbolic and the "
       "table is a fixed weighted Hamming distance. 'History' configurations: one encoder through up to 25 "
       "segments (pictures, banks, abandoned frames), with nearly all bytes of 2 to 32 pages different, until a bank has converged "
       "(up to 7680 pending bytes), one target byte symbolic in 1 or 2 bits, the rest fixed. Larger differences with all bytes "
       "symbolic are outside the bound.")
ENCA = ["random.getrandbits and numpy.random.randint return any value of their range",
        "DHGR source and target bytes are below 128 (the code asserts it)",
        "screen holes of the encoder's own screen are zero (the code asserts it; C04/E01 show it stays so)"]
add("E01", encoder_s.e01_configs, ENC, ENCA, ["several different stores"])
add("E02", encoder_s.e02_configs, ENC + " Stores compared: until two padding stores; abandoned after one "
    "store and resumed for either bank.", ENCA, ["reached"])
add("E03", encoder_s.e03_configs, ENC + " The table separates different windows.", ENCA,
    ["all candidates differ", "nothing differs"])
add("E04", encoder_s.e04_configs, ENC, ENCA, ["a resolved byte"])
add("E05", encoder_s.e05_configs, ENC + " The first two stores of a frame (thorough: 8 in wide configurations).",
    ENCA, ["a secondary store"])

PLAYER_DBG = "the player's routine addresses are those of the checked-in debug file (P06 compares them with the player)"
FAKES = "audio input and frame grabber are replaced by stand-ins that deliver the given samples and frames"
add("S01", movie_s.s01_configs,
    "Whole streams from the header on: 3 frames (thorough: 40) of tick opcodes of all kinds with symbolic contents. "
    "One step from any history: every opcode boundary (292) of a frame with a symbolic frame number (0..2^40), "
    "either active bank, both modes, followed by two opcodes and TERMINATE (thorough: 600 opcodes). Opcode contents "
    "symbolic.", [PLAYER_DBG, FAKES], ["reached", "step reached"])
add("S02", movie_s.s02_configs,
    "All 1024 tick opcodes, each with symbolic content byte and offsets; ACK for a symbolic bank, TERMINATE, NOP, "
    "header of both modes; 0 to 8 offsets. Addresses are those of the checked-in debug file (S08: arbitrary ones).",
    [PLAYER_DBG], ["reached"])
add("S03", movie_s.s03_configs,
    "600 ticks from the start (thorough: also 5840) through Movie.encode and Movie.emit_stream together, over a "
    "stand-in for the store encoder that numbers its generators and stores. Whether a new video frame is due is "
    "symbolic at 9 ticks (thorough: 13) around the first two ACKs. Both modes; n = 1, 2 (thorough: 3).",
    [PLAYER_DBG, FAKES, "Video.tick and Video.encode_frame are replaced by recording stand-ins (S05, E01-E05 check them)"],
    ["three banks"])
add("S04", movie_s.s04_configs,
    "Every sample value -15..16 at each of the first three ticks, any pattern of new frames, every page 32..63 of the "
    "encoder's store; 760-tick runs in both modes with one symbolic sample at the ACK boundary (thorough: at 60 "
    "positions).", [PLAYER_DBG, FAKES, "Video.tick and Video.encode_frame are replaced by recording stand-ins"],
    ["reached"])
add("S05", movie_s.s05_configs,
    "Inductive step: any number of frames requested so far below 2^20 and any tick number, for 3 audio rates x 10 frame "
    "rates (thorough: 9 x 10), among them 29.97, 23.976 and 12.5. From the start: any integral audio rate in "
    "three ranges of 100 Hz (thorough: fifteen ranges), 2000 ticks (thorough: 6000). float64 arithmetic is decided by "
    "intervals with the exact rounding error bound, in linear integer arithmetic; due times are compared with a "
    "slack of 0.001 tick. Frame skipping: n = 1 to 4, 4 frames available, new frames at any of 6 symbolic ticks.",
    [FAKES], ["requested", "not requested", "several frames", "frames ran out"])
add("S06", audio_s.s06_configs,
    "Any two resampled float32 samples of magnitude up to 65536, for 4 explicit normalization factors (thorough: 14): "
    "monotone, in range, and equal to the truncated scaled sample up to a relative 2^-20 at the steps' edges. "
    "Automatic normalization: any sample, for 6 pairs of percentiles (thorough: 10); the factor itself for any float64 "
    "percentiles within three ranges. De-interleaving: any 16-bit samples of 1 to 6 channels (thorough: 8), the input "
    "cut into blocks at 8 selected sets of places, also in the middle of a frame or sample (thorough: also at any single place); "
    "percentiles are those of the whole input. Samples above 65536 and the quality of resampling are outside the bound.",
    ["audioread, librosa's mixing and resampling and numpy.percentile are replaced by stand-ins; floats are decided as "
     "IEEE single and double precision numbers"], ["silence", "sound"])
add("S07", movie_s.s07_configs,
    "Step from opcode boundaries 0, 1, 145, 290, 291 of a frame (thorough: all 292) with a symbolic frame number "
    "(0..2^20), symbolic limit (1..2^32), no limit or limit 0, three opcodes left; whole streams of 12 ticks "
    "with any limit up to 100 (thorough: 600 ticks, limit up to 5000).", [PLAYER_DBG, FAKES],
    ["limit reached", "all opcodes emitted"])

add("S08", symbols_s.s08_configs,
    "The address of every one of the 1028 routines is symbolic within a window of 63 values of its own; the windows cover "
    "1..64764 in three different orders, the lines of the debug file come in three orders, and other symbols with similar "
    "names are mixed in; one routine anywhere among 8 neighbouring windows (thorough: 21 such routines). Missing "
    "routine: 68 of the 1028 (thorough: all). Addresses of different routines that coincide are outside the bound.",
    ["int(text, 16) of the hexadecimal text of an address is that address"], ["bound", "missing"])

SYM65 = ("symbolic execution of the 6502 machine code assembled from /repo's player source on every run; z3 decides "
         "every branch and every claim over all values of the symbolic inputs")
CPU = ["the assembler and linker (cc65) translate the source as installed; NMOS 6502 instruction semantics and cycle "
       "counts as in symx/m6502.py (replayed against py65)",
       "the W5100 behaves as in symx/a2io.py: indirect mode, auto-increment that wraps at the end of the 8K buffer"]


def padd(pid, configs, bounds, covers=(), extra=()):
    add(pid, configs, bounds, list(CPU) + list(extra), covers, technique=SYM65, prepare=player_s.prepare)


INV = ("Entered after any history: X = 0, decimal mode off, A, Y, flags, zero page, screen memory, stream position and "
       "stream contents arbitrary (symbolic), and every byte that any opcode modifies in the player's code arbitrary. ")
padd("P01", player_s.p01_configs, "All 1024 tick opcodes at their labels. " + INV +
     "At most 200 instructions per opcode. Interrupts are outside the bound.", ["reached"])
padd("P02", player_s.p02_configs, "All 1024 tick opcodes at their labels. " + INV +
     "At most 200 instructions per opcode. With the claim that nothing but the bytes found self-modified is written, the "
     "runs are an inductive step for any sequence of opcodes.", ["reached"])
padd("P03", player_s.p03_configs, INV + "Receive read pointer: any of the 32 multiples of 2048, the stream pointer at the "
     "last two bytes of the frame. Received size (0..8192) symbolic at every poll, keyboard symbolic at every look. Any "
     "soft switch byte except $C00x, $C01x, $C03x and $C09x. Waiting loops: three rounds, after which the state repeats "
     "(claimed).", ["no wait", "waited", "paused"])
padd("P04", player_s.p04_configs, "From the entry point with arbitrary registers, 0 to 7 refused connections, socket "
     "status, received sizes and keyboard symbolic at every read; header and first opcode symbolic. Waiting loops: three "
     "rounds, after which the state repeats. The ROM's screen clearing routines are stand-ins that clear the bank selected "
     "by the soft switches and leave arbitrary registers; 6000 instructions.",
     ["gave up", "waited", "HGR", "DHGR", "played", "not opened"])
padd("P05", player_s.p05_configs, INV + "From the wait before the first frame (after the header) and before any later "
     "frame (all four buffer positions, any read pointer). Received size and keyboard symbolic at every look. Waiting loops: "
     "three rounds, after which the state repeats.", ["waits", "starts", "paused", "paused and resumed"])
padd("P06", player_s.p06_configs, "All 1027 addresses that the transcoder's opcodes start with (read by running the "
     "transcoder's own code on the checked-in debug file), each executed in the player built from source. " + INV,
     ["reached"])
padd("P07", player_s.p07_configs, INV + "Keyboard symbolic at every look; a key pressed before the end or not. The reset "
     "handler is entered with arbitrary registers, arbitrary screen memory (which overlays the start-up code) and arbitrary "
     "self-modified bytes, stack pointer $F3.", ["waits", "quits", "reset"])

THREADS = ("threads of the code under test run one at a time and change over at operations on queues, threads, events and "
           "locks; files, the converter, the video reader and images are stand-ins (contents partly symbolic: 14 of 8192 bytes)")
add("T01", tools_s.t01_configs,
    "Videos of 0 to 3 frames (and 14), any schedule of the first 5 points at which worker and consumer can change over "
    "(thorough: 10). A second run with any subset of the converted files gone (3 frames HGR, 2 DHGR; thorough 3). A run for "
    "one name, mode and palette after a run for another: all pairs of modes and palettes, 10 file names. Both modes and "
    "palettes.", [THREADS], ["reached", "some files vanished"])
add("N03", tools_s.n03_configs,
    "Any one external operation (reading, resizing, saving, converting, checking, removing, loading a file) fails with one of "
    "three exceptions; the converter fails or leaves a short file for any one frame; 1 and 3 frames (thorough: 0 to 3), 12 "
    "frames; with cached files; any schedule of the first 3 change-over points (thorough: 6). Consumers that stop after 1 to 3 "
    "of up to 25 frames.", [THREADS], ["a failure"])

add("T02", tools_s.t02_configs,
    "Files of 0 to 6 bytes (thorough: 0 to 16) with any contents and of 255 to 65537 bytes (thorough: 140000) with 13 symbolic "
    "bytes; two or three clients one after the other, the first of which may go away after 0, 3 or 500 bytes. A socket's "
    "send() may take 1, 2 or all bytes.",
    ["socketserver and the file system are stand-ins; clients are served one after the other"], ["reached"])
add("T03", tools_s.t03_configs,
    "Streams of 0 to 9 bytes (and 5000; thorough: 140000) with any contents; any integer option values (size limit up to "
    "2^20 MB); all modes and palettes; 16 input names, 3 output names.",
    ["Movie is a stand-in that records its arguments and yields the given bytes"], ["reached"])

PY65 = "py65's ObservableMemory is modelled by scen/sim_s.py (counterexamples are replayed on py65 itself)"
add("M01", sim_s.m01_configs,
    "Any previous pointer (15 bits), any halves written in the orders H L, L H, H, L, H L H, L H L and none; two data accesses, "
    "each a read or write, from any address of the buffers (0x4000..0x7ffd) with arbitrary chip memory, then a third; "
    "wrap-around at 0x7fff. High bytes above 0x7f, which address nothing in the chip, are outside the bound.", [PY65], ["reached"])
add("M02", sim_s.m02_configs,
    "Any state of the switch and of a neighbour; any access (36 addresses, read or write, any value) followed by an access to "
    "the switch's own addresses (thorough: two). A switch of its own next to another with each access mode: any 2 accesses "
    "(thorough: 3).", [PY65], ["reached"])
add("M03", sim_s.m03_configs,
    "Any address, value and memory contents: one write or read of the simulated Apple II (except 0x4000..0x5fff for writes) and "
    "of a memory map of five regions; any pair of program counters under that map and into the ROM; registers "
    "missing from the network chip.", [PY65],
    ["read-only memory", "written", "undefined", "trapped", "entered", "returned"])

add("M04", sim_s.m04_configs,
    "Any register of the chip's register blocks, any value and any chip memory; any socket command from any chip memory (any history), and sequences of two (thorough: three) of eleven commands; "
    "any value of the mode registers.", [PY65], ["reached", "opened", "connected"])
add("M05", sim_s.m05_configs,
    "Any 2 to 4 (thorough: 5) program counters in ordinary memory ($0800..$1FFF, $6000..$BFFF) and the ROM, any memory contents; "
    "fixed loops of 2 to 7 instructions run for up to 90000 (thorough: 1.2 million) instructions and then going anywhere.",
    [PY65, "the processor is a stand-in that moves through the given program counters"], ["stopped", "trapped", "ran"])

add("M06", sim_s.m06_configs,
    "Any contents of the ROM image (32K) and of the program (1, 4096 or 16383 bytes; thorough: 8 lengths), any address, any value stored "
    "there afterwards; any stream of 5 bytes; the program cannot be extracted (three exit codes).",
    [PY65, "files and the extraction command are stand-ins"], ["reached", "refused"])

add("X01", whole_s.x01_configs,
    "Six runs of the whole transcoder from the command line to the file, 80 to 2500 ticks, 1 to 5 frames with content at 12 "
    "places of the screen: one byte of one frame or one 16-bit audio sample of each run is symbolic (any value), the rest is "
    "fixed. Both modes, palettes NTSC and IIGS with tables of different weights, 4 audio rates, 6 frame rates among them 29.97, "
    "every 1st to 3rd frame, automatic and explicit normalization, one size limit (thorough: more runs).",
    [THREADS, FAKES], ["reached", "shown"])

padd("X02", duet_s.x02_configs,
    "Streams of 291 to 1300 (thorough: 12000) ticks made by the real stream emitter, received through the chip's 8K buffer as it "
    "wraps and with polls that first report too little: every content byte and the offsets of seven ticks (the first, around the "
    "first frame boundary, the last) are symbolic; the sequence of duty cycles, pages and other offsets is fixed. Both modes.",
    ["reached"])

# properties without a check, and why
NOT_APPLICABLE = {
    "N01": "the conversion is done by an external binary (bmp2dhr) that is not part of the repository, so there is "
           "no code to encode",
    "N02": "colormath's CIE2000 formula (floating-point trigonometry in a third-party library) is outside what an "
           "SMT solver decides; C11 checks that its result is used for the right colours",
}
