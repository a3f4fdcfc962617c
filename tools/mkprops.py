"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        }})


PL = ["player/main.s"]
SC = ["transcoder/screen.py"]
VI = ["transcoder/video.py"]
MO = ["transcoder/movie.py"]
OP = ["transcoder/opcodes.py"]

# ------------------------------------------------------------------ 6502 player
p("P01", "Player tick opcodes take 73 cycles and toggle the speaker twice, N apart",
  "Every audio/video opcode of the 6502 player takes exactly 73 CPU cycles from its entry to the entry of the next opcode and toggles the speaker exactly twice, at the same offset from entry in every opcode and a second time N cycles later, where N is the duty cycle in the opcode's name (documented exceptions: 22 has 21 cycles and 40 has 39). It leaves X=0 for the next opcode. This holds whatever bytes the stream contains, so the audio pitch never depends on video data.",
  ["inputs", "programs"], "all 1024 opcodes (32 duty cycles x 32 pages); every content byte, offset bytes and next-opcode address; any A, Y and flags on entry",
  "No test runs the player at all: the 6502 code is only assembled by hand and timings are comments. Page-crossing penalties and self-modified operands depend on code placement and on stream bytes.",
  PL, [("op_tick_* macros and shared tails", "player/main.s: op_tick_4..op_tick_66")],
  [("X", "must be 0 between opcodes", "6502 X register")], ["accesses to $C030", "cycle counter"])
p("P02", "Player tick opcodes store the content byte at the four offsets and dispatch",
  "A tick opcode for page P consumes exactly seven stream bytes (content, four offsets, next-opcode address high byte then low byte), stores the content byte at address P*256+offset for each offset in stream order, and then jumps to the given address. It changes no other memory that the player or the display reads (only its own jump operand and the documented dummy locations).",
  ["inputs", "programs"], "all 1024 opcodes; every content byte, every four offsets, every next address; any A, Y, flags on entry",
  "No test executes the player; each opcode reorders the loads and stores differently and shares instruction tails with others, so one wrong operand affects one duty cycle and page only.",
  PL, [("op_tick_* macros and shared tails", "player/main.s")], (), ["memory writes", "reads of the W5100 data port", "PC after the final JMP"])
p("P03", "Player ACK handling releases exactly one 2K frame and keeps time",
  "When the player reaches the ACK opcode at the end of a 2K frame it consumes the remaining two bytes, touches the soft switch $C0xx named by the first of them, advances the network chip's receive read pointer by exactly 2048 (modulo 64K), issues one RECV command, and resumes reading at the byte after the frame (wrapping at the end of the 8K receive buffer) with X=0. When data is already available and no key is pressed the path up to the next opcode lasts a whole multiple of 73 cycles, and the speaker keeps toggling on it with the 34-cycle duty cycle of a silent sample.",
  ["inputs", "histories"], "every receive pointer value at a frame boundary (so any number of frames already played), every buffer position of the frame, every soft switch byte, every next-opcode address",
  "No test executes the player; the pointer wrap only happens after 8K / 64K of stream and needs network hardware.",
  PL, [("op_ack, checkrecv, recv, op_nop", "player/main.s")],
  [("Y", "high byte of the chip address pointer while waiting", "6502 Y register")], ["W5100 registers", "accesses to $C030 and $C0xx"])
p("P04", "Player start-up configures the network chip and the display mode",
  "On start the player resets the network chip, programs MAC and IP address, 8K buffers, TCP mode, ports and server address, opens and connects socket 0, retries a bounded number of times when the connection is refused, and then reads the 7-byte header. It clears the main screen (and the auxiliary screen in DHGR mode) before showing graphics, enables double hi-res exactly when the header's mode byte is nonzero, and the first opcode address is taken from stream bytes 7 and 8 after at least 2K has arrived.",
  ["inputs", "fault_sequences"], "every header content and mode byte; every sequence of socket status values up to the retry bound; every sequence of received-size values within the polling bound",
  "No test executes the player; connection failures and partial receives cannot be produced by the test suite.",
  PL, [("bootstrap .. _op_header_hgr", "player/main.s")], (), ["W5100 register writes", "soft switch accesses"])
p("P05", "Player starts a frame only when at least 2K is buffered; a key pauses it",
  "Between frames the player starts decoding the next frame if and only if the network chip reports at least 2048 received bytes, and it keeps polling (touching neither the screen nor the receive pointer) otherwise. A key press pauses between frames until a second key press and then playback resumes at the same stream position.",
  ["inputs", "schedules"], "every sequence of received-size register values and keyboard states within the polling bound; every saved buffer position",
  "No test executes the player; slow networks and key presses at the wrong moment are schedules a unit test does not produce.",
  PL, [("checkrecv, recv", "player/main.s")], (), ["reads of the received size register", "dispatch to an opcode"])
p("P06", "Transcoder opcode addresses are the entry points in the built player",
  "For every opcode the transcoder can emit, the two address bytes it writes are the address of the player routine for that duty cycle and page (or ACK / TERMINATE / NOP) in a player assembled from the current source and loaded at its link address. All addresses are distinct and none lies in memory that is overwritten by screen data.",
  ["programs", "configurations"], "all 1024 tick opcodes plus ACK, TERMINATE and NOP; the player rebuilt from the current source",
  "The tests compare classes and counts, never the debug file against assembled code; nothing runs the code at those addresses.",
  PL + OP + ["player/iivision.dbg", "transcoder/symbol_table.py"], [("_fill_opcode_addresses", "transcoder/opcodes.py"), ("checked-in debug file", "player/iivision.dbg")], (), ["address bytes in the stream"])
p("P07", "Player stops cleanly at the end of the stream",
  "At the TERMINATE opcode the player waits for a key press, clears the keyboard strobe, and quits to ProDOS with a well-formed QUIT call, without touching screen memory, the speaker or the network stream while it waits. The same exit routine is installed as reset handler so that a reset during playback also quits.",
  ["inputs", "schedules"], "every sequence of keyboard states within the polling bound; any register contents",
  "No test executes the player.",
  PL, [("op_terminate, exit", "player/main.s")], (), ["ProDOS MLI call parameters", "memory writes"])

# ------------------------------------------------------------------ stream
p("S01", "Every ACK ends a 2048-byte frame and opcodes never straddle frames",
  "In the emitted byte stream the header and every tick opcode take exactly seven bytes, an ACK takes the last four bytes of each 2048-byte frame and appears nowhere else, and no opcode straddles a frame boundary. This holds for every sequence of opcodes of any length, so the player's fixed 2K accounting is always right.",
  ["histories", "inputs"], "every stream position reachable at an opcode boundary (inductively: every frame number and every residue), every opcode contents, both video modes",
  "There is no test of stream emission; a framing error shows only after the first 2048 bytes and depends on accumulated position.",
  MO + OP + ["transcoder/machine.py"], [("emit_stream", "transcoder/movie.py"), ("Machine.emit", "transcoder/machine.py")],
  [("stream_pos", "bytes emitted so far", "transcoder/movie.py")], ["emitted bytes"])
p("S02", "Opcode bytes round-trip: address high, low, then content and four offsets",
  "The bytes of a tick opcode are the high and low byte of the player routine for its duty cycle and page, the content byte and its four offsets in order; ACK is its address followed by the low byte of the bank soft switch ($55 aux, $54 main) and a filler; TERMINATE is only its address; the header is six filler bytes and the video mode. Decoding these bytes recovers the same opcode, every emitted value is a byte, and an opcode with a number of offsets other than four is rejected.",
  ["inputs"], "every duty cycle, page, content byte and offsets; any routine addresses; offset lists of length 0 to 8",
  "Tests check equality and one header; they do not decode emitted bytes, nor try all duty/page combinations.",
  OP + ["transcoder/machine.py"], [("emit_command/emit_data", "transcoder/opcodes.py")], (), ["Machine.emit output"])
p("S03", "Bank steering: stores always go to the memory bank they were computed for",
  "In DHGR mode each ACK flips between auxiliary and main memory and names the bank that is then active, starting from main memory; in HGR mode every ACK selects main memory. Every tick opcode is computed for the bank that is active at its position in the stream, including the first opcode after an ACK and after a new video frame arrives.",
  ["histories", "schedules"], "every interleaving of frame boundaries, new video frames and opcodes within the bound on stream length; both modes",
  "No test drives the encoder and the byte emitter together; the two generators interleave lazily and share state.",
  MO + VI, [("aux_memory_bank flip in emit_stream; restart of op_seq in encode", "transcoder/movie.py")],
  [("aux_memory_bank", "currently selected bank", "transcoder/movie.py")], ["ACK payload", "is_aux passed to the encoder"])
p("S04", "Each audio sample becomes exactly one tick opcode with the matching duty cycle",
  "While video frames remain, each audio sample s in -15..16 produces exactly one tick opcode, in order, whose duty cycle is 34+2s cycles and whose page, content and offsets are the encoder's next store. Video content and frame changes never drop, repeat, reorder or alter an audio sample.",
  ["inputs", "histories"], "every sample value, every encoder output, every pattern of new frames within the bound on stream length",
  "No test drives Movie.encode.",
  MO, [("encode", "transcoder/movie.py")], (), ["opcodes yielded by the encoder"])
p("S05", "The frame clock keeps video in step with audio without drift",
  "A new video frame is requested at the first audio tick at or after its due time k*(audio rate / frame rate), at most one per tick, so that after any number of ticks the number of frames requested is exactly the number due. Only every n-th requested frame (starting with the first) is encoded when frame skipping is set to n, skipped frames are still consumed, and the stream ends when frames run out.",
  ["inputs", "histories"], "every audio rate and frame rate with at least one tick per frame; every number of ticks within the bound plus one inductive step from any frame number; n from 1 to 4",
  "Tests check three ticks at one frame rate; drift shows only over long histories and for non-integral ratios.",
  VI + MO, [("Video.tick", "transcoder/video.py"), ("encode", "transcoder/movie.py")],
  [("frame_number", "frames requested", "transcoder/video.py")], ["result of tick", "frames consumed"])
p("S06", "Audio samples are normalised, quantised and clipped to -15..16 faithfully",
  "Each resampled sample is scaled by the normalisation factor and truncated towards zero to a step in -15..16: the result is monotone in the sample, zero maps to zero, and out-of-range input clips instead of wrapping. Automatic normalisation scales the louder of the 0.5 and 99.5 percentiles to full scale, silence stays silent, an explicit factor is used as given, and interleaved channels are separated correctly before mixing, however the decoder cuts its output into blocks.",
  ["inputs"], "every float32 sample value (finite) and every positive finite normalisation factor; every pair of percentiles; channel counts 1 to 6, every cut into blocks within the bound",
  "There is no test of the audio module; clipping, overflow and silent input are boundary inputs.",
  ["transcoder/audio.py"], [("audio_stream, _normalization, _decode", "transcoder/audio.py")], (), ["values yielded by audio_stream"])
p("S07", "The stream terminates once, is padded to 2K and respects the size limit",
  "A finished stream ends with exactly one TERMINATE opcode followed by zero padding to a multiple of 2048 bytes, whether input ran out or the size limit was reached. With a size limit no opcode is emitted once the limit has been reached, so the stream is at most the limit plus one opcode rounded up to the next 2K boundary; without a limit all opcodes are emitted.",
  ["inputs", "histories"], "every stream position at an opcode boundary, every size limit, every number of remaining opcodes within the bound",
  "There is no test of stream emission.",
  MO, [("emit_stream, done", "transcoder/movie.py")], (), ["emitted bytes"])
p("S08", "Opcode addresses are taken from the player's symbols for any layout",
  "Whatever addresses the assembler's debug file assigns to the player's routines, each opcode is bound to the address of the routine of that exact name (duty cycle and page), other symbols are ignored, and a missing routine is reported as an error rather than silently emitted.",
  ["inputs", "configurations"], "every assignment of nonzero 16-bit addresses to the routines; any one missing routine; line order reversed or as assembled",
  "Tests parse one three-symbol example.",
  OP + ["transcoder/symbol_table.py"], [("SymbolTable.parse", "transcoder/symbol_table.py"), ("_parse_symbol_table, _fill_opcode_addresses", "transcoder/opcodes.py")], (), ["opcode start addresses"])

# ------------------------------------------------------------------ screen
p("C01", "Screen coordinates and memory addresses correspond one to one",
  "The map from scanline and byte column to (page, offset) follows the Apple II hi-res layout, is inverted exactly by the reverse tables for both screen pages, and the locations not hit by any of the 192x40 visible bytes are exactly those marked as screen holes (512 per 8K page).",
  ["inputs"], "every scanline 0..191, every column 0..39, both screen pages, every (page, offset)",
  "Tests check a few addresses; a swapped bit field affects only part of the screen.",
  SC, [("y_to_base_addr, _populate_mappings", "transcoder/screen.py")], (), ["lookup tables"])
p("C02", "Flat and paged memory maps are faithful views of the same 8K",
  "Converting between the flat 8K and the page/offset representation preserves every byte at its address, a write changes exactly the addressed byte in either representation, and flat addresses outside the screen page or wrongly shaped data are rejected.",
  ["inputs"], "every memory content, every address 0..65535, every byte value, both screen pages",
  "Tests cover a handful of addresses.",
  SC, [("FlatMemoryMap, MemoryMap", "transcoder/screen.py")], (), ["page_offset / data arrays"])
p("C03", "Packing puts every screen byte's dots at their place in the packed form",
  "The packed form of a screen contains, for every column group, all dot bits of its bytes in display order (and the palette bits in HGR), together with the edge bits of the neighbouring groups of the same 256-byte page; groups at the ends of a page have empty edges. No memory bit is lost, duplicated or moved for any screen content.",
  ["inputs"], "every content of all 8192 (HGR) or 16384 (DHGR) bytes",
  "Tests pack a few hand-made bytes.",
  SC, [("_pack, _body, _make_header, _make_footer", "transcoder/screen.py")], [("packed", "packed representation of the screen", "transcoder/screen.py")], ["packed array"])
p("C04", "Applying a store incrementally equals repacking the changed memory",
  "After any store of any byte value at any offset of any page in either bank, the incrementally updated packed screen equals the packed form computed from scratch from the updated memory, and exactly that memory byte changed. By induction this holds after any history of stores.",
  ["inputs", "histories"], "every prior screen content, every byte value, every (page, offset) within the tier's page list, main and auxiliary banks, both modes",
  "Tests apply a few stores at the left edge of page 0 to an empty screen.",
  SC, [("apply, masked_update, _fix_scalar_neighbours", "transcoder/screen.py")], [("packed", "packed representation of the screen", "transcoder/screen.py")], ["packed array", "memory map"])
p("C05", "The per-byte window of the packed form yields the dots the hardware displays",
  "For every byte position, the window extracted from the packed form is determined by that byte and its neighbours on the scanline, and the dots derived from it equal the dots the Apple II video hardware displays at those positions (HGR: each data bit doubled, delayed by one dot when the palette bit is set, with the last dot of a byte extended when the next byte is delayed; DHGR: seven bits of aux then main memory).",
  ["inputs"], "every content of the neighbouring bytes on the scanline, every interior byte column, all byte positions of both modes",
  "Tests check selected dot patterns by hand.",
  SC, [("mask_and_shift_data, to_dots, BYTE_MASKS, BYTE_SHIFTS", "transcoder/screen.py")], (), ["to_dots"])
p("C06", "Pixel colours follow the NTSC phase of their absolute screen position",
  "The colour pixels computed for a byte window equal those obtained by sliding a 4-bit window over the full scanline's dots with the colour phase given by the absolute dot position, so that the same dot pattern gets the same colour from whichever byte's window it is computed.",
  ["inputs"], "every content of the neighbouring bytes on the scanline, every byte position of both modes, every interior column",
  "Tests check fixed colours for few bytes; an off-by-one phase for one byte offset is invisible in them.",
  SC + ["transcoder/colours.py", "transcoder/make_data_tables.py"], [("PHASES, MASKED_DOTS", "transcoder/screen.py"), ("dots_to_nominal_colour_pixels", "transcoder/colours.py")], (), ["dots_to_nominal_colour_pixel_values"])
p("C07", "A byte's window covers everything its store can change on screen",
  "Changing one screen byte changes no displayed dot outside that byte's window and no pixel colour outside the colours evaluated for the window, and any change of any byte bit that is visible shows inside the window. The error estimate for a store therefore never misses part of its visible effect.",
  ["inputs"], "every old and new byte value, every content of the neighbouring bytes, every byte position of both modes, every interior column",
  "No test addresses this.",
  SC, [("MASKED_BITS, MASKED_DOTS, BYTE_MASKS", "transcoder/screen.py")], (), ["dots and colours of neighbouring windows"])
p("C08", "Difference weights look up the distance of the right windows",
  "For every screen offset of every page and bank the difference weight is the table distance between the source window and the target window of that byte, and the estimated gain of storing a content byte at an offset is the distance of the target window with that byte replaced, minus the current weight. The three places that compute such distances agree with each other for any symmetric table.",
  ["inputs"], "every source and target screen content (all bytes symbolic), every content byte, every offset; any symmetric table with zero diagonal",
  "Tests evaluate single bytes with the real tables.",
  SC, [("_diff_weights, _diff_weights_page, compute_delta_page, byte_pair_difference", "transcoder/screen.py")], (), ["diff weights"])
p("C09", "The loaded distance table is symmetric with zero diagonal and the right file",
  "The distance table used by the encoder is loaded from the file that the table generator writes for that mode and palette; entry (a,b) equals entry (b,a), equals the stored triangular entry for every pair, and is zero for a=b.",
  ["inputs", "configurations"], "every stored table content at reduced window widths (2 to 4 bits), every pair; both modes, both palettes for the file name",
  "Tests look at a few entries.",
  SC + ["transcoder/make_data_tables.py"], [("edit_distances", "transcoder/screen.py"), ("make_edit_distance", "transcoder/make_data_tables.py")], (), ["edit_distances"])
p("C10", "The table generator stores each distance under the pair it belongs to",
  "For every byte position and every pair of window values i>j the generated entry is the edit distance between the pixel colour strings of i and j at that byte position's phase, stored at the index formed from i and j, and no other entry is nonzero.",
  ["inputs"], "every dot pattern per window value and every distance function at reduced window widths; all byte positions",
  "Tests call it on a trivial case only; the full run takes many minutes.",
  ["transcoder/make_data_tables.py"], [("compute_edit_distance", "transcoder/make_data_tables.py")], (), ["edit distance array"])
p("C11", "Substitution costs compare the colours the pixel characters stand for",
  "When the generator weighs replacing one pixel character by another, the cost is the perceptual difference between the palette colours that these characters denote in the mode being generated, is symmetric, and is zero for equal characters; the edit distance gets these costs and forbids insertions and deletions.",
  ["inputs", "configurations"], "every pair of pixel values; both palettes; both modes; any symmetric perceptual difference function",
  "Tests check a handful of costs.",
  ["transcoder/make_data_tables.py", "transcoder/palette.py", "transcoder/colours.py"], [("compute_diff_matrix, compute_substitute_costs, edit_distance", "transcoder/make_data_tables.py")], (), ["costs passed to the edit distance"])
p("C12", "Nominal colours are rotations of one colour wheel for HGR and DHGR",
  "Rotating a 4-bit colour right undoes rotating it left by the same amount for any amount, four rotations are the identity, the DHGR value of every named colour is its HGR value rotated by one dot, each mode names all sixteen values exactly once, and the colour sequence for dots is the same for any split of the sequence with the phase carried over.",
  ["inputs"], "every 4-bit value, rotation counts 0 to 8, every 24-bit dot string, phases 0 to 3, every split point",
  "Tests check some values.",
  ["transcoder/colours.py"], [("rol, ror, dots_to_nominal_colour_pixels", "transcoder/colours.py")], (), ["colour sequences"])

# ------------------------------------------------------------------ encoder
p("E01", "The encoder only emits valid stores to visible screen bytes",
  "Every store the encoder emits has a page in 32..63, a content byte 0..255 (below 128 in DHGR) that is the target's value at the first offset, exactly four offsets in 0..255, and none of the offsets is a screen hole. It holds for every pair of current and target screens and for padding once there is nothing left to do.",
  ["inputs", "histories"], "every content of the symbolic window of screen bytes (rest of the screen equal), windows at row starts and ends, hole and page boundaries, both modes and banks; any distance table with zero diagonal",
  "Tests encode a single frame of one byte.",
  VI, [("_index_changes", "transcoder/video.py")], (), ["tuples yielded by encode_frame"])
p("E02", "The encoder's picture of the screen equals what the player displays",
  "After any number of emitted stores, the encoder's own memory map and packed form of each bank equal the memory that results from executing those stores on the Apple II. This includes padding stores emitted when there is nothing left to change, and frames abandoned part-way.",
  ["inputs", "histories"], "every content of the symbolic window of screen bytes, every prefix of the store sequence including padding, both modes and banks; any distance table with zero diagonal",
  "No test executes emitted stores against a screen; differences only arise for visually equivalent bytes or mid-frame.",
  VI + SC, [("_index_changes, apply", "transcoder/video.py")], [("pixelmap / memory_map", "encoder's model of the player's screen", "transcoder/video.py")], ["memory map vs. executed stores"])
p("E03", "Encoding converges to the target frame and leaves matching bytes alone",
  "If nothing interrupts it, encoding a frame finishes after at most one store operation per visible byte whose window (the byte with the neighbouring bits the packed form shows next to it) differs from the target, and afterwards every visible byte of the bank equals the target wherever the distance table tells the two apart. A byte whose window already matches the target is never changed, and the first store of a frame goes to the byte with the highest pending priority and writes its exact target value.",
  ["inputs"], "every content of the symbolic window of screen bytes (rest equal), both modes and banks; any distance table that separates different windows; any tie-breaking randomness",
  "Tests encode a single byte; convergence depends on interaction of secondary stores.",
  VI, [("_index_changes, _compute_error", "transcoder/video.py")], [("update_priority", "pending error per byte", "transcoder/video.py")], ["memory map when out of work"])
p("E04", "Pending errors accumulate across frames and are cleared when resolved",
  "At the start of encoding a frame, each visible byte's pending priority becomes zero if the byte's window already matches the new target and otherwise its previous priority plus its current error; screen holes never have a priority. Emitting a byte exactly clears its priority, and a secondary store leaves exactly the residual error of that store.",
  ["inputs", "histories"], "every prior priority and content of the symbolic window (rest of the screen equal), both modes and banks; any distance table with zero diagonal",
  "Tests look at the priority of one byte over one frame.",
  VI, [("_index_changes", "transcoder/video.py")], [("update_priority", "pending error per byte", "transcoder/video.py")], ["update_priority"])
p("E05", "Secondary stores only go where the content byte reduces the error",
  "Besides the byte it resolves, each store writes up to three additional offsets, chosen among visible offsets of the same page that are still pending and at which storing the content byte makes the error strictly smaller than it was at the start of the frame, greatest reduction first, without duplicates; remaining slots repeat the first offset, and slots stay unused only when no further offset gains. No additional store makes the picture at that byte worse than it was at the start of the frame.",
  ["inputs"], "every content of the symbolic window of screen bytes, both modes and banks; any distance table with zero diagonal; any tie-breaking randomness",
  "Tests do not exercise error estimation over arbitrary pictures.",
  VI + SC, [("_compute_error", "transcoder/video.py"), ("compute_delta_page", "transcoder/screen.py")], (), ["offsets yielded by encode_frame"])

# ------------------------------------------------------------------ tools
p("T01", "Frames reach the encoder in order, paired and from the right files",
  "Frame i delivered to the encoder is the conversion of input frame i for the requested mode and palette, main and auxiliary data always belong to the same frame, frames arrive in input order and none is lost or duplicated. Cached conversions are reused only for the same input name (without suffix), mode, palette and frame number, and missing ones are produced by the converter with the right mode and palette arguments.",
  ["inputs", "configurations"], "every combination of cached and missing files for up to 3 frames, every content of the converted files, both modes, both palettes",
  "Tests check the directory name only.",
  ["transcoder/frame_grabber.py"], [("FileFrameGrabber.frames", "transcoder/frame_grabber.py")], (), ["frames yielded", "files and commands used"])
p("T02", "The server sends each client exactly the bytes of the video file",
  "Each client that connects receives exactly the content of the served file from its first to its last byte, independently of other clients. The server listens on the given port and can be started again while connections of an earlier run linger.",
  ["inputs"], "every file content up to the bound on length; one and two clients",
  "There is no test of the server.",
  ["server/server.py"], [("ChunkHandler.handle", "server/server.py")], (), ["bytes passed to the socket"])
p("T03", "The command line writes exactly the encoded stream with the chosen options",
  "The transcoder passes each option to the encoder unchanged (size limit in megabytes converted to bytes, mode and palette by name) and writes exactly the emitted byte stream to the chosen output file, by default the input name with its suffix replaced by .a2m. Options that are left out take their documented defaults (DHGR, NTSC palette, 14700 Hz, every second frame, no size limit, automatic normalisation).",
  ["inputs", "configurations"], "every emitted byte sequence up to the bound on length; every integer option value; all modes and palettes; a representative set of file names",
  "There is no test of the entry point.",
  ["transcoder/main.py"], [("main", "transcoder/main.py")], (), ["output file", "Movie arguments"])

# ------------------------------------------------------------------ simulator
p("M01", "Simulated network chip addresses its memory through the pointer registers",
  "Writing the address registers of the simulated network chip through the Apple II bus sets exactly the high or low half of its 15-bit address pointer and leaves the other half unchanged, in either order and for every previous value. A data port access then reads or writes exactly the addressed byte and advances the pointer by one, wrapping in the 32K address space.",
  ["inputs", "histories"], "every previous pointer, every high byte of the 32K address space (0..0x7f) and low byte in either order, every data byte, every buffer address",
  "There is no test of the simulator.",
  ["simulator/apple2.py", "simulator/uthernet.py", "simulator/machine.py"], [("_uther_wadrh, _uther_wadrl", "simulator/apple2.py"), ("read_data, write_data", "simulator/uthernet.py")], [("ptr", "address pointer", "simulator/uthernet.py")], ["simulator memory through $C095-$C097"])
p("M02", "Simulated soft switches report the state they were last set to",
  "After any sequence of accesses to a soft switch's on and off addresses, reading its status address returns bit 7 set if and only if the last effective access switched it on; accesses in a mode the switch does not support are trapped, and switches do not affect each other.",
  ["histories", "inputs"], "every sequence of up to 3 accesses (read or write, any value) to the switch addresses",
  "There is no test of the simulator.",
  ["simulator/machine.py", "simulator/apple2.py"], [("SoftSwitch", "simulator/machine.py")], (), ["reads of the status addresses"])
p("M03", "Simulator traps forbidden memory and I/O accesses and changes nothing else",
  "Writing to a write-protected region or touching an undefined I/O address raises a trap that names the address and tells a write from a read, for every address and value, and every other write changes exactly the addressed byte. Entering a memory region other than through a return instruction or a declared entry point is trapped.",
  ["inputs"], "every address, every value, both access directions; every previous and new program counter",
  "There is no test of the simulator.",
  ["simulator/memory.py", "simulator/machine.py", "simulator/apple2.py"], [("RegisterRegion, DenyWritesToRegion, MaybeInterceptExecution", "simulator/memory.py"), ("io_interceptor", "simulator/machine.py")], (), ["memory accesses"])

p("X01", "A transcoded file plays back the input as chosen on the command line",
  "Running the transcoder on a video writes a file whose decoded stream has the header of the chosen display mode and one tick per audio sample, resampled to the chosen rate and scaled by the chosen (or detected) normalisation, until frames run out or the size limit is reached. Executing its stores on a black Apple II screen, each in the bank that the last ACK selected, shows the input frames converted for the chosen mode and palette, in order, each n-th one from the audio tick at which it is due, and once a frame has had time to converge the bank shows exactly that frame. Errors are weighed with the distance table of the chosen mode and palette.",
  ["configurations", "inputs", "histories"], "every value of the symbolic audio sample and screen byte of each scenario; both modes, two palettes, several rates, frame rates, normalisations, frame skips and size limits",
  "No test runs the transcoder as a whole; an option that gets lost between the parts, or parts that disagree about frames, banks or time, break no unit test.",
  ["transcoder/main.py", "transcoder/movie.py", "transcoder/video.py", "transcoder/frame_grabber.py", "transcoder/audio.py", "transcoder/screen.py", "transcoder/opcodes.py"],
  [("main", "transcoder/main.py"), ("Movie.__init__, encode, emit_stream", "transcoder/movie.py")], (), ["bytes of the output file", "conversions and audio requested"])

p("X02", "The player plays exactly the stream that the transcoder emits",
  "The assembled player, fed the bytes that the transcoder emits, executes its opcodes in order: each tick stores its content byte at exactly its offsets of its page, in the memory bank it was computed for, and sounds its duty cycle within its 73 cycles; each ACK keeps the bank and the receive buffer in step; and playback ends at TERMINATE. Across 2K frames, wraps of the 8K receive buffer and waits for more data, only bytes already received are read, none is skipped and none is read twice.",
  ["histories", "inputs", "schedules"], "every content byte and the offsets of the selected ticks of each stream; several patterns of arriving data; both modes",
  "No test executes the player; encoder and player agree only by convention (routine names, frame size, bank payload, address order).",
  ["player/main.s", "transcoder/movie.py", "transcoder/opcodes.py", "transcoder/machine.py", "transcoder/symbol_table.py"],
  [("op_tick_*, op_ack, op_terminate", "player/main.s"), ("emit_stream", "transcoder/movie.py"), ("TICK_OPCODES", "transcoder/opcodes.py")], (), ["screen memory", "speaker", "display switches", "reads of the receive buffer"])

p("M04", "Simulated network chip registers and commands act as the player expects",
  "A configuration register of the simulated network chip returns the value last written to it. The OPEN command puts the socket into status INIT ($13) and CONNECT into ESTABLISHED ($17), and any other command leaves the status as it was. Registers and modes the simulation lacks are rejected with an error instead of being silently accepted, and no access changes any byte of the chip other than the one it addresses and the status its command sets.",
  ["inputs", "histories"], "every simulated register, every value, every prior content of the chip's memory; every sequence of commands within the bound",
  "There is no test of the simulator.",
  ["simulator/uthernet.py"], [("write_data, read_data, _command handlers, region tables", "simulator/uthernet.py")], [("memory", "chip memory", "simulator/uthernet.py")], ["chip memory", "socket status register"])
p("M05", "Simulator runs a program in order until it jumps to itself or is trapped",
  "The simulator executes one instruction after another from the given start address and stops when an instruction jumps to itself. Entering protected memory other than at a declared routine or by a return instruction stops the run with a trap before the instruction there executes, and no instruction is executed twice or skipped on the way.",
  ["histories", "inputs"], "every sequence of program counters up to the bound, every memory content",
  "There is no test of the simulator.",
  ["simulator/machine.py", "simulator/memory.py", "simulator/apple2.py"], [("Run", "simulator/apple2.py"), ("MaybeInterceptExecution", "simulator/memory.py")], (), ["instructions executed"])

p("M06", "Simulator starts the player with complete ROM and program images",
  "When the simulator starts the player, every byte of the main ROM area ($D000-$FFFF) and of the slot 6 ROM ($C600-$C6FF) holds the corresponding byte of the ROM image (offsets $5000-$7FFF and $0600-$06FF), every byte of the player program lies at its place from $8000 on, the text output vector points to the ROM's output routine, the network chip has the video stream, and the ROM is write-protected. Execution starts at the program's first byte. If the program cannot be extracted, nothing runs and the failure is reported.",
  ["inputs"], "every content of the ROM image, the program and the stream; every address",
  "There is no test of the simulator; a missing last byte of an image shows only when the program happens to use it.",
  ["simulator/simulator.py", "simulator/apple2.py", "simulator/memory.py"], [("main", "simulator/simulator.py"), ("AppleII.__init__", "simulator/apple2.py")], [("memory", "simulated memory", "simulator/memory.py")], ["memory when the run starts", "start address", "exit status"])

p("N03", "Transcoding never hangs when frame conversion fails or output ends early",
  "If decoding or converting a frame fails at any point, the frames delivered so far stay in order and transcoding ends with an error instead of waiting forever or silently producing a short video. A program that stops taking frames early, as at the size limit, is not kept alive by frames still being converted.",
  ["fault_sequences", "schedules"], "every failure point (reading frame i, writing, running or reading the conversion of frame i) for up to 3 frames, both modes; either order of worker and consumer",
  "Needs a failing converter and thread interleavings.",
  ["transcoder/frame_grabber.py"], [("worker thread and queue", "transcoder/frame_grabber.py")], (), ["result of iterating frames()"])

# ------------------------------------------------------------------ not claimed
p("N01", "Image conversion to (D)HGR is visually faithful",
  "The hi-res image produced for a frame is a faithful dithered rendition of the input frame in the chosen palette.",
  ["inputs"], "every input image",
  "The conversion is done by an external program that is not part of the repository.",
  ["transcoder/frame_grabber.py"], [("bmp2dhr subprocess", "transcoder/frame_grabber.py")])
p("N02", "Perceptual colour differences follow CIE2000",
  "Substitution costs reflect CIE2000 differences between palette colours.",
  ["inputs"], "all colour pairs",
  "Tests compare a few matrix entries.",
  ["transcoder/make_data_tables.py"], [("colormath delta_e_cie2000", "transcoder/make_data_tables.py")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
