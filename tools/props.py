# The properties and how each is decided; see tools/gen.py.

NOTES = ('Every check is a Go program under mc/ that links the packages of /repo, enumerates every behaviour within '
         'its stated bounds, executes each one on the real code, and compares it with an independent reference model; '
         'see DESIGN.md. No hooks are compiled into /repo.')

NOT_APPLICABLE = []

PROPS = []


def P(**kw):
    kw.setdefault('note', '')
    PROPS.append(kw)


REFT = 'explicit-state bounded model checking: exhaustive enumeration executed on the real code, compared with a reference model'

P(id='C01', title='SGR attribute differences are exact and round-trip',
  statement='For any two graphic renditions, the difference the library computes between them, when sent to a terminal that shows the first, makes it show exactly the second; it is empty only when nothing needs to be sent, and merging it in memory gives the same result. Every rendition and color the library can express is decoded back from its own encoding, and the reported encoded size never understates it.',
  over=['inputs'], forall='all ordered pairs of renditions: every flag combination times representative foreground and background colors of every kind (default, basic, bright, 256-color, 24-bit), with and without an explicit clear; all 256 palette colors and all single channel 24-bit colors',
  why='the tests look at a few dozen hand picked pairs; a mistake for one flag or color kind on one side of the pair goes unseen',
  files=['ansi/sgr.go'], mech=[('attribute difference and merge', 'ansi/sgr.go Diff, Merge'), ('SGR encoding', 'ansi/sgr.go AppendTo, Size')],
  observe=['bytes of the encoded difference', 'decoded attribute'],
  technique=REFT, note='Exhaustive over 5184 renditions squared (quick) with representatives of each color kind; the reference terminal SGR interpreter (mc/ref/sgr.go) is trusted.')

P(id='C02', title='SGR parameter decoding follows the terminal semantics',
  statement='Decoding the parameters of an SGR sequence yields the rendition a terminal would show after receiving it, whatever parameters are combined, repeated, empty, or unknown. Malformed parameters are reported as errors or ignored, never as a panic or as a different rendition.',
  over=['inputs'], forall='all parameter lists of up to 4 (thorough 5) entries over every known parameter, empty ones, and extended colors; all raw strings over digits, separator and junk up to length 6 (7)',
  why='the tests decode a handful of lists; interactions of resets, clears, colors and later parameters are combinatorial',
  files=['ansi/sgr.go', 'ansi/decode.go'], mech=[('SGR decoding', 'ansi/sgr.go DecodeSGR')], observe=['decoded attribute, byte count, error'],
  technique=REFT, note='Exhaustive within the bounds; trusts the reference interpreter of mc/ref/sgr.go.')

P(id='C03', title='Escape sequence decoding is total, lossless and prefix-stable',
  statement='Decoding any byte string neither panics nor stalls, and splits it into the runes and escape sequences (with identifiers and arguments) that the terminal control grammar defines. A complete sequence decodes to the same result however it is followed, and an incomplete one is never consumed, nor mistaken for a complete one.',
  over=['inputs'], forall='all strings up to length 5 (thorough 6) over 22 symbols covering every grammar class: ESC, introducers, parameters, intermediates, finals, string openers and terminators, C0, CAN, DEL, C1 runes, multi-byte and invalid UTF-8; and every cut of each',
  why='the tests list selected sequences; nested, cut, interrupted and malformed sequences are unbounded in number',
  files=['ansi/decode.go'], mech=[('sequence decoder', 'ansi/decode.go DecodeEscape')], observe=['decoded identifier, argument and length'],
  technique=REFT, note='Reference tokenizer mc/ref/escape.go is trusted. Control bytes embedded inside a control sequence argument are tolerated either way.')

P(id='C04', title='Escape sequences encode to bytes that decode back; derivations are values',
  statement='Every escape identifier, with every argument it can carry, encodes to bytes that decode to exactly that identifier and argument; appending never disturbs what is already in the buffer. Sequences derived from one another are independent values: deriving further ones never changes one built earlier, and their announced size is never too small.',
  over=['inputs', 'histories'], forall='all control, ESC and CSI identifiers with every argument shape; all histories of up to 4 (5) derivations from shared bases',
  why='the tests encode a few sequences once; aliasing shows only in particular derivation histories',
  files=['ansi/escape.go', 'ansi/decode.go', 'ansi/control.go'], mech=[('encoding', 'ansi/escape.go AppendTo, AppendWith'), ('sequence builder', 'ansi/escape.go Seq.With, WithInts, WithPoint')],
  observe=['encoded bytes', 'decode of the encoded bytes'], technique=REFT, note='Exhaustive over all 220 identifiers; derivation depth bounded.')

P(id='C05', title='Control parameters, modes and mouse reports decode exactly or fail',
  statement='Numeric parameters, points, modes, cardinals and mouse reports decode to exactly the value their text denotes, consuming exactly its bytes; text that denotes none yields an error, never a made-up value. Mode sets, and mouse reports of every button, modifier and position, survive encoding and decoding.',
  over=['inputs'], forall='all strings up to length 7 (8) over digits, signs, separators and junk; all values around the integer limits; all mouse button bytes and cut reports',
  why='the tests parse some well formed parameters; overflow, sign, separator and truncation cases are not sampled',
  files=['ansi/decode.go', 'ansi/modes.go', 'ansi/mouse.go'], mech=[('number decoding', 'ansi/decode.go DecodeNumber'), ('mouse decoding', 'ansi/mouse.go DecodeXtermExtendedMouse')],
  observe=['decoded value, byte count, error'], technique=REFT, note='Reference parser written from the format description.')

P(id='C06', title='Cell geometry agrees with sets of cells',
  statement='Points and rectangles of screen cells obey set semantics: containment, intersection, union, overlap, translation, inset, equality and conversion to and from 0-based image coordinates all agree with the set of cells covered. Only coordinates without a 1-based counterpart are rejected, and those always are.',
  over=['inputs'], forall='all rectangles, and all pairs of them, with corners on a grid of 5x5 (7x7) points including inverted and empty ones; all small points and offsets',
  why='the tests do not cover the geometry package; degenerate rectangles matter to every clipping decision',
  files=['ansi/geom.go'], mech=[('rectangle algebra', 'ansi/geom.go')], observe=['returned points and rectangles'],
  technique=REFT, note='Small-scope: all relations depend only on the order of coordinates, which the grid covers.')

P(id='C07', title='Color conversion finds the truly closest color and is idempotent',
  statement='Converting a color to a palette picks an entry no other entry is closer than; conversion to 24-bit keeps the color shown and is idempotent; canonical aliases denote the same color. Combined color models apply all their parts in order, and combining further never changes a model built earlier.',
  over=['inputs', 'histories'], forall='all 256 indexed colors, all their near neighbours and a lattice of 24-bit colors against every palette; all histories of model combination up to depth 4 (5)',
  why='the tests convert a few colors; nearest-neighbour errors and aliasing appear only for particular colors or histories',
  files=['ansi/colors.go', 'ansi/sgr.go'], mech=[('nearest color', 'ansi/colors.go Palette.Index'), ('model combination', 'ansi/colors.go ColorModels')],
  observe=['converted color'], technique=REFT, note='Distances recomputed by brute force.')

P(id='C08', title='Cursor state tracks the terminal through any operation history',
  statement='Whatever sequence of moves, attribute changes, visibility changes, writes, flushes, discards and failed flushes is made through the virtual cursor, the terminal ends up with the position, rendition and text the caller asked for. Motions the cursor emits between any two positions, also from an unknown one, lead to exactly the requested position.',
  over=['histories', 'fault_sequences'], forall='all histories of 4 (5) operations including hard write failures and would-block writes; every single move between any two positions of the terminal',
  why='the tests replay a few scripts without failures; what the library believes of the terminal diverges only after particular histories',
  files=['cursor.go', 'state.go', 'buffer.go'], mech=[('cursor motion', 'state.go Cursor.To'), ('virtual cursor', 'cursor.go VirtualCursor')],
  observe=['reference terminal state after the emitted bytes'], technique=REFT, note='Single width runes; the reference terminal (mc/ref/vt.go) is trusted.')

P(id='C09', title='The virtual screen emulates a terminal',
  statement='Text and control sequences written to a virtual screen, in any order and cut at any byte, leave the cells, cursor and rendition that a terminal shows after the same input. On a sub-screen nothing outside its rectangle ever changes.',
  over=['histories', 'inputs'], forall='all reachable states of small screens under writes, motions, erasures, attribute changes and ignored sequences, to the fixed point or bounded depth; every cut of every sequence',
  why='the tests write a few fixed scripts; erase extents, wrapping and clipping depend on the cursor state reached',
  files=['screen.go', 'state.go', 'buffer.go'], mech=[('screen emulation', 'state.go ScreenState.ProcessANSI'), ('incremental processing', 'buffer.go Process')],
  observe=['grid cells, cursor'], technique='explicit-state reachability to a fixed point over the real screen, compared state by state with a reference terminal',
  note='Scrolling, tabs, backspace and wide runes are outside of what the library emulates and are not claimed.')

P(id='C10', title='Screen flushes make the terminal show exactly the screen',
  statement='After any history of drawing, resizing, invalidation and successful flushes, the terminal shows exactly the cells and user cursor of the screen, starting from arbitrary terminal content. A flush draws no cell that did not change, and what the library believes the terminal shows is what it shows.',
  over=['histories', 'inputs'], forall='all pairs and longer chains of frames over small screens and cell alphabets, for every user cursor; all histories of 5 (6) operations mixing writes, resizes, invalidation and both kinds of flushes',
  why='the tests compare a few rendered frames with fixed bytes; the difference computed depends on both frames and the cursor left by earlier ones',
  files=['screen.go', 'render.go', 'state.go', 'cursor.go'], mech=[('differential update', 'render.go writeGridDiff'), ('full update', 'render.go writeGridFull'), ('believed state', 'screen.go ScreenDiffer.Real')],
  observe=['reference terminal after the emitted bytes'], technique='explicit-state graph exploration of frame sequences on the real differ, against a reference terminal',
  note='The reference terminal has deferred wrap and background color erase, as xterm does.')

P(id='C11', title='Screen flushes recover from every write fault',
  statement='If the terminal stops accepting bytes at any point of a flush, by failing, blocking or accepting only part, the reported count and error are what happened, and a later flush makes the terminal show exactly the current screen. A blocked flush resumes where it stopped, losing and repeating nothing, whatever is drawn in between.',
  over=['fault_sequences', 'histories'], forall='every byte position of a flush, and of two consecutive ones, times hard failure, would-block and short write, times drawing, invalidation and resizing in between',
  why='no test injects a write fault; recovery depends on exactly where the output was cut',
  files=['screen.go', 'buffer.go', 'output.go'], mech=[('resumable flush', 'screen.go ScreenDiffer.WriteTo')],
  observe=['reference terminal after the bytes accepted'], technique='exhaustive fault-point enumeration on the real code against a reference terminal',
  note='Single faults with all operations around them; pairs of faults with a smaller operation set in the quick tier.')

P(id='C12', title='Drawing copies exactly the visible cells, through any style and region',
  statement='Drawing a grid onto another copies exactly the cells of the overlap, each as its styles make of it, and touches no other cell; sub-grids share storage with, and never reach outside of, their parent. Drawing a bitmap sets each braille cell from exactly the 2x4 dots it covers. Resizing and clearing keep the cells they should.',
  over=['inputs', 'histories'], forall='all destination and source regions of small grids (including empty, clipped and nested sub-grids), every style and pairs of styles on a cell alphabet; all bitmaps up to a small size; all histories of grid operations to depth 4 (5)',
  why='the tests draw whole grids of one size; offsets, strides and clipping of regions have many boundary cases',
  files=['draw.go', 'grid.go', 'bitmap.go', 'style.go'], mech=[('grid drawing', 'draw.go DrawGrid'), ('sub-grids', 'grid.go Grid.SubAt, SubRect'), ('bitmaps', 'bitmap.go')],
  observe=['cells of the destination and of its parent'], technique=REFT,
  note='Small-scope in grid size; the oracle is a cell by cell definition of drawing.')

P(id='C13', title='Rendered grids and bitmaps show exactly their cells',
  statement='The bytes rendered for a grid, whole or as a difference from another one, through any style and from any known or unknown cursor, make a terminal show exactly the styled cells at their positions and change nothing else; the returned cursor is the terminal cursor. Rendering a bitmap shows exactly its dots.',
  over=['inputs'], forall='all small grids over a cell alphabet (blank, empty, styled blank, styled and plain runes), all pairs of them for differences, all styles and cursor states; all small bitmaps and sub-bitmaps',
  why='the tests compare fixed output for a few grids; elided cells, attributes and cursor state interact',
  files=['render.go', 'style.go', 'bitmap.go', 'screen.go'], mech=[('grid rendering', 'render.go WriteGrid'), ('bitmap rendering', 'render.go WriteBitmap')],
  observe=['reference terminal after the rendered bytes'], technique=REFT,
  note='Transparent styles are excluded from differences.')

P(id='C14', title='Output buffers keep every byte and process each exactly once',
  statement='Whatever is written to, processed, discarded, flushed, and only partially flushed from an output buffer in whatever order, its bytes leave it in order, none lost or repeated, and counts are exact. Every rune and escape sequence of the stream is passed to the processor once, in order, however the stream is cut into writes.',
  over=['histories', 'inputs', 'fault_sequences'], forall='all histories of up to 5 (6) operations over 16 writes (text, cut sequences, cut runes, sequence builders) and 9 controls including blocked, failed and short flushes; every cut of every input of up to 4 (5) grammar symbols',
  why='the tests process whole sequences in one write; double or missed processing depends on cut, discard and flush history',
  files=['buffer.go', 'ansi/decode.go'], mech=[('incremental processing', 'buffer.go Buffer.Process'), ('resumable flush', 'ansi/buffer.go Buffer.WriteTo')],
  observe=['bytes held and written', 'tokens passed to the processor'], technique=REFT,
  note='Control characters inside an ESC sequence may be moved ahead of it; flushing before processing a cut sequence is not claimed.')

P(id='C15', title='Terminal contexts are entered and exited in balance',
  statement='However RunWith and RunWithout nest, and whatever returns, errors, or panics in them, contexts are active exactly within RunWith and not within RunWithout; they are entered in order and exited in reverse, are never entered twice without an exit, are all exited once the first RunWith returns, even on panics and failures, and closed only then and exactly once. The first error is returned. Combining contexts runs exactly their parts, in order.',
  over=['histories', 'fault_sequences'], forall='all nestings of up to 3 (4) RunWith/RunWithout calls with every outcome (success, error, panic, recovered or propagated) and every single (pair of) failing Enter, Exit or Close; all histories of 5 (6) combinations of contexts',
  why='no test runs a terminal context at all; a leak leaves the user with an unusable terminal',
  files=['term.go', 'context.go'], mech=[('context entry and exit', 'term.go Term.RunWith, RunWithout'), ('composition', 'context.go Contexts')],
  observe=['calls to Enter, Exit and Close of recording contexts', 'errors returned'], technique='stateless exhaustive exploration of all executions of the real code under controlled outcomes and injected faults',
  note='After an injected context failure only balance and final teardown are judged, not which parts are active in between.')

P(id='C16', title='The terminal is always given back as it was found',
  statement='Whatever raw and echo modes, input reads, notifications, suspensions and nested runs a program goes through, and however it ends, the terminal attributes, file flags and modes outside of its context are exactly those found on entry; inside, they are exactly what was asked for. Modes are set in order and reset in reverse order, once for every time the context is entered. Failing on a non-terminal changes nothing.',
  over=['histories', 'fault_sequences'], forall='all histories of up to 4 (5) operations over 13 on a real pseudo terminal, nested, with every outcome, from 4 initial terminal attribute sets and both file modes; all sequences of 3 attempts on usable and unusable files; all nestings of suspending real processes; all histories of 5 (6) mode additions',
  why='no test uses a terminal; a leak leaves the shell of the user unusable',
  files=['attr.go', 'attr_linux.go', 'mode.go', 'input.go', 'term.go'], mech=[('termios', 'attr.go Attr.Enter, Exit, SetRaw, SetEcho'), ('file flags', 'input.go Input.Enter, Exit'), ('modes', 'mode.go Mode'), ('suspension', 'term.go Term.Suspend')],
  observe=['termios and fcntl flags of a pty', 'bytes arriving at the pty master'], technique='stateless exhaustive exploration of operation histories of the real code on a pseudo terminal, against a state model',
  note='Whether normal mode echoes before echo was ever asked for is not judged: documentation and code differ. Goroutine scheduling around a suspension is repeated, not controlled.')

P(id='C17', title='Input reads deliver every byte once, in order, and wait only when asked to',
  statement='Over any mix of ReadAny and ReadMore, on pipes and terminals, blocking or not, inside or outside of the terminal context: every byte written arrives once and in order, counts are exact, ReadAny never waits and takes all there is, ReadMore waits for at least one byte or an error; the end of input is reported as io.EOF and by AtEOF, and other errors are returned. With asynchronous notification, every arrival is notified.',
  over=['histories', 'schedules'], forall='all histories of up to 6 (8) writes, hang-ups, reads, enters and exits over pipes and terminals opened in every way, with every buffer size class, with and without recording',
  why='the tests read from regular pipes in one order; what a read does depends on the file flags left by all prior ones',
  files=['input.go'], mech=[('reading', 'input.go Input.ReadMore, ReadAny'), ('flags', 'input.go Input.setNonblock'), ('notification', 'input.go Input.Notify')],
  observe=['results of reads', 'decoded runes', 'AtEOF'], technique='stateless exhaustive exploration of operation histories of the real code on pipes and pseudo terminals, against a queue model',
  note='The moment at which a blocked ReadMore gets its bytes is enumerated relative to operations, not to instructions.')

P(id='C18', title='Input decoding does not depend on how input was split into reads',
  statement='Whatever chunks input arrives in, and whether it is decoded fully or only in part between reads, Decode returns exactly the runes and escape sequences of the stream, in order, none lost, split, or repeated; only a lone ESC at the end of what has arrived is given out as the Escape key. At the end of input, whatever is left is decoded.',
  over=['inputs', 'histories'], forall='all inputs of up to 4 (5) symbols of an escape grammar including invalid, canceled and aborted sequences and cut runes, over all of their cuts into reads, with decoding after each read or lagging behind',
  why='the tests read whole inputs; splits occur at any byte on a slow or busy terminal',
  files=['input.go', 'ansi/decode.go'], mech=[('decoding', 'input.go Input.Decode')],
  observe=['tokens decoded after every read'], technique=REFT,
  note='Small-scope in input length; the oracle is an independent incremental tokenizer.')

P(id='C19', title='Flushing delivers all output once, however slow the terminal',
  statement='Flush delivers all pending output of its source to the file in order and exactly once, waiting for room where there is none whatever mode the file is in, and leaves the file flags as they were; Flushed counts exactly what was written; errors are returned. Stalls are recorded only for writes that had to wait, up to the number tracked, until consumed.',
  over=['histories', 'fault_sequences'], forall='all histories of up to 2 (3) flushes of sizes around the capacity of the file, of every writer, to blocking, non-blocking and polled pipes, that are drained before, meanwhile (at once or slowly) or never, or closed before or meanwhile',
  why='no test flushes into a full pipe',
  files=['output.go', 'ansi/buffer.go', 'buffer.go', 'screen.go', 'cursor.go'], mech=[('flushing', 'output.go Output.Flush, blockingFlush'), ('stalls', 'output.go Output.Stalls')],
  observe=['bytes read at the other end', 'fcntl flags', 'Flushed and Stalls'], technique='stateless exhaustive exploration of operation histories and reader behaviours on the real code and real pipes, against a queue model',
  note='The kernel decides how a drained pipe is refilled, so stalls are judged by lower and upper bounds there.')

P(id='C20', title='Recorded input replays exactly as it was read',
  statement='What SetRecording wrote while input was read, ReadInputReplay gives back: one frame for each recorded read with its time, its error if any, and exactly its bytes, wherever reads start and end within sequences and runes; messages come back in place as messages of their own. Recording never changes what is read, and a failure to record is reported.',
  over=['histories', 'inputs', 'fault_sequences'], forall='all histories of up to 4 reads and controls (end of input, read errors, recording errors, messages, stopping and restarting) over 21 input symbols that include cut sequences and runes, invalid bytes, and cut recording marks; all pairs of reads of 2 (3) symbols',
  why='no test records anything; framing breaks only for reads that end within sequences',
  files=['input.go'], mech=[('recording', 'input.go Input.recordFrame'), ('replay', 'input.go ReadInputReplay')],
  observe=['frames read back'], technique=REFT,
  note='Input that itself contains complete recording marks is not distinguishable by the format, and excluded.')

P(id='C21', title='Queued input events are exactly the input, and each is consumed once',
  statement='The event queue of a frame holds exactly what arrived, in order: runes, escape sequences with their arguments, and mouse reports with their decoded button, modifiers and point. Every query counts exactly the events that answer it and strikes out exactly those, so that no event is ever seen by two consumers; HasTerminal also strikes out all that follows. The same bytes queued from input or from a replay give the same events.',
  over=['inputs', 'histories'], forall='all queues of up to 3 (4) events over 26 input symbols, in every split between two batches, times all sequences of up to 2 of 30 queries',
  why='the tests never queue events; each consumer of a frame depends on what those before it left',
  files=['x/platform/event.go'], mech=[('queue', 'x/platform/event.go Events.DecodeInput, DecodeBytes'), ('queries', 'x/platform/event.go Events.CountRune, HasTerminal, CountPressesIn, TotalScrollIn, TotalCursorMovement')],
  observe=['query results and remaining events'], technique=REFT,
  note='Operating system commands and other strings are known by the rune of their introducer only, as in the code.')

P(id='C22', title='Every frame sees what happened since the last one, and only that',
  statement='A platform run loop passes each input event to exactly one frame, in order and whatever the grouping of reads and signals; the screen has the size of the terminal; Redraw is set exactly on Ctrl-L and size changes; what the frame drew, and its cursor, is what the terminal shows afterwards. Signals to stop and errors of the client end the loop with that error; afterwards the modes and attributes of the terminal are as found, and Stop of background workers returns.',
  over=['histories', 'schedules'], forall='all histories of up to 2 (3) frames and re-runs over 11 patterns of input arriving before and while input is read, times resizes, client failures and stop signals in between',
  why='no test runs a platform; lost or repeated events need a particular timing of arrivals',
  files=['x/platform/platform.go', 'x/platform/event.go', 'x/platform/tick.go', 'x/platform/bg.go', 'screen.go', 'term.go'], mech=[('run loop', 'x/platform/platform.go Platform.Run, Context.Update')],
  observe=['events, size, time and Redraw of each frame', 'a reference terminal fed from the pty', 'modes and termios afterwards'], technique='stateless exhaustive exploration of histories of the real run loop on a pseudo terminal with controlled ticks, signals and arrivals, against a reference terminal and event model',
  note='Ticks and signals are injected into the channels of the platform; delivery of real signals is not explored here.')

SCHED = 'systematic concurrency testing: stateless exhaustive exploration of all thread interleavings of the real code (instrumented by source rewriting) under a controlled scheduler up to a preemption bound'

P(id='C23', title='All that is logged is kept, and reaches the log file once and in order',
  statement='Whatever goroutines write to a LogSink while it is being started, notified, stopped and its file changed, everything written is in memory and in the file that was set, once and in order; Stop and SetFile return once what was written before is in the file; while stopped, what is written without an error is in the file; while deferring, nothing is written before a notification; failures to write are returned to somebody, and what could not be written is written later if the file recovers. What Contents returned does not change. No call deadlocks, and no worker is left behind.',
  over=['schedules', 'histories', 'fault_sequences'], forall='all schedules with up to 1 (2) preemptions at any statement of x/platform and bytes.Buffer, for all sequences of up to 3 operations out of 8 (and up to 4 out of 6 on failing and full files) of the owner, with 0 to 2 concurrent writers of up to 2 writes',
  why='no test runs the log sink; losing or reordering lines needs a particular interleaving of writer, worker and owner',
  files=['x/platform/log.go', 'x/platform/bg.go'], mech=[('log sink', 'x/platform/log.go LogSink'), ('worker protocol', 'x/platform/bg.go bgWorkerCore')],
  observe=['contents of memory and of the files', 'errors returned', 'threads at the end'], technique=SCHED,
  note='Sequentially consistent interleavings of statements; data races below statement level in other packages are not explored. Writing the file is done by real files (memory files, a full pipe, a read-only descriptor).')

P(id='C24', title='Collected telemetry and logs of a platform run reach their files',
  statement='While a platform runs with timing data logged, the data of each full period of frames is published at most once, in order and as measured, and the data of the last period that was complete when the workers were last idle, or when RunWith returned, is: as one well-formed JSON line with the time of a frame in the telemetry file, or in the log without one. What the client logs is in the log and, by then, in the log file, once and in order. A file that cannot be written ends the run with an error no later than in the frame after the worker noticed. Leaving and entering the platform again, once or nested, loses nothing, deadlocks never, and leaves no worker behind.',
  over=['schedules', 'histories', 'fault_sequences'], forall='all schedules within 1 (2) deviations at any statement, or 2 (3) at synchronization only, of the platform run loop, its workers and the clock, for runs of up to 4 frames in up to 2 runs, nested or not, times 3 telemetry and 3 log destinations',
  why='no test runs the platform; what gets lost depends on how frames and workers interleave',
  files=['x/platform/diag.go', 'x/platform/bg.go', 'x/platform/log.go', 'x/platform/config.go', 'x/platform/platform.go', 'x/platform/options.go'], mech=[('telemetry collector', 'x/platform/diag.go telemetryCollector, TimingData.update'), ('workers', 'x/platform/bg.go BackgroundWorkers')],
  observe=['telemetry and log files', 'log contents', 'result of RunWith', 'threads at the end'], technique=SCHED,
  note='Values of resource usage are only checked to be well-formed and to span two frames. Output stall data is not explored.')

P(id='C25', title='A recorded session replays as the client lived it',
  statement='From Ctrl-R to Ctrl-R, a recording holds the state of the client and each read of input; running a new client then shows it, once per run, the same input events in the same frames, at the same screen size, with the same HUD visibility, from and to the same client state, also where sequences are cut between reads, and with Redraw where the size changes or Ctrl-L was read. While replaying, the user may pause, step, and stop, or a signal end the run as ever; no other input of the user reaches the client while it goes on; once stopped, the screen has the size of the terminal and input is live again.',
  over=['histories', 'inputs'], forall='all sessions that record up to 3 (4) frames of 12 occurrences (input, cut sequences and runes, mouse, HUD toggle, redraw, resizes, nothing), start and stop within other input, replayed twice with 11 user behaviours at every frame',
  why='no test records or replays a session',
  files=['x/platform/replay.go', 'x/platform/state.go', 'x/platform/platform.go', 'input.go', 'x/platform/event.go'], mech=[('recording and replay', 'x/platform/replay.go'), ('state', 'x/platform/state.go readState, writeState')],
  observe=['events, size, Redraw, HUD state and client state of each frame', 'result of Run'], technique='stateless exhaustive exploration of record and replay sessions of the real run loop on a pseudo terminal, the live session being the reference for its replay',
  note='Frames without any input are not recorded. Times, and a client value that is reused with state, are not claimed.')

P(id='C26', title='An edit line is what was typed, and shows the text around its cursor',
  statement='Graphic runes are inserted at the cursor, backspace removes the rune before it, arrows move it within the text; Enter submits and Escape cancels, after which neither text nor screen change until Reset. What is not about editing, or comes after the end, is left to others. While active, the box shows a contiguous part of the text with the cursor visible at its place within the box, all of the text if that is shorter than the box is wide, and no cell outside of the box is touched, for any width and any change of width.',
  over=['inputs', 'histories'], forall='all states reachable with text of up to 5 runes of 1 to 4 bytes, from empty or given text, by any sequence of frames of up to 2 (3, if there are up to 4 runes) of 18 inputs in boxes 0 to 4 (5) wide, widths changing at will',
  why='tests run four sessions in one box; which part is shown depends on the history of cursor and width',
  files=['x/platform/editline.go', 'x/platform/event.go', 'ansi/decode.go'], mech=[('edit line', 'x/platform/editline.go EditLine.Update')],
  observe=['text, cursor and state of the line', 'cells and cursor of the screen', 'events left'], technique=REFT,
  note='Runes that take two cells, or none, are not claimed to be shown right. What is typed is single events; paste is not supported by the code.')

P(id='C27', title='The log view shows the lines that were scrolled to, or follows the log',
  statement='A log view shows a contiguous part of the log at the bottom of the screen, one row per line, each cut to the width of the screen, with a header above that says which when expanded; no other cell is touched. Unless scrolled it follows the end of the log; a wheel turned within it scrolls by that many lines from what is shown, stopping at the first line, and following again from the last; otherwise what is shown stays as the log grows. A press on its top row as shown expands or collapses it. Other events are left to others. It does so whatever the size of the screen, also when the log was read from.',
  over=['inputs', 'histories'], forall='all states reachable with up to 12 (24) lines of various lengths, with or without a last end of line, up to 5 of them read away, by any sequence of presses, wheel turns and other mouse events in three columns of every row, on 11 (14) sizes of screens, viewing 1 to 3 (10) lines',
  why='no test shows a log view; what is shown depends on the history of the log and of scrolling',
  files=['x/platform/hud.go', 'x/platform/log.go', 'x/platform/event.go'], mech=[('log view', 'x/platform/hud.go LogView')],
  observe=['cells of the screen', 'events left'], technique=REFT,
  note='Escape sequences and control characters in the log are not claimed to be shown right.')

P(id='C28', title='Every control of the HUD does what it says where it is shown',
  statement='Hidden, the HUD changes nothing on the screen; Ctrl-K toggles it and is kept from the client, which otherwise gets all input. Shown, it has the sections that are switched on; a left press on a control as shown, and only that, does what the control says, is taken, and shows in the next frame. Names typed are given to the file of the row that was pressed, unless canceled by Escape, hiding or pressing elsewhere, and the files are created under these names; profilers start and stop as shown, and leave their profile in their file. No size of the screen makes it fail.',
  over=['inputs', 'histories'], forall='all 512 combinations of switches with a press, and 5 other mouse events, at every cell of a 96x34 screen; all sequences of 5 (6) out of 12 actions editing names of 3 files; all sequences of 2 (3) toggles of 4 profilers; all sizes up to 60x12 (100x36) with all sections and fields active',
  why='no test shows the HUD',
  files=['x/platform/hud.go', 'x/platform/editline.go', 'x/platform/config.go', 'x/platform/event.go', 'x/platform/diag.go'], mech=[('HUD', 'x/platform/hud.go HUD'), ('profilers', 'x/platform/config.go')],
  observe=['cells of the screen', 'switches', 'files', 'events left and seen by the client'], technique='explicit-state bounded model checking on the real code: every state of the switches is put in place and every cell pressed, what is shown being the specification; stateless exhaustive exploration of editing sessions against a reference model',
  note='Layout is only specified where everything fits (96x34). The recording control is explored by C25 through its key.')

P(id='C29', title='A terminal description is what the database holds, or a builtin',
  statement='Reading a terminfo file gives every key and function exactly the string that the file holds for it, the empty string where it is absent, canceled, or beyond what the file has; it never fails on a sound file, never crashes, and never gives a capability a value that the file does not have, whatever is missing, damaged, or fails to be read. Load takes the first sound file of TERMINFO alone, or else of the home directory, TERMINFO_DIRS and the default, in this order, where an empty name stands for the default; where none can be read there is the builtin whose name is, or is part of, that of the terminal, or an error, as for the empty name; what was loaded once is returned again. The maps of keys and functions have each under its name.',
  over=['inputs', 'fault_sequences', 'configurations', 'histories'], forall='files of 7560 section sizes; every capability present, absent, canceled, misplaced, or sharing another among others present or absent; truncation at every byte, damage of every byte by 6 values and of all pairs of header fields, a fault at every operation; 7 states of 3 directories under 12 settings; all histories of 5 (6) steps out of 9; 4096 terminal names; all installed files',
  why='no test reads a terminfo file',
  files=['terminfo/read.go', 'terminfo/terminfo.go', 'terminfo/builtin.go'], mech=[('reader', 'terminfo/read.go ReadFrom'), ('search', 'terminfo/terminfo.go Load SearchPath')],
  observe=['capabilities', 'errors'], technique='bounded exhaustive model checking on the real code: every file, fault, directory state and history within bounds is judged by a reference reader of the file format (term(5)) and a model of the search',
  note='The strings of the builtins themselves are only required to be there and to differ. Files with 32 bit numbers may count as unreadable. Concurrent loads are not claimed.')

P(id='C30', title='Signals and ticks arrive where they were asked for, while they are wanted',
  statement='A Signal that is opened or entered keeps the first of its signals, or of the messages sent to it, that arrived since something was last received from it, whatever else happens, until it is closed: after that its channel gets nothing. AsErr takes what is pending, if anything, and returns its error; it never waits. Whenever input arrives under a terminal context, the channel last given to Notify, or by an InputSignal, gets SIGIO, and no other one does, also after suspensions, in later runs, and when the same channel is given again. A ticker ticks from Enter to Exit; waiting for it returns zero time if it is not active or exits meanwhile. MustRun ends the process with the status of the error, if any.',
  over=['inputs', 'histories'], forall='all sequences of 5 (6) out of 16 operations on two Signals; of 6 (7) out of 7 operations (fewer for terminals) on 5 kinds of input files, with and without an InputSignal; of 5 out of 4 operations on a ticker; 9 errors',
  why='no test delivers a signal, or suspends',
  files=['signal.go', 'input.go', 'term.go', 'x/platform/tick.go'], mech=[('Signal', 'signal.go Signal'), ('notification', 'input.go Notify InputSignal'), ('ticker', 'x/platform/tick.go Ticker')],
  observe=['channels', 'errors', 'exit status'], technique='explicit-state bounded model checking on the real code: all sequences of operations, with real signals, each delivered for sure before going on, against a model of who is notified',
  note='What arrives while suspended is not claimed to be told. Signals are delivered between operations, not during them.')

P(id='C31', title='The filters convert or strip what they read, wherever it is cut',
  statement='However standard input is cut into reads, to24bit writes what it read with every color of the SGR sequences turned into its 24 bit equivalent: every character is shown with the same attributes and that color, and every other sequence (cursor, modes, character sets, strings such as titles) and character is passed on, in order, once. decode -strip writes the text alone, and decode the text with one mark for each sequence, in its place, that has its name and argument. Both end with status 0 at the end of their input.',
  over=['inputs'], forall='all sequences of up to 2 (3) out of 26 items (text of 1 to 4 bytes, private use runes, SGR and other sequences in 7 and 8 bit form, strings, a canceled and an unfinished sequence), with every cut of up to 2 items in two, and of 1 (2) in three; every item at every offset across the size of a read',
  why='no test runs the commands; what goes wrong depends on where a read ends',
  files=['cmd/to24bit/main.go', 'cmd/decode/main.go', 'ansi/decode.go', 'ansi/control.go', 'ansi/sgr.go', 'ansi/colors.go'], mech=[('to24bit', 'cmd/to24bit/main.go processMore process'), ('decode', 'cmd/decode/main.go runBatch processBatch')],
  observe=['standard output', 'exit status'], technique='bounded exhaustive model checking of the built commands: every input within bounds in every cut, given read by read through a pipe, against a reference tokenizer and SGR interpreter',
  note='The input is valid UTF-8. What decode does with a sequence that does not end is not claimed, nor blinking, or codes that anansi does not decode, in a sequence with colors; a color is what SGRColor.RGB (C07) says.')

P(id='C32', title='Interactive programs give the terminal back, however they end',
  statement='A program under the platform takes its input and ends soon on Ctrl-C, SIGTERM, SIGHUP or SIGINT, whatever came before: keys, mouse, resizes, redraws, toggling the HUD, suspending by Ctrl-Z. It leaves the terminal as it was found: attributes, file flags, and modes such as the alternate screen, mouse reporting and the hidden cursor. So it does while suspended, and once continued the terminal is as it was before. Terminating signals that arrive while the terminal is being entered, suspended, continued or left do not prevent that. Without signals in the middle of entering and leaving, the same holds for decode.',
  over=['histories', 'crash_points'], forall='8 command lines of demo, lolwut, interact and decode with all sequences of up to 1 (3) of 9 occurrences, or two suspensions, and then 4 ways to end; SIGTERM and SIGHUP (and SIGINT) at and after every system call that changes the terminal, in 3 (5) histories of 3 programs',
  why='no test runs an interactive program; a signal that is not caught yet while the terminal is changed is a matter of one system call',
  files=['x/platform/platform.go', 'term.go', 'attr.go', 'mode.go', 'screen.go', 'input.go', 'signal.go', 'cmd/demo/main.go', 'cmd/lolwut/interact.go', 'cmd/interact/main.go', 'cmd/decode/main.go'], mech=[('platform', 'x/platform/platform.go Platform.RunWith'), ('terminal context', 'term.go Term.RunWith Suspend'), ('closing input', 'input.go Input.Close')],
  observe=['terminal attributes', 'file flags', 'modes set by the output', 'process state', 'log'], technique='bounded exhaustive model checking of the built programs on pseudo terminals: every sequence of occurrences, and, with a tracer that stops the program at each system call that changes the terminal, a signal at every such point',
  note='SIGKILL, SIGQUIT and signals to a suspended program are not claimed, nor the file flags if a signal ends the program before it runs, nor exit status.')

P(id='C33', title='Frame rates, timing and output stalls are reported as they were',
  statement='While timing is measured or logged (from the start if configured, or as switched), Timing.Stats after every period of a quarter of the frame rate in frames (at least 1) are the sum, least, greatest and quartiles of the times between the frames of this period, from the last frame of the one before on, and their rate; else, they do not change; switching it off clears them. Each output stall is counted in exactly one such period: Stalls.Stats are its number, sum, least, greatest and share of the time since the prior ones, and it is logged once if at all. FPSEstimate is the mean rate over as many frames as make up a second, before the first of which there was none. FPS is the measured rate while measured or logged, else the estimate.',
  over=['histories', 'inputs', 'configurations'], forall='all histories of 4 (5) frames over 8 actions (switching timing and stall tracking, stalls, running again) times 2 times between frames, for periods of 1 to 3 frames and 3 configurations; all sequences of 3 times for 7 (9) frames at 4 rates; the default rate over 66 frames with one odd time at any place, and stalls',
  why='no test measures frames; which frames and stalls a report counts depends on when measuring was switched within a period',
  files=['x/platform/diag.go', 'x/platform/options.go', 'output.go'], mech=[('telemetry', 'x/platform/diag.go Telemetry.update, TimingData.update, StallsData.update, FPSEstimate.update')],
  observe=['Timing.Stats', 'Stalls.Stats', 'FPSEstimate', 'Telemetry.FPS', 'telemetry file'], technique=REFT,
  note='Ticks are given by the check, stalls are put in the place where they are recorded (recording them is explored by C19). The quartiles are the (k*floor(n/4)+1)th of n times; in the first period the time ahead of the first frame may be left out, or count as 0. Not claimed: while paused or replaying; a rate over no time at all.')

P(id='C34', title='What a platform is configured to write is created, profiled and complete',
  statement='The files for the log, profiles, trace and telemetry that Config options and flags name are created by New, and no others; if several name one, the first does; timing is on if any asks for it. If a file cannot be created, New fails with an error that names it. Profilers run exactly while the platform is entered: not before, not within RunWithout, not after, also if the client fails or panics; whenever left, the profiles and trace are complete, and of the last time it was entered only. The log file has all that was logged since. A profiler that cannot start, as one is running or its file is not fit, makes RunWith fail without running the client, leaves others running as they were, and the terminal as found.',
  over=['configurations', 'histories', 'fault_sequences'], forall='all 32 sets of files, asked for in 6 ways by one or two Configs or by flags, times 4 timing options; times 7 ways to run and leave the platform; times every one that cannot be created (2 ways), is not seekable, or is in use already; times a memory profile that cannot be written',
  why='no test configures files or profiles',
  files=['x/platform/config.go', 'x/platform/platform.go', 'x/platform/options.go', 'x/platform/log.go'], mech=[('configuration', 'x/platform/config.go Config.Merge, setup, AddFlags'), ('profilers', 'x/platform/config.go Config.Enter, Exit')],
  observe=['files and contents', 'errors', 'state of the profilers of the Go runtime', 'terminal modes and attributes'], technique='explicit-state bounded model checking: exhaustive enumeration of configurations and lifecycles executed on the real code, with real profilers, against a lifecycle model',
  note='The contents of profiles are only checked to be complete, and those of a trace to be of the last run. Contents of telemetry are explored by C24 and C33, switching profilers from the HUD by C28.')


P(id='C35', title='Bitmaps hold the dots drawn or loaded, and share them with their parts',
  statement='ParseBitmap reads a dot for each full unit of runes of every line, set if it is the one given for set, and fails if a unit is not 1 or 2 runes, or a line has a part of a unit or is not as long as the others; MustParseBitmap panics then. A bitmap loaded with a stride holds the given dots row by row, those missing unset. Get is what was last Set at that place; places outside read as unset, and are not set. Rune is the braille pattern of the 8 dots at and after a place, as RuneSize places cover it all. A sub bitmap shares exactly the dots of its rectangle within the bounds of the bitmap, or none if the rectangle does not start within them: setting in one shows in the other, nothing else changes, and it neither reads nor sets dots outside.',
  over=['inputs', 'histories'], forall='all texts of 2 lines of up to 3 (4) and of 3 lines of up to 2, 2 and 3 out of 5 runes, for 9 units; all contents of up to 9 (12) dots at strides up to 5; bitmaps of 5 sizes with all parts by 320 rectangles, and parts of these by all 320, in 3 ways, set through each and read everywhere',
  why='tests parse and render a few well formed bitmaps, and never take a part of one or set a dot outside',
  files=['bitmap.go'], mech=[('bitmap', 'bitmap.go ParseBitmap, Bitmap.Load, Get, Set, Rune, SubRect')],
  observe=['dots', 'runes', 'errors', 'bounds'], technique=REFT,
  note='Rune at places outside the bounds, and rectangles that are inverted, are not claimed. Drawing bitmaps into screens is explored by C15.')

P(id='C36', title='Profilers start, stop and change files as they are told in the HUD',
  statement='Within the HUD, pressing the mark of a profiler (CPU, trace, or of the runtime) starts or stops it, and that of all of them stops those that run, or starts all if none does; entering the name of a file has it run and write there, after what it did so far is complete in its prior file, which is closed. What is shown is what really runs. Whenever a profiler stops, also as the platform is left, its file has the complete profile since it was last started, and nothing else; it runs again when the platform is entered again. No other file is made or changed. What cannot be created or started is told in the log, and does no more harm than that this profiler does not run.',
  over=['histories', 'fault_sequences'], forall='all sequences of 3 (4) for CPU, of 4 (5) for the trace and a heap profile, configured or not, out of 6: pressing the mark, 2 files, one that cannot be created, suspending and resuming, profiling by the program itself; all sequences of 2 (4) out of 7 about all of them',
  why='no test profiles; which file is written, and whether it is complete, depends on all that was done before',
  files=['x/platform/config.go', 'x/platform/hud.go'], mech=[('profilers', 'x/platform/config.go cpuProfileContext, traceProfileContext, pprofProfileContext'), ('controls', 'x/platform/hud.go hudProfileControl, HUD.underFileEdit')],
  observe=['files and contents', 'open files', 'state of the profilers of the Go runtime', 'screen', 'log'], technique='explicit-state bounded model checking: exhaustive enumeration of histories executed on the real code, with real profilers, against a model of them',
  note='Not claimed: whether a profiler that was stopped in the HUD runs again when the platform is entered again; two profilers that write to the same file.')

P(id='C37', title='A terminal is opened if there is one, whatever the standard files are',
  statement='OpenTerm uses the standard input, if that is a terminal, for input, and the standard output, if that is a terminal, for output; it opens the controlling terminal for those that are not. If that is not possible it fails without a Term, and leaves open no more files than there were, and the standard files usable. With the Term, what is written and typed goes to and comes from these terminals and nowhere else, also in non-blocking and async mode; its attributes and size are those of the output; at the end, by return, error or panic, all terminals have the attributes and flags that they had. IsTerminal tells what is a terminal; IsStandardTermFile that these are standard terminal files.',
  over=['configurations', 'fault_sequences'], forall='all pairs of 6 kinds of standard input and output (two terminals, pipe, file, null, closed), with either terminal or none in control, and any number of files, 0, 1 or 2 that can still be opened, read in blocking or async mode, and 3 ways to end',
  why='no test calls it: it needs processes with other standard files and sessions of their own',
  files=['term.go', 'attr.go', 'input.go', 'output.go'], mech=[('opening', 'term.go OpenTerm'), ('attributes', 'attr.go Attr.Enter IsTerminal')],
  observe=['bytes at either end of each terminal, pipe and file', 'open files', 'terminal attributes', 'file flags', 'errors'], technique='bounded exhaustive model checking on the real code: every configuration of files, sessions and limits within bounds executed in a process of its own, against a table of what is to be used',
  note='Suspending such programs is explored by C32 for those that use the standard files.')
