#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as Python so that it is diffable and valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

UNTESTED_TTY = "No test creates a terminal session at all (the tty worker, both terminal back ends and the input threads are compiled but never run by the suite); "

p("C01", "The terminal is put back to normal however a session ends",
  "However an interactive session ends (shutdown request, every handle gone, or an I/O or channel error part-way), the terminal is taken out of raw mode, its cursor is shown, line wrapping and default attributes are restored, and the panic hook that was installed before is put back. Suspending for a callback or for job control does the same before control leaves Liso, and undoes it before the session continues. If the program panics during a session, the terminal is restored before the panic message is printed.",
  ["fault_sequences", "histories", "programs"],
  "Every path from entering raw mode to the end of the I/O thread, including every early error return, on both terminal back ends; every suspend/resume pair.",
  UNTESTED_TTY + "the property quantifies over every early exit, and a leftover raw mode is only visible on the path that leaks it.",
  ["src/worker.rs", "src/term/cross.rs", "src/term/vt52.rs"],
  [("tty worker main loop and clean-up", "src/worker.rs tty_worker"), ("suspend/unsuspend/cleanup of each back end", "src/term/cross.rs, src/term/vt52.rs"), ("panic hook", "src/term/*.rs unsuspend")],
  [("suspended", "whether the back end has given the terminal back", "src/term/cross.rs Crossterminal.suspended"), ("old_hook", "the panic hook to put back", "src/term/*.rs")],
  ["terminal modes and bytes written to stdout at session end"])

p("C02", "Shutdown returns only after clean-up, with earlier output shown",
  "Dropping the input/output object, or calling either of its die methods, asks the I/O thread to stop and returns only once that thread has finished with the terminal: prompt and status erased, terminal restored, input thread told to stop. Output requested before the shutdown request is displayed first, in order.",
  ["schedules", "histories"],
  "Every interleaving of the caller, output threads and the I/O thread; every state the session can be in when it is shut down; both interactive and pipe mode.",
  "The two doc-tests that create a session never finish on the original tree, and a test observes one schedule; returning early is only visible under an unlucky one.",
  ["src/lib.rs", "src/worker.rs"],
  [("die / blocking_die / Drop", "src/lib.rs InputOutput"), ("response channel closed last", "src/worker.rs tty_worker, pipe_worker")],
  [("response channel", "its closing is what the caller takes as proof of shutdown", "src/lib.rs InputOutput.rx")],
  ["return of drop/die/blocking_die"])

p("C03", "At most one session is active; the global handle follows it",
  "At most one input/output object can be active in a process: creating another panics until the previous one has completely shut down, and succeeds afterwards; this holds in every feature configuration. The global output handle is available exactly while a session is active and sends to that session; asking for it with no session panics.",
  ["schedules", "histories", "configurations"],
  "Every interleaving of creation and destruction on different threads, with and without the `global` feature.",
  "The race window between releasing the claim and finishing shutdown needs two threads and precise timing; no test creates two sessions, and the non-`global` variant is never run.",
  ["src/lib.rs"],
  [("claim in new / release in Drop", "src/lib.rs InputOutput::new, Drop for InputOutput"), ("output()", "src/lib.rs output")],
  [("active-session claim", "LISO_OUTPUT_TX with feature global, LISO_IS_ACTIVE without", "src/lib.rs")],
  ["panic or success of InputOutput::new and output()"])

p("C04", "Printed lines never collide with the prompt, status or input",
  "In an interactive session, every printed, wrapped or echoed line is written only while the status, prompt and input are erased from the screen, starts at the left margin of the erased area, and ends with a line break and default attributes. All terminal output of a session is produced by its single I/O thread, so lines from different threads are never interleaved within a line, and lines from one thread appear in the order they were sent.",
  ["schedules", "histories", "inputs"],
  "Every sequence of requests and key presses from any number of threads, in any screen state.",
  UNTESTED_TTY + "collisions depend on what was on screen when the line arrived.",
  ["src/worker.rs", "src/lib.rs", "src/term.rs"],
  [("erase before direct output", "src/worker.rs TtyState::handle, rollin, output_line"), ("single I/O thread", "src/lib.rs InputOutput::new")],
  [("remembered_output", "what of the prompt area is currently on screen", "src/worker.rs TtyState")],
  ["byte stream written to the terminal"])

p("C05", "The display is up to date and flushed whenever Liso waits",
  "Whenever the interactive session goes idle to wait for its next request or key, every change already made to the status, prompt, notice, input text, cursor or input permission has been scheduled for display and drawn, and everything written to the terminal (including a bell) has been flushed.",
  ["histories", "inputs"],
  "Every sequence of API calls and key presses, and every state in which they arrive.",
  UNTESTED_TTY + "a forgotten redraw or flush only shows for the one operation and state that forgot it.",
  ["src/worker.rs"],
  [("redraw flag", "src/worker.rs TtyState methods"), ("redraw before blocking", "src/worker.rs tty_worker, rollout")],
  [("rollout_needed", "display is stale", "src/worker.rs TtyState")],
  ["terminal contents while idle"])

p("C06", "Text can never inject control sequences into the terminal",
  "No text that a program prints, that a user types or recalls from history, or that is captured from stderr can make an interactive session write a control character or escape sequence to the terminal: C0 controls (other than the line break), DEL, C1 controls and the Unicode line and paragraph separators are always replaced by a visible inverse-video stand-in before they are stored in a line. Line breaks are turned into cursor positioning, never sent raw.",
  ["inputs"],
  "Every string, through every public way of building a line and every internal path from text to the terminal.",
  "Tests try one string with three control characters; the guarantee is over all characters and over all paths from text to the terminal.",
  ["src/line.rs", "src/line/add_ansi.rs", "src/worker.rs"],
  [("control character replacement", "src/line.rs Line::add_text"), ("newline handling", "src/worker.rs output_line, output_char")],
  [("Line.text", "only filtered text", "src/line.rs")],
  ["bytes written to the terminal"])

p("C07", "Pipe mode exchanges plain lines only",
  "If stdin or stdout is not a terminal, or TERM is `dumb` or `pipe`, and only then, the session runs in pipe mode: printed and wrapped lines are written as plain text one per line, while echoed lines, status, prompt, notices and bells produce no output and no control sequence is written. Each line of standard input becomes exactly one Input response with only the CR and LF characters at its end removed; at end of input no further lines are invented, and custom messages are still delivered.",
  ["inputs", "configurations", "histories"],
  "Every combination of stdin/stdout kinds and TERM values, every request, every input stream including its end.",
  "No passing test runs a session in pipe mode (the two that would are the ones that never finish on the original tree).",
  ["src/worker.rs"],
  [("mode selection", "src/worker.rs worker, is_pipe_term"), ("pipe worker", "src/worker.rs pipe_worker")],
  [], ["stdout bytes and responses in a pipeline"])

p("C08", "Line editing never leaves the cursor outside the input text",
  "After every editing key, history recall, completion, prompt change or discard, the editing cursor lies within the current input text and on a character boundary, so no sequence of edits can crash the session. Clearing, sending or discarding the input leaves the cursor at the start; recalling history leaves it at the end; inserting leaves it after the inserted text; killing removes exactly the text on one side of the cursor and makes it available for yanking.",
  ["histories", "inputs"],
  "Every sequence of edits on every Unicode string, including edits interleaved with prompt changes and completions from the program.",
  UNTESTED_TTY + "an out-of-range cursor only crashes on a later edit.",
  ["src/worker.rs"],
  [("editing handlers", "src/worker.rs TtyState::handle_*, history_prev, history_next, handle"),],
  [("input / input_cursor", "text being edited and byte offset of the cursor", "src/worker.rs TtyState")],
  ["responses and survival of the I/O thread"])

p("C09", "Every documented key does its documented action on both input paths",
  "Every control character and special key listed in the README performs the documented action or sends the documented response, whether it arrives as raw bytes or as a decoded key event, and the two input paths agree. A control character with no binding is reported as unknown with its own code (0 to 31), and the code reported for a response is that of a key that sends it.",
  ["inputs"],
  "Every control character and key code, on both dispatchers, and every response variant.",
  UNTESTED_TTY + "no test presses a key, and the two dispatch tables are maintained by hand in parallel.",
  ["src/worker.rs", "src/lib.rs", "README.md", "src/term/cross.rs"],
  [("raw dispatcher", "src/worker.rs TtyState::handle_input"), ("event dispatcher", "src/worker.rs TtyState::handle_event"), ("as_unknown", "src/lib.rs Response::as_unknown")],
  [], ["responses and edits per key"])

p("C10", "Decoding terminal input never stalls, crashes or drops the session",
  "Whatever bytes arrive from the terminal, and however they are split into reads, the input decoder consumes them in finite time without panicking: every pass over pending bytes either consumes some or waits for more. Printable and control ASCII is forwarded unchanged, valid UTF-8 becomes its character, malformed UTF-8 becomes the replacement character, and recognised escape sequences become the corresponding key.",
  ["inputs", "schedules"],
  "All byte strings and all ways of splitting them into reads, on both back ends.",
  UNTESTED_TTY + "the failing inputs (high-bit bytes on VT52, encoded surrogates) are single byte patterns no sample contains.",
  ["src/term/cross.rs", "src/term/vt52.rs"],
  [("byte decoders", "src/term/cross.rs input_thread, parse_csi_sequence; src/term/vt52.rs input_thread")],
  [], ["events delivered per byte string"])

p("C11", "A notice disappears on time, on any key, and never ends the session",
  "A notice replaces the prompt until its time elapses, any key is pressed while input is allowed, or another notice is shown, whichever is first; this works for any number of notices in a session, for notices of any relative durations, and for arbitrarily long durations. Showing a notice never ends or blocks the session.",
  ["histories", "schedules", "inputs"],
  "Every sequence of notices with any durations, interleaved with keys and other requests.",
  UNTESTED_TTY + "the second notice of a session, or a shorter notice after a longer one, is a history no test contains.",
  ["src/worker.rs"],
  [("heartbeat thread", "src/worker.rs tty_worker"), ("show_notice / dismiss_notice / Heartbeat", "src/worker.rs TtyState")],
  [("notice", "the visible notice and its deadline", "src/worker.rs TtyState"), ("deadlines", "pending wake-ups", "src/worker.rs heartbeat thread")],
  ["terminal contents over time"])

p("C12", "History stays within its limit, newest last, without duplicates",
  "After a line is added, it is the last line of the history; if a limit is set the history holds at most that many lines and only oldest lines were removed for it; if duplicate stripping is on no earlier copy of that line remains, and no other line is removed or reordered. Every line the user enters in an interactive session is added exactly once, before the program receives it, even if autosaving fails.",
  ["histories", "inputs"],
  "Every sequence of added lines and every setting of limit and duplicate stripping, including a limit of one and a limit lowered later.",
  "There is no test of the history at all.",
  ["src/history.rs", "src/worker.rs"],
  [("add_line", "src/history.rs History::add_line"), ("handle_return", "src/worker.rs TtyState::handle_return")],
  [("lines / limit / strip_duplicates", "history contents and policy", "src/history.rs History")],
  ["History::get_lines"])

p("C13", "Replacing the history never breaks navigation",
  "However the program replaces the history while the user is moving through it, moving up or down never crashes the session and never uses a position that does not exist in the current history: every position is checked against the history actually consulted. Moving up shows the newest entry first and then the entry just before (of the list as it is now), moving down the entry just after. The input that was being typed before navigation started is kept for as long as there is a position, and comes back when moving past the newest entry.",
  ["schedules", "histories"],
  "Every interleaving of history replacement by the program with key presses handled by the I/O thread.",
  "Needs a key press to be handled between the replacement and the notification of it.",
  ["src/worker.rs", "src/lib.rs"],
  [("history_prev / history_next / BumpHistory", "src/worker.rs TtyState"), ("swap_history", "src/lib.rs InputOutput::swap_history")],
  [("cur_history_index", "position remembered between keys", "src/worker.rs TtyState")],
  ["survival of the I/O thread"])

p("C14", "Saving history is crash-safe, complete and reports its errors",
  "Saving a file-backed history never destroys the only complete copy: at every point of the procedure a complete old or new copy exists under a name that loading will look at, and a new copy replaces the old one only after all of it was written without error. Every write, flush or rename error is reported to the caller rather than dropped. The autosave handler runs after every N added lines when an interval of N is set and, if there are unsaved lines, when the history is dropped; the first save works even if the file did not exist.",
  ["crash_points", "fault_sequences", "histories"],
  "Every crash point within the save procedure, every failing file operation, every sequence of additions and settings.",
  "No test saves a history; crash points and write failures cannot be sampled by the suite.",
  ["src/history.rs"],
  [("from_file save handler", "src/history.rs History::from_file"), ("write_history_to", "src/history.rs History::write_history_to"), ("autosave triggers", "src/history.rs History::add_line, Drop")],
  [("build/backup/history paths", "the three names used while saving", "src/history.rs History::from_file")],
  ["files on disk; returned errors"])

p("C15", "Loss of the I/O thread is reported as Dead by every reader",
  "Once the I/O thread is gone, every reading method (async, blocking, timeout, deadline, polling) returns Dead, and Dead is reported only in that case, after all responses already sent have been delivered. Every such report is counted, and a program that keeps reading after being told too many times panics instead of spinning for ever.",
  ["histories", "schedules"],
  "Every reading method, in every state of the response channel, any number of calls.",
  "No test reads after the I/O thread has ended.",
  ["src/lib.rs"],
  [("read_async, read_blocking, read_timeout, read_deadline, try_read", "src/lib.rs InputOutput"), ("report_death", "src/lib.rs InputOutput::report_death")],
  [("death_count", "reports so far", "src/lib.rs InputOutput")],
  ["values returned by readers"])

p("C16", "Every style and colour keyword, code and flag means what it says",
  "Each style and colour keyword of the line-building macros, each supported SGR code of the ANSI parser, and each style flag and colour sent to an ANSI terminal denotes the attribute of that name: set, add, remove and toggle forms do exactly that, all combinations of flags are transmitted completely, and unknown SGR codes change nothing. VT52 colours always stay within the terminal's palette.",
  ["inputs", "configurations"],
  "All keywords, all SGR codes, all subsets of the style flags, all colours, all palette sizes.",
  "Tests use a handful of keywords and five SGR codes; a single wrong entry in a table is only visible for that entry.",
  ["src/lib.rs", "src/line/add_ansi.rs", "src/term/vt52.rs"],
  [("liso!/liso_add!/color! macros", "src/lib.rs"), ("SGR parser", "src/line/add_ansi.rs"), ("Color::to_*, Style::as_crossterm", "src/lib.rs")],
  [], ["Line contents; attributes sent to the terminal"])

p("C17", "Each back end's idea of the active attributes matches the terminal",
  "After every operation of a terminal back end, the style and colours it believes to be active are the ones the terminal has been told to use, and after a request to use given attributes the terminal has been told to use exactly those: nothing from an earlier span (in particular a background colour) remains active.",
  ["histories", "inputs"],
  "Every sequence of attribute changes, resets, clears, suspends and resumes on each back end, over all styles and colours.",
  UNTESTED_TTY + "leaks depend on the previous span's attributes.",
  ["src/term/cross.rs", "src/term/vt52.rs"],
  [("set_attrs and every resetting operation", "src/term/cross.rs, src/term/vt52.rs")],
  [("cur_style, cur_fg, cur_bg", "believed attributes", "src/term/*.rs")],
  ["attribute bytes written to the terminal"])

p("C18", "The stdin reader is always stopped, and stdin and SIGHUP restored",
  "Ending a session stops the thread that reads standard input (in pipe mode and on every terminal back end) without waiting for another key press or line, and returns only when it has ended. File descriptor 0 and the SIGHUP disposition are afterwards what they were before, no descriptor is leaked, and the thread is never interrupted without the substitute input already being in place.",
  ["schedules", "configurations", "histories"],
  "Every mode and back end, wherever the reading thread happens to be when the session ends.",
  "Stopping the wrong thread or in the wrong order only shows when the reader is blocked at that moment; no test does this on a terminal.",
  ["src/unix_util.rs", "src/term/cross.rs", "src/term/vt52.rs", "src/worker.rs"],
  [("interrupt", "src/unix_util.rs InterruptibleStdinThread::interrupt"), ("which thread is registered", "src/term/*.rs new, src/worker.rs pipe_worker")],
  [("join_handle", "handle of the thread that reads stdin", "src/unix_util.rs InterruptibleStdinThread")],
  ["return of drop; fd 0 and SIGHUP afterwards"])

p("C19", "The I/O thread cannot deadlock or double-borrow on its own state",
  "While handling any request the I/O thread never tries to acquire a lock or a dynamic borrow that it already holds, never runs program-supplied callbacks for completion or suspension while holding one, and never waits for another thread while holding the history lock. The lock on the global output handle is never held while waiting for the session to end.",
  ["schedules", "histories"],
  "Every path through the handling of every request and of session creation and destruction.",
  "A double borrow or lock-order inversion shows only on the one path that has it.",
  ["src/worker.rs", "src/lib.rs", "src/stderr_capture.rs"],
  [("RefCell<Box<dyn Term>> borrows, history RwLock, global Mutex", "src/worker.rs, src/lib.rs")],
  [("term, history, LISO_OUTPUT_TX", "guarded state", "src/worker.rs, src/lib.rs")],
  ["liveness of the session"])

p("C20", "Only the owner of the session can read input; output handles are shareable",
  "Output handles can be cloned and used from any thread; the input/output object cannot be cloned, only its holder can read responses, and at most one reader can exist at a time; it cannot be used after a die method consumed it. A history borrowed from the session cannot outlive it, and completors and suspended callbacks must be safe to move to the I/O thread.",
  ["programs", "schedules"],
  "Every program that type-checks against the crate, in every feature configuration.",
  "A test can only show that a permitted program compiles, not that every forbidden one is rejected.",
  ["src/lib.rs", "src/completion.rs"],
  [("type signatures of the public API", "src/lib.rs Output, OutputOnly, InputOutput; src/completion.rs Completor")],
  [], ["whether client programs compile"])

p("C21", "Every API call reaches the session once and has its own effect",
  "Each output method sends exactly one request carrying exactly the arguments it was given, and the session handles every kind of request: each one takes effect exactly once and as its own kind (print, wrap, echo, status, notice, prompt, bell, suspended callback, custom message, completor, history change), and none is dropped or turned into another, in every feature configuration. Setting a prompt applies its text and its input permission every time, even if only one of them changed, and clears pending input exactly when asked.",
  ["histories", "inputs", "configurations"],
  "Every API method with every argument, in every session state.",
  UNTESTED_TTY + "an ignored argument only shows in the state where it matters.",
  ["src/lib.rs", "src/worker.rs"],
  [("Output methods", "src/lib.rs impl Output"), ("request dispatch", "src/worker.rs TtyState::handle, pipe_worker")],
  [("Request", "message kinds", "src/lib.rs")],
  ["session behaviour per call"])

p("C22", "A suspended callback runs exactly once, with the terminal released",
  "A callback passed for suspended execution is run exactly once, in both interactive and pipe mode; in an interactive session it runs with prompt and status erased and the terminal in its normal state, and the session is resumed and redrawn after it returns. Job-control suspension likewise releases the terminal before stopping the process, and resumes and redraws after.",
  ["histories", "configurations"],
  "Every state of the session when the request or the key arrives, both modes and both back ends.",
  "No test suspends a session.",
  ["src/worker.rs", "src/term/cross.rs", "src/term/vt52.rs"],
  [("SuspendAndRun", "src/worker.rs TtyState::handle, pipe_worker"), ("handle_suspend", "src/worker.rs")],
  [], ["callback runs; terminal state during them"])

p("C23", "The crate and its macros work in every feature combination",
  "Every combination of the crate's optional features compiles, and each exported macro can be used through its full path from a crate that imports nothing else, in every combination in which it exists.",
  ["configurations", "programs"],
  "All subsets of the optional features; every exported macro and keyword.",
  "The build checks three feature sets, and every test imports the macros' helpers.",
  ["src/lib.rs", "src/worker.rs", "Cargo.toml"],
  [("cfg gates", "src/*.rs"), ("macro definitions", "src/lib.rs")],
  [], ["whether client programs compile"])

p("C24", "Wrapping and styling keep every character and its style",
  "Wrapping a line replaces only white space at break points with line breaks and never panics or loses, duplicates or restyles any other character, for every text (including non-ASCII text with embedded line breaks), styling and positive width. Building a line by any sequence of text, style, colour and append operations keeps every byte of text covered by exactly one styled span, in order.",
  ["inputs", "histories"],
  "All texts, spans and widths.",
  "Tests wrap ASCII text with few spans; the failing cases need non-ASCII text before a line break or several spans around a break that changes length.",
  ["src/line.rs"],
  [("wrap_to_width, erase_and_insert_newline", "src/line.rs"), ("append_text, set_style, set_colors, append_line", "src/line.rs")],
  [("Line.text / Line.elements", "text and its styled spans", "src/line.rs")],
  ["Line contents"])

p("C25", "No terminal size or cursor movement can crash or misplace the session",
  "Whatever size the terminal reports, including zero, layout never divides by, subtracts from, or wraps to a zero width. A relative cursor movement is only ever requested with a non-zero distance (terminals treat zero as one), and its distance is the difference between the two positions in the direction requested.",
  ["inputs", "histories"],
  "Every reported width and every pair of cursor positions.",
  UNTESTED_TTY + "a terminal reporting width 0 is not among the samples.",
  ["src/worker.rs", "src/term/cross.rs", "src/term/vt52.rs"],
  [("get_width", "src/term/cross.rs, src/term/vt52.rs"), ("reconcile_cursors, rollin", "src/worker.rs")],
  [], ["survival of the I/O thread; cursor movement commands"])

p("C26", "Captured stderr is forwarded once and stderr is always restored",
  "With stderr capture enabled, every descriptor opened for the capture is closed or handed over on every path, including failures while setting it up, and standard error is put back before the capture thread ends. Only bytes actually read from the captured stream are forwarded, each once, and lines that can no longer be forwarded are written to the real standard error.",
  ["fault_sequences", "inputs", "configurations"],
  "Every failing system call during set-up, every way of splitting the stream into reads, every point at which the session can end.",
  "The capture is only compiled, never run, by the build; its error paths cannot be reached by a sample.",
  ["src/stderr_capture.rs"],
  [("attempt_stderr_capture, wait_until_not_captured", "src/stderr_capture.rs")],
  [("STDERR_CAPTURE_THREAD", "running capture", "src/stderr_capture.rs")],
  ["descriptors; bytes delivered"])

p("C27", "Incremental redraw leaves exactly the requested contents on screen",
  "After an incremental update, the visible cells and the cursor position are the ones a full redraw of the same line would have produced, for every previous line, new line, cursor and terminal width.",
  ["inputs", "histories"],
  "All pairs of lines, cursor positions and widths.",
  UNTESTED_TTY + "it relates two arbitrary texts through a terminal's cell model.",
  ["src/worker.rs"],
  [("output_line_changes", "src/worker.rs")], [], ["screen contents"])

p("C28", "A flood of output cannot starve the prompt or prevent shutdown",
  "However fast other threads send output, the prompt is redrawn within a bounded time, and a shutdown request ends the session within a bounded time.",
  ["schedules"],
  "All schedules of senders against the I/O thread.",
  "It quantifies over relative speeds of threads.",
  ["src/worker.rs"],
  [("request loop", "src/worker.rs tty_worker")], [], ["time to redraw and to stop"])

p("C29", "A lone Escape is told apart from an escape sequence by its delay",
  "An Escape key press is reported after the documented delay if and only if no further byte of a sequence arrives within it.",
  ["schedules", "inputs"],
  "All arrival times of bytes.",
  "It quantifies over real-time arrival of bytes.",
  ["src/term/cross.rs", "src/term/vt52.rs", "src/lib.rs"],
  [("ESCAPE_DELAY", "src/lib.rs; src/term/*.rs input_thread")], [], ["Escape responses"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
