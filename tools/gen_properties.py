#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if hook: d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Shown completions always belong to the text now on the input line",
  "Whatever the user types and however slowly or in whatever order the completers answer, every suggestion that is offered, displayed or inserted was computed for the exact input text and cursor of the most recent completion request; answers to superseded requests, and answers arriving after the list was dismissed, the cursor moved or the line was submitted, are never shown. At most ten suggestions per completer are offered, in the completer's order.",
  ["schedules", "inputs", "fault_sequences"],
  "all interleavings of keystrokes, the completion engine thread and the completer threads; all completer latencies; completers that answer late, with nothing, or with very many items",
  "the only test of this file is word_start; no test runs the engine threads with a completer that is slow or out of order",
  ["ogma-shell/interface/completions.rs", "ogma-shell/interface/mod.rs"],
  [("request changeset number and package filter", "completions.rs Completions::request / recv"),
   ("request coalescing", "completions.rs run_engine"), ("item limit", "completions.rs loop_completer")],
  ["items offered by the completion list", "drawn frame", "inputs seen by completers"])

p("C02", "Completion suggestions for the final input always arrive",
  "After the user stops typing, every completer is asked about the final input text with the right cursor and word positions, and its suggestions become available within the completer's own running time plus a bounded delay; no schedule loses the last request, starves it behind superseded requests, or deadlocks the completion threads.",
  ["schedules", "inputs", "fault_sequences"],
  "all interleavings of requester, engine and completer threads; all completer latencies and request bursts",
  "no existing test issues two requests in a row or waits for an answer across threads",
  ["ogma-shell/interface/completions.rs"],
  [("channel based engine and per-completer loops", "completions.rs run_engine / loop_completer"),
   ("word start calculation", "completions.rs word_start")],
  ["inputs seen by completers", "items offered after quiescence"])

p("C03", "Cycling through completions replaces exactly the word being completed",
  "Moving up and down a suggestion list changes only the word under completion: the line is always the text before the word, then the highlighted suggestion (or the word as typed when none is highlighted), then the text after the cursor, with the cursor behind the inserted part. Every suggestion is reachable in either direction in list order, with the originally typed word between the last and the first, and no sequence of keys crashes or corrupts the line even when suggestions arrive while cycling.",
  ["inputs", "schedules"],
  "all input texts including multi-byte characters and newlines, all cursor positions, all suggestion lists and all up/down sequences, with suggestions arriving at any moment",
  "unit tests do not exercise highlighting; interface tests cycle over one fixed list",
  ["ogma-shell/interface/completions.rs", "ogma-shell/interface/mod.rs", "ogma-shell/interface/input.rs"],
  [("highlight_next / highlight_prev / replace_with", "completions.rs"), ("mv_completions", "interface/mod.rs")],
  ["input line as drawn", "evaluated command text"])

p("C04", "Terminal events are delivered in order, exactly once",
  "Every key press and resize read from the terminal is handed to the interface exactly once and in the order it was read, at any typing speed and batching, and other terminal events are ignored; a failing terminal read never loses, repeats or reorders the events around it, never stops later events, and the reader never blocks the interface. Reading the next event never waits.",
  ["schedules", "fault_sequences", "histories"],
  "all arrival times, bursts, read errors and reader/consumer interleavings",
  "there is no test of the event thread",
  ["ogma-shell/interface/events.rs"],
  [("reader thread with unbounded channel", "events.rs Events::new"), ("event conversion", "events.rs Event::convert_xt")],
  ["sequence of events returned by the iterator"])

p("C05", "The line editor behaves like a simple text buffer with a cursor",
  "For every sequence of edits (insert, insert text, backspace, delete, clear, cursor left/right by character or word, to start) the line and the cursor equal those of a plain character list with a cursor clamped to its ends: characters are never lost, duplicated, split or reordered, the byte position always falls on a character boundary matching the character position, and the changed flag is raised by every edit that altered the text until it is reset.",
  ["inputs", "histories"],
  "all edit sequences over all Unicode texts",
  "four unit tests sample short ASCII sequences",
  ["ogma-shell/interface/input.rs", "ogma-shell/interface/mod.rs"],
  [("InputBuffer char vector and position", "input.rs"), ("key bindings", "interface/mod.rs process_event")],
  ["input line and cursor as drawn", "text given to decoration, completers and evaluation"])

p("C06", "Command history recalls submitted lines exactly, newest first, bounded",
  "History holds the most recent submitted lines (up to 100) verbatim and in order; walking back from the neutral position yields them newest to oldest and then the empty line, walking forward does the reverse, submitting returns to the neutral position, and walking is safe and yields the empty line when nothing was ever submitted.",
  ["histories", "inputs"],
  "all sequences of submissions and back/forward moves, of any length",
  "two unit tests sample one walk and one overflow",
  ["ogma-shell/interface/history.rs", "ogma-shell/interface/mod.rs"],
  [("bounded vector with optional index", "history.rs"), ("mv_history", "interface/mod.rs")],
  ["recalled line as drawn"])

p("C07", "Each submitted command is evaluated exactly once, as typed, in order",
  "Every press of Enter evaluates exactly the text on the line at that moment, once, in the tab it was typed in, and in the order submitted, and its output is appended to that tab; the way key presses are grouped into batches, delayed or typed ahead never merges, drops, duplicates or alters commands.",
  ["schedules", "histories", "inputs"],
  "all key sequences, arrival times and batch boundaries relative to the interface loop",
  "interface tests feed one command in one pre-formed batch",
  ["ogma-shell/interface/mod.rs"],
  [("events_cycle / process_event / eval", "interface/mod.rs")],
  ["calls of the enter callback", "tab outputs"])

p("C08", "The interface always regains control after a command",
  "While a command runs the interface keeps redrawing; it returns to the prompt promptly when the command finishes, whether it returns, fails or panics, and within a bounded time after the user aborts it with Ctrl+x, however long the command itself keeps running. A finished or aborted command never leaves the interface unable to accept, evaluate and show the next one (only a batch may have to queue for worker threads an aborted batch still occupies).",
  ["schedules", "fault_sequences", "histories"],
  "all evaluation durations (including never-ending and panicking ones), abort times and thread interleavings",
  "no test aborts an evaluation or lets it panic",
  ["ogma-shell/interface/mod.rs", "ogma-shell/lib.rs"],
  [("eval select loop with one second tick", "interface/mod.rs eval"), ("process_seq polling loop", "ogma-shell/lib.rs")],
  ["frames drawn", "time from completion or abort to prompt", "output text"])

p("C09", "Tabs are independent and can be opened, switched and closed at any time",
  "Every tab keeps its own line, history, suggestions, working directory and outputs: keys, outputs and directory changes only affect the tab selected when the key was pressed. Opening, cycling and closing tabs in any order always leaves a valid tab selected, and closing the last tab ends the session cleanly whatever else was typed around it.",
  ["histories", "schedules", "inputs"],
  "all sequences and batchings of tab and editing keys",
  "tests drive one or two tabs through one fixed script",
  ["ogma-shell/interface/mod.rs", "ogma-shell/lib.rs"],
  [("TermState tab vector and selection", "interface/mod.rs"), ("per-tab working directory map", "ogma-shell/lib.rs")],
  ["frames drawn", "enter callback arguments", "session result"])

p("C10", "The interface draws any state on any terminal size without failing",
  "For every input line, cursor, suggestion list, output log, scroll position, theme and tab count, and every terminal size including resizes to tiny sizes at any moment, drawing succeeds; outputs appear newest first, are capped at the latest hundred, and scrolling stays within the log.",
  ["inputs", "histories", "configurations"],
  "all reachable interface states and terminal sizes, with resizes at any point of the event history",
  "tests draw a handful of states on fixed-size screens",
  ["ogma-shell/interface/mod.rs", "ogma-shell/interface/outputs.rs", "ogma-shell/interface/theme.rs"],
  [("draw_frame layout arithmetic", "interface/mod.rs"), ("Outputs limit and scroll clamp", "outputs.rs")],
  ["frames drawn", "absence of panics"])

p("C11", "Shell paths never lead above the root directory",
  "No sequence of `cd`, `run` and path arguments with any mix of relative, absolute, dotted or symlinked components moves a tab's working directory to, or runs a batch file from, a place outside the shell's root; rejected or failing moves leave the working directory unchanged and are reported, and accepted moves land exactly on the named directory.",
  ["inputs", "histories", "fault_sequences"],
  "all directory trees with symlinks, all cd/run sequences per tab, I/O errors at any step",
  "no test exercises cd or run",
  ["ogma-shell/lib.rs"],
  [("canonicalise then prefix check", "ogma-shell/lib.rs validate_path")],
  ["prompt", "outputs", "files opened"])

p("C12", "Opening a file never yields stale or foreign content",
  "`open` returns the content of exactly the named file, as it was at some moment no earlier than a short fixed bound before the call; once a change, replacement, rename or removal of the file or a directory above it is older than that bound, no later open returns what was there before. This holds however opens, file changes, cache expiry and change notifications interleave, for both text and table reads.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of concurrent opens, saves, external file operations and watcher threads; delayed, coalesced or overflowing change notifications; all file names, including names differing only in case",
  "tests open a file once or twice with no concurrent change",
  ["ogma/src/rt/fscache.rs", "ogma/src/lang/impls/intrinsics/io.rs"],
  [("invalidate on notify events", "fscache.rs watch_fs"), ("delay before lookup", "fscache.rs FsCache::get"), ("expiry", "fscache.rs clean_opened_cache_periodically")],
  ["value returned by open"])

p("C13", "A successful save has stored the whole value; a failed one says so",
  "If `save` reports success, the named file under the working directory then contains exactly the saved value's text and an `open` of it returns an equal value for plain cells; if any directory creation, open, write or flush fails, `save` reports an error instead of success, and no I/O fault makes open, save or ls panic, hang or return partial data as if complete.",
  ["inputs", "fault_sequences", "schedules"],
  "all values and tables, all file-system error, short write, short read, interrupt and full-disk sequences",
  "one unit test formats to memory; no test injects an I/O failure",
  ["ogma/src/lang/impls/intrinsics/io.rs"],
  [("buffered write with explicit flush", "io.rs write_file"), ("read and decode", "io.rs read_file")],
  ["result of save/open/ls", "file contents"])

p("C14", "Expressions cannot read or write outside the root directory",
  "No `open` or `save` expression, with any path text (absolute, dotted, through not-yet-existing directories or through symbolic links) and any working directory below the root, creates, truncates, writes or reads a file outside the root directory; refused paths report an error and change nothing on disk.",
  ["inputs", "configurations", "histories"],
  "all path strings, directory trees and working directories",
  "two tests try one absolute and one dotted path each",
  ["ogma/src/lang/impls/intrinsics/io.rs"],
  [("scrub_filepath canonical prefix check", "io.rs"), ("component count check", "io.rs save_intrinsic")],
  ["files created, written or read"])

p("C15", "A batch accounts for every item exactly once, in place",
  "For every batch, processing returns one outcome per item in item order: definitions are processed first, in order, and are visible to every expression; each expression is evaluated at most once; and an item is reported successful or failed exactly when it was processed and did so by itself, independent of the other items and of scheduling; where parallel processing is switched off, in the file or by `--no-par`, the expressions are evaluated one after the other in the order of the file.",
  ["schedules", "programs", "fault_sequences"],
  "all batches of definitions and expressions, thread counts and interleavings, expressions that fail or perform faulty I/O",
  "tests run two fixed batch files once each and compare outcomes without controlling the schedule",
  ["ogma/src/rt/bat.rs", "bin/main.rs"],
  [("two phase processing with indexed results", "bat.rs process")],
  ["returned outcomes", "side effects on files"])

p("C16", "Parallel and sequential batch processing agree",
  "Without fail-fast or cancellation, processing a batch in parallel gives the same outcome and the same error for each item as processing it sequentially, for every schedule, provided its expressions do not depend on each other's side effects.",
  ["schedules", "programs"],
  "all batches, thread counts and interleavings",
  "tests compare fixed batches under whatever schedule the machine produced",
  ["ogma/src/rt/bat.rs", "ogma/src/lang/impls/intrinsics/morphism.rs"],
  [("parallel map over expressions", "bat.rs process"), ("immutable shared definitions", "lang/defs.rs")],
  ["returned outcomes"])

p("C17", "Batch cancellation and fail-fast stop further items and are reported",
  "Once cancellation is requested no further item starts, and every item not processed is reported as cancelled; with fail-fast, once an item has failed no further item starts after that failure is known, unprocessed items are reported outstanding, and every failure that happened is reported; without fail-fast a failure never stops other items. Items that were processed keep their own outcome.",
  ["schedules", "fault_sequences", "programs"],
  "all batches, cancel times relative to every item, failing subsets, fail-fast and parallel flags, interleavings",
  "no test cancels; fail-fast is tested on one sequential file",
  ["ogma/src/rt/bat.rs"],
  [("stop predicate checked before each item", "bat.rs process")],
  ["returned outcomes", "items that started"])

p("C18", "Batch progress reports are consistent and complete",
  "Each processed item produces exactly one progress report; every report lists all items in order (each with its comment, file, line and kind), an item's status never changes once it is reported processed, and the last report agrees with the returned outcomes for all processed items, under every parallel schedule.",
  ["schedules", "programs"],
  "all batches and interleavings of parallel items",
  "no test reads a progress report",
  ["ogma/src/rt/bat.rs"],
  [("report under one lock", "bat.rs report_progress")],
  ["messages sent on the progress channel"])

p("C19", "Table expressions give schedule-independent results",
  "Evaluating an expression over tables gives the same value, or the same error, on every run: it does not depend on the number of worker threads, on how rows are divided between them, or on the order in which they finish, and rows keep their positions.",
  ["schedules", "programs", "inputs"],
  "all table expressions and tables, thread counts and interleavings of the row workers",
  "tests compare single outputs under whatever schedule the machine produced, and never two simultaneous row errors",
  ["ogma/src/lang/impls/intrinsics/morphism.rs", "ogma/src/eng/eval.rs", "ogma/src/eng/arg.rs"],
  [("indexed parallel collect over rows", "morphism.rs"), ("shared error slot", "morphism.rs")],
  ["value or error returned"])

p("C20", "Values are immutable: evaluation never changes a table someone else holds",
  "No expression changes a table that is also held elsewhere: cached files, variables, columns of nested tables, and tables being used by other threads keep their contents whatever filters, maps, sorts, appends and removals are applied to copies of them, concurrently or later, and the result is the same whether or not the table was shared.",
  ["schedules", "programs", "histories"],
  "all pipelines over shared tables and all interleavings of concurrent evaluations",
  "tests evaluate each table once from a fresh value",
  ["ogma/src/lang/types.rs", "ogma/src/lang/impls/intrinsics/morphism.rs", "ogma/src/rt/fscache.rs"],
  [("Arc table with copy-on-write get_mut", "types.rs Table")],
  ["values returned", "repeat evaluation of the same source"])

p("C21", "Definition files load whole or not at all",
  "Loading definitions from a file makes every definition of a well formed file available together; a file that cannot be read, or any definition of which is not accepted, is reported as an error and adds nothing, whatever I/O fault strikes at whatever point, and leaves previously loaded definitions usable. Text inside a definition (strings, names, comments) is never taken for an instruction to load, list or clear. Clearing keeps built-in commands and removes exactly the user definitions, and redefinition replaces only the redefined entry.",
  ["fault_sequences", "histories", "schedules"],
  "all definition files, load/clear/evaluate histories, I/O faults and interleavings of loader and evaluators",
  "tests load fixed strings once, with no fault and no concurrency",
  ["ogma/src/lang/defs.rs", "ogma-shell/lib.rs", "ogma-ls/workspace.rs"],
  [("Definitions add_from_* / clear", "lang/defs.rs"), ("RwLock around definitions", "ogma-ls/workspace.rs")],
  ["results of evaluating defined commands"])

p("C22", "The language server's document text always equals the editor's",
  "Once the editor's notifications for a document have been handled, the server's text for it, as seen through hovers and completions, equals the editor's text after the same opens and incremental or full edits; a request is answered for the document state at the point in the message stream where the request was sent. This holds for every worker schedule and any UTF-16 edit positions.",
  ["schedules", "histories", "inputs"],
  "all sequences of open/change/save notifications and requests, all edit ranges and texts, all worker interleavings",
  "the language server has no tests of its message handling",
  ["ogma-ls/server/mod.rs", "ogma-ls/server/file_mgmt.rs", "ogma-ls/workspace.rs", "ogma-ls/lib.rs"],
  [("version ordered pending change queue", "workspace.rs File"), ("worker dispatch", "server/mod.rs handle_notification")],
  ["hover and completion responses"])

p("C23", "Every language server request gets exactly one matching response",
  "The server answers every request it receives with exactly one response bearing the request's id: a result, or an error for unknown methods, malformed parameters or failing handlers; notifications never produce responses, and no request, valid or not, stops the server from answering later ones.",
  ["schedules", "inputs", "histories"],
  "all message sequences with known, unknown and malformed requests, any ids, all worker interleavings",
  "the language server has no tests of its message handling",
  ["ogma-ls/server/mod.rs", "ogma-ls/server/initialize.rs", "ogma-ls/server/completion.rs", "ogma-ls/server/hover.rs"],
  [("request dispatch with id captured", "server/mod.rs handle_req")],
  ["messages sent to the client"])

p("C24", "Command definitions known to the language server match its documents",
  "After an open or save notification has been handled, the server knows exactly the commands and types defined by the texts of its documents at that point (the files given to it when started, and those opened), in addition to the built-in ones, whatever the order of documents which use each other: definitions removed from a document disappear, a document that does not parse does not remove those of other documents, and concurrent requests never see a half-loaded set.",
  ["schedules", "histories", "programs"],
  "all open/change/save/request sequences over several documents and all worker interleavings",
  "the language server has no tests of definition reloading",
  ["ogma-ls/workspace.rs", "ogma-ls/server/file_mgmt.rs"],
  [("clear and reload under the definitions write lock", "workspace.rs def_load")],
  ["completion and hover responses"])

p("C25", "Batch files given on the command line run in order and set the exit status",
  "Running the program on batch files processes the files in sorted order, each with the loaded definitions and without leaking definitions between files; it exits successfully only if every item of every file succeeded, stops at the first file with a failed item, and prints one line per item when verbose.",
  ["programs", "fault_sequences", "configurations"],
  "all lists of batch and definition files, failing items, unreadable files and quiet/verbose settings",
  "tests only parse the command line",
  ["bin/main.rs", "bin/app.rs"],
  [("process_files loop", "bin/main.rs"), ("exit code", "bin/main.rs main")],
  ["exit status", "standard output and error"])

p("C26", "Command line text maps to one configuration",
  "Every command line is either rejected with an error or yields exactly the stated files, definitions and quiet flag.",
  ["inputs"],
  "all argument vectors",
  "two tests sample a few argument vectors",
  ["bin/app.rs"],
  [("clap derive declaration", "bin/app.rs App")])

with open("/verif/properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
