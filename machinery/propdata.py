# Executed by mkprops.py.  prop(id, title, statement, over, text, why, files,
# mechanism, check=(technique, note) | na=reason)

prop('C01', 'Output reaches the device exactly once and in order',
     'Every byte accepted by a terminal write operation is passed to the output device exactly once and in the order in which it was accepted, whatever mixture of short writes, interrupted writes and failed writes the device produces. '
     'A failed write leaves the bytes not yet accepted by the device queued for the next attempt; a direct (unbuffered) write never overtakes buffered output. '
     'A write that makes no progress is reported as an error instead of being retried for ever.',
     ['inputs', 'fault_sequences', 'histories'],
     'every sequence of write and flush operations, of any length and content, and every result (count, interruption, error) of every device write',
     'No test writes to a device; the unit tests cover the in-memory screen buffer, the sequence map and signal sets only. A device has to return short counts at chosen points.',
     [UT], [('buffered writer and its flush', UT)],
     state=[('output buffer', 'accepted bytes not yet taken by the device', UT)],
     check=(AI + ' with a ghost stream position',
            'Sound for the modelled library calls: every path of the public write, flush and drop operations is interpreted over a relational domain (linear equalities and BDD path conditions), with the device modelled as taking any prefix or failing at any call. Trusts rustc MIR and the library models.'))

prop('C02', 'Queued output is handed to the device before anyone can wait for it',
     'When a terminal write guard is released, the output queued through it is offered to the device before another thread can take the lock. '
     'An explicit flush and a screen refresh return success only when nothing is left queued, and switching the terminal into or out of its prepared mode writes the queued mode sequences out before success is returned; in the restoring direction before the saved device attributes are put back.',
     ['histories', 'fault_sequences', 'schedules'], 'every path through the releasing, flushing, refreshing, preparing and restoring operations, with any device result',
     'The tests never hold a write guard, so no release, refresh or prepare path is executed.',
     [UT, US], [('flush on guard drop and before attribute changes', UT), ('flush at the end of refresh', US)],
     check=('AI: path-sensitive abstract interpretation of MIR with modular call summaries (queue length and last device outcome tracked to every lock release and success return)',
            'Every public operation and destructor is explored over all paths; functions that take and release their own locks are summarised and checked as entries of their own. The device write is any outcome (short, zero, error, interrupted).'))

prop('C03', 'Locks are taken in one global order and never twice',
     'All operations acquire the read lock, the terminal write lock and the screen data lock in one fixed order, so that no two threads using the public interface can deadlock each other, and no operation waits for a lock which it, or the guard it is called on, already holds. '
     'Reads from the input device happen only while the read lock is held, and writes to the output device only while the write lock is held.',
     ['schedules', 'programs'], 'every public operation of terminals, screens and their guards, along every call path, including drops on unwinding',
     'A deadlock needs two threads at particular points; the tests are single-threaded and open no terminal.',
     [UT, US, T, S], [('reader and writer mutexes of a terminal', UT), ('data mutex of a screen', US)],
     check=("lock-order analysis: abstract interpretation with the set of live guards, over both platforms' MIR",
            'Every public operation and destructor, all lock outcomes (free, poisoned, contended); functions that acquire nothing are summarised by the device calls they reach in the call graph. Try-locking cannot wait and is exempt from the order. Unwinding runs only destructors of guards, which are shown to acquire nothing.'))

prop('C04', 'Restoring gives back exactly what preparing changed',
     'A successful prepare followed by a successful restore of its state leaves the terminal device attributes, every signal disposition and the reported-signal set as they were found, and emits the sequence that turns off keypad mode exactly if prepare turned it on, and the sequences that turn off every mouse mode that prepare turned on. '
     'Dropping a screen restores the state its creation saved and leaves the alternate screen, and a screen whose creation fails after preparing undoes what it did.',
     ['configurations', 'histories', 'fault_sequences'], 'every prepare configuration, every previous disposition, and every path through the two operations and through screen creation and drop',
     'No test prepares a terminal; dispositions and device attributes are process-wide state that the unit tests never look at.',
     [UT, US], [('state saved by prepare', UT), ('drop of a screen', US)],
     check=('AI: symbolic interpretation of prepare followed by restore on the state it returned (device attributes as bit vectors, signal dispositions as symbols), plus a typestate analysis of screen constructors and destructor',
            'All configurations, terminals, capabilities and prior device states; every OS call may fail. Unix only. Model assumption: nix keeps the attribute bits it does not name.'))

prop('C05', 'Device attributes follow the prepare configuration',
     'After prepare the terminal device delivers input unbuffered and unechoed with carriage returns untranslated, delivers signals for control characters exactly when the configuration does not block them, and honours output flow control exactly when the configuration enables it; all other attributes keep their previous values. '
     'Keypad and mouse modes are switched on exactly when the configuration asks for them and the terminal supports them, and motion tracking only when asked for.',
     ['configurations'], 'all 2^5 boolean settings and every reported-signal set, over any previous device attributes',
     'No test calls prepare, and the default configuration is one of many.',
     [UT], [('flag edits in prepare', UT)],
     check=('AI: symbolic interpretation of prepare with device attributes as bit vectors, compared bit by bit with the configuration',
            'All configurations, terminals and prior attributes. Support of the mouse is decided only where the terminal name is compared with constants. Unix only.'))

prop('C06', 'Signal handlers do only async-signal-safe work',
     'The function installed as a signal handler, and everything it calls, neither allocates, locks, blocks, formats, panics nor calls into the operating system: it only performs atomic stores.',
     ['schedules', 'programs'], 'every point at which a signal can interrupt the program, and every function reachable from the handler',
     'A signal must arrive inside an allocator or a lock for the fault to show; no test installs a handler.',
     [UT], [('installed handler', UT)],
     check=('effect analysis over the call graph of the handlers (monomorphic MIR), plus abstract interpretation of the handler for reachable panics',
            'Complete for code compiled into the crate and the inlined standard-library bodies; anything else reached from a handler, other than atomic operations, is reported.'))

prop('C07', 'Signals are installed, reported and restored under the same name',
     'Each signal the user asks to have reported is the one whose operating-system counterpart gets the handler, is the one reported when that counterpart arrives, and the one whose previous disposition is put back by restore. '
     'Signals that were not asked for keep their disposition, except resize and continue, which are always handled; a handled signal that was not asked for is not reported as a signal event. A signal does not disappear because another arrives before it has been read.',
     ['configurations', 'inputs'], 'every signal, every reported-signal set and every signal number the handler may store',
     'The tests exercise set algebra on signal names only, not the link between names and operating-system signals.',
     [UT, SG], [('installation and conversion of signals', UT)],
     check=('abstract interpretation of prepare/restore (signal dispositions), the signal handler and all reading operations over MIR, with symbolic signal sets',
            'Up to two signals pending or arriving per operation (the second must not displace the first)'))

prop('C08', 'Continue and resize take effect before the reader goes on',
     'When the process is continued after a stop, the next read prepares the terminal again with the configuration of the innermost active prepare, and with none if there is no active prepare. '
     'A resize is reported as an event carrying a newly queried size, and a screen adopts that size, and will redraw everything, on every reading path before the event is returned.',
     ['histories', 'schedules'], 'every reading operation of terminals and screens, and every interleaving of prepare, restore, stop and resize',
     'Needs signals delivered between reads of a real terminal.',
     [UT, US], [('signal handling in the reading operations', UT), ('size update of a screen', US)],
     check=('abstract interpretation of reading operations, prepare and restore over MIR with ghost state for the signal taken, the configuration prepared and the size queried',
            'One signal per operation; the redraw itself is decided with the buffer properties'))

prop('C09', 'An interrupted system call never surfaces as an error',
     'No reading, waiting, writing or flushing operation returns an error because a system call was interrupted by a signal: the call is repeated, or the signal is reported as an event. '
     'A repeated device write starts at the first byte that the device has not taken.',
     ['schedules', 'fault_sequences'], 'every device call in those operations, interrupted any number of times',
     'A test would have to deliver a signal inside each system call.',
     [UT], [('interruption handling around select, read and write', UT)],
     check=('abstract interpretation of MIR with interruption ghost state and operation summaries',
            'Every public operation is interpreted with each device call interruptible; models one interruption outstanding at a time per call; a raw libc call in place of the nix wrapper makes the check undecided'))

prop('C10', 'Device and terminfo errors reach the caller',
     'If an operating-system call or the expansion of a terminal capability fails (other than by interruption) during a public operation that returns a result, that operation returns an error; success is returned only if every such step succeeded. '
     '(The flush or refresh performed when a lock guard is dropped has no result; its failure is printed on standard error.)',
     ['fault_sequences'], 'every failing step of every public operation returning a result',
     'The tests cannot make a chosen system call fail, and none of these operations is tested.',
     [UT, US], [('error propagation', UT)],
     check=('modular abstract interpretation of MIR: outcome sets (result, failed step) per function, computed bottom-up, every system call and expansion failing in turn',
            'Unix code; every system call, capability expansion and terminfo lookup may fail once; functions of the crate are replaced by their computed outcomes; steps inside destructors do not count'))

prop('C11', 'Screen buffer operations stay in bounds for every size and text',
     'For every screen size, cursor position and text, no screen buffer operation panics or touches a cell outside the screen; a write outside the screen is refused or ignored, and the two cell arrays always hold exactly as many cells as the screen has. '
     'A wide character is stored only where both of its cells lie on the same line.',
     ['inputs', 'histories'], 'every size (including empty and one-column screens), cursor and text, and every sequence of operations including resizes',
     'Four unit tests on three fixed small sizes; the faults sit at sizes and cursor positions not sampled.',
     [B, T], [('bounds checks before cell access', B)],
     state=[('cell arrays', 'what is drawn and what the terminal shows', B)],
     check=('abstract interpretation: index ranges and products of dimensions as linear relations over every screen size',
            'Every public operation of the screen buffer is interpreted from an arbitrary proper state: any size, cursor, attributes, text and cell contents, array lengths related to the size by a product symbol. Inductive: each operation must return with both arrays of length lines*columns. Every panicking construct reached (index, slice, arithmetic overflow, unwrap, division) must be infeasible; a drawing refused as out of bounds must not have changed cells; a character stored in the visible array must lie with all its columns on its line.'))

prop('C12', 'Screen cells never hold control characters',
     'The text of a screen cell is always one visible character followed only by combining marks, so that what refresh sends to the terminal for a cell can neither move the cursor nor inject a control sequence.',
     ['inputs', 'histories'], 'every text written to a screen',
     'The property is about every character; the tests write a handful.',
     [B], [('classification of characters before storing', B)],
     check=('abstract interpretation: greatest fixpoint of what every operation keeps true of cell texts',
            'Cell texts carry a typestate (one visible character followed by combining marks), established at each store from the classification the code itself performs (width Some(n>=1), combining mark) on the same character; greatest level of the arrays every public operation preserves is computed as a fixpoint and each cell handed out for display must have it.'))

prop('C13', 'Refresh puts every changed cell at its position with its attributes',
     'A refresh sends each changed cell once: the cursor is first moved to the cell unless it is already known to be there, and the attributes in force when the text is sent are those of the cell. '
     'The remembered cursor position always equals the position the terminal has after what was sent, or forces a move, and a pending full redraw clears the terminal before any cell is sent. '
     'After a successful refresh no changed cell is left, the terminal\'s cursor is where the drawing cursor is (the last position if that is outside the screen) and plain attributes are in force.',
     ['histories', 'inputs'], 'every buffer content, diff pattern, screen size and history of refreshes and resizes',
     'No test refreshes a screen; faults need particular diff patterns.',
     [US, B], [('refresh and cursor tracking', US)],
     check=('abstract interpretation: the scan by one inductive step over the cell arrays, the refresh over a ghost device (cursor, attributes, scan order)',
            'Step one interprets the scan from an arbitrary index with as many indices as the character there has columns: it hands the cell out with its position after recording it as shown, or every field is equal; overlapped columns are skipped and recorded as unknown. Step two interprets every refreshing and reading operation with the scan replaced by that contract and device operations by their effect on a ghost cursor and attributes, from every consistent relation of tracked and real cursor (equal, forced move by column or line, pending redraw, new screen) times every place of the drawing cursor. Every buffer operation is classified by what it does to the record of shown cells. Assumes a character ending at the last column leaves the cursor anywhere, and that clearing homes it.'))

prop('C14', 'Remembered colours and styles match what the terminal was told',
     'After every attribute operation that succeeds, the foreground, background and style the library remembers are those put into force by the sequences it has sent, and they are the ones requested. '
     'Hence a repeated request may be skipped, and clearing attributes leaves plain text, whatever was set before.',
     ['histories', 'inputs'], 'every sequence of attribute operations with any colours and styles, on any terminal providing the attribute capabilities',
     'Attribute operations need a terminal; none is tested, and the faults need a particular previous state.',
     [UT], [('attribute cache', UT)],
     state=[('attribute cache', 'colours and style last sent', UT)],
     check=('abstract interpretation of the MIR of every attribute operation over a ghost terminal, by induction over nested operations; call-graph and field-write confinement',
            'Each attribute operation (set/add/remove/clear, themes, styled text) is interpreted from an arbitrary state in which the remembered colours and style are those in force on a ghost terminal; sequences sent change the ghost by their meaning in terminfo. At every success the ghost, the memory and the request must agree (colour numbers included); styled text must be sent while its attributes are in force. No other function may write the remembered fields or send attribute capabilities, and a new terminal remembers the defaults. Unix implementation; terminals that provide the attribute capabilities.'))

prop('C15', 'Each public operation performs the operation it names',
     'Every method of the terminal, the screen and their guards performs the platform operation of the same meaning on the same object, passing each argument through unchanged and in its own position and returning that operation\'s result; locking variants do the same under the lock. '
     'The convenience methods for one style do what adding that style does.',
     ['programs', 'inputs'], 'every public method and every argument',
     'Over 150 one-line forwarding methods, of which no test calls any on a terminal or screen.',
     [T, S, US, B], [('forwarding methods and macros', T + ', ' + S + ', ' + B)],
     check=("abstract interpretation down to traces of base operations, on both platforms' MIR",
            'Values are compared symbolically for all arguments; generic methods at the instantiations in witness.rs; equivalent notations are normalised. What the base operations do is decided by C01, C11, C14, C18 and C27.'))

prop('C16', 'Formatting macros apply their elements in order, each as documented',
     'Every element form documented for the printing macros performs the documented call on the locked terminal or screen, elements take effect from left to right, and on terminals nothing after a failing element is performed. '
     'The line variant appends exactly one newline after all elements.',
     ['programs'], 'every documented element and any sequence of them',
     'The documentation example is compiled but not run; no test expands most elements.',
     ['src/macros.rs'], [('element rules', 'src/macros.rs'), ('chaining of results', 'src/macros.rs')],
     check=('abstract interpretation of witness expansions of every macro element, down to traces of base operations',
            'One expansion per documented element and target, plus sequences; the text and trait of formatted values are read from the compiled format template. Arbitrary sequences follow because each element only chains onto the previous result.'))

prop('C17', 'Terminal input decodes to the documented keys, mouse and colour codes',
     'Each terminfo key capability decodes to the key it describes, every single character to its documented key, and every complete mouse report to its button, modifiers, kind and zero-based position. '
     'Each colour is sent as its standard number.',
     ['inputs'], 'every key capability, every character, every mouse report with any numbers, and every colour',
     'No test decodes input; the tables have dozens of entries.',
     [UT, T], [('key, mouse and colour tables', UT), ('character to key conversion', T)],
     check=("abstract interpretation of the decoding functions' MIR over symbolic capability strings, digits and report numbers",
            'The key table for every capability, the 33 control characters plus all others symbolically, all digit strings, all mouse reports with arbitrary numbers, all colours. Which pending bytes form a sequence is decided by C18 and C22.'))

prop('C18', 'Input bytes are neither lost nor duplicated',
     'Every byte read from the input device is delivered exactly once, in order, either as part of one decoded event or as raw data, across any mixture of event reads, raw reads, timeouts, signals and errors; only bytes that are not valid text are dropped, exactly these, when the error about them is returned. '
     'Decoding an event removes exactly the bytes that formed it, and raw reads hand out the oldest pending bytes first, reporting their exact number.',
     ['inputs', 'histories', 'fault_sequences'], 'every input byte sequence, every chunking of it by the device, and every mixture of reading operations',
     'No test reads input.',
     [UT], [('input buffer', UT)],
     check=('abstract interpretation of the MIR with stream-position accounting (ghost stream positions carried by buffers); contract of the decoder shown by a prophecy-style typestate over its lookups; call-graph confinement',
            'Every operation of the read guard is interpreted from any pending input with reads of any length, failures, timeouts and signals: where it returns, the bytes delivered and those still pending must make up the stream. The decoder is interpreted over any text and any outcome of each lookup: the length it reports is that of the sequence whose lookup gave the event, plus the mouse report, or of the first character. Nothing discards input held by the system (TCSAFLUSH, tcflush). Unix implementation.'))

prop('C19', 'No terminal input, size or timeout makes the library panic',
     'Whatever bytes the terminal sends, whatever window size it reports and whatever timeout the caller passes, the reading, waiting, moving, drawing and screen operations return a result instead of panicking, and invalid input is skipped rather than blocking all further reading. (Descriptors are taken to be within the range select can wait for; positions and sizes given to helper functions such as Cursor::as_index within their documented range.)',
     ['inputs', 'configurations'], 'every input byte sequence, window size (including zero), timeout, movement count and cursor position',
     'The tests feed no terminal input, no window size and no timeout.',
     [UT, US, T], [('input parsing', UT), ('size and timeout arithmetic', UT)],
     check=('abstract interpretation of the MIR, function by function with summaries of callees (greatest fixpoint of functions that cannot panic)',
            'Every function of the crate is interpreted from arbitrary arguments and state: assertions, arithmetic, indexing, slicing, text boundaries, unwraps, and preconditions of time arithmetic. A function that can panic for some arguments is examined as part of its callers; no public operation may remain. Screen buffer operations are interpreted with the invariant of C11. Unix implementation. Invalid input being skipped is rule invalid-dropped of C18.'))

prop('C20', 'File descriptors are closed exactly when owned, once, and last',
     'A terminal opened from a path closes its descriptor exactly once: on a failed open before returning the error, otherwise when dropped, after its last use; a terminal on the standard streams never closes them.',
     ['histories', 'fault_sequences'], 'every path through opening, failing and dropping a terminal',
     'A double or missing close is invisible to the unit tests, which open no terminal.',
     [UT], [('ownership flag and close on drop', UT)],
     check=('typestate analysis of descriptors by abstract interpretation of the constructors and of dropping what they return, plus call-graph reachability of closing primitives',
            'Every path through the constructors, with each terminfo lookup, open and device call succeeding or failing and each lock clean or poisoned; descriptors are followed as symbolic values. Unix only: the Windows terminal owns no descriptor.'))

prop('C22', 'Sequence maps stay sorted and unique, and lookups agree with them',
     'A sequence map built by any means keeps its keys strictly increasing; insertion, entry, lookup and removal act at the position of the searched key. '
     'A partial-match lookup reports found or not from an exact match and more to come exactly when the next key starts with the searched text.',
     ['inputs', 'histories'], 'every key set, every operation sequence and every searched text',
     'The tests look up a few fixed keys in one small map.',
     [Q], [('binary search and insertion at its result', Q)],
     state=[('sorted vector of keys', 'map content', Q)],
     check=('abstract interpretation of MIR with binary search modelled by its contract, the comparison closures interpreted',
            'Every public operation of sequence maps, at one instantiation of the generic code; strict order and uniqueness follow from insertion at the insertion position of the own key, replacement of equal keys only, and stable sort followed by deduplication.'))

prop('C23', 'Signal sets implement set algebra over exactly the six signals',
     'Each signal has its own membership bit, and every signal set operation and operator computes the set operation it is named after, for all sets; the complement never contains anything but the six signals.',
     ['inputs'], 'all sets and all signals, for every operation, operator and assignment operator',
     'The tests combine a few chosen sets; 64 x 64 pairs for each of many operators.',
     [SG], [('bit representation', SG)],
     check=('abstract interpretation of MIR with BDDs over symbolic membership bits',
            'All 64 x 64 pairs of sets and all signals at once, for every operation, operator and loop; sets are built and read through the crate\'s own operations, so the representation is not prescribed.'))

prop('C24', 'Unsafe code never exposes invalid data',
     'Bytes of a buffer that the input device has not filled are never exposed after a read, on success, failure or interruption; text built without checking is known to be valid; the window-size query passes a record of the layout the system call expects, and reports its numbers as lines and columns.',
     ['fault_sequences', 'inputs'], 'every unsafe block and every outcome of the call inside it',
     'Exposed uninitialised bytes look like ordinary bytes to a test.',
     [UT], [('unsafe blocks', UT)],
     check=('abstract interpretation of every function with a length change, unchecked text, uninitialised value or window-size query, with the number of filled bytes as ghost state',
            'A buffer whose length is raised carries a mark until its length is known to be within the bytes a device read, copy or fill has stored; private helpers are judged in their callers. Unchecked text needs a check of the same bytes on the path; the record of the window-size query is checked by layout (from rustc) and by which of its numbers become lines and columns. Values made of zero bytes are checked by type on both platforms; other calls of the Windows console interface are not looked into.'))

prop('C25', 'Misuse of terminals and guards does not compile',
     'A guard cannot outlive or move away from the terminal or screen it locks, two screens cannot share a terminal, a prepare state can be neither duplicated nor silently dropped without a warning, guards stay on the thread that locked them while terminals and screens may be shared between threads, and the platform extension traits cannot be implemented by other crates.',
     ['programs'], 'every client program', 'A test that compiles cannot show that other programs do not.',
     [T, S, PU], [('borrows in the guard types, move-only states, sealed traits', T)],
     check=('compile-fail witnesses with compiling twins, decided by the Rust type and borrow checker',
            'Each misuse family is witnessed by client programs that must be rejected with the expected error at the marked line; a generic argument (the type system) covers other programs of the family, the witnesses sample its statement.'))

prop('C26', 'Lock poisoning and contention are reported as what they are',
     'Locking operations return an ordinary guard exactly if no involved lock is poisoned, a poison error carrying a usable guard if one is, and try-locking reports contention exactly if a lock is held, never waiting; a partly acquired pair is released.',
     ['schedules', 'fault_sequences'], 'every combination of free, held and poisoned locks', 'Needs panicking threads holding locks; no test does.',
     [PU, UT, US], [('mapping of lock results', PU)],
     check=("path-sensitive abstract interpretation of the locking operations over all lock outcomes, on both platforms' MIR",
            'Each involved mutex is free, poisoned or held on the analysed paths, all combinations, consistently per path.'))

prop('C27', 'Movement and clearing send the capability they name, or say unsupported',
     'Each cursor movement, clearing, cursor-mode and screen-switching operation sends the expansion of the terminfo capability for exactly that effect with exactly the given amounts, in the capability\'s parameter order, and sends nothing for a movement by zero. '
     'If a required capability is missing the operation returns an error, movements, positioning and clearing then having sent nothing; a missing optional capability is skipped.',
     ['inputs', 'configurations'], 'every operation, amount, position and set of capabilities the terminal provides',
     'No test sends a capability.', [UT], [('capability expansion', UT)],
     check=('abstract interpretation of MIR, tracing expansions of terminfo capabilities with their parameters',
            "All amounts, positions, window sizes and subsets of the relevant capabilities symbolically; what a capability's expansion contains is the terminfo database's business."))

prop('C29', 'Both platforms offer the same interface with the same meaning',
     'The Windows implementation provides every operation that the platform-independent interface forwards to, with the same argument and result types, takes its locks in the same order as the Unix one, and maps each console key, signal and colour to the same names.',
     ['configurations', 'programs'], 'every operation of the Windows implementation', 'Windows code is not compiled by the tests here.',
     ['src/windows/terminal.rs', 'src/windows/screen.rs'], [('sibling platform modules', 'src/lib.rs')],
     na='That both platforms offer the same operations, forward them alike and take the same locks is part of C03, C15, C16, C20, C25 and C26, which also analyse the Windows build. What a console key, colour or mode means is defined by the Windows console; no rule over this source decides it.')

prop('C33', 'Drawing changes exactly the cells, cursor and attributes it should',
     'A visible character drawn on a screen buffer goes into the cell at the cursor with the current attributes, or, if too few columns are left, to the start of the next line after filling the rest with spaces; further columns it covers hold spaces, a wide character it partly overwrites is replaced by a plain blank, every other cell keeps its contents, and the cursor ends after it, wrapping at the end of a line. A tab draws spaces up to the next multiple of eight columns or the end of the line, a newline and a carriage return only move the cursor, a combining mark joins the character before the cursor, other characters do nothing. A text is drawn character by character in order until one does not fit; drawing at a position starts there; styled drawing uses the given attributes and leaves none; the operations for cursor and attributes change just what they name, and clearing leaves every cell blank and plain.',
     ['inputs', 'histories'], 'every screen size, cursor position, cell contents, attributes and character (by width 1 to 3), and every text',
     'The tests draw a few strings on screens of a few cells.',
     [B], [('write_char, write_str, write_styled and the setters', B)],
     check=('abstract interpretation of each drawing operation by kind of character and position, with a record of the cells written',
            'The drawing of one character is interpreted in 117 cases that partition characters (tab, newline, return, combining mark, width 1, 2, 3, other) and positions (room, exact fit, too little room, last line, outside; columns 0, 1, more), each with symbolic size, position, contents and attributes; loops are followed for up to 14 rounds, which all cases stay within. Text operations are interpreted with the drawing of one character replaced by that statement.'))

prop('C30', 'Timeouts bound waiting time',
     'A read or wait with a timeout returns no later than that timeout after it started, plus scheduling delay, and without a timeout only when an event occurs.',
     ['schedules', 'inputs'], 'every timeout and arrival time of input and signals', 'Depends on real time.',
     [UT], [('select timeout', UT)],
     na='The statement is about elapsed real time and the kernel\'s select; no source-level rule decides it. (Clauses visible in the code are in C09 and C19.)')

prop('C31', 'The terminal shows the picture that was drawn',
     'After a successful refresh the visible screen equals the screen buffer.',
     ['histories', 'inputs'], 'every drawing history and terminal', 'Depends on the terminal.',
     [US, B], [('refresh', US)],
     na='Quantifies over the behaviour of the terminal emulator and its character-width tables; the parts decided by the code are claimed as C11 to C14.')

prop('C32', 'Character helpers are right for every character',
     'Exactly the characters below U+0020 count as control characters; the character given for a control character is the one documented (upper or lower case), and converting it back gives the same control character; the control character of every letter is the one documented. The prefixes of a text are given in order, each ending after one more whole character, up to the whole text. None of this panics for any character or text.',
     ['inputs'], 'every character and every text', 'The unit tests stop at U+00FE and at ASCII texts.',
     [UT2], [('control-character helpers, Prefixes', UT2)],
     check=('abstract interpretation with bit vectors over a partition of all characters',
            'The helpers are interpreted on characters as vectors of symbolic bits, in 17 cases by highest bit, and compared exactly with the documented results. The prefix iterator is interpreted at its start and at an arbitrary position.'))
