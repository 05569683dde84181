#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)

I = "include/cli/"
CLI = I + "cli.h"
HIST = I + "detail/history.h"
REM = I + "detail/genericasioremotecli.h"
SRV = I + "detail/server.h"
KB = I + "detail/linuxkeyboard.h"
CP = I + "detail/commandprocessor.h"
TERM = I + "detail/terminal.h"
IDEV = I + "detail/inputdevice.h"
LOOP = I + "loopscheduler.h"
GAS = I + "detail/genericasioscheduler.h"
GCS = I + "detail/genericcliasyncsession.h"

p("C01", "Command lines are split by the documented quoting rules",
  "Blanks (space, tab, newline) separate the tokens of a command line; text inside a pair of matching single or double quotes is one token that keeps its blanks, '!' and quotes of the other type, an opening quote always starts a new token, a backslash makes a following quote or backslash literal and is itself kept before any other character, and an unquoted '!' is a token of its own. "
  "Empty tokens never reach a command. Any non-empty argument can therefore be passed verbatim by enclosing it in quotes and backslash-escaping the quotes and backslashes in it.",
  ["inputs"], "every command line", "About 40 hand-picked lines are tested; the rules interact (escape inside quote after word, '!' next to quotes), so every combination matters.",
  [I + "detail/split.h", CLI], [("Text state machine: space/word/sentence/escape", I + "detail/split.h"), ("CliSession::Feed", CLI)],
  observe=["detail::split()", "arguments received by a list-of-strings command handler"])

p("C02", "Integer, bool and char arguments are converted exactly or refused",
  "For every integer parameter type a command accepts a token exactly when it is an optional sign ('-' only for signed types) followed by one or more decimal digits whose value fits the type, and the handler receives exactly that value. "
  "A bool parameter accepts exactly true, false and the integers 0 and 1; a char parameter accepts exactly one-character tokens. Every other token makes the command not match, and its handler is not called.",
  ["inputs"], "every token, for every integer type, bool and char", "Tests try a handful of values per type and one huge number; range boundaries of each width (especially the overflow arithmetic) are not reached.",
  [I + "detail/fromstring.h", CLI], [("signed_from_string/unsigned_from_string overflow test", I + "detail/fromstring.h"), ("Select::Exec conversion, bad_cast means no match", CLI)],
  observe=["value received by the handler", "wrong-command handler"])

p("C03", "Floating point, string and user-defined arguments consume the whole token",
  "A float, double or long double parameter accepts a token exactly when the C conversion function (strtof/strtod/strtold) consumes all of it without range error and it contains no blank, and the handler receives exactly that value; a string parameter receives the token unchanged. "
  "A user-defined type is read with its stream extraction operator and accepted exactly when extraction succeeds and leaves nothing but blanks. In every other case the handler is not called.",
  ["inputs"], "every token, for every floating type, string and user types", "Tests use '0.1' and 'a' only; partial consumption, range errors, trailing garbage and embedded blanks are unreached.",
  [I + "detail/fromstring.h", CLI], [("from_string<float/double/long double> with consumed-size test", I + "detail/fromstring.h"), ("from_string fallback through operator>>", I + "detail/fromstring.h")],
  observe=["value received by the handler", "wrong-command handler"])

p("C04", "Each command line runs exactly one handler, the right one, or is reported wrong",
  "For every command line, the handler that runs is the first match among the built-in commands, then the current menu's entries in insertion order, descending through a submenu (or the parent, by its name or '..') for each leading token that names it; a command matches when its name equals the token and the remaining tokens match its parameters in number and type. "
  "That handler runs exactly once, with exactly those arguments and the session's output stream. If nothing matches, no handler runs and the wrong-command report (custom or default) happens exactly once with the original line; a blank line does nothing.",
  ["inputs", "configurations", "histories"], "every menu tree, current menu and command line (bounded)", "Tests use one fixed tree of depth 3 and a dozen lines; overloads, shadowing between built-in/menu/parent and misleading prefixes are not sampled.",
  [CLI], [("CliSession::Feed: global scope, current menu, wrong command", CLI), ("Menu::ScanCmds / HandleCommand / ExecParent", CLI), ("VariadicFunctionCommand / FreeformCommand Exec", CLI)],
  state=[("current", "menu the session is in", CLI)], observe=["handler invocations and arguments", "WrongCommandHandler", "session output"])

p("C05", "Only naming a menu moves the session, and the prompt shows where",
  "A session starts in the root menu and changes its current menu exactly when a whole command line names a menu reachable from the current one: a path of submenu names downwards, or the parent's name or '..' upwards, in any combination. "
  "Running a command through its full path, a wrong command, an error or a built-in leaves the current menu unchanged, and the prompt is always the prompt of the current menu (its name unless a custom prompt was given).",
  ["histories", "configurations"], "every sequence of command lines over every small menu tree", "No test goes up to a parent or uses '..', and none follows more than one navigation step.",
  [CLI], [("Menu::HandleCommand sets CliSession::Current", CLI), ("Menu::ExecParent / ParentShortcut", CLI), ("CliSession::Prompt", CLI)],
  state=[("current", "menu the session is in", CLI)], observe=["Prompt output", "which commands are reachable"])

p("C06", "Disabled or removed commands vanish everywhere; enabling restores them",
  "After a command or submenu is disabled or removed through its handle it can no longer be executed, is not listed in help and is not offered as a completion (a submenu together with everything under it), while all other commands behave as before; enabling a disabled one restores it fully. "
  "Handle operations may be repeated and reordered freely, by any code including the handler of the very command concerned and while sessions are inside the removed submenu, and after the command or its whole Cli is gone; they never affect another command and never leave a session using freed memory.",
  ["histories", "configurations"], "every sequence of enable/disable/remove on every node interleaved with execution, help and completion", "CmdHandler is not exercised by any test.",
  [CLI], [("CmdHandler::Descriptor with weak_ptr", CLI), ("Command::IsEnabled tests in Exec/Help/GetCompletionRecursive", CLI)],
  state=[("enabled", "whether the command is available", CLI), ("cmds", "shared list of the menu's entries", CLI)], observe=["execution", "help output", "completions", "address sanitizer"])

p("C07", "Help lists exactly the commands available at the top level",
  "In every menu, 'help' prints the four built-in commands, then exactly the enabled entries of the current menu once each in insertion order, then the parent menu if there is one; each line carries the entry's name, its parameters (the given parameter names, or else the parameter type names) and its description. "
  "Printing help changes nothing else.",
  ["configurations", "histories"], "every small menu tree, enable mask and current menu", "Tests only search help output for some substrings in the root menu.",
  [CLI], [("CliSession::Help / Menu::MainHelp / Command::Help", CLI), ("PrintDesc/TypeDesc", CLI)], observe=["output of 'help'"])

p("C08", "Completions are exactly the available command paths extending the typed text",
  "For every current menu and partially typed line, the completions are exactly the enabled command paths, as full command lines with single blanks, that extend it: built-ins, entries and the parent menu's name when they start with the last word, where earlier words each name an enabled submenu or the parent (by name or '..'), and a line that is exactly such a menu's name (with or without trailing blanks) completes to what lies inside. "
  "They are returned sorted and without duplicates, leading blanks are ignored, and asking for completions changes nothing.",
  ["inputs", "configurations"], "every line over a small alphabet, every small menu tree, enable mask and current menu", "One fixed tree, nine lines; completions from inside submenus, '..' and disabled entries are untested (a TODO says so).",
  [CLI], [("CliSession::GetCompletions", CLI), ("Menu::GetCompletionRecursive / GetCompletionWithParent / helper", CLI)], observe=["CliSession::GetCompletions", "TAB key output"])

p("C09", "TAB extends the line to the longest common completion or lists the choices",
  "Pressing TAB with exactly one completion replaces the line by it followed by a blank; with several completions whose longest common prefix is longer than the line it replaces the line by that prefix; otherwise it prints all of them and a new prompt and leaves the line unchanged; with none it does nothing. "
  "The cursor ends at the end of the line whenever TAB did something, and TAB never executes a command.",
  ["inputs", "histories"], "every line, cursor position and completion set (bounded)", "CommonPrefix has four test cases; the TAB handling itself has none.",
  [CP, I + "detail/commonprefix.h"], [("Symbol::tab branch", CP), ("CommonPrefix", I + "detail/commonprefix.h")], observe=["screen contents", "line submitted afterwards"])

p("C10", "The line submitted is exactly the line an ideal editor would hold",
  "For every sequence of keys (characters, left, right, home, end, backspace, delete, up, down, tab, clear-screen, unknown keys), pressing Enter submits exactly the text an ideal insert-mode line editor would hold, once, and starts a new empty line. Recalling a line, completing it and clearing the screen put the cursor at its end. "
  "Cursor movement never goes beyond the ends of the line and no key except Enter or end-of-file executes anything.",
  ["histories", "inputs"], "all key sequences up to a bounded length", "No test drives the line editor at all.",
  [TERM, CP], [("Terminal::Keypressed / SetLine", TERM), ("CommandProcessor::NewCommand", CP)], state=[("currentLine", "text being edited", TERM), ("position", "cursor index", TERM)],
  observe=["command lines received by the session"])

p("C11", "The screen always shows the prompt and the line, cursor in the right place",
  "After every key, interpreting the bytes written so far as a terminal would (printing characters, backspace, carriage return, newline, clear screen, style sequences), the last screen row is exactly the prompt followed by the line being edited, with no left-over characters, and the terminal's cursor is at the editing position. "
  "Clear-screen leaves only that row on the screen.",
  ["histories", "inputs"], "all key sequences up to a bounded length, with and without colours", "No test looks at editing output.",
  [TERM, CP, I + "detail/telnetscreen.h"], [("Terminal output of each key", TERM), ("ResetCursor/SetLine after tab and clear", CP)], observe=["bytes written to the session's stream, interpreted by a terminal model"])

p("C12", "Arrow keys browse a bounded history of distinct consecutive commands",
  "Up shows the most recent command and each further Up the one before, staying on the oldest; each Down moves one step back towards the newest and finally to the line that was being typed when browsing began, while Down when nothing is being browsed gives an empty line; typed changes made to a recalled line are kept in place when moving further up. "
  "At most the configured number of lines (including the one being typed) is retained, dropping the oldest first; entering a command identical to the latest does not duplicate it, and entering a line (also a blank one) ends browsing. This holds for every size, including 0 and 1.",
  ["histories", "configurations"], "all operation sequences up to a bounded length for history sizes 0..4", "Tests follow six fixed scenarios with sizes 3 and 10.",
  [HIST, CLI, CP], [("History::NewCommand/Previous/Next/Insert", HIST)], state=[("buffer", "retained lines, newest first", HIST), ("mode/current", "browsing position", HIST)],
  observe=["detail::History API", "line shown after Up/Down"])

p("C13", "The id shown by 'history' is the id '!' executes",
  "'history' lists the retained commands oldest first with consecutive increasing ids, an entry keeping its id as long as it is retained; '!id' with a listed id runs exactly the command listed under that id, once, and records that command (not the '!' line) as the latest entry. "
  "An id that is not retained, including on an empty history, executes nothing and reports an error, and no history content can make '!' run forever.",
  ["histories", "inputs"], "all sequences of commands, history listings, '!' commands and browsing up to a bounded length, for small history sizes", "'history' and '!' have no session-level test at all.",
  [HIST, CLI], [("History::At / IndexToId / IdToIndex / ForgetLatest", HIST), ("CliSession::ExecFromHistory", CLI)], state=[("idOfOldest", "id of the oldest retained entry", HIST)],
  observe=["output of 'history'", "handlers run by '!id'"])

p("C14", "A session stores its own commands once, at exit; new ones start from the store",
  "A new session's history is the content of the Cli's history storage (its newest entries, up to the session's history size). When a session exits, the commands entered in it (consecutive repetitions counted once, at most as many as it retains, oldest first) are appended to the storage exactly once; commands that were loaded from the storage are never stored again.",
  ["histories", "configurations"], "all sequences of sessions and commands up to a bounded length, for small sizes of storage and history", "Storage is tested without sessions, and History::GetCommands only without repeated commands or browsing.",
  [CLI, HIST, I + "historystorage.h"], [("CliSession constructor LoadCommands / Exit StoreCommands", CLI), ("History::GetCommands", HIST)], state=[("commands", "number of commands issued in this session", HIST)],
  observe=["HistoryStorage content after exit", "history of the next session"])

p("C15", "History storages behave as a bounded log; the file one survives restart",
  "After any sequence of store and clear operations, the commands returned by a storage are the newest of those stored since the last clear, in order, limited to its maximum size. "
  "The file storage gives the same answer through any object opened on the same file at any later time (application restart), starts empty when the file does not exist, and accepts any command text without line breaks.",
  ["histories", "inputs", "configurations"], "all operation sequences up to a bounded length, with restarts in between, for sizes 0..4", "Two fixed Store calls per storage are tested.",
  [I + "filehistorystorage.h", I + "volatilehistorystorage.h"], [("Store trims to maxSize", I + "filehistorystorage.h"), ("Store trims to maxSize", I + "volatilehistorystorage.h")], observe=["Commands()"])

p("C16", "Exceptions thrown by command handlers never escape a session",
  "Whatever a command handler throws, feeding the line returns normally: an exception derived from std::exception (any of them) goes exactly once to the custom exception handler with the session's stream, the command line and the exception, or its message is printed if there is none, and anything else prints an error containing the command line. "
  "It is not also reported as a wrong command and no other command runs instead; the session stays in its menu and keeps working.",
  ["inputs", "histories", "fault_sequences"], "every exception type at every handler position, in all sequences up to a bounded length", "One std::logic_error and one int are tried, in one fixed order.",
  [CLI], [("try/catch in CliSession::Feed", CLI), ("VariadicFunctionCommand::Exec bad_cast", CLI), ("Cli::StdExceptionHandler", CLI)], observe=["exception handler calls", "session output and state"])

p("C17", "Enter and exit actions run exactly once per session, in order, prompt stops",
  "Every session (file, local, telnet, async) runs the global enter action and then its own (if any) exactly once, before its first prompt. When it is ended by 'exit' or by end of input/EOF key, its own exit action and then the global one run exactly once each, on that session's stream, however often and in whatever way exit is requested, and no prompt is shown afterwards.",
  ["histories", "configurations"], "all sequences of exit requests, commands and end-of-input per session kind, with and without each action", "One global enter action and one global exit action are tested on a file session with a boolean flag.",
  [CLI, I + "clifilesession.h", I + "clilocalsession.h", REM, GCS], [("CliSession::Enter / Exit / Prompt", CLI)], state=[("exit", "exit already performed", CLI)], observe=["action call log", "session output"])

p("C18", "A file session executes every line of its input in order, then ends",
  "For every input text, a file session executes each line (including a last line without newline) in order, up to and including the first 'exit', showing one prompt before each, and ends exactly at 'exit' or end of input, performing the exit actions once. "
  "It always terminates, and reads nothing after 'exit'; construction with a bad input or output stream throws std::invalid_argument.",
  ["inputs", "fault_sequences"], "all inputs over a small alphabet of lines and terminators, all stream failures at every position, handlers that consume the same stream", "All test inputs are newline-terminated and well-formed.",
  [I + "clifilesession.h", CLI], [("CliFileSession::Start loop", I + "clifilesession.h")], observe=["commands executed", "output", "termination"])

p("C19", "LoopScheduler runs each task exactly once, in order, on the running thread",
  "Under every interleaving of threads that post and threads that run the scheduler, every posted task is executed at most once, and exactly once if the scheduler keeps being run and is not stopped; tasks are started in the order in which the posts took effect, and tasks posted by one thread run in that thread's order. "
  "A task runs only inside a call that runs the scheduler, on that caller's thread, never inside Post and without any scheduler lock held, and everything written before Post is visible to the task.",
  ["schedules"], "all interleavings (bounded preemptions) of 2-3 threads with 1-3 operations each", "Tests post from one thread that has already finished before the task is run.",
  [LOOP, I + "scheduler.h"], [("mutex-protected queue, task run outside the lock", LOOP)], state=[("tasks", "queue of pending tasks", LOOP), ("running", "not stopped", LOOP)], observe=["task execution log", "data races", "deadlock"])

p("C20", "LoopScheduler waits when idle, wakes for work, stops for good, survives throws",
  "A run loop (or a single blocking step) with no work waits without missing any post or stop that follows: every waiting thread returns after Stop, and a waiting step runs a task once one is posted. "
  "After Stop no further task is started, blocking steps return at once saying so, and Stopped reports it; Stop, Post and polling may be called from any thread and from inside tasks without deadlock, a poll on an idle scheduler returns false immediately, and an exception thrown by a task leaves the step that ran it with the task consumed and the scheduler usable.",
  ["schedules", "histories"], "all interleavings (bounded preemptions, spurious wakeups included) of 2-3 threads; all single-threaded operation sequences up to a bounded length", "Stop, Run, PollOne and waiting are not tested at all.",
  [LOOP], [("condition variable with predicate", LOOP), ("Stop/ExecOne/PollOne", LOOP)], observe=["return values", "deadlock detection", "task log"])

p("C21", "Asio schedulers keep the scheduler contract on owned and external contexts",
  "Both asio-based schedulers run every posted task exactly once in posting order, on the thread that runs the loop and never inside Post, also when Post is called from inside a task or from other threads. "
  "A scheduler that owns its context keeps its loop alive while idle until Stop (called from any thread, or from a task, once or several times at once), after which Run returns, no further task starts and Stopped is true; one built on an external context posts to that context and shares its state: destroying the scheduler neither stops nor destroys the context, and the tasks posted through it still run. Polling an idle scheduler returns immediately, and a throwing task propagates out of the step with the remaining tasks intact.",
  ["schedules", "histories", "configurations"], "all operation sequences up to a bounded length for both libraries and both ownership modes; all interleavings of posting threads with the loop (bounded preemptions)", "One post and one step are tested per library.",
  [GAS, I + "detail/newboostasiolib.h", I + "detail/newstandaloneasiolib.h"], [("executor post", I + "detail/newboostasiolib.h"), ("work guard", GAS)], observe=["task log", "return of Run", "Stopped"])

p("C22", "Local keyboard bytes are decoded into the right keys, whatever the pacing",
  "Every byte sequence read from the terminal is decoded into the documented keys: printable characters as themselves, 4 as end-of-file, 8 and 127 as backspace, 10 as Enter, 12 as clear, ESC [ A/B/C/D/F/H as up/down/right/left/end/home, ESC [ 3 ~ as delete, other escape sequences as one ignored key. "
  "Keys are delivered in order, once each, regardless of how the bytes are spaced in time or of interrupted system calls; when the terminal reports end of input the session gets a single end-of-file key.",
  ["inputs", "schedules", "fault_sequences"], "all byte sequences over the significant alphabet up to a bounded length, all arrival schedules, EINTR at every call", "The keyboard has no test.",
  [KB, IDEV], [("LinuxKeyboard::Get / GetChar", KB), ("InputSource::WaitKbHit", KB)], observe=["keys delivered to the registered handler through the scheduler"])

p("C23", "A local session can always be torn down and restores the terminal",
  "Under every interleaving, destroying the keyboard (local session) terminates: whatever bytes are pending or missing (including half an escape sequence), whether input is enabled or disabled, whether input has ended, and at any moment relative to the reader thread. "
  "Afterwards the terminal is in the mode it had before, the reader thread has ended, no descriptor it opened stays open, and starting up, running and tearing down has no data race.",
  ["schedules", "fault_sequences"], "all interleavings (bounded preemptions) of reader thread, owner thread and typed bytes, teardown at every point", "No test creates a local session.",
  [KB], [("InputSource stop pipe", KB), ("destructor joins reader", KB), ("condition variable for enabled", KB)], state=[("enabled", "reader may read", KB)], observe=["thread join", "termios state", "open descriptors"])

p("C24", "While a command runs, the terminal belongs to the command",
  "From the moment a command handler is started for a local session until it returns, the terminal is in its original mode and the session takes no byte of terminal input, so everything typed meanwhile is available to the handler; when the handler returns the session resumes reading and loses none of the following keys. "
  "This holds under every interleaving of the reader thread with the command.",
  ["schedules"], "all interleavings (bounded preemptions) of reader thread, scheduler thread and typed bytes", "No test creates a local session.",
  [KB, CP], [("DeactivateInput/ActivateInput around Feed", CP), ("LinuxKeyboard::DeactivateInput", KB)], observe=["bytes the handler can read", "termios state seen by the handler"])

p("C25", "Telnet negotiation never leaks into the session, and is answered once",
  "For every byte stream from a client and every way it is cut into packets, the session receives exactly the data bytes of the telnet protocol: commands, option requests and sub-negotiations are removed, and a doubled IAC is one 255 data byte. "
  "Each WILL and each DO is answered by exactly one three-byte reply naming the same option, WONT and DONT by none (so no negotiation loop), and data is processed in order.",
  ["inputs", "schedules"], "all byte streams over the significant alphabet up to a bounded length, all chunkings", "Remote sessions have no test.",
  [REM, SRV], [("TelnetSession::Consume/Data/Command", REM), ("SendIacCmd", REM)], state=[("state/escape", "protocol parser state", REM)], observe=["commands executed", "bytes sent to the client"])

p("C26", "Telnet clients receive all output, in order, as valid telnet text",
  "Everything written to a telnet session's stream while it is connected reaches the client complete and in order, whatever the size of writes and however the socket accepts them: decoded by a telnet client it is the same text with each newline sent as CR LF, and a 255 byte in the text is sent so that it is not taken as a telnet command.",
  ["inputs", "fault_sequences"], "all texts over a small alphabet up to a bounded length, all write granularities, all short writes", "Remote sessions have no test.",
  [REM, SRV], [("TelnetSession::Encode", REM), ("Session::xsputn/overflow/Send", SRV)], observe=["bytes received by the client"])

p("C27", "No client can crash, stall or corrupt the server or other sessions",
  "Whatever a telnet client sends or does (any bytes, repeated or simultaneous exit requests, closing or resetting the connection at any point, before or while a command runs or output is produced), no exception leaves the scheduler loop, no freed memory is used, the client's session object is eventually released, and other sessions and new connections keep working.",
  ["histories", "fault_sequences", "schedules"], "all bounded sequences of client events interleaved with scheduler steps, with socket errors injected at every call", "Remote sessions have no test.",
  [REM, SRV, CLI], [("Session::Read keeps the session alive by shared_ptr", SRV), ("Session::Disconnect/Send error handling", SRV), ("Server::Accept", SRV)], observe=["exceptions out of the scheduler", "session destruction", "address sanitizer", "other clients' results"])

p("C28", "The telnet server greets every client in its own session and honours its hooks",
  "Each accepted connection gets its own session on the server's Cli: first the telnet negotiation, then the output of the global and server enter actions (each optional, once), then the prompt; 'exit' or the EOT key runs the server and global exit actions (each optional, once), and then closes that connection only. "
  "The server keeps accepting: a failed accept or a client that disappears does not prevent later clients from being served, on every bind address form.",
  ["histories", "configurations", "fault_sequences"], "all combinations of hooks, all bounded connect/exit/disconnect orders, accept errors at every position", "Remote sessions have no test.",
  [REM, SRV], [("CliGenericTelnetServer::CreateSession/EnterAction/ExitAction", REM), ("Server::Accept re-arms", SRV), ("CliTelnetSession::OnConnect", REM)], observe=["bytes received by each client", "action call log"])

p("C29", "The broadcast stream reaches every live session exactly once",
  "Text written to the global output stream appears exactly once, complete and in order, on every session alive at that moment and on no other, for any sequence of session creations, destructions and writes of any granularity (characters, strings, formatted values, flushes), including writes made by command handlers. Flushing it flushes the streams of those sessions, and a session's stream that cannot be written affects no other session. "
  "Sessions may be destroyed in any order, before or after the Cli.",
  ["histories"], "all sequences of create/destroy/write up to a bounded length over several sessions and Cli objects", "Cli::cout() has no test.",
  [CLI], [("OutStream::Register/UnRegister/xsputn/overflow", CLI), ("CliSession holds the stream by shared_ptr", CLI)], state=[("ostreams", "streams of live sessions", CLI)], observe=["contents of each session's stream"])

p("C30", "Destroying a session or server with events still pending is safe",
  "A session (local, telnet or async) or a telnet server may be destroyed by its owner at any point between scheduler steps while keys, reads or accepts are still pending; the scheduler can go on running afterwards, pending events of the destroyed object have no effect, no freed memory is touched, and other sessions are unaffected.",
  ["histories", "schedules"], "all bounded orders of input events, scheduler steps and destruction", "No test destroys a session with pending work.",
  [IDEV, SRV, GCS, KB], [("InputDevice::Notify captures this", IDEV), ("Server::Accept captures this", SRV), ("GenericCliAsyncSession::Read captures this", GCS)], observe=["address sanitizer", "handler calls after destruction"])

p("C31", "Sessions of one Cli are independent of each other",
  "Any number of sessions on the same Cli can be interleaved arbitrarily: each has its own current menu, history, edit line and exit state, so that each session's output and effects are those it would have had alone (apart from storage shared at exit, enabling/disabling of shared commands and the broadcast stream).",
  ["histories", "schedules"], "all interleavings of bounded command sequences of two or three sessions", "Every test uses one session at a time.",
  [CLI, HIST, CP], [("per-session state in CliSession/CommandProcessor/Terminal", CLI)], observe=["output of each session compared with running it alone"])

p("C32", "The async session executes each input line once, however the bytes arrive",
  "For every input text and every way it is delivered in pieces, the asynchronous session executes exactly the newline-terminated lines, in order, once each, showing one prompt before each; several lines arriving together and a line arriving in many pieces give the same result as one line at a time. "
  "End of input ends reading without executing anything further and without spinning.",
  ["inputs", "schedules"], "all inputs over a small line alphabet, all chunkings, for both asio libraries", "The async session has no test.",
  [GCS], [("async_read_until / NewLine consumes exactly the line", GCS)], state=[("inputBuffer", "received bytes not yet executed", GCS)], observe=["commands executed", "output"])

p("C33", "Colours only add style sequences, always closed",
  "Removing the terminal style sequences from a session's output gives the same text whether colours are on or off, for every input; with colours on, the prompt and the echoed input are each styled and the style is always reset before command output or any other text. "
  "A session in which colours were never switched on emits no style sequence at all.",
  ["inputs", "histories"], "all key and command sequences up to a bounded length, colours switched at every position", "No test enables colours.",
  [I + "colorprofile.h", I + "detail/rang.h", TERM, CLI], [("beforePrompt/afterPrompt/beforeInput/afterInput", I + "colorprofile.h")], observe=["session output"])

p("C34", "Telnet key bytes are decoded into the right keys",
  "In a telnet session data bytes are decoded as: CR followed by NUL or LF is Enter, 4 and 255 are end-of-file, 8 and 127 are backspace, 12 is clear, ESC [ A/B/C/D/F/H are up/down/right/left/end/home, ESC [ x ~ is delete, incomplete or unknown sequences are dropped without side effect, and every other byte is the character itself. "
  "The result does not depend on packet boundaries, on interleaved telnet commands, or on what other clients send.",
  ["inputs", "schedules"], "all byte streams over the significant alphabet up to a bounded length, all chunkings", "Remote sessions have no test.",
  [REM], [("CliTelnetSession::Output step machine", REM)], state=[("step", "decoder state", REM)], observe=["commands executed and echo sent to the client"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
