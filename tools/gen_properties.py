#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=None)))
I='include/cli/'; D='include/cli/detail/'
SCHED=[I+'scheduler.h', I+'loopscheduler.h', D+'genericasioscheduler.h', I+'boostasioscheduler.h', I+'standaloneasioscheduler.h', D+'newboostasiolib.h', D+'newstandaloneasiolib.h']
LOCAL=[I+'clilocalsession.h', D+'linuxkeyboard.h', D+'inputdevice.h', D+'commandprocessor.h', D+'terminal.h', D+'telnetscreen.h']
TELNET=[D+'genericasioremotecli.h', D+'server.h', D+'inputdevice.h', D+'commandprocessor.h', D+'terminal.h']
CLI=[I+'cli.h']
p('C01','Posted tasks run exactly once, in order, on the thread running the scheduler',
  "Every task accepted by Post of any scheduler (built-in loop, Boost.Asio, standalone Asio), from any thread and also from inside a running task, is executed exactly once provided the scheduler keeps being run and is not stopped. Tasks posted by one thread run in the order they were posted, one at a time, on the thread that runs or polls the scheduler, and never inside the call to Post. Each single-step or poll call runs at most one task, and a Post that reports failure (for example no memory) leaves no task behind.",
  ['schedules','fault_sequences','inputs'],'every number of posting threads, interleaving of Post with Run/ExecOne/PollOne, nesting of posts, spurious wake-up and failed allocation',
  'test_loopscheduler/test_*asioscheduler run one or two fixed thread programs with real timing; no interleaving between a Post and the emptiness check is ever chosen.',
  SCHED,[('queue guarded by a mutex and condition variable',I+'loopscheduler.h: LoopScheduler'),('post through an io_context executor',D+'genericasioscheduler.h: Post')],['Scheduler::Post','Run/ExecOne/PollOne'])
p('C02','No lost wake-up: waiting schedulers always notice new tasks and Stop',
  "A thread blocked in Run or ExecOne of any scheduler makes progress after every later Post and returns after every Stop, whatever the interleaving, spurious wake-ups or interrupted system calls. PollOne never blocks. Once Stop has returned, Stopped reports true and apart from a task that had already been taken no further task is started by Run, ExecOne or PollOne of the built-in scheduler or by Run of an Asio scheduler.",
  ['schedules','fault_sequences'],'every position of Post and Stop relative to the check-then-wait of the running thread',
  'tests sleep real milliseconds and so always post while the loop is already waiting.',
  SCHED,[('condition-variable predicate over stop flag and queue',I+'loopscheduler.h: ExecOne'),('work guard and context stop',D+'genericasioscheduler.h: Stop')],['Run','ExecOne','PollOne','Stop','Stopped'])
p('C03','A throwing or re-entrant task never wedges the scheduler or loses other tasks',
  "If a task throws, the exception reaches the caller of Run/ExecOne/PollOne, exactly that task is consumed, and running the scheduler again executes all remaining tasks exactly once in order. A task may post further tasks, stop the scheduler, query it or run nested single steps or polls of it without deadlock and without losing, duplicating or reordering tasks.",
  ['schedules','histories','fault_sequences'],'every mix of throwing, posting, stopping and nesting tasks interleaved with posting threads',
  'existing tests have one throwing handler and no nested step; none interleaves them with other threads.',
  SCHED,[('task is removed and the lock released before it runs',I+'loopscheduler.h: ExecOne/PollOne')],['Run/ExecOne/PollOne'])
p('C04','No data race between posting threads, the running thread and the keyboard thread',
  "Any number of threads may call Post and Stopped of a scheduler, and one may call Stop, while one thread runs it, and a local terminal session may be created, used and destroyed while its internal keyboard thread works, and telnet sessions may be served while other threads post: every two conflicting memory accesses of different threads inside the library are ordered by synchronisation.",
  ['schedules','inputs'],'every interleaving of posting threads, the loop thread, the keyboard thread and session construction/destruction',
  'tests run without a race detector and never start the keyboard thread.',
  SCHED+LOCAL,[('mutex around queue and stop flag',I+'loopscheduler.h'),('mutex/condition variable around the input-enabled flag',D+'linuxkeyboard.h')],['instrumented memory accesses'])
p('C05','Typed keys become exactly the intended commands and screen on the local terminal',
  "For every sequence of keys typed at a local terminal session, however split into reads and timed, including keys typed ahead while a command runs, the session executes exactly the command lines that line editing yields (insert, backspace, delete, left/right, home/end, history up/down, tab completion, clear screen), once each, in order, on the scheduler's thread. Whenever all typed input has been consumed the screen shows the prompt, the edited line and the cursor at the editing position, after the complete output of the commands run so far.",
  ['inputs','schedules','histories'],'every key sequence, read fragmentation, typing time relative to command execution and thread interleaving',
  'no test instantiates a local terminal session, the keyboard decoder or the line editor.',
  LOCAL+CLI,[('escape-sequence decoder on a helper thread',D+'linuxkeyboard.h: Get'),('keys posted to the scheduler',D+'inputdevice.h: Notify'),('line editor',D+'terminal.h')],['bytes on stdin','session output stream','command handlers'])
p('C06','The terminal is raw only while prompting and always restored',
  "While a local terminal session waits for input the terminal has echo and line mode off and everything else as the application had it; while a command handler runs, and after the session is destroyed, the terminal settings are those in force before the session (or as a handler last set them). This holds for normal, failing and exiting commands and for destruction at any moment.",
  ['schedules','histories','inputs'],'every destruction moment, command outcome and interleaving with typed input',
  'no test opens a terminal.',
  [D+'linuxkeyboard.h',D+'commandprocessor.h'],[('save/alter/restore of terminal settings around each command',D+'linuxkeyboard.h: ToManualMode/ToStandardMode')],['tcgetattr/tcsetattr on stdin'])
p('C07','Destroying a local session terminates, joins its thread and frees resources',
  "Destroying a local terminal session at any moment (idle, with keys or a partial escape sequence pending, with keys already queued in the scheduler, after a handler threw, before or after the scheduler stopped) finishes in bounded time without further user input. Afterwards its helper thread has ended, every descriptor it opened is closed exactly once, stdin is left open, no key typed before is delivered to the destroyed session even if the scheduler runs on, and a new session can be created. The same holds when the construction of a session fails (no pipe, no thread, an enter action that throws).",
  ['schedules','histories','fault_sequences'],'every instant of destruction relative to the helper thread and queued keys',
  'no test creates a local session.',
  LOCAL,[('shutdown pipe, enabling of the waiting helper thread and join',D+'linuxkeyboard.h: ~LinuxKeyboard, InputSource')],['thread exit','open descriptors','queued tasks'])
p('C08','Signals and end of input never break the local session',
  "A signal that interrupts a system call of the local session's input never loses a key, ends input or terminates the process. End of file or a hang-up on stdin acts as one end-of-input (the session's exit procedure runs exactly once) and neither spins nor executes anything afterwards.",
  ['fault_sequences','schedules'],'interrupted select/read/write at every point and EOF at every point of the key stream',
  'no test delivers signals or closes stdin of a session.',
  [D+'linuxkeyboard.h'],[('select/read loop of the helper thread',D+'linuxkeyboard.h: WaitKbHit/GetChar')],['system calls on stdin','exit actions'])
p('C09','Telnet input does not depend on segmentation or timing',
  "For every byte stream a telnet client sends, however TCP splits, merges or delays it, the session executes the same commands in the same order and ends up showing the same screen as if each key had been sent alone; Enter is accepted as CR NUL and as CR LF.",
  ['inputs','schedules','fault_sequences'],'every segmentation (inside escape, CR and telnet sequences included), delay, short read and interleaving with other sessions',
  'no test opens a socket.',
  TELNET+CLI,[('byte-wise telnet and key state machines',D+'genericasioremotecli.h: Consume/Data/Output'),('keys posted to the scheduler',D+'inputdevice.h')],['TCP bytes in and out','command handlers'])
p('C10','Telnet option negotiation is answered once and never reaches the command line',
  "On connection the server sends its telnet option offers before anything else. Each WILL or DO a client sends is answered exactly once, in order, with a reply naming the same option: suppress-go-ahead and window size are agreed to, echo requests accepted, every other option refused (DONT to WILL, WONT to DO); WONT, DONT, subnegotiations and other telnet commands are not answered. No byte of these sequences is ever taken as typed text, wherever in the text and however split they arrive.",
  ['inputs','schedules'],'every position, option code and segmentation of negotiation sequences within typed text',
  'no test drives the telnet state machine.',
  [D+'genericasioremotecli.h'],[('telnet command state machine',D+'genericasioremotecli.h: Consume/Command/RxWill/RxDo/RxSub')],['TCP bytes in and out'])
p('C11','Concurrent sessions are isolated from each other',
  "Any number of remote and local sessions on one command hierarchy may be used at the same time: the commands, output, current menu, line being edited and history of each are exactly those it would have if it were used alone (apart from output written to the shared stream and menu changes made by handlers).",
  ['schedules','inputs','histories'],'every interleaving of the inputs of several sessions',
  'tests use one session at a time.',
  TELNET+CLI+[I+'clilocalsession.h'],[('per-session state in session objects',I+'cli.h: CliSession')],['output per session','command handlers per session'])
p('C12','Hostile clients and network faults never stop the server',
  "Whatever remote clients do (arbitrary bytes, end-of-input keys, half-close, reset at any moment, connect and leave, silence) and whatever transient network errors occur (failed accepts, interrupted or short system calls, resets during output), the application keeps running without crash, exception out of the scheduler or hang. Other sessions are not affected, and new clients are accepted and served once the faults stop. An enter action that throws ends only the connection it ran for (the exception reaches whoever runs the scheduler); the server keeps accepting.",
  ['fault_sequences','inputs','schedules'],'every client byte stream and every position of resets, errors and disconnects',
  'no test opens a socket.',
  TELNET,[('error-code handling on read, write, accept and close',D+'server.h')],['scheduler Run','accepted connections'])
p('C13','Enter and exit procedures run once, reach the user and end the session',
  "When a session exits (exit command or end-of-input), the session's (or server's) exit action and then the global exit action run exactly once each, everything they write reaches the user, and the session's commands are saved to the history storage. A remote connection is then closed, and nothing the client sent after the exit is executed, even if it was already received. Likewise every new session, local, remote, file or asynchronous, runs the global enter action exactly once before its first prompt, followed by the enter action of the file session or server if one is set.",
  ['schedules','histories','inputs'],'every kind of session, with and without actions set, with input pipelined behind the exit',
  'no test runs session objects other than a bare session; exit actions are never observed.',
  CLI+TELNET+[I+'clifilesession.h',D+'genericcliasyncsession.h',I+'clilocalsession.h'],[('enter and exit sequence of a session',I+'cli.h: CliSession::Enter/Exit'),('disconnect on exit',D+'genericasioremotecli.h: CliTelnetSession')],['enter/exit actions','TCP close'])
p('C14','Remote output is complete and in order however slowly the client reads',
  "Everything handlers write to a telnet session's stream arrives at that client completely, once and in order (each line feed as CR LF), whatever the sizes of the output, short writes, full socket buffers or interrupted calls, until the client itself goes away.",
  ['fault_sequences','schedules','inputs'],'every pattern of short writes, full buffers, slow readers and output sizes',
  'no test opens a socket.',
  [D+'server.h',D+'genericasioremotecli.h'],[('stream buffer writing whole messages to the socket',D+'server.h: Session::xsputn/overflow/Send')],['TCP bytes out'])
p('C15','The shared output stream reaches every live session exactly once',
  "Text written to the global output stream appears exactly once, in order and complete, on every session alive at that moment and on no other (sessions sharing one stream get one copy each), while sessions are created, exit, are disconnected and destroyed at arbitrary times; writing to it after sessions ended is safe.",
  ['histories','schedules'],'every history of session creation, destruction and broadcast',
  'no test writes to the global stream.',
  CLI,[('registration of session streams for the lifetime of the session',I+'cli.h: OutStream, CliSession')],['output per session'])
p('C16','Command history persists: exit appends exactly the new commands of the session',
  "When a session exits, the commands entered in it that its history still holds (consecutive repeats once, a recalled command as the command it stood for) are appended, in order, to the history storage, and the entries already stored are neither repeated nor reordered. The next session, also after a restart of the program with file storage, starts with the stored list as its history, and a storage never keeps more than its configured number of entries, dropping the oldest.",
  ['histories','inputs'],'every history of sessions, commands, recalls, browsing, exits and restarts over one storage',
  'history and storage are tested apart, with a handful of fixed lists; sessions never meet a storage.',
  [D+'history.h',I+'filehistorystorage.h',I+'volatilehistorystorage.h',I+'cli.h'],[('collecting the new commands',D+'history.h: GetCommands/LoadCommands'),('append and truncate',I+'filehistorystorage.h: Store')],['HistoryStorage','history command'])
p('C17','File history stays readable and well formed after crashes and disk faults',
  "After the program is killed at any instant, or any open, read or write of the history file fails or is cut short, the file holds a prefix of either the list before or the list that was being saved (its last entry possibly cut), never a mixture, reordering or invention. The program does not crash because of the fault, and the storage keeps working for later loads and saves within its size limit.",
  ['crash_points','fault_sequences','histories'],'a kill or an error at every system call on the history file, repeated over several sessions',
  'the storage test writes a healthy file once.',
  [I+'filehistorystorage.h'],[('rewrite of the whole file',I+'filehistorystorage.h: Store')],['file content after restart','HistoryStorage::Commands'])
p('C18','A failed or interrupted save does not lose already persisted history',
  "If saving the history fails or the program is killed while doing so, the commands persisted by earlier sessions are still there at the next start. In particular failing to open or read the file, or being killed or failing at any other time, never removes stored commands.",
  ['crash_points','fault_sequences'],'a kill or error at every system call on the history file',
  'tests never fail a write.',
  [I+'filehistorystorage.h'],[('truncating rewrite',I+'filehistorystorage.h: Store')],['file content after restart'])
p('C19','History recall executes or shows exactly the command it names',
  "Recalling entry n with the history recall command executes exactly the command line that the history listing shows under n, or reports an error if there is no such entry, and never executes another command, crashes or recurses without end. Entry numbers never change meaning while the entry is kept, however many commands are entered, recalled or evicted; up and down walk the entries in order and the listing shows the entries kept, oldest first (history sizes from 1 on).",
  ['histories','inputs'],'every history of commands, recalls (valid, stale, out of range, on an empty history), browsing with edits and evictions',
  'test_history covers a few fixed sequences, without recall through a session.',
  [D+'history.h',I+'cli.h'],[('id/index mapping',D+'history.h: IndexToId/IdToIndex'),('recall',I+'cli.h: ExecFromHistory')],['command handlers','history command output','recalled line on screen'])
p('C20','A file session runs exactly the complete lines of its input and ends once',
  "A file session executes every newline-terminated line of its input once and in order until an exit command or the end of the input, however the underlying stream splits its data or fails. End of input or a read error ends the session exactly once (exit procedure run once, nothing executed afterwards, no endless loop), and a final line cut off by end of input or a read error is not executed.",
  ['inputs','fault_sequences'],'every line content, chunking, position of EOF, read error or exit, and failing handler',
  'no test uses a file session.',
  [I+'clifilesession.h',I+'cli.h'],[('read-feed loop',I+'clifilesession.h: Start')],['command handlers','exit actions'])
p('C21','An asynchronous stdin session runs exactly the lines received',
  "An asynchronous session executes every newline-terminated line arriving on standard input once and in order and prompts after each, however the bytes are chunked, delayed or interrupted by signals. End of input or a read error ends reading without crash, exception or spin, an unterminated last line is not executed, and the rest of the application keeps running.",
  ['inputs','fault_sequences','schedules'],'every chunking, delay, EINTR, EOF and error position, with other work on the same scheduler',
  'no test uses an asynchronous session.',
  [D+'genericcliasyncsession.h'],[('asynchronous read-until loop',D+'genericcliasyncsession.h: Read/NewLine')],['command handlers','stdout'])
p('C22','A failing command handler is contained and reported once',
  "Whatever a command handler throws (any standard exception, cast and conversion errors included, or any other object) and in whatever session, the handler has run exactly once, the failure is reported exactly once (to the exception handler if one is set, else on that session's output), the command is not reported as wrong or tried again elsewhere, and the session prompts and executes the following commands normally.",
  ['histories','inputs','schedules'],'every exception type, menu depth, kind of session and position in the command sequence',
  'tests throw two types in a bare session at one depth.',
  CLI+[D+'commandprocessor.h'],[('catch around dispatch',I+'cli.h: CliSession::Feed'),('conversion failure signalled by exception',I+'cli.h: VariadicFunctionCommand::Exec')],['exception handler','session output'])
p('C23','Sessions and servers can be destroyed while the scheduler keeps running',
  "A telnet server, an asynchronous session or any other session may be destroyed at any moment from the scheduler's thread (by a posted task, by a command handler of another session, a server also by a handler, enter or exit action of one of its own connections) while connections, reads or queued input are pending: the scheduler continues to run its other work, nothing that was destroyed is touched again or receives input, remaining connections of a destroyed server keep being served or are closed cleanly, and the port can be used again.",
  ['schedules','histories','fault_sequences'],'every destruction moment relative to accepts, reads, queued keys and client activity',
  'no test destroys a session or server with pending operations.',
  TELNET+[D+'genericcliasyncsession.h'],[('completion handlers referring to session or server',D+'server.h: Accept/Read')],['memory safety (sanitizers)','scheduler progress'])
p('C24','Menus may change at any time, also from inside the running command',
  "Commands and submenus may be enabled, disabled, removed and inserted between and during commands, by a handler of any session, including a command that removes itself or its own menu, and sessions may be positioned inside what is removed. Every following command line of every session is dispatched, completed and listed according to the menu as it then is: removed or disabled entries are not executed, enabled ones are, and nothing removed is touched any more.",
  ['histories','schedules'],'every history of menu changes interleaved with the commands of several sessions at different positions',
  'test_menu changes menus between commands of a single session with a fixed shape.',
  CLI,[('command handles with weak references',I+'cli.h: CmdHandler, Menu')],['command handlers','help output'])
p('C28','Nothing accumulates: memory, descriptors and threads stay bounded for ever',
  "After a session of any kind (telnet, local terminal, asynchronous, file or bare) ends, is destroyed or fails to start, after a server is destroyed, and after tasks, commands and menu changes have completed, everything the library acquired for them (memory, descriptors, threads, registrations in the Cli and the scheduler) has been released. A program that opens and ends sessions, creates and destroys servers, inserts and removes commands, or executes commands and receives input in one long-lived session, again and again, uses bounded memory, descriptors and threads, the histories being bounded by their configured sizes.",
  ['histories','schedules','fault_sequences'],'every repeated pattern of work, way of ending a session, segmentation and transient fault, however often it is repeated',
  'tests run every object once or twice and never measure what is still held.',
  CLI+TELNET+LOCAL+[D+'genericcliasyncsession.h',I+'volatilehistorystorage.h',I+'loopscheduler.h'],[('registration of the output stream of a session',I+'cli.h: Cli::Register/UnRegister'),('sessions kept alive by their pending operations',D+'server.h: Accept/Read'),('bounded histories',D+'history.h, volatilehistorystorage.h')],['live allocations','open descriptors','threads'])
p('C25','Command lines are split into words by documented quoting and escaping rules',
  "A command line is split at blanks into words; single or double quotes keep blanks, and a backslash escapes a quote or backslash, for every input line.",
  ['inputs'],'every byte string','test_split has a fixed table.',[D+'split.h'],[('splitter state machine',D+'split.h')],['handler arguments'])
p('C26','Arguments convert exactly or the command is rejected',
  "A command handler receives exactly the value its argument text denotes in the parameter's type, and a text that is not such a value or is out of range never reaches the handler.",
  ['inputs'],'every argument text and parameter type','test_cli samples a few values for each type.',[D+'fromstring.h'],[('conversion templates',D+'fromstring.h')],['handler arguments'])
p('C27','Completion offers exactly the enabled commands reachable from the typed text',
  "Tab completion offers exactly the enabled commands, submenus and nested commands that start with the typed text, without repetition.",
  ['inputs'],'every menu tree and typed prefix','test_menu has a few prefixes on one tree.',[I+'cli.h',D+'commonprefix.h'],[('recursive completion',I+'cli.h: GetCompletionRecursive')],['completion list'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
