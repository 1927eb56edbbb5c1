"""Which binaries exist and which worlds decide which property: PLAN[prop] = [(binary, world, runs, seconds cap per worker)]."""
BIN = {
    'sched-boost': dict(src=['sched'], flav='boost', worlds=['sched-loop', 'sched-boost']),
    'sched-sa':    dict(src=['sched'], flav='sa', worlds=['sched-sa']),
    'local-boost': dict(src=['local'], flav='boost', worlds=['local-loop', 'local-boost']),
    'local-sa':    dict(src=['local'], flav='sa', worlds=['local-sa']),
}
for f in ('boost', 'sa'):
    BIN['telnet-' + f] = dict(src=['telnet'], flav=f, worlds=['telnet-' + f])
BIN['history'] = dict(src=['history'], flav='boost', worlds=['history'])
BIN['script'] = dict(src=['script'], flav='boost', worlds=['script'])
for f in ('boost', 'sa'):
    BIN['async-' + f] = dict(src=['async'], flav=f, worlds=['async-' + f])
for f in ('boost', 'sa'):
    BIN['soak-' + f] = dict(src=['soak'], flav=f, worlds=['soak-' + f])
BIN['menus'] = dict(src=['menus'], flav='boost', worlds=['menus-boost'])
for w, f, ws in (('sched', 'boost', ['sched-loop', 'sched-boost']), ('sched', 'sa', ['sched-sa']), ('local', 'boost', ['local-loop', 'local-boost']), ('local', 'sa', ['local-sa']), ('telnet', 'boost', ['telnet-boost'])):
    BIN[f'{w}-race-{f}'] = dict(src=[w], flav=f, worlds=ws, race=True)
PLAN = {}
for p in ('C01', 'C02', 'C03'):
    PLAN[p] = [('sched-boost', 'sched-loop', 16000, 20), ('sched-boost', 'sched-boost', 8000, 20), ('sched-sa', 'sched-sa', 8000, 20)]
PLAN['C04'] = [('sched-race-boost', 'sched-loop', 8000, 8), ('sched-race-boost', 'sched-boost', 6000, 8), ('sched-race-sa', 'sched-sa', 5000, 8), ('local-race-boost', 'local-loop', 5000, 8), ('local-race-boost', 'local-boost', 3000, 8), ('local-race-sa', 'local-sa', 2500, 8), ('telnet-race-boost', 'telnet-boost', 3000, 8)]
for p in ('C05', 'C06', 'C07', 'C08'):
    PLAN[p] = [('local-boost', 'local-loop', 8000, 20), ('local-boost', 'local-boost', 5000, 12), ('local-sa', 'local-sa', 5000, 12)]
for p in ('C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C22', 'C23'):
    PLAN[p] = [('telnet-boost', 'telnet-boost', 6000, 25), ('telnet-sa', 'telnet-sa', 4000, 18)]
for p in ('C13', 'C22'):
    PLAN[p] += [('local-boost', 'local-loop', 3000, 10), ('local-sa', 'local-sa', 2000, 10)]
for p in ('C16', 'C17', 'C18', 'C19'):
    PLAN[p] = [('history', 'history', 14000, 30)]
PLAN['C20'] = [('script', 'script', 16000, 35)]
PLAN['C21'] = [('async-boost', 'async-boost', 10000, 20), ('async-sa', 'async-sa', 8000, 16)]
for p in ('C13', 'C15', 'C22', 'C23'):
    PLAN[p] += [('async-boost', 'async-boost', 2500, 8), ('async-sa', 'async-sa', 2000, 7)]
for p in ('C13', 'C22'):
    PLAN[p] += [('script', 'script', 3000, 8)]
PLAN['C23'] += [('local-boost', 'local-boost', 2500, 8), ('local-sa', 'local-sa', 2000, 8)]
PLAN['C24'] = [('menus', 'menus-boost', 12000, 35)]
PLAN['C28'] = [('soak-boost', 'soak-boost', 2000, 22), ('soak-sa', 'soak-sa', 1500, 16)]
LEVEL = {}
SAMPLED = 'Sampled, not exhaustive: a clean run is evidence over the seeds explored. Trusts the simulated kernel (sim/), assumes sequentially consistent memory; '
NOTE = {}
for p in ('C01', 'C02', 'C03'):
    NOTE[p] = ('history of posts and executions checked against an exactly-once FIFO-per-poster model', SAMPLED + 'real code: the schedulers, libstdc++, asio.')
NOTE['C04'] = ('every memory access and atomic operation of the instrumented library checked against vector clocks kept over the simulated synchronisation: unordered conflicting accesses are reported whatever order the run executed them in', SAMPLED + 'real code: schedulers, local session and keyboard thread, telnet server and sessions, asio, libstdc++ templates; accesses inside libstdc++.so are seen only through memcpy, memmove, memset and free; weak-memory reorderings are covered through happens-before, not simulated.')
LOCAL = SAMPLED + 'real code: local session, keyboard thread, line editor, dispatch, history, schedulers; simulated: terminal, stdin, signals, pipes, select; screens are compared at quiescent points by a small emulator, except after output in the middle of an edited line.'
NOTE['C05'] = ('typed keys replayed into an executable model of line editing, history, completion and dispatch; handler log checked at every step, screen and cursor at quiescence', LOCAL)
NOTE['C06'] = ('terminal attributes checked inside every handler, at every wait for input and after destruction', LOCAL)
NOTE['C07'] = ('sessions destroyed at arbitrary points; threads, descriptors, terminal, later input and progress checked', LOCAL)
NOTE['C08'] = ('interrupted calls, spurious wake-ups, end of file and EIO on stdin injected at arbitrary points', LOCAL)
NET = SAMPLED + 'real code: telnet servers and sessions, server base, dispatch, history, Cli, asio and its epoll reactor; simulated: TCP (windows, segmentation, delay, FIN, RST), epoll, accept, clocks, the clients. Clients that stop reading for ever are not simulated (a blocked synchronous write stalls the program by design).'
NOTE['C09'] = ('per-client executable model of telnet decoding, line editing and dispatch fed with the byte stream; twin clients send the same arbitrary bytes in different segments and must get the same commands and output', NET)
NOTE['C10'] = ('negotiation sequences injected at any byte of the stream; answers checked one by one against the protocol table, text and commands against the model without them', NET)
NOTE['C11'] = ('several sessions of all kinds on one hierarchy, each compared with its own single-user model', NET)
NOTE['C12'] = ('clients that vanish, reset, stay silent or send arbitrary bytes, and failing accept, read and write; the others must be served, descriptors and threads accounted for, and a late client served', NET)
NOTE['C13'] = ('enter and exit actions counted and ordered per session, nothing executed after the exit, connection closed, commands stored once', NET)
NOTE['C14'] = ('complete screen of every session compared with the model under short writes, EAGAIN, tiny windows, slow readers and signals', NET)
NOTE['C15'] = ('numbered shared outputs must reach each live session exactly once and in order, and nobody else', NET)
NOTE['C22'] = ('handlers throwing every kind of exception, with and without user exception handlers; the session and all the others continue as the model says', NET)
NOTE['C23'] = ('servers and sessions destroyed and recreated by tasks at arbitrary points; memory errors, descriptors, ports and the other sessions checked', NET)
HIST = SAMPLED + 'real code: File/VolatileHistoryStorage, History, CliSession, dispatch, libstdc++ file streams; simulated: the file system (process-kill model: completed writes survive), faults and kills.'
NOTE['C16'] = ('lives of a program with several sessions against a model of what each session stores and loads; every Store argument and every loaded list compared', HIST)
NOTE['C17'] = ('open, read, write, close and rename errors, short reads and writes, full disks and kills at any disk operation or moment; afterwards the file is the old or the new history and the next life works', HIST)
NOTE['C18'] = ('the same faults during saves: commands persisted earlier are still there afterwards, whatever the save did', HIST)
NOTE['C19'] = ('arrow keys, recalls and the history command against an executable model of the history, in sessions that come and go', HIST)
NOTE['C20'] = ('scripts, and scripts run by scripts, delivered in arbitrary pieces by several kinds of stream that end, fail or are continued anywhere, against the dispatch model', SAMPLED + 'real code: CliFileSession, CliSession, dispatch, libstdc++ streams; simulated: the files and stream buffers below them.')
NOTE['C21'] = ('lines typed in arbitrary pieces on a terminal, pipe or redirected file with signals, spurious wake-ups, EAGAIN, end of file and errors, against the dispatch model; other tasks on the scheduler must keep running', SAMPLED + 'real code: asynchronous session, asio descriptors and reactor, CliSession, dispatch; simulated: stdin, epoll, signals.')
NOTE['C24'] = ('commands and menus enabled, disabled, removed and inserted by tasks and by running handlers, also while a line is half typed, under bare, telnet and local sessions standing anywhere; every command, screen and completion compared with the dispatch model', SAMPLED + 'real code: Menu, CmdHandler, CliSession, telnet and local sessions, schedulers, asio; simulated: terminal and network.')
NOTE['C28'] = ('the same seeded work (sessions of every kind opened, used and ended in every way, servers, menu changes, tasks, failing commands, telnet sequences) repeated in one program; live library allocations, descriptors and threads must not grow from round to round', SAMPLED + 'real code: everything above the system calls; simulated: network, terminal, disk. Allocations made inside libstdc++.so through operator new are counted too; malloc by other libraries is not.')
PURE = 'a pure function of its input: no schedule, clock, fault, I/O or interleaving can influence it, so it is not a simulation target (it is exercised by the worlds of other properties through reference models, but not claimed)'
NA = {'C25': PURE, 'C26': PURE, 'C27': PURE}
