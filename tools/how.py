# id: (what decides, what bounds it)
HOW.update({
'C01':('every run compared with a sequential reference model of the language','random two-dimensional programs of up to 60x16 cells, some dozens of IPs and some thousand turns; memory model is sequential consistency'),
'C02':('split-heavy programs against the reference model, and native-thread programs whose IPs must print what a split copy computes','random programs; stacks of stacks up to a few dozen cells; fingerprints modelled by the reference'),
'C03':('quit-heavy programs against the reference model, and native-thread programs checked over the recorded history: one more instruction per IP after the quitter has returned, exit code, end of the process','up to 8 IPs in native mode, quit at a random or scheduled point'),
'C04':('process end checked against the end of every IP, with leak-free ordered teardown: use after free, deadlock and lost output are outcomes of the simulator','up to 8 IPs and 6 universes'),
'C05':('native-thread programs whose IPs print what they read: history checked for per-IP order, single-writer monotone cells, exact final contents; memory accesses to freed memory detected','up to 8 IPs, sequentially consistent interleavings at memory-access granularity'),
'C06':('transferring IPs print a numbered trace, checked for exactly-once and for the cells of the universe they are in','up to 4 universes and 6 transfers'),
'C07':('copies between universes, names and counts against a reference model','universes of up to 20x12 cells'),
'C08':('generated multiverse files, listing order, arguments, failures at every open and read','up to 8 lines, nesting depth 3'),
'C09':('generated funge-lib fingerprints against a reference evaluation of the call','up to 3 libraries and 4 calling IPs'),
'C10':('message programs against the reference model','random programs of a universe whose IPs take turns, plus patterned dormancy programs'),
'C11':('programs that echo input with identification against a byte-exact reference under arbitrary arrival patterns','input up to some hundred bytes'),
'C12':('distribution and independence of the random moves over the outcomes of the simulated random source','128 moves of up to 3 IPs and universes in 1 to 3 dimensions'),
'C13':('file contents, origins and failures of every open and read against a reference loader','files up to some hundred bytes'),
'C14':('files written compared with a reference writer, failures of every open, write and close, exact byte offsets','regions up to 20x10 cells'),
'C15':('directory and channel-file programs under failures of each file system call, compared with a reference file system','up to 12 operations a program'),
'C16':('every way of coming to a universe with every capability switched off; no open, command or thread may show in the history','single and multiverse, created, library universes'),
'C17':('time stamps compared with the simulated clocks under jumps and stalls','jumps of up to days in both directions'),
'C18':('terminal attributes over the whole history, every way to end','terminal with arbitrary initial flags'),
 'C19':('lock-step comparison of generated debugger sessions with a reference model that knows where every stop must be and what every inspection must show; seeded schedules of native threads and universes under the debugger','setpos/setdelta and odd arguments of list and get are not generated; the modelled sessions use one universe'),
'C20':('commands recorded by the simulated shell against the reference model','statuses: success, exit codes, signals, not started; latencies'),
'C21':('failures of open and of every read of every program format, in each file format','files up to some hundred bytes'),
'C22':('fish programs against a reference model of the dialect','random programs of up to 40x12 cells'),
'C23':('references made and resolved by IPs of several universes at once, with a random source that repeats values','up to 6 IPs and 3 universes'),
})
