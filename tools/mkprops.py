#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","IPs of a universe run in lock step, one instruction per turn, in fixed order",
 "In the default threading mode the instruction pointers of one funge-space take turns in a fixed cyclic order, each executing exactly one instruction per turn: blanks and commented-out cells cost no turn, a newly split IP takes its first turn before its parent's next one, and an IP that ends leaves the order of the others unchanged. Program output, external effects, final exit code and funge-space are therefore a function of program and input alone, whatever the operating system does with the interpreter's own threads and however slowly input arrives.",
 ["programs","schedules","fault_sequences"],"all programs with any number of IPs created and ended at any tick; all schedules of the interpreter's OS threads; all stdin arrival patterns, spurious wakeups and interrupted calls",
 "The test programs are single-IP or split once with a fixed layout, and run on whatever schedule the machine gives; the claim is over all IP populations and schedules.",
 ["src/FungeUniverse.cpp","src/FungeRunner.cpp","src/FungeStateNormal.cpp","src/FungeStateString.cpp","src/Unefunge98Strategy.cpp"],
 [("round-robin loop of the universe thread","src/FungeUniverse.cpp FungeUniverse::operator()"),("one instruction per turn, skipping blanks","src/FungeRunner.cpp FungeRunner::tick"),("split queues the child","src/FungeUniverse.cpp cloneRunner/addRunner")],
 [("runner queue","IPs in turn order","src/include/FungeUniverse.h")],["stdout","exit code","stderr","system() calls"])
prop("C02","A split IP starts as a private copy of its parent, with a unique id",
 "When an IP splits, the new IP starts at the next cell in the reversed direction with the same stacks (all of them), the same storage offset and the same loaded instruction meanings, and an id no other IP of the process ever has. From then on nothing either IP does to its stacks, position, direction, storage offset, string mode or loaded fingerprints is visible to the other, in both threading modes and under every schedule.",
 ["programs","schedules"],"all programs that split at any point with any stack-stack contents and fingerprints loaded; all interleavings of the resulting IPs, native threads included",
 "Existing tests split with near-empty stacks and never compare the copies; id allocation races need a specific interleaving.",
 ["src/FungeRunner.cpp","src/StackStack.cpp","src/Stack.cpp","src/InstructionPointer.cpp","src/FingerprintStrategy.cpp"],
 [("copying constructor of an IP","src/FungeRunner.cpp FungeRunner(const FungeRunner&)"),("deep copy of the stack stack","src/StackStack.cpp"),("fingerprint state re-created for the clone","src/FingerprintStrategy.cpp clone")],
 [("id counter","next IP id","src/FungeRunner.cpp FungeRunner::count")],["stdout of each IP","system information (y)"])
prop("C03","Quit stops every IP and yields the popped exit code, in every mode",
 "When an IP executes the quit instruction, all IPs of its universe stop, no IP of it starts a further instruction after the one it is in the middle of, and the process ends by itself with the low byte of the popped value as exit code if that universe is the first one. This holds in both threading modes, however many IPs there are, whatever they are doing (looping over blanks, dormant, sleeping, splitting) and whichever point of their execution the quit hits.",
 ["schedules","programs","crash_points"],"all points at which quit can strike relative to every other IP's instruction, all schedules, both threading modes",
 "The quit test has one IP and the default mode; quitting while another native thread is splitting, sleeping or skipping blanks is never exercised.",
 ["src/Unefunge98Strategy.cpp","src/FungeUniverse.cpp","src/InstructionPointer.cpp","src/FungeMultiverse.cpp"],
 [("stop all IPs and wake waiters","src/FungeUniverse.cpp killAll"),("join of threads at destruction","src/FungeUniverse.cpp ~FungeUniverse"),("waiting for all universes","src/FungeMultiverse.cpp waitAll")],
 [("running flag","universe alive","src/include/FungeUniverse.h"),("exitcode","value popped by quit","src/include/FungeUniverse.h")],["exit code","process termination","stdout after quit"])
prop("C04","The process ends when, and only when, the last IP of the last universe ends",
 "A program whose IPs all end by themselves terminates with exit code 0 without further input or signal, in both threading modes, with one or many universes, within a bounded number of scheduling steps after the last IP ends and without touching memory already released. As long as any IP in any universe is still running the process does not end, so nothing an IP would still output is lost.",
 ["schedules","programs"],"all schedules of IP threads, universe threads and the main thread around IP creation, transfer and end; all programs whose IPs all end",
 "Tests of native threading hang or are not run at all; premature or missed termination needs a particular interleaving of the waiting thread with IP end.",
 ["src/FungeUniverse.cpp","src/FungeMultiverse.cpp","src/Funge.cpp","src/include/../util/include/FungeSem.h"],
 [("condition variable wait until no IP is left","src/FungeUniverse.cpp wait/isRunning"),("wait loop over universes","src/FungeMultiverse.cpp waitAll"),("teardown order","src/FungeUniverse.cpp ~FungeUniverse, src/FungeMultiverse.cpp ~FungeMultiverse")],
 [("runners/threads","live IPs","src/include/FungeUniverse.h")],["process termination","exit code","stdout"])
prop("C05","Native-thread IPs compute sequentially and share funge-space without lost writes",
 "With native threads every IP still executes its own instruction sequence on its own stacks exactly as it would alone, and everything it prints comes out once and in its own order. Reads and writes of shared cells are atomic and coherent: a read returns a value some IP actually wrote (or the initial one), an IP sees its own writes, writes to different cells never disturb each other, nothing is lost, and the interpreter never crashes, under every interleaving.",
 ["schedules","programs"],"all interleavings of native-thread IPs at memory-access granularity, for all programs whose IPs read, write, add and erase cells concurrently",
 "Native mode has no passing test at all, and data races show only under specific interleavings of container updates.",
 ["src/Field.cpp","src/FungeRunner.cpp","src/FungeUniverse.cpp","src/Stack.cpp"],
 [("IP thread loop","src/FungeRunner.cpp operator()"),("cell map access","src/Field.cpp get/put"),("per-IP state","src/include/FungeRunner.h")],
 [("cell map and bounds","funge-space of a universe","src/include/Field.h")],["stdout per IP","final cell contents","crashes"])
prop("C06","An IP moved to another universe is executed exactly once per turn, in order",
 "An IP that jumps to another universe keeps its stacks, position and direction (or takes the given position and direction), executes every instruction of its path exactly once, from then on reads and writes the target universe's cells, and ends or quits there as any native IP of that universe. It is never executed by two universes at once, never lost and never duplicated, under every schedule of the two universes' threads, also when the target is idle or ending at that moment.",
 ["schedules","programs"],"all interleavings of source and target universe threads around a transfer, including repeated transfers and targets that have no other IP",
 "The multiverse tests make a few transfers on one schedule and are flaky on the pinned commit.",
 ["src/FungeUniverse.cpp","src/fingerprint/FingerprintMVRS.cpp","src/FungeRunner.cpp"],
 [("hand-over between universe queues","src/FungeUniverse.cpp transferRunner and operator()"),("jump and go-to instructions","src/fingerprint/FingerprintMVRS.cpp J, G")],
 [("runner's universe pointer","which universe executes and backs the IP","src/include/FungeRunner.h")],["stdout","exit code","termination"])
prop("C07","Universes are isolated, uniquely named, and copies between them are exact",
 "Each universe has its own funge-space, dimensions, standard and modes, so nothing done in one changes another except by explicit copy, transfer or a command naming it; creating a universe always completes and gives it a name no other universe has, and the universe count and name queries are right. Copying a region from or to another universe transfers every cell of the region exactly as it was and touches nothing outside it, and a name that does not exist makes the instruction reflect, whatever the other universes are doing at the time.",
 ["schedules","programs","configurations"],"all schedules of concurrently running universes, any number of universes of equal or different names, all region shapes",
 "One multiverse test with two universes and distinct names; no test creates equal names or copies while another universe runs.",
 ["src/FungeMultiverse.cpp","src/fingerprint/FingerprintMVRS.cpp","src/VectorRange.cpp","src/Field.cpp"],
 [("name disambiguation and registration","src/FungeMultiverse.cpp create"),("region copy","src/fingerprint/FingerprintMVRS.cpp copySpace"),("lookup by name","src/FungeMultiverse.cpp operator[]")],
 [("universe table","name to universe","src/include/FungeMultiverse.h")],["stdout","termination"])
prop("C08","A multiverse file starts one universe per line with its own arguments",
 "Loading a multiverse file starts, for every non-empty line and in file order, one universe running that line's program with that line's arguments appended to the common ones, including when the same program is listed many times or files are nested; all run concurrently to completion and the process exit code is that of the first. If a listed file cannot be loaded the process reports it and ends with the I/O error code instead of hanging or crashing, whatever the already started universes are doing.",
 ["inputs","schedules","fault_sequences"],"all multiverse files (order, repetition, nesting, relative and absolute paths, trailing newline or none), all schedules of the started universes, all open or read failures at any line",
 "Two fixed multiverse files with two lines each; no failing or repeated line.",
 ["src/Funge.cpp","src/FungeMultiverse.cpp"],
 [("line-wise loader","src/Funge.cpp parseFMV"),("program loader","src/Funge.cpp createUniverse")],(),["stdout per universe","exit code","stderr","termination"])
prop("C09","Dynamic fingerprint instructions run synchronously on the caller's stack",
 "An instruction provided by a funge-lib file runs its funge code to the end, on the calling IP's own stack, before the caller's next instruction: its results are on the caller's stack, its effects on the caller's position, direction or storage offset are those it requested, and nothing leaks to other IPs, callers or later calls. This holds under every schedule of the library's universe and the callers', for repeated calls, several fingerprints and several calling IPs.",
 ["schedules","programs"],"all schedules of the caller's and the library universe's threads, all call sequences and callers",
 "The two dynamic-fingerprint tests call from one IP on one schedule.",
 ["src/fingerprint/FingerprintFungeLib.cpp","src/fingerprint/FingerprintDynamic.cpp","src/FungeRunner.cpp","src/FungeMultiverse.cpp"],
 [("call and wait","src/fingerprint/FingerprintFungeLib.cpp execute"),("caller access","src/fingerprint/FingerprintDynamic.cpp execute"),("shared stack","src/FungeRunner.cpp constructor taking the caller")],(),["stdout","termination"])
prop("C10","Messages between IPs arrive exactly once and wake the dormant receiver",
 "A value one IP sends to another IP's stack arrives there exactly once and in sending order, a value taken or inspected from another stack is that stack's top, and an IP that went dormant stays so until another IP touches its stack and then always continues. The id queries return the right ids, and addressing an IP that does not exist (never existed, ended, or is a missing parent) reflects instead of crashing or blocking.",
 ["schedules","programs"],"all interleavings of senders, receivers and IP ends, in both threading modes, any number of messages and IPs",
 "No test exercises inter-IP communication.",
 ["src/fingerprint/FingerprintIIPC.cpp","src/FungeUniverse.cpp","src/Stack.cpp"],
 [("lookup of the addressed IP","src/FungeUniverse.cpp getRunner"),("dormancy by stack age","src/fingerprint/FingerprintIIPC.cpp D"),("locked stack operations","src/Stack.cpp")],
 [("stack age","operations performed on a stack","src/include/Stack.h")],["stdout","termination"])
prop("C11","Standard input is consumed exactly once, in order; end of input reflects",
 "Every input byte is delivered to exactly one input instruction, in order and independent of how the bytes arrive (single bytes, chunks, long pauses): a number read takes the maximal digit run and leaves the character after it, including a number that ends at end of input, and a character read returns the next byte. At end of input an input instruction makes the IP reflect, at any later time again, and never hangs or crashes, and other universes keep running while one waits for input.",
 ["inputs","fault_sequences","schedules"],"all byte sequences, all arrival timings and chunkings, end of input at every position, any mix of number, character, based-number and string input",
 "Tests feed a few fixed inputs from files that are fully available at once and never end inside an instruction.",
 ["src/Unefunge93Strategy.cpp","src/FishStrategy.cpp","src/fingerprint/FingerprintBASE.cpp","src/fingerprint/FingerprintSTRN.cpp"],
 [("number and character input","src/Unefunge93Strategy.cpp instructionNumIn/instructionCharIn"),("based input","src/fingerprint/FingerprintBASE.cpp I"),("string input","src/fingerprint/FingerprintSTRN.cpp I"),("fish input","src/FishStrategy.cpp")],(),["stdout","consumed input position"])
prop("C12","Random moves pick each of the axis directions, and only those",
 "The random-direction instruction sets the direction to one of the unit steps along the axes of the universe's dimensions, each of them reachable, for every outcome of the random source, and successive choices are not tied to each other, to another IP's choices or to those of another run; the same holds for the random directions and numbers of the fingerprints and the fish dialects. Everything else about the IP is left unchanged, and a program's result is a function of program, input and those random choices only.",
 ["programs","fault_sequences"],"all outcomes of the random source, 1 to 4 dimensions, any number of IPs",
 "Tests print one random walk and cannot control the random source.",
 ["src/Unefunge93Strategy.cpp","src/FungeStrategy.cpp","src/FishStrategy.cpp"],
 [("uniform choice of axis and sign","src/Unefunge93Strategy.cpp instructionGoAway"),("random engine","src/FungeStrategy.cpp")],(),["stdout","system information (y)"])
prop("C13","File input loads the file exactly, or reflects on any failure",
 "Reading a file into funge-space places exactly the file's characters at the given origin (line breaks in text mode start a new row unless they directly follow a plane separator, blanks leave cells as they were, binary mode takes every byte in one row) and pushes the origin and the size of what was read, regardless of how the file is delivered in pieces. If the file cannot be opened or any read fails (it is a directory, an I/O error at any byte), the instruction reflects; it never hangs, crashes, exhausts memory or reports success.",
 ["inputs","fault_sequences"],"all file contents and origins, all short-read and interruption patterns, open and read failures at every byte",
 "One test reads one small intact file.",
 ["src/Unefunge98Strategy.cpp","src/Field.cpp"],
 [("open and read","src/Unefunge98Strategy.cpp instructionFileIn"),("parser","src/Field.cpp parse")],(),["cells","stack","termination"])
prop("C14","File output that does not reflect has written exactly the region's contents",
 "When the file output instruction succeeds, the file holds exactly the given region: rows of its cells separated by line breaks (planes by form feeds), complete in binary mode, without the trailing blanks of every row (and optionally without trailing blank rows) in text mode, and nothing of a previous content. If opening, writing or closing fails at any point (permission, full disk, I/O error at any byte) the instruction reflects, and in neither case is funge-space, another file or the rest of the program affected.",
 ["inputs","fault_sequences"],"all regions and cell contents, all short writes and interruptions, failures at every byte written",
 "One test writes one region to a healthy disk.",
 ["src/Unefunge98Strategy.cpp","src/Field.cpp"],
 [("open, write, result","src/Unefunge98Strategy.cpp instructionFileOut"),("region serialisation","src/Field.cpp dump")],(),["file contents","stack","direction of the IP"])
prop("C15","Directory and channel-file operations fail by reflecting, never by dying",
 "Making, removing and changing directories, and the file commands of the fish dialects, either have exactly the requested effect or fail; a failing directory operation makes the IP reflect and leaves directories and working directory as they were. No failure the file system can produce (missing, not a directory, not empty, exists, permission, read-only, full, I/O error) terminates the interpreter or disturbs other IPs.",
 ["fault_sequences","inputs"],"all directory operation sequences and paths, every error code at every file system call",
 "No test makes a directory operation fail.",
 ["src/fingerprint/FingerprintDIRF.cpp","src/StarfishStrategy.cpp"],
 [("directory instructions","src/fingerprint/FingerprintDIRF.cpp"),("file channel of the dialect","src/StarfishStrategy.cpp")],(),["file system state","direction of the IP","termination"])
prop("C16","Disabled capabilities stay disabled for every IP in every universe",
 "When execution, file access or concurrency is disabled on the command line, no instruction of any IP in any universe, however that universe came to be (listed, created at run time, library), runs a command, opens or changes a file, or creates an IP; the instruction reflects instead, and the environment flags in system information say so everywhere. With the capability enabled the same instructions work.",
 ["configurations","programs","histories"],"all combinations of capability flags and all ways of reaching a universe and the restricted instructions",
 "The tests run with everything enabled except one execution test in one universe.",
 ["src/Funge.cpp","src/Unefunge98Strategy.cpp","src/fingerprint/FingerprintMVRS.cpp","src/fingerprint/FingerprintFungeLib.cpp","src/fingerprint/FingerprintPERL.cpp"],
 [("capability checks","src/Unefunge98Strategy.cpp t, i, o, ="),("configuration of created universes","src/fingerprint/FingerprintMVRS.cpp B, src/fingerprint/FingerprintFungeLib.cpp factory")],
 [("configuration flags","what a universe allows","src/include/FungeConfig.h")],["system() calls","file system calls","IP count","flags from y"])
prop("C17","Times reported to a program are consistent under any clock behaviour",
 "The date and time in system information are those of one single instant between start and end of the instruction, also when other universes ask at the same time; the elapsed-time timer counts microseconds since its mark on a clock that never goes back, independent of jumps of the wall clock, and is per IP; the sub-second counter and the clock commands of the fish dialect report the current wall time. A sleep lasts at least the requested time and delays nobody in other universes.",
 ["fault_sequences","schedules"],"all wall-clock jumps (forward, backward, across midnight and year end) at any point, all interleavings of several universes asking for the time",
 "Tests cannot move the clock and print the time for a human to look at.",
 ["src/Unefunge98Strategy.cpp","src/fingerprint/FingerprintHRTI.cpp","src/StarfishStrategy.cpp"],
 [("calendar time","src/Unefunge98Strategy.cpp pushSysInfo"),("high resolution timer","src/fingerprint/FingerprintHRTI.cpp"),("clock and sleep commands","src/StarfishStrategy.cpp")],(),["stdout","virtual clock"])
prop("C18","The terminal is left exactly as it was found",
 "Whatever a program reads from the terminal and however it ends (last IP ends, quit from another IP while input is pending, end of input, load error), the terminal attributes after the process are those from before it. While an input instruction waits the terminal is in non-canonical mode and only then, and with standard input not a terminal no terminal call changes anything or fails the program.",
 ["schedules","fault_sequences"],"all interleavings of input instructions of several universes or native IPs with each other and with quit; terminals and non-terminals, interrupted calls",
 "Tests run without a terminal.",
 ["src/util/ScopedTermios.cpp","src/Unefunge93Strategy.cpp","src/FishStrategy.cpp"],
 [("scoped terminal mode","src/util/ScopedTermios.cpp")],(),["terminal attributes over time"])
prop("C19","The debugger never changes what a program computes, and always lets go",
 "Running a program under the debugger with any sequence of inspecting, stepping, breaking and continuing commands gives the same program output, the same effects and exit code as running it without, and execution stops exactly before the cells with breakpoints and at writes to watched cells. The position, delta, storage offset, stacks, cells and backtrace it shows are those of the selected IP at that moment. Quit ends the session without executing further instructions, end of input on the debugger prompt ends it instead of looping, and no command about an IP that has ended or never existed crashes it.",
 ["inputs","programs","fault_sequences"],"all command sequences at all stops, end of command input at every prompt, programs with splitting and ending IPs",
 "No test runs the debugger.",
 ["src/Defunge.cpp","src/FungeDebugger.cpp","src/FungeRunner.cpp"],
 [("command loop","src/Defunge.cpp debug"),("stop conditions and IP table","src/FungeDebugger.cpp")],
 [("thread table","IPs known to the debugger","src/include/FungeDebugger.h")],["stdout","exit code","termination"])
prop("C20","An executed command runs exactly once, as given, and its result is pushed",
 "The execute instruction runs exactly the command string popped, once and to completion before the IP's next instruction, and pushes its result; a command that fails, is killed or cannot be started is reported by a non-zero result, and the interpreter goes on. The scripting-language instructions run exactly one command carrying exactly the given code and return its result, under every outcome and latency of the command.",
 ["fault_sequences","inputs","schedules"],"all command strings, all outcomes (exit codes, signals, failure to start) and latencies, several IPs executing commands",
 "One test runs one successful command.",
 ["src/Unefunge98Strategy.cpp","src/fingerprint/FingerprintPERL.cpp"],
 [("execute","src/Unefunge98Strategy.cpp instructionExecute"),("script command construction","src/fingerprint/FingerprintPERL.cpp perl")],(),["system() calls","stdout"])
prop("C21","A program that cannot be loaded is an error exit, never a partial run or a hang",
 "If the program file cannot be opened or read completely (missing, a directory, no permission, I/O error at any byte) the process executes no instruction of it, prints a diagnostic and exits with a non-zero code within bounded time and memory. If it can be loaded, the program started is exactly the file's content regardless of how reads are split or interrupted, in each of the file formats.",
 ["inputs","fault_sequences"],"all file contents in every format, all short-read patterns, failures at every open and every byte",
 "Tests load intact files only.",
 ["src/Funge.cpp","src/Field.cpp"],
 [("loader","src/Funge.cpp createUniverse"),("parsers","src/Field.cpp parse, parseBeq, parseFungeLib")],(),["exit code","stderr","stdout"])
prop("C22","Fish dialect programs behave by the dialect's rules for every input and failure",
 "A fish program's output is determined by the program, its input and its random moves: stack-of-stacks, register, self-modification and input behave by the dialect's definition, every invalid situation (unknown instruction, stack underflow, division by zero) stops the program with the dialect's error message and exit code 1, and normal end gives exit code 0. Input arriving in any pattern, end of input, sleeping and clock changes never alter that.",
 ["programs","inputs","fault_sequences"],"all fish and starfish programs and inputs, all input timings, end of input at any point",
 "A handful of sample programs with fixed input.",
 ["src/FishStrategy.cpp","src/StarfishStrategy.cpp"],
 [("dialect instructions and error handler","src/FishStrategy.cpp, src/StarfishStrategy.cpp")],(),["stdout","stderr","exit code"])
prop("C23","A cell reference is unique and resolves to its vector everywhere",
 "Every reference handed out for a cell is different from all others handed out in the process, and resolving it later yields exactly the vector it was made from, in any IP and any universe and after any number of further references. This holds however many IPs and universes make and resolve references at the same time and whatever values the random source yields, repeats included.",
 ["schedules","histories","fault_sequences"],"all interleavings of IPs making and resolving references, all random sequences including collisions",
 "No test uses references.",
 ["src/fingerprint/FingerprintREFC.cpp"],
 [("reference table","src/fingerprint/FingerprintREFC.cpp")],[("reference map","reference to vector","src/fingerprint/FingerprintREFC.cpp")],["stdout","crashes"])
prop("N01","Arithmetic, comparison and bit instructions compute on 64-bit cells as specified",
 "Every arithmetic, logic, comparison, floating-point, complex, rational and bit instruction computes the result its specification gives for all operand values, with division and remainder by zero as documented.",
 ["inputs"],"all operand values",
 "Tests sample a few operands.",["src/Unefunge93Strategy.cpp","src/fingerprint/FingerprintBITW.cpp","src/fingerprint/FingerprintFIXP.cpp","src/fingerprint/include/FingerprintFloat.h"],
 [("instruction bodies","src/Unefunge93Strategy.cpp, src/fingerprint")])
prop("N02","IPs wrap around funge-space along their line of travel",
 "An IP that leaves the occupied region re-enters it on the opposite side along the same line for every direction vector, number of dimensions and topology, so that reversing retraces its path.",
 ["inputs","programs"],"all direction vectors, positions and occupied regions",
 "Tests wrap with unit steps in small spaces.",["src/InstructionPointer.cpp","src/Vector.cpp"],
 [("wrapping","src/InstructionPointer.cpp next")])
prop("N03","String and number formatting fingerprints convert exactly",
 "String search, slicing, conversion, formatted printing and base conversion produce exactly the characters and numbers their specification gives, and reflect on arguments they cannot convert.",
 ["inputs"],"all strings, numbers and format strings",
 "Tests sample a few strings.",["src/fingerprint/FingerprintSTRN.cpp","src/fingerprint/FingerprintFPRT.cpp","src/fingerprint/FingerprintBASE.cpp"],
 [("conversions","src/fingerprint/FingerprintSTRN.cpp, FingerprintFPRT.cpp, FingerprintBASE.cpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
