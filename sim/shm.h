// Shared memory layout between the driver (scenario, oracle) and the simulated process.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace simshm {

enum : uint64_t { SHM_ADDR = 0x200000000000ull };
enum { MAX_DEC = 1 << 18, MAX_FAULT = 256, MAX_NODE = 96, NODE_CAP = 96 * 1024, PATH_CAP = 600,
       MAX_STDIN = 64 * 1024, MAX_CHUNK = 2048, MAX_ARG = 96, STR_CAP = 32 * 1024, EV_CAP = 24 << 20, MAX_SYS = 64, MAX_JUMP = 32 };

// Operation classes at which faults can be injected; occurrences are counted per class.
enum Op : uint32_t { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_STAT, OP_MKDIR, OP_REMOVE, OP_CHDIR, OP_REALPATH, OP_THREAD,
                     OP_SYSTEM, OP_TCGET, OP_TCSET, OP_SLEEP, OP_CONDWAIT, OP_STDIN, OP_SEEK, OP_GETCWD, OP_COUNT };
// What a fault does. F_ERR: fail with errno `val`. F_SHORT: transfer at most `val` bytes.
// F_ERR_AT: fail with errno `val` once the file offset reaches `off` (partial transfer up to there first).
// F_STALL: the calling thread is not scheduled for `off` steps (as long as another one can run).
// F_WAKE: spurious wakeup of a condition variable waiter.
enum FKind : uint32_t { F_ERR, F_SHORT, F_ERR_AT, F_STALL, F_WAKE, F_KINDS };

struct Fault {
	uint32_t op, kind;
	uint32_t nth;      // 0-based occurrence of op (among those matching path); 0xffffffff: every occurrence
	int32_t val;
	int64_t off;
	char path[320];     // suffix of the path concerned, or empty
};
struct Dec { uint64_t point; uint32_t target; uint32_t forced; };
struct Chunk { uint64_t at; uint32_t len; uint32_t pad; };   // len bytes become readable at virtual time `at` (ns after start)
struct Jump { uint64_t at; int64_t by; };                    // wall clock jumps by `by` ns at virtual time `at`
struct SysRes { int32_t status; uint32_t pad; uint64_t latency; };

enum NodeType : uint32_t { N_FREE, N_FILE, N_DIR };
struct Node {
	uint32_t type;
	uint32_t mode;     // bit 0: readable, bit 1: writable
	uint32_t size;
	uint32_t pad;
	char path[PATH_CAP];
	uint8_t data[NODE_CAP];
};

enum EvKind : uint16_t { E_STDOUT = 1, E_STDERR, E_STDIN, E_OPEN, E_READ, E_WRITE, E_CLOSE, E_SYSTEM, E_SLEEP, E_THREAD, E_TEXIT,
                         E_TERM, E_FAULT, E_FSOP, E_TIME, E_EXIT, E_RANDOM, E_SYSDONE, E_STDINWAIT, E_MAINEND };
struct Ev {
	uint16_t kind, tid;
	uint32_t len;
	uint64_t vt;
	int64_t a, b;
	// followed by len bytes, padded to 8
};

enum Outcome : uint32_t { O_NONE, O_EXIT, O_CRASH, O_DEADLOCK, O_STEPS, O_MEMERR, O_MEMGROW, O_WAITIN, O_ABORT, O_INTERNAL };

struct In {
	uint64_t seed;
	// scheduling strategy
	uint32_t explicit_mode;
	uint32_t p_sync_ppm;       // switch at a synchronisation or I/O point
	uint32_t mem_mean;         // mean number of memory accesses between random switches; 0: none
	uint32_t p_conflict_ppm;   // switch before an access to a word another thread accessed (one of the two writing)
	uint32_t pct_changes;      // PCT: number of priority change points; strategy PCT when pct != 0
	uint32_t pct;
	uint64_t pct_len;          // PCT: estimated run length in steps
	uint32_t p_block_random;   // choose randomly (1) or the lowest (0) among runnable threads at a blocking point
	uint32_t p_spurious_ppm;   // spurious wakeups of condition variables
	uint32_t read_chunk;       // max bytes per read() of a file; 0: no limit
	uint32_t write_chunk;
	uint32_t stdin_never_ends; // 1: no end of input, a read at the end blocks for ever
	uint32_t stdin_tty;
	uint32_t term_lflag;
	uint64_t rand_seed;        // of the sources of randomness only
	uint32_t random_mode;      // 0: PRNG, 1: small set (collisions), 2: constant
	uint64_t quantum;          // fairness: a thread is preempted after this many steps without a switch
	uint64_t max_points;
	uint64_t max_mem;
	uint64_t mem_fill;         // byte newly allocated memory is filled with
	uint64_t step_ns;
	int64_t wall_base;         // seconds since the epoch at start
	uint32_t ndec, nfault, nchunk, njump, nsys, nnode, nstdin, argc, envc;
	char cwd[PATH_CAP];
	uint32_t argoff[MAX_ARG], envoff[MAX_ARG];
	char strs[STR_CAP];
	Fault fault[MAX_FAULT];
	Chunk chunk[MAX_CHUNK];
	Jump jump[MAX_JUMP];
	SysRes sys[MAX_SYS];
	uint8_t stdin_data[MAX_STDIN];
	Dec dec[MAX_DEC];
};

struct Out {
	uint32_t outcome;
	int32_t exit_code;
	int32_t signal;
	uint32_t nthreads;
	uint64_t points, switches, syncs, vt;
	uint64_t sched_hash;
	uint64_t stdin_consumed;
	uint64_t mem_used;
	uint32_t ndec, dec_overflow;
	uint64_t evlen;
	uint32_t ev_overflow;
	uint32_t live_at_main_end;
	uint64_t fault_fired[OP_COUNT][F_KINDS];
	uint64_t spurious, preempts, stdin_waits, sleeps;
	uint64_t op_count[OP_COUNT];
	uint32_t term_lflag;
	uint32_t term_sets;
	char cwd[PATH_CAP];
	char msg[512];
	uint64_t bt[24];
	Dec dec[MAX_DEC];
	uint8_t ev[EV_CAP];
};

struct Shm {
	In in;
	Out out;
	Node node[MAX_NODE];
};

} // namespace simshm
