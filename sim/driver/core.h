// Driver: scenarios, running them, reading the history.
#pragma once
#include "../shm.h"
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace drv {
using namespace simshm;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed) {}
	static u64 mix(u64 x){ x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
	u64 next(){ s += 0x9e3779b97f4a7c15ull; return mix(s); }
	u32 below(u32 n){ return n ? (u32)(next() % n) : 0; }
	i64 range(i64 a, i64 b){ return a + (i64)(next() % (u64)(b - a + 1)); }
	bool pct(u32 p){ return below(100) < p; }
	bool ppm(u32 p){ return below(1000000) < p; }
	template<class T> const T& pick(const std::vector<T>& v){ return v[below((u32)v.size())]; }
	char pickc(const char* s){ return s[below((u32)strlen(s))]; }
};

struct File { std::string path; std::string data; bool dir = false; u32 mode = 3; };

struct Sched {   // scheduling strategy
	u32 p_sync = 0, mem_mean = 0, p_conflict = 0, pct = 0, pct_changes = 0; u64 pct_len = 0;
	u32 block_random = 1, p_spurious = 0;
	u64 quantum = 400000;
	std::string name;
};

struct Scenario {
	u64 seed = 0;
	std::vector<std::string> argv, env;
	std::vector<File> files;
	std::string cwd = "/sim/work";
	std::string input;
	std::vector<Chunk> chunks;        // arrival of input; empty: all at once
	bool never_ends = false;
	bool tty = false;
	u32 lflag = 0x8a3b;
	Sched sched;
	std::vector<Fault> faults;
	std::vector<Jump> jumps;
	std::vector<SysRes> sys;
	u32 read_chunk = 0, write_chunk = 0, random_mode = 0; u64 rand_seed = 0;   // 0: from seed
	i64 wall_base = 1700000000;
	u64 max_points = 40000000, max_mem = 200u << 20, mem_fill = 0xa5, step_ns = 10;
	bool is_explicit = false;
	std::vector<Dec> decs;
	void file(const std::string& path, const std::string& data, u32 mode = 3){ files.push_back(File{path, data, false, mode}); }
	void dir(const std::string& path, u32 mode = 3){ files.push_back(File{path, "", true, mode}); }
	void fault(u32 op, u32 kind, u32 nth, int val, i64 off = 0, const std::string& path = "");
};

struct Event { u32 kind, tid; u64 vt; i64 a, b; std::string s; };

struct Result {
	u32 outcome = O_NONE; int exit_code = -1; int signal = 0;
	u64 points = 0, switches = 0, vt = 0, stdin_consumed = 0, hash = 0, evhash = 0, mem_used = 0, preempts = 0, spurious = 0, stdin_waits = 0, sleeps = 0, syncs = 0;
	u32 nthreads = 0, live_at_end = 0, term_lflag = 0, term_sets = 0;
	u64 fault_fired[OP_COUNT][F_KINDS];
	u64 op_count[OP_COUNT];
	std::string msg, cwd;
	std::vector<u64> bt;
	std::vector<Event> ev;
	std::vector<Dec> decs; bool dec_overflow = false, ev_overflow = false;
	std::map<std::string, File> fs;   // files afterwards
	bool harness_error = false;       // the simulator itself failed
	bool wall_timeout = false;
	std::string out() const;             // all standard output
	std::string out(u32 tid) const;
	std::string err() const;
	bool ended() const { return outcome == O_EXIT; }
	std::string describe() const;        // outcome in words
};

// A process running scenarios one at a time.
class Engine {
	public:
		explicit Engine(const std::string& simpath);
		~Engine();
		Result run(const Scenario& s, bool want_events = true);
		double wall_limit = 60;
	private:
		void start(); void stop();
		std::string sim; Shm* shm = nullptr; int memfd = -1, cmdfd = -1, repfd = -1; int pid = -1; int cpu = -1;
		u32 last_nodes = MAX_NODE;
		std::vector<u32> used_size;
};

Sched random_sched(Rng& r, bool multi);
std::string symbolize(const std::vector<u64>& bt, const std::string& sim);

// A generated test case: the scenario and what decides about its result.
struct Case {
	Scenario sc;
	std::function<std::string(const Result&)> check;  // "" or "class: description" of the violation
	std::function<std::string(const Result&, const Result&)> twin; // the same for the run and one with other random numbers
	std::string kind;                                  // class of the case, for coverage
	std::string note;                                  // for the reader of a replay file
	std::map<std::string, u64> probes;                 // counters to be summed
	std::map<std::string, u64>* probe_sink = nullptr;
	bool nontrivial = true;
	bool valid = true;
	bool multi = true;                                 // several threads: use preemptive schedules
	bool own_sched = false;                            // the generator has chosen the schedule
	int schedules = 3;                                 // how many schedules to try
	std::string known;                                 // name of the known finding this case would show
};
struct Property {
	std::string id;
	std::string rule;
	std::function<Case(Rng&, int)> gen;
	std::vector<std::string> assume;
};
std::vector<Property>& properties();
struct Reg { Reg(const std::string& id, const std::string& rule, std::function<Case(Rng&, int)> g, std::vector<std::string> as = {}){ properties().push_back(Property{id, rule, g, as}); } };

std::string quote(const std::string& s, size_t max = 400);
extern std::string g_fing_dir;
void std_files(Scenario& s);   // /sim tree with the repository's fing directory
std::string sanity(const Result& r, bool allow_waitin = false);  // "" when the process ended by itself
bool is_noise(const Fault& f); // environment behaviour that is no failure: delays, short transfers, interruptions
void add_noise(Rng& r, Scenario& s, bool input = true);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
} // namespace drv
