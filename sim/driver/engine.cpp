#include "core.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>

namespace drv {

std::string g_fing_dir = "/repo/fing";
std::vector<Property>& properties(){ static std::vector<Property> p; return p; }

void Scenario::fault(u32 op, u32 kind, u32 nth, int val, i64 off, const std::string& path){
	if(faults.size() >= MAX_FAULT) return;
	Fault f; memset(&f, 0, sizeof f); f.op = op; f.kind = kind; f.nth = nth; f.val = val; f.off = off;
	strncpy(f.path, path.c_str(), sizeof(f.path) - 1); faults.push_back(f);
}

std::string Result::out() const { std::string s; for(auto& e : ev) if(e.kind == E_STDOUT) s += e.s; return s; }
std::string Result::out(u32 tid) const { std::string s; for(auto& e : ev) if(e.kind == E_STDOUT && e.tid == tid) s += e.s; return s; }
std::string Result::err() const { std::string s; for(auto& e : ev) if(e.kind == E_STDERR) s += e.s; return s; }
static const char* const outcome_names[] = { "nothing", "exit", "crash", "deadlock", "no end (step limit)", "memory error", "memory growth", "waiting for input", "abort", "simulator error" };
std::string Result::describe() const {
	std::string s = outcome_names[outcome];
	if(outcome == O_EXIT) s += " " + std::to_string(exit_code);
	if(!msg.empty()) s += ": " + msg;
	return s;
}
std::string sanity(const Result& r, bool waitin){
	if(r.ended()) return "";
	if(waitin && r.outcome == O_WAITIN) return "";
	return "process did not end properly: " + r.describe();
}

std::string quote(const std::string& s, size_t max){
	std::string o = "\"";
	for(unsigned char c : s){
		if(o.size() > max){ o += "..."; break; }
		if(c == '"' || c == '\\'){ o += '\\'; o += (char)c; }
		else if(c == '\n') o += "\\n";
		else if(c < 32 || c > 126){ char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

static std::map<std::string, std::string>& fing_files(){
	static std::map<std::string, std::string> m; static bool loaded = false;
	if(!loaded){
		loaded = true;
		if(DIR* d = opendir(g_fing_dir.c_str())){
			while(dirent* e = readdir(d)){
				std::string n = e->d_name; if(n.size() < 4 || n.substr(n.size() - 3) != ".fl") continue;
				std::ifstream f(g_fing_dir + "/" + n, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); m[n] = ss.str();
			}
			closedir(d);
		}
	}
	return m;
}
void std_files(Scenario& s){
	s.dir("/"); s.dir("/sim"); s.dir("/sim/bin"); s.dir("/sim/fing"); s.dir("/sim/work");
	s.file("/sim/bin/funge", "", 1);
	for(auto& f : fing_files()) s.file("/sim/fing/" + f.first, f.second, 1);
}

Engine::Engine(const std::string& p) : sim(p), used_size(MAX_NODE, NODE_CAP) {
	memfd = memfd_create("simshm", 0);
	if(memfd < 0 || ftruncate(memfd, sizeof(Shm)) != 0){ perror("memfd"); exit(2); }
	shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, memfd, 0);
	if(shm == MAP_FAILED){ perror("mmap"); exit(2); }
	for(auto& u : used_size) u = 0;
}
Engine::~Engine(){ stop(); if(shm) munmap(shm, sizeof(Shm)); if(memfd >= 0) close(memfd); }

void Engine::start(){
	int c[2], r[2];
	if(pipe(c) || pipe(r)){ perror("pipe"); exit(2); }
	pid = fork();
	if(pid == 0){
		close(c[1]); close(r[0]);
		std::string a1 = std::to_string(memfd), a2 = std::to_string(c[0]), a3 = std::to_string(r[1]);
		const char* argv[] = { sim.c_str(), a1.c_str(), a2.c_str(), a3.c_str(), nullptr };
		const char* envp[] = { "LC_ALL=C", "TZ=UTC0", nullptr };
		execve(sim.c_str(), (char* const*)argv, (char* const*)envp);
		_exit(127);
	}
	close(c[0]); close(r[1]);
	fcntl(c[1], F_SETFD, FD_CLOEXEC); fcntl(r[0], F_SETFD, FD_CLOEXEC);
	cmdfd = c[1]; repfd = r[0];
}
void Engine::stop(){
	if(pid > 0){ close(cmdfd); close(repfd); kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); pid = -1; }
}

static bool read_full(int fd, void* p, size_t n, double limit){
	auto t0 = std::chrono::steady_clock::now();
	size_t got = 0;
	while(got < n){
		double left = limit - std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		if(left <= 0) return false;
		pollfd pf{fd, POLLIN, 0};
		int k = poll(&pf, 1, (int)(left * 1000) + 1);
		if(k <= 0){ if(k < 0 && errno == EINTR) continue; return false; }
		ssize_t r = read(fd, (char*)p + got, n - got);
		if(r <= 0) return false;
		got += (size_t)r;
	}
	return true;
}

Result Engine::run(const Scenario& s, bool want_events){
	Result res; memset(res.fault_fired, 0, sizeof res.fault_fired); memset(res.op_count, 0, sizeof res.op_count);
	In& in = shm->in; Out& o = shm->out;
	memset(&in, 0, offsetof(In, argoff));
	in.seed = s.seed; in.explicit_mode = s.is_explicit;
	in.p_sync_ppm = s.sched.p_sync; in.mem_mean = s.sched.mem_mean; in.p_conflict_ppm = s.sched.p_conflict; in.pct = s.sched.pct;
	in.pct_changes = s.sched.pct_changes; in.pct_len = s.sched.pct_len; in.p_block_random = s.sched.block_random; in.p_spurious_ppm = s.sched.p_spurious;
	in.read_chunk = s.read_chunk; in.write_chunk = s.write_chunk; in.stdin_never_ends = s.never_ends; in.stdin_tty = s.tty; in.term_lflag = s.lflag;
	in.random_mode = s.random_mode; in.rand_seed = s.rand_seed ? s.rand_seed : s.seed; in.quantum = s.sched.quantum; in.max_points = s.max_points; in.max_mem = s.max_mem; in.mem_fill = s.mem_fill; in.step_ns = s.step_ns; in.wall_base = s.wall_base;
	u32 so = 0;
	auto put = [&](const std::string& x){ u32 at = so; if(so + x.size() + 1 > STR_CAP){ fprintf(stderr, "strings too long\n"); exit(2); } memcpy(in.strs + so, x.c_str(), x.size() + 1); so += x.size() + 1; return at; };
	if(s.argv.size() > MAX_ARG || s.env.size() > MAX_ARG){ fprintf(stderr, "too many arguments\n"); exit(2); }
	in.argc = s.argv.size(); for(u32 i = 0; i < in.argc; ++i) in.argoff[i] = put(s.argv[i]);
	in.envc = s.env.size(); for(u32 i = 0; i < in.envc; ++i) in.envoff[i] = put(s.env[i]);
	strncpy(in.cwd, s.cwd.c_str(), PATH_CAP - 1);
	in.nfault = std::min<size_t>(s.faults.size(), MAX_FAULT); for(u32 i = 0; i < in.nfault; ++i) in.fault[i] = s.faults[i];
	in.njump = std::min<size_t>(s.jumps.size(), MAX_JUMP); for(u32 i = 0; i < in.njump; ++i) in.jump[i] = s.jumps[i];
	in.nsys = std::min<size_t>(s.sys.size(), MAX_SYS); for(u32 i = 0; i < in.nsys; ++i) in.sys[i] = s.sys[i];
	in.nstdin = s.input.size(); if(s.input.size() > MAX_STDIN){ fprintf(stderr, "input too long\n"); exit(2); }
	memcpy(in.stdin_data, s.input.data(), s.input.size());
	std::vector<Chunk> ch = s.chunks;
	if(ch.empty() && !s.input.empty()) ch.push_back(Chunk{0, (u32)s.input.size(), 0});
	if(ch.size() > MAX_CHUNK){ fprintf(stderr, "too many chunks\n"); exit(2); }
	in.nchunk = ch.size(); for(u32 i = 0; i < in.nchunk; ++i) in.chunk[i] = ch[i];
	in.ndec = std::min<size_t>(s.decs.size(), MAX_DEC); for(u32 i = 0; i < in.ndec; ++i) in.dec[i] = s.decs[i];
	memset(&o, 0, offsetof(Out, dec));
	if(s.files.size() > MAX_NODE - 8){ fprintf(stderr, "too many files\n"); exit(2); }
	for(u32 i = 0; i < MAX_NODE; ++i){
		Node& n = shm->node[i];
		if(i < s.files.size()){
			n.type = s.files[i].dir ? N_DIR : N_FILE; n.mode = s.files[i].mode; n.size = s.files[i].data.size();
			if(n.size > NODE_CAP){ fprintf(stderr, "file too long\n"); exit(2); }
			strncpy(n.path, s.files[i].path.c_str(), PATH_CAP - 1); n.path[PATH_CAP - 1] = 0;
			memcpy(n.data, s.files[i].data.data(), n.size);
		}else if(n.type != N_FREE) n.type = N_FREE;
	}
	if(pid < 0) start();
	char c = 'r'; int p32 = 0, status = 0;
	if(write(cmdfd, &c, 1) != 1 || !read_full(repfd, &p32, 4, 30)){ stop(); res.harness_error = true; res.msg = "cannot start the simulated process"; return res; }
	if(!read_full(repfd, &status, 4, wall_limit)){
		kill(p32, SIGKILL); stop();
		res.wall_timeout = true; res.outcome = O_STEPS; res.msg = "no progress visible to the simulator for " + std::to_string((int)wall_limit) + " s";
	}else if(!WIFEXITED(status) || WEXITSTATUS(status) != 0 || o.outcome == O_NONE || o.outcome == O_INTERNAL){
		res.harness_error = true; res.msg = "simulated process ended strangely, status " + std::to_string(status) + " " + o.msg; return res;
	}
	if(!res.wall_timeout){ res.outcome = o.outcome; res.msg = o.msg; }
	res.exit_code = o.exit_code; res.signal = o.signal; res.points = o.points; res.switches = o.switches; res.vt = o.vt; res.syncs = o.syncs;
	res.stdin_consumed = o.stdin_consumed; res.hash = o.sched_hash; res.mem_used = o.mem_used; res.nthreads = o.nthreads; res.live_at_end = o.live_at_main_end;
	res.term_lflag = o.term_lflag; res.term_sets = o.term_sets; res.preempts = o.preempts; res.spurious = o.spurious; res.stdin_waits = o.stdin_waits; res.sleeps = o.sleeps;
	memcpy(res.fault_fired, o.fault_fired, sizeof res.fault_fired); memcpy(res.op_count, o.op_count, sizeof res.op_count);
	res.cwd = o.cwd; res.dec_overflow = o.dec_overflow; res.ev_overflow = o.ev_overflow;
	for(u64 b : o.bt) if(b) res.bt.push_back(b);
	res.decs.assign(o.dec, o.dec + o.ndec);
	u64 h = 0;
	if(want_events){
		for(u64 at = 0; at + sizeof(Ev) <= o.evlen; ){
			const Ev* e = (const Ev*)(o.ev + at);
			Event x; x.kind = e->kind; x.tid = e->tid; x.vt = e->vt; x.a = e->a; x.b = e->b; x.s.assign((const char*)(e + 1), e->len);
			h = Rng::mix(h ^ x.kind ^ ((u64)x.tid << 20) ^ ((u64)x.a << 32) ^ (u64)x.b ^ x.vt * 31); for(unsigned char k : x.s) h = h * 1099511628211ull + k;
			res.ev.push_back(std::move(x));
			at += sizeof(Ev) + ((e->len + 7) & ~7ull);
		}
		for(u32 i = 0; i < MAX_NODE; ++i){
			const Node& n = shm->node[i]; if(n.type == N_FREE) continue;
			File f; f.path = n.path; f.dir = n.type == N_DIR; f.mode = n.mode; f.data.assign((const char*)n.data, f.dir ? 0 : n.size); res.fs[f.path] = f;
		}
	}
	res.evhash = Rng::mix(h ^ res.outcome ^ ((u64)(u32)res.exit_code << 8) ^ res.points);
	return res;
}

Sched random_sched(Rng& r, bool multi){
	Sched s;
	u32 k = r.below(multi ? 12 : 8);
	s.p_spurious = r.pct(30) ? 200000 : 0;
	switch(k){
		case 0: s.name = "run-to-block"; break;
		case 1: s.name = "sync 2%"; s.p_sync = 20000; break;
		case 2: s.name = "sync 20%"; s.p_sync = 200000; break;
		case 3: s.name = "sync 50%"; s.p_sync = 500000; break;
		case 4: case 5: s.name = "pct"; s.pct = 1; s.pct_changes = 1 + r.below(6); s.pct_len = 1ull << (10 + r.below(10)); break;
		case 6: s.name = "mem sparse"; s.mem_mean = 2000 + r.below(20000); s.p_sync = 10000; break;
		case 7: s.name = "mem"; s.mem_mean = 100 + r.below(1000); s.p_sync = 50000; break;
		case 8: s.name = "mem dense"; s.mem_mean = 10 + r.below(60); s.p_sync = 100000; break;
		case 9: s.name = "conflict 2%"; s.p_conflict = 20000; s.p_sync = 20000; break;
		case 10: s.name = "conflict 20%"; s.p_conflict = 200000; s.p_sync = 100000; break;
		case 11: s.name = "conflict 60%"; s.p_conflict = 600000; break;
	}
	s.quantum = r.pct(20) ? 20000 + r.below(100000) : 400000;
	return s;
}

std::string symbolize(const std::vector<u64>& bt, const std::string& sim){
	if(bt.empty()) return "";
	// the executable is position independent: its load address is that of the first mapping without ASLR
	std::string cmd = "addr2line -Cfpie " + sim;
	char b[32]; for(u64 a : bt){ u64 x = a; if(x >= 0x555555554000ull && x < 0x560000000000ull) x -= 0x555555554000ull; else continue; snprintf(b, sizeof b, " 0x%llx", (unsigned long long)(x - 1)); cmd += b; }
	cmd += " 2>/dev/null";
	std::string out; if(FILE* f = popen(cmd.c_str(), "r")){ char l[600]; int n = 0; while(fgets(l, sizeof l, f)){ if(++n <= 24) out += l; } pclose(f); }
	return out;
}

} // namespace drv
