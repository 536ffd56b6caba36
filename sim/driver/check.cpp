// drv check / drv replay: seeded search over scenarios and schedules, minimisation, replay files, evidence.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace drv {
std::string fmt(const char* f, ...){ char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
bool is_noise(const Fault& f){ return f.kind == F_STALL || f.kind == F_WAKE || f.kind == F_SHORT || (f.kind == F_ERR && f.val == EINTR); }
void add_noise(Rng& r, Scenario& s, bool input){
	if(r.pct(40)) s.read_chunk = 1 + r.below(r.pct(50) ? 7 : 300);
	if(r.pct(30)) s.write_chunk = 1 + r.below(r.pct(50) ? 5 : 100);
	u32 n = r.pct(50) ? r.below(5) : 0;
	static const u32 ops[] = { OP_CONDWAIT, OP_THREAD, OP_READ, OP_OPEN, OP_STDIN, OP_SLEEP, OP_WRITE, OP_SYSTEM };
	for(u32 i = 0; i < n; ++i) s.fault(ops[r.below(8)], F_STALL, r.below(12), 0, 1 + (i64)r.below(r.pct(50) ? 200 : 20000));
	if(r.pct(15)) s.fault(OP_READ, F_ERR, r.below(6), EINTR);
	if(r.pct(20)) s.fault(OP_CONDWAIT, F_WAKE, r.below(20), 0);
	if(input && s.chunks.empty() && !s.input.empty() && r.pct(70)){
		u64 at = r.pct(50) ? 0 : r.below(2000000); size_t left = s.input.size(); u32 mode = r.below(4);
		while(left && s.chunks.size() < MAX_CHUNK - 1){
			u32 k = mode == 0 ? 1 : mode == 1 ? 1 + r.below(3) : 1 + r.below(20); if(k > left) k = left;
			s.chunks.push_back(Chunk{at, k, 0}); left -= k;
			if(r.pct(60)) at += r.pct(70) ? r.below(3000) : r.pct(80) ? r.below(3000000) : r.below(2000000000);
		}
		if(left) s.chunks.push_back(Chunk{at, (u32)left, 0});
	}
}

static double mono(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const Property* find_prop(const std::string& id){ for(auto& p : properties()) if(p.id == id) return &p; return nullptr; }

// The scenario number `k` of the case with this seed.
static Case make_case(const Property& p, u64 cseed, int tier){ Rng r(cseed); return p.gen(r, tier); }
static void make_sched(Case& c, u64 cseed, int k){
	if(c.own_sched && k == 0) { if(!c.sc.seed) c.sc.seed = Rng::mix(cseed); return; }
	Rng r(Rng::mix(cseed ^ 0x5eed) + (u64)k * 7919);
	c.sc.seed = r.next(); c.sc.sched = random_sched(r, c.multi);
}
static std::string vclass(const std::string& v){ return v.substr(0, v.find(':')); }

struct Found { u64 cseed = 0; int k = 0; std::string what, cls, kind, note, known; Scenario sc; Result res; };

struct Replay {
	std::string prop; u64 cseed = 0; int k = 0, tier = 0; u64 evhash = 0; std::string what;
	bool changed = false; std::vector<u32> keep; bool plain_chunks = false, no_jumps = false; u32 read_chunk = 0, write_chunk = 0; u64 quantum = 0; u32 spurious = 0;
	std::vector<Dec> decs; bool explicit_ = false;
};
static void apply(const Replay& p, Scenario& s){
	std::vector<Fault> f; for(u32 i : p.keep) if(i < s.faults.size()) f.push_back(s.faults[i]);
	s.faults = f; if(p.plain_chunks) s.chunks.clear(); if(p.no_jumps) s.jumps.clear();
	s.read_chunk = p.read_chunk; s.write_chunk = p.write_chunk; s.sched.quantum = p.quantum; s.sched.p_spurious = p.spurious;
	if(p.explicit_){ s.is_explicit = true; s.decs = p.decs; }
}

static std::string fault_text(const Fault& f){
	static const char* ops[] = { "open", "read", "write", "close", "stat", "mkdir", "remove", "chdir", "realpath", "thread", "system", "tcgetattr", "tcsetattr", "sleep", "condwait", "stdin", "seek", "getcwd" };
	static const char* kinds[] = { "error", "short", "error-at-offset", "stall", "wake" };
	return fmt("%s of %s #%d val %d off %lld path '%s'", kinds[f.kind], ops[f.op], (int)f.nth, f.val, (long long)f.off, f.path);
}
static void write_replay(const std::string& path, const Replay& p, const Found& f, const Scenario& s, const Result& r, const std::string& sim){
	std::ofstream o(path);
	o << "property " << p.prop << "\ncase " << p.cseed << "\nschedule " << p.k << "\ntier " << p.tier << "\nevhash " << p.evhash << "\n";
	o << "keep " << p.keep.size(); for(u32 i : p.keep) o << " " << i;
	o << "\nset " << p.plain_chunks << " " << p.no_jumps << " " << p.read_chunk << " " << p.write_chunk << " " << p.quantum << " " << p.spurious << "\n";
	o << "explicit " << p.explicit_ << " " << p.decs.size() << "\n";
	for(auto& d : p.decs) o << "dec " << d.point << " " << d.target << " " << d.forced << "\n";
	o << "end\n";
	// for the reader
	o << "\n# violation: " << f.what << "\n# kind: " << f.kind << "\n# " << fmt("threads %u, steps %llu, switches %llu, decisions left %zu", r.nthreads, (unsigned long long)r.points, (unsigned long long)r.switches, p.decs.size()) << "\n";
	o << "# command line:"; for(auto& a : s.argv) o << " " << quote(a, 300); o << "\n# input: " << quote(s.input, 4000) << (s.never_ends ? " (never ends)" : "") << (s.tty ? " (terminal)" : "") << "\n";
	for(auto& x : s.faults) o << "# fault: " << fault_text(x) << "\n";
	for(auto& j : s.jumps) o << "# clock jump at " << j.at << " by " << j.by << "\n";
	for(auto& x : s.files) if(x.path.compare(0, 10, "/sim/work/") == 0){ o << "# file " << x.path << (x.dir ? " (directory)\n" : "\n"); std::stringstream ss(x.data); std::string l; int n = 0; while(std::getline(ss, l) && ++n < 80) o << "#   | " << l << "\n"; }
	o << "# outcome: " << r.describe() << "\n# output: " << quote(r.out(), 2000) << "\n# diagnostics: " << quote(r.err(), 1000) << "\n";
	for(auto& x : r.ev) if(x.kind == E_FAULT) o << fmt("# at %llu ns thread %u: fault op %lld kind %lld\n", (unsigned long long)x.vt, x.tid, (long long)x.a, (long long)x.b);
	if(!r.bt.empty()){ std::stringstream ss(symbolize(r.bt, sim)); std::string l; while(std::getline(ss, l)) o << "#   at " << l << "\n"; }
	if(!f.note.empty()){ std::stringstream ss(f.note); std::string l; while(std::getline(ss, l)) o << "# " << l << "\n"; }
}
static bool read_replay(const std::string& path, Replay& p){
	std::ifstream i(path); std::string w; if(!i) return false;
	while(i >> w){
		if(w == "property") i >> p.prop; else if(w == "case") i >> p.cseed; else if(w == "schedule") i >> p.k; else if(w == "tier") i >> p.tier; else if(w == "evhash") i >> p.evhash;
		else if(w == "keep"){ size_t n; i >> n; p.keep.resize(n); for(auto& k : p.keep) i >> k; }
		else if(w == "set") i >> p.plain_chunks >> p.no_jumps >> p.read_chunk >> p.write_chunk >> p.quantum >> p.spurious;
		else if(w == "explicit"){ size_t n; i >> p.explicit_ >> n; }
		else if(w == "dec"){ Dec d; i >> d.point >> d.target >> d.forced; p.decs.push_back(d); }
		else if(w == "end") return true; else return false;
	}
	return false;
}

// The verdict on a run, with a second run under other random numbers where the case asks for one.
static std::string judge(Engine& e, const Case& c, const Result& r){
	std::string v = c.check(r); if(!v.empty() || !c.twin) return v;
	Scenario s = c.sc; s.rand_seed = Rng::mix(s.seed ^ 0x7e11) | 1; Result t = e.run(s); if(t.harness_error || t.wall_timeout) return "";
	return c.twin(r, t);
}

int replay(const std::string& sim, const std::string& path){
	Replay p; if(!read_replay(path, p)){ fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
	const Property* pr = find_prop(p.prop); if(!pr) return 2;
	Case c = make_case(*pr, p.cseed, p.tier); make_sched(c, p.cseed, p.k); apply(p, c.sc);
	Engine e(sim); Result r = e.run(c.sc);
	if(r.harness_error){ printf("harness error: %s\n", r.msg.c_str()); return 2; }
	std::string v = judge(e, c, r);
	printf("%s\nevent hash %llu (%s)\n%s\noutput %s\n", v.empty() ? "no violation" : ("violation " + v).c_str(), (unsigned long long)r.evhash, r.evhash == p.evhash ? "as recorded" : "different from the record", r.describe().c_str(), quote(r.out(), 2000).c_str());
	if(getenv("SHOWERR")) fputs(r.err().c_str(), stdout);
	return v.empty() ? 0 : r.evhash == p.evhash ? 1 : 3;
}

// Minimises a violation; every step must keep a violation of the same class.
static void minimise(Engine& e, const Property& pr, int tier, Found& f, Replay& p, double budget){
	double t0 = mono(); int tries = 0;
	auto attempt = [&](const Replay& q, Result* out) -> bool {
		Case c = make_case(pr, q.cseed, tier); make_sched(c, q.cseed, q.k); apply(q, c.sc);
		if(f.res.points * 20 + 2000000 < c.sc.max_points) c.sc.max_points = f.res.outcome == O_STEPS ? c.sc.max_points : f.res.points * 20 + 2000000;
		++tries; Result r = e.run(c.sc); if(r.harness_error || r.wall_timeout) return false;
		std::string v = judge(e, c, r); if(v.empty() || vclass(v) != f.cls) return false;
		if(out){ *out = r; f.what = v; } return true;
	};
	auto time_left = [&]{ return mono() - t0 < budget; };
	// noise first
	for(size_t i = p.keep.size(); i > 0 && time_left(); --i){
		const Fault& fl = f.sc.faults[p.keep[i - 1]]; if(!is_noise(fl)) continue;
		Replay q = p; q.keep.erase(q.keep.begin() + (long)i - 1); if(attempt(q, nullptr)) p = q;
	}
	{ Replay q = p; q.plain_chunks = true; if(!f.sc.chunks.empty() && attempt(q, nullptr)) p = q; }
	{ Replay q = p; q.read_chunk = 0; if(p.read_chunk && attempt(q, nullptr)) p = q; }
	{ Replay q = p; q.write_chunk = 0; if(p.write_chunk && attempt(q, nullptr)) p = q; }
	{ Replay q = p; q.spurious = 0; if(p.spurious && attempt(q, nullptr)) p = q; }
	// now the schedule, written out
	Case c = make_case(pr, p.cseed, tier); make_sched(c, p.cseed, p.k); apply(p, c.sc);
	Result r = e.run(c.sc);
	if(!r.dec_overflow){
		Replay q = p; q.explicit_ = true; q.decs = r.decs;
		if(attempt(q, nullptr)){
			p = q; size_t n = 2;
			while(!p.decs.empty() && time_left()){
				size_t len = (p.decs.size() + n - 1) / n; bool any = false;
				for(size_t at = 0; at < p.decs.size() && time_left(); ){
					Replay x = p; x.decs.erase(x.decs.begin() + (long)at, x.decs.begin() + (long)std::min(at + len, x.decs.size()));
					if(attempt(x, nullptr)){ p = x; any = true; } else at += len;
				}
				if(len == 1 && !any) break;
				if(len > 1) n = std::min(p.decs.size() ? p.decs.size() : 1, n * 2);
			}
			{ Replay x = p; x.quantum = 400000; if(attempt(x, nullptr)) p = x; }
		}
	}
	{ Case c2 = make_case(pr, p.cseed, tier); make_sched(c2, p.cseed, p.k); apply(p, c2.sc); Result r2 = e.run(c2.sc); f.res = r2; p.evhash = r2.evhash; f.what = judge(e, c2, r2); f.sc = c2.sc; }
	fprintf(stderr, "minimised with %d runs: %zu decisions, %zu faults\n", tries, p.decs.size(), p.keep.size());
}

struct Stats {
	u64 cases = 0, discarded = 0, runs = 0, rechecks = 0, mismatches = 0, wall_timeouts = 0, harness = 0, points = 0, switches = 0, preempts = 0, spurious = 0, vt = 0, waits = 0, multi = 0, known = 0, overflow = 0;
	std::map<std::string, u64> kinds, probes, faults, scheds, outcomes; std::set<u64> distinct, inter; std::vector<std::string> samples; std::set<std::string> known_lines;
};
static const char* const op_names[] = { "open", "read", "write", "close", "stat", "mkdir", "remove", "chdir", "realpath", "thread", "system", "tcgetattr", "tcsetattr", "sleep", "condwait", "stdin", "seek", "getcwd" };
static const char* const kind_names[] = { "error", "short", "error_at_offset", "stall", "spurious_wake" };

static std::set<std::string> known_findings(const std::string& root, const std::string& id){
	std::set<std::string> s; std::ifstream f(root + "/known-findings"); std::string l;
	while(std::getline(f, l)){ std::string pre = "known: property=" + id + " "; if(l.compare(0, pre.size(), pre) == 0){ std::string k = l.substr(pre.size()); s.insert(k.substr(0, k.find(' '))); } }
	return s;
}
static void put_map(std::ostream& o, const char* tag, const std::map<std::string, u64>& m){ for(auto& k : m) o << tag << " " << k.second << " " << k.first << "\n"; }

static int worker(const std::string& sim, const std::string& root, const Property& p, int tier, u64 seed, int w, int W, double deadline, const std::string& statf, const std::string& repf, u64 maxcases){
	Engine e(sim); Stats st; std::set<std::string> known = known_findings(root, p.id); int rc = 0;
	for(u64 i = (u64)w; mono() < deadline && i < maxcases; i += (u64)W){
		u64 cseed = Rng::mix(seed * 1000003 + i) ^ Rng::mix(i);
		Case c = make_case(p, cseed, tier);
		st.cases++;
		if(!c.valid){ st.discarded++; st.kinds["discarded: " + c.kind]++; continue; }
		st.kinds[c.kind]++;
		for(auto& k : c.probes) st.probes[k.first] += k.second;
		Scenario base = c.sc; std::map<std::string, u64> sink; c.probe_sink = &sink;
		for(int k = 0; k < c.schedules && mono() < deadline; ++k){
			c.sc = base; make_sched(c, cseed, k);
			Result r = e.run(c.sc); st.runs++;
			if(r.harness_error){ st.harness++; fprintf(stderr, "harness: %s (case %llu/%d)\n", r.msg.c_str(), (unsigned long long)cseed, k); if(st.harness > 5){ rc = 2; goto done; } continue; }
			if(r.wall_timeout){ st.wall_timeouts++; fprintf(stderr, "no answer within the time limit (case %llu/%d)\n", (unsigned long long)cseed, k); if(st.wall_timeouts > 3){ rc = 2; goto done; } continue; }
			if(r.ev_overflow){ st.overflow++; if(r.ended()) continue; }
			st.points += r.points; st.switches += r.switches; st.preempts += r.preempts; st.spurious += r.spurious; st.vt += r.vt; st.waits += r.stdin_waits; if(r.nthreads > 1) st.multi++;
			for(u32 o = 0; o < OP_COUNT; ++o) for(u32 q = 0; q < F_KINDS; ++q) if(r.fault_fired[o][q]) st.faults[std::string(op_names[o]) + "." + kind_names[q]] += r.fault_fired[o][q];
			st.scheds[c.sc.sched.name]++; st.inter.insert(r.hash);
			if(c.nontrivial) st.distinct.insert(Rng::mix(r.evhash ^ r.hash) ^ cseed);
			if((st.runs & 127) == 1){ Result r2 = e.run(c.sc); st.rechecks++; if(!r2.harness_error && (r2.evhash != r.evhash || r2.hash != r.hash)){ st.mismatches++; fprintf(stderr, "not deterministic: case %llu/%d\n", (unsigned long long)cseed, k); } }
			std::string v = judge(e, c, r);
			if(st.samples.size() < 2 && (st.runs == 1 || (c.nontrivial && st.runs > 20))) st.samples.push_back(fmt("case %llu schedule %d [%s] %s; %u threads, %llu steps, %llu switches; outcome %s; output %s; ", (unsigned long long)cseed, k, c.sc.sched.name.c_str(), c.kind.c_str(), r.nthreads, (unsigned long long)r.points, (unsigned long long)r.switches, r.describe().c_str(), quote(r.out(), 120).c_str()) + c.note.substr(0, 1500));
			if(v.empty()) continue;
			st.outcomes[vclass(v)]++;
			if(!c.known.empty() && known.count(c.known)){ st.known++; st.known_lines.insert("KNOWN-FINDING: property=" + p.id + " " + c.known + " " + v.substr(0, 200)); continue; }
			// gate: twice the same
			Result a = e.run(c.sc), b = e.run(c.sc);
			if(a.harness_error || b.harness_error || a.evhash != r.evhash || b.evhash != r.evhash || judge(e, c, a).empty()){ st.mismatches++; fprintf(stderr, "violation that does not repeat (case %llu/%d): %s\n", (unsigned long long)cseed, k, v.c_str()); continue; }
			Found f; f.cseed = cseed; f.k = k; f.what = v; f.cls = vclass(v); f.kind = c.kind; f.note = c.note; f.sc = c.sc; f.res = r;
			Replay q; q.prop = p.id; q.cseed = cseed; q.k = k; q.tier = tier; q.evhash = r.evhash; for(u32 x = 0; x < c.sc.faults.size(); ++x) q.keep.push_back(x);
			q.read_chunk = c.sc.read_chunk; q.write_chunk = c.sc.write_chunk; q.quantum = c.sc.sched.quantum; q.spurious = c.sc.sched.p_spurious;
			Replay plain = q; Found fp = f;
			minimise(e, p, tier, f, q, tier ? 120 : 40);
			if(f.what.empty()){ q = plain; f = fp; }
			write_replay(repf, q, f, f.sc, f.res, sim);
			fprintf(stderr, "%s: %s\n", p.id.c_str(), f.what.c_str());
			rc = 1; goto done;
		}
		for(auto& k : sink) st.probes[k.first] += k.second;
	}
done:
	std::ofstream o(statf);
	o << "n cases " << st.cases << "\nn discarded " << st.discarded << "\nn runs " << st.runs << "\nn rechecks " << st.rechecks << "\nn mismatches " << st.mismatches << "\nn wall " << st.wall_timeouts << "\nn harness " << st.harness << "\nn points " << st.points
	  << "\nn switches " << st.switches << "\nn preempts " << st.preempts << "\nn spurious " << st.spurious << "\nn vt " << st.vt << "\nn waits " << st.waits << "\nn multi " << st.multi << "\nn known " << st.known << "\nn overflow " << st.overflow << "\n";
	put_map(o, "k", st.kinds); put_map(o, "p", st.probes); put_map(o, "f", st.faults); put_map(o, "s", st.scheds); put_map(o, "v", st.outcomes);
	for(u64 h : st.distinct) o << "d " << h << "\n";
	for(u64 h : st.inter) o << "i " << h << "\n";
	for(auto& s : st.samples) o << "x " << quote(s, 3000) << "\n";
	for(auto& s : st.known_lines) o << "K " << s << "\n";
	o.close();
	return rc;
}

static std::string js(const std::string& s){ std::string o = "\""; for(unsigned char c : s){ if(c == '"' || c == '\\'){ o += '\\'; o += (char)c; } else if(c < 32 || c > 126){ char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
static std::string jm(const std::map<std::string, u64>& m){ std::string o = "{"; for(auto& k : m) o += (o.size() > 1 ? ", " : "") + js(k.first) + ": " + std::to_string(k.second); return o + "}"; }

int check_main(const std::string& sim, int argc, char** argv){
	std::string id, tier = "quick", root = "/verif"; u64 seed = 1; double budget = 0; int W = 8; u64 maxcases = ~0ull;
	for(int i = 0; i < argc; ++i){
		std::string a = argv[i];
		if(a == "--tier") tier = argv[++i]; else if(a == "--seed") seed = strtoull(argv[++i], nullptr, 0); else if(a == "--budget") budget = atof(argv[++i]); else if(a == "--workers") W = atoi(argv[++i]); else if(a == "--root") root = argv[++i]; else if(a == "--cases") maxcases = strtoull(argv[++i], nullptr, 0); else id = a;
	}
	const Property* p = find_prop(id); if(!p){ fprintf(stderr, "no such property: %s\n", id.c_str()); return 2; }
	int t = tier == "thorough"; if(budget <= 0) budget = t ? 780 : 24;
	std::string dir = root + "/build/run-" + id; mkdir((root + "/build").c_str(), 0777); mkdir(dir.c_str(), 0777); mkdir((root + "/evidence").c_str(), 0777);
	double t0 = mono(), deadline = t0 + budget;
	std::vector<int> pids; for(int w = 0; w < W; ++w){
		unlink(fmt("%s/stat%d", dir.c_str(), w).c_str()); unlink(fmt("%s/replay%d", dir.c_str(), w).c_str());
		int pid = fork();
		if(pid == 0) _exit(worker(sim, root, *p, t, seed, w, W, deadline, fmt("%s/stat%d", dir.c_str(), w), fmt("%s/replay%d", dir.c_str(), w), maxcases));
		pids.push_back(pid);
	}
	int rc = 0, winner = -1, left = W; std::vector<int> rcs(W, -1);
	while(left > 0){
		int stt; int pid = waitpid(-1, &stt, 0); if(pid < 0) break;
		for(int w = 0; w < W; ++w) if(pids[w] == pid){
			--left; rcs[w] = WIFEXITED(stt) ? WEXITSTATUS(stt) : 2;
			if(rcs[w] == 1 && winner < 0){ winner = w; for(int x = 0; x < W; ++x) if(rcs[x] == -1) kill(pids[x], SIGKILL); }
		}
	}
	Stats st; std::map<std::string, u64> n; std::set<std::string> samples;
	for(int w = 0; w < W; ++w){
		std::ifstream f(fmt("%s/stat%d", dir.c_str(), w)); std::string l;
		while(std::getline(f, l)){
			std::stringstream s(l); char tag; s >> tag; u64 v; std::string k;
			if(tag == 'n'){ s >> k >> v; n[k] += v; }
			else if(tag == 'd' || tag == 'i'){ s >> v; (tag == 'd' ? st.distinct : st.inter).insert(v); }
			else if(tag == 'x'){ if(samples.size() < 4) samples.insert(l.substr(2)); }
			else if(tag == 'K') st.known_lines.insert(l.substr(2));
			else { s >> v; std::getline(s, k); k = k.substr(1); (tag == 'k' ? st.kinds : tag == 'p' ? st.probes : tag == 'f' ? st.faults : tag == 's' ? st.scheds : st.outcomes)[k] += v; }
		}
	}
	std::set<std::string> kf; for(auto& l : st.known_lines){ size_t a = l.find("property="), b = l.find(' ', a), c = l.find(' ', b + 1); if(kf.insert(l.substr(b, c - b)).second) printf("%s\n", l.c_str()); }
	std::string vreplay;
	if(winner >= 0){
		std::string rf = fmt("%s/replay%d", dir.c_str(), winner), dst = root + "/build/replays"; mkdir(dst.c_str(), 0777); dst += "/" + id + ".replay"; rename(rf.c_str(), dst.c_str()); vreplay = dst;
		// a fresh process must fail the same way
		char self[512]; ssize_t k = readlink("/proc/self/exe", self, 511); self[k > 0 ? k : 0] = 0;
		int pid = fork(); if(pid == 0){ int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); execl(self, self, "replay", dst.c_str(), (char*)nullptr); _exit(2); }
		int s2; waitpid(pid, &s2, 0);
		if(WIFEXITED(s2) && WEXITSTATUS(s2) == 1){ rc = 1; printf("VIOLATION property=%s replay=%s\n", id.c_str(), dst.c_str()); }
		else { fprintf(stderr, "the replay file does not fail in the same way in a fresh process (%d)\n", WEXITSTATUS(s2)); rc = 2; }
	}else{
		for(int x : rcs) if(x != 0) rc = 2;
		if(n["mismatches"]){ fprintf(stderr, "%llu runs were not repeatable\n", (unsigned long long)n["mismatches"]); rc = 2; }
		if(n["runs"] == 0){ fprintf(stderr, "nothing was run\n"); rc = 2; }
	}
	double wall = mono() - t0;
	std::ofstream o(root + "/evidence/" + id + ".json");
	o << "{\n \"property\": \"" << id << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n \"coverage\": {\n";
	o << "  \"evaluations\": " << n["runs"] << ", \"distinct_nontrivial\": " << st.distinct.size() << ",\n  \"rule\": " << js(p->rule) << ",\n  \"samples\": [";
	bool first = true; for(auto& s : samples){ std::string u; for(size_t i = 1; i + 1 < s.size(); ++i){ if(s[i] == '\\' && i + 2 < s.size()){ ++i; u += s[i] == 'n' ? '\n' : s[i]; } else u += s[i]; } o << (first ? "\n   " : ",\n   ") << js(u); first = false; }
	o << "],\n  \"cases\": " << n["cases"] << ", \"cases_discarded\": " << n["discarded"] << ", \"runs_per_hour\": " << (u64)(n["runs"] * 3600.0 / (wall + 1e-9)) << ", \"seeds_per_hour\": " << (u64)((n["cases"] - n["discarded"]) * 3600.0 / (wall + 1e-9));
	o << ",\n  \"simulated_seconds\": " << (double)n["vt"] / 1e9 << ", \"simulated_steps\": " << n["points"] << ", \"context_switches\": " << n["switches"] << ", \"preemptions\": " << n["preempts"] << ", \"spurious_wakeups\": " << n["spurious"] << ", \"waits_for_input\": " << n["waits"];
	o << ",\n  \"distinct_interleavings\": " << st.inter.size() << ", \"interleaving_measure\": \"hash of the sequence of (thread, its own step count, next thread) over all context switches of a run\", \"runs_with_several_threads\": " << n["multi"];
	o << ",\n  \"faults_injected\": " << jm(st.faults) << ",\n  \"schedulers\": " << jm(st.scheds) << ",\n  \"case_kinds\": " << jm(st.kinds) << ",\n  \"probes\": " << jm(st.probes);
	o << ",\n  \"determinism_rechecks\": " << n["rechecks"] << ", \"determinism_mismatches\": " << n["mismatches"] << ", \"harness_errors\": " << n["harness"] << ", \"known_finding_runs\": " << n["known"] << ", \"runs_with_truncated_history\": " << n["overflow"];
	o << ",\n  \"real_components\": [\"all of /repo/src (interpreter, fingerprints, debugger, threads), compiled from the working tree\", \"libstdc++ and libc apart from the calls listed as simulated\", \"/repo/fing\"],\n  \"simulated_components\": [\"thread scheduling, mutexes, condition variables, semaphores, futexes\", \"clocks, sleeping\", \"file system, standard streams, terminal attributes\", \"random device and random()\", \"system(): recorded, with a scripted result\"]\n },\n";
	std::vector<std::string> as = p->assume; as.push_back("preemption happens at memory accesses, synchronisation and system calls, under sequential consistency: reorderings that only a weaker memory model allows are not explored");
	o << " \"assumptions\": ["; first = true; for(auto& a : as){ o << (first ? "" : ", ") << js(a); first = false; }
	o << "],\n \"wall_s\": " << wall << ", \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
	o.close();
	printf("%s: %llu cases, %llu runs, %zu distinct, %zu interleavings, %.1f s%s\n", id.c_str(), (unsigned long long)n["cases"], (unsigned long long)n["runs"], st.distinct.size(), st.inter.size(), wall, rc == 0 ? ", held" : "");
	if(getenv("VERIF_VERBOSE")){ for(auto& k : st.kinds) printf("  kind %s: %llu\n", k.first.c_str(), (unsigned long long)k.second); for(auto& k : st.probes) printf("  probe %s: %llu\n", k.first.c_str(), (unsigned long long)k.second); for(auto& k : st.faults) printf("  fault %s: %llu\n", k.first.c_str(), (unsigned long long)k.second); }
	return rc;
}
} // namespace drv
