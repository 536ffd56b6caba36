// C11: standard input.  C18: the terminal.
#include "native.h"
#include <cerrno>
#include <unordered_set>
namespace drv {
namespace {
struct Act { char kind; std::string after; };   // what one input instruction must print: '&', '~', 'W' (BASE, length of a word), 'L' (STRN, a line)
struct Reader { std::vector<Act> acts; std::string bad; };
}
static std::string some_input(Rng& r, int tier, u32 longest = 8){
	std::string s; u32 n = r.pct(10) ? 0 : r.below(r.pct(25) ? (tier ? 300 : 90) : 16); u32 mode = r.below(5), digits = 0;
	for(u32 i = 0; i < n; ++i){
		char ch = mode == 0 ? (char)('0' + r.below(10)) : mode == 1 ? r.pickc("0123456789 0123456789\n") : mode == 2 ? (char)r.below(256) : r.pct(45) ? (char)('0' + r.below(10)) : r.pickc(" \n\n\r\tabcxyz,.-+");
		if(ch >= '0' && ch <= '9'){ if(++digits > longest){ ch = r.pickc(" \nx"); digits = 0; } } else digits = 0;
		if(ch == '\v' || ch == '\f') ch = ' ';
		s += ch;
	}
	if(r.pct(4)) s.insert(r.below((u32)s.size() + 1), std::string(200 + r.below(200), r.pickc("xyz")));
	if(r.pct(35)) s += r.pct(50) ? "\n" : "7\n";
	return s;
}
// what one instruction takes from position p on; returns false at the end of input
static bool take(const std::string& in, size_t& p, char kind, std::string& shown){
	auto digit = [&](size_t i){ return in[i] >= '0' && in[i] <= '9'; };
	switch(kind){
		case '~': if(p >= in.size()) return false; if((unsigned char)in[p] == 13){ ++p; if(p >= in.size()) return false; } shown = std::to_string((int)(unsigned char)in[p++]) + " "; return true;
		case 'N':
		case '&': { while(p < in.size() && !digit(p)) ++p; if(p >= in.size()) return false; i64 v = 0; while(p < in.size() && digit(p)) v = v * 10 + (in[p++] - '0'); shown = kind == 'N' ? fmt("%lld %lld ", (long long)(v / 1000000000), (long long)(v % 1000000000)) : std::to_string(v) + " "; return true; }
		case 'W': { while(p < in.size() && isspace((unsigned char)in[p])) ++p; if(p >= in.size()) return false; i64 v = 0; while(p < in.size() && !isspace((unsigned char)in[p])) ++p, ++v; shown = std::to_string(v) + " "; return true; }
		case 'L': { if(p >= in.size()) return false; size_t e = in.find('\n', p); std::string l = in.substr(p, e == std::string::npos ? e : e - p); p = e == std::string::npos ? in.size() : e + 1; shown.clear(); size_t i = 0; do { shown += i < l.size() ? l[i] : '\0'; ++i; } while(i < l.size() && l[i]); return true; }
	}
	return false;
}
// Is there an order of the instructions, each reader's in sequence, that explains what every reader printed?
static bool explain(const std::string& in, const std::vector<Reader>& rd, const std::vector<std::string>& got){
	std::set<std::vector<size_t>> seen; std::vector<std::vector<size_t>> todo; size_t K = rd.size();
	std::vector<size_t> s(2 * K + 1, 0); todo.push_back(s);
	while(!todo.empty()){
		s = todo.back(); todo.pop_back(); bool end = true;
		for(size_t i = 0; i < K; ++i){
			if(s[i] >= rd[i].acts.size()){ if(s[K + i] != got[i].size()) end = false; continue; }
			end = false; auto& a = rd[i].acts[s[i]]; size_t p = s[2 * K]; std::string shown; bool ok = take(in, p, a.kind, shown); if(!ok){ shown = rd[i].bad; p = in.size(); }
			if(got[i].compare(s[K + i], shown.size(), shown) != 0) continue;
			auto n = s; n[i]++; n[K + i] += shown.size(); n[2 * K] = p; if(seen.insert(n).second) todo.push_back(n);
		}
		if(end) return true;
	}
	return false;
}
static std::string show_line(){ return until_zero(",:"); }
static void input_act(Rng& r, GRow& g, char kind, char bad, int& loaded){
	g.code("n"); std::string d; { u32 n = r.pct(50) ? 0 : r.below(r.pct(80) ? 8 : 60); d = std::string(n, 'z'); } g.code(d);
	if(kind == 'N') g.guard("&", ":" + num(1000000000) + "/." + num(1000000000) + "%.", bad);   // a number of any length
	else if(kind == '&' || kind == '~') g.guard(std::string(1, kind), ".", bad);
	else if(kind == 'W'){ if(loaded != 1) g.code(load("BASE")); loaded = 1; g.code("1").guard("I", ".", bad); }
	else { if(loaded != 2) g.code(load("STRN")); loaded = 2; g.guard("I", show_line(), bad); }
}
static char some_kind(Rng& r, const std::string& mix){ return mix[r.below((u32)mix.size())]; }
static Case c11(Rng& r, int tier){
	Case c; std_files(c.sc); c.sc.argv = { "funge" }; u32 form = r.below(12); bool big = r.pct(20); std::string in = some_input(r, tier, big ? 18 : 8); c.sc.input = in;
	std::string mix = r.pct(25) ? "~" : r.pct(25) ? "&~" : r.pct(30) ? "&" : r.pct(50) ? "&~WL" : "~&&~WL";
	if(big && form < 9) for(char& k : mix) if(k == '&') k = 'N';
	if(r.pct(8) && !in.empty()){ size_t at = r.below((u32)in.size() + 1); c.sc.fault(OP_STDIN, F_ERR_AT, 0xffffffffu, EIO, (i64)at); in = in.substr(0, at); }   // an error of the device is the end of input
	if(form < 4){   // turns, any number of IPs, against the model
		int K = (int)r.range(1, 4); std::vector<GRow> rows((size_t)K);
		for(int i = 0; i < K; ++i){ auto& g = rows[(size_t)i]; int loaded = 0, n = 1 + (int)r.below(tier ? 14 : 9); for(int j = 0; j < n; ++j){ input_act(r, g, some_kind(r, mix), (char)('A' + i), loaded); if(r.pct(10)) g.code(r.pct(50) ? "12.." : "#@t"); } g.code("@"); }
		std::string t = two_rows(rows) + "\nz\n"; auto m = std::make_shared<Model>(); m->input = in; UniCfg u; u.standard = 98; u.dims = 2; u.args = { "p.b98" }; if(r.pct(10)){ u.standard = 97; }
		u.standard = 98; c.sc.file("/sim/work/p.b98", t); c.sc.argv.push_back("p.b98"); c.note = t; add_noise(r, c.sc); c.sc.max_points = 200000000; c.schedules = 2; m->max_ticks = 20000;
		m->add(u, t); m->start(*m->unis[0]); m->run(); c.valid = m->valid; c.kind = m->valid ? "IPs taking turns" : m->why; c.nontrivial = m->in_pos > 0 || in.empty(); c.probes["input bytes"] += in.size();
		c.check = [m](const Result& x) { return compare(*m, x); };
		return c;
	}
	if(form < 9){   // readers in several threads
		bool native = r.pct(60); int K = (int)r.range(native ? 1 : 2, 4); auto rd = std::make_shared<std::vector<Reader>>((size_t)K); std::vector<GRow> rows((size_t)K);
		for(int i = 0; i < K; ++i){
			auto& g = rows[(size_t)i]; int loaded = 0, n = 1 + (int)r.below(tier ? 8 : 6); (*rd)[(size_t)i].bad = std::string(1, (char)(0xe0 + i));
			for(int j = 0; j < n; ++j){ char k = some_kind(r, mix); input_act(r, g, k, (char)(0xe0 + i), loaded); (*rd)[(size_t)i].acts.push_back(Act{ k, "" }); }
			g.code("@");
		}
		c.kind = native ? "readers, native threads" : "readers in several universes"; c.schedules = 5;
		if(native){ std::string t = two_rows(rows) + "\nz\n"; c.sc.argv.push_back("-fthreads=native"); c.sc.argv.push_back("p.b98"); c.sc.file("/sim/work/p.b98", t); c.note = t; }
		else { std::string list; for(int i = 0; i < K; ++i){ std::string t = two_rows({ rows[(size_t)i] }) + "\nz\n", n = fmt("u%d.b98", i); c.sc.file("/sim/work/" + n, t); list += n + "\n"; c.note += "--- " + n + "\n" + t; } c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv"); }
		add_noise(r, c.sc); c.sc.max_points = 200000000; c.probes["input bytes"] += in.size();
		c.check = [rd, in, native, K](const Result& x) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code != 0) return fmt("exit code: %d", x.exit_code);
			std::vector<u32> tid; std::map<u32, std::vector<u32>> made; for(auto& e : x.ev) if(e.kind == E_THREAD) made[e.tid].push_back((u32)e.a);
			if(!native) tid = made[0]; else { u32 t = made[0].size() > 1 ? made[0][1] : 0; for(int i = 0; i < K; ++i){ tid.push_back(t); t = made[t].empty() ? 0 : made[t][0]; } }
			if((int)tid.size() < K) return "threads: not all readers were started";
			std::vector<std::string> got; for(int i = 0; i < K; ++i) got.push_back(x.out(tid[(size_t)i]));
			if(!explain(in, *rd, got)){ s = "input: no order of the instructions explains what they read;"; for(int i = 0; i < K; ++i){ s += fmt(" reader %d (", i); for(auto& a : (*rd)[(size_t)i].acts) s += a.kind; s += ") printed " + quote(got[(size_t)i], 200); } return s + ", input " + quote(in, 300); }
			return "";
		};
		return c;
	}
	// one universe waits for input that does not come; the others go on
	int U = (int)r.range(2, 4), w = (int)r.below((u32)U); bool ends = r.pct(50); std::string list; auto want = std::make_shared<std::vector<std::string>>((size_t)U); bool many = r.pct(40), nat = r.pct(30);
	c.kind = ends ? "waiting for late input" : "waiting for ever"; c.sc.input = ends ? "5" : ""; in = c.sc.input; c.sc.faults.clear(); c.sc.never_ends = !ends; u64 late = 3000000000ull; if(ends) c.sc.chunks.push_back(Chunk{ late, 1, 0 });
	if(nat) c.sc.argv.push_back("-fthreads=native");
	for(int u = 0; u < U; ++u){
		std::string t, n = fmt("u%d.b98", u); auto& o = (*want)[(size_t)u];
		if(u == w){ t = mark(0, 3) + (r.pct(50) ? "~" : "&") + "$" + mark(0, 4) + "@\nz\n"; o = ends ? "\x83\x84" : "\x83"; if(many && !nat) t = "#vt" + t.substr(0, t.size() - 2) + " >" + std::string(r.below(9), 'z') + mark(0, 5) + "@\nz\n", o = ""; }
		else { int k = 1 + (int)r.below(8); for(int j = 0; j < k; ++j){ t += std::string(r.below(20), 'z') + mark(u % 7, j); o += (char)(tag(u % 7) + j); } t += (r.pct(40) && u ? "3q" : "@"); t += "\nz\n"; }
		c.sc.file("/sim/work/" + n, t); list += n + "\n"; c.note += "--- " + n + "\n" + t;
	}
	c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv"); c.sc.max_points = 60000000; c.schedules = 3;
	c.check = [want, w, ends, late, U, nat](const Result& x) -> std::string {
		std::string s = sanity(x, !ends); if(!s.empty()) return s; if(!ends && x.outcome != O_WAITIN) return "input: an input instruction came back without input";
		std::vector<u32> made; for(auto& e : x.ev) if(e.kind == E_THREAD && e.tid == 0) made.push_back((u32)e.a);
		for(int u = 0; u < U; ++u){
			std::string o = (*want)[(size_t)u]; if(u == w && o.empty()) continue; u32 t = (size_t)(nat ? U + u : u) < made.size() ? made[(size_t)(nat ? U + u : u)] : 0;
			s = diff(fmt("output of universe %d", u), o, x.out(t)); if(!s.empty()) return s;
			if(u != w) for(auto& e : x.ev) if(e.kind == E_STDOUT && e.tid == t && e.vt >= late) return fmt("waiting: universe %d had to wait for another one's input", u);
		}
		return "";
	};
	return c;
}
static Reg r11("C11", "programs whose IPs read numbers, characters, words and lines from input that arrives in any chunks at any time, ends anywhere or fails, one IP, several taking turns (against the model), several native threads and universes (some order of the instructions must explain everything read), and universes that run on while one waits; non-trivial: all but programs that read nothing", c11);

// The history of the terminal: who changed it to what, and how it was while somebody waited or printed.
static std::string terminal(const Result& x, const Scenario& sc, u32 clear, bool raw_waits){
	u32 lf = sc.lflag; i64 owner = -1; if(x.term_lflag != sc.lflag && sc.tty) return fmt("terminal: the flags are %#x after the process, they were %#x", x.term_lflag, sc.lflag);
	if(!sc.tty){ if(x.term_sets) return "terminal: changed although standard input is none"; return ""; }
	for(auto& e : x.ev){
		if(e.kind == E_TERM){
			if(e.b < 0) return "terminal: attributes besides the local modes were changed";
			u32 v = (u32)e.a; if(v != sc.lflag && v != (sc.lflag & ~clear)) return fmt("terminal: the flags were set to %#x, they were %#x", v, sc.lflag);
			if(v != sc.lflag){ if(owner >= 0 && owner != (i64)e.tid && lf != sc.lflag) return "terminal: changed by two threads at once"; owner = e.tid; } else owner = -1;
			lf = v;
		}
		if(e.kind == E_STDINWAIT && raw_waits && lf != (sc.lflag & ~clear)) return fmt("terminal: the flags are %#x while an instruction waits for input", lf);
		if((e.kind == E_STDOUT || e.kind == E_STDERR || e.kind == E_EXIT) && owner == (i64)e.tid && lf != sc.lflag) return fmt("terminal: the flags are %#x after the input instruction", lf);
	}
	return "";
}
static Case c18(Rng& r, int tier){
	Case c; std_files(c.sc); c.sc.argv = { "funge" }; u32 form = r.below(12); std::string in = some_input(r, tier); c.sc.input = in; c.sc.tty = r.pct(85); c.sc.max_points = 100000000;
	u32 base = 0x8a3b; c.sc.lflag = r.pct(50) ? base : r.pct(30) ? base & ~2u : r.pct(50) ? base & ~8u : (u32)r.below(0x10000); auto sc = std::make_shared<Scenario>(); auto keep = [&]{ sc->tty = c.sc.tty; sc->lflag = c.sc.lflag; };
	bool slow = r.pct(75);
	auto noise = [&]{ if(slow){ u64 at = 0; size_t left = in.size(); while(left && c.sc.chunks.size() < MAX_CHUNK - 1){ u32 k = r.pct(60) ? 1 : 1 + r.below(9); if(k > left) k = (u32)left; at += r.pct(20) ? 0 : r.below(r.pct(70) ? 300000 : 30000000); c.sc.chunks.push_back(Chunk{ at, k, 0 }); left -= k; } if(left) c.sc.chunks.push_back(Chunk{ at, (u32)left, 0 }); if(r.pct(50)) c.sc.chunks.push_back(Chunk{ at + 1 + r.below(30000000), 0, 0 }); } add_noise(r, c.sc); };
	if(form < 5){   // readers as above; what is read must also be right
		bool native = r.pct(70), raw = r.pct(75); int K = (int)r.range(1, 4); if(!native && K < 2) K = 2; auto rd = std::make_shared<std::vector<Reader>>((size_t)K); std::vector<GRow> rows((size_t)K); std::string mix = raw ? "&~" : "&~WL~";
		for(int i = 0; i < K; ++i){
			auto& g = rows[(size_t)i]; int loaded = 0, n = 1 + (int)r.below(5); (*rd)[(size_t)i].bad = std::string(1, (char)(0xe0 + i));
			for(int j = 0; j < n; ++j){ char k = some_kind(r, mix); input_act(r, g, k, (char)(0xe0 + i), loaded); (*rd)[(size_t)i].acts.push_back(Act{ k, "" }); }
			g.code(r.pct(70) || !native ? "@" : "z@");
		}
		c.kind = native ? "readers, native threads" : "readers in several universes"; c.schedules = 4;
		if(native){ std::string t = two_rows(rows) + "\nz\n"; c.sc.argv.push_back("-fthreads=native"); c.sc.argv.push_back("p.b98"); c.sc.file("/sim/work/p.b98", t); c.note = t; }
		else { std::string list; for(int i = 0; i < K; ++i){ std::string t = two_rows({ rows[(size_t)i] }) + "\nz\n", n = fmt("u%d.b98", i); c.sc.file("/sim/work/" + n, t); list += n + "\n"; c.note += "--- " + n + "\n" + t; } c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv"); }
		noise(); keep();
		c.check = [rd, in, native, K, sc, raw](const Result& x) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code != 0) return fmt("exit code: %d", x.exit_code);
			s = terminal(x, *sc, 2, raw); if(!s.empty()) return s;
			std::vector<u32> tid; std::map<u32, std::vector<u32>> made; for(auto& e : x.ev) if(e.kind == E_THREAD) made[e.tid].push_back((u32)e.a);
			if(!native) tid = made[0]; else { u32 t = made[0].size() > 1 ? made[0][1] : 0; for(int i = 0; i < K; ++i){ tid.push_back(t); t = made[t].empty() ? 0 : made[t][0]; } }
			if((int)tid.size() < K) return "threads: not all readers were started";
			std::vector<std::string> got; for(int i = 0; i < K; ++i) got.push_back(x.out(tid[(size_t)i]));
			if(!explain(in, *rd, got)) return "input: no order of the instructions explains what they read";
			return "";
		};
		return c;
	}
	if(form < 8){   // quit while input is pending
		bool native = r.pct(75); int K = (int)r.range(2, 5), code = (int)r.below(256), q = (int)r.below((u32)K); std::vector<std::string> rows; c.kind = native ? "quit while input is pending, native threads" : "quit with readers, turns"; c.schedules = 4;
		for(int i = 0; i < K; ++i){ std::string s = "n"; int n = (int)r.below(6); if(i == q){ for(int j = 0; j < n; ++j) s += r.pct(50) ? std::string(r.below(40), 'z') : std::string("#@~$"); rows.push_back(s + num(code) + "q"); } else { for(int j = 0; j <= n; ++j) s += std::string(r.below(9), 'z') + (r.pct(50) ? "#@~$" : "#@&$"); rows.push_back(s + "@"); } }
		std::string t = staircase(rows) + "\nz\n"; if(native) c.sc.argv.push_back("-fthreads=native"); c.sc.argv.push_back("p.b98"); c.sc.file("/sim/work/p.b98", t); c.note = t; noise(); keep();
		c.check = [sc](const Result& x) -> std::string { std::string s = sanity(x); return s.empty() ? terminal(x, *sc, 2, true) : s; };
		return c;
	}
	if(form < 10){   // fish programs, with any end
		std::string s; int n = (int)r.below(12); for(int j = 0; j < n; ++j){ u32 k = r.below(10); s += k < 6 ? "i" : k < 8 ? "in" : k == 8 ? "io" : "i:n"; } s += r.pct(40) ? ";" : r.pct(40) ? "+++++++++++++++++++++" : r.pct(50) ? "10," : "o+;";
		c.kind = "fish"; bool star = r.pct(40); std::string f = star ? "p.sf" : "p.fish"; c.sc.file("/sim/work/p.fish", s + "\n"); if(star) c.sc.argv.push_back("-std=sfish"); c.sc.argv.push_back("p.fish"); c.note = s; noise(); keep(); c.schedules = 2;
		c.check = [sc](const Result& x) -> std::string { std::string s = sanity(x); return s.empty() ? terminal(x, *sc, 10, true) : s; };
		return c;
	}
	// errors
	u32 k = r.below(4); std::string t = "~,~,@\nz\n"; c.kind = "programs that cannot be loaded"; bool two = r.pct(40);
	if(k == 0) c.sc.argv.push_back("missing.b98"); else if(k == 1){ c.sc.file("/sim/work/p.b98", t, 0); c.sc.argv.push_back("p.b98"); } else { c.sc.file("/sim/work/p.b98", t); c.sc.fault(OP_READ, F_ERR_AT, 0xffffffffu, EIO, r.below(6), "/p.b98"); c.sc.argv.push_back("p.b98"); }
	if(two){ c.sc.file("/sim/work/m.fmv", "a.b98\n" + c.sc.argv.back() + "\n"); c.sc.file("/sim/work/a.b98", t); c.sc.argv.back() = "m.fmv"; }
	noise(); keep(); c.schedules = 2;
	c.check = [sc](const Result& x) -> std::string { std::string s = sanity(x); return s.empty() ? terminal(x, *sc, 2, true) : s; };
	return c;
}
static Reg r18("C18", "programs that read from a terminal with any flags, or from something else, and end in any way: all IPs ended, quit while others wait for input, errors of fish programs, programs that cannot be loaded; the terminal's attributes over the whole history and afterwards; non-trivial: all", c18);
} // namespace drv
