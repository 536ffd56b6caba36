// C09: fingerprints written in funge.
#include "native.h"
#include <algorithm>
#include <cerrno>
namespace drv {
namespace { struct Fn { char letter; std::string code; bool reflects, moves; }; struct Lib { std::string name; std::vector<Fn> fns; bool nested = false; std::string text() const { std::string s; for(auto& f : fns) s += std::string("=") + f.letter + "\n" + f.code + "\n"; return s; } }; }
static std::string wait_loop(Rng& r){ return num((i64)r.range(1, r.pct(80) ? 6 : 40)) + until_zero("1-:") + "$"; }
static std::string atom(Rng& r, bool prints, bool& reflects, bool& moves){
	switch(r.below(30)){
		case 0: case 1: case 2: return num((i64)r.below(99)); case 3: return "+"; case 4: return "-"; case 5: return ":"; case 6: return "\\"; case 7: return "$"; case 8: return "!"; case 9: return "`"; case 10: return "7%"; case 11: return "\"ab\""; case 12: return "E"; case 13: return num((i64)r.below(5)) + "K"; case 14: return num((i64)r.below(4)) + "O"; case 15: return "0" + num((i64)r.below(4)) + "-O";
		case 16: reflects = true; return "R"; case 17: return "RR"; case 18: return "N"; case 19: moves = true; return r.pct(50) ? "NF" : "F"; case 20: return num((i64)r.below(30)) + num((i64)r.below(5)) + "0G"; case 21: return num((i64)r.range(33, 126)) + num((i64)r.below(5)) + num(90 + (i64)r.below(3)) + "0P"; case 22: return "Q" + std::string(r.below(6), '$'); case 23: return "M";
		case 24: return wait_loop(r); case 25: return std::string(r.below(12), 'z'); case 26: return "#@t"; case 27: return prints ? std::string(r.pct(50) ? "." : "'#,") : "z"; case 28: return r.pct(50) ? "2k:" : "2j$$"; default: return r.pct(60) ? "0{5}" : "1{:}";
	}
}
static Lib make_lib(Rng& r, const std::string& name, bool prints, int tier, const std::vector<Lib>& others){
	Lib l; l.name = name; std::string letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"; int n = 1 + (int)r.below(6);
	for(int i = 0; i < n; ++i){
		Fn f; size_t k = r.below((u32)letters.size()); f.letter = letters[k]; letters.erase(k, 1); f.reflects = f.moves = false;
		if(!others.empty() && r.pct(12)){   // calls another library
			auto& o = r.pick(others); f.code = r.pct(50) ? num((i64)r.below(50)) : ""; f.code += load(o.name);
			for(u32 q = 1 + r.below(2); q; --q){ auto& g = r.pick(o.fns); if(g.reflects) continue; f.code += std::string(1, g.letter) + (g.moves ? "z" : "") + (r.pct(30) ? num((i64)r.below(50)) : ""); }
			f.code += "@"; l.fns.push_back(f); l.nested = true; continue;
		}
		switch(r.below(12)){
			case 0: f.code = num((i64)r.below(50)) + "@"; break;
			case 1: f.code = "#v_" + num((i64)r.below(9)) + "@\n >" + num((i64)r.below(99)) + "@"; break;
			case 2: f.code = "1-:!jB@"; break;                                    // runs again until zero
			case 3: f.code = num((i64)r.below(9)) + num((i64)r.below(9)) + "0S@"; break;
			case 4: f.code = (r.pct(50) ? wait_loop(r) : "") + "R" + (r.pct(30) ? wait_loop(r) : "") + "@"; f.reflects = true; break;
			case 5: f.code = "n" + std::string(1 + r.below(3), '7') + "@"; break;
			default: { int a = 1 + (int)r.below(tier ? 12 : 7); for(int j = 0; j < a; ++j) f.code += atom(r, prints, f.reflects, f.moves); f.code += r.pct(3) ? "X@" : "@"; }
		}
		l.fns.push_back(f);
	}
	if(r.pct(50)) std::sort(l.fns.begin(), l.fns.end(), [](const Fn& a, const Fn& b){ return a.letter < b.letter; });
	return l;
}
static Case c09(Rng& r, int tier){
	Case c; std_files(c.sc); c.sc.argv = { "funge" }; u32 form = r.below(10); bool tagged = form >= 6; bool native = tagged && r.pct(60), fmv = tagged && !native && r.pct(60); if(native) c.sc.argv.push_back("-fthreads=native");
	std::vector<Lib> libs; int L = 1 + (int)r.below(3); std::string names = "Z"; std::set<std::string> used;
	for(int i = 0; i < L; ++i){ std::string n; do { n = r.pct(85) ? std::string("Z") + (char)r.range('A', 'Z') + (char)r.range('A', 'Z') + (char)r.range('0', '9') : r.pct(50) ? "BOOL" : "BITW"; } while(used.count(n)); used.insert(n); libs.push_back(make_lib(r, n, !tagged, tier, libs)); if(libs.back().nested) c.probes["libraries that call others"]++; }
	std::string broken; if(r.pct(12)){ broken = "ZERR"; std::string t = "=A\n1@\n=B\n2@\n"; c.sc.file("/sim/fing/ZERR.fl", t, r.pct(30) ? 0 : 3); if(c.sc.files.back().mode) { if(r.pct(50)) c.sc.fault(OP_OPEN, F_ERR, 0xffffffffu, EACCES, 0, "/fing/ZERR.fl"); else c.sc.fault(OP_READ, F_ERR_AT, 0xffffffffu, EIO, r.below((u32)t.size() + 1), "/fing/ZERR.fl"); } }
	for(auto& l : libs){ c.sc.file("/sim/fing/" + l.name + ".fl", l.text()); c.note += "--- " + l.name + "\n" + l.text(); }
	int K = tagged ? (int)r.range(2, 4) : r.pct(35) ? 1 : (int)r.range(2, 5);
	auto nib = [](int i){ return "88+%88++88+%" + lit(tag(i)) + "+,"; };   // also for negative values
	auto show = [&](int i){ return tagged ? ":88+/" + nib(i) + nib(i) : std::string("."); };
	std::vector<GRow> rows((size_t)K); u64 calls = 0, moded = 0;
	for(int i = 0; i < K; ++i){
		auto& g = rows[(size_t)i]; std::vector<int> have; auto letter = [&]{ return tagged ? (char)(tag(i) + 15) : (char)('a' + i); };
		int n = 2 + (int)r.below(tier ? 18 : 10);
		auto want = [&](int l){ have.push_back(l); g.code(load(libs[(size_t)l].name)); };
		want((int)r.below((u32)L));
		for(int j = 0; j < n; ++j){
			u32 k = r.below(20);
			if(k < 2) want((int)r.below((u32)L));
			else if(k == 2 && have.size() > 1 && r.pct(60)){ g.code(unload(libs[(size_t)have.back()].name)); have.pop_back(); }
			else if(k == 3 && !broken.empty()) g.code(pushes("").substr(0, 0) + "\"RREZ\"4").guard("(", "$$", letter());
			else if(k == 4 && i + 1 == K && !tagged && r.pct(40)) g.code("#@t");
			else if(k < 6 && !native && (K == 1 || fmv)){   // with the stack's ends exchanged
				std::string t = r.pct(40) ? "Q" : r.pct(50) ? "I" : "QI"; g.code(load("MODE") + t);
				for(u32 q = 1 + r.below(4); q; --q){ auto& f = r.pick(libs[(size_t)r.pick(have)].fns); if(strchr("HIQS", f.letter) || (tagged && (f.moves || f.reflects))) continue; ++calls; ++moded; u32 z = r.below(4); while(z--) g.code(num((i64)r.below(16))); if(f.reflects) g.guard(std::string(1, f.letter), "z", letter()); else g.code(std::string(1, f.letter)); if(f.moves) g.code("z"); if(!tagged && r.pct(60)) g.code("."); }
				g.code(t + unload("MODE"));
			}
			else if(k < 9) g.code(num((i64)r.below(200)));
			else if(k < 12) g.code(show(i));
			else { auto& f = r.pick(libs[(size_t)r.pick(have)].fns); ++calls; if(f.reflects || r.pct(40)) g.guard(std::string(1, f.letter), r.pct(50) ? "" : r.pct(50) ? "z" : "1", letter()); else g.code(std::string(1, f.letter)); if(f.moves) g.code("z"); if(r.pct(40)) g.code(show(i)); }
		}
		g.code(show(i) + show(i) + (r.pct(20) ? "" : "@")); if(g.m.back() != '@') g.code("@");
	}
	c.probes["calls written"] += calls; c.probes["calls with exchanged ends"] += moded;
	auto m = std::make_shared<Model>(); for(auto& l : libs) m->libs[(u64)0 + [&]{ u64 v = 0; for(char ch : l.name) v = (v << 8) + (unsigned char)ch; return v; }()] = l.text();
	m->max_ticks = 30000; m->max_work = 60000; UniCfg u; u.standard = 98; u.dims = 2; u.native = native; add_noise(r, c.sc); c.sc.max_points = 300000000; c.schedules = tagged ? 3 : 2;
	int quits = 0;
	if(fmv){
		std::string list; for(int i = 0; i < K; ++i){ std::string t = two_rows({ rows[(size_t)i] }) + "\nz\n", n = fmt("p%d.b98", i); u.name = n; c.sc.file("/sim/work/" + n, t); list += n + "\n"; c.note += "--- " + n + "\n" + t; m->add(u, t); m->start(*m->unis.back()); }
		c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv");
	}else{
		std::string t; if(native && r.pct(20)){ quits = 1 + (int)r.below(90); rows.emplace_back().code(std::string(r.below(r.pct(50) ? 30 : 150), 'z') + num(quits) + "@"); t = two_rows(rows); } std::string tm = quits ? t + "\nz\n" : "";
		if(quits) t[t.rfind('@')] = 'q'; else t = two_rows(rows); t += "\nz\n"; if(!quits) tm = t; c.note += "--- p.b98\n" + t; c.sc.file("/sim/work/p.b98", t); c.sc.argv.push_back("p.b98"); u.args = { "p.b98" }; m->add(u, tm); m->start(*m->unis[0]);
	}
	m->run(); c.valid = m->valid; if(!m->valid){ c.kind = m->why; return c; }
	c.kind = quits ? "native callers and a quitting IP" : native ? "native callers" : fmv ? "callers in several universes" : K > 1 ? "several IPs taking turns" : "one caller"; c.probes["library calls"] += m->lib_calls; c.probes["library steps"] += m->lib_ticks; c.nontrivial = m->lib_calls > 0;
	if(!tagged){ c.check = [m](const Result& x) { return compare(*m, x); }; return c; }
	c.check = [m, K, quits](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		std::vector<std::string> want(9), got(9); auto split = [](const std::string& o, std::vector<std::string>& v){ for(unsigned char ch : o) v[ch < 0x80 ? 8 : (size_t)((ch - 0x80) >> 4)] += (char)ch; };
		split(m->out, want); split(x.out(), got);
		if(quits){   // everything up to some moment
			for(size_t i = 0; i < 9; ++i) if(want[i].compare(0, got[i].size(), got[i]) != 0){ s = diff(fmt("output of caller %zu", i), want[i], got[i]); return s; }
			if(x.exit_code != (quits & 255)) return fmt("exit code: %d", x.exit_code);
			return "";
		}
		for(size_t i = 0; i < 9; ++i){ s = diff(fmt("output of caller %zu", i), want[i], got[i]); if(!s.empty()) return s; }
		if(x.exit_code != 0) return fmt("exit code: %d", x.exit_code);
		return "";
	};
	return c;
}
static Reg r09("C09", "random libraries (arithmetic, picking and rolling the caller's stack, loops, splitting, stack-of-stacks, reading, writing and moving the caller) called by one or several IPs, taking turns, native or in several universes, loaded over each other, unloaded and inherited; libraries that cannot be read; equality with the model that runs the library code synchronously; non-trivial: at least one call", c09);
} // namespace drv
