// C01 C02 C03 C10 C20: programs of one universe, its IPs taking turns, against the reference model.
#include "gen.h"
#include <cerrno>
namespace drv {
static void finish_wild(Rng& r, Case& c, Wild& w, const std::string& name, std::shared_ptr<Model> m, bool noise = true){
	std_files(c.sc); c.sc.argv = { "funge" }; for(auto& f : w.flags) c.sc.argv.push_back(f);
	c.sc.argv.push_back(name); for(auto& a : w.cfg.args) if(a != name) c.sc.argv.push_back(a);
	c.sc.file("/sim/work/" + name, w.text); env_of(r, c.sc);
	m->env = c.sc.env; m->wall = c.sc.wall_base; m->input = c.sc.input; m->sys = c.sc.sys;
	if(noise) add_noise(r, c.sc);
	c.sc.max_points = 200000000; m->max_ticks = 12000; m->files[name] = w.text;
	m->add(w.cfg, w.text); m->start(*m->unis[0]); m->run();
	c.valid = m->valid; if(!m->valid) c.kind = m->why;
	c.nontrivial = m->splits > 0 && m->ticks > 20;
	c.probes["ticks"] += m->ticks; c.probes["splits"] += m->splits; c.probes["quits"] += m->quits; c.probes["reflections"] += m->reflects; c.probes["output bytes"] += m->out.size(); c.probes["commands"] += m->commands.size();
	for(int i : m->used) if(i > 32 && i < 127) c.probes[std::string("instruction ") + (char)i]++;
	if(m->ips_max > 1) c.probes[fmt("IPs at once: %s", m->ips_max > 8 ? "more than 8" : m->ips_max > 3 ? "4 to 8" : "2 or 3")]++;
	bool t = m->used_time; c.check = [m, t](const Result& x) -> std::string { if(t && x.vt > 900000000ull) return sanity(x); return compare(*m, x); };
}
static void flags_for(Rng& r, Wild& w){
	if(r.pct(30)){ w.flags.push_back("-fstrings=multispace"); w.cfg.strings = 0; }
	else if(r.pct(20)){ w.flags.push_back("-fstrings=c"); w.cfg.strings = 2; }
	if(r.pct(10)){ w.flags.push_back("-fno-execute"); w.cfg.exec = false; }
	if(r.pct(10)){ w.flags.push_back("-fno-filesystem"); w.cfg.fs = false; }
	if(r.pct(10)){ w.flags.push_back("-fno-concurrent"); w.cfg.conc = false; }
	if(r.pct(15)){ w.flags.push_back("-fthreads=funge"); }
	if(r.pct(10)){ std::string f = r.pick(std::vector<std::string>{ "BOOL", "FRTH", "STRN", "BITW", "IIPC" }); w.flags.push_back("-l" + f); w.cfg.pre.push_back(FP(f.c_str())); }
}
static std::string random_input(Rng& r){ std::string s; u32 n = r.below(r.pct(30) ? 80 : 12); for(u32 i = 0; i < n; ++i) s += r.pct(40) ? (char)('0' + r.below(10)) : r.pickc(" \nabcxyz,.-+\t\r"); return s; }
static void std_args(Rng& r, Wild& w, const std::string& name){ w.cfg.args = { name }; u32 n = r.pct(30) ? r.below(3) : 0; for(u32 i = 0; i < n; ++i) w.cfg.args.push_back(fmt("arg%u", r.below(100))); }

static Case wild_case(Rng& r, Mix m, std::vector<std::string> sn, const char* kind, bool input, bool watchdog = true){
	Case c; c.kind = kind; int w = (int)r.range(24, 60), h = (int)r.range(4, 16);
	Wild x = wild(r, m, w, h, watchdog, sn); flags_for(r, x); std::string name = "p.b98"; std_args(r, x, name);
	if(input) c.sc.input = random_input(r);
	c.schedules = 2;
	finish_wild(r, c, x, name, std::make_shared<Model>());
	c.note = x.text; return c;
}
static Mix mix_of(Rng& r){
	Mix m; // swarm: some kinds of instructions are left out, some are frequent
	int* f[] = { &m.blank, &m.dir, &m.digit, &m.arith, &m.stack, &m.out, &m.split, &m.jump, &m.str, &m.spc, &m.stst, &m.gp, &m.sys, &m.fing, &m.sem, &m.vec, &m.odd };
	for(int* p : f){ u32 k = r.below(10); if(k == 0) *p = 0; else if(k == 1) *p *= 3; else if(k == 2) *p = *p / 2 + 1; }
	return m;
}
// modes changed while the IP has several stacks
static std::string mode_row(Rng& r){
	std::string s = load("MODE"); u32 n = 4 + r.below(12); bool odd = r.pct(25);
	for(u32 i = 0; i < n; ++i) switch(r.below(odd ? 11 : 9)){
		case 0: case 1: s += num((i64)r.below(3)) + "{"; break;
		case 2: s += num((i64)r.below(3)) + "}"; break;
		case 3: s += r.pickc("QI"); break;
		case 4: case 5: { u32 k = 1 + r.below(4); for(u32 j = 0; j < k; ++j) s += num((i64)r.below(16)); break; }
		case 6: s += std::string(1 + r.below(3), '.'); break;
		case 7: s += r.pick(std::vector<std::string>{ "1u", "2u", "01-u", "02-u", "n", ":", "\\", "123" }); break;
		case 8: s += r.pickc("QI"); s += num((i64)r.below(16)) + num((i64)r.below(16)) + "."; break;
		default: s += r.pickc("HSHQ"); break;
	}
	return s + "....";
}
// comments of every length, also in the way of the instructions that look ahead
static std::string comment_row(Rng& r){
	std::string s; u32 n = 1 + r.below(5); auto com = [&]{ std::string t = ";"; u32 k = r.below(4); for(u32 i = 0; i < k; ++i) t += r.pickc("@. x1"); return t + ";"; };
	for(u32 i = 0; i < n; ++i) switch(r.below(6)){
		case 0: s += com(); break;
		case 1: s += com() + com() + num((i64)r.below(10)) + "."; break;
		case 2: s += num((i64)r.below(10)) + num((i64)r.below(4)) + "k" + com() + r.pickc(".:5"); break;
		case 3: s += num((i64)r.below(10)) + " " + com() + " ."; break;
		case 4: s += num((i64)r.below(4)) + "j" + com() + "123"; break;
		default: s += "8y." + com() + "#" + com() + "7."; break;
	}
	return s;
}
// many values, large values
static std::string big_row(Rng& r){
	std::string s; u32 n = 1 + r.below(2);
	for(u32 i = 0; i < n; ++i) switch(r.below(3)){
		case 0: { i64 k = r.range(200, r.pct(20) ? 1300 : 600); s += num(1 + (i64)r.below(9)) + num(k) + "k:" + num(k) + "k+."; break; }
		case 1: { i64 k = r.range(200, 600); s += num((i64)r.below(9)) + num(k) + "k:" + "0" + num(k / 2) + "{" + num(k / 3) + "k+." + "0}" + num(k) + "k+."; break; }
		default: { std::string at = num(r.range(60, 400)) + num(-1 - (i64)r.below(9)); s += num(65536) + num(65536) + "*" + num((i64)r.below(3000)) + "*" + num((i64)r.below(60000)) + (r.pct(50) ? "+" : "-") + at + "p" + at + "g" + (r.pct(70) ? ":" + num(65536) + "/." : "") + "."; break; }
	}
	return s;
}
// one row per IP of things IPs do, so that each of them is really done
static Case rows_case(Rng& r){
	Case c; c.kind = "rows, IPs taking turns"; Wild w; w.cfg.standard = 98; w.cfg.dims = 2; flags_for(r, w); std::string name = "p.b98"; std_args(r, w, name); c.schedules = 2;
	std::vector<std::string> rows; u32 n = 1 + r.below(5);
	for(u32 i = 0; i < n; ++i){ std::string s; u32 q = 1 + r.below(4); if(r.pct(30)) s += std::string(r.below(20), 'z'); for(u32 k = 0; k < q; ++k){ if(r.pct(12)){ s += mode_row(r); continue; } if(r.pct(12)){ s += comment_row(r); continue; } if(r.pct(3)){ s += big_row(r); continue; } auto v = std_snippets(r); size_t from = r.pct(60) ? v.size() - 12 : 0; s += v[from + r.below((u32)(v.size() - from))]; if(r.pct(30)) s += ".."; } rows.push_back(s + (r.pct(90) ? "...@" : "...0q")); }
	w.text = staircase(rows, 1 + (int)r.below(3)); if(n == 1) w.text += "z\n"; finish_wild(r, c, w, name, std::make_shared<Model>()); c.nontrivial = n > 1; c.note = w.text; return c;
}
// three planes, IPs going up and down
static Case planes_case(Rng& r){
	Case c; c.kind = "wild programs in three dimensions"; c.schedules = 2; Wild o; std::string name = "p.b98"; u32 n = 2 + r.below(2); int w = (int)r.range(24, 40), h = (int)r.range(4, 9);
	for(u32 k = 0; k < n; ++k){
		Mix m = mix_of(r); m.sys = m.sys > 1; m.blank += 3; Wild p = wild(r, m, w, h, k == 0, std::vector<std::string>{ "2j12.", "3k1", "12345{..", "2}", "'A,", "7y.", "\"olleh\",,,", "0kt", "1x", load("FISH") + "U12h3l4O.", load("FISH") + "U1l2h4O." });
		size_t line = 0; for(size_t i = 0; i < p.text.size(); ++i){ if(p.text[i] == '\n') ++line; else if(r.pct(7) && (k || line > 2)) p.text[i] = r.pickc("hlmhlmt"); }
		o.text += (k ? "\f" : "") + p.text;
	}
	o.cfg.standard = 98; o.cfg.dims = 0; flags_for(r, o); if(r.pct(50)){ o.flags.push_back("-finvert-hl"); o.cfg.invert = true; } std_args(r, o, name); finish_wild(r, c, o, name, std::make_shared<Model>()); c.nontrivial = c.nontrivial && c.probes.count("instruction h") + c.probes.count("instruction l") > 0; c.note = o.text; return c;
}
static Case c01(Rng& r, int){
	if(r.pct(10)) return planes_case(r);
	if(r.pct(40)) return rows_case(r);
	Mix m = mix_of(r); m.input = r.pct(40) ? 4 : 0; m.exec = r.pct(20) ? 2 : 0; m.split = 3 + (int)r.below(4);
	return wild_case(r, m, std_snippets(r), "wild programs, IPs taking turns", m.input > 0);
}
static Reg r01("C01", "random two-dimensional programs with splitting IPs (a watchdog IP ends them after a set number of turns) run under random thread schedules and input arrival; output, commands, files and exit code must equal the sequential reference model's; non-trivial: at least one split and 20 turns", c01);
} // namespace drv
namespace drv {
// ---- C02: rows that each set up stacks, storage offset and fingerprints, split in the middle, and then both halves show what they have
static std::string setup_code(Rng& r, bool fing, bool lib){
	std::string s; u32 n = r.below(7);
	for(u32 i = 0; i < n; ++i) switch(r.below(fing ? 11 : 7)){
		case 0: { u32 k = 1 + r.below(5); for(u32 j = 0; j < k; ++j) s += num((i64)r.below(300)); break; }
		case 1: { u32 k = r.below(4); for(u32 j = 0; j < k; ++j) s += num((i64)r.below(99)); s += num((i64)r.below(k + 2)) + "{"; break; }
		case 2: s += "0" + num((i64)r.below(4)) + "-{"; break;
		case 3: s += num((i64)r.below(4)) + "u"; break;
		case 4: s += "0" + num((i64)r.below(3)) + "-u"; break;
		case 5: s += num((i64)r.below(3)) + "{" + num((i64)r.below(99)) + num((i64)r.below(3)) + "}"; break;
		case 6: s += "\"ab c\""; break;
		default: s += load(r.pick(std::vector<std::string>{ "BOOL", "BITW", "FRTH", "STRN", lib ? "IIPC" : "BITW", lib ? "ROMA" : "FRTH" })); break;
	}
	return s;
}
static std::string show_code(Rng& r, bool fing, bool ids){
	std::string s; u32 n = 1 + r.below(5);
	for(u32 i = 0; i < n; ++i) switch(r.below(fing ? 9 : 7)){
		case 0: case 1: { u32 k = 1 + r.below(6); s += std::string(k, '.'); break; }
		case 2: s += num((i64)r.below(4)) + "u..."; break;
		case 3: s += num((i64)r.below(4)) + "}.."; break;
		case 4: s += num((i64)r.below(9)) + num((i64)r.below(3)) + "{."; break;
		case 5: s += num(99) + num((i64)r.below(5)) + num((i64)r.below(3)) + "g."; break;       // through the storage offset
		case 6: s += ids && r.pct(50) ? "8y." : num(22) + "y." + num(23) + "y." + num(24 + (i64)r.below(2)) + "y."; break;
		case 7: s += std::string("6 3 ") + r.pickc("ANOXRLDI") + "."; break;
		case 8: s += r.pct(50) ? load(r.pick(std::vector<std::string>{ "BOOL", "BITW", "FRTH" })) : unload(r.pick(std::vector<std::string>{ "BOOL", "BITW", "FRTH", "ROMA" })); break;
	}
	return s;
}
// rows joined so that the IP split off in row i runs row i+1
static std::string cascade(Rng& r, std::vector<std::pair<std::string, std::string>>& rows, const std::string& idmark){
	Canvas c; size_t x = 0;
	for(size_t i = 0; i < rows.size(); ++i){
		bool last = i + 1 == rows.size(); std::string s = ">" + rows[i].first; c.put(x, i, s);
		size_t at = x + s.size(); if(!last){ c.put(at, i, "#vt"); at += 3; }
		c.put(at, i, rows[i].second + idmark + "@");
		x = at - 2;
	}
	return c.text();
}
static std::string per_ip(const Model& m, const Result& x, const std::vector<std::vector<u64>>& kids, std::string* idlist){
	// threads in the order their creators made them
	std::map<u32, std::vector<u32>> made; u32 first = 0;
	for(auto& e : x.ev) if(e.kind == E_THREAD) made[e.tid].push_back((u32)e.a);
	// universe thread: the one whose children... the first IP thread is created by the main thread
	auto& mk = made[0]; if(mk.size() < 2) return "";
	first = mk[1];
	std::vector<std::pair<u64, u32>> todo{{ 0, first }};
	while(!todo.empty()){
		auto [ip, t] = todo.back(); todo.pop_back();
		std::string want = m.ip_out.count(ip) ? m.ip_out.at(ip) : "", got = x.out(t);
		if(idlist){   // the id, framed
			std::string g; for(size_t i = 0; i < got.size(); ++i){ if((unsigned char)got[i] == 0xf0){ size_t e = got.find(' ', i); std::string id = got.substr(i + 1, e == std::string::npos ? e : e - i - 1); *idlist += id + " "; if(e == std::string::npos) break; i = e; } else g += got[i]; }
			std::string w; for(size_t i = 0; i < want.size(); ++i){ if((unsigned char)want[i] == 0xf0){ size_t e = want.find(' ', i); if(e == std::string::npos) break; i = e; } else w += want[i]; }
			want = w; got = g;
		}
		std::string d = diff(fmt("output of the IP of thread %u", t), want, got); if(!d.empty()) return d;
		if(ip < kids.size()) for(size_t k = 0; k < kids[ip].size(); ++k){ if(k >= made[t].size()) return fmt("split: thread %u split %zu IPs instead of %zu", t, made[t].size(), kids[ip].size()); todo.push_back({ kids[ip][k], made[t][k] }); }
	}
	return "";
}
// The meanings given to letters out of the order of loading: lost by the split (known finding).
static Case split_meanings(Rng& r){
	Case c; c.kind = "meanings changed out of order"; c.known = "split-meanings"; c.schedules = 1;
	bool fing = r.pct(50); std::string set, use;
	if(fing){ char d = r.pickc("BCDEFGH"); set = load("FING") + load("BOOL") + "'A'" + d + "Z"; use = std::string("63") + d + "."; }
	else { set = load("BOOL") + load("BITW") + unload("BOOL"); use = "63A."; }
	std::vector<std::pair<std::string, std::string>> rows{ { set, use + "zzzzzzzzzzzzzzzzzzzz0q" }, { "z", use } };
	std_files(c.sc); c.sc.argv = { "funge", "p.b98" }; c.sc.file("/sim/work/p.b98", cascade(r, rows, ""));
	c.check = [](const Result& x) -> std::string { std::string s = sanity(x); if(!s.empty()) return s; return diff("split: the meaning of a letter in the new IP", "2 2 ", x.out()); };
	return c;
}
// trees of splits going on at the same time, in one to three universes: all ids differ
static Case split_trees(Rng& r){
	Case c; bool native = r.pct(70); int U = 1 + (int)r.below(3); size_t total = 0; std::string list;
	for(int u = 0; u < U; ++u){
		Canvas cv; std::vector<size_t> in{ 0 }; size_t ips = 1, all = 0, most = (size_t)(36 / U); int depth = 1 + (int)r.below(5);
		for(int y = 0; y <= depth; ++y){
			size_t x = in.back() + 1; for(size_t i : in) cv.put(i, (size_t)y, ">"); std::vector<size_t> next; size_t b = y == depth ? 0 : 1 + r.below(3); all += ips; while(b && all + ips * b > most) --b;
			for(size_t i = 0; i < b; ++i){ if(r.pct(40)){ size_t k = 1 + r.below(6); cv.put(x, (size_t)y, std::string(k, 'z')); x += k; } cv.put(x, (size_t)y, "#vt"); next.push_back(x + 1); x += 3; }
			cv.put(x, (size_t)y, (r.pct(50) ? std::string(r.below(20), 'z') : std::string()) + "8y.@"); ips *= b; if(!b) break; in = next;
		}
		if(cv.rows.size() < 2) cv.put(0, 1, "z");
		total += all; std::string name = fmt("u%d.b98", u); c.sc.file("/sim/work/" + name, cv.text()); list += name + "\n"; c.note += cv.text() + "\n";
	}
	std_files(c.sc); c.sc.argv = { "funge" }; if(native) c.sc.argv.push_back("-fthreads=native");
	if(U == 1) c.sc.argv.push_back("u0.b98"); else { c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv"); }
	add_noise(r, c.sc); c.sc.max_points = 200000000; c.kind = fmt("trees of splits, %s", native ? "native threads" : "turns"); c.nontrivial = total > 1; c.multi = true; c.schedules = 4;
	c.check = [total](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s; std::set<std::string> seen; size_t n = 0; std::set<u32> tids; for(auto& e : x.ev) if(e.kind == E_STDOUT) tids.insert(e.tid);
		for(u32 t : tids){
			std::string o = x.out(t); size_t i = 0;
			while(i < o.size()){ size_t e = o.find(' ', i); if(e == std::string::npos) return "output: " + quote(o); std::string id = o.substr(i, e - i); if(id.find_first_not_of("0123456789") != std::string::npos || id.empty()) return "output: " + quote(o); i = e + 1; ++n; if(!seen.insert(id).second) return "ids: the id " + id + " belongs to two IPs"; }
		}
		if(n != total) return fmt("split: %zu IPs instead of %zu", n, total);
		return "";
	};
	return c;
}
// an IP splits while hover, inversion or queue mode is on: the new IP goes back over the code before the split
static Case split_modes(Rng& r){
	Case c; c.kind = "split in another mode"; c.schedules = 2; Wild w; w.cfg.standard = 98; w.cfg.dims = 2; flags_for(r, w); w.cfg.args = { "p.b98" };
	bool select = r.pct(40);   // the split comes while a lower stack is the selected one
	auto code = [&](u32 n){ std::string s; while(n--) s += select ? r.pickc("1234567890.....:$+-*\\z:IDI.") : r.pickc("1234567890.....:$+-*\\z:"); return s; };
	if(select){
		c.kind = "split with a lower stack selected"; std::string s; u32 n = 1 + r.below(3); while(n--) s += code(1 + r.below(5)) + (r.pct(60) ? "0{" : "2{");
		s += load("FISH") + code(r.below(4)) + (r.pct(60) ? "D" : "DD") + code(r.below(5)) + "#@" + code(2 + r.below(8)) + (r.pct(80) ? "t" : "2kt") + code(2 + r.below(8)) + "....I..I..@";
		w.text = s + "\nz\n"; finish_wild(r, c, w, "p.b98", std::make_shared<Model>()); c.note = w.text; return c;
	}
	std::string s = code(r.below(6)) + load("MODE"); u32 k = 1 + r.below(3); bool h = r.pct(70); while(k--) s += h ? (h = false, 'H') : r.pickc("HIQ"); 
	if(r.pct(30)) s += r.pick(std::vector<std::string>{ ">", "10x", "02-0x", ">>", "10x>" });   // faster, while hovering
	s += code(r.below(8)) + "#@" + std::string(r.below(3), 'z') + code(1 + r.below(9)) + (r.pct(70) ? "t" : r.pct(50) ? "2kt" : "tzt") + code(r.below(9)) + "8y.@";
	w.text = s + "\nz\n"; finish_wild(r, c, w, "p.b98", std::make_shared<Model>()); c.note = w.text; return c;
}
static Case c02(Rng& r, int tier){
	if(r.pct(12)) return split_modes(r);
	if(r.pct(1)) return split_meanings(r);
	if(r.pct(12)) return split_trees(r);
	if(r.pct(35)){
		Mix m = mix_of(r); m.stst += 8; m.split += 4; m.fing += 4; m.out += 6;
		return wild_case(r, m, std_snippets(r), "wild programs with blocks and fingerprints", false);
	}
	Case c; bool native = r.pct(50), fing = r.pct(60); Wild w; w.cfg.standard = 98; w.cfg.dims = 2; flags_for(r, w);
	for(auto& f : w.flags) if(f == "-fthreads=funge") f = "";
	if(native){ w.flags.push_back("-fthreads=native"); }
	std::vector<std::string> fl; for(auto& f : w.flags) if(!f.empty()) fl.push_back(f);
	w.flags = fl;
	std::vector<std::pair<std::string, std::string>> rows; u32 n = 2 + r.below(5);
	for(u32 i = 0; i < n; ++i) rows.push_back({ setup_code(r, fing, !native), show_code(r, fing, !native) });
	w.text = cascade(r, rows, native ? "'\xf0,8y." : "8y.");
	w.cfg.args = { "p.b98" }; c.schedules = native ? 4 : 2; c.kind = native ? "rows splitting, native threads" : "rows splitting, turns";
	auto m = std::make_shared<Model>(); finish_wild(r, c, w, "p.b98", m); c.note = w.text; if(!c.valid) return c;
	c.nontrivial = m->splits > 0;
	if(m->ips.size() > 40){ c.valid = false; c.kind = "too many IPs"; return c; }
	if(!native) return c;
	for(auto& k : m->ip_out) (void)k;
	auto kids = std::make_shared<std::vector<std::vector<u64>>>(m->next_id);
	for(auto& ip : m->ips) if(ip->parent >= 0) (*kids)[(size_t)ip->parent].push_back(ip->id);
	// cells are only read: what an IP prints depends on nothing another one does
	for(int i : { (int)'p', (int)'s', (int)'q', (int)'i', (int)'o' }) if(m->used.count(i)){ c.valid = false; c.kind = "IPs share cells"; return c; }
	if(m->used_iipc){ c.valid = false; c.kind = "IPs share stacks"; return c; }
	size_t total = m->ips.size(); int code = m->exit_code();
	c.check = [m, kids, total, code](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		std::string ids; s = per_ip(*m, x, *kids, &ids); if(!s.empty()) return s;
		std::set<std::string> seen; size_t at = 0; while(at < ids.size()){ size_t e = ids.find(' ', at); std::string id = ids.substr(at, e - at); at = e + 1; if(!seen.insert(id).second) return "ids: the id " + id + " belongs to two IPs"; }
		size_t made = 0; for(auto& e : x.ev) if(e.kind == E_THREAD) ++made;
		if(made != total + 1) return fmt("split: %zu threads of IPs instead of %zu", made - 1, total);
		if(x.exit_code != code) return fmt("exit code: %d instead of %d", x.exit_code, code);
		return "";
	};
	return c;
}
static Reg r02("C02", "IPs that set up blocks, storage offsets and fingerprints, split, and show everything they have on both sides of the split; turn-taking programs must equal the model, native-thread programs must print per IP what the model prints and never the same id twice; non-trivial: at least one split", c02);

// ---- C20
static SysRes sysres(Rng& r){ SysRes s{}; u32 k = r.below(10); s.status = k < 4 ? 0 : k < 7 ? (int)(r.below(256) << 8) : k == 7 ? (int)(1 + r.below(15)) : k == 8 ? -1 : 127 << 8; s.latency = r.pct(50) ? 0 : r.below(3000000); return s; }
static std::string perl_code(Rng& r){ std::string s; u32 n = 1 + r.below(14); if(r.pct(8)) n = 30 + r.below(500); for(u32 i = 0; i < n; ++i) s += r.pct(50) ? (char)('a' + r.below(26)) : r.pickc("'\"\\$`;&|<>(){}*?#~!%+-= 0123456789,.^@[]:/"); return s; }
static Case c20(Rng& r, int){
	std::vector<std::string> sn = std_snippets(r); u32 k = 1 + r.below(6); Case c; bool perl = r.pct(50);
	for(u32 i = 0; i < k; ++i){
		std::string cmd; u32 n = 1 + r.below(10); bool high = r.pct(10); if(r.pct(15)) n = r.pct(40) ? 100 + r.below(900) : 30 + r.below(100);
		for(u32 j = 0; j < n; ++j) cmd += r.pct(60) ? (char)('a' + r.below(26)) : high ? (char)(128 + r.below(128)) : r.pickc("'\"\\$`;&| <>()*?-\n\t");
		sn.push_back(pushes(cmd) + "=."); sn.push_back(pushes(cmd) + "=.");
		if(perl){ sn.push_back(load("PERL")); sn.push_back(pushes(perl_code(r)) + "I."); sn.push_back(pushes(perl_code(r)) + "E,,,"); sn.push_back("S."); }
	}
	u32 form = r.below(3);
	Wild w; w.cfg.standard = 98; w.cfg.dims = 2;
	u32 ns = r.below(12); for(u32 i = 0; i < ns; ++i) c.sc.sys.push_back(sysres(r));
	c.schedules = 2;
	if(form == 0){ Mix m = mix_of(r); m.exec = 2; m.fing = 1; w = wild(r, m, (int)r.range(30, 70), (int)r.range(4, 14), true, sn); flags_for(r, w); c.kind = "wild programs with commands"; }
	else {
		std::vector<std::string> rows; u32 n = 1 + r.below(4);
		for(u32 i = 0; i < n; ++i){ std::string s; u32 q = 1 + r.below(6); if(perl) s += load("PERL"); for(u32 j = 0; j < q; ++j) s += r.pct(70) ? sn[sn.size() - 1 - r.below(k * (perl ? 6 : 2))] : num((i64)r.below(200)) + "."; rows.push_back(s + "@"); }
		w.text = staircase(rows); flags_for(r, w); c.kind = perl ? "rows of commands and perl code" : "rows of commands";
	}
	w.cfg.args = { "p.b98" };
	finish_wild(r, c, w, "p.b98", std::make_shared<Model>());
	for(auto& q : c.probes) if(q.first == "commands") c.nontrivial = q.second > 0;
	c.note = w.text; 
	auto inner = c.check; 
	c.check = [inner](const Result& x) -> std::string {
		std::string s = inner(x); if(!s.empty()) return s;
		// to completion before anything else of that IP: no output of the thread between start and end of a command
		std::map<u32, bool> busy; for(auto& e : x.ev){ if(e.kind == E_SYSTEM) busy[e.tid] = true; else if(e.kind == E_SYSDONE) busy[e.tid] = false; else if(e.kind == E_STDOUT && busy[e.tid]) return "order: output while a command was running"; }
		return "";
	};
	return c;
}
static Reg r20("C20", "programs executing commands and perl code with scripted results and latencies against the model: the commands, in order and byte by byte, and the results; non-trivial: at least one command", c20);
} // namespace drv
