// C08: multiverse files.  C13: file input.  C14: file output.  C15: directories and channel files.  C21: loading.
#include "native.h"
#include <algorithm>
#include <cerrno>
#include <sys/stat.h>
namespace drv {
static std::string delay(Rng& r){ std::string s; u32 n = r.pct(50) ? r.below(4) : r.below(30); while(n--) s += r.pct(60) ? "z" : "1$"; return s; }
static int some_errno(Rng& r, bool write){ static const int rd[] = { EIO, EACCES, EMFILE, ENFILE, ELOOP, ENOMEM, EPERM }, wr[] = { ENOSPC, EIO, EDQUOT, EFBIG, EROFS, EACCES }; return write ? wr[r.below(6)] : rd[r.below(7)]; }
// makes reading a file fail; false: not possible this way
static void unreadable(Rng& r, Scenario& sc, const std::string& path, std::string* how = nullptr){
	for(auto& f : sc.files) if(f.path == path){
		switch(r.below(6)){
			case 0: f.path += ".moved"; if(how) *how = "missing"; return;
			case 1: f.dir = true; f.data.clear(); if(how) *how = "a directory"; return;
			case 2: f.mode = 0; if(how) *how = "not permitted"; return;
			case 3: sc.fault(OP_OPEN, F_ERR, 0xffffffffu, some_errno(r, false), 0, path.substr(std::max<i64>(0, (i64)path.size() - 60))); if(how) *how = "open fails"; return;
			default: { i64 off = r.pct(25) ? (i64)f.data.size() : (i64)r.below((u32)f.data.size() + 1); sc.fault(OP_READ, F_ERR_AT, 0xffffffffu, r.pct(70) ? EIO : EISDIR, off, path.substr(std::max<i64>(0, (i64)path.size() - 60))); if(how) *how = fmt("read error at byte %lld of %zu", (long long)off, f.data.size()); return; }
		}
	}
}
// ---- C08
namespace { struct Line { std::string path; int prog; std::vector<std::string> args; }; }
static Case c08(Rng& r, int tier){
	Case c; c.schedules = 3; std_files(c.sc); u32 form = r.below(10); bool ring = form < 2, failing = form >= 7, native = r.pct(25); c.sc.argv = { "funge" }; if(native) c.sc.argv.push_back("-fthreads=native");
	std::string dir = r.pct(25) ? "sub/" : ""; std::vector<Line> lines; std::map<std::string, std::string> files; std::vector<std::string> fmvs;
	std::vector<std::string> common{ dir + "m.fmv" }; { u32 n = r.below(3); for(u32 i = 0; i < n; ++i) common.push_back(fmt("common%u", i)); }
	int P = ring ? (int)r.range(2, 5) : (int)r.range(1, 4); std::vector<std::string> dirs{ dir, dir + "d/", dir + "d/e/" };
	std::vector<std::string> pdir; for(int p = 0; p < P; ++p) pdir.push_back(ring ? dir : r.pick(dirs));
	// what a program is, its name says
	std::vector<int> type((size_t)P, 0); if(!ring) for(int& y : type) if(r.pct(30)) y = (int)r.range(1, 4);
	auto prog_name = [&](int p){ static const char* ext[] = { "b98", "bf", "fish", "beq", "sf" }; return fmt("p%d.%s", p, type[(size_t)p] ? ext[type[(size_t)p]] : p == 2 ? "txt" : "b98"); };
	std::function<void(const std::string&, const std::string&, std::vector<std::string>, int)> make = [&](const std::string& d, const std::string& name, std::vector<std::string> args, int depth){
		std::string t; u32 n = ring ? (u32)P : r.below(depth ? 4 : tier ? 8 : 6) + (depth ? 0 : 1);
		for(u32 i = 0; i < n && lines.size() < 10; ++i){
			if(r.pct(15)) t += r.pct(50) ? "\n" : "  \t \n";
			auto a = args; std::string tail; u32 k = ring ? 0 : r.below(4); for(u32 j = 0; j < k; ++j){ std::string s = r.pct(80) ? fmt("a%u", r.below(100)) : std::string(1, r.pickc("-+.=@#\"'")) ; a.push_back(s); tail += std::string(1 + r.below(2), r.pickc(" \t")) + s; }
			if(r.pct(20)) tail += " ";
			if(r.pct(10)) tail += "\r";
			std::string lead = r.pct(15) ? " " : "";
			if(!ring && depth < 2 && d.size() < dirs[2].size() && r.pct(22)){
				std::string sub = d == dirs[0] ? "d/" : "e/", nm = fmt("n%zu.fmv", fmvs.size() + 1); if(r.pct(30)) sub = "";
				fmvs.push_back(d + sub + nm); t += lead + sub + nm + tail + "\n"; make(d + sub, nm, a, depth + 1); continue;
			}
			int p = ring ? (int)i : (int)r.below((u32)P); std::string want = pdir[(size_t)p] + prog_name(p), rel;
			bool inside = want.compare(0, d.size(), d) == 0;
			if(!ring && r.pct(inside ? 8 : 100)){ rel = "/sim/work/" + want; lines.push_back({ rel, p, a }); }
			else { rel = want.substr(d.size()); lines.push_back({ want, p, a }); }
			t += lead + rel + tail + (r.pct(95) || i + 1 < n ? "\n" : "");
		}
		files[d + name] = t;
	};
	make(dir, "m.fmv", common, 0);
	if(lines.empty()){ files[dir + "m.fmv"] += "\n" + std::string("/sim/work/") + pdir[0] + prog_name(0) + "\n"; lines.push_back({ "/sim/work/" + pdir[0] + prog_name(0), 0, common }); }
	size_t U = lines.size(); env_of(r, c.sc);
	// the programs
	std::vector<std::string> text((size_t)P); std::vector<int> codes((size_t)P, 0); std::vector<std::vector<Exp>> own((size_t)P);
	std::vector<std::string> fish_out((size_t)P);
	for(int p = 0; p < P; ++p){
		int ty = type[(size_t)p];
		if(ty == 1 || ty == 2 || ty == 4){
			std::string s; u32 n = 1 + r.below(8); int k = 0;
			for(u32 j = 0; j < n; ++j){ int d = (int)r.below(10); if(ty == 1) s += r.pick(std::vector<std::string>{ "12+.", ":.", "\"ba\",,", "y", "#@", "\"  a\"..." }); else if(r.pct(30)){ s += r.pick(std::vector<std::string>{ "'  a'o~~", "\"x\"o" }); fish_out[(size_t)p] += s.back() == 'o' ? "x" : "a"; } else { s += fmt("%dn", d); fish_out[(size_t)p] += fmt("%d", d); } (void)k; }
			s += ty == 1 ? "@" : ";"; text[(size_t)p] = s + (ty == 1 ? "\n#@\nz\n" : "\n"); files[pdir[(size_t)p] + prog_name(p)] = text[(size_t)p]; continue;
		}
		std::string s = load("MVRS");
		if(ring){
			s += delay(r) + "1" + xy(9, 9) + "p" + pushes(dir + prog_name((p + 1) % P)) + xy(9, 8) + "0" + xy(9, 9) + "11P" + wait_cell(9, 8, 1) + num(p) + "."; 
		}else{
			u32 n = 1 + r.below(8);
			for(u32 j = 0; j < n; ++j) switch(r.below(6)){
				case 0: s += "N>:#,_$"; break;
				case 1: s += delay(r); break;
				case 2: s += native ? "7y." : "8y."; break;
				default: s += num(r.pct(70) ? r.range(24, 70) : r.range(2, 7)) + "y" + (r.pct(50) ? "." : ","); break;
			}
		}
		if(r.pct(50)){ codes[(size_t)p] = (int)r.below(256); s += num(codes[(size_t)p]) + "q"; } else s += "@";
		text[(size_t)p] = s + "\n" + std::string(4, '\n') + "z\n"; if(ty == 3){ files[pdir[(size_t)p] + prog_name(p)] = "Version 1,Dimensions 2,Lines 6\n" + text[(size_t)p]; continue; } files[pdir[(size_t)p] + prog_name(p)] = text[(size_t)p];
	}
	for(auto& d : dirs) if(!d.empty()) c.sc.dir("/sim/work/" + d.substr(0, d.size() - 1));
	for(auto& f : files){ c.sc.file("/sim/work/" + f.first, f.second); c.note += "--- " + f.first + "\n" + f.second; }
	for(size_t i = 0; i < common.size(); ++i) c.sc.argv.push_back(common[i]);
	add_noise(r, c.sc); c.sc.max_points = 200000000; c.probes["universes"] += U; c.probes["multiverse files"] += 1 + fmvs.size();
	if(failing){
		std::vector<std::string> cand{ dir + "m.fmv" }; for(auto& f : fmvs) cand.push_back(f); for(auto& l : lines) cand.push_back(l.path[0] == '/' ? l.path.substr(10) : l.path);
		std::string victim = r.pick(cand), how; 
		if(r.pct(20)){ c.sc.fault(OP_THREAD, F_ERR, r.below((u32)(native ? 2 * U : U)), EAGAIN); how = "threads"; c.kind = "thread creation fails"; }
		else { unreadable(r, c.sc, "/sim/work/" + victim, &how); c.kind = "a listed file fails"; }
		c.note = victim + ": " + how + "\n" + c.note; bool thr = how == "threads";
		c.check = [thr](const Result& x) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s;
			if(thr ? x.exit_code == 0 : x.exit_code != EIO) return fmt("exit code: %d after a failure", x.exit_code);
			if(x.err().empty()) return "report: nothing was said about the failure";
			return "";
		};
		return c;
	}
	c.kind = ring ? "universes waiting for each other" : fmvs.empty() ? "programs with arguments" : "nested multiverse files";
	std::map<std::string, int> names; std::set<std::string> taken; std::vector<std::string> want; std::vector<int> progs;
	for(size_t i = 0; i < U; ++i){
		std::string n = lines[i].path; for(int k = 1; taken.count(n); ++k) n = lines[i].path + "." + std::to_string(k); taken.insert(n);
		if(ring){ want.push_back(fmt("%d ", lines[i].prog)); continue; }
		int ty = type[(size_t)lines[i].prog]; if(ty == 2 || ty == 4){ want.push_back(fish_out[(size_t)lines[i].prog]); continue; }
		auto m = std::make_shared<Model>(); UniCfg u; u.standard = ty == 1 ? 93 : 98; u.dims = 0; u.native = native; u.name = n; u.args = lines[i].args; m->env = c.sc.env; m->next_id = i; m->add(u, text[(size_t)lines[i].prog]); m->start(*m->unis[0]); m->run();
		if(!m->valid){ c.valid = false; c.kind = m->why; return c; }
		want.push_back(m->out);
	}
	int code = codes[(size_t)lines[0].prog];
	c.check = [want, code, U, native](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		std::vector<u32> tids; for(auto& e : x.ev) if(e.kind == E_THREAD && e.tid == 0) tids.push_back((u32)e.a);
		if(tids.size() != (native ? 2 * U : U)) return fmt("universes: %zu threads were started for %zu lines", tids.size(), U);
		for(size_t i = 0; i < U; ++i){ s = diff(fmt("output of line %zu", i), want[i], x.out(tids[native ? U + i : i])); if(!s.empty()) return s; }
		if(x.exit_code != code) return fmt("exit code: %d instead of %d", x.exit_code, code);
		return "";
	};
	return c;
}
static Reg r08("C08", "random multiverse files (order, duplicates, arguments, blank lines, nesting and directories, relative and absolute paths) whose programs print their name, arguments and environment or wait for each other; failures of every file at every byte and of threads; non-trivial: all", c08);

// ---- C21
static std::string num93(i64 n){ if(n < 10) return std::string(1, (char)('0' + n)); return num93(n / 9) + "9*" + (n % 9 ? std::string(1, (char)('0' + n % 9)) + "+" : ""); }
static std::string content(Rng& r, bool planes, u32 lines){
	std::string s; for(u32 i = 0; i < lines; ++i){ u32 w = r.pct(10) ? 0 : r.below(r.pct(10) ? 400 : 24); for(u32 x = 0; x < w; ++x){ u32 k = r.below(20); s += k < 4 ? ' ' : k < 17 ? (char)r.range(33, 126) : (char)r.range(128, 255); } if(r.pct(3)) s += '\0'; if(r.pct(2)) s += (char)r.range(1, 8); if(planes && r.pct(25)) s += r.pct(60) ? "\f" : "\v"; s += r.pct(70) ? "\n" : r.pct(50) ? "\r\n" : "\r"; }
	if(r.pct(30) && !s.empty()) s.pop_back();
	return s;
}
static Case c21(Rng& r, int tier){
	Case c; c.schedules = 2; std_files(c.sc); c.sc.argv = { "funge" }; u32 f = r.below(10); bool failing = r.pct(45);
	static const char* exts[] = { "bf", "b98", "b98", "beq", "fl", "fish", "sf", "txt", "b98", "bf" }; std::string ext = exts[f], name = std::string(r.pct(20) ? "d/p." : "p.") + ext; c.sc.dir("/sim/work/d");
	int dims = 0; bool old = ext == "bf", fish = ext == "fish" || ext == "sf", torus = false;
	if(!fish && ext != "beq" && ext != "fl" && r.pct(40)){ static const char* st[] = { "be98", "tre98", "une98", "be93", "une93" }; u32 k = r.below(5); c.sc.argv.push_back(std::string("-std=") + st[k]); static const int ds[] = { 2, 3, 1, 2, 1 }; dims = ds[k]; old = torus = k >= 3; }
	if(fish) dims = 2;
	u32 nl = r.pct(10) ? 0 : 1 + r.below(tier ? 40 : 12); std::string body; Space sp; std::vector<std::pair<V4, i64>> placed;
	std::string text, codemark = "\x01"; 
	if(ext == "beq"){
		// planes with blocks; the code is in the first
		int D = (int)r.range(2, 4); std::vector<std::string> blocks; int nb = (int)r.below(6);
		text = fmt("Version 1,Dimensions %d\nLines 1,Origin 0:0,Coord 0:\n", D) + codemark + "\n"; dims = D;
		for(int b = 0; b < nb; ++b){
			int n = (int)r.range(1, 4); i64 ox = r.range(-9, 20), oy = r.range(1, 9), z = D > 2 ? r.range(-2, 3) : 0, w = D > 3 ? r.range(-1, 2) : 0;
			text += fmt("Lines %d,Origin %lld:%lld,Coord %lld:", n, (long long)ox, (long long)oy, (long long)z) + (D > 3 ? fmt("%lld:", (long long)w) : "") + "\n";
			for(int i = 0; i < n; ++i){ std::string row; u32 len = r.below(16); for(u32 x = 0; x < len; ++x) row += (char)r.range(33, 126); for(u32 x = 0; x < len; ++x) sp.cells[V4{{ ox + x, oy + i, z, w }}] = row[x]; text += row + (b + 1 < nb || i + 1 < n || r.pct(50) ? "\n" : ""); }
		}
	}else if(ext == "fl"){
		dims = 3; text = codemark + "\n"; i64 y = 1, z = 0; for(u32 i = 0; i < nl; ++i){ if(r.pct(25)){ z = r.below(26); if(z == 0) z = 5; y = 0; text += fmt("=%c\n", (char)('A' + z)); continue; } std::string row; u32 len = r.below(20); for(u32 x = 0; x < len; ++x) row += (char)r.range(33, 126); if(row.size() == 2 && row[0] == '=') row = "xx"; for(u32 x = 0; x < row.size(); ++x) sp.cells[V4{{ (i64)x, y, z, 0 }}] = row[x]; ++y; text += row + (i + 1 < nl || r.pct(50) ? "\n" : ""); }
	}else{
		body = content(r, r.pct(40), nl); text = codemark + "\n" + body; Model::parse(sp, text, V4{{0,0,0,0}}, dims, false, false); sp.cells.erase(V4{{0,0,0,0}});
	}
	if(!fish && !dims){ dims = 1; for(auto& k : sp.cells) for(int i = 0; i < 4; ++i) if(k.first[i] && i + 1 > dims) dims = i + 1; }
	// which cells to show
	std::vector<V4> at; std::vector<V4> all; for(auto& k : sp.cells) if(k.first[1] != 0 || k.first[2] != 0 || k.first[3] != 0) all.push_back(k.first);
	std::string code, want; u32 budget = old || torus ? 76 : 3000;
	for(u32 i = 0; i < (old ? 8u : 60u); ++i){
		V4 v{{0,0,0,0}}; if(!all.empty() && r.pct(75)) v = r.pick(all); else { v[0] = (i64)r.below(30); v[1] = 1 + (i64)r.below(10); }
		for(int d = dims; d < 4; ++d) if(v[d]) v = V4{{ (i64)r.below(20), dims > 1 ? 1 : 0, 0, 0 }};
		if(dims < 2) continue;
		std::string s; for(int d = 0; d < dims; ++d) s += old ? (v[d] < 0 ? "?" : num93(v[d])) : num(v[d]);
		bool number = r.pct(35); s += fish ? number ? "gn" : "go" : number ? "g." : "g,"; if(code.size() + s.size() + 2 > budget || s.find('?') != std::string::npos) continue;
		code += s; i64 ch = sp.get(v); if(number) want += fmt(fish ? "%d" : "%d ", torus ? (int)(signed char)ch : (int)ch); else want += (char)ch;
	}
	if(r.pct(30) && !fish && !old){ int q = (int)r.below(256); code += num(q) + "q"; c.probes["codes"] = 0; c.note = fmt("exit %d\n", q); } else code += fish ? ";" : "@";
	int code_exit = 0; if(!c.note.empty()) code_exit = atoi(c.note.c_str() + 5);
	// the length of the code must not move anything else: it is alone on its line
	text.replace(text.find(codemark), 1, code);
	c.sc.file("/sim/work/" + name, text); c.sc.argv.push_back(name); c.note += text; add_noise(r, c.sc); c.sc.max_points = 100000000; if(r.pct(50)) c.sc.read_chunk = 1 + r.below(9);
	c.kind = "." + ext + (failing ? ", cannot be loaded" : "");
	if(failing){
		std::string how; unreadable(r, c.sc, "/sim/work/" + name, &how); c.note = how + "\n" + c.note;
		c.check = [](const Result& x) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s;
			if(x.exit_code == 0) return "exit code: 0 although the program could not be loaded";
			if(!x.out().empty()) return "output: a program that could not be loaded printed " + quote(x.out());
			if(x.err().empty()) return "report: nothing was said about the failure";
			return "";
		};
		return c;
	}
	if(ext == "beq" && r.pct(30)){
		// damaged: whatever it makes of it, it does not crash
		auto& d = c.sc.files.back().data; u32 n = 1 + r.below(4); for(u32 i = 0; i < n && !d.empty(); ++i){ size_t at = d.rfind(r.pct(50) ? "\nL" : ",", r.below((u32)d.size())); if(at == std::string::npos) at = 0; at += r.below(24); if(at >= d.size()) continue; switch(r.below(4)){ case 0: d.erase(at, 1 + r.below(6)); break; case 1: d[at] = r.pickc(" :,-x9\n0"); break; case 2: d.insert(at, r.pct(50) ? "99999999999999999999" : "::"); break; default: d.resize(at); } }
		c.note = d; c.kind = ".beq, damaged"; c.sc.max_points = 3000000;
		c.check = [](const Result& x) -> std::string { if(x.outcome == O_STEPS || x.outcome == O_EXIT || x.outcome == O_WAITIN || x.outcome == O_MEMGROW) return ""; return "crash: " + x.describe(); };
		return c;
	}
	if(want.empty()) c.nontrivial = false;
	c.check = [want, code_exit](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		s = diff("cells", want, x.out()); if(!s.empty()) return s;
		if(x.exit_code != code_exit) return fmt("exit code: %d instead of %d", x.exit_code, code_exit);
		return "";
	};
	return c;
}
static Reg r21("C21", "random program files in all formats, delivered in pieces, that print sampled cells of themselves; and the same files missing, unreadable, directories or failing at any byte; non-trivial: a failure or at least one cell shown", c21);
} // namespace drv
