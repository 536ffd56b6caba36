// C16: capabilities switched off on the command line.
#include "native.h"
#include <algorithm>
namespace drv {
namespace {
// a program whose first IP goes from universe to universe, trying instructions in each; the text is the same in all of them
struct Trip { GRow g; int lead; };
std::string lib_text(){
	return "=T\n#@t'!,@\n=X\n#@='!,@\n=A\n#@i'!,@\n=O\n#@o'!,@\n=Y\n1y@\n=D\n\"FRID\"4($$#@M'!,@\n=Q\n\"LREP\"4($$#@I'!,@\n=U\n\"SRVM\"4($$B@\n=W\n\"FRID\"4($$#@C'!,@\n=Z\n\"FRID\"4($$#@R'!,@\n";
}
}
static Case starfish(Rng& r){
	Case c; std_files(c.sc); bool fs = r.pct(40); c.kind = fs ? "starfish, allowed" : "starfish, file access off"; c.sc.argv = { "funge" }; if(!fs) c.sc.argv.push_back("-fno-filesystem"); c.sc.argv.push_back("p.sf");
	std::string name(1 + r.below(3), (char)('a' + r.below(4))), pre, want; u32 w = r.below(4); for(u32 i = 0; i < w; ++i){ pre += fmt("%un", i); want += std::to_string(i); }
	std::string t = pre + "\"" + name + "\"" + std::to_string(name.size()) + "F9n" + (r.pct(50) ? "\"zz\"2F" : "") + ";\n"; bool writes = t.find("zz") != std::string::npos; if(fs) want += "9";
	c.sc.file("/sim/work/p.sf", t); if(r.pct(50)) c.sc.file("/sim/work/" + name, "contents\n"); c.note = t; add_noise(r, c.sc);
	auto before = c.sc.files;
	c.check = [=](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		s = diff("output", want, x.out()); if(!s.empty()) return s; if(x.exit_code != (fs ? 0 : 1)) return fmt("exit code: %d", x.exit_code);
		if(fs) return "";
		if(x.err().find("something smells fishy") == std::string::npos) return "message: " + quote(x.err());
		for(auto& e : x.ev) if((e.kind == E_OPEN && e.s.find(".sf") == std::string::npos) || e.kind == E_FSOP) return "file access: " + e.s; (void)writes;
		for(auto& f : before){ auto g = x.fs.find(f.path); if(g == x.fs.end() || g->second.data != f.data) return "file access: " + f.path + " has changed"; }
		return "";
	};
	return c;
}
static Case c16(Rng& r, int tier){
	if(r.pct(6)) return starfish(r);
	Case c; std_files(c.sc); const std::string W = "/sim/work/"; c.sc.argv = { "funge" }; bool native = r.pct(45); UniCfg u; u.standard = 98; u.dims = 2; u.native = native;
	auto flag = [&](const char* n, bool& v){ v = r.pct(45); std::vector<std::string> f; if(!v || r.pct(10)) f.push_back(std::string(v ? "-f" : "-fno-") + n); if(r.pct(8)) f.insert(f.begin(), std::string(v ? "-fno-" : "-f") + n), f.size() == 1 ? f.push_back(std::string(v ? "-f" : "-fno-") + n) : (void)0; for(auto& x : f) c.sc.argv.push_back(x); };
	flag("execute", u.exec); flag("filesystem", u.fs); flag("concurrent", u.conc); if(native) c.sc.argv.push_back("-fthreads=native"); else if(r.pct(10)) c.sc.argv.push_back("-fthreads=funge");
	int L = (int)r.range(1, 3), K = L > 1 && r.pct(40) ? L : 1; c.sc.file("/sim/fing/ZCAP.fl", lib_text()); c.sc.file(W + "data", "hello\n");
	std::vector<std::vector<std::string>> lines; std::vector<int> start((size_t)L, -1); int made = 0; u64 tries = 0; std::set<size_t> split_tags;
	for(int k = 0; k < K; ++k){
		int segs = (int)r.range(1, tier ? 6 : 4), where = k, base = (int)lines.size(); start[(size_t)k] = base; std::vector<std::string> known; (void)where;
		std::vector<GRow> gs; std::vector<std::string> created; int names = 0;
		for(int s = 0; s < segs; ++s){
			GRow g; char letter = (char)(tag(k) + 15); int row = 1 + base + 2 * s;
			if(s == 0) g.code(load("PERL") + load("DIRF") + load("ZCAP") + load("MVRS") + "n");
			int n = (int)r.range(1, tier ? 8 : 5); bool last = s + 1 == segs;
			for(int j = 0; j < n; ++j){
				++tries; std::string ok = mark(k, (int)r.below(12)); bool lib = r.pct(35); std::string d = fmt("d%d_%d", k, names++), z = lib ? "0" : "", at = num(100 + 5 * k) + num(60 + s);
				auto fn = [&](const char* direct, const char* in_lib){ if(lib) g.code(std::string(in_lib) + ok); else g.guard(direct, ok, letter); };
				switch(r.below(10)){
					case 0: case 1: g.code(pushes(fmt("cmd %d", names))); fn("=", "X"); break;
					case 2: g.code(pushes(fmt("print %d", names))); if(lib) g.code("Q" + ok); else g.guard(r.pct(50) ? "I" : "E", ok, letter); break;
					case 3: case 4: g.code(at + z + "1" + pushes(r.pct(70) ? "data" : r.pct(50) ? "missing" : fmt("d%d_0", k))); fn("i", "A"); break;
					case 5: g.code(std::string("2") + "1" + (lib ? "1" : "") + "0" + num(lib ? 0 : row) + (lib ? num('T' - 'A') : "") + "0" + pushes(d)); fn("o", "O"); break;
					case 6: g.code(pushes(d)); fn("M", "D"); break;
					case 7: if(r.pct(40)){ g.code(pushes(r.pct(80) ? "missing" : "data")); if(r.pct(50) && !lib) g.guard("R", ok, letter); else fn("C", "W"); }   // on something that is no directory
						else if(r.pct(60)){ std::string e = fmt("e%d_%d", k, names); if(r.pct(90)) c.sc.dir(W + e, 3); g.code(pushes(e)); fn("R", "Z"); }
						else { g.code(pushes(".")); fn("C", "W"); }
						break;
					case 8: g.code("1y" + emit2(k)); break;
					default: g.code("Y" + emit2(k));
				}
				g.code("n");
				if(lib && r.pct(30)){ g.code("Tn"); }
			}
			if(!last){   // on to another universe
				std::string to;
				if(r.pct(45)){ to = fmt("new%d", made++); g.code(pushes(to) + "0" + (r.pct(50) ? "2" : "0") + (r.pct(50) ? "2" : "2") + (r.pct(35) ? "U" : "B")); created.push_back(to); }
				else if(!created.empty() && r.pct(40)) to = r.pick(created);
				else if(L > 1 && K == 1) to = fmt("u%d.b98", (int)r.below((u32)L));
				else { to = fmt("new%d", made++); g.code(pushes(to) + "0" + "0" + "2B"); created.push_back(to); }
				int ny = row + 2; 
				if(to[0] == 'n') g.code(pushes(to) + num(0) + num(ny) + "0" + num(0) + num(ny) + "@@@@@@@@@@@@@@@@@@@@@@@@" + "n");   // the size comes below, when it is known
				g.code(pushes(to) + num(0) + num(ny) + "0" + "100G");
			}else{
				if(r.pct(60)){ split_tags.insert((size_t)k); g.guard("t", mark(k, 13), letter); }
				g.code("@");
			}
			gs.push_back(g);
		}
		size_t width = 0; for(auto& g : gs) width = std::max(width, g.m.size() + 1);
		for(int s = 0; s < segs; ++s){ auto& g = gs[(size_t)s]; size_t p = g.m.find(std::string(24, '@')); if(p != std::string::npos){ std::string z = num((i64)width) + num(2 * (segs - s - 1)) + "P"; z.resize(24, 'z'); g.m.replace(p, 24, z); } }
		for(auto& g : gs){ lines.push_back({ g.m }); lines.push_back({ g.l }); }
	}
	size_t nl = lines.size(); std::vector<std::string> text((size_t)L); std::string list; Canvas base; for(size_t i = 0; i < nl; ++i) base.put(0, i + 1, "z" + lines[i][0]); base.put(0, nl + 2, "z");
	auto m = std::make_shared<Model>(); m->libs[FP("ZCAP")] = lib_text(); m->max_ticks = 30000; m->max_work = 400000; m->fs = std::make_shared<MFs>(); m->fs->cwd = "/sim/work"; 
	for(int i = 0; i < L; ++i){
		Canvas cv = base; if(start[(size_t)i] >= 0){ cv.put(0, 0, "v"); cv.put(0, (size_t)start[(size_t)i] + 1, ">"); } else cv.put(0, 0, r.pct(50) ? "@" : "z@");
		std::string n = fmt("u%d.b98", i), t = cv.text(); c.sc.file(W + n, t); c.note += "--- " + n + "\n" + (i && K == 1 ? "(the same)\n" : t); list += n + "\n"; UniCfg x = u; x.name = n; if(L == 1) x.args = { n }; m->add(x, t); m->start(*m->unis.back());
	}
	if(L == 1) c.sc.argv.push_back("u0.b98"); else { c.sc.file(W + "m.fmv", list); c.sc.argv.push_back("m.fmv"); }
	for(auto& x : c.sc.files) m->fs->n[x.path] = MFs::Node{ x.dir, x.data, (int)x.mode }; for(std::string d : { std::string("/"), std::string("/sim"), std::string("/sim/work") }) if(!m->fs->n.count(d)) m->fs->n[d] = MFs::Node{ true, "", 3 };
	u32 ns = r.below(4); for(u32 i = 0; i < ns; ++i) c.sc.sys.push_back(SysRes{ r.pct(50) ? 0 : (int)r.below(256) << 8, 0, r.below(2000) }); m->sys = c.sc.sys;
	add_noise(r, c.sc); c.sc.max_points = 200000000; c.schedules = native || K > 1 ? 3 : 2;
	m->run(); if(!m->valid) c.valid = false; c.kind = !c.valid ? m->why : fmt("%s%s%s%s, %s", u.exec ? "" : "no execution ", u.fs ? "" : "no files ", u.conc ? "" : "no splitting ", u.exec && u.fs && u.conc ? "all allowed " : "", native ? "native" : "turns"); c.nontrivial = !(u.exec && u.fs && u.conc);
	c.probes["attempts"] += tries; c.probes["universes created"] += (u64)made; c.probes["transfers"] += m->transfers; c.probes["reflections"] += m->reflects; c.probes["library calls"] += m->lib_calls;
	auto before = c.sc.files;
	c.check = [=](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		u64 cmds = 0; for(auto& e : x.ev){
			if(e.kind == E_SYSTEM){ ++cmds; if(!u.exec) return "execution: a command was run: " + quote(e.s); }
			if(!u.fs && (e.kind == E_OPEN || e.kind == E_FSOP) && e.s.find(".b98") == std::string::npos && e.s.find(".fmv") == std::string::npos && e.s.find("/fing/") == std::string::npos) return "files: access to " + quote(e.s);
		}
		if(cmds != m->commands.size()) return fmt("execution: %llu commands were run instead of %zu", (unsigned long long)cmds, m->commands.size());
		auto split = [&](const std::string& o){ std::vector<std::string> v(9); for(unsigned char ch : o) v[ch < 0x80 ? 8 : (size_t)((ch - 0x80) >> 4)] += ch < 0x80 ? (char)ch : (char)(ch & 15); return v; };
		auto want = split(m->out), got = split(x.out());
		if(native && u.conc) for(auto* v : { &want, &got }) for(size_t t : split_tags){ auto& o = (*v)[t]; if(o.size() >= 2) std::sort(o.end() - 2, o.end()); }
		for(size_t i = 0; i < 9; ++i){ s = diff(i == 8 ? std::string("output of libraries") : fmt("output of IP %zu", i), want[i], got[i]); if(!s.empty()) return s; }
		if(x.exit_code != 0) return fmt("exit code: %d", x.exit_code);
		if(!u.fs){ for(auto& f : before){ auto g = x.fs.find(f.path); if(g == x.fs.end() || g->second.data != f.data || g->second.dir != f.dir) return "files: " + f.path + " has changed"; } for(auto& g : x.fs) if(g.first.compare(0, 10, "/sim/work/") == 0 && !m->fs->n.count(g.first)) return "files: " + g.first + " is new"; }
		else for(auto& f : m->fs->n) if(f.first.compare(0, 10, "/sim/work/") == 0){ auto g = x.fs.find(f.first); if(g == x.fs.end() || g->second.dir != f.second.dir) return "files: " + f.first + " is missing"; }
		return "";
	};
	return c;
}
static Reg r16("C16", "all combinations of -fno-execute, -fno-filesystem and -fno-concurrent; one IP, or several in universes of their own, go from universe to universe (listed, created at run time by the program or by a library) and try commands, PERL, i, o, DIRF and t directly and through library functions; marks printed, the history of commands and file operations, the file tree and the flags reported must be the model's; non-trivial: something is switched off", c16);
} // namespace drv
