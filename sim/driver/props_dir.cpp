// C15: directories and the file channel of the fish dialect.
#include "native.h"
#include <cerrno>
namespace drv {
static std::string delay(Rng& r){ std::string s; u32 n = r.below(5); while(n--) s += r.pct(60) ? "z" : "1$"; return s; }
static Case dirf(Rng& r, int tier){
	Case c; std_files(c.sc); c.sc.argv = { "funge" }; bool other = r.pct(20), native = r.pct(20); if(native) c.sc.argv.push_back("-fthreads=native");
	const std::string W = "/sim/work"; auto make = [&](bool exist_ok){
		auto f = std::make_shared<MFs>(); f->cwd = W; f->exist_ok = exist_ok; for(auto& x : c.sc.files) f->n[x.path] = MFs::Node{ x.dir, x.data, (int)x.mode };
		for(std::string d : { std::string("/"), std::string("/sim"), W }) if(!f->n.count(d)) f->n[d] = MFs::Node{ true, "", 3 }; return f; };
	std::vector<std::string> tops{ "a", "b", "c" }, all; if(r.pct(8)) tops[1] = std::string(50 + r.below(60), 'b');
	for(auto& t : tops) if(r.pct(60)){ c.sc.dir(W + "/" + t, r.pct(90) ? 3 : 1 + r.below(2)); for(auto& u : tops) if(r.pct(30)) c.sc.dir(W + "/" + t + "/" + u); if(r.pct(30)) c.sc.file(W + "/" + t + "/f", "in " + t + "\n"); }
	if(r.pct(60)) c.sc.file(W + "/f", "a file\n");
	auto path = [&]() -> std::string {
		std::string t = r.pick(tops); std::string p;
		switch(r.below(16)){ case 0: case 1: case 2: case 3: p = t; break; case 4: case 5: case 6: p = t + "/" + r.pick(tops); break; case 7: p = "../" + t; break; case 8: p = ".."; break; case 9: p = W + "/" + t; break; case 10: p = W; break; case 11: p = "f"; break; case 12: p = "f/" + t; break; case 13: p = t + "/f"; break; case 14: p = r.pct(30) ? "" : "../" + t + "/" + r.pick(tops); break; default: p = W + "/" + t + "/" + r.pick(tops); }
		if(r.pct(15)){ std::string u = r.pick(tops); switch(r.below(9)){ case 0: p = u + "/../" + p; break; case 1: p = "./" + p; break; case 2: p += "/."; break; case 3: p = "nosuch/../" + p; break; case 4: { size_t k = p.rfind('/'); if(k != std::string::npos) p.insert(k, "/"); break; } case 5: p = "f/../" + p; break; case 6: p += "/.."; break; case 7: p = "nosuch/./" + p; break; default: p = u + "/" + p; } }
		if(!p.empty() && r.pct(5)) p += "/";
		return p;
	};
	// what fails: an operation on a path, always
	std::set<std::pair<int, std::string>> fails; u32 nf = r.pct(40) ? 0 : 1 + r.below(3);
	for(u32 i = 0; i < nf; ++i){
		static const u32 ops[] = { OP_MKDIR, OP_REMOVE, OP_CHDIR, OP_STAT, OP_OPEN }; static const int errs[] = { EIO, EACCES, EPERM, EROFS, ENOSPC, ENOMEM, EBUSY, ELOOP, ENAMETOOLONG, EDQUOT, EMLINK };
		u32 op = ops[r.below(5)]; std::string t = r.pick(tops), p = W + "/" + (r.pct(60) ? t : t + "/" + r.pick(tops)); int e = errs[r.below(11)];
		if(op == OP_OPEN) p = r.pct(50) ? W + "/" + t + "/f" : W + "/out";
		std::vector<u32> all_ops{ op }; if(op == OP_STAT) all_ops = { OP_STAT, OP_MKDIR, OP_REMOVE, OP_CHDIR };   // who cannot look at it cannot do anything with it
		for(u32 o : all_ops){ fails.insert({ (int)o, p }); c.sc.fault(o, F_ERR, 0xffffffffu, e, 0, p); } c.note += fmt("operation %u on %s fails with %d\n", op, p.c_str(), e);
	}
	int K = native || other || r.pct(40) ? 1 : (int)r.range(2, 4); std::vector<GRow> rows((size_t)K);
	for(int i = 0; i < K; ++i){
		auto& g = rows[(size_t)i]; bool by = K > 1 && i && r.pct(30); if(!by) g.code(load("DIRF")); int n = (int)r.range(1, tier ? 14 : 9);
		for(int j = 0; j < n; ++j){
			if(by){ g.code(delay(r) + num((i64)r.below(99)) + "."); continue; }
			switch(r.below(12)){
				case 0: case 1: case 2: case 3: g.code(pushes(path())).guard("M", r.pct(60) ? "1." : "", (char)('A' + i)); break;
				case 4: case 5: case 6: { std::string p = path(); if(p == ".." || p == W || p == "../") p = "a"; g.code(pushes(p)).guard("R", r.pct(60) ? "2." : "", (char)('A' + i)); break; }
				case 7: case 8: g.code(pushes(path())).guard("C", r.pct(60) ? "3." : "", (char)('A' + i)); break;
				case 9: g.code("2" + std::string("1") + "0" + num((i64)(2 * i)) + "0" + pushes(r.pct(50) ? "out" : "../out")).guard("o", "4.", (char)('A' + i)); break;
				case 10: g.code(num(3000) + num(40 + 20 * i) + "1" + pushes(r.pct(50) ? "f" : r.pct(50) ? "out" : "../f")).guard("i", "....", (char)('A' + i)); break;
				default: g.code(delay(r)); break;
			}
		}
		g.code("@");
	}
	std::string text = two_rows(rows), name = "p.b98"; c.sc.file(W + "/" + name, text); c.note += text; UniCfg u; u.standard = 98; u.dims = 2; u.native = native;
	std::string second; int times = 1 + (int)r.below(30);
	if(other){ c.sc.argv.push_back("m.fmv"); second = num(times) + ">:.1-:#v_@"; 
		second = ""; for(int i = 0; i < times; ++i) second += num(i) + "." + delay(r); second += "@\n"; c.sc.file(W + "/q.b98", second); c.sc.file(W + "/m.fmv", "p.b98\nq.b98\n"); u.name = "p.b98"; u.args = {}; }
	else { c.sc.argv.push_back(name); u.args = { name }; }
	auto run = [&](bool exist_ok){ auto m = std::make_shared<Model>(); m->fs = make(exist_ok); m->fs->fail = fails; m->max_ticks = 9000; m->max_work = 200000; m->add(u, text); m->start(*m->unis[0]); m->run(); return m; };
	add_noise(r, c.sc); c.sc.max_points = 60000000;
	auto m1 = run(true), m2 = run(false); c.valid = m1->valid && m2->valid; c.kind = !c.valid ? (m1->valid ? m2->why : m1->why) : fmt("%s%s%s", native ? "native" : K > 1 ? "several IPs" : "one IP", other ? ", next to another program" : "", fails.empty() ? "" : ", failing"); c.schedules = 2; c.probes["reflections"] += m1->reflects;
	std::string want2; for(int i = 0; i < times; ++i) want2 += std::to_string(i) + " ";
	auto verdict = [other, native, want2](const Model& m, const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		std::string out = x.out();
		if(other){ std::vector<u32> tids; for(auto& e : x.ev) if(e.kind == E_THREAD && e.tid == 0) tids.push_back((u32)e.a); size_t base = native ? 2 : 0; if(tids.size() < base + 2) return "universes: not all were started"; out = x.out(tids[base]); s = diff("output of the other program", want2, x.out(tids[base + 1])); if(!s.empty()) return s; }
		s = diff("output", m.out, out); if(!s.empty()) return s;
		if(x.exit_code != 0) return fmt("exit code: %d", x.exit_code);
		if(x.cwd != m.fs->cwd) return "directory: working in " + x.cwd + " instead of " + m.fs->cwd;
		for(auto& f : m.fs->n) if(f.first.compare(0, 10, "/sim/work/") == 0){ auto g = x.fs.find(f.first); if(g == x.fs.end()) return "directory: " + f.first + " is missing"; if(g->second.dir != f.second.dir) return "directory: " + f.first + " is of another kind"; if(!f.second.dir){ s = diff("files (" + f.first + ")", f.second.data, g->second.data); if(!s.empty()) return s; } }
		for(auto& g : x.fs) if(g.first.compare(0, 10, "/sim/work/") == 0 && !m.fs->n.count(g.first)) return "directory: " + g.first + " should not be there";
		return "";
	};
	// making a directory that is there already may succeed or fail
	c.check = [m1, m2, verdict](const Result& x) -> std::string { std::string s = verdict(*m1, x); if(s.empty()) return s; return verdict(*m2, x).empty() ? "" : s; };
	return c;
}
static Case channel(Rng& r, int tier){
	Case c; std_files(c.sc); c.sc.argv = { "funge" }; if(r.pct(30)) c.sc.argv.push_back("-std=sfish"); std::string name = c.sc.argv.size() > 1 && r.pct(50) ? "p.txt" : "p.sf"; const std::string W = "/sim/work/"; c.sc.dir("/sim/work/d");
	std::map<std::string, std::string> disk; std::map<std::string, i64> rd_err; std::set<std::string> no_read, no_write; std::vector<std::string> names{ "x", "yy", "d/zz", "nowhere/x", "d" };
	no_read.insert("nowhere/x"); no_write.insert("nowhere/x"); no_read.insert("d"); no_write.insert("d");
	for(int i = 0; i < 3; ++i){ auto& n = names[(size_t)i]; if(r.pct(70)){ std::string d; u32 len = r.below(20); for(u32 k = 0; k < len; ++k) d += (char)(r.pct(80) ? r.range(32, 126) : r.range(0, 255)); disk[n] = d; c.sc.file(W + n, d); }
		if(r.pct(40)) switch(r.below(5)){
			case 0: c.sc.fault(OP_OPEN, F_ERR, 0xffffffffu, r.pct(50) ? EACCES : EMFILE, 0, W + n); no_read.insert(n); no_write.insert(n); c.note += n + " cannot be opened\n"; break;
			case 1: { rd_err[n] = r.below(20); c.sc.fault(OP_READ, F_ERR_AT, 0xffffffffu, EIO, rd_err[n], W + n); c.note += fmt("%s: read error at byte %lld\n", n.c_str(), (long long)rd_err[n]); break; }
			case 2: c.sc.fault(OP_WRITE, F_ERR_AT, 0xffffffffu, ENOSPC, 0, W + n); no_write.insert(n); c.note += n + ": write errors\n"; break;
			case 3: if(!disk.count(n)){ disk[n] = ""; c.sc.file(W + n, ""); } c.sc.files.back().mode = 1; if(c.sc.files.back().path == W + n) no_write.insert(n); c.note += n + " is read-only\n"; break;
			default: if(r.pct(50)){ c.sc.fault(OP_WRITE, F_ERR, r.below(3), EINTR, 0, W + n); c.sc.fault(OP_WRITE, F_SHORT, r.below(3), 1 + (int)r.below(3), 0, W + n); } break;
		}
	}
	auto digit = [](size_t n){ return std::string(1, "0123456789abcdef"[n]); };
	std::string code, want; int rounds = 1 + (int)r.below(tier ? 6 : 4); bool dead = false; c.kind = "the channel of the fish dialect";
	for(int k = 0; k < rounds && !dead; ++k){
		std::string n = r.pct(75) ? names[r.below(3)] : r.pick(names); code += "\"" + n + "\"" + digit(n.size()) + "F";
		bool open = !no_read.count(n) && disk.count(n); size_t at = 0; bool eof = !open; u32 reads = r.below(14);
		for(u32 j = 0; j < reads; ++j){
			code += "in'.'o"; int v = -1; size_t end = open ? disk[n].size() : 0; if(open && rd_err.count(n)) end = std::min(end, (size_t)rd_err[n]);
			if(!eof && at < end) v = (unsigned char)disk[n][at++]; else eof = true;
			want += std::to_string(v) + ".";
		}
		if(r.pct(15)) break;
		std::string t; u32 len = r.below(16); for(u32 j = 0; j < len; ++j) t += (char)(r.pct(70) ? r.range(35, 38) : r.range(42, 126)); std::string rev(t.rbegin(), t.rend());
		code += (t.empty() ? "" : "\"" + rev + "\"") + digit(len) + "F";
		if(no_write.count(n) && !(t.empty() && disk.count(n) && false)){
			// an empty file needs no write
			bool opens = n != "nowhere/x" && n != "d"; for(auto& f : c.sc.files) if(f.path == W + n && !(f.mode & 2)) opens = false;
			for(auto& f : c.sc.faults) if(f.op == OP_OPEN && std::string(f.path) == W + n && f.kind == F_ERR) opens = false;
			if(opens && t.empty()){ disk[n] = ""; }
			else { dead = true; break; }
		}else disk[n] = t;
		code += "'k'o"; want += "k";
	}
	code += dead ? "'!'o;" : ";"; c.sc.file(W + name, code + "\n"); c.note += code; c.sc.argv.push_back(name); add_noise(r, c.sc); c.sc.max_points = 40000000; c.schedules = 2; c.probes["channel failures"] += dead;
	std::set<std::string> unsure; if(dead) for(auto& n : no_write) unsure.insert(n);
	c.check = [want, dead, disk, unsure](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		s = diff("output", want, x.out()); if(!s.empty()) return s;
		if(x.exit_code != (dead ? 1 : 0)) return fmt("exit code: %d", x.exit_code);
		if(dead && x.err().find("something smells fishy...") == std::string::npos) return "report: nothing was said about the failure";
		for(auto& f : disk) if(!unsure.count(f.first)){ auto g = x.fs.find("/sim/work/" + f.first); if(g == x.fs.end()) return "files: " + f.first + " is missing"; s = diff("files (" + f.first + ")", f.second, g->second.data); if(!s.empty()) return s; }
		return "";
	};
	return c;
}
static Reg r15("C15", "programs making, removing and changing into directories and reading and writing files relative to them, every operation failing on chosen paths, next to other IPs and programs, against a model of the tree; the fish channel read and written with every failure; non-trivial: all", [](Rng& r, int tier){ return r.pct(65) ? dirf(r, tier) : channel(r, tier); });
} // namespace drv
