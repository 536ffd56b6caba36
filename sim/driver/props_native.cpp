// C03 C04 C05: IPs running at the same time.
#include "native.h"
#include <algorithm>
#include <cerrno>
namespace drv {
std::string expect(int ip, const std::vector<Exp>& want, const std::string& got, bool complete){
	size_t at = 0; std::map<int, size_t> seen;
	for(size_t k = 0; k < want.size(); ++k){
		const Exp& e = want[k];
		auto nib = [&]() -> int { return at < got.size() ? (unsigned char)got[at++] : -1; };
		if(e.kind == 0){ int n = nib(); if(n < 0){ if(!complete) return ""; return fmt("lost output: IP %d printed %zu of its items", ip, k); } if(n != e.v) return fmt("output: IP %d printed %d instead of %lld as item %zu", ip, n, (long long)e.v, k); continue; }
		int a = nib(), b = nib(); if(b < 0){ if(!complete) return ""; return fmt("lost output: IP %d printed %zu of its items", ip, k); }
		i64 v = a * 16 + b;
		if(e.kind == 1){ if(v != e.v) return fmt("cells: IP %d read %lld instead of %lld as item %zu", ip, (long long)v, (long long)e.v, k); continue; }
		auto f = std::find(e.set.begin(), e.set.end(), v);
		if(f == e.set.end()) return fmt("cells: IP %d read %lld, which nobody wrote, as item %zu", ip, (long long)v, k);
		if(e.kind == 2){ size_t p = (size_t)(f - e.set.begin()); auto s = seen.find(e.id); if(s != seen.end() && p < s->second) return fmt("cells: IP %d read %lld after a later value, as item %zu", ip, (long long)v, k); seen[e.id] = p; }
	}
	if(at != got.size()) return fmt("output: IP %d printed %zu more than it should", ip, got.size() - at);
	return "";
}

static void native_scenario(Rng& r, Case& c, const std::string& text, bool native){
	std_files(c.sc); c.sc.argv = { "funge" }; if(native) c.sc.argv.push_back("-fthreads=native");
	if(r.pct(20)) c.sc.argv.push_back("-fstrings=multispace");
	c.sc.argv.push_back("p.b98"); c.sc.file("/sim/work/p.b98", text); add_noise(r, c.sc); c.sc.max_points = 100000000; c.note = text;
}

// ---- C05
static Case c05(Rng& r, int tier){
	Case c; int K = (int)r.range(2, 6); bool native = r.pct(90); c.kind = native ? "native threads" : "turns"; c.schedules = 4;
	bool far = r.pct(50), files = r.pct(25), growing = r.pct(50); i64 y0 = K + 2;
	struct Cell { i64 x, y; }; int P = (int)r.range(1, 4);
	auto priv = [&](int ip, int j){ return Cell{ (i64)(ip + K * j), y0 + (far ? j : 0) }; };
	auto single = [&](int ip){ return Cell{ (i64)ip, y0 + 6 }; };
	auto flag = [&](int ip){ return Cell{ (i64)ip, y0 + 8 }; };
	Cell multi{ 3, y0 + 10 };
	std::vector<std::vector<i64>> sv((size_t)K, { 32 }); std::vector<std::map<int, i64>> pv((size_t)K); std::vector<i64> mv{ 32 };
	std::vector<std::string> rows((size_t)K); std::vector<std::vector<Exp>> want((size_t)K); std::vector<std::vector<std::pair<size_t, int>>> later((size_t)K);
	int n = (int)r.range(3, tier ? 24 : 14); bool blank = r.pct(35);   // the cell everybody writes is blanked now and then
	// what single writers write, so that readers know the sequences
	std::vector<std::vector<int>> ops((size_t)K); int writes = 0;
	for(int i = 0; i < K; ++i) for(int k = 0; k < n; ++k){ int o = blank && r.pct(45) ? (int)r.range(12, 13) : (int)r.below(12); ops[(size_t)i].push_back(o); if(o == 3 || o == 4) sv[(size_t)i].push_back((i64)sv[(size_t)i].size() + 64); if(o == 7 || o == 12){ mv.push_back(128 + i * 16 + (writes % 16)); ++writes; } }
	writes = 0; std::map<std::string, std::string> filewant;
	for(int i = 0; i < K; ++i){
		std::string& s = rows[(size_t)i]; auto& w = want[(size_t)i]; int sn = 0;
		for(int o : ops[(size_t)i]) switch(o){
			case 0: case 1: { int j = (int)r.below((u32)P); i64 v = (i64)r.range(33, 255); Cell q = priv(i, j); if(r.pct(10) && q.x > 0 && q.x + 1 < K * P) v = 32; s += set_cell(v, q.x, q.y); pv[(size_t)i][j] = v; break; }
			case 2: { int j = (int)r.below((u32)P); Cell q = priv(i, j); s += xy(q.x, q.y) + "g" + emit2(i); w.push_back(Exp{ 1, pv[(size_t)i].count(j) ? pv[(size_t)i][j] : 32, 0, {} }); break; }
			case 3: case 4: { Cell q = single(i); ++sn; s += set_cell(64 + sn, q.x, q.y); break; }
			case 5: case 6: { int j = (int)r.below((u32)K); if(j == i){ Cell q = single(i); s += xy(q.x, q.y) + "g" + emit2(i); w.push_back(Exp{ 1, sn ? 64 + sn : 32, 0, {} }); } else { Cell q = single(j); s += xy(q.x, q.y) + "g" + emit2(i); w.push_back(Exp{ 2, 0, j, sv[(size_t)j] }); } break; }
			case 7: { i64 v = 128 + i * 16 + (writes++ % 16); s += set_cell(v, multi.x, multi.y); break; }
			case 12: { i64 v = 128 + i * 16 + (writes++ % 16); s += set_cell(v, multi.x, multi.y) + set_cell(32, multi.x, multi.y); if(r.pct(30)) s += set_cell(v, multi.x, multi.y) + set_cell(32, multi.x, multi.y); break; }
			case 13: for(u32 k = 1 + r.below(3); k; --k){ s += xy(multi.x, multi.y) + "g" + emit2(i); w.push_back(Exp{ 3, 0, 0, mv }); } break;
			case 8: s += xy(multi.x, multi.y) + "g" + emit2(i); w.push_back(Exp{ 3, 0, 0, mv }); break;
			case 9: { i64 a = (i64)r.below(40), b = (i64)r.below(6), q = (i64)r.below(9); s += num(a) + num(b) + "*" + num(q) + "+" + "2{" + "}" ; s.resize(s.size() - 3); s += emit2(i); w.push_back(Exp{ 1, (a * b + q) & 255, 0, {} }); break; }
			case 10: if(growing){ i64 x = 200 + (i64)r.below(40) * (i + 1), y = y0 + 20 + i * 3; s += set_cell(65, x, y) + xy(x, y) + "g" + emit2(i); w.push_back(Exp{ 1, 65, 0, {} }); if(r.pct(40)){ s += set_cell(66, -(i64)(1 + r.below(9)), -1 - i); } } break;
			case 11: if(files && native){
				std::string name = fmt("f%d", i); Cell q{ 0, y0 + 40 + 4 * i }; std::string t; for(int k = 0; k < 5; ++k){ char ch = (char)('a' + r.below(26)); t += ch; s += set_cell(ch, q.x + k, q.y); }
				s += num(5) + num(1) + xy(q.x, q.y) + "0" + pushes(name) + "o"; filewant[name] = t + "\n";
				if(r.pct(50)){ s += xy(q.x + 8, q.y) + "1" + pushes(name) + "i" + "$$$$"; s += xy(q.x + 8 + 4, q.y) + "g" + emit2(i); w.push_back(Exp{ 1, (unsigned char)t[4], 0, {} }); }
			} break;
		}
		Cell f = flag(i); s += set_cell(1, f.x, f.y);
		if(i + 1 < K) s += "@";
	}
	{ std::string& s = rows.back(); auto& w = want.back(); int i = K - 1;
		for(int j = 0; j < K; ++j) s += wait_cell(flag(j).x, flag(j).y, 1);
		for(int j = 0; j < K; ++j){
			for(int k = 0; k < P; ++k){ Cell q = priv(j, k); s += xy(q.x, q.y) + "g" + emit2(i); w.push_back(Exp{ 1, pv[(size_t)j].count(k) ? pv[(size_t)j][k] : 32, 0, {} }); }
			Cell q = single(j); s += xy(q.x, q.y) + "g" + emit2(i); w.push_back(Exp{ 1, sv[(size_t)j].back(), 0, {} });
		}
		s += xy(multi.x, multi.y) + "g" + emit2(i); std::vector<i64> m(mv.begin() + (mv.size() > 1 && !blank ? 1 : 0), mv.end()); w.push_back(Exp{ 3, 0, 0, m }); s += "@";
	}
	std::string text = staircase(rows);
	if(blank){ Canvas cv; size_t y = 0; for(size_t k = 0; k < text.size(); ++y){ size_t e = text.find('\n', k); cv.put(0, y, text.substr(k, e - k)); k = e + 1; } cv.put(0, (size_t)y0 + 13, "zzzzzzzz"); text = cv.text(); c.kind += ", blanked cell"; }
	native_scenario(r, c, text, native); c.nontrivial = native;
	c.probes["IPs"] += (u64)K; for(auto& w : want) c.probes["values checked"] += w.size();
	c.check = [want, K, native, filewant](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code) return fmt("exit code: %d", x.exit_code);
		Tagged t = by_tag(x, native); if(!t.error.empty()) return t.error; if(!t.rest.empty()) return "output: unexpected " + quote(t.rest);
		for(int i = 0; i < K; ++i){ s = expect(i, want[(size_t)i], t.of[(size_t)i]); if(!s.empty()) return s; }
		for(auto& f : filewant){ auto g = x.fs.find("/sim/work/" + f.first); if(g == x.fs.end()) return "files: " + f.first + " was not written"; }
		return "";
	};
	return c;
}
static Reg r05("C05", "up to 6 IPs at once, each writing and reading cells of its own, cells one IP writes and others read, and a cell everybody writes; what each reads is checked per IP against its own writes, the order of the single writer, and the final contents; non-trivial: native threads", c05);

// ---- C03
static Case c03(Rng& r, int tier){
	Case c; c.schedules = 4; int code = (int)r.range(0, r.pct(80) ? 255 : 4000); 
	int K = (int)r.range(2, 7); bool native = r.pct(80); c.kind = native ? "native threads" : "turns"; int quitter = (int)r.below((u32)K); bool two = r.pct(20) && K > 2; int quitter2 = (quitter + 1) % K; int code2 = (int)r.below(256);
	std::vector<std::string> rows; std::vector<int> act;
	for(int i = 0; i < K; ++i){
		std::string s; int a = (int)r.below(9); if(a == 1 && !native) a = 0; if(i == quitter || (two && i == quitter2)) a = -1; act.push_back(a);
		std::string back = num(1) + "0\\-j"; 
		switch(a){
			case -1: { u32 w = r.pct(50) ? r.below(4) : r.below(40); for(u32 k = 0; k < w; ++k) s += r.pct(50) ? "z" : "1$"; if(r.pct(30)) s += mark(i, 14); s += num(i == quitter ? code : code2); if(r.pct(50)) s += mark(i, 15); s += "q"; s += mark(i, 13); s += "@"; break; }
			case 0: { // prints for ever
				std::string b = mark(i, 0) + mark(i, 1) + mark(i, 2) + mark(i, 3); s = for_ever(b);
				break; }
			case 1: s = mark(i, 0) + "#v"; break;       // runs into blanks (below)
			case 2: { std::string b = ";" + std::string(1 + r.below(30), 'p') + ";"; s = mark(i, 0) + for_ever(b); break; }
			case 3: s = mark(i, 0) + num(native ? 100000 : 1000) + "kz" + mark(i, 1) + "@"; break;
			case 4: s = load("IIPC") + mark(i, 0) + "D" + mark(i, 1) + "@"; break;
			case 5: { std::string b = "55+$1$"; s = for_ever(b); break; }
			case 6: { u32 k = r.below(6); for(u32 j = 0; j < k; ++j) s += mark(i, (int)j); s += "@"; break; } // ends by itself
			case 7: s = mark(i, 0) + for_ever("zzz"); break;
			case 8: { s = mark(i, 0); u32 k = 3 + r.below(10); while(k--) s += "#@t"; s += mark(i, 1) + "@"; break; } // splits again and again
		}
		rows.push_back(s);
	}
	// rows that run into blanks: take them down a column of blanks, wrapping for ever. A row of nothing does it.
	Canvas cv; std::string st = staircase(rows);
	for(size_t k = 0, y = 0; k < st.size(); ++y){ size_t e = st.find('\n', k); cv.put(0, y, st.substr(k, e - k)); k = e + 1; }
	size_t width = 0; for(auto& l : cv.rows) width = std::max(width, l.size());
	for(int i = 0; i < K; ++i) if(act[(size_t)i] == 1){ // an IP going down a free column, over blanks for ever
		size_t y = (size_t)i; size_t at = cv.rows[y].rfind('#'); cv.rows[y].resize(at); cv.put(width + 2 + (size_t)i, y, "v"); cv.put(at, y, ">"); }
	native_scenario(r, c, cv.text(), native); if(native) c.sc.sched.quantum = 0;
	std::vector<int> a2 = act;
	c.sc.max_points = 40000000;
	bool prime = true; if(r.pct(40)){   // with other universes, whose IPs end by themselves or quit with codes of their own, or which create further ones
		int o = (int)r.range(1, 2); std::vector<std::string> names = { "p.b98" }, all = { "a.b98", "z.b98", "q.b98" }; std::map<std::string, int> ends;
		for(int i = 0; i < o; ++i){
			size_t k = r.below((u32)all.size()); std::string n = all[k], t; all.erase(all.begin() + (long)k);
			u32 w = r.below(25); while(w--) t += r.pct(50) ? "z" : "1$";
			if(r.pct(40)){ t = load("MVRS") + t; for(u32 j = 1 + r.below(2); j; --j) t += pushes(fmt("b%u", j)) + "000B"; t += std::string(r.below(8), 'z'); }
			ends[n] = 0; if(r.pct(60)){ ends[n] = (int)r.below(256); t += num(ends[n]) + "q"; } else t += "@";
			c.sc.file("/sim/work/" + n, "v\n>" + t + "\n"); c.note += "--- " + n + "\n" + t + "\n"; names.insert(r.pct(75) ? names.end() : names.begin(), n);
		}
		std::string list; for(auto& n : names) list += n + "\n"; c.sc.file("/sim/work/m.fmv", list); c.sc.argv.back() = "m.fmv"; c.note += "--- m.fmv\n" + list; c.kind += ", several universes";
		if(names[0] != "p.b98"){ prime = false; code = ends[names[0]]; two = false; }
	}
	(void)prime; c.check = [K, native, quitter, two, quitter2, code, code2, a2](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		if(x.exit_code != (code & 255) && !(two && x.exit_code == (code2 & 255))) return fmt("exit code: %d instead of %d", x.exit_code, code & 255);
		Tagged t = by_tag(x, false); if(!t.rest.empty()) return "output: unexpected " + quote(t.rest);
		for(int q : { quitter, two ? quitter2 : quitter }) if(t.of[(size_t)q].find('\x0d') != std::string::npos) return "after quit: the IP that quit went on";
		for(int i = 0; i < K; ++i){
			const std::string& o = t.of[(size_t)i];
			switch(a2[(size_t)i]){
				case 0: for(size_t k = 0; k < o.size(); ++k) if((size_t)o[k] != k % 4) return fmt("output: IP %d printed out of order", i); break;
				case 1: case 2: case 7: if(a2[(size_t)i] != 7 && o.size() > 1) return fmt("output: IP %d printed more than it should", i); break;
				case 4: if(o.size() > 1) return fmt("dormant: IP %d woke up without being touched", i); break;
				default: break;
			}
		}
		if(!native) return "";
		// the thread of the first IP to quit ends: from then on nobody starts another instruction
		u32 qt = 0xffffffff; std::set<u32> qts; for(auto& e : x.ev) if(e.kind == E_STDOUT && e.s.size() == 1){ int ip = ((unsigned char)e.s[0] - 0x80) >> 4; if((ip == quitter || (two && ip == quitter2)) && ((unsigned char)e.s[0] & 15) == 15) qts.insert(e.tid); }
		bool over = false; std::map<u32, int> more; (void)qt;
		for(auto& e : x.ev){
			if(e.kind == E_TEXIT && qts.count(e.tid)) over = true;
			else if(over && e.kind == E_STDOUT && ++more[e.tid] > 1) return fmt("after quit: thread %u printed %d times after the quit had been carried out", e.tid, more[e.tid]);
			else if(over && e.kind == E_THREAD && ++more[e.tid] > 1 && false) return "";
		}
		return "";
	};
	return c;
}
static Reg r03("C03", "IPs printing, looping over blanks, in comments, in iterations, splitting, dormant or ended while one or two of them quit at a random moment; the process must end with the popped code, and the history must show at most the instruction in progress after the quitter has returned; non-trivial: all", c03);
} // namespace drv
