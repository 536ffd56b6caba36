// C04: the end of the process.  C10: messages between IPs.
#include "native.h"
#include <algorithm>
namespace drv {
static std::string delay(Rng& r){ std::string s; u32 n = r.pct(50) ? r.below(4) : r.below(30); while(n--) s += r.pct(60) ? "z" : "1$"; return s; }
static Canvas canvas_of(const std::string& st){ Canvas cv; for(size_t k = 0, y = 0; k < st.size(); ++y){ size_t e = st.find('\n', k); cv.put(0, y, st.substr(k, e - k)); k = e + 1; } return cv; }
struct Row { std::string code; std::vector<Exp> want; int tag; };
static Row finite_row(Rng& r, int ip, int items, bool libs, bool natives){
	Row o; o.tag = ip;
	for(int k = 0; k < items; ++k) switch(r.below(libs ? 8 : 6)){
		case 0: case 1: case 2: { int v = (int)r.below(16); o.code += mark(ip, v); o.want.push_back(Exp{ 0, v, 0, {} }); break; }
		case 3: o.code += delay(r); break;
		case 4: o.code += "#@t"; break;                         // an IP that ends at once
		case 5: { i64 v = (i64)r.below(256); o.code += num(v) + "2{2u$$" + std::string("0}"); o.code.resize(o.code.size() - 8); o.code += emit2(ip); o.want.push_back(Exp{ 1, v, 0, {} }); break; }
		case 6: { o.code += load("ROMA") + "V" + emit2(ip) + unload("ROMA"); o.want.push_back(Exp{ 1, 5, 0, {} }); break; }
		case 7: { o.code += "0" + pushes("zzz") + "2k$"; o.code += "n"; break; }
	}
	return o;
}
static void finish(Rng& r, Case& c, const std::string& main, bool native){
	std_files(c.sc); c.sc.argv = { "funge" }; if(native) c.sc.argv.push_back("-fthreads=native");
	c.sc.argv.push_back(main); add_noise(r, c.sc); c.sc.max_points = 150000000;
}
static Case c04(Rng& r, int tier){
	Case c; c.schedules = 4; bool native = r.pct(60), libs = r.pct(25); u32 form = r.below(4); int code = 0;
	std::vector<std::vector<Exp>> want(8); std::map<std::string, std::string> files; std::string main; int tags = 0; std::string fmv;
	int U = form == 0 ? 1 : (int)r.range(2, 4);
	bool quit = r.pct(20);
	c.kind = std::string(native ? "native threads, " : "turns, ") + (form == 0 ? "one universe" : form == 3 ? "universes with transfers" : "universes");
	if(form == 3){
		// the first IP goes through all universes in turn, and ends in the last; the other universes' own IPs end whenever
		U = (int)r.range(2, 4); std::vector<Canvas> cv((size_t)U); std::string s = load("MVRS") + delay(r); size_t x = 1; int tg = 0;
		for(int u = 0; u < U; ++u){
			int y = 3; std::string own;
			if(u == 0) own = ">"; 
			int k = (int)r.below(4); for(int j = 0; j < k; ++j){ int v = (int)r.below(16); s += mark(tg, v); want[0].push_back(Exp{ 0, v, 0, {} }); }
			s += delay(r);
			if(u + 1 < U){ s += pushes(fmt("u%d.b98", u + 1)) + (r.pct(50) ? std::string("J") : std::string("")); if(s.back() != 'J'){ size_t nx = x + s.size() + 60; s += num((i64)nx) + num(y) + "0" + "100G"; cv[(size_t)u].put(x, (size_t)y, s); x = nx + 1; } else { cv[(size_t)u].put(x, (size_t)y, s); x += s.size(); } }
			else { s += "@"; cv[(size_t)u].put(x, (size_t)y, s); x += s.size(); }
			s.clear();
			cv[(size_t)u].put(x + 120, (size_t)y, "z"); 
		}
		for(int u = 0; u < U; ++u){
			if(u == 0){ cv[0].put(0, 0, "v"); cv[0].put(0, 3, ">"); continue; }
			Row o = finite_row(r, u, (int)r.range(0, 6), false, native); cv[(size_t)u].put(0, 0, o.code + "@"); want[(size_t)u] = o.want; 
		}
		for(int u = 0; u < U; ++u){ cv[(size_t)u].put(0, 5, std::string(1200, ' ') + "z"); files[fmt("u%d.b98", u)] = cv[(size_t)u].text(); fmv += fmt("u%d.b98\n", u); }
		tags = U; main = "m.fmv"; files[main] = fmv;
	}else{
		for(int u = 0; u < U; ++u){
			int K = form == 0 ? (int)r.range(1, 7) : (int)r.range(1, std::max<i64>(1, std::min<i64>(3, 7 - tags - (U - u - 1)))); std::vector<std::string> rows;
			for(int i = 0; i < K; ++i){
				Row o = finite_row(r, tags, (int)r.range(0, tier ? 16 : 8), libs, native); want[(size_t)tags] = o.want;
				std::string end = "@"; if(quit && K == 1 && r.pct(60)){ int q = (int)r.below(300); end = num(q) + "q"; if(u == 0) code = q & 255; }
				rows.push_back(o.code + end); ++tags;
			}
			files[fmt("u%d.b98", u)] = staircase(rows); fmv += fmt("u%d.b98\n", u);
		}
		if(U == 1) main = "u0.b98"; else { main = "m.fmv"; files[main] = fmv; }
	}
	finish(r, c, main, native); for(auto& f : files){ c.sc.file("/sim/work/" + f.first, f.second); c.note += "--- " + f.first + "\n" + f.second; }
	c.probes["universes"] += (u64)U; c.probes["IPs"] += (u64)tags;
	c.check = [want, tags, code](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		Tagged t = by_tag(x, false); if(!t.rest.empty()) return "output: unexpected " + quote(t.rest);
		for(int i = 0; i < tags; ++i){ s = expect(i, want[(size_t)i], t.of[(size_t)i]); if(!s.empty()) return s; }
		if(x.exit_code != code) return fmt("exit code: %d instead of %d", x.exit_code, code);
		return "";
	};
	return c;
}
static Reg r04("C04", "one to four universes with one to seven IPs in all that print and end at random times, split off IPs that end at once, call library instructions, and move between universes; the process must end by itself, with everything printed, the right exit code and no access to freed memory; non-trivial: all", c04);

// ---- C10
static Case c10(Rng& r, int tier){
	Case c; c.schedules = 3; u32 form = r.below(10);
	if(form < 3){ // exactly once, everybody at once: row 0 receives and is the only one to print what is sent
		bool native = r.pct(85), held = r.pct(50), clears = r.pct(30), heavy = clears && held && r.pct(30); c.kind = std::string("senders") + (held ? ", receiver held back" : "") + (clears ? ", receiver clears" : "") + (native ? ", native threads" : ", turns"); int K = (int)r.range(3, 6); std::vector<std::string> rows; std::vector<std::vector<int>> sent((size_t)K); i64 y0 = K + 4;
		std::string clear; if(clears) for(int k = (int)r.range(1, 8); k > 0; --k) clear += std::string(r.below(r.pct(50) ? 4 : heavy ? 300 : 60), 'z') + "n";
		rows.push_back(load("IIPC") + set_cell(1, 0, y0) + clear + "#v");          // from here on nothing of its own is on its stack
		for(int i = 1; i + 1 < K; ++i){ std::string s = "n" + load("IIPC") + wait_cell(0, y0, 1) + delay(r); int n = (int)r.below(heavy ? 160 : clears ? 14 : 7); for(int j = 0; j < n; ++j){ int v = 1 + 16 * i + j % 14; sent[(size_t)i].push_back(v); s += num(v) + "0P"; if(r.pct(heavy ? 3 : 30)) s += delay(r); } s += set_cell(1, i, y0); rows.push_back(s + "@"); }
		size_t width = 0; for(auto& l : rows) width = std::max(width, l.size() + 20);
		std::string last = "n" + load("IIPC"); for(int i = 0; i + 1 < K; ++i) last += wait_cell(i, y0, 1);
		if(held) last += "'z" + xy((i64)width + 4, 0) + "p";
		rows.push_back(last + until_zero("0L") + "7q");
		Canvas cv = canvas_of(staircase(rows)); 
		size_t at = cv.rows[0].rfind('#'); cv.rows[0].resize(at); cv.put(at, 0, ">");
		if(held){ cv.put(width + 3, 0, ">v"); cv.put(width + 3, 1, "^<"); }
		cv.put(width + 8, 0, ">,v"); cv.put(width + 8, 1, "^ <");
		finish(r, c, "p.b98", native); c.sc.file("/sim/work/p.b98", cv.text()); c.note = cv.text();
		c.check = [sent, held, clears, K](const Result& x) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code != 7) return fmt("exit code: %d", x.exit_code);
			std::vector<std::vector<int>> got((size_t)K); for(unsigned char ch : x.out()) if(ch){ size_t i = (size_t)(ch - 1) / 16; if(i >= (size_t)K) return fmt("messages: nobody sent %d", ch); got[i].push_back(ch); }
			for(int i = 0; i < K; ++i){
				auto want = sent[(size_t)i], g = got[(size_t)i]; if(held) std::reverse(want.begin(), want.end()); else std::sort(g.begin(), g.end());
				if(clears && g.size() < want.size()){ if(held) want.resize(g.size()); else want.erase(want.begin(), want.end() - (long)g.size()); } // the latest ones outlive a clear
				if(g != want){ std::string t = "messages: IP " + std::to_string(i) + " sent"; for(int v : sent[(size_t)i]) t += fmt(" %d", v); t += ", printed"; for(int v : got[(size_t)i]) t += fmt(" %d", v); return t; }
			}
			return "";
		};
		return c;
	}
	if(form < 5){ // values taken by several IPs from one stack
		bool native = r.pct(85); c.kind = native ? "takers, native threads" : "takers, turns"; int K = (int)r.range(2, 5); std::vector<std::string> rows; std::set<int> have; i64 y0 = K + 4; int n = (int)r.range(1, 12);
		std::string s0; for(int j = 0; j < n; ++j){ s0 += num(33 + j); have.insert(33 + j); } s0 = s0 + set_cell(1, 0, y0) + for_ever("z"); 
		// keep the own stack free of the jump's temporaries: an endless row without pushing
		s0.clear(); for(int j = 0; j < n; ++j) s0 += num(33 + j); s0 += set_cell(1, 0, y0) + "#v";
		rows.push_back(s0);
		int each = (n + K - 1) / std::max(1, K - 1) + 1;
		for(int i = 1; i < K; ++i){ std::string s = "n" + load("IIPC") + wait_cell(0, y0, 1) + delay(r); for(int j = 0; j < each; ++j) s += "0G,"; s += set_cell(1, i, y0); rows.push_back(s + "@"); }
		{ std::string w = "n"; for(int i = 1; i < K; ++i) w += wait_cell(i, y0, 1); rows.push_back(w + "7q"); }
		Canvas cv = canvas_of(staircase(rows));
		size_t width = 0; for(auto& l : cv.rows) width = std::max(width, l.size());
		size_t at = cv.rows[0].rfind('#'); cv.rows[0].resize(at); cv.put(at, 0, ">"); cv.put(width + 3, 0, "v"); cv.put(width + 3, 1, "z"); cv.put(width + 3, 2, "z");
		finish(r, c, "p.b98", native); c.sc.file("/sim/work/p.b98", cv.text()); c.note = cv.text();
		c.check = [have](const Result& x) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code != 7) return fmt("exit code: %d", x.exit_code);
			std::multiset<int> got; for(unsigned char ch : x.out()) if(ch) got.insert(ch);
			for(int v : have) if(got.count(v) != 1) return fmt("messages: the value %d was taken %zu times", v, got.count(v));
			if(got.size() != have.size()) return fmt("messages: %zu values were taken, there were %zu", got.size(), have.size());
			return "";
		};
		return c;
	}
	if(form < 7){ // dormant IPs, touched one after the other
		bool native = r.pct(75); c.kind = native ? "dormant, native threads" : "dormant, turns"; int K = (int)r.range(2, 7); std::vector<std::string> rows; std::vector<int> order; i64 y0 = K + 4;
		auto id = std::make_shared<std::vector<int>>();
		for(int i = 0; i + 1 < K; ++i){ order.push_back(i); std::string s = "n" + load("IIPC") + delay(r); int m = (int)r.below(4); for(int j = 0; j < m; ++j) s += num(tag(i) + 1); rows.push_back(s + set_cell(1, i, y0) + "D'!,s~>z<"); }
		for(size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below((u32)i)]);
		std::vector<int> touch; for(size_t i = 0; i < order.size(); ++i) touch.push_back((int)r.below(3));
		std::vector<int> pause; for(size_t i = 0; i < order.size(); ++i) pause.push_back((int)r.below(20));
		rows.push_back("@");
		// where the cells are is known only once the rows are laid out
		Canvas cv;
		for(int t = 0; t < 2; ++t){
			std::string text = staircase(rows); cv = canvas_of(text); std::string s = "n" + load("IIPC"); for(int i = 0; i + 1 < K; ++i) s += wait_cell(i, y0, 1);
			for(size_t q = 0; q < order.size(); ++q){
				int i = order[q]; size_t x = cv.rows[(size_t)i].rfind("D'!,s~"); s += std::string((size_t)pause[q], 'z') + num(tag(i) + 1) + xy((i64)x + 2, i) + "p";
				std::string ti = touch[q] == 0 ? num(tag(i) + 1) + num(i) + "P" : touch[q] == 1 ? num(i) + "G$" : num(i) + "G$" + num(tag(i) + 1) + num(i) + "P";
				s += until_zero(ti + xy((i64)x + 5, i) + "g'~-!");
			}
			rows.back() = s + "7q";
		}
		finish(r, c, "p.b98", native); c.sc.file("/sim/work/p.b98", staircase(rows)); c.note = staircase(rows);
		c.check = [order](const Result& x) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code != 7) return fmt("exit code: %d", x.exit_code);
			size_t at = 0;
			for(unsigned char ch : x.out()){
				if(!ch) continue; if(ch == '!') return "dormant: an IP woke up before it was touched"; if(ch < 0x80) return fmt("dormant: nobody prints %d", ch);
				int i = (ch - 0x80) >> 4; size_t p = (size_t)(std::find(order.begin(), order.end(), i) - order.begin()); if(p < at) return fmt("dormant: IP %d woke up out of order", i); at = p;
			}
			return "";
		};
		return c;
	}
	if(form < 8){ // everybody waits for the one before to end: from then on addressing it reflects
		bool native = r.pct(80); c.kind = native ? "waiting for ends, native threads" : "waiting for ends, turns"; int K = (int)r.range(2, 6); std::vector<std::string> rows; Canvas low;
		for(int i = 0; i < K; ++i){
			if(!i){ rows.push_back(delay(r) + lit(0x80) + "," + delay(r) + "@"); continue; }
			std::string s = load("IIPC"), b = num(i - 1) + "#vL$" + (r.pct(40) ? std::string(r.below(9), 'z') : std::string()); size_t x = (size_t)(2 * i + 4) + s.size() + b.find('v'), y = (size_t)(3 * i); s += for_ever(b); rows.push_back(s);
			int again = (int)r.below(4); std::string l = ">" + delay(r) + lit(0x80 + i);
			if(again){ l += "," + std::string(again == 3 ? "'x" : "") + num(i - 1) + "#v" + "GLP"[again - 1] + "'!,@"; low.put(x, y + 1, l); low.put(x + l.find("#v") + 1, y + 2, std::string(">") + lit(0x90 + i) + ",@"); }
			else low.put(x, y + 1, l + "," + lit(0x90 + i) + ",@");
		}
		Canvas cv = canvas_of(staircase(rows, 3)); for(size_t y = 0; y < low.rows.size(); ++y) for(size_t x = 0; x < low.rows[y].size(); ++x) if(low.rows[y][x] != ' ') cv.put(x, y, std::string(1, low.rows[y][x]));
		std::string want; for(int i = 0; i < K; ++i){ want += (char)(0x80 + i); if(i) want += (char)(0x90 + i); }
		finish(r, c, "p.b98", native); c.sc.file("/sim/work/p.b98", cv.text()); c.note = cv.text();
		c.check = [want](const Result& x) -> std::string { std::string s = sanity(x); if(!s.empty()) return s; return diff("ended: output", want, x.out()); };
		return c;
	}
	// addressing anybody at any time; in turn-taking mode the model knows the outcome
	std::vector<std::string> rows, lower; int K = (int)r.range(2, 6); bool brief = r.pct(40);   // brief: some end early, while others address them
	for(int i = 0; i < K; ++i){
		std::string s = (r.pct(50) ? "n" : "") + load("IIPC"), w(s.size(), ' '); int n = (int)r.range(1, 14); bool ends = brief && r.pct(40), calls = brief && !ends; if(ends) n = (int)r.below(3); else if(brief) n = (int)r.range(6, 20);
		// an instruction that reflects leads through the row below, which prints a letter and comes back
		auto guarded = [&](const std::string& args, char op, const std::string& after){
			if(r.pct(4)){ s += args + op + after; w.resize(s.size(), ' '); return; }
			s += args; w.resize(s.size(), ' '); s += std::string("#v") + op + after; s.append((size_t)(5 - 3 - (int)after.size()), 'z'); s += ">"; w += std::string(" >'") + (char)('A' + i) + ",^";
		};
		for(int j = 0; j < n; ++j){
			std::string id = num(r.pct(75) ? (i64)r.below((u32)K) : r.pct(60) ? (i64)(K + r.below(4)) : r.pct(50) ? -1 : r.pct(50) ? 255 : -256);
			switch(calls ? r.below(4) : r.below(11)){
				case 0: case 1: guarded(num((i64)r.below(256)) + id, 'P', ""); break; case 2: case 10: guarded(id, 'G', "."); break; case 3: guarded(id, 'L', "."); break; case 4: s += "I."; break; case 5: guarded("", 'A', "."); break;
				case 6: s += r.pct(12) ? "D" : "z"; break; case 7: s += "."; break; case 8: s += num((i64)r.below(99)); break; case 9: s += r.pct(15) ? "@" : r.pct(20) ? "n" : r.pct(20) ? "12{" : r.pct(30) ? "#@t" : delay(r); break;
			}
			w.resize(s.size(), ' ');
		}
		rows.push_back(s + "@"); lower.push_back(w);
	}
	auto m = std::make_shared<Model>(); c.kind = "rows addressing each other, turns";
	Canvas pic = canvas_of(staircase(rows, 2)); for(int i = 0; i < K; ++i) pic.put((size_t)(2 * i + 4), (size_t)(2 * i + 1), lower[(size_t)i]); std::string text = pic.text(); UniCfg u; u.standard = 98; u.dims = 2; u.args = { "p.b98" };
	finish(r, c, "p.b98", false); c.sc.file("/sim/work/p.b98", text); c.note = text;
	m->max_ticks = 6000; m->add(u, text); m->start(*m->unis[0]); m->run(); c.valid = m->valid; if(!m->valid) c.kind = m->why; c.schedules = 2;
	c.probes["reflections"] += m->reflects; c.check = [m](const Result& x) { return compare(*m, x); };
	return c;
}
static Reg r10("C10", "IPs sending to, taking from and looking at each other's stacks, going dormant and ending: exactly-once arrival in both threading modes, waking only after being touched, and complete equality with the model for turn-taking programs; non-trivial: all", c10);
} // namespace drv
