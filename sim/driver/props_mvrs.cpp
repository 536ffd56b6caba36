// C06: IPs moving between universes.  C07: isolation, names and copies.
#include "native.h"
#include <algorithm>
#include <cerrno>
namespace drv {
namespace {
std::string uname(int u){ return fmt("u%d.b98", u); }
std::string delay(Rng& r){ std::string s; u32 n = r.pct(50) ? r.below(4) : r.below(30); while(n--) s += r.pct(60) ? "z" : "1$"; return s; }
// what a traveller must print: a nibble, or a byte that is a cell of a universe's initial contents
struct W { int uni; int v; bool byte; bool cell; i64 x, y; };
struct Trav {
	int id, u; i64 x, y; std::vector<Canvas>* cv; std::vector<W> want; std::map<int, int> mine; std::vector<W> child; int splits = 0;
	void put(const std::string& s){ (*cv)[(size_t)u].put((size_t)x, (size_t)y, s); x += (i64)s.size(); }
	void below(i64 dx, const std::string& s){ (*cv)[(size_t)u].put((size_t)(x + dx), (size_t)y + 1, s); }
	void m(int v){ put(mark(id, v)); want.push_back(W{ u, v, false, false, 0, 0 }); }
	void e2(int v){ put(emit2(id)); want.push_back(W{ u, v, true, false, 0, 0 }); }
};
}
static void hop(Rng& r, Trav& t, int to){
	u32 k = r.below(10);
	if(k == 5) k = 10; // standing still: the cell arrived at says where to go
	if(k < 6){ t.put(pushes(uname(to)) + "J"); t.u = to; t.put("z"); return; }
	i64 nx = t.x + 70 + r.range(0, 20); int dx = 1, dy = 0; i64 ny = t.y;
	if(k == 6) dx = 2; else if(k == 7){ dx = -1; ny = t.y + 2; } else if(k == 8){ dx = 0; dy = -1; ny = t.y + 2; } else if(k == 10){ dx = 0; ny = t.y + 2; }
	t.put(pushes(uname(to)) + num(nx) + num(ny) + num(0) + num(dx) + num(dy) + num(0) + "G");
	t.u = to; auto& cv = (*t.cv)[(size_t)to];
	if(dx == 1){ t.x = nx + 1; t.put("z"); }
	else if(dx == 2){ std::string s = delay(r); for(char& c : s) if(c == '1') c = 'z'; else if(c == '$') c = 'z'; t.x = nx + 2; for(char c : s){ cv.put((size_t)t.x, (size_t)t.y, std::string(1, c)); t.x += 2; } cv.put((size_t)t.x, (size_t)t.y, ">"); t.x++; }
	else if(dx == -1){ int v = (int)r.below(16); std::string s = mark(t.id, v); t.want.push_back(W{ to, v, false, false, 0, 0 }); i64 x = nx - 1; for(char c : s) cv.put((size_t)x--, (size_t)ny, std::string(1, c)); cv.put((size_t)x, (size_t)ny, "^"); cv.put((size_t)x, (size_t)t.y, ">"); t.x = std::max(x + 1, t.x); if(t.x > x + 1) t.x = x + 1; t.put("z"); }
	else { if(k == 10) cv.put((size_t)nx, (size_t)ny, "^"); cv.put((size_t)nx, (size_t)t.y, ">"); t.x = nx + 1; t.put("z"); }
}
// the bytes of each tag class with the thread that printed them
static std::vector<std::vector<std::pair<int, u32>>> tagged(const Result& x, std::string& rest){
	std::vector<std::vector<std::pair<int, u32>>> o(8);
	for(auto& e : x.ev) if(e.kind == E_STDOUT) for(unsigned char c : e.s){ if(c < 0x80) rest += (char)c; else o[(size_t)((c - 0x80) >> 4)].push_back({ c & 15, e.tid }); }
	return o;
}
// tids: of the universes' threads (empty: any)
static std::string match(const std::string& who, const std::vector<W>& want, const std::vector<std::pair<int, u32>>& got, const std::vector<u32>& tids, bool prefix){
	std::vector<std::pair<int, int>> w; for(auto& x : want) if(x.byte){ w.push_back({ (x.v >> 4) & 15, x.uni }); w.push_back({ x.v & 15, x.uni }); } else w.push_back({ x.v, x.uni });
	for(size_t i = 0; i < got.size(); ++i){
		if(i >= w.size()) return fmt("instructions: %s printed %zu values instead of %zu", who.c_str(), got.size(), w.size());
		if(got[i].first != w[i].first) return fmt("instructions: %s printed %d as value %zu instead of %d", who.c_str(), got[i].first, i, w[i].first);
		if(!tids.empty() && w[i].second >= 0 && tids[(size_t)w[i].second] != got[i].second) return fmt("universe: %s printed value %zu, in universe %d, from another universe's thread", who.c_str(), i, w[i].second);
	}
	if(!prefix && got.size() < w.size()) return fmt("instructions: %s printed %zu values instead of %zu", who.c_str(), got.size(), w.size());
	return "";
}
static std::vector<u32> universe_threads(const Result& x, size_t n){ std::vector<u32> t; for(auto& e : x.ev) if(e.kind == E_THREAD && e.tid == 0) t.push_back((u32)e.a); if(t.size() > n) t.resize(n); return t; }

// one IP going through universes that are in different modes, its values with it
static Case c06_modes(Rng& r, int tier){
	Case c; c.schedules = 2; bool native = r.pct(30); c.kind = std::string("universes in different modes") + (native ? ", native threads" : ", turns"); int U = (int)r.range(2, 3), u = 0; std::vector<int> mode((size_t)U, 0);
	auto m = std::make_shared<Model>(); UniCfg g; g.standard = 98; g.dims = 2; g.args = { "m.fmv" }; std::string fmv;
	std::vector<std::string> text((size_t)U); text[0] = load("MVRS") + load("MODE");
	auto put = [&](const std::string& s){ auto& t = text[(size_t)u]; if(t.size() < text[0].size()) t.resize(text[0].size(), ' '); size_t n = 0; for(auto& x : text) n = std::max(n, x.size()); t.resize(n, ' '); t += s; };
	u32 hops = 1 + r.below(tier ? 9 : 6);
	for(u32 h = 0; ; ++h){
		for(u32 k = 1 + r.below(8); k--; ){
			if(r.pct(20)){ char q = r.pickc("IQ"); put(std::string(1, q)); mode[(size_t)u] ^= q == 'I' ? 1 : 2; }
			else if(r.pct(10)) put("#@" + num((i64)r.below(100)) + "t");
			else put(std::string(1, r.pickc("1234567890123456....:\\+-z")));
		}
		if(h == hops) break;
		bool fifo = mode[(size_t)u] == 1 || mode[(size_t)u] == 2; int to = (int)r.below((u32)U); std::string n = uname(to); if(fifo) put("n\"" + n + "\"0J"); else put(pushes(n) + "J");
		size_t at = text[(size_t)u].size(); u = to; text[(size_t)u].resize(at, ' ');
	}
	put("......@");
	for(int i = 0; i < U; ++i){
		std::string s = text[(size_t)i]; if(i) s[0] = '@';
		if(i && s.size() < 2) s = "@"; s += "\nz\n"; c.sc.file("/sim/work/" + uname(i), s); fmv += uname(i) + "\n"; c.note += "--- " + uname(i) + "\n" + s; UniCfg q = g; q.name = uname(i); m->add(q, s); m->start(*m->unis.back());
	}
	std_files(c.sc); c.sc.argv = { "funge" }; if(native) c.sc.argv.push_back("-fthreads=native"); c.sc.argv.push_back("m.fmv"); c.sc.file("/sim/work/m.fmv", fmv); add_noise(r, c.sc); c.sc.max_points = 100000000;
	m->max_ticks = 60000; m->max_work = 60000; m->run(); c.valid = m->valid && (!native || m->splits == 0); if(!c.valid) c.kind = m->why; c.probes["transfers"] += m->transfers;
	c.check = [m](const Result& x) { return compare(*m, x); };
	return c;
}
static Case c06(Rng& r, int tier){
	if(r.pct(10)) return c06_modes(r, tier);
	Case c; c.schedules = 4; bool native = r.pct(30), quits = r.pct(25); int U = (int)r.range(2, 4), T = (int)r.range(1, 4);
	auto cv = std::make_shared<std::vector<Canvas>>((size_t)U); std::vector<Trav> tr; std::vector<std::vector<int>> cell((size_t)U, std::vector<int>(8, 0));
	int victim = quits ? (int)r.range(1, U - 1) : -1, vcode = (int)r.below(256);
	c.kind = std::string(native ? "native threads" : "turns") + (quits ? ", target quits" : "");
	// universe 0: the travellers are split off one by one; the others run something of their own
	{ std::vector<std::string> heads; for(int i = 0; i < T; ++i) heads.push_back("z"); Canvas s; std::string text = staircase(heads, 4); size_t k = 0, y = 2; while(k < text.size()){ size_t e = text.find('\n', k); (*cv)[0].put(0, y++, text.substr(k, e - k)); k = e + 1; } (*cv)[0].put(0, 0, "v"); }
	std::vector<std::vector<W>> own((size_t)U);
	for(int u = 1; u < U; ++u){
		std::string s; int n = (int)r.below(5); for(int j = 0; j < n; ++j) s += delay(r);
		if(u == victim) s += num(vcode) + "q"; else if(r.pct(20)) s += num((i64)r.below(40)) + "zz"; 
		(*cv)[(size_t)u].put(0, 0, u == victim ? s : s + "@");
	}
	// cells that tell the universes apart
	for(int u = 0; u < U; ++u){ (*cv)[(size_t)u].put(3, 30, std::string(1, (char)('A' + u))); (*cv)[(size_t)u].put(1500, 40, "z"); for(int i = 0; i < 8; ++i) cell[(size_t)u][(size_t)i] = 32; }
	int hops = 0; bool reflecting = quits;
	for(int i = 0; i < T; ++i){
		Trav t; t.id = i; t.u = 0; t.x = 2 * i + 5; t.y = 2 + 4 * i; t.cv = cv.get();
		t.put(load("MVRS") + delay(r)); int n = (int)r.range(1, tier ? 12 : 7); std::vector<int> st;
		for(int j = 0; j < n; ++j){
			int to = (int)r.below((u32)U);
			if(reflecting){ // go to the universe that quits; whoever cannot any more carries on
				t.put(delay(r)); t.m((int)r.below(16));
				break;
			}
			bool block = r.pct(20); i64 ox = 0; // an own block with its storage offset goes along
			if(block){ t.put("0{"); ox = t.x; t.put("z"); }
			hop(r, t, to); ++hops;
			if(block){ t.put("00g"); t.put(emit2(i)); t.want.push_back(W{ t.u, 0, true, true, ox, t.y }); t.put("0}"); }
			int k = (int)r.below(4); for(int q = 0; q < k; ++q) switch(r.below(9)){
				case 0: t.m((int)r.below(16)); break;
				case 1: t.put(delay(r)); break;
				case 2: t.put(xy(3, 30) + "g"); t.e2('A' + t.u); break;
				case 3: { int v = (int)r.range(33, 126); t.put(num(v) + xy(10 + i, 31) + "p"); cell[(size_t)t.u][(size_t)i] = v; break; }
				case 4: t.put(xy(10 + i, 31) + "g"); t.e2(cell[(size_t)t.u][(size_t)i]); break;
				case 5: { int v = (int)r.below(256); st.push_back(v); t.put(num(v)); break; }
				case 6: if(!st.empty()){ t.e2(st.back()); st.pop_back(); } break;
				case 7: if(t.x > 600) break; t.put("N$:"); t.e2('0' + t.u); t.put("$$$$$$"); break;
				case 8: // a name nobody has
					{ t.put(pushes(r.pick(std::vector<std::string>{ "nix", "", "u0", "u1.b98.1", "U0.b98", "u9.b98" }))); u32 q = r.below(5); std::string op = "J";
					auto at = [&]{ return xy((i64)r.below(90), 50 + (i64)r.below(40)); };
					if(q == 0){ op = "G"; t.put(at() + "0100"); } else if(q == 1){ op = "F"; t.put(at() + at() + "0" + "23"); } else if(q == 2){ op = "P"; t.put(at() + "0" + at() + "23"); }
					t.below(1, fmt(">'") + (char)(tag(i) + 5) + ",^"); t.put("#v" + op + "z@>"); }
					t.want.push_back(W{ t.u, 5, false, false, 0, 0 }); break;
			}
			if(!t.splits && r.pct(25) && t.x < 1000){ // an IP split off here belongs to this universe
				t.splits = 1; t.below(1, ">" + delay(r) + xy(3, 30) + "g" + emit2(i + 4) + mark(i + 4, 9) + "@"); t.child = { W{ t.u, 'A' + t.u, true, false, 0, 0 }, W{ t.u, 9, false, false, 0, 0 } }; t.put("#vt"); t.x += 0; t.put(std::string(3, 'z'));
				// keep clear of the child's row
				i64 nx = t.x + 90; t.put(">"); t.x = nx; t.put("z");
			}
		}
		if(reflecting){
			// who is refused goes round and ends at home; who arrives prints until the universe is gone
			bool given = r.pct(40); i64 nx = t.x + 90; t.put(pushes(uname(victim))); if(given) t.put(xy(nx, t.y) + "0100");
			std::vector<W> home = t.want, away = t.want;
			t.below(1, ">" + mark(i, 5) + mark(i, 6) + "@"); home.push_back(W{ 0, 5, false, false, 0, 0 }); home.push_back(W{ 0, 6, false, false, 0, 0 });
			t.put(given ? "#vG" : "#vJ"); t.u = victim; t.want.clear(); if(given) t.x = nx + 1; t.put("z"); u32 k = 1 + r.below(12); for(u32 q = 0; q < k; ++q){ t.m(7); t.put(delay(r)); }
			for(auto& w : t.want) away.push_back(w);
			t.put(r.pct(50) ? ">z<" : "@"); t.want = away; t.child = home;
		}else{
			while(!st.empty()){ t.e2(st.back()); st.pop_back(); }
			if(r.pct(15)){ int to = (int)r.below((u32)U); i64 nx = t.x + 60; t.put(pushes(uname(to)) + xy(nx, t.y) + "0000G"); (*cv)[(size_t)to].put((size_t)nx, (size_t)t.y, "@" + mark(i, 12) + "@"); }
			else t.put("@");
		}
		tr.push_back(t);
	}
	std_files(c.sc); c.sc.argv = { "funge" }; if(native) c.sc.argv.push_back("-fthreads=native"); std::string fmv;
	for(int u = 0; u < U; ++u){ c.sc.file("/sim/work/" + uname(u), (*cv)[(size_t)u].text()); fmv += uname(u) + "\n"; c.note += "--- " + uname(u) + "\n" + (*cv)[(size_t)u].text(); }
	c.sc.argv.push_back("m.fmv"); c.sc.file("/sim/work/m.fmv", fmv); add_noise(r, c.sc); c.sc.max_points = 100000000;
	for(auto& t : tr) for(auto& w : t.want) if(w.cell){ auto& v = (*cv)[(size_t)w.uni]; w.v = (size_t)w.y < v.rows.size() && (size_t)w.x < v.rows[(size_t)w.y].size() ? (unsigned char)v.rows[(size_t)w.y][(size_t)w.x] : ' '; }
	c.probes["transfers"] += (u64)hops; c.probes["travellers"] += (u64)T;
	auto own_tr = std::make_shared<std::vector<Trav>>(tr);
	c.check = [own_tr, U, native, quits](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		if(x.exit_code != 0) return fmt("exit code: %d instead of 0", x.exit_code);
		std::string rest; auto got = tagged(x, rest); if(!rest.empty()) return "output: unexpected " + quote(rest);
		std::vector<u32> tids; if(!native) tids = universe_threads(x, (size_t)U);
		for(auto& t : *own_tr){
			std::string who = fmt("traveller %d", t.id); auto& g = got[(size_t)t.id];
			if(!quits){ s = match(who, t.want, g, tids, false); if(!s.empty()) return s; s = match(who + "'s child", t.child, got[(size_t)t.id + 4], tids, false); if(!s.empty()) return s; continue; }
			std::string a = match(who, t.want, g, tids, true), b = match(who, t.child, g, tids, false); if(!b.empty() && !a.empty()) return a + "; or " + b;
		}
		return "";
	};
	return c;
}
static Reg r06("C06", "one to four IPs moving between two to four universes (keeping or changing place and direction, to running, idle, own and quitting universes, by wrong names, splitting on the way), carrying values and reading and writing each universe's cells; each must print exactly its path's values, from the thread of the universe it is in; non-trivial: all", c06);

// ---- C07
static Case c07_isolation(Rng& r){
	Case c; c.kind = "universes side by side"; c.schedules = 3; int U = (int)r.range(2, 4); std::string fmv; std_files(c.sc); c.sc.argv = { "funge" };
	std::vector<std::shared_ptr<Model>> ms; std::vector<std::string> flags; UniCfg base; base.standard = 98; int reader = r.pct(30) ? (int)r.below((u32)U) : -1;
	if(r.pct(30)){ flags.push_back("-fstrings=multispace"); base.strings = 0; } else if(r.pct(20)){ flags.push_back("-fstrings=c"); base.strings = 2; }
	if(r.pct(15)){ flags.push_back("-fno-concurrent"); base.conc = false; }
	if(reader >= 0){ u32 n = r.below(20); for(u32 i = 0; i < n; ++i) c.sc.input += r.pct(50) ? (char)('0' + r.below(10)) : r.pickc(" abc,.\n"); }
	std::vector<std::string> sn; for(const char* f : { "BOOL", "BITW", "FRTH", "STRN" }) sn.push_back(load(f)); sn.push_back("12345{.."); sn.push_back("04-{"); sn.push_back("2}"); sn.push_back("\"olleh\",,,"); sn.push_back("3k1"); sn.push_back("#@"); sn.push_back("99s"); sn.push_back("00g.10g.01g."); sn.push_back("5000p"); sn.push_back("\"n\"01p"); sn.push_back("40g30p");
	int code = 0; u64 splits = 0;
	for(int u = 0; u < U; ++u){
		if(u > 0 && r.pct(20)){ // changes its own modes, and ends in some way
			std::string s = load("MODE"); u32 n = 1 + r.below(8); for(u32 i = 0; i < n; ++i) s += r.pickc("HISQz1"); s += r.pct(50) ? "@" : num((i64)r.below(100)) + "q"; ms.push_back(nullptr);
			c.sc.file("/sim/work/" + uname(u), s + "\n"); fmv += uname(u) + "\n"; c.note += "--- " + uname(u) + "\n" + s + "\n"; continue;
		}
		for(int t = 0; ; ++t){
			if(t == 12){ c.valid = false; c.kind = "no program found"; return c; }
			Mix m; m.sys = 0; m.exec = 0; m.file = 0; m.fing = 0; m.odd = 0; m.vec = 2; m.split = 3; m.gp = 6; m.input = u == reader ? 4 : 0; Wild w = wild(r, m, (int)r.range(24, 50), (int)r.range(4, 12), true, sn);
			auto md = std::make_shared<Model>(); UniCfg g = base; bool old = r.pct(25); g.standard = old ? 93 : 98; g.dims = 0; md->max_ticks = 6000; md->input = c.sc.input;
			md->add(g, w.text); md->start(*md->unis[0]); md->run(); if(!md->valid || md->used.count('?') || md->used.count('y')) continue;
			std::string n = fmt("u%d.%s", u, old ? "bf" : "b98"); c.sc.file("/sim/work/" + n, w.text); fmv += n + "\n"; ms.push_back(md); c.note += "--- " + n + "\n" + w.text; splits += md->splits; if(u == 0) code = md->exit_code(); break;
		}
	}
	for(auto& f : flags) c.sc.argv.push_back(f);
	c.sc.argv.push_back("m.fmv"); c.sc.file("/sim/work/m.fmv", fmv); add_noise(r, c.sc); c.sc.max_points = 200000000; c.probes["universes"] += (u64)U; c.probes["splits"] += splits;
	c.check = [ms, U, code](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		auto t = universe_threads(x, (size_t)U);
		for(int u = 0; u < U; ++u) if(ms[(size_t)u]){ s = diff(fmt("output of universe %d", u), ms[(size_t)u]->out, x.out(t[(size_t)u])); if(!s.empty()) return s; }
		if(x.exit_code != code) return fmt("exit code: %d instead of %d", x.exit_code, code);
		return "";
	};
	return c;
}
static Case c07_names(Rng& r){
	Case c; c.schedules = 4; bool native = r.pct(25), failing = r.pct(15); bool libs = false; int U = (int)r.range(1, 3); int T = 0; std::vector<Canvas> cv((size_t)U);
	c.kind = std::string("universes created") + (native ? ", native threads" : ", turns") + (failing ? ", thread creation failing" : "");
	std::map<std::string, int> made; std::vector<std::string> bases{ "n", "m", uname(U - 1), "n n" }; int total = 0; if(r.pct(15)) bases[1] = std::string(41 + r.below(20), 'm');
	std::vector<std::vector<std::string>> rows((size_t)U), low((size_t)U);
	for(int u = 0; u < U; ++u){
		int K = (int)r.range(1, 2);
		for(int i = 0; i < K; ++i){
			std::string s = load("MVRS") + delay(r), w(s.size(), ' '); int n = (int)r.range(1, 4), me = T++;
			if(!failing && r.pct(20)){ s += load("ZLIB") + mark(me, 1); ++total; w.resize(s.size(), ' '); libs = true; }
			for(int j = 0; j < n; ++j){
				std::string b = r.pick(bases); i64 flags = 0, lang = r.range(0, 2), dim = r.pct(50) ? 0 : r.range(1, 3); bool bad = false;
				if(r.pct(15)){ if(r.pct(50)) flags = r.range(1, 0x1ff); else lang = r.range(3, 9); bad = true; }
				s += pushes(b) + num(flags) + num(lang) + num(dim); w.resize(s.size(), ' ');
				s += "#vB" + mark(me, 1) + ">"; s += ""; w += " >" + mark(me, 2) + "^";
				// columns: # v B ' X , >   below:   > ' X , ^ needs one more
				w.insert(w.size() - 1, "z"); 
				if(!bad){ made[b]++; ++total; }
				s += delay(r); w.resize(s.size(), ' ');
			}
			// report at home: go to universe 0 and leave a sign there
			if(u) s += pushes(uname(0)) + "J", w.resize(s.size(), ' ');
			rows[(size_t)u].push_back(s); low[(size_t)u].push_back(w);
		}
	}
	// rows of all universes lie on different lines, so that those who come home find their own line's end there
	int line = 2, idx = 0; std::vector<std::pair<int, std::string>> tails;
	for(int u = 0; u < U; ++u){
		cv[(size_t)u].put(0, 0, "v"); int K = (int)rows[(size_t)u].size() + (u == 0 ? 1 : 0);
		for(int i = 0; i < K; ++i){
			bool last = i + 1 == K; size_t x = (size_t)(2 * i);
			if(u == 0 && last){ cv[0].put(x, (size_t)line, ">"); tails.push_back({ line, "" }); tails.back().first = line; line += 4; continue; }
			std::string sgn = set_cell(1, idx, 90) + "@"; ++idx;
			cv[(size_t)u].put(x, (size_t)line, std::string(">") + (last ? "zzz" : "#vt") + rows[(size_t)u][(size_t)i]); cv[(size_t)u].put(x + 4, (size_t)line + 1, low[(size_t)u][(size_t)i]);
			size_t at = x + 4 + rows[(size_t)u][(size_t)i].size(); cv[0].put(at, (size_t)line, sgn);
			if(!last) for(int g = 1; g < 4; ++g) cv[(size_t)u].put(x + 2, (size_t)(line + g), "v");
			line += 4;
		}
	}
	std::string want; int tg = 7;
	{ // the one who looks: waits for all, then visits everybody
		int y = tails.back().first; size_t x = cv[0].rows[(size_t)y].size(); auto put = [&](const std::string& s){ cv[0].put(x, (size_t)y, s); x += s.size(); };
		put(load("MVRS")); for(int i = 0; i < idx; ++i) put(wait_cell(i, 90, 1)); put("C" + emit2(tg));
		if(!failing) for(auto& b : made){
			for(int k = 0; k < b.second + 1; ++k){
				// a universe file's own name is taken by that universe
				int q = k + (b.first == uname(U - 1) ? 1 : 0);
				std::string nm = q ? b.first + "." + std::to_string(q) : b.first;
				if(k == b.second){ // nobody has this one
					put(pushes(nm)); cv[0].put(x + 1, (size_t)y + 1, ">" + mark(tg, 5) + "^"); put("#vJ@@>"); continue;
				}
				std::string visit = "N"; for(size_t i = 0; i < nm.size(); ++i) visit += ","; visit += "$" + pushes(uname(0)) + "J";
				std::string jump = pushes(nm) + "J"; std::string cp; size_t x0 = 0;
				for(size_t guess = x + 40; ; ){ cp = pushes(nm) + num((i64)guess) + num(y) + "0" + num((i64)guess) + num(y) + num((i64)visit.size()) + "1P"; size_t at = x + cp.size() + jump.size(); if(at <= guess){ cp += std::string(guess - at, 'z'); x0 = guess; break; } guess = at; }
				put(cp + jump); (void)x0; put(visit); want += nm;
			}
		}
		put("@");
	}
	int misses = failing ? 0 : (int)made.size(); cv[0].put(2000, 95, "z");
	std::string fmv; std_files(c.sc); c.sc.argv = { "funge" }; if(native) c.sc.argv.push_back("-fthreads=native");
	for(int u = 0; u < U; ++u){ c.sc.file("/sim/work/" + uname(u), cv[(size_t)u].text()); fmv += uname(u) + "\n"; c.note += "--- " + uname(u) + "\n" + cv[(size_t)u].text(); }
	if(U == 1) c.sc.argv.push_back("u0.b98"); else { c.sc.argv.push_back("m.fmv"); c.sc.file("/sim/work/m.fmv", fmv); }
	add_noise(r, c.sc); if(failing && !native) c.sc.fault(OP_THREAD, F_ERR, (u32)(U + (int)r.below(4)), EAGAIN); c.sc.max_points = 100000000; c.probes["universes created"] += (u64)total;
	if(libs){ c.sc.file("/sim/fing/ZLIB.fl", "=A\n1@\n"); c.probes["libraries among them"] += 1; }
	if(failing && native) c.valid = false;
	c.check = [want, total, U, misses, failing](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code) return fmt("exit code: %d", x.exit_code);
		std::string rest; auto g = tagged(x, rest); int ok = 0; for(int i = 0; i < 7; ++i) for(auto& v : g[(size_t)i]) if(v.first == 1) ++ok;
		if(!failing && ok != total) return fmt("create: %d universes were created, %d instructions succeeded", total, ok);
		if(failing && ok < total - 1) return fmt("create: only %d of %d instructions succeeded", ok, total);
		auto& l = g[7]; if(l.size() != 2 + (size_t)misses) return fmt("names: %zu wrong names were refused instead of %d", l.size() < 2 ? 0 : l.size() - 2, misses);
		int n = l[0].first * 16 + l[1].first; if(n != U + ok) return fmt("count: there are %d universes but %d are reported", U + ok, n);
		return diff("names", want, rest);
	};
	return c;
}
static Case c07_copies(Rng& r, int tier){
	Case c; c.kind = "regions copied"; c.schedules = 2; int U = (int)r.range(2, 4); auto m = std::make_shared<Model>(); UniCfg g; g.standard = 98; g.dims = 2; g.args = { "m.fmv" };
	std::vector<Canvas> cv((size_t)U); std::string fmv;
	auto noise = [&](Canvas& p, size_t x0, size_t y0){ for(int y = 0; y < 14; ++y) for(int x = 0; x < 24; ++x) if(r.pct(70)){ u32 k = r.below(300); p.put(x0 + (size_t)x, y0 + (size_t)y, std::string(1, k < 255 && k != '\n' && k != '\r' && k != '\f' && k != '\v' && k ? (char)k : ' ')); } };
	for(int u = 0; u < U; ++u) noise(cv[(size_t)u], 0, 20);
	auto area = [&](i64& x, i64& y, i64 w, i64 h, bool far){ x = r.range(far ? -10 : 0, std::max<i64>(0, 30 - w)); y = far && r.pct(20) ? -1 - r.below(9) - h : r.range(18, 38 - h); };
	std::string s = load("MVRS"); int n = (int)r.range(1, tier ? 12 : 6);
	for(int i = 0; i < n; ++i){
		i64 w = r.pct(10) ? r.range(13, 48) : r.range(1, 12), h = r.range(1, 7), x, y, x2, y2; area(x, y, w, h, true); area(x2, y2, w, h, true); int o = (int)r.range(1, U - 1); std::string nm = pushes(uname(o)); i64 z = r.pct(15) ? r.range(1, 2) : 0;
		if(r.pct(25)){ i64 v = r.pct(50) ? -(i64)r.below(1000) : (i64)r.below(100000); s += num(v) + xy(x, y) + "p"; }
		if(r.pct(50)) s += nm + xy(x2, y2) + xy(x, y) + num(r.pct(80) ? 0 : z) + xy(w, h) + "F";            // name, dest, src(3), size
		else s += nm + xy(x2, y2) + num(z) + xy(x, y) + xy(w, h) + "P";                       // name, dest(3), src, size
		if(r.pct(30)) s += xy(x2, y2) + "g.";
	}
	// everybody writes down what they have when told
	s += "'!" + xy(40, 60) + "p"; for(int u = 1; u < U; ++u) s += pushes(uname(u)) + xy(40, 60) + "0" + xy(40, 60) + "11P";
	auto write = [&](int u){ return xy(44, 42) + xy(-12, -2) + "1" + pushes(fmt("out%d", u)) + "o"; };
	cv[0].put(0, 0, s + write(0) + "@");
	for(int u = 1; u < U; ++u) cv[(size_t)u].put(0, 0, until_zero(set_cell(r.range(33, 99), 41, 61) + (r.pct(50) ? "z" : "") + xy(40, 60) + "g'!-") + write(u) + "@");
	for(int u = 0; u < U; ++u){ cv[(size_t)u].put(1600, 64, "z"); UniCfg q = g; q.name = uname(u); m->add(q, cv[(size_t)u].text()); m->start(*m->unis.back()); }
	std_files(c.sc); for(int u = 0; u < U; ++u){ c.sc.file("/sim/work/" + uname(u), cv[(size_t)u].text()); fmv += uname(u) + "\n"; c.note += "--- " + uname(u) + "\n" + cv[(size_t)u].text(); }
	c.sc.argv = { "funge", "m.fmv" }; c.sc.file("/sim/work/m.fmv", fmv); add_noise(r, c.sc); c.sc.max_points = 200000000;
	m->max_ticks = 60000; m->max_work = 60000; m->run(); c.valid = m->valid; if(!m->valid) c.kind = m->why; c.probes["copies"] += (u64)n;
	c.check = [m](const Result& x) { return compare(*m, x); };
	return c;
}
// the names of universes that exist, asked for while others are being made
static Case c07_lookup(Rng& r, int tier){
	Case c; bool native = r.pct(60); c.kind = std::string("names asked for while universes are made") + (native ? ", native threads" : ""); c.schedules = 4; int K = (int)r.range(2, 4); std::vector<GRow> rows((size_t)K); auto want = std::make_shared<std::vector<int>>((size_t)K, 0);
	bool sorted = r.pct(60);
	for(int i = 0; i < K; ++i){
		auto& g = rows[(size_t)i]; g.code(load("MVRS")); bool maker = i == 0 || (i > 1 && r.pct(50)); int n = (int)r.range(2, tier ? 14 : 8); std::string own = native ? "p.b98" : uname(i);
		if(!maker && r.pct(50)){ own = fmt("%c%d", (char)('a' + r.below(26)), i + 50); g.code(pushes(own) + "000B"); }
		for(int j = 0; j < n; ++j){
			if(maker) g.code(pushes(fmt("%c%c%d", (char)(sorted ? 'a' + j : 'a' + (int)r.below(26)), (char)('a' + r.below(26)), i)) + "000B");
			else { g.code(pushes(own) + "0000000"); g.guard(r.pct(50) ? "F" : "P", mark(i, 1), (char)(tag(i) + 5)); (*want)[(size_t)i]++; }
			if(r.pct(20)) g.code(delay(r));
		}
		g.code("@");
	}
	std_files(c.sc); c.sc.argv = { "funge" };
	if(native){ std::string t = two_rows(rows) + "\nz\n"; c.sc.argv.push_back("-fthreads=native"); c.sc.argv.push_back("p.b98"); c.sc.file("/sim/work/p.b98", t); c.note = t; }
	else { std::string list; for(int i = 0; i < K; ++i){ std::string t = two_rows({ rows[(size_t)i] }) + "\nz\n"; c.sc.file("/sim/work/" + uname(i), t); list += uname(i) + "\n"; c.note += "--- " + uname(i) + "\n" + t; } c.sc.argv.push_back("m.fmv"); c.sc.file("/sim/work/m.fmv", list); }
	add_noise(r, c.sc); c.sc.max_points = 100000000;
	c.check = [want, K](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code) return fmt("exit code: %d", x.exit_code);
		std::string rest; auto g = tagged(x, rest); if(!rest.empty()) return "output: unexpected " + quote(rest);
		for(int i = 0; i < K; ++i){ int ok = 0; for(auto& v : g[(size_t)i]) if(v.first == 1) ++ok; else return fmt("names: a universe that exists was not found by IP %d", i); if(ok != (*want)[(size_t)i]) return fmt("names: IP %d found its universe %d times instead of %d", i, ok, (*want)[(size_t)i]); }
		return "";
	};
	return c;
}
// universes made by one of one, two or three dimensions, and what a visitor sees there
static Case c07_made(Rng& r){
	Case c; c.kind = "universes of other dimensions"; c.schedules = 2; int D = (int)r.range(1, 3); std::vector<std::string> names{ "p.b98" }; std::vector<int> dims{ D };
	std::string s = load("MVRS"), want; u32 n = 1 + r.below(4); auto pad = [&](size_t to){ s.resize(to, 'z'); };
	for(u32 i = 0; i < n; ++i){
		i64 dim = r.pct(40) ? 0 : r.range(1, 4), lang = r.pct(50) ? 0 : r.range(1, 2); std::string b = fmt("w%u", i); s += pushes(b) + "0" + num(lang) + num(dim) + "B"; names.push_back(b); dims.push_back(dim ? (int)dim : D);
		u32 v = r.below((u32)names.size()); bool home = v == 0;
		size_t x0 = s.size() + 90; std::string code = "7y." + pushes("p.b98") + "J";
		if(!home){ std::string zero = D > 1 ? std::string((size_t)D - 1, '0') : "", one = D > 1 ? std::string((size_t)D - 1, '1') : ""; s += pushes(names[v]) + num((i64)x0) + "00" + num((i64)x0) + zero + num((i64)code.size()) + one + "P"; }
		s += pushes(names[v]) + "J"; if(s.size() > x0){ c.valid = false; c.kind = "too long"; return c; }
		if(!home){ std::string j = s; s.insert(s.size() - pushes(names[v]).size() - 1, std::string(x0 - s.size(), 'z')); } else pad(x0);
		s += code; want += fmt("%d ", dims[v]); s += "7y."; want += fmt("%d ", D);
	}
	s += "C.@"; want += fmt("%u ", n + 1);
	std_files(c.sc); std::string text = s + "\n"; c.sc.argv = { "funge", D == 1 ? "-std=une98" : D == 2 ? "-std=be98" : "-std=tre98" }; c.sc.argv.push_back("p.b98"); c.sc.file("/sim/work/p.b98", text); c.note = text; add_noise(r, c.sc); c.sc.max_points = 100000000; c.probes["universes created"] += n;
	c.check = [want](const Result& x) -> std::string { std::string e = sanity(x); if(!e.empty()) return e; if(x.exit_code) return fmt("exit code: %d", x.exit_code); return diff("dimensions", want, x.out()); };
	return c;
}
static Case c07(Rng& r, int tier){ u32 k = r.below(10); if(r.pct(6)) return c07_made(r); if(r.pct(12)) return c07_lookup(r, tier); return k < 3 ? c07_isolation(r) : k < 6 ? c07_names(r) : c07_copies(r, tier); }
static Reg r07("C07", "universes of different standards side by side, each of which must print what it prints alone; universes created by many IPs at once under equal names and then visited one by one; regions copied back and forth, every universe's cells compared with the model's; non-trivial: all", c07);
} // namespace drv
