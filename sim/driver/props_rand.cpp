// C12: random moves.  C23: references to cells.
#include "native.h"
#include <algorithm>
namespace drv {
namespace {
typedef std::map<V4, char> Cells;
std::string text_of(const Cells& c){
	V4 hi{{0,0,0,0}}; for(auto& k : c) for(int i = 0; i < 4; ++i) hi[i] = std::max(hi[i], k.first[i]);
	std::string t;
	for(i64 w = 0; w <= hi[3]; ++w) for(i64 z = 0; z <= hi[2]; ++z){
		if(z) t += "\f "; else if(w) t += "\v ";   // line breaks right after these do not count; nothing is in column 0 there
		i64 ymax = -1; for(auto& k : c) if(k.first[2] == z && k.first[3] == w) ymax = std::max(ymax, k.first[1]);
		for(i64 y = 0; y <= ymax; ++y){
			std::string row; for(auto& k : c) if(k.first[1] == y && k.first[2] == z && k.first[3] == w){ if((i64)row.size() <= k.first[0]) row.resize((size_t)k.first[0] + 1, ' '); row[(size_t)k.first[0]] = k.second; }
			if((z || w) && !y && !row.empty()) row = row.substr(1); t += row; if(y < ymax) t += '\n';
		}
	}
	t += '\n';
	return t;
}
void put(Cells& c, i64 x, i64 y, const std::string& s){ for(char ch : s) c[V4{{ x++, y, 0, 0 }}] = ch; }
const char digits[] = "0123456789abcdef";
// The choices of one walker among all that was printed: pairs of the choice and the one before.
std::string moves_of(const std::vector<int>& vals, int first, int dirs, int in, std::vector<int>& out){
	int before = first + in; bool second = false;
	for(int v : vals){
		if(v < first || v >= first + dirs) continue;
		if(!second){ out.push_back(v - first); second = true; }
		else { if(v != before) return fmt("unchanged: the value %d was on the stack, the value %d came back", before, v); before = first + out.back(); second = false; }
	}
	return "";
}
std::string untied(const std::vector<std::vector<int>>& w, int dirs){
	size_t need = (size_t)dirs * 50;
	for(size_t i = 0; i < w.size(); ++i){
		if(w[i].size() < need) continue; std::set<int> s(w[i].begin(), w[i].end());
		for(int d = 0; d < dirs; ++d) if(!s.count(d)) return fmt("reachable: direction %d was never chosen in %zu moves", d, w[i].size());
		for(size_t p = 1; p <= 12; ++p){ bool same = true; for(size_t k = p; k < need && same; ++k) same = w[i][k] == w[i][k - p]; if(same) return fmt("successive: the choices repeat after %zu moves", p); }
		std::map<int, std::set<int>> f; for(size_t k = 1; k < need; ++k) f[w[i][k - 1]].insert(w[i][k]); bool function = true; for(auto& q : f) if(q.second.size() > 1) function = false; if(function) return "successive: each choice follows from the one before";
		for(size_t j = 0; j < i; ++j){ if(w[j].size() < need) continue; std::map<int, std::set<int>> g; for(size_t k = 0; k < need; ++k) g[w[j][k]].insert(w[i][k]); bool fn = true; for(auto& q : g) if(q.second.size() > 1) fn = false; if(fn) return fmt("other: the choices of walker %zu follow from those of walker %zu", i, j); }
	}
	return "";
}
// Walkers of two runs under different random numbers: does one follow from the other?
std::string apart(const std::vector<std::vector<int>>& a, const std::vector<std::vector<int>>& b, size_t need){
	for(size_t i = 0; i < a.size(); ++i) for(size_t j = 0; j < b.size(); ++j){
		if(a[i].size() < need || b[j].size() < need) continue;
		std::map<int, std::set<int>> g; for(size_t k = 0; k < need; ++k) g[a[i][k]].insert(b[j][k]); bool fn = true; for(auto& q : g) if(q.second.size() > 1) fn = false;
		if(fn) return fmt("runs: the choices of walker %zu in another run, with other random numbers, follow from those of walker %zu", j, i);
	}
	return "";
}
// a walker's crossing: from the centre in every direction a digit, a print and a way back; entered from the north (one dimension: from the west)
void crossing(Cells& c, i64 x, i64 y, int dims, int first, const std::string& back){
	for(int a = 0; a < dims; ++a) for(int s = 0; s < 2; ++s){
		int d = 2 * a + s; i64 sign = s ? -1 : 1;
		for(int k = 1; k <= 3; ++k){
			V4 p{{ x, y, 0, 0 }}; p[(size_t)a] += sign * k; if(a >= 2 && p[(size_t)a] < 0) p[(size_t)a] += 7;
			c[p] = k == 1 ? digits[first + d] : k == 2 ? '.' : back.empty() ? 'r' : back[(size_t)d];
		}
	}
	c[V4{{ x, y, 0, 0 }}] = '?';
}
}
static Case c12(Rng& r, int tier){
	Case c; std_files(c.sc); c.sc.argv = { "funge" }; u32 form = r.below(10); int n; c.sc.random_mode = r.pct(75) ? 0 : 1 + r.below(2); bool stat = c.sc.random_mode == 0; c.sc.max_points = 400000000; (void)tier;
	if(form < 6){   // ? in one to four dimensions
		int dims = (int)r.range(1, 4), dirs = 2 * dims; bool native = r.pct(35); int T = dims == 1 || dims == 4 ? 1 : dims == 2 ? (int)r.range(1, 3) : (int)r.range(1, 2), U = r.pct(60) ? 1 : 2; n = dirs * (stat ? 60 : 12); int delay = n * 7 + 20 * T;
		if(dims == 1) U = 2; if(!stat && r.pct(50)) native = true;
		c.kind = fmt("%d dimension%s%s", dims, dims > 1 ? "s" : "", native ? ", native threads" : ""); std::string list;
		for(int u = 0; u < U; ++u){
			Cells p; i64 x = 0;
			if(dims == 1){ put(p, 0, 0, "t#"); crossing(p, 5, 0, 1, 1, ""); x = 9; }
			else {
				i64 cy = 8; put(p, 0, 0, "t"); x = 1;
				for(int k = 0; k < T; ++k){ i64 col; if(k + 1 < T){ put(p, x, 0, "#vt"); col = x + 1; x += 3; i64 nx = 16 * (k + 1) - 4; if(nx > x) x = nx; } else { put(p, x, 0, "v"); col = x; x += 1; }
					i64 cx = 8 + 16 * k; p[V4{{ col, 2, 0, 0 }}] = cx == col ? 'v' : cx > col ? '>' : '<'; p[V4{{ cx, 2, 0, 0 }}] = 'v'; p[V4{{ cx, cy - 4, 0, 0 }}] = '#';
					crossing(p, cx, cy, dims, 1 + k * dirs, dims == 2 && r.pct(50) ? "<>^v" : ""); }
			}
			i64 w = std::max<i64>(x, 20) + 3; put(p, w, 0, "q" + std::string((size_t)(native ? delay / 4 + 40 : delay), 'z'));
			std::string t = text_of(p), name = fmt("u%d.b98", u); c.sc.file("/sim/work/" + name, t); list += name + "\n"; if(!u) c.note = t.substr(0, 1500); else if(U == 1) break;
		}
		if(native) c.sc.argv.push_back("-fthreads=native");
		if(U == 1) c.sc.argv.push_back("u0.b98"); else { c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv"); }
		c.schedules = native ? 2 : 1; add_noise(r, c.sc);
		auto look = [dims, dirs, T, U, native, stat](const Result& x, std::vector<std::vector<int>>& walks) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code != 0) return fmt("exit code: %d", x.exit_code);
			std::set<u32> tids; for(auto& e : x.ev) if(e.kind == E_STDOUT) tids.insert(e.tid);
			for(u32 t : tids){
				std::vector<int> v; std::string o = x.out(t); const char* q = o.c_str(); while(*q){ char* e; long k = strtol(q, &e, 10); if(e == q || *e != ' ') return "output: something that no crossing prints: " + quote(o, 100); if(k < 0 || k > T * dirs) return fmt("direction: %ld was printed", k); v.push_back((int)k); q = e + 1; }
				for(int k = 0; k < T; ++k){ std::vector<int> m; s = moves_of(v, 1 + k * dirs, dirs, dirs == 2 ? 1 : 3, m); if(!s.empty()) return s; if(!m.empty()) walks.push_back(m); }
			}
			if(!native && (int)walks.size() != T * U) return fmt("walkers: %zu of %d were seen", walks.size(), T * U);
			return stat ? untied(walks, dirs) : "";
		};
		c.check = [look](const Result& x){ std::vector<std::vector<int>> w; return look(x, w); };
		if(stat && r.pct(20)){ c.kind += ", two runs"; c.twin = [look, dirs](const Result& x, const Result& y){ std::vector<std::vector<int>> a, b; std::string s = look(y, b); return s.empty() && look(x, a).empty() ? apart(a, b, (size_t)dirs * 50) : s; }; }
		return c;
	}
	if(form < 8){   // TOYS U: a direction that stays in the cell
		int U = (int)r.range(1, 2); n = stat ? 260 : 60; std::string list; c.kind = "directions written into the cell (TOYS)";
		for(int u = 0; u < U; ++u){
			Cells p; std::string head = "t" + load("TOYS") + std::string(r.below(5), 'z'); i64 Lx = (i64)head.size() + 1, Ty = 3; std::string code = "'U"; i64 cx, cy = Ty + 3;
			cx = Lx + 30; code += num(cx) + num(cy) + "p"; put(p, 0, 0, head); put(p, Lx, 0, "v"); put(p, Lx, Ty, ">" + code);
			put(p, cx, Ty, "v"); put(p, cx, Ty + 1, "#"); put(p, cx, Ty + 2, "0"); put(p, cx, cy, "U"); put(p, cx, Ty - 1, ">."); i64 Rx = cx + 8, By = cy + 5;
			put(p, Rx, Ty - 1, "v"); put(p, cx + 1, cy, "1."); put(p, Rx, cy, "v"); put(p, Rx, By, "<"); put(p, cx, cy + 1, "2"); put(p, cx, cy + 2, "."); put(p, cx, By, "<"); put(p, cx - 2, cy, ".3"); put(p, Lx, cy, "^"); put(p, Lx, By, "^");
			// the digit on the way in is dropped
			put(p, Rx, By - 1, "n"); put(p, cx - 3, By, "n"); put(p, cx - 3, cy, "n"); put(p, Rx, By, "<");
			i64 w = Rx + 4; put(p, w, 0, "q" + std::string((size_t)n * 24, 'z'));
			std::string t = text_of(p), name = fmt("u%d.b98", u); c.sc.file("/sim/work/" + name, t); list += name + "\n"; if(!u) for(auto& k : std::vector<int>{ 0 }) { (void)k; c.note = t.substr(0, (size_t)Rx) + "...\n" + t.substr(t.find('\n') + 1); }
		}
		if(U == 1) c.sc.argv.push_back("u0.b98"); else { c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv"); }
		c.schedules = 1; add_noise(r, c.sc);
		auto look = [U, stat](const Result& x, std::vector<std::vector<int>>& walks) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code != 0) return fmt("exit code: %d", x.exit_code);
			std::set<u32> tids; for(auto& e : x.ev) if(e.kind == E_STDOUT) tids.insert(e.tid);
			for(u32 t : tids){ std::vector<int> v; for(char ch : x.out(t)){ if(ch == ' ') continue; if(ch < '0' || ch > '3') return "output: something that no crossing prints: " + quote(x.out(t), 100); v.push_back(ch - '0'); } walks.push_back(v); }
			if((int)walks.size() != U) return fmt("walkers: %zu of %d were seen", walks.size(), U);
			return stat ? untied(walks, 4) : "";
		};
		c.check = [look](const Result& x){ std::vector<std::vector<int>> w; return look(x, w); };
		if(stat && r.pct(20)){ c.kind += ", two runs"; c.twin = [look](const Result& x, const Result& y){ std::vector<std::vector<int>> a, b; std::string s = look(y, b); return s.empty() && look(x, a).empty() ? apart(a, b, 200) : s; }; }
		return c;
	}
	if(form == 8){   // FIXP D: numbers up to a limit
		bool native = r.pct(40), several = !native && r.pct(50); int K = (int)r.range(2, 4), hi = (int)r.range(1, 6), m = stat ? 40 * (hi + 1) : 12; c.kind = "random numbers (FIXP)"; std::vector<std::string> rows; 
		for(int i = 0; i < K; ++i){ std::string s = load("FIXP"); for(int j = 0; j < m; ++j) s += num(hi) + "D" + (native || several ? "." : lit(tag(i)) + "+,"); rows.push_back(s + "@"); }
		if(native) c.sc.argv.push_back("-fthreads=native");
		if(several){ std::string list; for(int i = 0; i < K; ++i){ std::string name = fmt("u%d.b98", i); c.sc.file("/sim/work/" + name, rows[(size_t)i] + "\nz\n"); list += name + "\n"; } c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv"); }
		else { c.sc.file("/sim/work/p.b98", staircase(rows)); c.sc.argv.push_back("p.b98"); }
		c.note = rows[0].substr(0, 100); c.schedules = 2; add_noise(r, c.sc); bool tags = !native && !several;
		auto look = [K, hi, m, tags, stat](const Result& x, std::vector<std::vector<int>>& walks) -> std::string {
			std::string s = sanity(x); if(!s.empty()) return s;
			if(tags){ walks.resize((size_t)K); for(unsigned char ch : x.out()){ int i = (ch - 0x80) >> 4; if(ch < 0x80 || i >= K) return "output: " + quote(x.out(), 100); walks[(size_t)i].push_back(ch & 15); } }
			else { std::set<u32> tids; for(auto& e : x.ev) if(e.kind == E_STDOUT) tids.insert(e.tid); for(u32 t : tids){ walks.emplace_back(); std::string o = x.out(t); const char* q = o.c_str(); while(*q){ char* e; long k = strtol(q, &e, 10); if(e == q) return "output: " + quote(o, 100); walks.back().push_back((int)k); q = e + 1; } } }
			if((int)walks.size() != K) return fmt("output: of %zu IPs instead of %d", walks.size(), K);
			for(auto& w : walks){ if((int)w.size() != m) return fmt("output: %zu numbers instead of %d", w.size(), m); for(int v : w) if(v < 0 || v > hi) return fmt("range: %d, the limit was %d", v, hi); }
			if(!stat) return ""; for(auto& w : walks) w.resize(w.size() * 2 > 1000000 ? 1 : w.size());
			for(size_t i = 0; i < walks.size(); ++i){ std::set<int> d(walks[i].begin(), walks[i].end()); for(int v = 0; v <= hi; ++v) if(!d.count(v)) return fmt("reachable: the number %d was never chosen among %d", v, m);
				for(size_t j = 0; j < i; ++j){ std::map<int, std::set<int>> g; for(int k = 0; k < m; ++k) g[walks[j][(size_t)k]].insert(walks[i][(size_t)k]); bool fn = true; for(auto& q : g) if(q.second.size() > 1) fn = false; if(fn) return fmt("other: the numbers of IP %zu follow from those of IP %zu", i, j); } }
			return "";
		};
		c.check = [look](const Result& x){ std::vector<std::vector<int>> w; return look(x, w); };
		if(stat && r.pct(20)){ c.kind += ", two runs"; size_t need = (size_t)m; c.twin = [look, need](const Result& x, const Result& y){ std::vector<std::vector<int>> a, b; std::string s = look(y, b); return s.empty() && look(x, a).empty() ? apart(a, b, need) : s; }; }
		return c;
	}
	// x of the fish dialects: runs until the steps are used up
	bool star = r.pct(50); c.kind = "fish"; Cells p; put(p, 0, 0, "v"); put(p, 0, 1, ">"); i64 cx = 4, cy = 8; put(p, cx, 1, "v"); put(p, cx, 2, "!"); // jumps the way back of the arm above
	{ const char* back = "<>^v"; for(int d = 0; d < 4; ++d) for(int k = 1; k <= 4; ++k){ i64 sg = d & 1 ? -1 : 1, x = cx + (d < 2 ? sg * k : 0), y = cy + (d >= 2 ? sg * k : 0); p[V4{{ x, y, 0, 0 }}] = k < 3 ? digits[1 + d] : k == 3 ? 'n' : back[d]; } }
	p[V4{{ cx, cy, 0, 0 }}] = 'x'; put(p, cx, 3, "!"); p.erase(V4{{ cx, 3, 0, 0 }}); put(p, cx, 2, "8"); put(p, cx, 3, "!");
	c.sc.file("/sim/work/p.fish", text_of(p)); if(star) c.sc.argv.push_back("-std=sfish"); c.sc.argv.push_back("p.fish"); c.note = text_of(p); c.sc.max_points = 6000000; c.schedules = 1;
	auto look = [stat](const Result& x, std::vector<int>& v) -> std::string {
		if(x.outcome != O_STEPS){ std::string s = sanity(x); return s.empty() ? "output: the program ended" : s; }
		std::string o = x.out(); if(o.empty()) return ""; if(o[0] != '8') return "output: " + quote(o, 60);
		for(size_t i = 1; i < o.size(); i += 2){ if(o[i] < '1' || o[i] > '4') return "direction: " + quote(o.substr(i, 20)); if(i + 1 < o.size() && o[i + 1] != o[i]) return "unchanged: the stack differs after the move: " + quote(o.substr(i, 20)); v.push_back(o[i] - '1'); }
		return stat ? untied({ v }, 4) : "";
	};
	c.check = [look](const Result& x){ std::vector<int> w; return look(x, w); };
	if(stat && r.pct(20)){ c.kind += ", two runs"; c.twin = [look](const Result& x, const Result& y){ std::vector<int> a, b; std::string s = look(y, b); return s.empty() && look(x, a).empty() ? apart({ a }, { b }, 200) : s; }; }
	return c;
}
static Reg r12("C12", "crossings at which one or several IPs, taking turns, in native threads or several universes, in one to four dimensions, choose random directions; every choice is printed together with what was on the stack; also the random directions of TOYS and the fish dialects and the random numbers of FIXP; every direction shows, none else, no choice follows from earlier ones, from another IP's or from those of a run with other random numbers; with a random source of few values only the directions; non-trivial: all", c12);
// the top of the stack as eight nibbles, lowest first
static std::string emit8(int ip){ std::string s; for(int i = 0; i < 8; ++i) s += ":88+%" + lit(tag(ip)) + "+,88+/"; return s + "$"; }
static Case c23(Rng& r, int tier){
	struct Made { i64 x, y; }; struct Out { bool made; int ref; };
	Case c; std_files(c.sc); c.sc.argv = { "funge" }; c.sc.random_mode = r.pct(70) ? 1 : r.below(3); c.sc.max_points = 300000000; u32 form = r.below(10); int K = (int)r.range(2, 5);
	auto refs = std::make_shared<std::vector<Made>>(); auto outs = std::make_shared<std::vector<std::vector<Out>>>((size_t)K); const i64 bias = 4096;
	bool dots = false;   // every IP has a thread of its own
	auto coord = [&]{ return r.pct(60) ? (i64)r.below(40) : r.pct(50) ? -(i64)r.below(400) : (i64)r.below(1000000000); };
	auto make = [&](int i, bool& first){ int id = (int)refs->size(); refs->push_back({ coord(), coord() }); (*outs)[(size_t)i].push_back({ true, id }); first = true; return id; };
	auto show = [&](int i){ return dots ? std::string(".") : emit8(i); };
	auto resolve = [&](int i, int id){ (*outs)[(size_t)i].push_back({ false, id }); if(dots) return std::string("D.."); return "D" + num(bias) + "+" + emit8(i) + num(bias) + "+" + emit8(i); };
	bool f, many;
	if((many = r.pct(3))){   // one after the other, all of them looked at in the end
		c.kind = "hundreds of references"; i64 y0 = K + 3; dots = true; std::vector<std::string> rows;
		for(int i = 0; i < K; ++i){
			i64 N = r.range(20, r.pct(50) ? 150 : 500), y = y0 + 2 * i; std::string at = "0" + num(y + 1), next = at + "g1-:" + at + "p:";
			rows.push_back("n" + load("REFC") + num(N) + at + "p" + until_zero(next + num(7 + i) + "R\\" + num(y) + "p" + at + "g") + num(N) + at + "p" + until_zero(next + "$" + at + "g" + num(y) + "gD.." + at + "g") + "@");
			for(i64 k = N - 1; k >= 0; --k){ (*outs)[(size_t)i].push_back({ false, (int)refs->size() }); refs->push_back({ k, 7 + i }); }
		}
		c.sc.argv.push_back("-fthreads=native"); c.sc.argv.push_back("p.b98"); std::string t = staircase(rows); c.sc.file("/sim/work/p.b98", t); c.note = t;
	}else if(form < 5){   // all at once: made without a pause, shown afterwards
		std::vector<std::string> rows; c.kind = "native threads making references at once"; i64 y0 = K + 3; dots = true;
		for(int i = 0; i < K; ++i){
			std::string s = "n" + load("REFC") + (i + 1 < K ? wait_cell(0, y0, 1) : set_cell(1, 0, y0)); std::vector<int> st; int n = 2 + (int)r.below(9);
			for(int j = 0; j < n; ++j){ Made m{ (i64)r.below(16), (i64)r.below(16) }; st.push_back((int)refs->size()); refs->push_back(m); s += num(m.x) + num(m.y) + "R"; if(r.pct(30)) s += ":D$$"; }
			while(!st.empty()){ s += ":" + show(i); (*outs)[(size_t)i].push_back({ true, st.back() }); s += resolve(i, st.back()); st.pop_back(); }
			rows.push_back(s + "@");
		}
		c.sc.argv.push_back("-fthreads=native"); c.sc.argv.push_back("p.b98"); std::string t = staircase(rows); c.sc.file("/sim/work/p.b98", t); c.note = t.substr(0, 4000);
	}else if(form < 8){
		bool native = dots = r.pct(75); c.kind = native ? "native threads sharing references" : "IPs taking turns sharing references"; i64 y0 = K + 3; int per = 1 + (int)r.below(tier ? 10 : 6); std::vector<std::string> rows; std::vector<std::vector<int>> ids((size_t)K); std::vector<bool> off;
		for(int i = 0; i < K; ++i){
			off.push_back(r.pct(20)); bool o = off.back(); std::string s = "n" + load("REFC") + (o ? num((i64)r.below(9)) + num((i64)r.below(4)) + "{n" : ""); int n = per * 2;
			for(int j = 0; j < n || (int)ids[(size_t)i].size() < per; ++j){
				auto& own = ids[(size_t)i];
				if((int)own.size() < per && (r.pct(50) || j >= n)){
					int id = make(i, f); own.push_back(id); auto& m = refs->back(); s += num(m.x) + num(m.y) + "R:" + show(i); if(o) s += resolve(i, id); else s += "1+" + xy(id, y0) + "p";
				}else if(!o){
					int k = (int)r.below((u32)i + 1); if(off[(size_t)k] || ids[(size_t)k].empty()) continue; int id = r.pick(ids[(size_t)k]);
					s += until_zero(xy(id, y0) + "g88+2*-!") + xy(id, y0) + "g1-" + resolve(i, id);
				}
				if(r.pct(15)) s += std::string(r.below(30), 'z');
			}
			rows.push_back(s + "@");
		}
		if(native) c.sc.argv.push_back("-fthreads=native"); c.sc.argv.push_back("p.b98"); std::string t = staircase(rows); c.sc.file("/sim/work/p.b98", t); c.note = t.substr(0, 4000);
	}else{
		// the IP of universe i owns row 2i in every universe; it goes from universe to universe with its references on the stack
		bool native = r.pct(40); c.kind = fmt("IPs taking references through universes%s", native ? ", native threads" : ""); std::vector<Canvas> cv((size_t)K); int per = 1 + (int)r.below(3);
		for(int i = 0; i < K; ++i){
			int u = i; i64 x = 0; std::vector<int> st; int hops = (int)r.below(5); auto put = [&](const std::string& s){ cv[(size_t)u].put((size_t)x, (size_t)(2 * i), s); x += (i64)s.size(); };
			if(i > 0) cv[(size_t)u].put(0, 0, "v");
			put(i ? ">" : "z"); put(load("REFC") + load("MVRS"));
			for(int h = 0; h <= hops; ++h){
				for(int j = 0; j < per; ++j){ int id = make(i, f); auto& m = refs->back(); put(num(m.x) + num(m.y) + "R:" + emit8(i)); st.push_back(id); if(r.pct(30)) put(std::string(r.below(12), 'z')); }
				while(!st.empty() && r.pct(50)){ put(resolve(i, st.back())); st.pop_back(); }
				if(h < hops){ int to = (int)r.below((u32)K); put(pushes(fmt("u%d.b98", to)) + "J"); u = to; put("z"); }
			}
			while(!st.empty()){ put(resolve(i, st.back())); st.pop_back(); }
			put("@");
		}
		std::string list; for(int i = 0; i < K; ++i){ cv[(size_t)i].put(0, (size_t)(2 * K), "z"); c.sc.file("/sim/work/" + fmt("u%d.b98", i), cv[(size_t)i].text()); list += fmt("u%d.b98\n", i); c.note += fmt("--- u%d.b98\n", i) + cv[(size_t)i].text(); }
		if(native) c.sc.argv.push_back("-fthreads=native"); c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv");
	}
	c.schedules = many ? 1 : 4; add_noise(r, c.sc); c.probes["references"] += refs->size();
	c.check = [refs, outs, K, bias, dots](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code != 0) return fmt("exit code: %d", x.exit_code);
		Tagged t; std::vector<std::string> line; if(!dots){ t = by_tag(x, false); if(!t.rest.empty()) return "output: unexpected " + quote(t.rest); }
		else { std::map<u32, std::vector<u32>> made; for(auto& e : x.ev) if(e.kind == E_THREAD) made[e.tid].push_back((u32)e.a); u32 th = made[0].size() > 1 ? made[0][1] : 0; for(int i = 0; i < K; ++i){ line.push_back(x.out(th)); th = made[th].empty() ? 0 : made[th][0]; } t.of.resize(8); }
		std::map<i64, int> of;
		for(int i = 0; i < K; ++i){
			auto& o = dots ? line[(size_t)i] : t.of[(size_t)i]; size_t at = 0; auto read = [&](i64& v){ if(dots){ size_t e = o.find(' ', at); if(e == std::string::npos) return false; v = atoll(o.c_str() + at); at = e + 1; return true; } if(at + 8 > o.size()) return false; v = 0; for(int k = 7; k >= 0; --k) v = v * 16 + o[at + (size_t)k]; at += 8; return true; };
			for(auto& w : (*outs)[(size_t)i]){
				auto& m = (*refs)[(size_t)w.ref]; i64 a, b;
				if(w.made){ if(!read(a)) return fmt("output: IP %d printed too little", i); auto q = of.insert({ a, w.ref }); if(!q.second) return fmt("unique: the reference %lld was handed out twice", (long long)a); continue; }
				if(!read(a) || !read(b)) return fmt("output: IP %d printed too little", i);
				if(!dots) a -= bias, b -= bias;
				if(b != m.x || a != m.y) return fmt("resolving: IP %d got %lld %lld for the reference of %lld %lld", i, (long long)b, (long long)a, (long long)m.x, (long long)m.y);
			}
			if(at != o.size()) return fmt("output: IP %d printed too much", i);
		}
		return "";
	};
	return c;
}
static Reg r23("C23", "IPs in native threads, taking turns and travelling through universes make references, share them through cells and resolve their own and others', with a random source that repeats values; all references differ and each resolves to its vector; non-trivial: all", c23);
} // namespace drv
