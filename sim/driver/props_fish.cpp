// C22: the fish dialects.
#include "native.h"
#include <algorithm>
#include <cmath>
namespace drv {
namespace {
// A small interpreter of ><> and *><>. Cells not written yet are filled in by `want` when the program is being made.
struct Fish {
	bool star = false, fs = true; std::map<std::pair<i64, i64>, i64> cell; i64 w = 1, h = 1, x = 0, y = 0, dx = 1, dy = 0, cx = 1, cy = 0; bool up = true, dive = false, done = false, timed = false, str = false, valid = true; i64 end = 0; std::string why;
	struct Reg { bool set; double v; }; std::vector<std::vector<double>> ss{ {} }; std::vector<Reg> regs{ { false, 0 } }; size_t sel = 0;
	std::string in, out, err; size_t at = 0, eofs = 0; int code = 0; u64 steps = 0, moves = 0, slept = 0; std::set<int> used; std::string why_end;
	bool open = false, opened_ok = false; std::string path, content; size_t fat = 0; std::map<std::string, std::string>* files = nullptr; std::set<std::string> dirs;
	std::function<i64(Fish&)> fill;
	void bad(const std::string& s){ if(valid){ valid = false; why = s; } done = true; }
	std::vector<double>& top(){ return ss[ss.size() - 1 - sel]; }
	bool has(size_t n){ return top().size() >= n; }
	double pop(){ double v = top().back(); top().pop_back(); return v; }
	void push(double v){ if(std::isnan(v) || std::isinf(v)){ bad("not finite"); return; } top().push_back(v); }
	i64 integer(double v){ if(!(std::fabs(v) < 4e18)){ bad("large"); return 0; } return (i64)v; }
	i64 get(i64 a, i64 b){ auto i = cell.find({ a, b }); if(i == cell.end()){ if(fill && a >= 0 && a < w && b >= 0 && b < h) cell[{ a, b }] = ' '; return ' '; } return i->second; }
	void put(i64 a, i64 b, i64 v){
		if(a < 0 || b < 0 || a >= w || b >= h) return bad("outside");
		cell[{ a, b }] = v; 
		if(v == ' ' && (a == 0 || b == 0 || a == w - 1 || b == h - 1)) bad("box may shrink");
	}
	void next(){ x += dx; y += dy; if(x < 0 || y < 0 || x >= w || y >= h){ if(x < -1 || y < -1 || x > w || y > h) return bad("far outside"); if(x < 0) x = w - 1; if(y < 0) y = h - 1; if(x >= w) x = 0; if(y >= h) y = 0; } if(++moves > 4000) bad("no end"); }
	void turn(i64 a, i64 b){ dx = a; dy = b; if(a && !b){ cx = a; cy = b; } }
	void fail(const std::string& s){ err += "something smells fishy...\n"; code = 1; done = true; why_end = s; }
	bool movement(i64 c){ return c < 128 && c > 32 && (strchr("><v^\\/|_#", (int)c) || (star && strchr("`uO", (int)c))); }
	void step(){
		i64 c; auto it = cell.find({ x, y }); if(it == cell.end()){ if(fill) c = cell[{ x, y }] = fill(*this); else c = ' '; } else c = it->second; if(done) return;
		if(timed && c != 126){ bad("time is used"); return; }
		timed = false;
		++steps; if(c >= 0 && c < 256) used.insert((int)c);
		if(str){ if(c == end) str = false; else push((double)c); if(!done) next(); return; }
		if(c == ' '){ next(); return; }
		static const char plain[] = "0123456789abcdef><v^\\/|_#x!?.+-*,%=)('\":~$@l{}r[]oni&gp;", stars[] = "`CRuOIDFSh" "ms"; bool known = c > 0 && c < 128 && (strchr(plain, (int)c) || (star && strchr(stars, (int)c)));
		if(!known){ if(dive){ next(); return; } return fail("unknown instruction"); }
		if(dive && !movement(c)){ next(); return; }
		auto need = [&](size_t n){ if(has(n)) return true; fail("empty stack"); return false; };
		switch((int)c){
			case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': push((double)(c - '0')); break;
			case 'a': case 'b': case 'c': case 'd': case 'e': case 'f': push((double)(c - 'a' + 10)); break;
			case '>': turn(1, 0); break; case '<': turn(-1, 0); break; case 'v': turn(0, 1); break; case '^': turn(0, -1); break;
			case '\\': turn(dy, dx); break; case '/': turn(-dy, -dx); break; case '|': turn(-dx, dy); break; case '_': turn(dx, -dy); break; case '#': turn(-dx, -dy); break;
			case 'x': return bad("random");
			case '!': next(); break;
			case '?': if(!need(1)) return; if(pop() == 0) next(); break;
			case '.': { if(!need(2)) return; i64 b = integer(pop()), a = integer(pop()); if(done) return; if(a < 0 || b < 0 || a >= w || b >= h) return bad("jump outside"); x = a; y = b; break; }
			case '+': case '-': case '*': case ',': case '=': case ')': case '(': { if(!need(2)) return; double b = pop(), a = pop(); if(c == ',' && b == 0) return fail("division by zero"); push(c == '+' ? a + b : c == '-' ? a - b : c == '*' ? a * b : c == ',' ? a / b : c == '=' ? a == b : c == ')' ? a > b : a < b); break; }
			case '%': { if(!need(2)) return; i64 b = integer(pop()), a = integer(pop()); if(done) return; if(!b) return fail("division by zero"); push((double)(a % b)); break; }
			case '\'': case '"': str = true; end = c; break;
			case ':': { if(!need(1)) return; double a = top().back(); push(a); break; }
			case '~': if(!need(1)) return; pop(); break;
			case '$': { if(!need(2)) return; double b = pop(), a = pop(); push(b); push(a); break; }
			case '@': { if(!need(3)) return; double z = pop(), b = pop(), a = pop(); push(z); push(a); push(b); break; }
			case 'l': push((double)top().size()); break;
			case '{': if(!need(1)) return; std::rotate(top().begin(), top().begin() + 1, top().end()); break;
			case '}': if(!need(1)) return; std::rotate(top().begin(), top().end() - 1, top().end()); break;
			case 'r': std::reverse(top().begin(), top().end()); break;
			case '[': { if(!need(1)) return; if(sel) return bad("other stack selected"); double n = pop(); if(n < 0) return bad("negative count"); size_t k = (size_t)integer(n); if(done) return; if(!has(k)) return fail("empty stack"); std::vector<double> t; for(size_t i = 0; i < k; ++i) t.push_back(pop()); ss.push_back(t); regs.push_back({ false, 0 }); break; }
			case ']': { if(sel) return bad("other stack selected"); if(ss.size() < 2) return fail("no stack below"); auto t = ss.back(); ss.pop_back(); std::reverse(t.begin(), t.end()); for(double v : t) ss.back().push_back(v); regs.pop_back(); break; }
			case 'o': if(!need(1)) return; out += (char)integer(pop()); break;
			case 'n': { if(!need(1)) return; double v = pop(); i64 i = integer(v); if(done) return; out += (double)i == v ? std::to_string(i) : fmt("%g", v); break; }
			case 'i': { if(open){ push(opened_ok && fat < content.size() ? (double)(unsigned char)content[fat++] : -1.0); break; } if(at < in.size()) push((double)(unsigned char)in[at++]); else { ++eofs; push(-1); } break; }
			case '&': { if(sel) return bad("other stack selected"); auto& g = regs.back(); if(g.set){ push(g.v); g = { false, 0 }; } else { if(!need(1)) return; g = { true, pop() }; } break; }
			case 'g': { if(!need(2)) return; i64 b = integer(pop()), a = integer(pop()); if(!done) push((double)get(a, b)); break; }
			case 'p': { if(!need(3)) return; i64 b = integer(pop()), a = integer(pop()), v = done ? 0 : integer(pop()); if(!done) put(a, b, v); break; }
			case ';': done = true; why_end = "end"; return;
			case '`': if(dy == 0){ if(up) turn(0, 1); else turn(0, -1); up = !up; } else turn(cx, cy); break;
			case 'C': { if(sel) return bad("other stack selected"); if(!need(2)) return; i64 b = integer(pop()), a = integer(pop()); if(done) return; if(a < 0 || b < 0 || a >= w || b >= h) return bad("jump outside"); ss.insert(ss.end() - 1, { (double)x, (double)y }); regs.push_back(regs.back()); x = a; y = b; break; }
			case 'R': { if(sel) return bad("other stack selected"); if(ss.size() < 2) return fail("no stack below"); auto& s = ss[ss.size() - 2]; if(s.size() < 2) return fail("empty stack"); i64 b = integer(s[s.size() - 1]), a = integer(s[s.size() - 2]); if(done) return; if(a < 0 || b < 0 || a >= w || b >= h) return bad("jump outside"); x = a; y = b; ss.erase(ss.end() - 2); Reg t = regs.back(); regs.pop_back(); regs.back() = t; break; }
			case 'u': dive = true; break; case 'O': dive = false; break;
			case 'I': if(!sel) return fail("no stack above"); --sel; break;
			case 'D': if(sel + 1 >= ss.size()) return fail("no stack below"); ++sel; break;
			case 'S': { if(!need(1)) return; double v = pop(); if(v < 0 || v > 3000) return bad("long sleep"); slept += (u64)(v * 1e8); break; }
			case 'h': case 'm': case 's': push(0); timed = true; break;   // must be dropped at once
			case 'F': {
				if(!fs) return fail("files are off"); if(!need(1)) return; double n = pop(); if(n < 0) return bad("negative count"); size_t k = (size_t)integer(n); if(done) return; if(!has(k)) return fail("empty stack"); std::string s; for(size_t i = 0; i < k; ++i){ s += (char)integer(pop()); if(done) return; }
				if(!open){ std::reverse(s.begin(), s.end()); if(s.find('\0') != std::string::npos || s.find('/') != std::string::npos || s == "." || s == ".." || s.empty()) return bad("name of a file"); open = true; path = s; auto f = files->find(s); opened_ok = f != files->end(); content = opened_ok ? f->second : ""; fat = 0; }
				else { open = false; (*files)[path] = s; }
				break; }
		}
		if(!done) next();
	}
	std::string text() const { std::string t; for(i64 b = 0; b < h; ++b){ std::string row; for(i64 a = 0; a < w; ++a){ auto i = cell.find({ a, b }); row += i == cell.end() ? ' ' : (char)i->second; } while(!row.empty() && row.back() == ' ') row.pop_back(); t += row + "\n"; } return t; }
};
// Writes a program while running it: a cell reached for the first time gets an instruction that the state allows (mostly).
struct Writer {
	Rng& r; std::string plan; u64 limit; std::string name; int p_bad; std::map<std::pair<i64, i64>, i64> text; bool ending = false; std::string note;
	Writer(Rng& rr, u64 l) : r(rr), limit(l) { p_bad = r.pct(50) ? 0 : (int)r.below(3); }
	i64 pick(Fish& f){
		auto& t = f.top(); size_t d = t.size(); auto small = [&](double v, i64 m){ return v >= 0 && v < (double)m && v == (double)(i64)v; };
		if(f.str){ if(plan.empty()) return f.end; i64 c = (unsigned char)plan[0]; plan.erase(0, 1); return c == f.end ? 'q' : c; }
		if(f.dive){ u32 k = r.below(10); return k < 2 ? 'O' : k < 4 ? r.pickc("><v^/\\|_#`") : k < 7 ? r.pickc("0123+;~:onip.Cx") : 33 + r.below(90); }
		bool end = f.steps > limit; if(end && !ending){ ending = true; plan.clear(); }
		if(ending) return r.pct(70) ? ';' : r.pick(std::vector<i64>{ 'z', 'A', 200, 'y', 0x7f, ';' });
		if(!plan.empty() && plan.size() < 3 && !f.timed && r.pct(3)) plan.clear();
		if(!plan.empty()){ i64 c = (unsigned char)plan[0]; plan.erase(0, 1); return c; }
		if((int)r.below(200) < p_bad) return 33 + r.below(94);   // anything
		if(f.sel){ u32 k = r.below(8); if(k < 3) return 'I'; if(k < 4 && f.sel + 1 < f.ss.size()) return 'D'; if(k < 5) return "0123456789"[r.below(10)]; if(k < 6 && d) return r.pickc(":~n"); return 'l'; }
		auto free_at = [&](i64 a, i64 b){ a = (f.x + a + f.w) % f.w; b = (f.y + b + f.h) % f.h; return !f.cell.count({ a, b }); };
		if(!free_at(f.dx, f.dy) && r.pct(85)){ std::string o; if(free_at(1, 0)) o += '>'; if(free_at(-1, 0)) o += '<'; if(free_at(0, 1)) o += 'v'; if(free_at(0, -1)) o += '^'; if(!o.empty()) return o[r.below((u32)o.size())]; if(r.pct(50)) return ';'; }
		for(int tries = 0; tries < 20; ++tries) switch(r.below(30)){
			case 0: case 1: case 2: case 3: if(d < 30) return "0123456789abcdef"[r.below(16)]; break;
			case 4: if(r.pct(12) && d < 20 && !f.timed){ int k = (int)r.range(6, 12); plan.clear(); for(int i = 0; i < k; ++i) plan += (i ? "*" : "") + std::string(1, "9abcdef"[r.below(7)]); std::string q; for(char ch : plan) if(ch != '*') q += ch; q += std::string((size_t)k - 1, '*'); if(r.pct(40)) q += r.pct(50) ? "0$-" : "1+"; q += r.pct(70) ? "n" : ":nn"; plan = q.substr(1); return q[0]; } return r.pickc("><v^"); 
			case 5: return r.pickc("/\\|_#");
			case 6: if(d < 20){ bool q = r.pct(50); u32 n = r.below(5); plan.clear(); for(u32 i = 0; i < n; ++i) plan += (char)(32 + r.below(95)); return q ? '"' : '\''; } break;
			case 7: case 8: if(d >= 2){ char c = r.pickc("+-*,%=)("); if((c == ',' || c == '%') && t[d - 1] == 0 && r.pct(90)) break; if(c == '%' && std::fabs(t[d - 1]) < 1 && r.pct(90)) break; if((c == '*' || c == '+') && (std::fabs(t[d - 1]) > 1e6 || std::fabs(t[d - 2]) > 1e6)) break; return c; } break;
			case 9: if(d >= 1 && d < 30) return ':'; break;
			case 10: if(d >= 1) return '~'; break;
			case 11: if(d >= 2) return '$'; break;
			case 12: if(d >= 3) return '@'; break;
			case 13: return r.pickc("lr");
			case 14: if(d >= 1) return r.pickc("{}"); break;
			case 15: if(d >= 1 && small(t[d - 1], (i64)d)) return '['; else if(d >= 1 && d < 20){ plan = "["; return '0' + r.below((u32)std::min<size_t>(d, 9) + 1); } break;
			case 16: if(f.ss.size() > 1) return ']'; break;
			case 17: case 18: case 19: if(d >= 1) return 'n'; break;
			case 20: if(d >= 1 && small(t[d - 1], 256)) return 'o'; break;
			case 21: if(f.at < f.in.size() || r.pct(20)){ plan = r.pct(60) ? ":n" : r.pct(50) ? "n" : ""; return 'i'; } break;
			case 22: if(f.regs.back().set || d >= 1) return '&'; break;
			case 23: if(d >= 2 && small(t[d - 1], f.h) && small(t[d - 2], f.w)) return r.pct(50) ? 'g' : f.star && r.pct(50) ? 'C' : '.'; else if(d < 25){ auto dig = [&](i64 v){ return v < 16 ? std::string(1, "0123456789abcdef"[v]) : std::string("f") + "0123456789abcdef"[std::min<i64>(v - 15, 15)] + "+"; };
				std::string p; u32 k = r.below(f.star ? 4 : 3); i64 x = r.below((u32)std::min<i64>(f.w, 30)), y = r.below((u32)std::min<i64>(f.h, 30)); if(k == 1) p = dig((i64)r.below(16)) + (r.pct(80) ? "f4*+" : ""); p += dig(x) + dig(y) + (k == 0 ? "g" : k == 1 ? "p" : k == 2 ? "." : "C"); plan = p.substr(1); return p[0]; } break;
			case 24: return '!';
			case 25: if(d >= 1) return '?'; break;
			case 26: if(f.star){ if(f.ss.size() > 1 && f.ss[f.ss.size() - 2].size() >= 2 && small(f.ss[f.ss.size() - 2].back(), f.h)){ if(r.pct(40) && (f.regs.back().set || d >= 1)){ plan = r.pct(50) ? "R&n" : "R&"; return '&'; } return 'R'; } if(r.pct(30) && f.ss.size() > 1) return 'D'; } break;
			case 27: if(f.star){ if(r.pct(40)){ return 96; } if(r.pct(30)){ return 117; } if(r.pct(40)){ plan = "~"; return r.pickc("hms"); } plan = "S"; return "0123456"[r.below(7)]; } break;
			case 28: if(f.star && d < 20 && r.pct(60)){ if(!f.open){ std::string n = r.pct(60) ? "in" : r.pct(50) ? "new" : "w"; plan = n + "\"" + std::to_string(n.size()) + "F"; return '"'; } if(r.pct(50)){ plan = ":n"; return 'i'; } plan = "F"; return '0' + r.below((u32)std::min<size_t>(d, 5) + 1); } break;
			default: if(r.pct(20)) return ' '; if(r.pct(4)) return ';';
		}
		return ' ';
	}
	std::pair<i64, i64> last{ -1, -1 };
	i64 operator()(Fish& f){ bool n = !f.str && !f.dive && !f.timed; i64 c = pick(f); if(n) last = { f.x, f.y }; text[{ f.x, f.y }] = c; return c; }
};
}
static Case c22(Rng& r, int tier){
	Case c; std_files(c.sc); c.sc.argv = { "funge" }; const std::string W = "/sim/work/"; int U = r.pct(75) ? 1 : (int)r.range(2, 4); std::string list; bool fs = r.pct(90);
	std::vector<std::shared_ptr<Fish>> fish; if(r.pct(70)){ u32 n = r.below(40); for(u32 i = 0; i < n; ++i) c.sc.input += (char)(r.pct(70) ? 32 + r.below(95) : r.below(256)); }
	std::map<std::string, std::string> files{ { "in", "some text\n" } }; std::string names; u64 steps = 0, errors = 0, eofs = 0;
	for(int u = 0; u < U; ++u){
		bool star = r.pct(60); auto set = [&](Fish& f){ f.star = star; f.fs = fs; f.in = u ? "" : c.sc.input; };
		Fish g; set(g); g.w = r.range(2, tier ? 40 : 24); g.h = r.range(1, tier ? 14 : 8); auto gf = files; g.files = &gf; Writer wr(r, 20 + r.below(tier ? 1500 : 400));
		i64 corner = r.pick(std::vector<i64>{ ';', '1', '<', '^', 'l', '0' }); g.cell[{ g.w - 1, g.h - 1 }] = corner; wr.text[{ g.w - 1, g.h - 1 }] = corner; g.fill = std::ref(wr);
		while(!g.done && g.steps < 6000) g.step();
		if((!g.done || (!g.valid && g.why == "no end")) && wr.last.first >= 0) wr.text[wr.last] = r.pct(75) ? ';' : 'z';
		auto m = std::make_shared<Fish>(); set(*m); m->w = g.w; m->h = g.h; Fish tx; tx.w = g.w; tx.h = g.h; for(auto& t : wr.text) tx.cell[t.first] = t.second; std::string text = tx.text();
		// other cells: what is never reached
		if(r.pct(20)) for(i64 i = 0; i < g.w * g.h; ++i) if(!g.cell.count({ i % g.w, i / g.w }) && r.pct(30)) tx.cell[{ i % g.w, i / g.w }] = 33 + r.below(94); 
		text = tx.text(); m->cell = tx.cell; for(auto i = m->cell.begin(); i != m->cell.end();) if(i->second == ' ') i = m->cell.erase(i); else { i->second = (unsigned char)i->second; ++i; }
		auto mf = std::make_shared<std::map<std::string, std::string>>(files); m->files = mf.get(); while(!m->done && m->steps < 8000) m->step();
		if(!m->done || !m->valid){ c.valid = false; c.kind = m->valid ? "no end" : m->why; if(!m->valid && getenv("FISHWHY")) fprintf(stderr, "%s\n", m->why.c_str()); }
		if(m->used.count('F') && U > 1) for(auto& o : fish) if(o->used.count('F')) c.valid = false;
		if(u && m->used.count('i') && !m->open && fish[0]->eofs == 0){ if(m->eofs) {} }
		std::string ext = r.pct(85) ? (star ? ".sf" : ".fish") : ""; std::string name = fmt("p%d", u) + ext; bool flag = ext.empty(); if(flag && U > 1){ name = fmt("p%d", u) + (star ? ".sf" : ".fish"); flag = false; }
		if(flag || (U == 1 && r.pct(15))) c.sc.argv.push_back(star ? "-std=sfish" : "-std=fish");
		c.sc.file(W + name, text); list += name + "\n"; c.note += "--- " + name + "\n" + text; fish.push_back(m); steps += m->steps; errors += m->code; eofs += m->eofs; if(u == 0 && U == 1) names = name; 
		if(!c.valid) return c;
		if(U == 1) c.kind = fmt("%s, %s", star ? "starfish" : "fish", m->why_end.c_str());
		m->files = nullptr; if(m->used.count('F')) files = *mf;
		for(int ch : m->used) if(ch > 32 && ch < 127) c.probes[fmt("ran %c", ch)] += 1;
	}
	if(U > 1){ c.kind = "several universes"; u32 readers = 0; for(auto& f : fish) if(f->used.count('i')) ++readers; if(readers > 1 || (readers && !fish[0]->used.count('i'))){ c.valid = false; c.kind = "several readers"; return c; } }
	if(!fs) c.sc.argv.push_back("-fno-filesystem");
	c.sc.file(W + "in", "some text\n");
	if(U == 1) c.sc.argv.push_back(names); else { c.sc.file(W + "m.fmv", list); c.sc.argv.push_back("m.fmv"); }
	c.sc.tty = r.pct(40); if(c.sc.tty) c.sc.lflag = r.pct(50) ? 0x8a3b : (u32)r.next() & 0xffff;
	add_noise(r, c.sc); u32 nj = r.pct(30) ? r.below(4) : 0; for(u32 i = 0; i < nj; ++i) c.sc.jumps.push_back(Jump{ r.below(300000), r.range(-100000, 100000) * 1000000000ll }); if(r.pct(30)) c.sc.step_ns = r.pct(50) ? 1000 : 1000000; if(r.pct(20)) c.sc.fault(OP_SLEEP, F_ERR, r.below(3), EINTR); if(r.pct(20)) c.sc.random_mode = r.below(3);
	c.multi = U > 1; c.schedules = U > 1 ? 3 : 1; c.probes["steps"] += steps; c.probes["errors"] += errors; c.probes["ends of input read"] += eofs; 
	auto after = files;
	c.check = [=](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s; std::vector<u32> utid; for(auto& e : x.ev) if(e.kind == E_THREAD && e.tid == 0) utid.push_back(e.a);
		size_t fishy = 0;
		for(size_t u = 0; u < fish.size(); ++u){
			auto& f = *fish[u]; if(u >= utid.size()) return "universes: only " + std::to_string(utid.size()) + " were started"; s = diff(fish.size() > 1 ? fmt("output of universe %zu", u) : "output", f.out, x.out(utid[u])); if(!s.empty()) return s;
			if(f.code) ++fishy;
		}
		std::string e = x.err(); size_t n = 0; for(size_t p = 0; (p = e.find("something smells fishy...\n", p)) != std::string::npos; ++p) ++n;
		if(fish.size() == 1 ? n != fishy : n > fishy || (n == 0 && fishy)) return fmt("message: %zu times instead of %zu: %s", n, fishy, quote(e).c_str());
		int want = fish[0]->code; if(x.exit_code != want && (fish.size() == 1 || x.exit_code != 0 + (fishy ? 1 : 0))) return fmt("exit code: %d instead of %d", x.exit_code, want);
		for(auto& f : after){ auto g = x.fs.find(W + f.first); if(g == x.fs.end()) return "files: " + f.first + " is missing"; s = diff("file " + f.first, f.second, g->second.data); if(!s.empty()) return s; }
		return "";
	};
	return c;
}
static Reg r22("C22", "programs of both fish dialects written while a reference interpreter runs them, so that they live long: stacks of stacks, registers, jumps, self-modification, strings, calls, diving, files, sleeping, reading input that arrives in any pattern and ends anywhere; one or several universes; output, files, error message and exit code must be the reference's; non-trivial: all", c22);
} // namespace drv
