// C19: the debugger.
#include "native.h"
#include <algorithm>
namespace drv {
namespace {
const std::string PROMPT = "\x1b[33m(defunge)\x1b[0m ";
struct Stop { u64 id; V4 pos; std::string out; };   // where it stopped, and what the program had printed since the stop before
struct Session {
	Rng& r; Model& m; std::string name; int bound, limit; bool eof = false, quit = false; u64 n = 0;
	std::map<u64, int> state; std::map<u64, MIp*> ip; std::set<V4> bps, wps; std::string text; std::vector<char> moved; std::vector<std::string> shown; std::map<u64, std::vector<V4>> trail; std::vector<Stop> stops; size_t printed = 0; u64 breaks = 0, watches = 0, traps = 0, switches = 0, inspections = 0, sets = 0; bool setters = false;
	enum { START, RUN, STEP, BREAK };
	int style; int w, h; std::vector<std::string> targets;
	Session(Rng& rr, Model& mm, const std::string& nm) : r(rr), m(mm), name(nm) { bound = (int)r.range(1, 60); setters = r.pct(30); limit = 250; style = (int)r.below(4); w = h = 8; }
	std::string vec(){ if(r.pct(60) && !m.ips.empty()){ auto& p = m.ips[r.below((u32)m.ips.size())]->pos; return fmt("(%lld,%lld)", (long long)p[0] + r.range(-1, 3), (long long)p[1] + (r.pct(80) ? 0 : r.range(-1, 1))); } return fmt(r.pct(50) ? "(%d,%d)" : "(%d, %d)", (int)r.below((u32)w), (int)r.below((u32)h)); }
	static V4 parse(const std::string& s){ V4 v{{ 0, 0, 0, 0 }}; long long a = 0, b = 0; size_t c = s.find(','); a = atoll(s.c_str() + s.find('(') + 1); b = atoll(s.c_str() + c + 1); v[0] = a; v[1] = b; return v; }
	static std::string canon(const V4& v){ int n = 4; while(n > 1 && !v[(size_t)n - 1]) --n; std::string o = "("; for(int i = 0; i < n; ++i) o += (i ? ", " : "") + std::to_string(v[(size_t)i]); return o + ")"; }
	static std::string cell(i64 v){ return std::string("\"") + (char)v + "\""; }
	static i64 item(const MStack& s, size_t n){ return n && n <= s.v.size() ? s.v[s.v.size() - n] : 0; }
	static std::string stacks(const MIp& i){ std::string o; for(size_t j = i.ss.size(); j-- > 0;){ o += "[] "; for(i64 v : i.ss[j]->v) o += std::to_string(v) + " "; o += "\n"; } return o; }
	// the cells around a place; nothing when some cell is not a plain character
	std::string around(const MIp& run, const V4& c, i64 sx, i64 sy){ std::string o; for(i64 y = c[1] - sy; y <= c[1] + sy; ++y){ for(i64 x = c[0] - sx; x <= c[0] + sx; ++x){ i64 v = run.uni->sp.get(V4{{ x, y, 0, 0 }}); if(v < 32 || v > 126) return ""; o += (char)v; } o += "\n"; } return "~" + o; }
	std::string list_of(const char* what, const std::set<V4>& s){ std::set<std::string> l; for(auto& v : s) l.insert(std::string(what) + canon(v)); std::string o = "#"; for(auto& t : l) o += t + "\n"; return o; }
	std::string threads(const MIp& run){ std::string o; for(auto& k : state){ MIp* i = ip[k.first]; if(i->stopped) o += fmt("  %llu: end\n", (unsigned long long)k.first); else o += std::string(i == &run ? "* " : "  ") + fmt("%llu: ", (unsigned long long)k.first) + canon(i->pos) + " " + cell(i->uni->sp.get(i->pos)) + "\n"; } return o; }
	void end_session(){ quit = true; for(auto& u : m.unis){ u->exitcode = 1; u->running = false; for(auto* i : u->q) i->stopped = true; } for(auto& i : m.ips) i->stopped = true; }
	bool whole = false;   // between two instructions
	void debug(MIp& at){
		if(at.stopped) return; MIp* run = &at; if(state[at.id] == RUN) return;
		stops.push_back(Stop{ at.id, at.pos, m.out.substr(printed) }); printed = m.out.size(); ++n;
		for(;;){
			auto say = [&](const std::string& s, bool move = false){ text += s + "\n"; moved.push_back(move); shown.push_back(""); };
			auto see = [&](const std::string& s){ shown.back() = "=" + s; };
			if((int)n > limit){ eof = true; end_session(); return; }
			u32 k = r.below(100);
			if((int)n > bound && k >= 30){ if(bound & 1){ if(r.pct(25)){ if(r.pct(50)){ static const char* q[] = { "quit", "q", "q extra" }; say(q[r.below(3)], true); } else eof = true; end_session(); return; } } k = 60; }
			if(k < 45){ ++inspections;   // nothing goes on
				switch(r.below(18)){
					case 0: say("p"); if(!run->uni->mode) see(stacks(*run)); break; case 1: case 2: { u32 a = r.below(6), b = r.below(4); bool two = r.pct(60); if(!two) b = 0; say(two ? fmt("p %u %u", a, b) : fmt("peek %u", a)); if(!run->uni->mode) see(!a ? stacks(*run) : b >= run->ss.size() ? "" : fmt("%lld\n", (long long)item(*run->ss[run->ss.size() - 1 - b], a))); break; }
					case 3: { static const char* a[] = { "d", "dir", "delta" }; say(a[r.below(3)]); } see("Delta " + canon(run->delta) + "\n"); break; case 4: say("storage"); see("Storage " + canon(run->off) + "\n"); break; case 5: say(r.pct(50) ? "pos" : "position"); see(fmt("%llu: ", (unsigned long long)run->id) + canon(run->pos) + " " + cell(run->uni->sp.get(run->pos)) + "\n"); break;
					case 6: case 7: { u64 t = r.below((u32)m.next_id + 2); bool plain = r.pct(30); say(plain ? "t" : fmt(r.pct(50) ? "t %llu" : "thread %llu", (unsigned long long)t)); if(!plain && ip.count(t) && !ip[t]->stopped && state.count(t)){ if(run != ip[t]) ++switches; run = ip[t]; } see(threads(*run)); break; }
					case 8: say(r.pct(50) ? "bt" : "backtrace"); { std::string o = "Backtrace\n"; auto& t = trail[run->id]; size_t j = 0; for(size_t i = t.size(); i-- > 0;) o += fmt("#%zu  ", j++) + canon(t[i]) + " " + cell(run->uni->sp.get(t[i])) + "\n"; see(o); } break; case 9: say(r.pct(50) ? "l" : "list"); shown.back() = around(*run, run->pos, 3, 3); break; case 10: { u32 a = r.below(6), b = r.below(4); say(fmt("%s (%u,%u)", r.pct(50) ? "l" : "list", a, b)); if(a | b) shown.back() = around(*run, run->pos, a, b); break; }
					case 11: case 12: { std::string g = r.pct(50) ? "g" : "get"; if(r.pct(15)){ say(g); shown.back() = around(*run, run->pos, 3, 3); break; } std::string v = vec(); V4 q = parse(v); bool sized = r.pct(50); u32 a = r.below(4), b = r.below(4); say(g + " " + v + (sized ? fmt(" (%u,%u)", a, b) : "")); if(q == V4{{ 0, 0, 0, 0 }} || (sized && !(a | b))) break; shown.back() = sized ? around(*run, q, a, b) : around(*run, q, 3, 3); break; } case 13: { std::string v = vec(); say("read " + v); i64 x = run->uni->sp.get(parse(v)); see(fmt("Value = (%lld) ", (long long)x) + cell(x) + "\n"); break; }
					case 14: { u32 j = r.below(3); say(j == 0 ? "u" : j == 1 ? "u " + name : "universe nosuch"); if(j == 1) run = m.cur; break; }
					case 15: if(whole && setters && r.pct(60)){
						if(r.pct(50)){ std::string v = fmt("(%u,%u)", r.below((u32)w), r.below((u32)h)); say("setpos " + v); run->pos = parse(v); see(fmt("%llu: ", (unsigned long long)run->id) + canon(run->pos) + " " + cell(run->uni->sp.get(run->pos)) + "\n"); }
						else { std::string v = r.pick(std::vector<std::string>{ "(1,0)", "(0,1)", "(-1,0)", "(0,-1)", "(2,0)", "(1,1)", "(1)" }); say("setdelta " + v); V4 d = parse(v); if(v == "(1)") d = V4{{ 1, 0, 0, 0 }}; run->delta = run->uni->mode & 1 ? run->delta + d : d; see("Delta " + canon(run->delta) + "\n"); }
						++sets; break;
					}
					say(r.pick(std::vector<std::string>{ "", "help", "  ", "stepp", "x 1 2", "run-away", "Q", "123" })); break;
					case 16: { std::string v = vec(); say((r.pct(50) ? "bp " : "break ") + v); bps.insert(parse(v)); shown.back() = list_of("Breakpoint ", bps); break; }
					default: { std::string v = !targets.empty() && r.pct(75) ? r.pick(targets) : vec(); say((r.pct(50) ? "wp " : "watch ") + v); wps.insert(parse(v)); shown.back() = list_of("Watchpoint ", wps); break; }
				}
				continue;
			}
			if(k >= 97 && style == 3){ say(r.pct(50) ? "quit" : "q", true); end_session(); return; }
			bool step = style == 0 ? r.pct(90) : style == 1 ? r.pct(10) : r.pct(50); if((int)n > bound) step = false;
			static const char* go[] = { "run", "r", "continue", "con", "c" }; static const char* st[] = { "step", "stp", "s" };
			say(step ? st[r.below(3)] : go[r.below(5)], true); state[run->id] = step ? STEP : RUN; return;
		}
	}
	void tick(MIp& i){ auto& t = trail[i.id]; if(t.size() >= 10) t.erase(t.begin()); t.push_back(i.pos); if(!state.count(i.id)){ state[i.id] = START; ip[i.id] = &i; } if(bps.count(i.pos)){ state[i.id] = BREAK; ++breaks; } whole = true; debug(i); whole = false; }
	void trap(MIp& i){ state[i.id] = BREAK; ++traps; debug(i); }
	void put(const V4& v){ if(m.cur && wps.count(v) && state.count(m.cur->id)){ state[m.cur->id] = BREAK; ++watches; debug(*m.cur); } }
};
// the same whether vectors are written with trailing zeroes or not, and however the stacks are numbered
std::string plain(const std::string& s){
	std::string o; for(size_t i = 0; i < s.size();){
		if(s[i] == '[' ){ size_t e = s.find(']', i); bool d = e != std::string::npos && e > i + 1; for(size_t k = i + 1; d && k < e; ++k) if(!isdigit((unsigned char)s[k])) d = false; if(d){ o += "[]"; i = e + 1; continue; } }
		if(s[i] == '(' && i && s[i - 1] == ' '){ size_t e = s.find(')', i); V4 q{{ 0, 0, 0, 0 }}; const char* c = s.c_str() + i + 1; int k = 0; char* z = nullptr; bool ok = e != std::string::npos; for(; ok && k < 4; ++k){ q[(size_t)k] = strtoll(c, &z, 10); if(z == c) ok = false; if(*z != ',') break; c = z + 1; } if(ok && z == s.c_str() + e && (k || s.compare(i, 2, "()") )){ o += Session::canon(q); i = e + 1; continue; } }
		o += s[i++];
	}
	return o;
}
std::string bare(const std::string& s){ std::string o; for(size_t i = 0; i < s.size(); ++i){ if(s[i] == 27){ while(i < s.size() && s[i] != 'm') ++i; continue; } o += s[i]; } return o; }
std::string sorted(const std::string& s){ std::set<std::string> l; size_t p = 0; while(p < s.size()){ size_t e = s.find('\n', p); if(e == std::string::npos) e = s.size(); l.insert(s.substr(p, e - p)); p = e + 1; } std::string o; for(auto& t : l) o += t + "\n"; return o; }
// what the program printed, and the last IP shown, in a piece of the transcript
void read_piece(const std::string& s, std::string& out, bool& any, u64& id, V4& pos){
	out.clear(); any = false;
	for(size_t i = 0; i < s.size();){
		auto skip = [&](const char* lead){ size_t L = strlen(lead); if(s.compare(i, L, lead)) return false; size_t p = s.find(") \"", i); if(p == std::string::npos) return false; i = p + 4; return true; };
		if(skip("Old value = (") || skip("New value = (")) continue;
		if(isdigit((unsigned char)s[i])){
			size_t p = i; u64 v = 0; while(p < s.size() && isdigit((unsigned char)s[p])) v = v * 10 + (u64)(s[p++] - '0');
			if(s.compare(p, 3, ": (") == 0){ V4 q{{ 0, 0, 0, 0 }}; size_t e = s.find(") \"", p); if(e != std::string::npos){ const char* c = s.c_str() + p + 3; for(int k = 0; k < 4; ++k){ char* z; q[(size_t)k] = strtoll(c, &z, 10); if(*z != ',') break; c = z + 1; } any = true; id = v; pos = q; i = e + 4; continue; } }
			i = p; continue;
		}
		if((unsigned char)s[i] >= 0x80) out += s[i]; ++i;
	}
}
std::vector<std::string> pieces(const std::string& o){ std::vector<std::string> v; size_t p = 0; for(;;){ size_t e = o.find(PROMPT, p); if(e == std::string::npos){ v.push_back(o.substr(p)); return v; } v.push_back(o.substr(p, e - p)); p = e + PROMPT.size(); } }
}
// IPs in several universes or in native threads, in any order
static Case together(Rng& r, int tier){
	Case c; std_files(c.sc); c.sc.argv = { "funge", "-g" }; bool native = r.pct(60); int U = native ? (int)r.range(1, 2) : (int)r.range(2, 3), ip = 0; std::string list; std::vector<int> len; int per = tier ? 40 : 16; u32 watch = r.pct(50) ? 15 : 0;
	for(int u = 0; u < U; ++u){
		int K = native ? (int)r.range(1, 3) : 1; std::vector<std::string> rows; for(int k = 0; k < K; ++k){ int n = 1 + (int)r.below((u32)per), id = ip++; std::string s; for(int i = 0; i < n; ++i) s += num((i64)(unsigned char)tag(id) + (i & 15)) + "," + (r.pct(10) ? "#v" "z" : r.pct(watch) ? "'z" + num((i64)r.below(4)) + num(20) + "p" : ""); len.push_back(n); rows.push_back(s + "@"); }
		std::string name = fmt("u%d.b98", u), t = staircase(rows); { size_t q; while((q = t.find("#vz")) != std::string::npos) t.replace(q, 3, "zzz"); } if(K == 1) t += "\nz\n"; c.sc.file("/sim/work/" + name, t); list += name + "\n"; c.note += "--- " + name + "\n" + t;
	}
	if(native) c.sc.argv.push_back("-fthreads=native"); if(U == 1) c.sc.argv.push_back("u0.b98"); else { c.sc.file("/sim/work/m.fmv", list); c.sc.argv.push_back("m.fmv"); }
	int lines = (int)r.below(40); u32 calm = r.below(100); size_t q_at = std::string::npos; std::string text;
	for(int i = 0; i < lines; ++i){ if(!r.pct(calm)) text += r.pick(std::vector<std::string>{ "s", "c", "step", "run", "s", "c" }) + "\n"; else if(r.pct(4) && q_at == std::string::npos){ q_at = text.size(); text += "quit\n"; } else text += r.pick(std::vector<std::string>{ "p", "d", "pos", "read (3,0)", "storage", "foo", "", "peek 1", "bt", "bp (9,0)", "u", "wp (1,20)", "wp (2,20)" }) + "\n"; }
	if(r.pct(60)) for(int i = 0; i < 200; ++i) text += "c\n";
	c.sc.input = text; add_noise(r, c.sc); c.sc.max_points = 60000000; c.schedules = 4; c.kind = native ? "native threads" : "several universes"; int I = ip; u64 total = text.size(); u64 q_end = q_at == std::string::npos ? ~0ull : q_at + 5;
	c.check = [=](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		std::map<u32, std::string> out; std::vector<std::string> got(8); std::vector<int> after((size_t)I, 0); u64 used = 0; bool gone = false;
		for(auto& e : x.ev){
			if(e.kind == E_STDIN){ if(e.a < 0) gone = true; else if(!e.b){ if(gone && q_end != ~0ull && used >= q_end) return "quit: another command is read after the session was ended"; if(++used == q_end) gone = true; } continue; }
			if(e.kind == E_STDOUT) for(size_t i = 0; i < e.s.size(); ++i){ unsigned char ch = (unsigned char)e.s[i]; if(ch >= 0x80 && (ch >> 4) - 8 < I){ got[(size_t)((ch >> 4) - 8)] += (char)(ch & 15); if(gone && ++after[(size_t)((ch >> 4) - 8)] > 1) return fmt("quit: IP %d goes on after the end of the session", (ch >> 4) - 8); } }
		}
		bool all = true; for(int i = 0; i < I; ++i){ std::string w; for(int k = 0; k < len[(size_t)i]; ++k) w += (char)(k & 15); auto& g = got[(size_t)i]; if(w.compare(0, g.size(), g)) return diff(fmt("output of IP %d", i), w, g); if(g.size() < w.size()) all = false; }
		if(x.exit_code == 0){ if(!all) return "output: the session went on to the end, the output is not complete"; }
		else if(x.exit_code == 1){ if(q_end == ~0ull && x.stdin_consumed < total) return fmt("quit: nobody quit, %llu of %llu bytes of commands were read", (unsigned long long)x.stdin_consumed, (unsigned long long)total); }
		else return fmt("exit code: %d", x.exit_code);
		return "";
	};
	return c;
}
static Case c19(Rng& r, int tier){
	if(r.pct(12)) return together(r, tier);
	Case c; std_files(c.sc); Mix m; m.out = 0; m.input = 0; m.exec = r.pct(20) ? 2 : 0; m.quit = r.pct(20) ? 1 : 0; m.split = 2 + (int)r.below(4); m.gp = 6; m.end = 2; m.fing = r.pct(50) ? 0 : 2; if(!m.fing) m.sem = 0; m.odd = 0; m.str = (int)r.below(3); if(r.pct(50)){ m.stst = 0; m.vec = 1; }
	std::vector<std::string> sn; for(auto& s : std_snippets(r)) if(s.find_first_of(".,") == std::string::npos && s.find("LLUN") == std::string::npos && s.find("AMOR") == std::string::npos && (m.fing || s.find('(') == std::string::npos)) sn.push_back(s);
	for(int i = 0; i < 6; ++i) sn.push_back(num(0x80 + (i64)r.below(0x70)) + ","); std::vector<std::string> targets; for(int i = 0; i < 4; ++i){ i64 tx = r.below(30), ty = r.below(8); sn.push_back(num((i64)r.below(100)) + num(tx) + num(ty) + "p"); targets.push_back(fmt("(%lld,%lld)", (long long)tx, (long long)ty)); }
	int w = (int)r.range(20, 40), h = (int)r.range(3, 8); Wild x = wild(r, m, w, h, r.pct(80), sn); std::string name = "p.b98"; x.cfg.args = { name };
	auto mm = std::make_shared<Model>(); c.sc.argv = { "funge" }; bool dbg = r.pct(95); if(dbg) c.sc.argv.push_back("-g"); c.sc.argv.push_back(name); c.sc.file("/sim/work/" + name, x.text); mm->files[name] = x.text; mm->wall = c.sc.wall_base;
	auto ss = std::make_shared<Session>(r, *mm, name); ss->w = w; ss->h = h; ss->targets = targets;
	if(dbg){ auto* p = ss.get(); mm->on_tick = [p](MIp& i){ p->tick(i); }; mm->on_trap = [p](MIp& i){ p->trap(i); }; mm->on_put = [p](MUni&, const V4& v){ p->put(v); }; }
	auto& U = mm->add(x.cfg, x.text); mm->start(U); mm->max_ticks = 6000; mm->run(); mm->on_tick = nullptr; mm->on_trap = nullptr; mm->on_put = nullptr;
	c.note = x.text; if(!mm->valid){ c.valid = false; c.kind = mm->why; return c; } for(unsigned char ch : mm->out) if(ch < 0x80){ c.valid = false; c.kind = "prints text"; return c; } if(mm->used_time || mm->reads_input){ c.valid = false; c.kind = "time or input"; return c; }
	c.sc.input = ss->text; bool nl = r.pct(85) || ss->text.empty() || !ss->eof; if(!nl) c.sc.input.pop_back(); if(!ss->eof && r.pct(50)) c.sc.input += "p\nq\nc\n"; add_noise(r, c.sc); c.sc.max_points = 200000000; c.schedules = 1; c.multi = false;
	c.kind = !dbg ? "no debugger" : ss->eof ? "end of commands" : ss->quit ? "quit" : "to the end"; c.nontrivial = ss->stops.size() > 1;
	c.probes["stops"] += ss->stops.size(); c.probes["breakpoints hit"] += ss->breaks; c.probes["watchpoints hit"] += ss->watches; c.probes["exceptions trapped"] += ss->traps; c.probes["IP switched"] += ss->switches; c.probes["inspections"] += ss->inspections; c.probes["IP moved"] += ss->sets; c.probes["splits"] += mm->splits; 
	auto stops = ss->stops; auto moved = ss->moved; auto shown = ss->shown; bool eof = ss->eof; std::string last = mm->out.substr(ss->printed); ss.reset();
	c.check = [=](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s;
		if(!dbg){ return compare(*mm, x); }
		auto pc = pieces(x.out()); size_t at = 0; auto show = [](const V4& p){ return fmt("(%lld, %lld)", (long long)p[0], (long long)p[1]); };
		// a piece before each prompt; the one after a command that lets go on holds a stop
		bool stop = true; 
		for(size_t i = 0; i < pc.size(); ++i){
			bool end = i + 1 == pc.size(); std::string o; bool any = false; u64 id = 0; V4 pos{{ 0, 0, 0, 0 }};
			if(stop){
				read_piece(pc[i], o, any, id, pos); bool want_end = at >= stops.size(); const std::string& wo = want_end ? last : stops[at].out;
				if(o != wo) return fmt("output before stop %zu: ", at) + diff("program", wo, o);
				if(end && !want_end) return fmt("stop: execution did not stop at %s (IP %llu), stop %zu", show(stops[at].pos).c_str(), (unsigned long long)stops[at].id, at);
				if(!end && want_end) return fmt("stop: execution stopped although it should go on to the end (after %zu stops): %s", at, quote(pc[i]).c_str());
				if(!end){ if(!any || id != stops[at].id || pos != stops[at].pos) return fmt("stop: %zu should be IP %llu at %s, but is: %s", at, (unsigned long long)stops[at].id, show(stops[at].pos).c_str(), quote(pc[i]).c_str()); ++at; }
			}
			if(end) break;
			if(i >= moved.size()){ // after the last command: the end of input
				if(!eof) return "prompt: another prompt after all commands";
				if(i + 2 != pc.size()) return "end of commands: there is another prompt"; 
				read_piece(pc[i + 1], o, any, id, pos); if(o != last) return diff("output after the end of commands", last, o); break;
			}
			stop = moved[i]; if(!shown[i].empty() && i + 1 < pc.size()){ std::string g = shown[i][0] == '~' ? bare(pc[i + 1]) : shown[i][0] == '#' ? sorted(plain(pc[i + 1])) : plain(pc[i + 1]); if(shown[i][0] + g != shown[i]) return fmt("shown: at stop %zu, ", at) + diff("answer", shown[i].substr(1), g); }
		}
		int code = mm->exit_code(); if(x.exit_code != code) return fmt("exit code: %d instead of %d", x.exit_code, code);
		auto cm = commands_of(x); if(cm.size() != mm->commands.size()) return fmt("commands: %zu instead of %zu", cm.size(), mm->commands.size()); for(size_t i = 0; i < cm.size(); ++i) if(cm[i].first != mm->commands[i]) return "commands: " + quote(cm[i].first);
		return "";
	};
	return c;
}
static Reg r19("C19", "random programs whose IPs take turns under the debugger: at every stop of the reference model a random mix of inspecting, break- and watchpoint, thread, step and continue commands, ended by the program, quit or the end of commands; every stop (IP and place), the program's output between stops, its commands and exit code must be the model's; also native threads and several universes under commands in any order; non-trivial: more than one stop", c19);
} // namespace drv
