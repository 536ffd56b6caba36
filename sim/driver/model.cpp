#include "model.h"
#include <cstdlib>
#include <cstring>
#include <ctime>
namespace drv {
V4 operator+(const V4& a, const V4& b){ V4 r; for(int i = 0; i < 4; ++i) r[i] = (i64)((u64)a[i] + (u64)b[i]); return r; }
static V4 neg(const V4& a){ V4 r; for(int i = 0; i < 4; ++i) r[i] = (i64)(0 - (u64)a[i]); return r; }

std::vector<i64> letters_of(u64 fp){
	std::string s;
	if(fp == FP("BOOL")) s = "ANOX"; else if(fp == FP("BITW")) s = "ALNORX"; else if(fp == FP("IIPC")) s = "ADGILP";
	else if(fp == FP("FRTH")) s = "DLOPR"; else if(fp == FP("MVRS")) s = "BCFGJNP"; else if(fp == FP("PERL")) s = "EIS"; else if(fp == FP("REFC")) s = "RD";
	else if(fp == FP("ROMA")) s = "IVXLCDMP"; else if(fp == FP("MODU")) s = "MRU"; else if(fp == FP("NULL")) s = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
	else if(fp == FP("STRN")) s = "ACDFGILMNPRSV"; else if(fp == FP("BASE")) s = "BHINO"; else if(fp == FP("DIRF")) s = "CMR"; else if(fp == FP("MODE")) s = "HIQS";
	else if(fp == FP("FING")) s = "XYZ"; else if(fp == FP("SUBR")) s = "ACJOR"; else if(fp == FP("ORTH")) s = "AEGOPSVWXYZ"; else if(fp == FP("JSTR")) s = "GP"; else if(fp == FP("TOYS")) s = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
	else if(fp == FP("FISH")) s = "CDFHILMNORSTUV";
	return std::vector<i64>(s.begin(), s.end());
}

std::string MFs::norm(const std::string& p) const {
	std::string t = p[0] == '/' ? p : cwd + "/" + p; std::vector<std::string> w; size_t i = 0;
	while(i < t.size()){ size_t e = t.find('/', i); if(e == std::string::npos) e = t.size(); std::string c = t.substr(i, e - i); i = e + 1; if(c.empty() || c == ".") continue; if(c == ".."){ if(!w.empty()) w.pop_back(); } else w.push_back(c); }
	std::string o; for(auto& c : w) o += "/" + c; return o.empty() ? "/" : o;
}
int MFs::find(const std::string& p, std::string& abs) const {
	if(p.empty()){ abs.clear(); return 0; }
	for(size_t q = 0; q < p.size();){ // "." and ".." need the directory before them
		size_t e = p.find('/', q); if(e == std::string::npos) e = p.size(); std::string w = p.substr(q, e - q);
		if(q && (w == "." || w == "..")){ std::string a = norm(p.substr(0, q)); auto f = n.find(a); if(a != "/" && (f == n.end() || !f->second.dir)){ abs.clear(); return 0; } }
		q = e + 1;
	}
	abs = norm(p); for(size_t k = abs.rfind('/'); k != std::string::npos && k > 0; k = abs.rfind('/', k - 1)){ auto f = n.find(abs.substr(0, k)); if(f != n.end() && !f->second.dir) return 0; }
	auto f = n.find(abs); if(f == n.end()) return 0;
	if(!f->second.dir) return p.back() == '/' ? 0 : 1;
	return 2;
}
bool MFs::parent(const std::string& abs) const { size_t k = abs.rfind('/'); if(k == std::string::npos) return false; auto f = n.find(k ? abs.substr(0, k) : "/"); return f != n.end() && f->second.dir && (f->second.mode & 2); }
bool MFs::dirf(char c, const std::string& p){
	std::string a; int k = find(p, a);
	if(c == 'M'){ if(a.empty() || bad(OP_MKDIR, a) || k == 1 || (!k && n.count(a))) return false; if(k == 2) return exist_ok && !bad(OP_STAT, a); if(!parent(a)) return false; for(size_t i = a.rfind('/'); i != std::string::npos && i > 0; i = a.rfind('/', i - 1)){ auto f = n.find(a.substr(0, i)); if(f != n.end() && !f->second.dir) return false; } n[a] = Node{ true, "", 3 }; return true; }
	if(k != 2 || bad(OP_STAT, a)) return false;
	if(c == 'C'){ if(bad(OP_CHDIR, a) || !(n[a].mode & 1)) return false; cwd = a; return true; }
	if(bad(OP_REMOVE, a) || !parent(a)) return false;
	std::string pre = a + "/"; for(auto& f : n) if(f.first.compare(0, pre.size(), pre) == 0) return false;
	{ std::string q = p; while(!q.empty() && q.back() == '/') q.pop_back(); size_t b = q.rfind('/'); q = b == std::string::npos ? q : q.substr(b + 1); if(q == "." || q == "..") return false; }
	if(cwd == a) odd = true;
	n.erase(a); return true;
}
bool MFs::read(const std::string& p, std::string& out) const { std::string a; if(find(p, a) != 1 || bad(OP_OPEN, a)) return false; auto& f = n.find(a)->second; if(!(f.mode & 1)) return false; out = f.data; return true; }
bool MFs::write(const std::string& p, const std::string& d){ std::string a; int k = find(p, a); if(a.empty() || p.back() == '/' || bad(OP_OPEN, a) || k == 2) return false; if(!k && !parent(a)) return false; if(k && !(n[a].mode & 2)) return false; int m = k ? n[a].mode : 3; n[a] = Node{ false, d, m }; return true; }

static bool trace = getenv("MODEL_TRACE") != nullptr;
static u64 cost_of(u64 fp){ return fp == FP("ROMA") ? 1500 : fp == FP("NULL") ? 200 : fp == FP("MODU") ? 600 : 1; }

MUni* Model::find(const std::string& n){ for(auto& u : unis) if(u->name == n) return u.get(); return nullptr; }

static void grow(Space& s, const V4& v){ for(int i = 0; i < 4; ++i){ if(v[i] > s.hi[i]) s.hi[i] = v[i]; if(v[i] < s.lo[i]) s.lo[i] = v[i]; } }

void Model::put(MUni& u, const V4& v, i64 c){
	if(on_put) on_put(u, v);
	Space& s = u.sp;
	if(c == ' '){
		s.cells.erase(v);
		// the box shrinks to what is left; where that would be less than the box known, leave it to other cases
		for(int i = 0; i < 4; ++i) if((v[i] == s.hi[i] || v[i] == s.lo[i]) && (v[i] != 0 || i < u.dims)){
			i64 lo = 0, hi = 0; bool first = true; for(auto& k : s.cells){ i64 x = k.first[i]; if(first || x < lo) lo = x; if(first || x > hi) hi = x; first = false; }
			if(first || (v[i] == s.hi[i] && hi != s.hi[i]) || (v[i] == s.lo[i] && lo != s.lo[i])) invalid("box shrinks");
		}
	}else{
		grow(s, v);
		s.cells[v] = u.cfg.charcells ? (i64)(signed char)c : c;
	}
}

V4 Model::parse(Space& s, const std::string& t, const V4& at, int dims, bool bin, bool charcells, Model*){
	V4 v = at, mx = at; bool plane = false;   // plane: the last character started a new plane or volume
	auto upd = [&](int d){ if(v[d] > mx[d]) mx[d] = v[d]; };
	for(size_t k = 0; k < t.size(); ++k){
		unsigned char c = t[k];
		if(!bin && (c == '\n' || c == '\r')){
			if(c == '\r' && k + 1 < t.size() && t[k + 1] == '\n') ++k;
			if(!plane){ v[1]++; upd(1); upd(0); v[0] = at[0]; }
		}else if(!bin && c == '\f'){
			if(dims == 0 || dims >= 3){ upd(0); v[0] = at[0]; upd(1); v[1] = at[1]; v[2]++; upd(2); plane = true; }
		}else if(!bin && c == '\v'){
			if(dims == 0 || dims >= 3){ upd(0); v[0] = at[0]; upd(1); v[1] = at[1]; upd(2); v[2] = at[2]; v[3]++; upd(3); plane = true; }
		}else{
			if(c != ' '){ grow(s, v); s.cells[v] = charcells ? (i64)(signed char)c : (i64)c; }
			v[0]++; upd(0); plane = false;
		}
	}
	V4 r; for(int i = 0; i < 4; ++i) r[i] = mx[i] - at[i];
	return r;
}

std::string Model::dump(const Space& s, const V4& at, const V4& size, bool bin){
	std::string o;
	for(i64 z = 0; z < std::max<i64>(1, size[2]); ++z) for(i64 y = 0; y < size[1]; ++y){
		std::string row; size_t len = 0; if(z && !y) o += '\f';
		for(i64 x = 0; x < size[0]; ++x){ V4 v = at; v[0] += x; v[1] += y; v[2] += z; i64 c = s.get(v); row += (char)c; if(c != ' ') len = row.size(); }
		if(!bin) row.resize(len);
		o += row + "\n";
	}
	return o;
}

MUni& Model::add(const UniCfg& c, const std::string& text){
	MUni& u = empty(c, c.dims);
	parse(u.sp, text, V4{{0,0,0,0}}, c.dims, false, c.charcells);
	if(c.dims == 0){ int d = 1; for(auto& k : u.sp.cells) for(int i = 0; i < 4; ++i) if(k.first[i] && i + 1 > d) d = i + 1; u.dims = d; }
	return u;
}
MUni& Model::empty(const UniCfg& c, int dims){
	unis.push_back(std::make_unique<MUni>()); MUni& u = *unis.back(); u.cfg = c; u.dims = dims; 
	std::string n = c.name; for(int k = 1; find(n) && find(n) != &u; ++k) n = c.name + "." + std::to_string(k);
	u.name = n; return u;
}
MIp& Model::start(MUni& u, const V4& pos, const V4& delta){
	ips.push_back(std::make_unique<MIp>()); MIp& ip = *ips.back(); ip.id = next_id++; ip.uni = &u; ip.pos = pos; ip.delta = delta;
	ip.ss.push_back(std::make_shared<MStack>()); u.q.push_back(&ip); for(u64 f : u.cfg.pre) load(ip, f); return ip;
}

i64 Model::pops(MStack& s){ i64 r = 0; if(!s.v.empty()){ if(s.mode & 4){ r = s.v.front(); s.v.erase(s.v.begin()); } else { r = s.v.back(); s.v.pop_back(); } } s.ops++; return r; }
void Model::pushs(MStack& s, i64 v){ if(s.mode & 2) s.v.insert(s.v.begin(), v); else s.v.push_back(v); s.ops++; if(s.v.size() > 20000) invalid("stack too big"); }
i64 Model::pop(MIp& ip){ return pops(top(ip)); }
void Model::push(MIp& ip, i64 v){ pushs(top(ip), v); }
V4 Model::popvs(MIp& ip, MStack& s, int d){ V4 v{{0,0,0,0}}; for(int i = d; i > 0; --i) v[i - 1] = pops(s); for(int i = 0; i < d; ++i) if(v[i] > (1ll << 40) || v[i] < -(1ll << 40)) invalid("huge vector"); return v; }
V4 Model::popv(MIp& ip){ return popvs(ip, top(ip), ip.uni->dims); }
void Model::pushv(MStack& s, const V4& v, int d){ for(int i = 0; i < d; ++i) pushs(s, v[i]); }
std::string Model::popstr(MIp& ip){ std::string s; for(;;){ i64 c = pop(ip); if(!c) break; if(!(char)c) invalid("zero byte in a string"); s += (char)c; } return s; }
u64 Model::pushstr(MIp& ip, const std::string& s){ push(ip, 0); for(size_t i = s.size(); i > 0; --i) push(ip, s[i - 1]); return s.size() + 1; }
void Model::print(MIp& ip, const std::string& s){ out += s; ip.out += s; ip_out[ip.id] += s; if(out.size() > 60000) invalid("too much output"); }
int Model::getch(){ reads_input = true; return in_pos < input.size() ? (unsigned char)input[in_pos++] : -1; }
i64 Model::cell(MIp& ip, const V4& v){ i64 c = ip.uni->sp.get(v); return c; }

bool Model::inbox(MIp& ip, const V4& p){ for(int i = 0; i < ip.uni->dims; ++i) if(p[i] < ip.uni->sp.lo[i] || p[i] > ip.uni->sp.hi[i]) return false; return true; }
void Model::next(MIp& ip){
	if(ip.stopped) return;
	if(++skips > max_skips){ invalid("no end of skipping"); ip.stopped = true; return; }
	ip.pos = ip.pos + ip.delta;
	MUni& u = *ip.uni;
	if(u.cfg.torus){
		if(ip.pos[0] > 80) ip.pos[0] = 0; else if(ip.pos[0] < 0) ip.pos[0] = 79;
		if(ip.pos[1] > 25) ip.pos[1] = 0; else if(ip.pos[1] < 0) ip.pos[1] = 24;
	}else if(!inbox(ip, ip.pos)){
		V4 back = neg(ip.delta);
		bool zero = true; for(int i = 0; i < u.dims; ++i) if(back[i]) zero = false;
		V4 p = ip.pos + back; u64 n = 0;
		if(zero){ if(inbox(ip, p)){ invalid("stands still"); ip.stopped = true; return; } ip.pos = p + ip.delta; return; }
		while(inbox(ip, p)){ p = p + back; if(++n > max_skips){ invalid("far away"); ip.stopped = true; return; } }
		skips += n;
		ip.pos = p + ip.delta;
	}
}

void Model::turn(MIp& ip, const V4& d){ ip.delta = ip.uni && ip.uni->mode & 1 ? ip.delta + d : d; }
void Model::quit(MUni& u, int code){
	u.exitcode = code; u.running = false; quits++;
	for(auto* i : u.q) i->stopped = true;
}

MIp* Model::clone(MIp& p){
	ips.push_back(std::make_unique<MIp>(p)); MIp& c = *ips.back();
	c.id = next_id++; c.parent = (i64)p.id; c.out.clear(); c.dormant = false; c.sage = 0; c.str = false; c.prev = 0; c.ticks = 0;
	c.ss.clear(); for(auto& s : p.ss){ auto n = std::make_shared<MStack>(); n->v = s->v; n->mode = c.uni->mode; c.ss.push_back(n); }
	// meanings: those of the fingerprints loaded, in that order
	c.sem.clear(); for(u64 f : p.loaded) for(i64 l : letters(f)) c.sem[(int)l].push_back({ f, (int)l });
	c.avail = std::set<u64>(p.loaded.begin(), p.loaded.end());
	if(c.sem != p.sem){ for(auto& k : p.sem) if(k.second != c.sem[k.first] && !(k.second.empty())){ invalid("bindings out of order"); } for(auto& k : c.sem) if(!k.second.empty() && p.sem[k.first] != k.second) invalid("bindings out of order"); }
	for(u64 f : p.loaded) work += cost_of(f);
	if(p.subr_off) invalid("split with relative addresses");
	c.delta = neg(c.delta); next(c);
	splits++;
	if(!c.uni->running) return nullptr;
	c.uni->q.push_back(&c);
	if(c.uni->q.size() > 60) invalid("too many IPs");
	return &c;
}

static const u64 DYNAMICF = 0x64796E616D696366ull;
static void planes(const std::string& text, Space& sp, std::vector<i64>& have){
	V4 v{{0,0,0,0}}; size_t p = 0;
	while(p <= text.size()){
		size_t e = text.find('\n', p); std::string l = text.substr(p, e == std::string::npos ? e : e - p);
		if(l.size() == 2 && l[0] == '=' && l[1] >= 'A' && l[1] <= 'Z'){ v = V4{{ 0, 0, l[1] - 'A', 0 }}; have.push_back(l[1]); }
		else { for(char c : l){ if(c != ' '){ grow(sp, v); sp.cells[v] = c; } v[0]++; } v[1]++; v[0] = 0; }
		if(e == std::string::npos) break; p = e + 1;
	}
}
std::vector<i64> Model::letters(u64 f){
	if(f == DYNAMICF){ std::string s = "BDEFGKLMNOPQRSX"; return std::vector<i64>(s.begin(), s.end()); }
	auto l = libs.find(f); if(l == libs.end()) return letters_of(f);
	Space sp; std::vector<i64> have; planes(l->second, sp, have); return have;
}
// An instruction written in funge: its code runs to the end before anything else does.
Model::Err Model::library(MIp& ip, u64 f, int c){
	MUni lib; std::vector<i64> have; planes(libs[f], lib.sp, have); lib.cfg.standard = 98; lib.cfg.conc = ip.uni->cfg.conc; lib.cfg.exec = ip.uni->cfg.exec; lib.cfg.fs = ip.uni->cfg.fs; lib.dims = 3; lib.name = "library";
	ips.push_back(std::make_unique<MIp>()); MIp& l = *ips.back(); l.id = next_id++; l.uni = &lib; l.pos = V4{{ 0, 0, c - 'A', 0 }}; l.ss = ip.ss; if(ip.sel) invalid("call with another stack selected"); l.caller = &ip; load(l, DYNAMICF); lib.q.push_back(&l);
	set_mode(l, 0); u64 keep = skips; lib_calls++;
	while(!lib.q.empty() && valid){
		MIp* i = lib.q.front(); if(!i->stopped) tick(*i); lib_ticks++;
		lib.q.pop_front(); if(!i->stopped) lib.q.push_back(i);
		if(ticks > max_ticks) invalid("too long");
	}
	skips = keep; ip.ss = l.ss; ip.sel = l.sel; set_mode(ip, ip.uni->mode); for(auto& i : ips) if(i->uni == &lib) i->uni = nullptr;
	return OK;
}
Model::Err Model::dynamic(MIp& ip, int c){
	MIp* o = ip.caller; if(!o){ invalid("no caller"); return OK; }
	switch(c){
		case 'B': o->delta = neg(o->delta); next(*o); o->delta = neg(o->delta); return OK;
		case 'D': { V4 v = popvs(ip, top(ip), 3); turn(*o, v); return OK; }
		case 'E': push(ip, (i64)top(ip).v.size()); return OK;
		case 'F': next(*o); return OK;
		case 'G': { V4 v = popvs(ip, top(ip), 3); push(ip, o->uni->sp.get(v)); return OK; }
		case 'K': { i64 u = pop(ip); if(u < 0) return BAD; push(ip, peek(top(ip), (size_t)u)); return OK; }
		case 'L': o->pos = popvs(ip, top(ip), 3); return OK;
		case 'M': push(ip, o->uni->mode * 2); return OK;
		case 'N': push(ip, o->uni->sp.get(o->pos + o->delta)); return OK;
		case 'O': {
			i64 u = pop(ip), n = u < 0 ? -u : u; if(n > 50){ invalid("roll"); return OK; } std::vector<i64> x; for(i64 i = 0; i <= n; ++i) x.push_back(pop(ip));
			if(u < 0){ push(ip, x[0]); for(i64 i = n; i > 0; --i) push(ip, x[(size_t)i]); } else { for(i64 i = n - 1; i >= 0; --i) push(ip, x[(size_t)i]); push(ip, x[(size_t)n]); }
			return OK;
		}
		case 'P': { V4 v = popvs(ip, top(ip), 3); i64 n = pop(ip); put(*o->uni, v, n); return OK; }
		case 'Q': pushv(top(ip), o->pos, o->uni->dims); pushv(top(ip), o->delta, o->uni->dims); pushv(top(ip), o->off, o->uni->dims); return OK;
		case 'R': o->delta = neg(o->delta); return OK;
		case 'S': o->off = popvs(ip, top(ip), 3); return OK;
		case 'X': o->stopped = true; ip.stopped = true; return OK;
	}
	return UNIMP;
}

bool Model::load(MIp& ip, u64 f){
	auto l = letters(f); if(l.empty()) return false;
	work += cost_of(f);
	ip.avail.insert(f); ip.loaded.push_back(f);
	for(i64 c : l) ip.sem[(int)c].push_back({ f, (int)c });
	return true;
}

void Model::sysinfo(MIp& ip, i64 num){
	if(top(ip).mode & 6){ pop(ip); invalid("system information out of order"); return; }
	MUni& u = *ip.uni; MStack& t = top(ip); i64 tsize = (i64)t.v.size(); size_t before = t.v.size(); int d = u.dims;
	push(ip, 0); push(ip, 0); for(auto i = env.rbegin(); i != env.rend(); ++i) pushstr(ip, *i);
	push(ip, 0); push(ip, 0); for(auto i = u.cfg.args.rbegin(); i != u.cfg.args.rend(); ++i) pushstr(ip, *i);
	for(size_t i = 0; i + 1 < ip.ss.size(); ++i) push(ip, (i64)ip.ss[i]->v.size());
	if(ip.sel) invalid("system information with another stack selected");
	push(ip, tsize); push(ip, (i64)ip.ss.size());
	time_t now = (time_t)wall; struct tm tm; gmtime_r(&now, &tm); size_t timeat = t.v.size();
	push(ip, (tm.tm_hour << 16) + (tm.tm_min << 8) + tm.tm_sec); push(ip, (tm.tm_year << 16) + ((tm.tm_mon + 1) << 8) + tm.tm_mday);
	V4 ext; for(int i = 0; i < 4; ++i) ext[i] = u.sp.hi[i] - u.sp.lo[i];
	pushv(t, ext, d); pushv(t, u.sp.lo, d); pushv(t, ip.off, d); pushv(t, ip.delta, d); pushv(t, ip.pos, d);
	push(ip, 0); push(ip, (i64)ip.id); push(ip, d); push(ip, '/'); push(ip, 1); push(ip, 1); push(ip, 0x464e2b2b); push(ip, 8);
	i64 fl = 16; if(u.cfg.conc) fl |= 1; if(u.cfg.exec) fl |= 8; if(u.cfg.fs) fl |= 6; push(ip, fl);
	num = (int)num;
	if(num > 0){
		i64 at = (i64)t.v.size() - num; i64 v = at >= 0 ? t.v[(size_t)at] : 0;
		if(at == (i64)timeat || at == (i64)timeat + 1) used_time = true;
		while(t.v.size() > before) pop(ip);
		push(ip, v);
	}else used_time = true;
}

Model::Err Model::finger(MIp& ip, u64 f, int c){
	if(f == DYNAMICF) return dynamic(ip, c);
	if(libs.count(f)) return library(ip, f, c);
	if(f == FP("BOOL") || f == FP("BITW")){
		if(c == 'N'){ push(ip, ~pop(ip)); return OK; }
		i64 a = pop(ip), b = pop(ip);
		switch(c){
			case 'A': push(ip, b & a); break; case 'O': push(ip, b | a); break; case 'X': push(ip, b ^ a); break;
			case 'L': if(a < 0 || a > 62 || b < 0 || b > (1ll << 20)) invalid("shift"); else push(ip, b << a); break;
			case 'R': if(a < 0 || a > 62) invalid("shift"); else push(ip, b >> a); break;
		}
		return OK;
	}
	if(f == FP("FRTH")){
		if(c == 'D'){ push(ip, (i64)top(ip).v.size()); return OK; }
		if(c == 'O'){ i64 b = pop(ip), a = pop(ip); push(ip, a); push(ip, b); push(ip, a); return OK; }
		if(c == 'R'){ i64 x = pop(ip), b = pop(ip), a = pop(ip); push(ip, b); push(ip, x); push(ip, a); return OK; }
		if(c == 'P'){ i64 n = pop(ip); if(n < 0) return BAD; push(ip, peek(top(ip), (size_t)n)); return OK; }
		if(c == 'L'){
			i64 n = pop(ip), cnt = n < 0 ? -n : n; if(cnt > 1000){ invalid("roll"); return OK; }
			std::vector<i64> p; for(i64 i = 0; i <= cnt; ++i) p.push_back(pop(ip));
			if(n < 0){ push(ip, p[0]); for(i64 i = cnt; i > 0; --i) push(ip, p[(size_t)i]); }
			else { for(i64 i = cnt - 1; i >= 0; --i) push(ip, p[(size_t)i]); push(ip, p[(size_t)cnt]); }
			return OK;
		}
	}
	if(f == FP("IIPC")){
		used_iipc = true;
		auto other = [&](i64 id) -> MIp* { for(auto* o : ip.uni->q) if((i64)o->id == id && !o->stopped) return o; return nullptr; };
		switch(c){
			case 'I': push(ip, (i64)ip.id); return OK;
			case 'A': if(ip.parent < 0) return BAD; push(ip, ip.parent); return OK;
			case 'D': if(!ip.dormant){ ip.dormant = true; ip.sage = top(ip).ops; return BLOCK; } if(top(ip).ops != ip.sage){ ip.dormant = false; return OK; } return BLOCK;
			case 'G': { MIp* o = other(pop(ip)); if(!o) return BAD; push(ip, pops(top(*o))); return OK; }
			case 'L': { MIp* o = other(pop(ip)); if(!o) return BAD; push(ip, peek(top(*o), 0)); return OK; }
			case 'P': { i64 id = pop(ip), v = pop(ip); MIp* o = other(id); if(!o) return BAD; pushs(top(*o), v); return OK; }
		}
	}
	if(f == FP("MVRS")){
		auto copy = [&](MUni& from, const V4& src, const V4& sz, MUni& to, const V4& dst){
			V4 n = sz; for(int i = 0; i < 4; ++i) if(n[i] > 2000){ invalid("big copy"); return; }
			for(int i = 0; i < 4; ++i) if(n[i] <= 0){ if(i < ip.uni->dims){ if(n[i] < 0) invalid("negative size"); return; } n[i] = 1; }
			for(i64 w = 0; w < n[3]; ++w) for(i64 z = 0; z < n[2]; ++z) for(i64 y = 0; y < n[1]; ++y) for(i64 x = 0; x < n[0]; ++x){ V4 o{{x, y, z, w}}; put(to, dst + o, from.sp.get(src + o)); }
		};
		switch(c){
			case 'C': push(ip, (i64)unis.size()); return OK;
			case 'N': pushstr(ip, ip.uni->name); return OK;
			case 'J': { MUni* o = find(popstr(ip)); if(!o || !o->running) return BAD; ip.uni = o; set_mode(ip, o->mode); transfers++; return OK; }
			case 'G': { V4 d = popvs(ip, top(ip), 3), p = popvs(ip, top(ip), 3); MUni* o = find(popstr(ip)); if(!o || !o->running) return BAD; if((ip.uni->mode | o->mode) & 1) invalid("transfer while hovering"); ip.uni = o; ip.delta = d; set_mode(ip, o->mode); ip.pos = p; transfers++; return OK; }
			case 'F': { V4 sz = popv(ip), src = popvs(ip, top(ip), 3), dst = popv(ip); MUni* o = find(popstr(ip)); if(!o) return BAD; copy(*o, src, sz, *ip.uni, dst); return OK; }
			case 'P': { V4 sz = popv(ip), src = popv(ip), dst = popvs(ip, top(ip), 3); MUni* o = find(popstr(ip)); if(!o) return BAD; copy(*ip.uni, src, sz, *o, dst); return OK; }
			case 'B': {
				i64 dim = pop(ip), lang = pop(ip), fl = pop(ip); std::string n = popstr(ip); if(fl){ invalid("flags of a universe"); return OK; }
				if(lang < 0 || lang > 2) return BAD; if(dim < 0 || dim > 4){ invalid("dimensions"); return OK; }
				UniCfg u; u.standard = lang == 0 ? ip.uni->cfg.standard : lang == 1 ? 93 : 98; u.conc = ip.uni->cfg.conc; u.exec = ip.uni->cfg.exec; u.fs = ip.uni->cfg.fs; u.name = n;
				MUni& x = empty(u, dim ? (int)dim : ip.uni->dims); x.mode = ip.uni->mode; return OK;
			}
			default: return UNIMP;
		}
	}
	if(f == FP("PERL")){
		if(c == 'S'){ push(ip, 1); return OK; }
		if(!ip.uni->cfg.exec) return BAD;
		std::string code = popstr(ip); commands.push_back(std::string("\x01perl\x01") + code);
		int st = sys.empty() ? 0 : sys[syscalls % sys.size()].status; syscalls++;
		i64 r = (st & 0x7f) == 0 && st >= 0 ? (st >> 8) & 0xff : st;
		if(c == 'E') pushstr(ip, std::to_string(r)); else push(ip, r);
		return OK;
	}
	if(f == FP("ROMA") || f == FP("NULL")) { next_id++; work += 20; }   // the IP that runs the instruction has an id
	if(f == FP("ROMA")){ if(c == 'P'){ invalid("ROMA P"); return OK; } static const std::map<int, i64> r{{'I',1},{'V',5},{'X',10},{'L',50},{'C',100},{'D',500},{'M',1000}}; top(ip).v.push_back(r.at(c)); top(ip).ops++; return OK; }
	if(f == FP("NULL")){ ip.delta = neg(ip.delta); reflects++; return OK; }
	if(f == FP("MODE")){ ip.uni->mode ^= c == 'H' ? 1 : c == 'I' ? 2 : c == 'Q' ? 4 : 8; for(auto* i : ip.uni->q) set_mode(*i, ip.uni->mode); return OK; }
	if(f == FP("STRN")){
		if(c == 'I'){
			reads_input = true; if(in_pos >= input.size()) return BAD;
			size_t e = input.find('\n', in_pos); std::string l = input.substr(in_pos, e == std::string::npos ? e : e - in_pos); in_pos = e == std::string::npos ? input.size() : e + 1;
			pushstr(ip, l); return OK;
		}
		if(c == 'D'){ std::string s = popstr(ip); print(ip, s); return OK; }
		if(c == 'S'){ pushstr(ip, std::to_string(pop(ip))); return OK; }
		if(c == 'N'){ std::string s = popstr(ip); pushstr(ip, s); push(ip, (i64)s.size()); return OK; }
		if(c == 'G'){ V4 at = popv(ip) + ip.off; std::string s; for(i64 x; (x = cell(ip, at)) != 0; at[0]++){ s += (char)x; if(s.size() > 500){ invalid("long text"); return OK; } } pushstr(ip, s); return OK; }
		if(c == 'P'){ V4 at = popv(ip) + ip.off; std::string s = popstr(ip); if(s.size() > 500){ invalid("long text"); return OK; } for(char x : s){ put(*ip.uni, at, x); at[0]++; } put(*ip.uni, at, 0); return OK; }
		invalid("STRN"); return BAD;
	}
	if(f == FP("BASE")){
		if(c == 'I'){
			reads_input = true; i64 b = pop(ip); size_t p = in_pos; while(p < input.size() && isspace((unsigned char)input[p])) ++p;
			if(p >= input.size()){ in_pos = input.size(); return BAD; }
			size_t e = p; while(e < input.size() && !isspace((unsigned char)input[e])) ++e;
			std::string t = input.substr(p, e - p); in_pos = e; i64 v = 0;
			if(b == 1){ v = (i64)t.size(); }
			else for(char ch : t){ if(ch < '0' || ch > '9' || b < ch - '0' + 1 || b > 10){ invalid("BASE digit"); break; } v = v * b + (ch - '0'); if(v > (1ll << 40)) invalid("big number"); }
			push(ip, v); return OK;
		}
		invalid("BASE"); return BAD;
	}
	if(f == 0){ ip.delta = neg(ip.delta); return OK; }
	if(f == FP("FING")){
		auto lt = [](i64 v){ if(v >= 0 && v <= 25) v += 'A'; return v >= 'A' && v <= 'Z' ? (int)v : 0; };
		auto take = [&](int l){ auto& s = ip.sem[l]; Sem m{ 0, 0 }; if(!s.empty()){ m = s.back(); s.pop_back(); } return m; };
		int a = lt(pop(ip)); if(!a) return BAD;
		if(c == 'Y'){ take(a); return OK; }
		int b = lt(pop(ip)); if(!b) return BAD;
		if(c == 'X'){ if(a == b) { invalid("exchange of a letter with itself"); return OK; } Sem ma = take(a), mb = take(b); ip.sem[a].push_back(mb); ip.sem[b].push_back(ma); return OK; }
		auto& s = ip.sem[b]; Sem m = s.empty() ? Sem{ 0, 0 } : s.back(); ip.sem[a].push_back(m); return OK;
	}
	if(f == FP("SUBR")){
		int d = ip.uni->dims; if(ip.uni->mode & 1) invalid("call while hovering");
		if(c == 'A'){ ip.subr_off = false; return OK; } if(c == 'O'){ ip.subr_off = true; return OK; }
		if(c == 'J'){ invalid("SUBR J"); return OK; }
		i64 n = pop(ip); if(n < 0 || n > 500){ invalid("arguments of a call"); return OK; }
		if(c == 'C'){
			V4 va = popv(ip); std::vector<i64> x; for(i64 i = 0; i < n; ++i) x.push_back(pop(ip));
			pushv(top(ip), ip.pos, d); pushv(top(ip), ip.delta, d); for(i64 i = n; i > 0; --i) push(ip, x[(size_t)i - 1]);
			if(ip.subr_off) va = va + ip.pos; va[0]--; ip.pos = va; ip.delta = V4{{1,0,0,0}}; return OK;
		}
		std::vector<i64> x; for(i64 i = 0; i < n; ++i) x.push_back(pop(ip));
		V4 vd = popv(ip), va = popv(ip); for(i64 i = n; i > 0; --i) push(ip, x[(size_t)i - 1]);
		ip.pos = va; ip.delta = vd; return OK;
	}
	if(f == FP("FISH")){
		V4 o = ip.delta; auto take = [&]{ std::vector<i64> x; for(size_t n = top(ip).v.size(); n > 0; --n) x.push_back(pop(ip)); return x; };
		switch(c){
			case 'C': if(!pop(ip)) next(ip); return OK;
			case 'D': if(ip.sel + 1 >= ip.ss.size()) return BAD; ip.sel++; return OK;
			case 'I': if(!ip.sel) return BAD; ip.sel--; return OK;
			case 'H': o[1] = -o[1]; turn(ip, o); return OK; case 'V': o[0] = -o[0]; turn(ip, o); return OK;
			case 'M': turn(ip, V4{{ -o[1], -o[0], o[2], o[3] }}); return OK; case 'N': turn(ip, V4{{ o[1], o[0], o[2], o[3] }}); return OK;
			case 'L': { auto x = take(); if(x.empty()) return OK; for(size_t i = x.size() - 1; i > 0; --i) push(ip, x[i - 1]); push(ip, x.back()); return OK; }
			case 'R': { auto x = take(); if(x.empty()) return OK; push(ip, x[0]); for(size_t i = x.size() - 1; i > 0; --i) push(ip, x[i]); return OK; }
			case 'S': for(i64 v : take()) push(ip, v); return OK;
			case 'T': { i64 x = pop(ip), y = pop(ip), z = pop(ip); push(ip, x); push(ip, z); push(ip, y); return OK; }
			case 'O': ip.uni->mode &= ~16; return OK; case 'U': ip.uni->mode |= 16; return OK;
			default: invalid("FISH F"); return OK;
		}
	}
	if(f == FP("ORTH")){
		auto small = [&](i64 v){ if(v > (1ll << 40) || v < -(1ll << 40)) invalid("huge vector"); return v; };
		switch(c){
			case 'A': { i64 a = pop(ip), b = pop(ip); push(ip, b & a); return OK; } case 'E': { i64 a = pop(ip), b = pop(ip); push(ip, b ^ a); return OK; } case 'O': { i64 a = pop(ip), b = pop(ip); push(ip, b | a); return OK; }
			case 'G': { i64 x = small(pop(ip)), y = small(pop(ip)); push(ip, cell(ip, V4{{ x, y, 0, 0 }})); return OK; }
			case 'P': { i64 x = small(pop(ip)), y = small(pop(ip)), v = pop(ip); put(*ip.uni, V4{{ x, y, 0, 0 }}, v); return OK; }
			case 'V': case 'W': { i64 v = small(pop(ip)); if(ip.uni->mode & 1) invalid("set while hovering"); if(c == 'W' && ip.uni->dims < 2) invalid("second dimension"); ip.delta[c - 'V'] = v; return OK; }
			case 'X': case 'Y': { i64 v = small(pop(ip)); if(c == 'Y' && ip.uni->dims < 2) invalid("second dimension"); ip.pos[c - 'X'] = v; return OK; }
			case 'Z': if(!pop(ip)) next(ip); return OK;
			default: invalid("ORTH"); return OK;
		}
	}
	if(f == FP("JSTR")){
		i64 n = pop(ip); V4 va = popv(ip), vd = popv(ip), at = va + ip.off; if(n > 500){ invalid("long text"); return OK; }
		if(c == 'G'){ push(ip, 0); for(; n > 0; --n){ push(ip, cell(ip, at)); at = at + vd; } return OK; }
		for(; n > 0; --n){ put(*ip.uni, at, pop(ip)); at = at + vd; } return OK;
	}
	if(f == FP("TOYS")){
		int d = ip.uni->dims; V4 o = ip.delta;
		auto sz = [&](V4& s){ for(int i = 0; i < 4; ++i){ if(i >= d) s[i] = 1; if(s[i] < 1 || s[i] > 60){ invalid("size"); return false; } } if(d > 2) invalid("dimensions"); return valid; };
		auto area = [&](const V4& s, bool low, const std::function<void(const V4&)>& fn){ i64 n = s[0] * s[1]; for(i64 i = 0; i < n; ++i){ i64 k = low ? i : n - 1 - i; fn(V4{{ k % s[0], k / s[0], 0, 0 }}); } };
		switch(c){
			case 'A': { i64 n = pop(ip), a = pop(ip); if(n > 1000){ invalid("many copies"); return OK; } for(i64 i = 0; i < n; ++i) push(ip, a); return OK; }
			case 'B': { i64 b = pop(ip), a = pop(ip), x, y; if(__builtin_add_overflow(a, b, &x) || __builtin_sub_overflow(a, b, &y)) invalid("overflow"); push(ip, x); push(ip, y); return OK; }
			case 'D': { i64 a = pop(ip); if(a == INT64_MIN) invalid("overflow"); else push(ip, a - 1); return OK; } case 'I': { i64 a = pop(ip); if(a == INT64_MAX) invalid("overflow"); else push(ip, a + 1); return OK; }
			case 'E': { i64 s = 0; while(!top(ip).v.empty()) if(__builtin_add_overflow(s, pop(ip), &s)) invalid("overflow"); push(ip, s); return OK; } case 'P': { i64 s = 1; while(!top(ip).v.empty()) if(__builtin_mul_overflow(s, pop(ip), &s)) invalid("overflow"); push(ip, s); return OK; }
			case 'N': push(ip, !pop(ip)); return OK;
			case 'C': case 'K': case 'M': case 'V': { V4 dst = popv(ip), s = popv(ip), src = popv(ip); if(sz(s)) area(s, c == 'C' || c == 'M', [&](const V4& v){ put(*ip.uni, dst + v, cell(ip, src + v)); if(c == 'M' || c == 'V') put(*ip.uni, src + v, ' '); }); return OK; }
			case 'F': { V4 dst = popv(ip), s = popv(ip); if(sz(s)) area(s, true, [&](const V4& v){ put(*ip.uni, dst + v, pop(ip)); }); return OK; }
			case 'G': { V4 src = popv(ip), s = popv(ip); if(sz(s)) area(s, false, [&](const V4& v){ push(ip, cell(ip, src + v)); }); return OK; }
			case 'S': { V4 dst = popv(ip), s = popv(ip); i64 x = pop(ip); if(sz(s)) area(s, true, [&](const V4& v){ put(*ip.uni, dst + v, x); }); return OK; }
			case 'L': if(d < 2) invalid("second dimension"); push(ip, cell(ip, ip.pos + V4{{ o[1], -o[0], o[2], o[3] }})); return OK; case 'R': if(d < 2) invalid("second dimension"); push(ip, cell(ip, ip.pos + V4{{ -o[1], o[0], o[2], o[3] }})); return OK;
			case 'Q': put(*ip.uni, ip.pos + neg(o), pop(ip)); return OK;
			case 'W': { V4 v = popv(ip); i64 x = pop(ip), y = cell(ip, v); if(y < x){ push(ip, x); pushv(top(ip), v, d); return BLOCK; } if(y > x) ip.delta = neg(ip.delta); return OK; }
			case 'X': ip.pos[0]++; return OK; case 'Y': if(d < 2) return BAD; ip.pos[1]++; return OK; case 'Z': if(d < 3) return BAD; ip.pos[2]++; return OK;
			default: invalid("TOYS"); return OK;
		}
	}
	if(f == FP("DIRF")){
		if(!fs){ invalid("DIRF"); return OK; }
		if(!ip.uni->cfg.fs) return BAD;
		std::string p = popstr(ip); bool ok = fs->dirf((char)c, p); if(fs->odd) invalid("removed its own directory"); return ok ? OK : BAD;
	}
	if(f == FP("REFC") || f == FP("MODU")){ invalid("fingerprint not modelled"); return OK; }
	return UNIMP;
}

Model::Err Model::normal(MIp& ip, i64 c, bool quiet){
	MUni& u = *ip.uni; bool f98 = u.cfg.standard >= 98; int d = u.dims;
	if(u.mode & 16){ // diving: only movements do anything
		auto in = [&](const char* l){ return c > 0 && c < 127 && strchr(l, (int)c); }; bool known, move;
		if(c >= 'A' && c <= 'Z'){ auto s = ip.sem.find((int)c); known = s != ip.sem.end() && !s->second.empty(); move = known && s->second.back().first == FP("FISH") && (s->second.back().second == 'U' || s->second.back().second == 'O'); }
		else {
			move = in("<>") || (d >= 2 && in("^v")) || (f98 && in("r")) || (f98 && d >= 3 && in("hl"));
			known = move || in(" \t@#_?!%/*+-`$:\\\",.gp&~0123456789") || (d >= 2 && in("|")) || (f98 && in("abcdefzx;jkqtnu{}'s()y=io")) || (f98 && d >= 2 && in("[]w")) || (f98 && d >= 3 && in("m"));
		}
		if(known && !move) return SKIP;
	}
	if(c != ' ') used.insert((int)c);
	if(c >= 'A' && c <= 'Z'){ auto s = ip.sem.find((int)c); if(s == ip.sem.end() || s->second.empty()) return UNIMP; Sem m = s->second.back(); return finger(ip, m.first, m.second); }
	if(c >= '0' && c <= '9'){ push(ip, c - '0'); return OK; }
	if(f98 && c >= 'a' && c <= 'f'){ push(ip, c - 'a' + 10); return OK; }
	auto setd = [&](i64 x, i64 y, i64 z = 0){ turn(ip, V4{{x, y, z, 0}}); return OK; };
	switch(c){
		case ' ': case '\t': return SKIP;
		case '>': return setd(1, 0); case '<': return setd(-1, 0);
		case '@': ip.stopped = true; return OK;
		case '#': next(ip); return OK;
		case '_': return pop(ip) ? setd(-1, 0) : setd(1, 0);
		case '?': invalid("random"); return OK;
		case '!': push(ip, !pop(ip)); return OK;
		case '%': { i64 a = pop(ip), b = pop(ip); if(a == -1) b = 0, a = 1; push(ip, a ? b % a : 0); return OK; }
		case '/': { i64 a = pop(ip), b = pop(ip); if(a == -1 && b == INT64_MIN) invalid("overflow"); else push(ip, a ? b / a : 0); return OK; }
		case '*': { i64 a = pop(ip), b = pop(ip), r; if(__builtin_mul_overflow(a, b, &r)) invalid("overflow"); push(ip, r); return OK; }
		case '+': { i64 a = pop(ip), b = pop(ip), r; if(__builtin_add_overflow(a, b, &r)) invalid("overflow"); push(ip, r); return OK; }
		case '-': { i64 a = pop(ip), b = pop(ip), r; if(__builtin_sub_overflow(b, a, &r)) invalid("overflow"); push(ip, r); return OK; }
		case '`': { i64 a = pop(ip), b = pop(ip); push(ip, b > a); return OK; }
		case '$': pop(ip); return OK;
		case ':': { i64 a = pop(ip); push(ip, a); push(ip, a); return OK; }
		case '\\': { i64 a = pop(ip), b = pop(ip); push(ip, a); push(ip, b); return OK; }
		case '"': ip.str = true; return OK;
		case ',': { i64 x = pop(ip); print(ip, std::string(1, (char)x)); return OK; }
		case '.': print(ip, std::to_string((int)pop(ip)) + " "); return OK;
		case 'g': { V4 v = popv(ip) + ip.off; push(ip, cell(ip, v)); return OK; }
		case 'p': { V4 v = popv(ip) + ip.off; i64 x = pop(ip); put(u, v, x); return OK; }
		case '&': {
			int k; do{ k = getch(); if(k < 0) return BAD; } while(k < '0' || k > '9');
			u64 n = 0; while(k >= '0' && k <= '9'){ n = n * 10 + (u64)(k - '0'); k = getch(); if(n > (1ull << 58)) invalid("big number"); }
			if(k >= 0) --in_pos;
			push(ip, (i64)n); return OK;
		}
		case '~': { int k = getch(); if(k < 0) return BAD; if(k == 13){ k = getch(); if(k < 0) return BAD; } push(ip, k); return OK; }
	}
	if(d >= 2) switch(c){
		case '^': return setd(0, -1); case 'v': return setd(0, 1);
		case '|': return pop(ip) ? setd(0, -1) : setd(0, 1);
	}
	if(!f98) return UNIMP;
	if(d >= 2) switch(c){
		case '[': { V4 o = ip.delta; ip.delta[0] = o[1]; ip.delta[1] = -o[0]; if(!quiet) swapped(ip, ']'); return OK; }
		case ']': { V4 o = ip.delta; ip.delta[0] = -o[1]; ip.delta[1] = o[0]; if(!quiet) swapped(ip, '['); return OK; }
		case 'w': { i64 b = pop(ip), a = pop(ip); if(a < b) return normal(ip, '[', true); if(a > b) return normal(ip, ']', true); return OK; }
	}
	if(d >= 3) switch(c){
		case 'h': return setd(0, 0, u.cfg.invert ? -1 : 1); case 'l': return setd(0, 0, u.cfg.invert ? 1 : -1);
		case 'm': return pop(ip) ? setd(0, 0, -1) : setd(0, 0, 1);
	}
	switch(c){
		case 'z': return OK;
		case 'r': ip.delta = neg(ip.delta); return OK;
		case 'x': { V4 v = popv(ip); turn(ip, v); return OK; }
		case ';': do next(ip); while(cell(ip, ip.pos) != ';' && !ip.stopped); return SKIP;
		case 'j': { i64 j = (int)pop(ip); if(j > 5000 || j < -5000){ invalid("far jump"); return OK; } V4 dd = ip.delta; if(j < 0) ip.delta = neg(dd); for(i64 i = 0; i < (j < 0 ? -j : j); ++i) next(ip); if(j < 0) ip.delta = dd; return OK; }
		case 'k': {
			V4 at = ip.pos; next(ip);
			i64 o = cell(ip, ip.pos);
			while((o == ' ' || o == ';') && !ip.stopped){
				if(o == ';'){ do next(ip); while(cell(ip, ip.pos) != ';' && !ip.stopped); }
				next(ip); o = cell(ip, ip.pos);
			}
			ip.pos = at; i64 n = (int)pop(ip);
			if(o > 127 || o < 0){ invalid("k operand"); return OK; }
			if(n > 300){ invalid("many iterations"); return OK; }
			for(i64 i = 0; i < n && !ip.stopped; ++i){ if(++skips > max_skips){ invalid("iterations"); ip.stopped = true; break; } Err e = exec(ip, o); if(e == BLOCK) invalid("dormant in k"); }
			if(n == 0) next(ip);
			return OK;
		}
		case 'q': { i64 r = (int)pop(ip); quit(u, (int)r); ip.stopped = true; return OK; }
		case 't': if(!u.cfg.conc) return BAD; clone(ip); return OK;
		case 'n': top(ip).v.clear(); top(ip).ops++; return OK;
		case 'u': {
			if(ip.ss.size() < ip.sel + 2) return BAD;
			i64 n = pop(ip); if(n > 2000 || n < -2000){ invalid("big transfer"); return OK; }
			MStack& a = top(ip); MStack& b = *ip.ss[ip.ss.size() - 2 - ip.sel];
			for(i64 i = 0; i < n; ++i) pushs(a, pops(b));
			for(i64 i = 0; i < -n; ++i) pushs(b, pops(a));
			return OK;
		}
		case '{': {
			i64 n = pop(ip); if(n > 2000 || n < -2000 || ip.ss.size() > 50){ invalid("big block"); return OK; }
			if(u.mode & 6){ invalid("block in another mode"); return OK; }
			auto old = ip.ss[ip.ss.size() - 1 - ip.sel]; ip.ss.insert(ip.ss.end() - (long)ip.sel, std::make_shared<MStack>());
			if(n > 0){ std::vector<i64> t; for(i64 i = 0; i < n; ++i) t.push_back(pops(*old)); for(i64 i = n; i > 0; --i) push(ip, t[(size_t)i - 1]); }
			else for(i64 i = 0; i < -n; ++i) pushs(*old, 0);
			pushv(*old, ip.off, d); ip.off = ip.pos + ip.delta; swapped(ip, '}'); return OK;
		}
		case '}': {
			if(ip.ss.size() < ip.sel + 2){ swapped(ip, '{'); return BAD; }
			i64 n = pop(ip); if(n > 2000 || n < -2000){ invalid("big block"); return OK; }
			MStack& b = *ip.ss[ip.ss.size() - 2 - ip.sel]; ip.off = popvs(ip, b, d);
			if(n > 0){ std::vector<i64> t; for(i64 i = 0; i < n; ++i) t.push_back(pop(ip)); for(i64 i = n; i > 0; --i) pushs(b, t[(size_t)i - 1]); }
			else for(i64 i = 0; i < -n; ++i) pops(b);
			ip.ss.erase(ip.ss.end() - 1 - (long)ip.sel); swapped(ip, '{'); return OK;
		}
		case '\'': next(ip); push(ip, (int)cell(ip, ip.pos)); return OK;
		case 's': next(ip); put(u, ip.pos, (signed char)(int)pop(ip)); return OK;
		case '(': case ')': {
			i64 n = pop(ip); if(n > 2000){ invalid("fingerprint length"); return OK; }
			u64 f = 0; for(i64 i = 0; i < n; ++i) f = (f << 8) + (u64)pop(ip);
			bool loads = c == '('; swapped(ip, loads ? ')' : '(');
			if(loads){ if(!load(ip, f)){ if(n > 0) { if(f == 0) return BAD; bool zero = false; for(int i = 0; i < 8; ++i){ int b = (int)((f >> (8 * i)) & 0xff); if(b == '/' || b == '.') invalid("path"); if(!b) zero = true; else if(zero && i > 0 && (f & 0xff) == 0) invalid("path"); } } return BAD; } push(ip, (i64)f); push(ip, 1); return OK; }
			if(!ip.avail.count(f)) return BAD;
			for(i64 l : letters(f)){ auto& s = ip.sem[(int)l]; if(!s.empty()) s.pop_back(); }
			for(size_t i = ip.loaded.size(); i > 0; --i) if(ip.loaded[i - 1] == f){ ip.loaded.erase(ip.loaded.begin() + (long)i - 1); break; }
			return OK;
		}
		case 'y': { i64 n = pop(ip); sysinfo(ip, n); return OK; }
		case '=': {
			if(!u.cfg.exec) return BAD;
			std::string s = popstr(ip); commands.push_back(s); int st = sys.empty() ? 0 : sys[syscalls % sys.size()].status; syscalls++; push(ip, st); return OK;
		}
		case 'i': {
			if(!u.cfg.fs) return BAD;
			std::string p = popstr(ip); i64 fl = pop(ip); V4 at = popv(ip) + ip.off;
			std::string data; if(fs){ if(!fs->read(p, data)) return BAD; } else { auto f = files.find(p); if(f == files.end()) return BAD; data = f->second; }
			V4 sz = parse(u.sp, data, at, d, fl & 1, u.cfg.charcells); pushv(top(ip), sz, d); pushv(top(ip), at, d); return OK;
		}
		case 'o': {
			if(!u.cfg.fs) return BAD;
			std::string p = popstr(ip); i64 fl = pop(ip); V4 at = popv(ip) + ip.off, sz = popv(ip);
			for(auto x : sz) if(x < 1 && x != 0) invalid("negative size");
			if(d < 2) sz[1] = 1;
			if(sz[0] < 1 || sz[1] < 1 || sz[0] * sz[1] > 5000 || sz[3] || at[3] || (d < 3 && (sz[2] || at[2])) || (d >= 3 && (sz[2] < 1 || sz[2] > 6))){ invalid("region"); return OK; }
			if(fs){ if(fl & 1) invalid("text"); return fs->write(p, dump(u.sp, at, sz, true)) ? OK : BAD; }
			if(p.empty() || p.find('/') != std::string::npos || p.size() > 100){ invalid("path"); return OK; }
			if(unwritable.count(p)) return BAD;
			std::string t = dump(u.sp, at, sz, !(fl & 1)); files[p] = t; written.push_back({p, t}); if(fl & 1) text_written.insert(p); else text_written.erase(p); return OK;
		}
	}
	return UNIMP;
}

Model::Err Model::exec(MIp& ip, i64 c){
	if(!ip.str) return normal(ip, c);
	if(c == '"'){ ip.prev = 0; ip.str = false; return OK; }
	switch(ip.uni->cfg.strings){
		case 0: push(ip, c); return OK;
		case 1: {
			auto sp = [](i64 x){ return x == ' ' || (x >= 9 && x <= 13); };
			if(sp(c) && sp(ip.prev)) return SKIP;
			push(ip, c); ip.prev = c; return OK;
		}
		default:
			if(c != '\\'){ push(ip, c); return OK; }
			next(ip); c = cell(ip, ip.pos);
			switch(c){ case '0': c = 0; break; case 'a': c = 7; break; case 'b': c = 8; break; case 't': c = 9; break; case 'n': c = 10; break; case 'v': c = 11; break; case 'f': c = 12; break; case 'r': c = 13; break; case 'e': c = 27; break; }
			push(ip, c); return OK;
	}
}

void Model::tick(MIp& ip){
	++ticks; ++ip.ticks; work += skips + 1; skips = 0;
	if(work > max_work) invalid("too much work");
	cur = &ip;
	for(;;){
		if(on_tick){ on_tick(ip); if(ip.stopped) return; }
		i64 c = cell(ip, ip.pos);
		if(trace){ fprintf(stderr, "ip %llu (%lld,%lld) '%c' stack", (unsigned long long)ip.id, (long long)ip.pos[0], (long long)ip.pos[1], c > 31 && c < 127 ? (char)c : '?'); auto& v = top(ip).v; for(size_t i = v.size() > 8 ? v.size() - 8 : 0; i < v.size(); ++i) fprintf(stderr, " %lld", (long long)v[i]); fprintf(stderr, "\n"); }
		Err e = exec(ip, c);
		if(e == OK || e == SKIP) next(ip);
		else if(e == BAD || e == UNIMP){ if(e == UNIMP) unimp = true; if(on_trap){ on_trap(ip); if(ip.stopped) return; } reflects++; ip.delta = neg(ip.delta); next(ip); }
		if(e != SKIP || ip.stopped) return;
	}
}

void Model::run(){
	bool any = true;
	while(any && valid){
		any = false;
		for(size_t k = 0; k < unis.size() && valid; ++k){
			MUni& u = *unis[k];
			if(u.q.empty()) continue;
			any = true;
			if(u.q.size() > ips_max) ips_max = u.q.size();
			MIp* ip = u.q.front();
			if(!ip->stopped) tick(*ip);
			if(ip->uni != &u){ u.q.remove(ip); if(ip->uni->running) ip->uni->q.push_back(ip); continue; }
			u.q.pop_front();
			if(!ip->stopped) u.q.push_back(ip);
			if(ticks > max_ticks) invalid("too long");
			// everybody asleep: the real program would never end either
			bool asleep = true; for(auto& v : unis) for(auto* i : v->q) if(!(i->dormant && top(*i).ops == i->sage)) asleep = false;
			bool none = true; for(auto& v : unis) if(!v->q.empty()) none = false;
			if(asleep && !none) invalid("everybody dormant");
		}
	}
}
} // namespace drv
