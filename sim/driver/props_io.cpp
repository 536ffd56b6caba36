// C13: file input.  C14: file output.
#include "native.h"
#include <algorithm>
#include <cerrno>
namespace drv {
static std::string bytes(Rng& r, u32 style, u32 len){
	std::string s; for(u32 i = 0; i < len; ++i) switch(style){
		case 0: s += r.pct(25) ? ' ' : r.pct(8) ? '\n' : (char)r.range(33, 126); break;
		case 1: s += (char)r.below(256); break;
		case 2: s += r.pickc("ab \n\r\f\v\t"); break;
		case 3: { static const char* p[] = { "\r\n", "\n", "\r", "x", "yz", " ", "\f", "\v", "\r\n\n", "  w" }; s += p[r.below(10)]; break; }
		default: s += r.pct(90) ? (char)r.range(33, 126) : r.pct(50) ? '\n' : (char)r.range(128, 255);
	}
	return s;
}
namespace {
struct Stage {   // what the file input and output programs share
	Rng& r; Case& c; int dims = 2; bool native = false; UniCfg u; std::vector<GRow> rows; std::shared_ptr<Model> m = std::make_shared<Model>(); std::string name = "p.b98";
	Stage(Rng& r_, Case& c_, bool output) : r(r_), c(c_) {
		std_files(c.sc); c.sc.argv = { "funge" }; u32 k = r.below(10); dims = k < 7 ? 2 : k < 8 ? 1 : 3; u.standard = 98; u.dims = dims;
		if(dims != 2) c.sc.argv.push_back(dims == 1 ? "-std=une98" : "-std=tre98"); else c.sc.argv.push_back("-std=be98");
		if(r.pct(20)){ c.sc.argv.push_back("-fcells=char"); u.charcells = true; }
		native = r.pct(25); if(native){ c.sc.argv.push_back("-fthreads=native"); u.native = true; }
		int K = native || dims == 1 || r.pct(40) ? 1 : (int)r.range(2, 4); rows.resize((size_t)K); if(dims == 1) rows[0].flat = true;
		(void)output;
	}
	std::string vec(const V4& v){ std::string s; for(int i = 0; i < dims; ++i) s += num(v[i]); return s; }
	std::string shows(){ return std::string((size_t)(dims * 2), '.'); }
	// where region number k is; 1000 and more: far away
	V4 place(int k){
		V4 v{{0,0,0,0}};
		if(dims == 1){ v[0] = k < 1000 ? 2500 + 400 * k + (i64)r.below(20) : -(2000 + 1000 * (i64)(k - 1000)); return v; }
		v[0] = r.range(-40, 60); v[1] = k < 1000 ? (k % 2 ? 40 * k : -40 * (k + 2)) + (i64)r.below(4) : 2000 + 600 * (i64)(k - 1000); if(dims == 3) v[2] = r.range(-2, 4); return v;
	}
	Case& finish(u64 ticks){
		for(auto& g : rows) g.code("@");
		std::string text = two_rows(rows); u.args = { name }; c.sc.file("/sim/work/" + name, text); c.sc.argv.push_back(name); add_noise(r, c.sc); env_of(r, c.sc); m->env = c.sc.env;
		c.note += text; m->max_ticks = ticks; m->max_work = 2000000; c.sc.max_points = 200000000; m->add(u, text); m->start(*m->unis[0]); m->run(); c.valid = m->valid; if(!m->valid) c.kind = m->why;
		c.schedules = 2; c.probes["reflections"] += m->reflects; return c;
	}
};
}
static int rd_errno(Rng& r){ static const int e[] = { EIO, EACCES, EMFILE, ENFILE, ELOOP, ENOMEM, EPERM, ENXIO }; return e[r.below(8)]; }
static int wr_errno(Rng& r){ static const int e[] = { ENOSPC, EIO, EDQUOT, EFBIG, EROFS }; return e[r.below(5)]; }
// ---- C13
static Case c13(Rng& r, int tier){
	Case c; Stage st(r, c, false); int dims = st.dims; struct In { std::string name, data; bool bad; int slot; }; std::vector<In> in;
	int F = 1 + (int)r.below(4); bool any_bad = false, big_in = false; c.sc.dir("/sim/work/sub");
	for(int i = 0; i < F; ++i){
		In f; f.name = fmt("%sin%d.%s", r.pct(20) ? "sub/" : r.pct(10) ? "/sim/work/" : "", i, r.pct(50) ? "dat" : "b98"); u32 len = r.pct(10) ? 0 : r.pct(70) ? r.below(60) : r.below(tier ? 2000 : 400); if(!big_in && dims == 2 && r.below(150) == 0){ big_in = true; F = 1; len = 60000 + r.below(12000); c.schedules = 1; } f.data = bytes(r, r.below(5), len); if(f.data.size() > 72000) f.data.resize(72000); f.bad = !big_in && r.pct(30); f.slot = f.bad ? 1000 + i : (int)r.below(3); if(!f.bad && dims > 1 && std::count_if(f.data.begin(), f.data.end(), [](char ch){ return ch == '\n' || ch == '\r'; }) > 40) f.slot = 1;   // not over the program
		std::string full = f.name[0] == '/' ? f.name : "/sim/work/" + f.name, why; any_bad |= f.bad;
		if(f.bad) switch(r.below(7)){
			case 0: why = "missing"; if(r.pct(30)) c.sc.file(full + "x", f.data); break;
			case 1: why = "a directory"; c.sc.dir(full); break;
			case 2: why = "not permitted"; c.sc.file(full, f.data, 0); break;
			case 3: { int e = rd_errno(r); why = fmt("open error %d", e); c.sc.file(full, f.data); c.sc.fault(OP_OPEN, F_ERR, 0xffffffffu, e, 0, full); break; }
			default: { c.sc.file(full, f.data); i64 off = r.pct(25) ? (i64)f.data.size() : (i64)r.below((u32)f.data.size() + 1); int e = r.pct(70) ? EIO : rd_errno(r); c.sc.fault(OP_READ, F_ERR_AT, 0xffffffffu, e, off, full); why = fmt("read error %d at byte %lld", e, (long long)off); }
		}else{ c.sc.file(full, f.data); st.m->files[f.name] = f.data; if(r.pct(15)) c.sc.fault(OP_READ, F_ERR, r.below(8), EINTR, 0, full); why = "fine"; }
		c.note += fmt("%s (%zu bytes): %s\n", f.name.c_str(), f.data.size(), why.c_str()); in.push_back(f);
	}
	std::vector<V4> base; for(int k = 0; k < 3; ++k) base.push_back(st.place(k));
	for(size_t i = 0; i < st.rows.size(); ++i){
		auto& g = st.rows[i]; int n = 1 + (int)r.below(tier ? 6 : 4); if(big_in){ if(i) break; n = 1; } g.code(pushes(std::string(r.below(3), 'k')));
		for(int j = 0; j < n; ++j){
			auto& f = r.pick(in); V4 at = f.bad ? st.place(f.slot) : base[(size_t)f.slot]; bool bin = r.pct(35); bool inner = r.pct(15);
			if(!f.bad && r.pct(30)){ at[0] += r.range(-3, 3); if(dims > 1) at[1] += r.range(-2, 2); }
			if(inner){ g.code("0{"); }   // the storage offset moves to the cell after the `{`
			g.code(st.vec(at) + num(bin ? (r.pct(80) ? 1 : 3) : (r.pct(80) ? 0 : 4)) + pushes(f.name)); g.guard("i", st.shows(), (char)('A' + i));
			if(inner) g.code("0}");
			// look at it
			u32 looks = r.below(14); for(u32 l = 0; l < looks; ++l){
				V4 v = base[r.below(3)]; if(dims == 1) v[0] += r.range(-5, 60); else { v[0] += r.range(-4, r.pct(70) ? 12 : 60); v[1] += r.range(-3, 8); if(dims == 3) v[2] += r.pct(70) ? 0 : r.range(-1, 2); }
				if(!f.bad && f.data.size() && r.pct(40)){   // its last cell
					Space sp; Model::parse(sp, f.data, at, dims, bin, st.u.charcells); if(!sp.cells.empty()){ auto it = sp.cells.begin(); std::advance(it, (long)r.below((u32)sp.cells.size())); V4 w = it->first; bool ok = true; for(int d = dims; d < 4; ++d) ok &= w[d] == 0; if(ok) v = w; }
				}
				g.code(st.vec(v) + "g.");
			}
			if(r.pct(15)) g.code(".");
		}
	}
	c.kind = fmt("%dD%s%s", dims, any_bad ? ", failing files" : "", st.native ? ", native" : ""); auto m = st.m; Case& z = st.finish(9000); if(m->valid){ c.probes["loads"] += 1; }
	z.check = [m](const Result& x){ return compare(*m, x); };
	return z;
}
static Reg r13("C13", "programs whose IPs load files of every content at random origins (text and binary, 1 to 3 dimensions), print the vectors and sampled cells or the branch taken on reflection; files missing, directories, unreadable or failing at any byte; complete equality with the model; non-trivial: all", c13);

// ---- C14
static Case c14(Rng& r, int tier){
	Case c; Stage st(r, c, true); int dims = st.dims; bool any_bad = false, text_only = false; (void)text_only;
	struct Out { std::string name; bool bin; std::string why; bool bad = false; i64 limit = -1; }; std::vector<Out> outs; int F = 1 + (int)r.below(4);
	std::vector<V4> base; for(int k = 0; k < 3; ++k) base.push_back(st.place(k));
	std::vector<std::string> ins; int I = (int)r.below(3); for(int i = 0; i < I; ++i){ ins.push_back(fmt("in%d", i)); std::string d = bytes(r, r.pct(70) ? 4 : 0, r.below(200)); c.sc.file("/sim/work/" + ins.back(), d); st.m->files[ins.back()] = d; }
	std::map<std::string, std::string> others; { u32 n = r.below(3); for(u32 i = 0; i < n; ++i){ others[fmt("other%u", i)] = bytes(r, 0, r.below(40)); c.sc.file(fmt("/sim/work/other%u", i), others[fmt("other%u", i)]); } }
	for(int i = 0; i < F; ++i){
		Out o; o.bin = r.pct(50); o.name = fmt("%s%d", o.bin ? "b" : "t", i); std::string full = "/sim/work/" + o.name; bool pre = r.pct(50); std::string old = bytes(r, 0, r.pct(50) ? r.below(30) : r.below(900)); o.bad = r.pct(35); o.why = "fine";
		if(o.bad) switch(r.below(7)){
			case 0: o.why = "a directory"; c.sc.dir(full); pre = false; break;
			case 1: { o.why = "open fails"; static const int e[] = { EACCES, EROFS, EMFILE, ENOSPC, EISDIR, EDQUOT, ETXTBSY }; c.sc.fault(OP_OPEN, F_ERR, 0xffffffffu, e[r.below(7)], 0, full); break; }
			case 2: o.why = "close fails"; c.sc.fault(OP_CLOSE, F_ERR, 0xffffffffu, r.pct(50) ? EIO : ENOSPC, 0, full); break;
			case 3: o.why = "the file is read-only"; pre = false; c.sc.file(full, old, 1); break;
			default: o.limit = 0; break;   // chosen when the size is known
		}
		else { if(r.pct(15)) c.sc.fault(OP_WRITE, F_ERR, r.below(6), EINTR, 0, full); if(r.pct(20)) c.sc.fault(OP_WRITE, F_SHORT, r.below(4), 1 + (int)r.below(9), 0, full); }
		if(pre) c.sc.file(full, old);
		any_bad |= o.bad; outs.push_back(o);
	}
	// every output file is written from one region only, so that where it fails can be known from its size
	struct Reg2 { V4 at, size; }; std::vector<Reg2> regs; for(auto& o : outs){ (void)o; Reg2 g; g.at = base[r.below(3)]; g.size = V4{{ 1 + (i64)r.below(r.pct(80) ? 30 : 120), dims > 1 ? 1 + (i64)r.below(r.pct(80) ? 6 : 20) : 0, dims > 2 ? (i64)(r.pct(40) ? 1 : 1 + r.below(3)) : 0, 0 }}; if(r.pct(40)){ g.at[0] += r.range(-5, 5); if(dims > 1) g.at[1] += r.range(-2, 2); } regs.push_back(g); }
	for(size_t i = 0; i < st.rows.size(); ++i){
		auto& g = st.rows[i]; int n = 1 + (int)r.below(tier ? 6 : 4); 
		for(int j = 0; j < n; ++j){
			u32 puts = r.below(10); for(u32 l = 0; l < puts; ++l){
				V4 v = base[r.below(3)]; v[0] += (i64)r.below(r.pct(70) ? 12 : 100); if(dims > 1) v[1] += (i64)r.below(6); if(dims > 2) v[2] += (i64)r.below(3);
				i64 val = r.pct(70) ? r.range(33, 126) : r.pct(50) ? r.range(128, 255) : r.pct(50) ? r.range(1, 31) : r.pct(30) ? r.range(256, 100000) : r.range(-200, -1); if((val & 255) == 32 || (val & 255) == 10 || (val & 255) == 0) val = 120;
				g.code((val < 0 ? "0" + num(-val) + "-" : num(val)) + st.vec(v) + "p");
			}
			if(!ins.empty() && r.pct(50)){ g.code(st.vec(base[r.below(3)]) + num(r.below(2)) + pushes(r.pick(ins))); g.guard("i", st.shows(), (char)('a' + i)); }
			size_t k = r.below((u32)outs.size()); auto& o = outs[k]; bool inner = r.pct(12);
			if(inner) g.code("0{");
			if(o.bad && !o.bin) g.code("'x" + st.vec(regs[k].at) + "p");   // so that there is something to write
			V4 sz = regs[k].size; g.code(st.vec(sz) + st.vec(regs[k].at) + num(o.bin ? (r.pct(80) ? 0 : 2 * (i64)r.below(100)) : (r.pct(80) ? 1 : 1 + 2 * (i64)r.below(100))) + pushes(o.name)); g.guard("o", fmt("%d.", (int)j % 10), (char)('A' + i));
			if(inner) g.code("0}");
			if(r.pct(40)){ V4 v = base[r.below(3)]; v[0] += (i64)r.below(12); if(dims > 1) v[1] += (i64)r.below(4); g.code(st.vec(v) + "g."); }
			if(o.bin && r.pct(30)){ g.code(st.vec(st.place(1001 + (int)i)) + "1" + pushes(o.bad ? "nothere" : o.name)); g.guard("i", st.shows(), (char)('a' + i)); }
		}
	}
	for(auto& o : outs) if(o.bad) st.m->unwritable.insert(o.name);
	for(auto& o : outs) if(o.bad && o.limit >= 0){
		// the least that has to be written: one byte of an empty text file may not be
		size_t k = (size_t)(&o - &outs[0]); i64 least = o.bin ? (regs[k].size[0] + 1) * std::max<i64>(1, regs[k].size[1]) * std::max<i64>(1, regs[k].size[2]) - 1 : 0; std::string full = "/sim/work/" + o.name;
		int e = wr_errno(r); o.limit = least > 0 && r.pct(80) ? (i64)r.below((u32)least) : 0; if(!o.bin){ o.limit = 0; }
		o.why = fmt("write error %d at byte %lld", e, (long long)o.limit); c.sc.fault(OP_WRITE, F_ERR_AT, 0xffffffffu, e, o.limit, full);
	}
	for(auto& o : outs) c.note += o.name + ": " + o.why + "\n";
	c.kind = fmt("%dD%s%s", dims, any_bad ? ", failing files" : "", st.native ? ", native" : ""); auto m = st.m; Case& z = st.finish(9000);
	z.check = [m, others](const Result& x) -> std::string {
		std::string s = compare(*m, x); if(!s.empty()) return s;
		for(auto& o : others){ auto f = x.fs.find("/sim/work/" + o.first); if(f == x.fs.end() || f->second.data != o.second) return "other files: " + o.first + " was changed"; }
		for(auto& f : x.fs) if(f.first.compare(0, 10, "/sim/work/") == 0){ std::string n = f.first.substr(10); if(n[0] != 'b' && n[0] != 't' && n[0] != 'p' && n.compare(0, 2, "in") && n.compare(0, 5, "other")) return "other files: " + n + " has come into being"; }
		return "";
	};
	return z;
}
static Reg r14("C14", "programs whose IPs fill regions by p and i and write them to files over earlier contents (text and binary), opening, writing or closing failing at any byte; output, file contents (canonical for text), other files and cells against the model; non-trivial: all", c14);
} // namespace drv
