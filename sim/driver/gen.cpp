#include "gen.h"
#include <cerrno>
namespace drv {
std::string num(i64 n){
	if(n < 0) return "0" + num(-n) + "-";
	if(n < 10) return std::string(1, (char)('0' + n));
	if(n < 16) return std::string(1, (char)('a' + n - 10));
	return num(n / 16) + "88+*" + (n % 16 ? num(n % 16) + "+" : "");
}
std::string pushes(const std::string& s){   // works for any bytes
	std::string o = "0"; bool in = false;
	for(size_t i = s.size(); i > 0; --i){
		unsigned char c = s[i - 1];
		if(c > 32 && c < 127 && c != '"' && c != '\\'){ if(!in) o += '"', in = true; o += (char)c; }
		else { if(in) o += '"', in = false; o += num(c); }
	}
	if(in) o += '"';
	return o;
}
static std::string rev(std::string s){ return std::string(s.rbegin(), s.rend()); }
std::string load(const std::string& fp){ return "\"" + rev(fp) + "\"" + num((i64)fp.size()) + "($$"; }
std::string unload(const std::string& fp){ return "\"" + rev(fp) + "\"" + num((i64)fp.size()) + ")"; }

static std::string lit_of(char c){ return std::string("'") + c; }
std::vector<std::string> std_snippets(Rng& r){
	std::vector<std::string> v;
	for(const char* f : { "BOOL", "BITW", "FRTH", "ROMA", "NULL", "STRN", "IIPC" }) v.push_back(load(f));
	if(r.pct(25)) for(char c : std::string("HIQSS")) v.push_back(load("MODE") + c);
	for(const char* f : { "BOOL", "FRTH", "ROMA" }) v.push_back(unload(f));
	v.push_back("2{3u"); v.push_back("12345{.."); v.push_back("04-{"); v.push_back("2}"); v.push_back("01-}");
	v.push_back("\"olleh\",,,"); v.push_back("\"a  b\".."); v.push_back(";skip;"); v.push_back("3k1"); v.push_back("2k."); v.push_back("4k:"); v.push_back("#@"); v.push_back("2j12.");
	v.push_back("'A,"); v.push_back("0kt"); v.push_back("2kt"); v.push_back("12w"); v.push_back("7y."); v.push_back("8y."); v.push_back(num(10) + "y." + num(11) + "y."); v.push_back("1y."); v.push_back("2y.3y.");
	{ std::string n(1 + r.below(4), '7'); v.push_back(n + num((i64)r.below(3)) + "{" + std::string(r.below(4), '8') + num((i64)r.below(3)) + "{" + num(22 + (i64)r.below(6)) + "y." + num(23 + (i64)r.below(3)) + "y.0}0}"); }
	v.push_back(num((i64)r.range(1, 32)) + "y."); v.push_back("\"\\n\\e0\\0x\\\\\\ta\"......"); v.push_back("\"\\\"a\"..");
	auto small = [&](int n){ return num((i64)r.below((u32)n)); }; auto at = [&]{ return small(40) + small(14); };
	if(r.pct(60)) switch(r.below(7)){
		case 6: { std::string l = load("FISH"); v.push_back(l); for(int i = 0; i < 3; ++i){ v.push_back(l + "1234" + r.pickc("LRSTLR") + "...."); v.push_back(l + small(2) + "Cz" + r.pickc("HVMN")); v.push_back(l + "n" + r.pickc("LRS") + load("FRTH") + "D."); v.push_back(l + "U12@3" + r.pickc("><vz4") + "O."); v.push_back(l + "12" + small(3) + "{D34" + small(3) + r.pickc("{}u:n.") + "." + r.pickc("ID}{I") + ".I."); } break; }
		case 0: { std::string l = load("ORTH"); v.push_back(l); v.push_back(l); for(int i = 0; i < 2; ++i){ v.push_back(l + small(14) + small(40) + "G."); v.push_back(l + num(33 + (i64)r.below(90)) + small(14) + small(40) + "P"); v.push_back(l + small(2) + "Z1."); v.push_back(l + small(20) + r.pickc("XY") + "z"); v.push_back(l + small(3) + r.pickc("VW")); } break; }
		case 1: { std::string l = load("JSTR"); v.push_back(l); for(int i = 0; i < 2; ++i){ v.push_back(l + "10" + at() + small(6) + "G...."); v.push_back(l + "\"cab\"" + small(2) + small(2) + at() + small(5) + "P"); } break; }
		case 2: { std::string l = load("TOYS"); v.push_back(l); v.push_back(l); for(int i = 0; i < 2; ++i){ v.push_back(l + at() + small(5) + small(4) + at() + r.pickc("CKMV")); v.push_back(l + "1234" + small(4) + small(3) + at() + "F"); v.push_back(l + small(4) + small(3) + at() + "G...."); v.push_back(l + num(33 + (i64)r.below(90)) + small(4) + small(3) + at() + "S"); v.push_back(l + num((i64)r.below(120)) + at() + "W"); v.push_back(l + "7" + small(5) + "A" + r.pickc("EPDINB") + "."); v.push_back(l + r.pickc("LR") + "."); v.push_back(l + num(33 + (i64)r.below(90)) + "Q"); v.push_back(l + r.pickc("XYZ")); } break; }
		case 3: { std::string l = load("FING"), b = load(r.pick(std::vector<std::string>{ "BOOL", "FRTH", "BITW" })); char x = (char)('A' + r.below(26)), y = (char)('A' + r.below(26)); if(r.pct(60)) x = r.pickc("ANOXRL"); if(x == y) y = x == 'Z' ? 'A' : 'Z'; if(r.pct(30)) y = 'Z'; else if(r.pct(15)) x = 'Z'; if(y == x) y = 'B';
			if(x == y) x = 'A'; std::string n1 = r.pct(70) ? lit_of(x) : num(x - 'A'), n2 = r.pct(70) ? lit_of(y) : num(y - 'A'); v.push_back(l); v.push_back(b + l + n2 + n1 + "X63" + y + "."); v.push_back(b + l + n1 + n2 + "Z63" + y + "."); v.push_back(b + l + n1 + "Y63" + x + "."); v.push_back(l + num(26 + (i64)r.below(200)) + r.pickc("XYZ")); break; }
		case 4: { std::string l = load("SUBR"); v.push_back(l); for(int i = 0; i < 2; ++i){ v.push_back(l + "A12" + at() + small(3) + "C.."); v.push_back(l + "O7" + small(9) + small(3) + small(2) + "CA."); v.push_back(l + small(30) + small(10) + "10" + small(3) + "R"); } break; }
		default: { std::string l = load("STRN"); v.push_back(l); v.push_back(l + "0\"dcba\"" + at() + "P"); v.push_back(l + "0\"dc\"" + num(5) + num(3) + "P" + num((i64)r.below(6)) + num(3) + "G,,,."); break; }
	}
	return v;
}

Wild wild(Rng& r, const Mix& m, int w, int h, bool watchdog, const std::vector<std::string>& snippets){
	Wild o; Canvas c;
	std::vector<std::pair<int, std::function<char()>>> t = {
		{ m.blank, [&]{ return ' '; } }, { m.dir, [&]{ return r.pickc("><^v>v"); } }, { m.digit, [&]{ return r.pickc("0123456789abcdef"); } },
		{ m.arith, [&]{ return r.pickc("+-*/%!`"); } }, { m.stack, [&]{ return r.pickc(":$\\::"); } }, { m.out, [&]{ return r.pickc("..,"); } }, { m.split, [&]{ return 't'; } }, { m.end, [&]{ return '@'; } },
		{ m.jump, [&]{ return r.pickc("#jk#;_|"); } }, { m.str, [&]{ return '"'; } }, { m.spc, [&]{ return r.pickc("'sz"); } }, { m.stst, [&]{ return r.pickc("{}un"); } }, { m.gp, [&]{ return r.pickc("gpg"); } },
		{ m.input, [&]{ return r.pickc("~&~"); } }, { m.sys, [&]{ return 'y'; } }, { m.exec, [&]{ return '='; } }, { m.quit, [&]{ return 'q'; } }, { m.fing, [&]{ return r.pickc("()"); } }, { m.sem, [&]{ return r.pickc("ADGILPNOXREISCVMBHQADGILPNOXREISCVMBHQFJKTWYZ"); } },
		{ m.vec, [&]{ return r.pickc("[]rxw"); } }, { m.file, [&]{ return r.pickc("io"); } }, { m.odd, [&]{ return r.pickc("hlm\t~!z"); } } };
	int sum = 0; for(auto& x : t) sum += x.first;
	auto cell = [&]{ int k = (int)r.below((u32)sum); for(auto& x : t){ if(k < x.first) return x.second(); k -= x.first; } return ' '; };
	int dw = watchdog ? 22 : 0;
	for(int y = 0; y < h; ++y){
		int x0 = 0;
		if(watchdog && y == 0) x0 = 3; else if(watchdog && (y == 1 || y == 2)) x0 = dw; 
		std::string row; while((int)row.size() < w - x0){ if(!snippets.empty() && r.pct(m.fing ? 6 : 4)){ auto& s = snippets[r.below((u32)snippets.size())]; row += r.pct(15) ? rev(s) : s; } else row += cell(); }
		row.resize((size_t)(w > x0 ? w - x0 : 0));
		// keep the way to the watchdog clear
		c.put((size_t)x0, (size_t)y, row);
	}
	if(watchdog){
		i64 limit = r.range(2, r.pct(30) ? 80 : 30);
		std::string loop = ">1+:" + num(limit) + "`#q_v";
		c.put(0, 0, "#vt"); c.put(1, 1, loop); c.put(1, 2, "^"); c.put(loop.size(), 2, "<"); // v is at column loop.size()
	}
	// one nonblank cell fixes the extent
	c.put((size_t)w, (size_t)h, "z"); c.put(0, 1, watchdog ? " " : std::string(1, cell()));
	o.text = c.text();
	o.cfg.standard = 98; o.cfg.dims = 2;
	return o;
}

std::string diff(const std::string& what, const std::string& want, const std::string& got){
	if(want == got) return "";
	size_t i = 0; while(i < want.size() && i < got.size() && want[i] == got[i]) ++i;
	size_t a = i > 30 ? i - 30 : 0;
	return what + ": differs at byte " + std::to_string(i) + " of " + std::to_string(want.size()) + "; expected ..." + quote(want.substr(a, 80)) + " but got ..." + quote(got.substr(a, 80));
}
std::vector<std::string> shell_words(const std::string& s, bool& ok){
	std::vector<std::string> w; std::string cur; bool in = false; ok = true;
	for(size_t i = 0; i < s.size(); ++i){
		char c = s[i];
		if(c == ' ' || c == '\t'){ if(in) w.push_back(cur), cur.clear(), in = false; }
		else if(c == '\''){ in = true; size_t e = s.find('\'', i + 1); if(e == std::string::npos){ ok = false; return w; } cur += s.substr(i + 1, e - i - 1); i = e; }
		else if(c == '\\'){ in = true; if(++i < s.size()) cur += s[i]; else ok = false; }
		else if(c == '"'){
			in = true; for(++i; i < s.size() && s[i] != '"'; ++i){ if(s[i] == '\\' && i + 1 < s.size() && strchr("$`\"\\\n", s[i + 1])) ++i; else if(s[i] == '$' || s[i] == '`'){ ok = false; return w; } cur += s[i]; }
			if(i >= s.size()) ok = false;
		}
		else if(strchr("$`;&|<>()*?#~\n", c)){ ok = false; return w; }
		else { in = true; cur += c; }
	}
	if(in) w.push_back(cur);
	return w;
}
std::vector<std::pair<std::string, u64>> commands_of(const Result& r){ std::vector<std::pair<std::string, u64>> v; for(auto& e : r.ev) if(e.kind == E_SYSTEM) v.push_back({ e.s, e.vt }); return v; }

// text without the blanks that may be left out: at the end of a row and rows at the end
// line breaks before the end of a text file may be left out
static std::string bare(std::string t){
	while(!t.empty() && t.back() == '\n') t.pop_back();
	return t;
}
std::string compare(const Model& m, const Result& r, const std::string& before){
	std::string s = sanity(r); if(!s.empty()) return s;
	s = diff("output", before + m.out, r.out()); if(!s.empty()) return s;
	if(r.exit_code != m.exit_code()) return fmt("exit code: expected %d but got %d", m.exit_code(), r.exit_code);
	auto c = commands_of(r);
	if(c.size() != m.commands.size()) return fmt("commands: expected %zu but %zu were run", m.commands.size(), c.size());
	for(size_t i = 0; i < c.size(); ++i){
		if(m.commands[i].compare(0, 6, "\x01perl\x01") == 0){
			bool ok; auto w = shell_words(c[i].first, ok); std::string code = m.commands[i].substr(6);
			// a C string ends at the first zero byte
			if(!ok || w.size() != 3 || w[0] != "perl" || w[1] != "-e" || w[2].find(code) == std::string::npos) return "commands: the code " + quote(code) + " was passed on as " + quote(c[i].first);
		}else if(c[i].first != m.commands[i]) return "commands: expected " + quote(m.commands[i]) + " but got " + quote(c[i].first);
	}
	std::map<std::string, std::string> last; for(auto& w : m.written) last[w.first] = w.second;
	for(auto& w : last){
		auto f = r.fs.find("/sim/work/" + w.first);
		if(f == r.fs.end() || f->second.dir) return "files: " + w.first + " was not written";
		bool text = m.text_written.count(w.first) != 0;
		std::string d = diff("files (" + w.first + ")", text ? bare(w.second) : w.second, text ? bare(f->second.data) : f->second.data); if(!d.empty()) return d;
	}
	return "";
}
void env_of(Rng& r, Scenario& s){ u32 n = r.pct(15) ? 3 + r.below(5) : r.below(3); for(u32 i = 0; i < n; ++i) s.env.push_back(fmt("V%u=%u", i, r.below(1000))); }

// Row i starts at (2i, i): ">#vt" then its code; the v leads the child, which travels west from the t, down to the next row.
std::string staircase(const std::vector<std::string>& rows, int gap){
	Canvas c;
	for(size_t i = 0; i < rows.size(); ++i){
		bool last = i + 1 == rows.size(); size_t x = 2 * i, y = i * (size_t)gap;
		c.put(x, y, std::string(">") + (last ? "zzz" : "#vt") + rows[i]);
		if(!last) for(int g = 1; g < gap; ++g) c.put(x + 2, y + (size_t)g, "v");
	}
	return c.text();
}
} // namespace drv
