// Program generators shared by the properties.
#pragma once
#include "model.h"
namespace drv {
// A two-dimensional picture being drawn.
struct Canvas {
	std::vector<std::string> rows;
	void put(size_t x, size_t y, const std::string& s){ if(rows.size() <= y) rows.resize(y + 1); auto& r = rows[y]; if(r.size() < x + s.size()) r.resize(x + s.size(), ' '); r.replace(x, s.size(), s); }
	std::string text() const { std::string o; for(auto& r : rows){ o += r; o += '\n'; } return o; }
};
std::string num(i64 n);                       // code pushing n
std::string pushes(const std::string& s);     // code pushing a string so that popping it as a string gives s (terminated)
std::string load(const std::string& fp);      // code loading a fingerprint and dropping what that pushes
std::string unload(const std::string& fp);

struct Mix { int blank = 20, dir = 10, digit = 16, arith = 14, stack = 9, out = 9, split = 3, end = 1, jump = 5, str = 2, spc = 3, stst = 4, gp = 3, input = 0, sys = 1, exec = 0, quit = 0, fing = 3, sem = 4, vec = 3, file = 0, odd = 2; };
struct Wild {
	std::string text; UniCfg cfg; std::vector<std::string> flags; std::string ext = ".b98";
};
Wild wild(Rng& r, const Mix& m, int w, int h, bool watchdog, const std::vector<std::string>& snippets);
std::vector<std::string> std_snippets(Rng& r);

// The whole outcome of a run against the model's: output, exit code, commands, files.
std::string compare(const Model& m, const Result& r, const std::string& before = "");
std::string diff(const std::string& what, const std::string& want, const std::string& got);
std::vector<std::string> shell_words(const std::string& s, bool& ok);
std::vector<std::pair<std::string, u64>> commands_of(const Result& r);
void env_of(Rng& r, Scenario& s);             // an environment for the process
// Rows executed by one IP each, numbered from 0 (ids in the same order): row i splits off row i+1.
std::string staircase(const std::vector<std::string>& rows, int gap = 1);
// Code with the row below it: an instruction that reflects leads through the row below, which prints a letter and comes back.
struct GRow {
	std::string m, l; bool flat = false;   // flat: one dimension, a reflection ends the IP
	GRow& code(const std::string& s){ m += s; l.resize(m.size(), ' '); return *this; }
	GRow& guard(const std::string& op, const std::string& after, char letter){
		if(flat) return code("#@" + op + after);
		size_t at = m.size(), len = std::max<size_t>(2 + op.size() + after.size(), 5);
		m += "#v" + op + after; m.resize(at + len, 'z'); m += ">";
		l.resize(at + 1, ' '); l += ">'"; l += letter; l += ","; l.resize(at + len, ' '); l += "^"; return *this;
	}
};
inline std::string two_rows(const std::vector<GRow>& rows){
	if(rows.size() == 1 && rows[0].flat) return rows[0].m + "\n";
	std::vector<std::string> m; for(auto& g : rows) m.push_back(g.m);
	std::string t = staircase(m, 2); Canvas c; size_t y = 0, p = 0; for(;;){ size_t e = t.find('\n', p); if(e == std::string::npos) break; c.put(0, y++, t.substr(p, e - p)); p = e + 1; }
	for(size_t i = 0; i < rows.size(); ++i) c.put(2 * i + 4, 2 * i + 1, rows[i].l.substr(0));
	return c.text();
}
std::string seg(const std::string& s, const std::string& lead);
} // namespace drv
