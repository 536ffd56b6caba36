// Straight-line programs for IPs running at the same time, with what each of them must print.
#pragma once
#include "gen.h"
namespace drv {
inline std::string lit(int b){ return std::string("'") + (char)b; }                 // pushes the byte
inline int tag(int ip){ return 0x80 + 16 * ip; }
inline std::string xy(i64 x, i64 y){ return num(x) + num(y); }
inline std::string emit1(int ip){ return "88+%" + lit(tag(ip)) + "+,"; }              // prints the top of the stack, a nibble
inline std::string emit2(int ip){ return ":88+/" + emit1(ip) + emit1(ip); }          // prints the top of the stack, a byte
inline std::string mark(int ip, int v){ return lit(tag(ip) + v) + ","; }
// repeats until the code before left a zero; `body` has no blanks and leaves one value
inline std::string until_zero(const std::string& body){
	std::string b = body; for(;;){ for(size_t len = b.size() + 6; len < b.size() + 26; ++len){ std::string s = b + "!!" + num((i64)len) + "*0\\-j"; if(s.size() == len) return s; } b = "z" + b; }
}
inline std::string for_ever(std::string body){ for(;;){ for(size_t len = body.size() + 4; len < body.size() + 24; ++len){ std::string s = body + num((i64)len) + "0\\-j"; if(s.size() == len) return s; } body += 'z'; } }
inline std::string wait_cell(i64 x, i64 y, i64 v){ return until_zero(xy(x, y) + "g" + num(v) + "-"); }
inline std::string set_cell(i64 v, i64 x, i64 y){ return num(v) + xy(x, y) + "p"; }
// what each IP printed, by the class of the byte; also checks that every IP sticks to one thread
struct Tagged { std::vector<std::string> of; std::vector<u32> tid; std::string rest, error; };
inline Tagged by_tag(const Result& x, bool one_thread){
	Tagged t; t.of.resize(8); t.tid.assign(8, 0xffffffff);
	for(auto& e : x.ev) if(e.kind == E_STDOUT) for(unsigned char c : e.s){
		if(c < 0x80){ t.rest += (char)c; continue; }
		int ip = (c - 0x80) >> 4; t.of[(size_t)ip] += (char)(c & 15);
		if(one_thread){ if(t.tid[(size_t)ip] == 0xffffffff) t.tid[(size_t)ip] = e.tid; else if(t.tid[(size_t)ip] != e.tid) t.error = fmt("threads: IP %d printed from two threads", ip); }
	}
	return t;
}
// what must be printed: a byte, exactly or within bounds
struct Exp { int kind; i64 v; int id; std::vector<i64> set; };   // kind 0: nibble v; 1: byte v; 2: one of set, never going back in it (id: which sequence); 3: any of set
std::string expect(int ip, const std::vector<Exp>& want, const std::string& got, bool complete = true);
} // namespace drv
