// Reference model: a small sequential interpreter written from the language definition, the oracle for what a program
// computes when every IP takes its turns in the fixed order.
#pragma once
#include "core.h"
#include <array>
#include <deque>
#include <functional>
#include <list>

namespace drv {
typedef std::array<i64, 4> V4;
V4 operator+(const V4& a, const V4& b);

struct Space {
	std::map<V4, i64> cells; V4 lo{{0,0,0,0}}, hi{{0,0,0,0}};
	i64 get(const V4& v) const { auto i = cells.find(v); return i == cells.end() ? ' ' : i->second; }
};

struct UniCfg {
	int standard = 98; int dims = 0;      // 0: from the contents
	bool torus = false, charcells = false; int strings = 1;  // 0 multispace 1 SGML 2 C
	bool conc = true, exec = true, fs = true, invert = false, native = false;
	std::string name; std::vector<std::string> args; std::vector<u64> pre;   // fingerprints loaded at the start
};

struct MUni;
struct MStack { std::vector<i64> v; u64 ops = 0; int mode = 0; };   // mode: see MUni

typedef std::pair<u64, int> Sem;              // fingerprint and letter
struct MIp {
	u64 id = 0; MUni* uni = nullptr;
	V4 pos{{0,0,0,0}}, delta{{1,0,0,0}}, off{{0,0,0,0}};
	std::vector<std::shared_ptr<MStack>> ss;   // back is the top stack
	bool str = false; i64 prev = 0; bool stopped = false;
	i64 parent = -1;
	std::map<int, std::vector<Sem>> sem;       // A..Z: the meanings bound; a fingerprint 0 is one that reflects
	bool subr_off = false; size_t sel = 0;
	std::vector<u64> loaded; std::set<u64> avail;
	bool dormant = false; u64 sage = 0; MIp* caller = nullptr;
	u64 ticks = 0;
	std::string out;
};
struct MUni {
	UniCfg cfg; Space sp; std::list<MIp*> q; bool running = true; int exitcode = 0; std::string name; int dims = 1;
	int mode = 0;   // 1 hover, 2 invert, 4 queue, 8 switch, 16 dive
};

// A directory tree for the programs that change it.
struct MFs {
	struct Node { bool dir; std::string data; int mode; };
	std::map<std::string, Node> n; std::string cwd; bool exist_ok = true; bool odd = false;
	std::set<std::pair<int, std::string>> fail;   // operation (OP_...) and absolute path
	std::string norm(const std::string& p) const; int find(const std::string& p, std::string& abs) const;  // 0 nothing, 1 file, 2 directory
	bool parent(const std::string& abs) const; bool bad(int op, const std::string& abs) const { return fail.count({ op, abs }) != 0; }
	bool dirf(char c, const std::string& p); bool read(const std::string& p, std::string& out) const; bool write(const std::string& p, const std::string& d);
};
struct Model {
	std::shared_ptr<MFs> fs;
	// inputs
	std::string input; bool reads_input = false; std::vector<std::string> env; std::vector<SysRes> sys; i64 wall = 0;
	std::map<std::string, std::string> files;  // path to contents, as the program names them
	std::set<std::string> unwritable, text_written;
	std::map<u64, std::string> libs;           // fingerprints written in funge: their files
	u64 lib_calls = 0, lib_ticks = 0;
	u64 max_ticks = 20000, max_skips = 20000, max_work = 20000;
	std::string perl_prefix;
	// outputs
	std::string out; std::vector<std::string> commands; std::map<u64, std::string> ip_out; u64 in_pos = 0;
	std::vector<std::pair<std::string, std::string>> written;  // files written, in order
	bool valid = true; std::string why; bool used_time = false, used_box = false, unimp = false, used_iipc = false;
	u64 ticks = 0, splits = 0, quits = 0, ips_max = 0, syscalls = 0, reflects = 0; u64 transfers = 0;
	std::set<int> used;                         // instructions executed
	std::function<i64(const V4&, MIp&)> on_read; // extension points for checks
	std::function<void(MIp&)> on_tick, on_trap; std::function<void(MUni&, const V4&)> on_put; MIp* cur = nullptr; bool parsing = false;   // debugger
	std::vector<std::unique_ptr<MUni>> unis;
	std::vector<std::unique_ptr<MIp>> ips;
	u64 next_id = 0;

	MUni& add(const UniCfg& c, const std::string& text);   // parse a program
	MUni& empty(const UniCfg& c, int dims);
	MIp& start(MUni& u, const V4& pos = {{0,0,0,0}}, const V4& delta = {{1,0,0,0}});
	void run();          // all universes, taking turns; to the end
	int exit_code() const { return unis.empty() ? 0 : unis[0]->exitcode & 0xff; }
	MUni* find(const std::string& n);
	void invalid(const std::string& w){ if(valid){ valid = false; why = w; } }
	// parts
	static V4 parse(Space& s, const std::string& text, const V4& at, int dims, bool binary, bool charcells, Model* m = nullptr);
	static std::string dump(const Space& s, const V4& at, const V4& size, bool binary);
	void put(MUni& u, const V4& v, i64 c);
	enum Err { OK, SKIP, BLOCK, BAD, UNIMP };
private:
	Err exec(MIp& ip, i64 c); Err normal(MIp& ip, i64 c, bool quiet = false); Err finger(MIp& ip, u64 fp, int c);
	void tick(MIp& ip); void next(MIp& ip); bool inbox(MIp& ip, const V4& p);
	i64 pop(MIp& ip); i64 pops(MStack& s); void push(MIp& ip, i64 v); void pushs(MStack& s, i64 v); V4 popv(MIp& ip); V4 popvs(MIp& ip, MStack& s, int d); void pushv(MStack& s, const V4& v, int d);
	std::string popstr(MIp& ip); u64 pushstr(MIp& ip, const std::string& s); void print(MIp& ip, const std::string& s); MIp* clone(MIp& ip);
	bool load(MIp& ip, u64 fp); std::vector<i64> letters(u64 fp); Err library(MIp& ip, u64 fp, int c); Err dynamic(MIp& ip, int c); void sysinfo(MIp& ip, i64 n); int getch(); i64 cell(MIp& ip, const V4& v);
	void quit(MUni& u, int code); void set_mode(MIp& ip, int m){ for(auto& s : ip.ss) s->mode = m; } i64 peek(MStack& s, size_t n){ return n >= s.v.size() ? 0 : s.mode & 4 ? s.v[n] : s.v[s.v.size() - 1 - n]; } void turn(MIp& ip, const V4& d); void swapped(MIp& ip, i64 c){ if(ip.uni->mode & 8) put(*ip.uni, ip.pos, c); }
	MStack& top(MIp& ip){ return *ip.ss[ip.ss.size() - 1 - ip.sel]; }
	u64 skips = 0, work = 0;
};
std::vector<i64> letters_of(u64 fp);
constexpr u64 FP(const char* s){ u64 r = 0; while(*s) r = (r << 8) + (unsigned char)*s++; return r; }
} // namespace drv
