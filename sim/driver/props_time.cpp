// C17: clocks and sleeping.
#include "native.h"
#include <algorithm>
#include <ctime>
namespace drv {
namespace {
const i64 G = 1000000000ll, M29 = 1ll << 29;
// one printed number (or letter) of an IP
struct Want { char k; i64 v; };   // N number v; D date of a reading whose time is the next item; d date; t time; E elapsed since the item with index v; S microseconds; L letter; H hour, I minute, J second (fish); n number of fish; Z number of fish after a sleep of v ns
struct Item { bool letter; i64 v; u64 from, to; u32 tid; };
i64 enc_date(i64 s){ time_t t = s; struct tm x; gmtime_r(&t, &x); return ((i64)x.tm_year << 16) + ((x.tm_mon + 1) << 8) + x.tm_mday; }
i64 enc_time(i64 s){ time_t t = s; struct tm x; gmtime_r(&t, &x); return ((i64)x.tm_hour << 16) + (x.tm_min << 8) + x.tm_sec; }
i64 floor_s(i64 ns){ i64 s = ns / G; if(ns % G < 0) --s; return s; }
i64 mod(i64 a, i64 m){ a %= m; return a < 0 ? a + m : a; }
std::string pr(int ip){ return "8*" + num(ip) + "+."; }
}
static Case c17(Rng& r, int tier){
	Case c; std_files(c.sc); c.sc.argv = { "funge" }; const std::string W = "/sim/work/";
	bool native = r.pct(40); int U = (int)r.range(1, 4), ips = 0; std::vector<std::vector<Want>> want; std::vector<int> fish; std::vector<char> is_fish; std::string list; u64 sleeps = 0, reads = 0;
	std::vector<std::vector<Want>> fw;   // of the fish universes
	bool all_fish = r.pct(15), mixed = all_fish || r.pct(45), long_sleep = false; if(all_fish) U = (int)r.range(2, 4); std::vector<u64> fish_sleep;
	for(int u = 0; u < U; ++u){
		bool f = all_fish || (mixed && r.pct(u ? 60 : 40)); is_fish.push_back(f); std::string name = fmt(f ? "u%d.sf" : "u%d.b98", u), text;
		if(f){
			int n = (int)r.range(1, tier ? 14 : 8) * (all_fish ? 3 : 1); std::vector<Want> w; std::string t; u64 slept = 0;
			auto at = [&](char k){ t += k == 'H' ? "h" : k == 'I' ? "m" : "s"; t += "n' 'o"; w.push_back({ k, 0 }); ++reads; };
			t += "0n' 'o"; w.push_back({ 'N', 0 });
			for(int i = 0; i < n; ++i) switch(r.below(all_fish ? 4 : 5)){
				case 0: at('H'); break; case 1: at('I'); break; case 2: at('J'); break; case 3: at("HIJ"[r.below(3)]); break;
				default: { bool big = r.pct(30); i64 a = (i64)r.below(big ? 16 : 4); std::string code = fmt("%llx", (long long)a); i64 ns = a * 100000000ll; if(big && r.pct(15)){ code += "f*f*"; ns *= 225; } else if(big && r.pct(50)){ code += "f*"; ns *= 15; } else if(r.pct(30)){ code += "2,"; ns /= 2; } else if(r.pct(30)){ code += "88*,"; ns = ns / 64 / 1000 * 1000; }
					t += code + "Sln' 'o"; w.push_back({ 'Z', ns }); slept += (u64)ns; ++sleeps; if(ns > G) long_sleep = true; }
			}
			text = t + ";\n"; fish.push_back(u); fw.push_back(w); fish_sleep.push_back(slept);
		}else{
			int K = ips >= 8 ? 0 : (int)r.range(1, std::min(3, 8 - ips)); if(!K){ is_fish.pop_back(); break; }
			bool pre = K > 1 && r.pct(40); std::vector<GRow> rows;
			for(int k = 0; k < K; ++k){
				int ip = ips++; GRow g; if(!pre) g.code(load("HRTI")); std::vector<Want> w; int marked = -1; int n = (int)r.range(2, tier ? 16 : 9);
				auto out = [&](const std::string& code, char kind, i64 v = 0){ g.code(code + pr(ip)); w.push_back({ kind, v }); };
				out("0", 'N', 0);
				for(int i = 0; i < n; ++i) switch(r.below(10)){
					case 0: { ++reads; g.code("0y" + std::string(19, '$') + pr(ip) + pr(ip) + "n"); w.push_back({ 'D', 0 }); w.push_back({ 't', 1 }); break; }
					case 1: ++reads; out(num(20) + "y", 'd'); break;
					case 2: ++reads; out(num(21) + "y", 't'); break;
					case 3: { ++reads; g.code(num(20) + "y" + num(21) + "y\\" + pr(ip) + pr(ip)); w.push_back({ 'e', 0 }); w.push_back({ 'u', 0 }); break; }   // two readings
					case 4: out("M" + num(i), 'N', i); marked = (int)w.size() - 1; break;
					case 5: case 6: ++reads; if(marked >= 0){ if(r.pct(30)) out("T" + num(1 << 24) + "/", 'F', marked); else out("T", 'E', marked); } else { g.guard("T", std::string(1, 'z'), (char)('A' + ip)); w.push_back({ 'L', 'A' + ip }); } break;
					case 7: if(r.pct(40)){ g.code("E"); marked = -1; } else out(std::string(r.below(30), 'z') + "5", 'N', 5); break;
					default: ++reads; out("S", 'S');
				}
				g.code("@"); rows.push_back(g); want.push_back(w);
			}
			std::string t = two_rows(rows); if(K == 1) t += "\nz\n"; 
			if(pre){ std::string l = load("HRTI"); Canvas cv; cv.put(0, 0, l + "v"); cv.put(l.size(), 1, "<"); cv.put(0, 1, "v"); cv.put(0, 2, ">"); size_t y = 2, p = 0; for(;;){ size_t e = t.find('\n', p); if(e == std::string::npos) break; cv.put(1, y++, t.substr(p, e - p)); p = e + 1; } t = cv.text(); }
			text = t;
		}
		c.sc.file(W + name, text); c.note += "--- " + name + "\n" + text; list += name + "\n";
	}
	U = (int)is_fish.size();
	if(native) c.sc.argv.push_back("-fthreads=native");
	if(U == 1 && r.pct(70)) c.sc.argv.push_back(list.substr(0, list.size() - 1)); else { c.sc.file(W + "m.fmv", list); c.sc.argv.push_back("m.fmv"); }
	// clocks: a step of the simulator lasts from ten nanoseconds to some minutes
	static const u64 steps[] = { 10, 10, 100, 1000, 20000, 1000000, 50000000, 3000000000ull, 60000000000ull, 400000000000ull }; u64 step = steps[r.below(10)]; if(long_sleep && r.pct(60)) step = steps[r.below(4)]; c.sc.step_ns = step;
	i64 edges[] = { 1704067200, 1709164800, 1709251200, 1700006400, 1699999200, 2147483648ll, 946684800, 1735689600, 951782400, 4102444800ll }; i64 base = edges[r.below(10)];
	c.sc.wall_base = r.pct(70) ? base - (i64)std::min<u64>(86400ull * 200, r.below(40000) * step / (u64)G) - (i64)r.below(3) : 1700000000 + (i64)r.below(300000000);
	u32 nj = r.pct(70) ? 1 + r.below(8) : 0; u64 run = 400000; i64 total = 0;
	for(u32 i = 0; i < nj; ++i){
		i64 by = r.pct(30) ? r.range(-3 * G, 3 * G) : r.pct(40) ? r.range(-86400, 86400) * G : r.pct(50) ? r.range(-400, 400) * 86400 * G : r.range(-5000000, 5000000); if((total + by) / G + c.sc.wall_base < 86400 * 400){ by = -by; } total += by;
		c.sc.jumps.push_back(Jump{ (u64)r.below(r.pct(50) ? (u32)run : 30000) * step + (r.pct(30) ? (u64)r.below(2000) * 1000000 : 0), by });
	}
	if(r.pct(30)) for(u32 i = 0, n = 1 + r.below(3); i < n; ++i) c.sc.fault(OP_SLEEP, F_ERR, r.below(6), EINTR);
	add_noise(r, c.sc); c.sc.write_chunk = 0; c.sc.max_points = 60000000; c.schedules = 3;
	c.kind = fmt("%d universe%s%s%s, step %s", U, U > 1 ? "s" : "", fish.empty() ? "" : " with fish", native ? ", native" : "", step < 1000 ? "<1us" : step < 1000000 ? "<1ms" : step < 100000000 ? "<0.1s" : "longer"); c.probes["readings of a clock"] += reads; c.probes["sleeps"] += sleeps; c.probes["jumps of the wall clock"] += nj;
	u64 stalls = 0; for(auto& f : c.sc.faults) if(f.kind == F_STALL) stalls += (u64)f.off;
	int I = ips; bool all_native = native;
	c.check = [=](const Result& x) -> std::string {
		std::string s = sanity(x); if(!s.empty()) return s; if(x.exit_code != 0) return fmt("exit code: %d", x.exit_code);
		// what each IP printed
		std::vector<std::vector<Item>> got((size_t)I); std::map<u32, std::vector<Item>> fishes; std::map<u32, std::string> part; std::map<u32, bool> is_f; std::set<u32> uni; std::vector<u32> utid;
		for(auto& e : x.ev) if(e.kind == E_THREAD && e.tid == 0) utid.push_back(e.a);
		// threads that only ever print for a fish universe: universe threads are made in order
		std::map<u32, int> fish_of; for(size_t i = 0; i < fish.size(); ++i) if((size_t)fish[i] < utid.size()) fish_of[utid[(size_t)fish[i]]] = (int)i;
		if(all_native && !fish.empty()){ size_t k = 0; fish_of.clear(); std::vector<u32> firsts; for(size_t i = (size_t)U; i < utid.size(); ++i) firsts.push_back(utid[i]); for(size_t i = 0; i < fish.size(); ++i) if((size_t)fish[i] < firsts.size()) fish_of[firsts[(size_t)fish[i]]] = (int)i; (void)k; }
		std::vector<u64> last((size_t)I, 0); std::map<u32, u64> flast;
		for(auto& e : x.ev) if(e.kind == E_STDOUT) for(char ch : e.s){
			std::string& p = part[e.tid]; bool f = fish_of.count(e.tid) != 0;
			if(f){ if(ch == ' '){ fishes[e.tid].push_back(Item{ false, atoll(p.c_str()), flast[e.tid], e.vt, e.tid }); flast[e.tid] = e.vt; p.clear(); } else p += ch; continue; }
			if(ch >= 'A' && ch <= 'H'){ if(!p.empty()) return "output: a letter within a number"; int ip = ch - 'A'; if(ip >= I) return "output: " + quote(x.out(), 200); got[(size_t)ip].push_back(Item{ true, ch, last[(size_t)ip], e.vt, e.tid }); last[(size_t)ip] = e.vt; continue; }
			if(ch != ' '){ p += ch; continue; }
			char* end; i64 v = strtoll(p.c_str(), &end, 10); if(p.empty() || *end) return "output: " + quote(p); p.clear(); i64 ip = mod(v, 8); if(ip >= I) return "output: a number of no IP: " + std::to_string(v);
			got[(size_t)ip].push_back(Item{ false, mod((v - ip) / 8, M29), last[(size_t)ip], e.vt, e.tid }); last[(size_t)ip] = e.vt;
		}
		auto readings = [&](u32 tid, u64 from, u64 to, const std::function<bool(i64)>& ok){ for(auto& e : x.ev) if(e.kind == E_TIME && e.tid == tid && e.vt >= from && e.vt <= to && (e.a == CLOCK_REALTIME || e.a == 5) && ok(e.b)) return true; return false; };
		auto seen = [&](u32 tid, u64 from, u64 to){ std::string o; int n = 0; for(auto& e : x.ev) if(e.kind == E_TIME && e.tid == tid && e.vt >= from && e.vt <= to && ++n < 8) o += fmt(" %s%lld.%09lld", e.a ? "steady " : "wall ", (long long)(e.b / G), (long long)(e.b % G)); return o.empty() ? std::string(" none") : o; };
		for(int ip = 0; ip < I; ++ip){
			auto& w = want[(size_t)ip]; auto& g = got[(size_t)ip]; if(w.size() != g.size()) return fmt("output: IP %d printed %zu numbers instead of %zu", ip, g.size(), w.size());
			for(size_t i = 0; i < w.size(); ++i){
				auto& it = g[i]; char k = w[i].k; if((k == 'L') != it.letter) return fmt("timer: IP %d, item %zu: %s", ip, i, it.letter ? "T reflected although there is a mark" : "T gave a time although there is no mark"); u64 from = it.from;
				switch(k){
					case 'N': if(it.v != w[i].v) return fmt("output: IP %d, item %zu: %lld instead of %lld", ip, i, (long long)it.v, (long long)w[i].v); break;
					case 'L': break;
					case 'D': { i64 d = it.v, t = g[i + 1].v; if(!readings(it.tid, from, it.to, [&](i64 ns){ return enc_date(floor_s(ns)) == d && enc_time(floor_s(ns)) == t; })) return fmt("calendar: IP %d: date %lld.%lld.%lld and time %lld:%lld:%lld are of no instant of the instruction (readings:%s)", ip, (long long)(d >> 16) + 1900, (long long)(d >> 8 & 255), (long long)(d & 255), (long long)(t >> 16), (long long)(t >> 8 & 255), (long long)(t & 255), seen(it.tid, from, it.to).c_str()); break; }
					case 'd': case 'e': if(!readings(it.tid, from, it.to, [&](i64 ns){ return enc_date(floor_s(ns)) == it.v; })) return fmt("calendar: IP %d: date %lld.%lld.%lld, readings:%s", ip, (long long)(it.v >> 16) + 1900, (long long)(it.v >> 8 & 255), (long long)(it.v & 255), seen(it.tid, from, it.to).c_str()); break;
					case 'u': from = g[i - 1].from; [[fallthrough]];
					case 't': if(w[i].v == 1) break; if(!readings(it.tid, from, it.to, [&](i64 ns){ return enc_time(floor_s(ns)) == it.v; })) return fmt("calendar: IP %d: time %lld:%lld:%lld, readings:%s", ip, (long long)(it.v >> 16), (long long)(it.v >> 8 & 255), (long long)(it.v & 255), seen(it.tid, from, it.to).c_str()); break;
					case 'S': if(it.v < 0 || it.v > 999999 || !readings(it.tid, from, it.to, [&](i64 ns){ return mod(ns, G) / 1000 == it.v; })) return fmt("sub-second: IP %d: %lld microseconds, readings:%s", ip, (long long)it.v, seen(it.tid, from, it.to).c_str()); break;
					case 'F': { auto& m = g[(size_t)w[i].v]; i64 lo = (i64)(it.from - m.to) / 1000 / (1 << 24) - 1, hi = (i64)(it.to - m.from) / 1000 / (1 << 24) + 1; if(hi - lo < M29 && mod(it.v - lo, M29) > hi - lo) return fmt("timer: IP %d: %lld times 16.8 seconds since the mark, between %lld and %lld have passed", ip, (long long)it.v, (long long)lo, (long long)hi); break; }
					case 'E': { auto& m = g[(size_t)w[i].v]; i64 lo = (i64)(it.from - m.to) / 1000 - 1, hi = (i64)(it.to - m.from) / 1000 + 1; if(hi - lo < M29 && mod(it.v - lo, M29) > hi - lo) return fmt("timer: IP %d: %lld microseconds since the mark, between %lld and %lld have passed", ip, (long long)it.v, (long long)lo, (long long)hi); break; }
				}
			}
		}
		for(auto& f : fish_of){
			auto& w = fw[(size_t)f.second]; auto& g = fishes[f.first]; if(w.size() != g.size()) return fmt("output: fish %d printed %zu numbers instead of %zu", f.second, g.size(), w.size());
			for(size_t i = 0; i < w.size(); ++i){
				auto& it = g[i]; char k = w[i].k; if(k == 'N' || k == 'Z'){ if(it.v) return fmt("output: fish %d, item %zu: %lld", f.second, i, (long long)it.v); if(k == 'Z' && it.to - it.from < (u64)w[i].v) return fmt("sleep: fish %d slept %llu ns instead of %lld", f.second, (unsigned long long)(it.to - it.from), (long long)w[i].v); continue; }
				int div = k == 'H' ? 3600 : k == 'I' ? 60 : 1, m = k == 'H' ? 24 : 60;
				if(!readings(it.tid, it.from, it.to, [&](i64 ns){ return mod(floor_s(ns), 86400) / div % m == it.v; })) return fmt("clock: fish %d: %s %lld, readings:%s", f.second, k == 'H' ? "hour" : k == 'I' ? "minute" : "second", (long long)it.v, seen(it.tid, it.from, it.to).c_str());
			}
		}
		// all that others ever have to wait for is the work of the whole process
		double busy = ((double)x.points + (double)stalls) * (double)step + 1e6;
		for(int ip = 0; ip < I; ++ip) if((double)last[(size_t)ip] > busy) return fmt("delay: IP %d was held up until %llu ns, all the work was done in %.0f", ip, (unsigned long long)last[(size_t)ip], busy);
		for(auto& f : fish_of) if((double)flast[f.first] > busy + (double)fish_sleep[(size_t)f.second]) return fmt("delay: fish %d was held up until %llu ns, it had to sleep %llu and all the work was done in %.0f", f.second, (unsigned long long)flast[f.first], (unsigned long long)fish_sleep[(size_t)f.second], busy);
		return "";
	};
	return c;
}
static Reg r17("C17", "up to four universes, Befunge and Starfish mixed, in turns or native threads, read the calendar (y), timers and the sub-second counter (HRTI), the clock of Starfish, and sleep, while the wall clock jumps in both directions and a simulator step lasts from ten nanoseconds to minutes; every printed value must be of one reading of the proper clock by that thread within the instruction, elapsed times within the bounds of virtual time, sleeps not short and others not held up; non-trivial: all", c17);
} // namespace drv
