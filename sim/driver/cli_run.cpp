// drv run: one program under many random schedules, for exploration by hand.
#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
namespace drv {
static std::string slurp(const std::string& p){ std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
int cli_run(const std::string& sim, int argc, char** argv){
	Scenario s; std_files(s); int runs = 20; u64 seed = 1; bool verbose = false; int i = 0; bool multi = true; std::string fixed;
	for(; i < argc; ++i){
		std::string a = argv[i];
		if(a == "--runs") runs = atoi(argv[++i]);
		else if(a == "--seed") seed = strtoull(argv[++i], nullptr, 0);
		else if(a == "-v") verbose = true;
		else if(a == "--stdin") s.input = argv[++i];
		else if(a == "--tty") s.tty = true;
		else if(a == "--never") s.never_ends = true;
		else if(a == "--dir") s.dir(argv[++i]);
		else if(a == "--file"){ std::string x = argv[++i]; size_t p = x.find('='); s.file(x.substr(0, p), slurp(x.substr(p + 1))); }
		else if(a == "--text"){ std::string x = argv[++i]; size_t p = x.find('='); s.file(x.substr(0, p), x.substr(p + 1)); }
		else if(a == "--fault"){ unsigned op, k, nth; int val; long off = 0; char path[64] = ""; sscanf(argv[++i], "%u,%u,%u,%d,%ld,%63s", &op, &k, &nth, &val, &off, path); s.fault(op, k, nth, val, off, path); }
		else if(a == "--simple") multi = false;
		else if(a == "--") { ++i; break; }
		else break;
	}
	s.argv.push_back("funge");
	for(; i < argc; ++i) s.argv.push_back(argv[i]);
	Engine e(sim); std::map<std::string, int> seen;
	for(int r = 0; r < runs; ++r){
		Rng g(seed + r); s.seed = g.next(); s.sched = random_sched(g, multi);
		Result x = e.run(s);
		std::string key = x.describe() + " out=" + quote(x.out(), 300) + (x.err().empty() ? "" : " err=" + quote(x.err(), 200));
		if(seen[key]++ == 0){
			printf("seed %llu [%s] points=%llu threads=%u switches=%llu: %s\n", (unsigned long long)(seed + r), s.sched.name.c_str(), (unsigned long long)x.points, x.nthreads, (unsigned long long)x.switches, key.c_str());
			if(x.outcome != O_EXIT) printf("%s", symbolize(x.bt, sim).c_str());
			if(verbose) for(auto& ev : x.ev) printf("   ev kind=%u tid=%u vt=%llu a=%lld b=%lld %s\n", ev.kind, ev.tid, (unsigned long long)ev.vt, (long long)ev.a, (long long)ev.b, quote(ev.s).c_str());
		}
	}
	for(auto& k : seen) printf("%5d x %s\n", k.second, k.first.c_str());
	return 0;
}
}
