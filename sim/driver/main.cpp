#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
using namespace drv;
namespace drv { int cli_run(const std::string& sim, int argc, char** argv); int replay(const std::string& sim, const std::string& path); int check_main(const std::string& sim, int argc, char** argv); }
int main(int argc, char** argv){
	std::string self = argv[0]; char b[512]; ssize_t n = readlink("/proc/self/exe", b, 511); b[n > 0 ? n : 0] = 0; self = b;
	std::string sim = self.substr(0, self.rfind('/')) + "/sim";
	std::string c = argc > 1 ? argv[1] : "";
	if(const char* f = getenv("SIM_FING")) g_fing_dir = f;
	if(c == "run") return cli_run(sim, argc - 2, argv + 2);
	if(c == "check") return check_main(sim, argc - 2, argv + 2);
	if(c == "replay" && argc > 2) return replay(sim, argv[2]);
	if(c == "list"){ for(auto& p : properties()) puts(p.id.c_str()); return 0; }
	fprintf(stderr, "usage: drv check ID [--tier quick|thorough] [--seed N] [--budget S] | replay FILE | run ...\n");
	return 2;
}
