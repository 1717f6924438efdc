// Names of methods and initializations. input: solver|fact|apply name ('%' encoded)
#include "vh.hpp"
#include "solverfactory.hpp"
using namespace blasted; using namespace vh;
static std::string decode(const std::string& s) {
	std::string r;
	for(size_t k = 1; k < s.size(); k++)            // leading '='
		if(s[k] == '%') { r += (char)strtol(s.substr(k+1, 2).c_str(), nullptr, 16); k += 2; } else r += s[k];
	return r;
}
static void one(In& in, Out& o) {
	std::string table = in.s(), s = decode(in.s()), g;
	try {
		if(table == "solver") {
			SRFactory<double,int> f;
			switch(f.solverTypeFromString(s)) {
			case BLASTED_JACOBI: g = "JACOBI"; break; case BLASTED_GS: g = "GS"; break; case BLASTED_SGS: g = "SGS"; break; case BLASTED_ILU0: g = "ILU0"; break;
			case BLASTED_SEQILU0: g = "SEQILU0"; break; case BLASTED_SFILU0: g = "SFILU0"; break; case BLASTED_SAPILU0: g = "SAPILU0"; break;
			case BLASTED_CSC_BGS: g = "CSC_BGS"; break; case BLASTED_LEVEL_SGS: g = "LEVEL_SGS"; break; case BLASTED_ASYNC_LEVEL_ILU0: g = "ASYNC_LEVEL_ILU0"; break;
			case BLASTED_NO_PREC: g = "NO_PREC"; break; case BLASTED_EXTERNAL: g = "EXTERNAL"; break;
			default: g = "another value";
			}
		} else if(table == "fact") {
			switch(getFactInitFromString(s)) {
			case INIT_F_ZERO: g = "ZERO"; break; case INIT_F_ORIGINAL: g = "ORIGINAL"; break; case INIT_F_SGS: g = "SGS"; break; case INIT_F_NONE: g = "NONE"; break;
			default: g = "another value";
			}
		} else {
			switch(getApplyInitFromString(s)) {
			case INIT_A_ZERO: g = "ZERO"; break; case INIT_A_JACOBI: g = "JACOBI"; break; case INIT_A_NONE: g = "NONE"; break;
			default: g = "another value";
			}
		}
	}
	catch(const std::invalid_argument&) { g = "invalid argument"; }
	catch(...) { g = "another exception"; }
	o.s("got", g);
}
int main(int argc, char **argv) { return run(argc, argv, one); }
