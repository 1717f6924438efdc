/* Levels computed for the rows of a matrix. input: matrix; output: the first row of each level. */
#include "vh.hpp"
#include "levelschedule.hpp"
using namespace blasted; using namespace vh;
static void one(In& in, Out& o) {
	Mat m; m.read(in); m.build(true);
	int nnz = m.rp[m.n];
	CRawBSRMatrix<double,int> raw(m.brp.p, m.bci.p, m.val.p, m.bdi.p, m.bre.p, m.n, nnz, nnz);
	o.iv("levels", computeLevels(&raw));
	o.i("intact", m.intact());
}
int main(int argc, char **argv) { return run(argc, argv, one); }
