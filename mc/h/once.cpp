/* threads::Once: n threads request the same initialisation(s), in any order. */
#include "common.h"
#include "threads/once.h"
struct Obj {
	int runs, done, data[3];
	void init() { runs++; mc_yield(); data[0] = 7; data[1] = 8; mc_yield(); data[2] = 9; done++; }
};
static Obj o[2]; static threads::Once* once[2];
static void worker(int t, void*)
{
	int n = mc_arg("calls", 2);
	for (int i = 0; i < n; i++) {
		int k = mc_arg("objects", 1) > 1 ? mc_choose(2, "object") : 0;
		once[k]->saveExec(o[k], &Obj::init);
		MC_CHECK(o[k].done == 1 && o[k].data[0] == 7 && o[k].data[1] == 8 && o[k].data[2] == 9, "thread %d continues before the initialisation has completed (runs=%d, completed=%d)", t, o[k].runs, o[k].done);
		MC_CHECK(o[k].runs == 1, "the initialisation ran %d times", o[k].runs);
	}
}
void mc_setup() {}
void mc_main()
{
	for (int c = 0; c < mc_arg("cycles", 1); c++) {
		for (int i = 0; i < 2; i++) { once[i] = new threads::Once(); o[i] = Obj(); }
		mc_parallel(mc_arg("threads", 2), worker);
		for (int i = 0; i < 2; i++) { MC_CHECK(o[i].runs <= 1, "ran %d times", o[i].runs); delete once[i]; }
	}
}
