/* Octave function ftq(cmd, a, b): access to the fault layer from inside Octave. */
#include "mex.h"
extern void ft_reset(void);
extern void ft_arm(long, long);
extern long ft_count(void), ft_live(void), ft_badfree(void), ft_plans(void), ft_planbad(void);
void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
  int cmd = (int)mxGetScalar(prhs[0]);
  if (cmd == 0) ft_reset();
  if (cmd == 1) ft_arm((long)mxGetScalar(prhs[1]), (long)mxGetScalar(prhs[2]));
  plhs[0] = mxCreateDoubleMatrix(1, 5, mxREAL);
  double* o = mxGetPr(plhs[0]);
  o[0] = ft_count(), o[1] = ft_live(), o[2] = ft_badfree(), o[3] = ft_plans(),
  o[4] = ft_planbad();
}
